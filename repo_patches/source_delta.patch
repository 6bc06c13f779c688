From 3fa4843ca7be80c298b3bc4b37af92a3a56fc5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 01/83] fix: mem store query with two criteria on one tag name
 ignored the first one

---
 legacy/mem/mem.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index bbdad0e..6b143ab 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -287,14 +287,14 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, "")
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults[exp] = &queryResult{keys: keys, dbEntries: dbEntries}
 		case expressionTagNameAndValueLength:
 			expressionTagName := expressionSplit[0]
 			expressionTagValue := expressionSplit[1]
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, expressionTagValue)
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults[exp] = &queryResult{keys: keys, dbEntries: dbEntries}
 		default:
 			return nil, errInvalidQueryExpressionFormat
 		}
-- 
2.43.0


From 22da4b42acbd257b42945f4269b61185c03cea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 02/83] fix: mem store query evaluated its criteria on
 different states of the store

---
 legacy/mem/mem.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 6b143ab..99f1d6e 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -279,6 +279,10 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 
 	queryResults := make(map[string]*queryResult)
 
+	// All criteria must be evaluated on one state of the store.
+	m.RLock()
+	defer m.RUnlock()
+
 	for _, exp := range strings.Split(expression, "&&") {
 		expressionSplit := strings.Split(exp, ":")
 		switch len(expressionSplit) {
@@ -372,9 +376,6 @@ func (m *memStore) getMatchingKeysAndDBEntries(tagName, tagValue string) ([]stri
 
 	var dbEntries []dbEntry
 
-	m.RLock()
-	defer m.RUnlock()
-
 	for key, dbEntry := range m.db {
 		for _, tag := range dbEntry.tags {
 			if tag.Name == tagName && (matchAnyValue || tag.Value == tagValue) {
-- 
2.43.0


From 1361dad6ba71a74b45c8176a764668d435ee3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 03/83] fix: mem provider GetStoreConfig read shared state
 without the lock

---
 legacy/mem/mem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 99f1d6e..23b4350 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -97,6 +97,9 @@ func (p *Provider) SetStoreConfig(name string, config spi.StoreConfiguration) er
 func (p *Provider) GetStoreConfig(name string) (spi.StoreConfiguration, error) {
 	storeName := strings.ToLower(name)
 
+	p.lock.RLock()
+	defer p.lock.RUnlock()
+
 	store := p.dbs[storeName]
 	if store == nil {
 		return spi.StoreConfiguration{}, spi.ErrStoreNotFound
-- 
2.43.0


From 58ae8699511f3077f7ee245966c24cd26f069764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 04/83] fix: mem store batch accepted tags that put rejects

---
 legacy/mem/mem.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 23b4350..79f07d1 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -340,6 +340,16 @@ func (m *memStore) Batch(operations []spi.Operation) error {
 		if operation.Key == "" {
 			return errEmptyKey
 		}
+
+		for _, tag := range operation.Tags {
+			if strings.Contains(tag.Name, ":") {
+				return fmt.Errorf(invalidTagName, tag.Name)
+			}
+
+			if strings.Contains(tag.Value, ":") {
+				return fmt.Errorf(invalidTagValue, tag.Value)
+			}
+		}
 	}
 
 	for _, operation := range operations {
-- 
2.43.0


From 54124fa27686d3773345fe22065cbf292f6821fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 05/83] fix: closing a mem store again closed the store
 reopened under its name

---
 legacy/mem/mem.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 79f07d1..4d247c8 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -57,7 +57,8 @@ func (p *Provider) OpenStore(name string) (spi.Store, error) {
 
 	store := p.dbs[storeName]
 	if store == nil {
-		newStore := &memStore{name: storeName, db: make(map[string]dbEntry), close: p.removeStore}
+		newStore := &memStore{name: storeName, db: make(map[string]dbEntry)}
+		newStore.close = func(name string) { p.removeStore(name, newStore) }
 		p.dbs[storeName] = newStore
 
 		return newStore, nil
@@ -141,12 +142,13 @@ func (p *Provider) Ping() error {
 	return nil
 }
 
-func (p *Provider) removeStore(name string) {
+func (p *Provider) removeStore(name string, closed *memStore) {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
-	_, ok := p.dbs[name]
-	if ok {
+	// A store that was closed before may have been replaced by a newly opened one, which stays open.
+	store, ok := p.dbs[name]
+	if ok && store == closed {
 		delete(p.dbs, name)
 	}
 }
-- 
2.43.0


From 07add65bcfa03626428e8c77c0050029bd5b3096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 06/83] fix: status check panicked on a status list credential
 without subject

---
 status/status.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/status.go b/status/status.go
index 1b2c8a1..c042831 100644
--- a/status/status.go
+++ b/status/status.go
@@ -92,6 +92,9 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 	}
 
 	credSubject := statusListVCC.Subject
+	if len(credSubject) == 0 {
+		return errors.New("status list vc has no credential subject")
+	}
 
 	encodedList, ok := credSubject[0].CustomFields["encodedList"].(string)
 	if !ok {
-- 
2.43.0


From a6129a498e3f5abce4652c552419970fe0d1c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 07/83] fix: reject linked data documents with an empty proof
 list

---
 verifiable/lddocument/verifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verifiable/lddocument/verifier.go b/verifiable/lddocument/verifier.go
index 92d38ff..c02e8eb 100644
--- a/verifiable/lddocument/verifier.go
+++ b/verifiable/lddocument/verifier.go
@@ -58,6 +58,10 @@ func (dv *DocumentVerifier) VerifyObject(jsonLdObject map[string]interface{},
 		return err
 	}
 
+	if len(proofs) == 0 {
+		return proof.ErrProofNotFound
+	}
+
 	for _, p := range proofs {
 		message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
 			wrapped:      dv.proofChecker,
-- 
2.43.0


From 5773a27316c293156d51cdd965d477616cfbb2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 08/83] fix: reject data integrity documents with an empty
 proof list

---
 dataintegrity/verifier.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 32068cc..69d2a89 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -100,7 +100,12 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 		return ErrMalformedProof
 	}
 
-	for _, proof := range proofRaw.Array() {
+	proofs := proofRaw.Array()
+	if len(proofs) == 0 {
+		return ErrMissingProof
+	}
+
+	for _, proof := range proofs {
 		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, opts); err != nil {
 			return err
 		}
-- 
2.43.0


From 2a418d3350c130d0858b1f5c3257afa5b5767332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 09/83] fix: verify each data integrity proof with its own
 options

---
 dataintegrity/verifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 69d2a89..a2f22d5 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -116,8 +116,12 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 
 func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 	proofRaw, unsecuredDoc []byte,
-	opts *models.ProofOptions,
+	expected *models.ProofOptions,
 ) error {
+	// What is taken from this proof must not leak to other proofs or to the caller.
+	proofOpts := *expected
+	opts := &proofOpts
+
 	proof := &models.Proof{}
 
 	err := json.Unmarshal(proofRaw, proof)
-- 
2.43.0


From eee0a10c731c68a195a85aa3575d419c958ec47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 10/83] fix: cover domain and challenge of a data integrity
 proof that are not expected

---
 dataintegrity/verifier.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index a2f22d5..e80b64e 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -185,8 +185,6 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return err
 	}
 
-	verifyResult := verifierSuite.VerifyProof(unsecuredDoc, proof, opts)
-
 	if opts.Domain != "" && opts.Domain != proof.Domain {
 		return ErrInvalidDomain
 	}
@@ -195,5 +193,9 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return ErrInvalidChallenge
 	}
 
-	return verifyResult
+	// The signature covers the domain and challenge of the proof, also if none is expected.
+	opts.Domain = proof.Domain
+	opts.Challenge = proof.Challenge
+
+	return verifierSuite.VerifyProof(unsecuredDoc, proof, opts)
 }
-- 
2.43.0


From a613d48be88ede5494bf3e570baa421ce0874042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 11/83] fix: name the requested suite in eddsa data integrity
 proofs

---
 dataintegrity/suite/eddsa2022/eddsa2022.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index d6c5dbe..0cce9d6 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -174,6 +174,10 @@ const (
 
 // CreateProof implements the eddsa-2022 cryptographic suite for Add Proof.
 func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proof, error) {
+	if opts.SuiteType == "" {
+		opts.SuiteType = SuiteType
+	}
+
 	docHash, vmKey, _, err := s.transformAndHash(doc, opts)
 	if err != nil {
 		return nil, err
@@ -196,7 +200,7 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 
 	p := &models.Proof{
 		Type:               models.DataIntegrityProof,
-		CryptoSuite:        SuiteType,
+		CryptoSuite:        opts.SuiteType,
 		ProofPurpose:       opts.Purpose,
 		Domain:             opts.Domain,
 		Challenge:          opts.Challenge,
-- 
2.43.0


From 2f9dd9d7afd86b179321256c94f27fa18fde5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 12/83] fix: accept a data integrity proof on a credential only
 from its issuer

---
 verifiable/embedded_proof.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 0ecb2c2..7190e4c 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strings"
 
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
 
@@ -70,7 +71,12 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 				return err
 			}
 
-			return checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
+			err = checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
+			if err != nil || expectedProofIssuer == nil {
+				return err
+			}
+
+			return checkDataIntegrityProofIssuer(proofs, *expectedProofIssuer)
 		}
 	}
 
@@ -87,6 +93,20 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 	return nil
 }
 
+// checkDataIntegrityProofIssuer checks that the verification methods of all proofs belong to the expected issuer.
+func checkDataIntegrityProofIssuer(proofs []map[string]interface{}, expectedProofIssuer string) error {
+	for _, proof := range proofs {
+		verificationMethod, _ := proof["verificationMethod"].(string) //nolint:errcheck
+
+		if strings.Split(verificationMethod, "#")[0] != expectedProofIssuer {
+			return fmt.Errorf("data integrity proof verification method %q does not belong to issuer %q",
+				verificationMethod, expectedProofIssuer)
+		}
+	}
+
+	return nil
+}
+
 func getProofs(proofElement interface{}) ([]map[string]interface{}, error) {
 	switch p := proofElement.(type) {
 	case map[string]interface{}:
-- 
2.43.0


From 26a5f5e4e17c4b2f3e17cca6229a1707a93f2a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 13/83] fix: reject data integrity proofs whose times are not
 written as signed

---
 dataintegrity/verifier.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index e80b64e..a998417 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -154,7 +154,7 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		var parsedCreatedTime time.Time
 
 		parsedCreatedTime, err = time.Parse(models.DateTimeFormat, proof.Created)
-		if err != nil {
+		if err != nil || parsedCreatedTime.Format(models.DateTimeFormat) != proof.Created {
 			return ErrMalformedProof
 		}
 
@@ -165,7 +165,7 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		var parsedExpiresTime time.Time
 
 		parsedExpiresTime, err = time.Parse(models.DateTimeFormat, proof.Expires)
-		if err != nil {
+		if err != nil || parsedExpiresTime.Format(models.DateTimeFormat) != proof.Expires {
 			return ErrMalformedProof
 		}
 
-- 
2.43.0


From 14206d5404f6cef9f646edec7998695c8de9fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 14/83] fix: keep the order of SD-JWT disclosures when decoding
 them

---
 sdjwt/common/common.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sdjwt/common/common.go b/sdjwt/common/common.go
index 98f8264..f90d374 100644
--- a/sdjwt/common/common.go
+++ b/sdjwt/common/common.go
@@ -140,8 +140,20 @@ func GetDisclosureClaims(
 
 	final := make([]*DisclosureClaim, 0, len(disclosureClaims))
 
-	for _, disclosureClaim := range recData.disclosures {
-		final = append(final, disclosureClaim)
+	// Keep the order of the given disclosures.
+	seen := make(map[string]bool, len(disclosures))
+
+	for _, disclosure := range disclosures {
+		digest, hashErr := GetHash(hash, disclosure)
+		if hashErr != nil {
+			return nil, fmt.Errorf("get disclosure hash: %w", hashErr)
+		}
+
+		if disclosureClaim, ok := disclosureClaims[digest]; ok && !seen[digest] {
+			seen[digest] = true
+
+			final = append(final, disclosureClaim)
+		}
 	}
 
 	return final, nil
-- 
2.43.0


From 1a8dfda77bb775cfbf0ad323d5939db4487afe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 15/83] fix: present every disclosure with a selected name, in
 order

---
 verifiable/credential_sdjwt.go | 38 ++++++++++++----------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 380cc19..06c7f5c 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -224,43 +224,31 @@ func filterDisclosures(
 	disclosures []*common.DisclosureClaim,
 	ifAvailable, required []string,
 ) ([]*common.DisclosureClaim, error) {
-	ifAvailMap := map[string]*common.DisclosureClaim{}
-	reqMap := map[string]*common.DisclosureClaim{}
+	selected := map[string]bool{}
+	missing := map[string]bool{}
 
 	for _, name := range ifAvailable {
-		ifAvailMap[name] = nil
+		selected[name] = true
 	}
 
 	for _, name := range required {
-		reqMap[name] = nil
-
-		delete(ifAvailMap, name) // avoid listing a disclosure twice, if it's in both lists
-	}
-
-	for _, disclosure := range disclosures {
-		if _, ok := ifAvailMap[disclosure.Name]; ok {
-			ifAvailMap[disclosure.Name] = disclosure
-		}
-
-		if _, ok := reqMap[disclosure.Name]; ok {
-			reqMap[disclosure.Name] = disclosure
-		}
+		selected[name] = true
+		missing[name] = true
 	}
 
 	var out []*common.DisclosureClaim
 
-	for _, claim := range ifAvailMap {
-		if claim != nil {
-			out = append(out, claim)
-		}
-	}
+	// Several disclosures may have the same name: all of them are selected, in the order of the credential.
+	for _, disclosure := range disclosures {
+		if selected[disclosure.Name] {
+			out = append(out, disclosure)
 
-	for _, claim := range reqMap {
-		if claim == nil {
-			return nil, errors.New("disclosure list missing required claim")
+			delete(missing, disclosure.Name)
 		}
+	}
 
-		out = append(out, claim)
+	if len(missing) > 0 {
+		return nil, errors.New("disclosure list missing required claim")
 	}
 
 	return out, nil
-- 
2.43.0


From bcab5074367b10d7284f417e87ad94087322cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 16/83] fix: keep null claims and empty arrays in disclosed
 SD-JWT claims

---
 sdjwt/common/verification.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index fc72bda..73262e5 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -156,7 +156,7 @@ func setDisclosureClaimValue(recData *recursiveData, disclosureClaim *Disclosure
 func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{}, error) { // nolint:funlen,gocyclo
 	switch disclosureValue := claim.(type) {
 	case []interface{}:
-		var newValues []interface{}
+		newValues := make([]interface{}, 0, len(disclosureValue))
 
 		for _, value := range disclosureValue {
 			parsedMap, ok := getMap(value)
@@ -212,10 +212,6 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 			newValues = append(newValues, disclosureClaim.Value)
 		}
 
-		if len(newValues) == 0 {
-			return nil, nil
-		}
-
 		return newValues, nil
 	case map[string]interface{}:
 		newValues := make(map[string]interface{}, len(disclosureValue))
@@ -285,9 +281,11 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 				return nil, fmt.Errorf("claim name '%s' already exists at the same level", k)
 			}
 
-			if newValue != nil {
-				newValues[k] = newValue
+			if isUndisclosedArray(disclosureNestedClaim, newValue) {
+				continue
 			}
+
+			newValues[k] = newValue
 		}
 
 		return newValues, nil
@@ -296,6 +294,18 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 	}
 }
 
+// isUndisclosedArray tells if none of the elements of the array has been disclosed.
+func isUndisclosedArray(original, disclosed interface{}) bool {
+	originalValues, ok := original.([]interface{})
+	if !ok {
+		return false
+	}
+
+	disclosedValues, ok := disclosed.([]interface{})
+
+	return ok && len(originalValues) > 0 && len(disclosedValues) == 0
+}
+
 // getDisclosureClaims parses disclosures and returns map[string]*DisclosureClaim,
 // where the key is disclosure digest calculated using provided hash.
 func getDisclosureClaims(disclosures []string, hash crypto.Hash) (map[string]*DisclosureClaim, error) {
-- 
2.43.0


From f5fe0139f758edd65c7489161b4e2b63abc93137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 17/83] fix: process digests nested in SD-JWT array elements

---
 sdjwt/common/verification.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index 73262e5..cb9614f 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -161,16 +161,28 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 		for _, value := range disclosureValue {
 			parsedMap, ok := getMap(value)
 			if !ok {
-				// If it's not a map - use value as it is.
-				newValues = append(newValues, value)
+				// If it's not a map - it may be an array, having nested digests.
+				newValue, err := discloseClaimValue(value, recData)
+				if err != nil {
+					return nil, err
+				}
+
+				newValues = append(newValues, newValue)
+
 				continue
 			}
 
 			// Find all array elements that are objects with one key, that key being ... and referring to a string.
 			arrayElementDigestIface, ok := parsedMap[ArrayElementDigestKey]
 			if !ok {
-				// If it's not a array element digest - object - use value as it is.
-				newValues = append(newValues, value)
+				// If it's not a array element digest - object, that may have nested digests.
+				newValue, err := discloseClaimValue(parsedMap, recData)
+				if err != nil {
+					return nil, err
+				}
+
+				newValues = append(newValues, newValue)
+
 				continue
 			}
 
-- 
2.43.0


From b25e6137ec9d6a71f002d75ae8bc6033068b0e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 18/83] fix: do not issue decoy digests of SD-JWT V5 as
 disclosures

---
 sdjwt/issuer/v5.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 8966af0..995ed79 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -96,12 +96,14 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 	ignorePrimitives bool,
 ) ([]*DisclosureEntity, map[string]interface{}, error) {
 	digestsMap := map[string]interface{}{}
-	finalSDDigest, err := createDecoyDisclosures(opts)
+	decoyDisclosures, err := createDecoyDisclosures(opts)
 
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to create decoy disclosures: %w", err)
 	}
 
+	var finalSDDigest []*DisclosureEntity
+
 	var allDisclosures []*DisclosureEntity
 
 	for key, value := range claims {
@@ -237,7 +239,7 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 		}
 	}
 
-	digests, err := createDigests(finalSDDigest, opts)
+	digests, err := createDigests(append(decoyDisclosures, finalSDDigest...), opts)
 
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From f56c164bd29a57b84451dc88be982730c988dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 19/83] fix: issue SD-JWT V5 with null claims

---
 sdjwt/issuer/v5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 995ed79..638267f 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -112,7 +112,7 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 			curPath = path + "." + key
 		}
 
-		kind := reflect.TypeOf(value).Kind()
+		kind := reflect.ValueOf(value).Kind()
 
 		valOption := s.extractValueOptions(curPath, opts)
 
-- 
2.43.0


From 6663a921bc1f5cfef9d70b55153037844382ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 20/83] fix: issue SD-JWT V5 with an empty claim name

---
 sdjwt/issuer/v5.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 638267f..3ea9ab9 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -273,7 +273,7 @@ func (s *SDJWTBuilderV5) processArrayElements(
 			continue
 		}
 
-		disclosure, err := s.createDisclosure("", elementValue, opts)
+		disclosure, err := s.createArrayElementDisclosure(elementValue, opts)
 		if err != nil {
 			return nil, nil,
 				fmt.Errorf("create element disclosure for path [%v]: %w", elementPath, err)
@@ -296,6 +296,22 @@ func (s *SDJWTBuilderV5) createDisclosure(
 	key string,
 	value interface{},
 	opts *newOpts,
+) (*DisclosureEntity, error) {
+	return s.newDisclosure(key, []interface{}{key, value}, value, opts)
+}
+
+func (s *SDJWTBuilderV5) createArrayElementDisclosure(
+	value interface{},
+	opts *newOpts,
+) (*DisclosureEntity, error) {
+	return s.newDisclosure("", []interface{}{value}, value, opts)
+}
+
+func (s *SDJWTBuilderV5) newDisclosure(
+	key string,
+	elements []interface{},
+	value interface{},
+	opts *newOpts,
 ) (*DisclosureEntity, error) {
 	if opts.getSalt == nil {
 		return nil, errors.New("missing salt function")
@@ -310,13 +326,7 @@ func (s *SDJWTBuilderV5) createDisclosure(
 	finalDis := &DisclosureEntity{
 		Salt: salt,
 	}
-	disclosure := []interface{}{salt}
-
-	if key != "" {
-		disclosure = append(disclosure, key)
-	}
-
-	disclosure = append(disclosure, value)
+	disclosure := append([]interface{}{salt}, elements...)
 
 	disclosureBytes, err := opts.jsonMarshal(disclosure)
 	if err != nil {
-- 
2.43.0


From df60960256c8c214fd88ca26aad3d26066eaad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 21/83] fix: use a goroutine-safe random source when issuing
 SD-JWTs

---
 sdjwt/issuer/issuer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sdjwt/issuer/issuer.go b/sdjwt/issuer/issuer.go
index 6390df7..37b8c43 100644
--- a/sdjwt/issuer/issuer.go
+++ b/sdjwt/issuer/issuer.go
@@ -49,7 +49,6 @@ import (
 	"fmt"
 	mathrand "math/rand"
 	"strings"
-	"time"
 
 	"github.com/go-jose/go-jose/v3/jwt"
 
@@ -72,8 +71,6 @@ const (
 	vcKey                = "vc"
 )
 
-var mr = mathrand.New(mathrand.NewSource(time.Now().Unix())) // nolint:gochecknoglobals
-
 // Claims defines JSON Web Token Claims (https://tools.ietf.org/html/rfc7519#section-4)
 type Claims jwt.Claims
 
@@ -504,7 +501,7 @@ func createDigests(disclosures []*DisclosureEntity, nOpts *newOpts) ([]string, e
 		digests = append(digests, digest)
 	}
 
-	mr.Shuffle(len(digests), func(i, j int) {
+	mathrand.Shuffle(len(digests), func(i, j int) {
 		digests[i], digests[j] = digests[j], digests[i]
 	})
 
@@ -527,7 +524,7 @@ func createDecoyDisclosures(opts *newOpts) ([]*DisclosureEntity, error) {
 		return nil, nil
 	}
 
-	n := mr.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements
+	n := mathrand.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements // nolint:gosec
 
 	var decoyDisclosures []*DisclosureEntity
 
-- 
2.43.0


From 25248a1683255482384bf96c92ee8c6b38c311a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 22/83] fix: do not change the caller's credential when issuing
 an SD-JWT

---
 sdjwt/issuer/issuer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdjwt/issuer/issuer.go b/sdjwt/issuer/issuer.go
index 37b8c43..8550825 100644
--- a/sdjwt/issuer/issuer.go
+++ b/sdjwt/issuer/issuer.go
@@ -434,6 +434,9 @@ func NewFromVC(vc map[string]interface{}, headers jose.Headers,
 		return nil, err
 	}
 
+	// do not change the caller's credential
+	vc = utils.CopyMap(vc)
+
 	vcClaims, err := getBuilderByVersion(nOpts.version).ExtractCredentialClaims(vc)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From fc924753bd71c6d7032f633ad018f3ef2c97bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 23/83] fix: keep JSON numbers of JWT claims numbers

---
 jwt/jwt.go | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/jwt/jwt.go b/jwt/jwt.go
index 39c64a0..825e31b 100644
--- a/jwt/jwt.go
+++ b/jwt/jwt.go
@@ -9,6 +9,7 @@ package jwt
 import (
 	"bytes"
 	"encoding/base64"
+	stdjson "encoding/json"
 	"errors"
 	"fmt"
 	"reflect"
@@ -164,7 +165,7 @@ func CheckProof(jwtSerialized string, proofChecker ProofChecker,
 
 // DecodeClaims fills input c with claims of a token.
 func (j *JSONWebToken) DecodeClaims(c interface{}) error {
-	pBytes, err := json.Marshal(j.Payload)
+	pBytes, err := stdjson.Marshal(standardNumbers(j.Payload))
 	if err != nil {
 		return err
 	}
@@ -261,7 +262,7 @@ func NewJoseSigned(claims interface{}, headers jose.Headers, signer jose.Signer)
 		return nil, fmt.Errorf("unmarshallable claims: %w", err)
 	}
 
-	payloadBytes, err := json.Marshal(payloadMap)
+	payloadBytes, err := stdjson.Marshal(standardNumbers(payloadMap))
 	if err != nil {
 		return nil, fmt.Errorf("marshal JWT claims: %w", err)
 	}
@@ -395,5 +396,44 @@ func PayloadToMap(i interface{}) (map[string]interface{}, error) {
 		return nil, fmt.Errorf("convert to map: %w", err)
 	}
 
+	for k, v := range m {
+		m[k] = standardNumbers(v)
+	}
+
 	return m, nil
 }
+
+// standardNumbers replaces go-jose JSON numbers by the ones of encoding/json,
+// which would otherwise marshal them as JSON strings.
+func standardNumbers(v interface{}) interface{} {
+	switch val := v.(type) {
+	case json.Number:
+		return stdjson.Number(val)
+	case map[string]interface{}:
+		if val == nil {
+			return val
+		}
+
+		converted := make(map[string]interface{}, len(val))
+
+		for k, elem := range val {
+			converted[k] = standardNumbers(elem)
+		}
+
+		return converted
+	case []interface{}:
+		if val == nil {
+			return val
+		}
+
+		converted := make([]interface{}, len(val))
+
+		for i, elem := range val {
+			converted[i] = standardNumbers(elem)
+		}
+
+		return converted
+	default:
+		return v
+	}
+}
-- 
2.43.0


From 977bb84d6e0ef95ed94a560bfbfd75561f8504a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 24/83] fix: issue empty arrays of SD-JWT V5 claims as empty
 arrays

---
 sdjwt/issuer/v5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 3ea9ab9..8725807 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -259,7 +259,7 @@ func (s *SDJWTBuilderV5) processArrayElements(
 ) ([]interface{}, []*DisclosureEntity, error) {
 	valSl := reflect.ValueOf(value)
 
-	var digestArr []interface{}
+	digestArr := make([]interface{}, 0, valSl.Len())
 
 	var elementsDisclosures []*DisclosureEntity
 
-- 
2.43.0


From 287120f05b42453e472d07c5e746d8aeaeac1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 25/83] fix: reject SD-JWT disclosures with a reserved claim
 name

---
 sdjwt/common/verification.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index cb9614f..0998ce7 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -397,6 +397,11 @@ func enrichWithSDElement(claim *DisclosureClaim, disclosureElementsArr []interfa
 		return fmt.Errorf("disclosure name type[%T] must be string", disclosureElementsArr[1])
 	}
 
+	// If the claim name is _sd or ..., the SD-JWT MUST be rejected.
+	if name == SDKey || name == ArrayElementDigestKey {
+		return fmt.Errorf("disclosure name '%s' is reserved", name)
+	}
+
 	claim.Name = name
 	claim.Value = disclosureElementsArr[sdDigestValuePosition]
 
-- 
2.43.0


From f5b4a1fb510d9587a21856ffc246ef280ff7250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 26/83] fix: fail instead of panicking when a JWT proof is
 checked without a proof checker

---
 jwt/jose_wrappers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jwt/jose_wrappers.go b/jwt/jose_wrappers.go
index 482039c..e06c7ea 100644
--- a/jwt/jose_wrappers.go
+++ b/jwt/jose_wrappers.go
@@ -50,6 +50,10 @@ type joseVerifier struct {
 }
 
 func (v *joseVerifier) Verify(joseHeaders jose.Headers, _, signingInput, signature []byte) error {
+	if v.proofChecker == nil {
+		return errors.New("proof checker is not defined")
+	}
+
 	var expectedProofIssuer string
 
 	if v.expectedProofIssuer != nil {
-- 
2.43.0


From a70dcf5f96d35ba09d3872615b7da9cb9643b309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 27/83] fix: reject SD-JWT time claims that are out of range

---
 util/maphelpers/mapstruct.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/maphelpers/mapstruct.go b/util/maphelpers/mapstruct.go
index 0d0f17c..a558a18 100644
--- a/util/maphelpers/mapstruct.go
+++ b/util/maphelpers/mapstruct.go
@@ -8,6 +8,7 @@ package maphelpers
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -17,6 +18,9 @@ import (
 	"github.com/mitchellh/mapstructure"
 )
 
+// maxNumericDate is the highest integer up to which JSON numbers are exact.
+const maxNumericDate = 1 << 53
+
 // JSONNumberToJwtNumericDate hook for mapstructure library to decode json.Number to jwt.NumericDate.
 func JSONNumberToJwtNumericDate() mapstructure.DecodeHookFuncType {
 	return func(
@@ -33,6 +37,10 @@ func JSONNumberToJwtNumericDate() mapstructure.DecodeHookFuncType {
 			return nil, err
 		}
 
+		if math.Abs(parsedFloat) > maxNumericDate {
+			return nil, fmt.Errorf("numeric date '%s' is out of range", data)
+		}
+
 		date := jwt.NewNumericDate(time.Unix(int64(parsedFloat), 0))
 
 		if t.String() == "jwt.NumericDate" {
-- 
2.43.0


From cf3447d35b8967c60241c6a3257335694c611251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 28/83] fix: display credential shows only the given nested
 disclosures

---
 verifiable/credential_sdjwt.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 06c7f5c..681b858 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -484,7 +484,10 @@ func (vc *Credential) CreateDisplayCredential( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := filterDisclosureList(vc, options)
+	if err != nil {
+		return nil, fmt.Errorf("filter disclosures: %w", err)
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -546,7 +549,10 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := filterDisclosureList(vc, options)
+	if err != nil {
+		return nil, fmt.Errorf("filter disclosures: %w", err)
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -560,9 +566,11 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 	return newVCObj, nil
 }
 
-func filterDisclosureList(disclosures []*common.DisclosureClaim, options *displayCredOpts) []*common.DisclosureClaim {
+func filterDisclosureList(vc *Credential, options *displayCredOpts) ([]*common.DisclosureClaim, error) {
+	disclosures := vc.JWTEnvelope.SDJWTDisclosures
+
 	if options.displayAll {
-		return disclosures
+		return disclosures, nil
 	}
 
 	displayGivenMap := map[string]struct{}{}
@@ -571,15 +579,17 @@ func filterDisclosureList(disclosures []*common.DisclosureClaim, options *displa
 		displayGivenMap[given] = struct{}{}
 	}
 
-	var out []*common.DisclosureClaim
+	var given []string
 
 	for _, disclosure := range disclosures {
 		if _, ok := displayGivenMap[disclosure.Name]; ok {
-			out = append(out, disclosure)
+			given = append(given, disclosure.Disclosure)
 		}
 	}
 
-	return out
+	// The values of the credential's disclosures are resolved using all of them, so a recursive disclosure's value
+	// includes nested claims that are not displayed. Resolve the values again using only the given disclosures.
+	return common.GetDisclosureClaims(given, *vc.credentialContents.SDJWTHashAlg)
 }
 
 func clearEmpty(claims map[string]interface{}) {
-- 
2.43.0


From 5e9bf9577f03c965185979e847a0a9a46a84e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 29/83] fix: parse an SD-JWT credential presented without
 disclosures as SD-JWT

---
 verifiable/credential_parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential_parser.go b/verifiable/credential_parser.go
index f95d4cd..287d56d 100644
--- a/verifiable/credential_parser.go
+++ b/verifiable/credential_parser.go
@@ -68,7 +68,13 @@ func (p *CredentialJSONParser) Parse( //nolint:funlen,gocyclo // Old function
 		return nil, errors.Join(errUnsupportedCredentialFormat, err)
 	}
 
-	contents, err := parseCredentialContents(vcJSON, jwtParseRes.isSDJWT)
+	isSDJWT := jwtParseRes.isSDJWT
+	if jwtParseRes.isJWS && !isSDJWT {
+		// An SD-JWT presented without any disclosure has no separators.
+		_, isSDJWT = vcJSON[jsonFldSDJWTHashAlg]
+	}
+
+	contents, err := parseCredentialContents(vcJSON, isSDJWT)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0f158469ed367baefb21ef35475ecc576f2359b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 30/83] fix: displaying a credential no longer changes its
 disclosure values

---
 verifiable/credential_sdjwt.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 681b858..3e1468a 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -567,12 +567,6 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 }
 
 func filterDisclosureList(vc *Credential, options *displayCredOpts) ([]*common.DisclosureClaim, error) {
-	disclosures := vc.JWTEnvelope.SDJWTDisclosures
-
-	if options.displayAll {
-		return disclosures, nil
-	}
-
 	displayGivenMap := map[string]struct{}{}
 
 	for _, given := range options.displayGiven {
@@ -581,14 +575,15 @@ func filterDisclosureList(vc *Credential, options *displayCredOpts) ([]*common.D
 
 	var given []string
 
-	for _, disclosure := range disclosures {
-		if _, ok := displayGivenMap[disclosure.Name]; ok {
+	for _, disclosure := range vc.JWTEnvelope.SDJWTDisclosures {
+		if _, ok := displayGivenMap[disclosure.Name]; ok || options.displayAll {
 			given = append(given, disclosure.Disclosure)
 		}
 	}
 
 	// The values of the credential's disclosures are resolved using all of them, so a recursive disclosure's value
-	// includes nested claims that are not displayed. Resolve the values again using only the given disclosures.
+	// includes nested claims that may not be displayed. Resolve the values again using only the given disclosures;
+	// this also keeps the displayed values separate from those of the credential.
 	return common.GetDisclosureClaims(given, *vc.credentialContents.SDJWTHashAlg)
 }
 
-- 
2.43.0


From 134a23d5364ea9059c78f31b592ae56f67ceb426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 31/83] fix: tokens without registered claims or without
 credential claims no longer panic

---
 verifiable/credential_jwt.go   | 8 ++++++++
 verifiable/presentation_jwt.go | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index b6f3785..1049ac0 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -183,6 +183,14 @@ func (jcc *JWTCredClaims) refineFromJWTClaims() error {
 	vcMap := jcc.VC
 	claims := jcc.Claims
 
+	if vcMap == nil {
+		return errors.New("JWT has no credential claims")
+	}
+
+	if claims == nil {
+		return nil
+	}
+
 	if iss := claims.Issuer; iss != "" {
 		err := refineVCIssuerFromJWTClaims(vcMap, iss)
 		if err != nil {
diff --git a/verifiable/presentation_jwt.go b/verifiable/presentation_jwt.go
index e384815..368e302 100644
--- a/verifiable/presentation_jwt.go
+++ b/verifiable/presentation_jwt.go
@@ -7,6 +7,7 @@ package verifiable
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/trustbloc/vc-go/jwt"
@@ -20,6 +21,10 @@ type JWTPresClaims struct {
 }
 
 func (jpc *JWTPresClaims) refineFromJWTClaims() {
+	if jpc.Claims == nil {
+		return
+	}
+
 	raw := jpc.Presentation
 
 	if jpc.Issuer != "" {
@@ -79,6 +84,10 @@ func decodePresJWT(vpJWT string, unmarshaller JWTPresClaimsUnmarshaller) ([]byte
 		return nil, nil, fmt.Errorf("decode Verifiable Presentation JWT claims: %w", err)
 	}
 
+	if presClaims.Presentation == nil {
+		return nil, nil, errors.New("JWT has no \"vp\" claim")
+	}
+
 	// Apply VC-related claims from JWT.
 	presClaims.refineFromJWTClaims()
 
-- 
2.43.0


From 373e958f42d3ec5066af00185a1465feb11dcb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 32/83] fix: proof check with external contexts no longer
 changes the credential's context

---
 verifiable/embedded_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 7190e4c..fbad2c4 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -14,6 +14,7 @@ import (
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
 
 	"github.com/trustbloc/vc-go/dataintegrity/models"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 	"github.com/trustbloc/vc-go/verifiable/lddocument"
 )
 
@@ -58,6 +59,8 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 
 	if len(opts.externalContext) > 0 {
 		// Use external contexts for check of the linked data proofs to enrich JSON-LD context vocabulary.
+		// The caller's document keeps its own contexts.
+		jsonldDoc = jsonutil.ShallowCopyObj(jsonldDoc)
 		jsonldDoc["@context"] = jsonld.AppendExternalContexts(jsonldDoc["@context"], opts.externalContext...)
 	}
 
-- 
2.43.0


From b47b63a222f3ceeda29a3e8d9d34b741be3e2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 33/83] fix: check the proof of CWT presentations

---
 verifiable/presentation_parser.go | 39 +++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 97c6195..e471df6 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -16,7 +16,9 @@ import (
 	"github.com/samber/lo"
 	"github.com/veraison/go-cose"
 
+	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/jwt"
+	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 )
 
 type parsePresentationResponse struct {
@@ -117,10 +119,9 @@ type VpCWT struct {
 type PresentationCWTParser struct {
 }
 
-func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*parsePresentationResponse, error) {
+func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (*parsePresentationResponse, error) {
 	var rawErr, hexRawErr, hexErr error
 
-	// todo proof checker !!
 	message, rawErr := p.parsePres(vpData)
 
 	if rawErr != nil {
@@ -148,6 +149,12 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 
 	convertedMap := convertToStringMap(vpMap)
 
+	if !vpOpts.disabledProofCheck {
+		if err := checkPresentationCWTProof(message, convertedMap, vpOpts.proofChecker); err != nil {
+			return nil, err
+		}
+	}
+
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
 	if !ok {
 		// do nothing
@@ -165,6 +172,34 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 	}, nil
 }
 
+func checkPresentationCWTProof(
+	message *cose.Sign1Message,
+	claims map[string]interface{},
+	proofChecker CombinedProofChecker,
+) error {
+	if proofChecker == nil {
+		return errors.New("proof checker is not defined")
+	}
+
+	// The presentation is issued by its holder: if it names one, the proof should be of that holder.
+	var expectedProofIssuer *string
+	if iss, ok := claims["iss"].(string); ok && iss != "" {
+		expectedProofIssuer = &iss
+	}
+
+	proofValue, err := cwt2.GetProofValue(message)
+	if err != nil {
+		return err
+	}
+
+	err = cwt.CheckProof(message, proofChecker, expectedProofIssuer, proofValue, message.Signature)
+	if err != nil {
+		return fmt.Errorf("CWT proof check: %w", err)
+	}
+
+	return nil
+}
+
 func (p *PresentationCWTParser) parsePres(data []byte) (*cose.Sign1Message, error) {
 	var message cose.Sign1Message
 
-- 
2.43.0


From 6e8f933782603391c09646f733c0df733818cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 34/83] fix: do not panic on repeated input descriptor ids

---
 presexch/internal/requirementlogic/requirementlogic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/presexch/internal/requirementlogic/requirementlogic.go b/presexch/internal/requirementlogic/requirementlogic.go
index d1e0e91..6cdc170 100644
--- a/presexch/internal/requirementlogic/requirementlogic.go
+++ b/presexch/internal/requirementlogic/requirementlogic.go
@@ -126,6 +126,10 @@ func NewBitsetIterator(req *RequirementLogic, descs []string) *BitsetSolutionIte
 	i := 0
 
 	for _, desc := range descs {
+		if _, seen := idxMap[desc]; seen {
+			continue
+		}
+
 		if _, ok := reqDescriptors[desc]; ok {
 			idxMap[desc] = i
 			useDescs[i] = desc
-- 
2.43.0


From 9eabc09d4a72d822fe2bf1951be2310af0f61906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 35/83] fix: do not panic on input descriptor filters without a
 type

---
 presexch/definition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 6b3b4f5..eeb0fd0 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1459,7 +1459,7 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 
 	if f.Filter != nil {
 		filter := *f.Filter
-		if *filter.Type == "string" && filter.Format == "date-time" {
+		if filter.Type != nil && *filter.Type == "string" && filter.Format == "date-time" {
 			if val, ok := filter.Minimum.(string); ok && val != "" {
 				if t, err := time.Parse(time.RFC3339, val); err == nil {
 					numFilterType := "number"
-- 
2.43.0


From 1f25690834035bfc721d3c8bd42a7897d306646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 36/83] fix: constraints without fields are satisfied

---
 presexch/definition.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index eeb0fd0..15cad8c 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -962,7 +962,7 @@ func filterConstraints(constraints *Constraints, creds []*verifiable.Credential)
 			continue
 		}
 
-		var applicable bool
+		applicable := true
 
 		var err error
 
@@ -1000,8 +1000,6 @@ func filterConstraints(constraints *Constraints, creds []*verifiable.Credential)
 			if err != nil {
 				return nil, debugCred, fmt.Errorf("filter field.%d: %w", i, err)
 			}
-
-			applicable = true
 		}
 
 		if !applicable {
-- 
2.43.0


From 78b41b95447def14e330a34cd40e5d7cda7e2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 37/83] fix: apply a field filter's own keywords together with
 allOf

---
 presexch/definition.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 15cad8c..0993cc2 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1468,6 +1468,11 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 			}
 		}
 
+		// next to allOf the type is not enforced, all other keywords are
+		if len(filter.AllOf) > 0 {
+			filter.Type = nil
+		}
+
 		schema = gojsonschema.NewGoLoader(filter)
 	}
 
@@ -1610,21 +1615,9 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 		return err
 	}
 
-	var schemasToExecute []gojsonschema.JSONLoader
-
-	for _, all := range field.Filter.AllOf {
-		schemasToExecute = append(schemasToExecute, gojsonschema.NewGoLoader(all))
-	}
-
-	if len(schemasToExecute) == 0 {
-		schemasToExecute = append(schemasToExecute, schema) // fallback
-	}
-
-	for _, sh := range schemasToExecute {
-		result, err := gojsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
-		if err != nil || !result.Valid() {
-			return errors.Join(errPathNotApplicable)
-		}
+	result, err := gojsonschema.Validate(schema, gojsonschema.NewBytesLoader(raw))
+	if err != nil || !result.Valid() {
+		return errors.Join(errPathNotApplicable)
 	}
 
 	return nil
-- 
2.43.0


From 6563f68f8721eddd97ff838c4e6cda1b914c35f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 38/83] fix: an optional field with several paths must match
 the filter where present

---
 presexch/definition.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 0993cc2..ea3a709 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -63,7 +63,10 @@ const (
 	FormatLDPVP = "ldp_vp"
 )
 
-var errPathNotApplicable = errors.New("path not applicable")
+var (
+	errPathNotApplicable = errors.New("path not applicable")
+	errNoValueForPath    = errors.New("no value found for path")
+)
 
 type (
 	// Selection can be "all" or "pick".
@@ -1478,13 +1481,24 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 
 	var lastErr error
 
+	// an optional field may be missing, but a value found under any of its paths has to match the filter
+	missing := f.Optional
+
 	for _, path := range f.Path {
 		err := checkPathValue(isJWTCredential, path, credential, f, schema)
 		if err == nil { // if at least 1 path is valid, we are good
 			return nil
 		}
 
-		lastErr = errors.Join(lastErr, checkPathValue(isJWTCredential, path, credential, f, schema))
+		if !errors.Is(err, errNoValueForPath) {
+			missing = false
+		}
+
+		lastErr = errors.Join(lastErr, err)
+	}
+
+	if missing {
+		return nil
 	}
 
 	return lastErr
@@ -1572,11 +1586,7 @@ func checkPathValue(
 
 	selected := pathParsed.Select(credential)
 	if len(selected) == 0 {
-		if field.Optional { // we are good
-			return nil
-		}
-
-		return errors.Join(errPathNotApplicable, fmt.Errorf("no value found for path %s", path))
+		return errors.Join(errPathNotApplicable, fmt.Errorf("%w %s", errNoValueForPath, path))
 	}
 
 	var raw any
-- 
2.43.0


From ff4f7bb61e6c30aaa0e1d4937fdc0d627cfa7f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 39/83] fix: keep credentials without id apart in a
 presentation

---
 presexch/definition.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index ea3a709..de1503d 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1034,7 +1034,7 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 		credentialSrc := filtered.credentialSrc
 
 		if constraints == nil {
-			result = append(result, &credWrapper{uniqueID: credentialContents.ID, vc: credential})
+			result = append(result, &credWrapper{uniqueID: uniqueID(credential, credentialContents.ID), vc: credential})
 			continue
 		}
 
@@ -1051,7 +1051,7 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 			continue
 		}
 
-		uniqueCredID := credentialContents.ID
+		uniqueCredID := uniqueID(credential, credentialContents.ID)
 
 		// Non-SDJWT case.
 		//nolint:nestif
@@ -1260,6 +1260,15 @@ func copyOnlySubjectIDs(subject []verifiable.Subject) interface{} {
 	return withOnlyIDs
 }
 
+// uniqueID is the id of the credential; credentials without one are told apart by their identity.
+func uniqueID(credential *verifiable.Credential, id string) string {
+	if id != "" {
+		return id
+	}
+
+	return fmt.Sprintf("%s%p", tmpEnding, credential)
+}
+
 func tmpID(id string) string {
 	return id + tmpEnding + uuid.New().String()
 }
-- 
2.43.0


From 0705f6fa954a7cc00bb06cfcc17d54c0cb091204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 40/83] fix: a format without satisfying credentials does not
 hide credentials of other formats

---
 presexch/definition.go | 72 ++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index de1503d..08e01f9 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -851,28 +851,44 @@ func (pd *PresentationDefinition) filterCredentialsThatMatchDescriptor(
 		format = descriptor.Format
 	}
 
-	vpFormat := ""
-	filtered := creds
+	if !format.notNil() {
+		filtered, err := filterCredentials(creds, descriptor, documentLoader)
 
-	if format.notNil() {
-		vpFormat, filtered = filterFormat(format, filtered)
+		return "", filtered, err
 	}
 
+	// The first format that has a matching credential is taken.
+	for _, group := range groupByFormat(format, creds) {
+		filtered, err := filterCredentials(group.credentials, descriptor, documentLoader)
+		if err != nil {
+			return "", nil, err
+		}
+
+		if len(filtered) > 0 {
+			return group.format, filtered, nil
+		}
+	}
+
+	return "", nil, nil
+}
+
+func filterCredentials(
+	filtered []*verifiable.Credential,
+	descriptor *InputDescriptor,
+	documentLoader ld.DocumentLoader,
+) ([]constraintsFilterResult, error) {
 	var err error
 	// Validate schema only for v1
 	if descriptor.Schema != nil {
 		filtered, err = filterSchema(descriptor.Schema, filtered, documentLoader)
 		if err != nil {
-			return "", nil, err
+			return nil, err
 		}
 	}
 
 	filteredByConstraints, _, err := filterConstraints(descriptor.Constraints, filtered)
-	if err != nil {
-		return "", nil, err
-	}
 
-	return vpFormat, filteredByConstraints, nil
+	return filteredByConstraints, err
 }
 
 func getSubjectIDs(subject interface{}) []string { // nolint: gocyclo
@@ -1764,8 +1780,13 @@ func (a byID) Len() int           { return len(a) }
 func (a byID) Less(i, j int) bool { return a[i].ID < a[j].ID }
 func (a byID) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
 
+type formatGroup struct {
+	format      string
+	credentials []*verifiable.Credential
+}
+
 //nolint:funlen,gocyclo
-func filterFormat(format *Format, credentials []*verifiable.Credential) (string, []*verifiable.Credential) {
+func groupByFormat(format *Format, credentials []*verifiable.Credential) []formatGroup {
 	var ldpCreds, ldpvcCreds, ldpvpCreds, jwtCreds, jwtvcCreds, jwtvpCreds []*verifiable.Credential
 
 	for _, credential := range credentials {
@@ -1803,31 +1824,14 @@ func filterFormat(format *Format, credentials []*verifiable.Credential) (string,
 		}
 	}
 
-	if len(ldpCreds) > 0 {
-		return FormatLDP, ldpCreds
-	}
-
-	if len(ldpvcCreds) > 0 {
-		return FormatLDPVC, ldpvcCreds
-	}
-
-	if len(ldpvpCreds) > 0 {
-		return FormatLDPVP, ldpvpCreds
+	return []formatGroup{
+		{FormatLDP, ldpCreds},
+		{FormatLDPVC, ldpvcCreds},
+		{FormatLDPVP, ldpvpCreds},
+		{FormatJWT, jwtCreds},
+		{FormatJWTVC, jwtvcCreds},
+		{FormatJWTVP, jwtvpCreds},
 	}
-
-	if len(jwtCreds) > 0 {
-		return FormatJWT, jwtCreds
-	}
-
-	if len(jwtvcCreds) > 0 {
-		return FormatJWTVC, jwtvcCreds
-	}
-
-	if len(jwtvpCreds) > 0 {
-		return FormatJWTVP, jwtvpCreds
-	}
-
-	return "", nil
 }
 
 func algMatch(credAlg string, jwtType *JwtType) bool {
-- 
2.43.0


From 9ef71365597042a2cc0450fa6d964f2b614e9705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 41/83] fix: limiting disclosure of an SD-JWT leaves the
 holder's credential unchanged

---
 presexch/definition.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 08e01f9..27d3698 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1133,10 +1133,21 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 				return nil, err
 			}
 
-			err = credential.SetSDJWTDisclosures(limitedDisclosures)
+			// the caller's credential keeps its disclosures
+			limited := *credential
+
+			if limited.JWTEnvelope != nil {
+				envelope := *limited.JWTEnvelope
+				limited.JWTEnvelope = &envelope
+			}
+
+			err = limited.SetSDJWTDisclosures(limitedDisclosures)
 			if err != nil {
 				return nil, err
 			}
+
+			credential = &limited
+			uniqueCredID = tmpID(credentialContents.ID)
 		}
 
 		result = append(result, &credWrapper{uniqueID: uniqueCredID, vc: credential})
-- 
2.43.0


From 50b22b94c5734a6917e126cd7b0c179dad691496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 42/83] fix: matching enforces schemas only where the
 descriptor names some

---
 presexch/api.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index 9d8031a..4635c48 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -218,19 +218,20 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 
 			inputDescriptor := pd.inputDescriptor(mapping.ID)
 
-			var fltErr error
-
-			passed, fltErr := filterSchema(inputDescriptor.Schema, []*verifiable.Credential{vc}, contextLoader)
-			if fltErr != nil {
-				return nil, err
-			}
-
-			if len(passed) == 0 && !opts.DisableSchemaValidation {
-				vcc := vc.Contents()
-
-				return nil, fmt.Errorf(
-					"input descriptor id [%s] requires schemas %+v which do not match vc with @context [%+v] and types [%+v] selected by path [%s]", // nolint:lll
-					inputDescriptor.ID, inputDescriptor.Schema, vcc.Context, vcc.Types, mapping.Path)
+			// only definitions of version 1 name schemas
+			if inputDescriptor.Schema != nil && !opts.DisableSchemaValidation {
+				passed, fltErr := filterSchema(inputDescriptor.Schema, []*verifiable.Credential{vc}, contextLoader)
+				if fltErr != nil {
+					return nil, fltErr
+				}
+
+				if len(passed) == 0 {
+					vcc := vc.Contents()
+
+					return nil, fmt.Errorf(
+						"input descriptor id [%s] requires schemas %+v which do not match vc with @context [%+v] and types [%+v] selected by path [%s]", // nolint:lll
+						inputDescriptor.ID, inputDescriptor.Schema, vcc.Context, vcc.Types, mapping.Path)
+				}
 			}
 
 			filtered, _, filterErr := filterConstraints(inputDescriptor.Constraints, []*verifiable.Credential{vc})
-- 
2.43.0


From 611cc79e5c8326d2ae707faa296a95a48ab67485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 43/83] fix: matching applies the submission requirements of
 the definition

---
 presexch/api.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index 4635c48..ecb40bf 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -19,6 +19,7 @@ import (
 	"github.com/piprate/json-gold/ld"
 
 	"github.com/trustbloc/vc-go/jwt"
+	"github.com/trustbloc/vc-go/presexch/internal/requirementlogic"
 	"github.com/trustbloc/vc-go/verifiable"
 )
 
@@ -302,7 +303,25 @@ func selectVC(typelessVerifiable interface{},
 
 // Ensures the matched credentials meet the submission requirements.
 func (pd *PresentationDefinition) evalSubmissionRequirements(matched []*MatchValue) error {
-	// TODO support submission requirement rules: https://github.com/hyperledger/aries-framework-go/issues/2109
+	if len(pd.SubmissionRequirements) > 0 {
+		req, err := makeRequirement(pd.SubmissionRequirements, pd.InputDescriptors)
+		if err != nil {
+			return err
+		}
+
+		submitted := requirementlogic.DescriptorIDSet{}
+
+		for _, m := range matched {
+			submitted.Add(m.DescriptorID)
+		}
+
+		if !req.toLogic().IsSatisfiedBy(submitted) {
+			return errors.New("the submitted credentials do not meet the submission requirements")
+		}
+
+		return nil
+	}
+
 	descriptorIDs := descriptorIDs(pd.InputDescriptors)
 
 	for i := range descriptorIDs {
-- 
2.43.0


From 68fb7ae0cc3bfc9c86593653e4aacf08bf3e2594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 44/83] fix: matching refuses submissions made for another
 definition

---
 presexch/api.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index ecb40bf..2674f29 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -36,6 +36,7 @@ const (
 
 	submissionProperty    = "presentation_submission"
 	descriptorMapProperty = "descriptor_map"
+	definitionIDProperty  = "definition_id"
 )
 
 // PresentationSubmission is the container for the descriptor_map:
@@ -153,10 +154,20 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 	var mappingsByVPIndex map[int][]*InputDescriptorMapping
 
 	if opts.MergedSubmission != nil {
+		if err := pd.checkDefinitionID(opts.MergedSubmission.DefinitionID); err != nil {
+			return nil, err
+		}
+
 		mappingsByVPIndex = descriptorsByPresentationIndex(opts.MergedSubmission.DescriptorMap)
 	} else if len(opts.MergedSubmissionMap) != 0 {
 		useMergedSubmission = true
 
+		definitionID, _ := opts.MergedSubmissionMap[definitionIDProperty].(string) // nolint:errcheck
+
+		if err := pd.checkDefinitionID(definitionID); err != nil {
+			return nil, err
+		}
+
 		descs, err := getDescriptorMapping(opts.MergedSubmissionMap)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse descriptor map: %w", err)
@@ -189,6 +200,11 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 			if err != nil {
 				return nil, fmt.Errorf("failed to parse descriptor map: %w", err)
 			}
+
+			err = pd.checkDefinitionID(submissionDefinitionID(vp))
+			if err != nil {
+				return nil, err
+			}
 		}
 
 		for _, mapping := range descriptorMap {
@@ -386,6 +402,30 @@ func parseDescriptorMap(vp *verifiable.Presentation) ([]*InputDescriptorMapping,
 	}
 }
 
+func submissionDefinitionID(vp *verifiable.Presentation) string {
+	switch submission := vp.CustomFields[submissionProperty].(type) {
+	case map[string]interface{}:
+		id, _ := submission[definitionIDProperty].(string) // nolint:errcheck
+
+		return id
+	case *PresentationSubmission:
+		return submission.DefinitionID
+	case PresentationSubmission:
+		return submission.DefinitionID
+	}
+
+	return ""
+}
+
+// checkDefinitionID checks that a submission was not made for another definition.
+func (pd *PresentationDefinition) checkDefinitionID(id string) error {
+	if id != pd.ID {
+		return fmt.Errorf("presentation submission is for definition '%s', expected '%s'", id, pd.ID)
+	}
+
+	return nil
+}
+
 func getDescriptorMapping(submission map[string]interface{}) ([]*InputDescriptorMapping, error) {
 	descriptorMap, ok := submission[descriptorMapProperty].([]interface{})
 	if !ok {
-- 
2.43.0


From 69f7a8663c1177b4d3addec5a1bd0613a67ef516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 45/83] fix: a merged submission must not refer to
 presentations that are missing

---
 presexch/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index 2674f29..53c970e 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -176,6 +176,12 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 		mappingsByVPIndex = descriptorsByPresentationIndex(descs)
 	}
 
+	for vpIdx := range mappingsByVPIndex {
+		if vpIdx < 0 || vpIdx >= len(vpList) {
+			return nil, fmt.Errorf("presentation submission refers to missing presentation %d", vpIdx)
+		}
+	}
+
 	rawVPs := make([]interface{}, len(vpList))
 
 	for vpIdx, vp := range vpList {
-- 
2.43.0


From b8e900f54b6398c79824787be8fcc6c2d7573361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 46/83] fix: matching accepts the result of a required
 predicate

---
 presexch/api.go        | 22 +++++++++++++++++++++-
 presexch/definition.go |  7 +++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index 53c970e..75badcf 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -257,7 +257,8 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 				}
 			}
 
-			filtered, _, filterErr := filterConstraints(inputDescriptor.Constraints, []*verifiable.Credential{vc})
+			filtered, _, filterErr := filterConstraints(acceptPredicateResults(inputDescriptor.Constraints),
+				[]*verifiable.Credential{vc})
 			if filterErr != nil {
 				return nil, filterErr
 			}
@@ -278,6 +279,25 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 	return result, nil
 }
 
+// acceptPredicateResults returns constraints that also accept what a holder presents for a required predicate: true in
+// place of a value that matches the filter.
+func acceptPredicateResults(constraints *Constraints) *Constraints {
+	if constraints == nil {
+		return nil
+	}
+
+	result := *constraints
+	result.Fields = make([]*Field, len(constraints.Fields))
+
+	for i, f := range constraints.Fields {
+		field := *f
+		field.acceptPredicateResult = f.Predicate.isRequired()
+		result.Fields[i] = &field
+	}
+
+	return &result
+}
+
 func selectVC(typelessVerifiable interface{},
 	mapping *InputDescriptorMapping, opts *MatchOptions) (*verifiable.Credential, error) {
 	builder := gval.Full(jsonpath.PlaceholderExtension())
diff --git a/presexch/definition.go b/presexch/definition.go
index 27d3698..796cfe9 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -193,6 +193,9 @@ type Field struct {
 	Predicate      *Preference `json:"predicate,omitempty"`
 	IntentToRetain bool        `json:"intent_to_retain,omitempty"`
 	Optional       bool        `json:"optional,omitempty"`
+
+	// acceptPredicateResult lets the value true stand for a value that matches the filter.
+	acceptPredicateResult bool
 }
 
 // Filter describes filter.
@@ -1647,6 +1650,10 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 		return nil
 	}
 
+	if field.acceptPredicateResult && patch == true {
+		return nil
+	}
+
 	// convert date string to Unix timestamp for JWT credential
 	if isJWTCredential && field.Path != nil && isDateField(field.Path) {
 		if val, ok := patch.(string); ok {
-- 
2.43.0


From 5de56b1f6a51593b576c1f135ff2ef9548ab80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 47/83] fix: limited disclosure reveals the selected values

The claims that the fields of an input descriptor select are located with
the same JSONPath implementation that decides whether a field matches, so
every accepted path can be revealed (recursive descent, quoted names, names
with dots, the vc prefix of JWT credentials). Elements that several fields
select from one array no longer overwrite each other, and arrays are only
compacted where disclosure is limited. The disclosures kept of an SD-JWT are
the ones the selected values consist of: parents and nested claims of a
selected value are included, unrelated array elements are not.
---
 presexch/definition.go | 460 ++++++++++++++++++++++++++++-------------
 1 file changed, 321 insertions(+), 139 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 796cfe9..1292da2 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -7,17 +7,18 @@ SPDX-License-Identifier: Apache-2.0
 package presexch
 
 import (
-	"bytes"
+	"encoding/base64"
 	"encoding/json"
 	"errors"
 	"fmt"
+	"maps"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
 	"time"
 
 	"github.com/google/uuid"
-	jsonpathkeys "github.com/kawamuray/jsonpath"
 	"github.com/piprate/json-gold/ld"
 	"github.com/samber/lo"
 	"github.com/tidwall/gjson"
@@ -31,6 +32,7 @@ import (
 	"github.com/trustbloc/vc-go/verifiable"
 
 	pathv2 "github.com/theory/jsonpath"
+	"github.com/theory/jsonpath/spec"
 )
 
 const (
@@ -1159,72 +1161,205 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 	return result, nil
 }
 
-// nolint: gocyclo,funlen,gocognit
+// getLimitedDisclosures returns the disclosures that the values selected by the fields consist of.
 func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credential *verifiable.Credential) ([]*common.DisclosureClaim, error) { // nolint:lll
-	credentialContents := credential.Contents()
-
 	credentialSrc, err := credential.MarshalAsJSONLD()
 	if err != nil {
 		return nil, err
 	}
 
-	var limitedDisclosures []*common.DisclosureClaim
+	var signed, display map[string]interface{}
+
+	if err = json.Unmarshal(credentialSrc, &signed); err != nil {
+		return nil, err
+	}
+
+	if err = json.Unmarshal(displaySrc, &display); err != nil {
+		return nil, err
+	}
+
+	selector, err := newDisclosureSelector(credential.SDJWTDisclosures())
+	if err != nil {
+		return nil, err
+	}
 
 	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, displaySrc)
+		locations, err := fieldLocations(f, display, credential.IsJWT())
 		if err != nil {
 			return nil, err
 		}
 
-		for _, path := range jPaths {
-			if strings.Contains(path.newPath, credentialSchema) {
-				continue
-			}
+		for _, location := range locations {
+			selector.selectLocation(signed, location)
+		}
+	}
+
+	var limitedDisclosures []*common.DisclosureClaim
+
+	for _, dc := range credential.SDJWTDisclosures() {
+		if selector.selected[dc.Digest] {
+			limitedDisclosures = append(limitedDisclosures, dc)
+		}
+	}
+
+	return limitedDisclosures, nil
+}
 
-			parentPath, key := splitLast(path.oldPath, ".")
+// disclosureSelector finds the disclosures that the claims of an SD-JWT consist of.
+type disclosureSelector struct {
+	names    map[string]string
+	values   map[string]interface{}
+	selected map[string]bool
+}
+
+func newDisclosureSelector(disclosures []*common.DisclosureClaim) (*disclosureSelector, error) {
+	d := &disclosureSelector{
+		names:    map[string]string{},
+		values:   map[string]interface{}{},
+		selected: map[string]bool{},
+	}
+
+	for _, dc := range disclosures {
+		decoded, err := base64.RawURLEncoding.DecodeString(dc.Disclosure)
+		if err != nil {
+			return nil, fmt.Errorf("decode disclosure: %w", err)
+		}
+
+		var elements []interface{}
+
+		if err = json.Unmarshal(decoded, &elements); err != nil {
+			return nil, fmt.Errorf("unmarshal disclosure: %w", err)
+		}
+
+		if len(elements) == 0 {
+			return nil, errors.New("disclosure is empty")
+		}
+
+		d.names[dc.Digest] = dc.Name
+		// the value as it was disclosed, with the digests of further disclosures
+		d.values[dc.Digest] = elements[len(elements)-1]
+	}
+
+	return d, nil
+}
+
+// selectLocation selects the disclosures on the way to the location and the ones below it.
+func (d *disclosureSelector) selectLocation(value interface{}, location spec.NormalizedPath) {
+	for _, selector := range location {
+		var digest string
+
+		switch selector := selector.(type) {
+		case spec.Name:
+			value, digest = d.member(value, string(selector))
+		case spec.Index:
+			value, digest = d.element(value, int(selector))
+		}
 
-			parentObj, ok := gjson.GetBytes(credentialSrc, parentPath).Value().(map[string]interface{})
+		if digest != "" {
+			d.selected[digest] = true
+		}
+	}
+
+	d.selectAll(value)
+}
+
+func (d *disclosureSelector) member(value interface{}, name string) (interface{}, string) {
+	obj, ok := value.(map[string]interface{})
+	if !ok {
+		return nil, ""
+	}
+
+	if member, ok := obj[name]; ok {
+		return member, ""
+	}
+
+	for _, digest := range sdDigests(obj) {
+		if member, ok := d.values[digest]; ok && d.names[digest] == name {
+			return member, digest
+		}
+	}
+
+	return nil, ""
+}
+
+func (d *disclosureSelector) element(value interface{}, index int) (interface{}, string) {
+	elements, _ := value.([]interface{}) //nolint:errcheck // nothing to select in other values
+
+	for _, element := range elements {
+		digest := elementDigest(element)
+
+		if digest != "" {
+			disclosed, ok := d.values[digest]
 			if !ok {
-				// no selective disclosures at this level, so nothing to add to limited disclosures
 				continue
 			}
 
-			digests, err := common.GetDisclosureDigests(parentObj)
-			if err != nil {
-				return nil, err
-			}
+			element = disclosed
+		}
 
-			disclosures := credential.SDJWTDisclosures()
-			disclosuresMap := map[string]*common.DisclosureClaim{}
+		if index == 0 {
+			return element, digest
+		}
 
-			for _, dc := range disclosures {
-				disclosuresMap[dc.Digest] = dc
-			}
+		index--
+	}
 
-			arrayElements := ExtractArrayValuesForSDJWTV5(parentObj)
-			for _, elem := range arrayElements {
-				dis, disOk := disclosuresMap[elem]
-				if disOk {
-					limitedDisclosures = append(limitedDisclosures, dis)
-				}
-			}
+	return nil, ""
+}
 
-			for _, dc := range disclosures {
-				if dc.Name == key {
-					digest, err := common.GetHash(*credentialContents.SDJWTHashAlg, dc.Disclosure)
-					if err != nil {
-						return nil, err
-					}
+func (d *disclosureSelector) selectAll(value interface{}) {
+	selectDigest := func(digest string) {
+		if disclosed, ok := d.values[digest]; ok {
+			d.selected[digest] = true
+			d.selectAll(disclosed)
+		}
+	}
 
-					if _, ok := digests[digest]; ok {
-						limitedDisclosures = append(limitedDisclosures, dc)
-					}
-				}
+	switch v := value.(type) {
+	case map[string]interface{}:
+		for _, digest := range sdDigests(v) {
+			selectDigest(digest)
+		}
+
+		for name, member := range v {
+			if name != common.SDKey {
+				d.selectAll(member)
+			}
+		}
+	case []interface{}:
+		for _, element := range v {
+			if digest := elementDigest(element); digest != "" {
+				selectDigest(digest)
+			} else {
+				d.selectAll(element)
 			}
 		}
 	}
+}
 
-	return limitedDisclosures, nil
+func sdDigests(obj map[string]interface{}) []string {
+	var digests []string
+
+	list, _ := obj[common.SDKey].([]interface{}) //nolint:errcheck // without digests there is nothing to select
+
+	for _, digest := range list {
+		if s, ok := digest.(string); ok {
+			digests = append(digests, s)
+		}
+	}
+
+	return digests
+}
+
+func elementDigest(element interface{}) string {
+	obj, ok := element.(map[string]interface{})
+	if !ok || len(obj) != 1 {
+		return ""
+	}
+
+	digest, _ := obj[common.ArrayElementDigestKey].(string) //nolint:errcheck // the element is not a digest
+
+	return digest
 }
 
 // ExtractArrayValuesForSDJWTV5 extracts array values for SD JWT V5.
@@ -1303,7 +1438,6 @@ func tmpID(id string) string {
 	return id + tmpEnding + uuid.New().String()
 }
 
-// nolint: funlen,gocognit,gocyclo
 func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 	credential *verifiable.Credential, sdBBSProofCreator *verifiable.BBSProofCreator,
 	opts ...verifiable.CredentialOpt) (*verifiable.Credential, error) {
@@ -1311,39 +1445,38 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		doBBS               = hasBBS(credential) && constraints.LimitDisclosure.isRequired()
 		modifiedByPredicate bool
 		explicitPaths       = make(map[string]bool)
+		srcMap, limitedMap  map[string]interface{}
 	)
 
+	if err := json.Unmarshal(src, &srcMap); err != nil {
+		return nil, err
+	}
+
+	if err := json.Unmarshal(limitedCred, &limitedMap); err != nil {
+		return nil, err
+	}
+
+	selected := &selection{}
+
 	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, src)
+		locations, err := fieldLocations(f, srcMap, credential.IsJWT())
 		if err != nil {
 			return nil, err
 		}
 
-		for _, path := range jPaths {
-			if strings.Contains(path.newPath, credentialSchema) {
-				continue
-			}
-
-			var val interface{} = true
-
-			if f.Predicate.isRequired() {
-				modifiedByPredicate = true
-			} else {
-				val = gjson.GetBytes(src, path.oldPath).Value()
-			}
-
-			if doBBS {
-				explicitPath, _ := splitLast(path.newPath, ".")
-				explicitPaths[explicitPath] = true
-			}
+		for _, location := range locations {
+			predicate := f.Predicate.isRequired()
+			modifiedByPredicate = modifiedByPredicate || predicate
 
-			limitedCred, err = sjson.SetBytes(limitedCred, path.newPath, val)
-			if err != nil {
-				return nil, err
-			}
+			selected.add(location, predicate)
 		}
 	}
 
+	limitedCred, err := json.Marshal(selected.reveal(srcMap, limitedMap, nil, explicitPaths))
+	if err != nil {
+		return nil, err
+	}
+
 	if !doBBS || modifiedByPredicate {
 		opts = append(opts, verifiable.WithDisabledProofCheck())
 		return verifiable.ParseCredential(limitedCred, opts...)
@@ -1362,45 +1495,126 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 	return credential.GenerateBBSSelectiveDisclosure(doc, []byte(uuid.New().String()), sdBBSProofCreator, opts...)
 }
 
-// splitLast finds the final occurrence of split in text, and returns (everything before, everything after).
-// If split is not found in text, then splitLast returns ("", text).
-func splitLast(text, split string) (string, string) {
-	lastIndex := strings.LastIndex(text, split)
-	if lastIndex < 0 {
-		return "", text
+// fieldLocations lists the places in the credential that the paths of the field select.
+func fieldLocations(f *Field, credential map[string]interface{}, isJWTCredential bool) ([]spec.NormalizedPath, error) {
+	var locations []spec.NormalizedPath
+
+	for _, p := range f.Path {
+		path, err := parseFieldPath(isJWTCredential, p, credential)
+		if err != nil {
+			return nil, err
+		}
+
+		for location := range path.SelectLocated(credential).Paths() {
+			if len(location) == 0 || location[0] == spec.Name(credentialSchema) {
+				continue
+			}
+
+			locations = append(locations, location)
+		}
 	}
 
-	return text[:lastIndex], text[lastIndex+len(split):]
+	return locations, nil
 }
 
-// compactArrayPaths adjusts array indices in the given JSON paths, as if the corresponding JSON object has all
-// unmentioned array elements removed. Input paths are in JSONPath syntax, while output paths are in dot-separated
-// syntax, eg, `foo.1.bar.3`.
-func compactArrayPaths(keys []string, src []byte) ([]*pathTransform, error) {
-	paths, err := jsonpathkeys.ParsePaths(keys...)
-	if err != nil {
-		return nil, err
+// selection is a set of places in a JSON document.
+type selection struct {
+	whole     bool
+	predicate bool
+	children  map[spec.NormalSelector]*selection
+}
+
+func (s *selection) add(location spec.NormalizedPath, predicate bool) {
+	for _, selector := range location {
+		child, ok := s.children[selector]
+		if !ok {
+			child = &selection{}
+
+			if s.children == nil {
+				s.children = map[spec.NormalSelector]*selection{}
+			}
+
+			s.children[selector] = child
+		}
+
+		s = child
 	}
 
-	eval, err := jsonpathkeys.EvalPathsInReader(bytes.NewReader(src), paths)
-	if err != nil {
-		return nil, err
+	if predicate {
+		s.predicate = true
+	} else {
+		s.whole = true
+	}
+}
+
+// reveal returns what has to be at a place of the limited document where the complete document has src and the
+// limited one has limited so far: selected values are copied, predicates are answered with true. Array elements that
+// are not selected are left out. The parents of the selected values are added to explicitPaths.
+func (s *selection) reveal(src, limited interface{}, path []string, explicitPaths map[string]bool) interface{} {
+	if s.whole || s.predicate {
+		if len(path) > 1 {
+			explicitPaths[strings.Join(path[:len(path)-1], ".")] = true
+		}
 	}
 
-	var jPaths []*pathTransform
+	if s.predicate {
+		return true
+	}
 
-	set := map[string]int{}
+	if s.whole {
+		limited = src
+	}
 
-	for {
-		result, ok := eval.Next()
+	switch value := src.(type) {
+	case map[string]interface{}:
+		limitedObj, ok := limited.(map[string]interface{})
 		if !ok {
-			break
+			limitedObj = map[string]interface{}{}
 		}
 
-		jPaths = append(jPaths, getPath(result.Keys, set))
+		limitedObj = maps.Clone(limitedObj)
+
+		for selector, child := range s.children {
+			if name, isName := selector.(spec.Name); isName {
+				limitedObj[string(name)] = child.reveal(value[string(name)], limitedObj[string(name)],
+					append(slices.Clone(path), string(name)), explicitPaths)
+			}
+		}
+
+		return limitedObj
+	case []interface{}:
+		return s.revealArray(value, limited, path, explicitPaths)
+	default:
+		return limited
+	}
+}
+
+func (s *selection) revealArray(src []interface{}, limited interface{}, path []string,
+	explicitPaths map[string]bool) interface{} {
+	limitedArr, ok := limited.([]interface{})
+	compact := !ok || len(limitedArr) != len(src)
+
+	result := make([]interface{}, 0, len(src))
+
+	for i, value := range src {
+		child, selected := s.children[spec.Index(i)]
+
+		var element interface{}
+
+		if !compact {
+			element = limitedArr[i]
+		}
+
+		switch {
+		case selected:
+			result = append(result, child.reveal(value, element,
+				append(slices.Clone(path), strconv.Itoa(len(result))), explicitPaths))
+		case !compact:
+			result = append(result, element)
+		}
 	}
 
-	return jPaths, nil
+	return result
 }
 
 func enhanceRevealDoc(explicitPaths map[string]bool, revealDoc, vcBytes []byte) ([]byte, error) {
@@ -1565,14 +1779,10 @@ func convertToRFC9535Format(path string) string {
 	return builder.String()
 }
 
-//nolint:gocyclo,funlen
-func checkPathValue(
-	isJWTCredential bool,
-	path string,
-	credential map[string]any,
-	field *Field,
-	schema gojsonschema.JSONLoader,
-) error {
+// parseFieldPath parses the path of a field that is applied to the given credential.
+//
+//nolint:gocyclo
+func parseFieldPath(isJWTCredential bool, path string, credential map[string]any) (*pathv2.Path, error) {
 	if isJWTCredential { // compatibility
 		replacements := map[string]string{
 			"$.vc.":   "$.",
@@ -1595,11 +1805,9 @@ func checkPathValue(
 	}
 
 	if !strings.HasPrefix(path, "$") && !strings.HasPrefix("@", path) {
-		return errors.New("expected $ or @ at start of path")
+		return nil, errors.New("expected $ or @ at start of path")
 	}
 
-	var pathParsed *pathv2.Path
-
 	var pathErr error
 
 	for _, p := range []string{
@@ -1608,19 +1816,26 @@ func checkPathValue(
 		convertToRFC9535Format(path), // Remove in 6months and update profiles presentations to use RFC 9535 format
 	} {
 		parsed, parseErr := pathv2.Parse(p)
-
-		pathParsed = parsed
-
 		if parseErr == nil {
-			pathErr = nil
-			break
+			return parsed, nil
 		}
 
 		pathErr = errors.Join(pathErr, fmt.Errorf("path %s: %w", p, parseErr))
 	}
 
-	if pathErr != nil {
-		return pathErr
+	return nil, pathErr
+}
+
+func checkPathValue(
+	isJWTCredential bool,
+	path string,
+	credential map[string]any,
+	field *Field,
+	schema gojsonschema.JSONLoader,
+) error {
+	pathParsed, err := parseFieldPath(isJWTCredential, path, credential)
+	if err != nil {
+		return err
 	}
 
 	selected := pathParsed.Select(credential)
@@ -1690,39 +1905,6 @@ func isDateField(paths []string) bool {
 	return false
 }
 
-type pathTransform struct {
-	newPath string
-	oldPath string
-}
-
-func getPath(keys []interface{}, set map[string]int) *pathTransform {
-	var (
-		newPath      []string
-		originalPath []string
-	)
-
-	for _, k := range keys {
-		switch v := k.(type) {
-		case int:
-			counterKey := strings.Join(originalPath, ".")
-			originalPath = append(originalPath, strconv.Itoa(v))
-			mapperKey := strings.Join(originalPath, ".")
-
-			if _, ok := set[mapperKey]; !ok {
-				set[mapperKey] = set[counterKey]
-				set[counterKey]++
-			}
-
-			newPath = append(newPath, strconv.Itoa(set[mapperKey]))
-		default:
-			originalPath = append(originalPath, fmt.Sprintf("%s", v))
-			newPath = append(newPath, fmt.Sprintf("%s", v))
-		}
-	}
-
-	return &pathTransform{newPath: strings.Join(newPath, "."), oldPath: strings.Join(originalPath, ".")}
-}
-
 //nolint:funlen
 func merge(
 	presentationFormat string,
-- 
2.43.0


From 5ee08ec9ab0c5f805f554b8a35445a4d8f477ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 48/83] fix: credentials without an issuance date or issuer can
 be made into CWT and JWT

Data model 2.0 does not require validFrom; deriving the claims dereferenced
a nil date (CWT) and a nil issuer (JWT, CWT).
---
 verifiable/credential_cwt.go | 11 +++++++----
 verifiable/credential_jwt.go |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/verifiable/credential_cwt.go b/verifiable/credential_cwt.go
index 08ac082..cb7a929 100644
--- a/verifiable/credential_cwt.go
+++ b/verifiable/credential_cwt.go
@@ -33,10 +33,12 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	claims := &CWTClaims{
-		Issuer:    vcc.Issuer.ID,                           // iss
-		NotBefore: josejwt.NewNumericDate(vcc.Issued.Time), // nbf
-		ID:        vcc.ID,                                  // jti
-		Subject:   subjectID,                               // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		claims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
@@ -45,6 +47,7 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	if vcc.Issued != nil {
 		claims.IssuedAt = josejwt.NewNumericDate(vcc.Issued.Time)
+		claims.NotBefore = josejwt.NewNumericDate(vcc.Issued.Time) // nbf
 	}
 
 	credentialJSONCopy := jsonutil.ShallowCopyObj(vc.credentialJSON)
diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index 1049ac0..b3a61e2 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -109,9 +109,12 @@ func newJWTCredClaims(vc *Credential, minimizeVC bool) (*JWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	jwtClaims := &jwt.Claims{
-		Issuer:  vcc.Issuer.ID, // iss
-		ID:      vcc.ID,        // jti
-		Subject: subjectID,     // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		jwtClaims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
-- 
2.43.0


From 61319064b8ea9441906cb257ee391cd29ffd8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 49/83] fix: JWT credentials keep the dates of the other data
 model

A minimized JWT lost validFrom/validUntil of data model 1.1 credentials, the
claims added a second date next to the stated one, and the issuanceDate of a
data model 2.0 credential replaced its validFrom.
---
 verifiable/common.go         | 20 ++++++++++++++++++++
 verifiable/credential.go     | 18 ++----------------
 verifiable/credential_jwt.go | 31 ++++++++++++-------------------
 3 files changed, 34 insertions(+), 35 deletions(-)

diff --git a/verifiable/common.go b/verifiable/common.go
index ce787ef..93728c3 100644
--- a/verifiable/common.go
+++ b/verifiable/common.go
@@ -386,6 +386,26 @@ func parseTimeFld(obj JSONObject, fldName string) (*util.TimeWrapper, error) {
 	}
 }
 
+// dateFlds orders the fields that state a date: first the one of the data model of the document.
+func dateFlds(doc JSONObject, v1Fld, v2Fld string) (string, string) {
+	if HasBaseContext(doc, V2ContextURI) {
+		return v2Fld, v1Fld
+	}
+
+	return v1Fld, v2Fld
+}
+
+// dateFld returns the field that states a date in the document, or would state it if there is none.
+func dateFld(doc JSONObject, v1Fld, v2Fld string) string {
+	fld, otherFld := dateFlds(doc, v1Fld, v2Fld)
+
+	if doc[fld] == nil && doc[otherFld] != nil {
+		return otherFld
+	}
+
+	return fld
+}
+
 func mapSlice[T any, U any](slice []T, mapFN func(T) U) []U {
 	var result []U
 	for _, v := range slice {
diff --git a/verifiable/credential.go b/verifiable/credential.go
index 7e0aa69..43bdfc0 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1768,30 +1768,16 @@ func parseCredentialContents(raw JSONObject, isSDJWT bool) (*CredentialContents,
 		return nil, fmt.Errorf("fill credential id from raw: %w", err)
 	}
 
-	issued, err := parseTimeFld(raw, jsonFldIssued)
+	issued, err := parseTimeFld(raw, dateFld(raw, jsonFldIssued, jsonFldValidFrom))
 	if err != nil {
 		return nil, fmt.Errorf("fill credential issued from raw: %w", err)
 	}
 
-	if issued == nil {
-		issued, err = parseTimeFld(raw, jsonFldValidFrom)
-		if err != nil {
-			return nil, fmt.Errorf("fill credential issued from raw: %w", err)
-		}
-	}
-
-	expired, err := parseTimeFld(raw, jsonFldExpired)
+	expired, err := parseTimeFld(raw, dateFld(raw, jsonFldExpired, jsonFldValidUntil))
 	if err != nil {
 		return nil, fmt.Errorf("fill credential expired from raw: %w", err)
 	}
 
-	if expired == nil {
-		expired, err = parseTimeFld(raw, jsonFldValidUntil)
-		if err != nil {
-			return nil, fmt.Errorf("fill credential expired from raw: %w", err)
-		}
-	}
-
 	statuses, err := newTypedIDArray(raw[jsonFldStatus])
 	if err != nil {
 		return nil, fmt.Errorf("fill credential status from raw: %w", err)
diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index b3a61e2..8219423 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -129,10 +129,15 @@ func newJWTCredClaims(vc *Credential, minimizeVC bool) (*JWTCredClaims, error) {
 	credentialJSONCopy := jsonutil.ShallowCopyObj(vc.credentialJSON)
 
 	if minimizeVC {
-		delete(credentialJSONCopy, jsonFldExpired)
-		delete(credentialJSONCopy, jsonFldIssued)
-		delete(credentialJSONCopy, jsonFldValidUntil)
-		delete(credentialJSONCopy, jsonFldValidFrom)
+		// the claims of the JWT restore one date of each kind
+		for _, flds := range [][2]string{{jsonFldIssued, jsonFldValidFrom}, {jsonFldExpired, jsonFldValidUntil}} {
+			fld, otherFld := dateFlds(credentialJSONCopy, flds[0], flds[1])
+
+			if credentialJSONCopy[otherFld] == nil {
+				delete(credentialJSONCopy, fld)
+			}
+		}
+
 		delete(credentialJSONCopy, jsonFldID)
 
 		issuer, err := parseIssuer(credentialJSONCopy[jsonFldIssuer])
@@ -203,11 +208,7 @@ func (jcc *JWTCredClaims) refineFromJWTClaims() error {
 
 	if nbf := claims.NotBefore; nbf != nil {
 		nbfTime := nbf.Time().UTC()
-		if HasBaseContext(vcMap, V2ContextURI) {
-			vcMap[vcValidFrom] = nbfTime.Format(time.RFC3339)
-		} else {
-			vcMap[vcIssuanceDateField] = nbfTime.Format(time.RFC3339)
-		}
+		vcMap[dateFld(vcMap, vcIssuanceDateField, vcValidFrom)] = nbfTime.Format(time.RFC3339)
 	}
 
 	if jti := claims.ID; jti != "" {
@@ -216,20 +217,12 @@ func (jcc *JWTCredClaims) refineFromJWTClaims() error {
 
 	if iat := claims.IssuedAt; iat != nil {
 		iatTime := iat.Time().UTC()
-		if HasBaseContext(vcMap, V2ContextURI) {
-			vcMap[vcValidFrom] = iatTime.Format(time.RFC3339)
-		} else {
-			vcMap[vcIssuanceDateField] = iatTime.Format(time.RFC3339)
-		}
+		vcMap[dateFld(vcMap, vcIssuanceDateField, vcValidFrom)] = iatTime.Format(time.RFC3339)
 	}
 
 	if exp := claims.Expiry; exp != nil {
 		expTime := exp.Time().UTC()
-		if HasBaseContext(vcMap, V2ContextURI) {
-			vcMap[vcValidUntil] = expTime.Format(time.RFC3339)
-		} else {
-			vcMap[vcExpirationDateField] = expTime.Format(time.RFC3339)
-		}
+		vcMap[dateFld(vcMap, vcExpirationDateField, vcValidUntil)] = expTime.Format(time.RFC3339)
 	}
 
 	return nil
-- 
2.43.0


From 49bf7fd45b38bfe5cb59ae703edb05eba6f5dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 50/83] fix: return panics of the JSON-LD library as errors

---
 dataintegrity/suite/ecdsa2019/ecdsa2019.go | 7 +++++--
 dataintegrity/suite/eddsa2022/eddsa2022.go | 7 +++++--
 util/json/json.go                          | 9 +++++++++
 verifiable/bbs_selective_disclosure.go     | 5 ++++-
 verifiable/credential.go                   | 4 +++-
 verifiable/lddocument/verifier.go          | 6 +++++-
 verifiable/presentation.go                 | 4 +++-
 7 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index ea79497..757290c 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -27,6 +27,7 @@ import (
 	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
 	"github.com/trustbloc/vc-go/dataintegrity/models"
 	"github.com/trustbloc/vc-go/dataintegrity/suite"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
 const (
@@ -375,8 +376,10 @@ func (s *Suite) RequiresCreated() bool {
 }
 
 func canonicalize(data map[string]interface{}, loader ld.DocumentLoader, mda ld.MessageDigestAlgorithm,
-) ([]byte, error) {
-	out, err := processor.Default().GetCanonicalDocument(
+) (out []byte, err error) {
+	defer jsonutil.RecoverPanic(&err)
+
+	out, err = processor.Default().GetCanonicalDocument(
 		data,
 		processor.WithDocumentLoader(loader),
 		processor.WithMessageDigestAlgorithm(mda),
diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index 0cce9d6..6ad53b3 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -24,6 +24,7 @@ import (
 	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
 	"github.com/trustbloc/vc-go/dataintegrity/models"
 	"github.com/trustbloc/vc-go/dataintegrity/suite"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
 const (
@@ -290,8 +291,10 @@ func (s *Suite) RequiresCreated() bool {
 	return false
 }
 
-func canonicalize(data map[string]interface{}, loader ld.DocumentLoader) ([]byte, error) {
-	out, err := processor.Default().GetCanonicalDocument(data, processor.WithDocumentLoader(loader))
+func canonicalize(data map[string]interface{}, loader ld.DocumentLoader) (out []byte, err error) {
+	defer jsonutil.RecoverPanic(&err)
+
+	out, err = processor.Default().GetCanonicalDocument(data, processor.WithDocumentLoader(loader))
 	if err != nil {
 		return nil, fmt.Errorf("canonicalizing signature base data: %w", err)
 	}
diff --git a/util/json/json.go b/util/json/json.go
index 5b830d8..af9c8f8 100644
--- a/util/json/json.go
+++ b/util/json/json.go
@@ -7,6 +7,7 @@ package json
 
 import (
 	"encoding/json"
+	"fmt"
 
 	"golang.org/x/exp/slices"
 )
@@ -166,3 +167,11 @@ func ToMap(v interface{}) (map[string]interface{}, error) {
 
 	return m, nil
 }
+
+// RecoverPanic turns a panic of the JSON-LD library into an error: it panics on some documents that come from outside.
+// To be called by defer.
+func RecoverPanic(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("process JSON-LD document: %v", r)
+	}
+}
diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index d8e14f1..5d92dbe 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -16,6 +16,7 @@ import (
 	"github.com/trustbloc/did-go/doc/ld/proof"
 
 	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignatureproof2020"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 	"github.com/trustbloc/vc-go/vermethod"
 )
 
@@ -45,7 +46,9 @@ type BBSProofCreator struct {
 // BBSSelectiveDisclosure creates selective disclosure from the input doc which must have a BBS+ proof
 // (with BbsBlsSignature2020 type).
 func BBSSelectiveDisclosure(doc map[string]interface{}, revealDoc map[string]interface{},
-	nonce []byte, bbsProofCreator *BBSProofCreator, opts ...processor.Opts) (map[string]interface{}, error) {
+	nonce []byte, bbsProofCreator *BBSProofCreator, opts ...processor.Opts) (disclosed map[string]interface{}, err error) {
+	defer jsonutil.RecoverPanic(&err)
+
 	docWithoutProof, rawProofs, err := prepareDocAndProof(doc, opts...)
 	if err != nil {
 		return nil, fmt.Errorf("preparing doc failed: %w", err)
diff --git a/verifiable/credential.go b/verifiable/credential.go
index 43bdfc0..6f14050 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1669,7 +1669,9 @@ func validateBaseContextWithExtendedValidation(vcJSON JSONObject, vcc *Credentia
 	return validateCredentialUsingJSONSchema(vcJSON, vcc, vcOpts)
 }
 
-func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) error {
+func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) (err error) {
+	defer jsonutil.RecoverPanic(&err)
+
 	baseContext, err := GetBaseContext(vcc.Context)
 	if err != nil {
 		return err
diff --git a/verifiable/lddocument/verifier.go b/verifiable/lddocument/verifier.go
index c02e8eb..c719de2 100644
--- a/verifiable/lddocument/verifier.go
+++ b/verifiable/lddocument/verifier.go
@@ -13,6 +13,8 @@ import (
 
 	"github.com/trustbloc/did-go/doc/ld/processor"
 	"github.com/trustbloc/did-go/doc/ld/proof"
+
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
 // ProofChecker implements JSON LD document proof check.
@@ -124,7 +126,9 @@ type signatureSuiteWrapper struct {
 
 // GetCanonicalDocument will return normalized/canonical version of the document.
 func (w *signatureSuiteWrapper) GetCanonicalDocument(doc map[string]interface{},
-	opts ...processor.Opts) ([]byte, error) {
+	opts ...processor.Opts) (canonical []byte, err error) {
+	defer jsonutil.RecoverPanic(&err)
+
 	return w.wrapped.GetLDPCanonicalDocument(w.proof, doc, opts...)
 }
 
diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index dd39873..7b0443e 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -961,7 +961,9 @@ func validateVP(data rawPresentation, opts *presentationOpts) error {
 	return validateVPJSONLD(data, opts)
 }
 
-func validateVPJSONLD(vpBytes rawPresentation, opts *presentationOpts) error {
+func validateVPJSONLD(vpBytes rawPresentation, opts *presentationOpts) (err error) {
+	defer jsonutil.RecoverPanic(&err)
+
 	return docjsonld.ValidateJSONLDMap(vpBytes,
 		docjsonld.WithDocumentLoader(opts.jsonldCredentialOpts.jsonldDocumentLoader),
 		docjsonld.WithExternalContext(opts.jsonldCredentialOpts.externalContext),
-- 
2.43.0


From 951c6e64ed1130dc51a21fb0355b5f5780b20199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 51/83] fix: sign, check and validate credentials created from
 contents as JSON-LD

---
 verifiable/credential.go        | 10 ++++++++--
 verifiable/linked_data_proof.go | 21 ++++++++++++++++++---
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 6f14050..0220c70 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1691,7 +1691,13 @@ func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credenti
 		)
 	}
 
-	err = docjsonld.ValidateJSONLDMap(jsonutil.ShallowCopyObj(vcJSON),
+	// The JSON-LD library supports only the types that unmarshalling of JSON produces.
+	doc, err := jsonutil.ToMap(vcJSON)
+	if err != nil {
+		return err
+	}
+
+	err = docjsonld.ValidateJSONLDMap(jsonutil.ShallowCopyObj(doc),
 		validateOpts...,
 	)
 	if err != nil {
@@ -1699,7 +1705,7 @@ func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credenti
 	}
 
 	if vcOpts.enableJsonLDTypesCheck {
-		if err = docjsonld.ValidateJSONLDTypes(jsonutil.ShallowCopyObj(vcJSON),
+		if err = docjsonld.ValidateJSONLDTypes(jsonutil.ShallowCopyObj(doc),
 			validateOpts...,
 		); err != nil {
 			return err
diff --git a/verifiable/linked_data_proof.go b/verifiable/linked_data_proof.go
index 910f22a..a9fae25 100644
--- a/verifiable/linked_data_proof.go
+++ b/verifiable/linked_data_proof.go
@@ -13,6 +13,7 @@ import (
 	"github.com/trustbloc/did-go/doc/ld/proof"
 	"github.com/trustbloc/kms-go/spi/kms"
 
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 	"github.com/trustbloc/vc-go/verifiable/lddocument"
 )
 
@@ -49,7 +50,13 @@ func checkLinkedDataProof(jsonldBytes map[string]interface{},
 
 	processorOpts := mapJSONLDProcessorOpts(jsonldOpts)
 
-	err := documentVerifier.VerifyObject(jsonldBytes, expectedProofIssuer, processorOpts...)
+	// The JSON-LD library supports only the types that unmarshalling of JSON produces.
+	doc, err := jsonutil.ToMap(jsonldBytes)
+	if err != nil {
+		return fmt.Errorf("check linked data proof: %w", err)
+	}
+
+	err = documentVerifier.VerifyObject(doc, expectedProofIssuer, processorOpts...)
 	if err != nil {
 		return fmt.Errorf("check linked data proof: %w", err)
 	}
@@ -83,16 +90,24 @@ func addLinkedDataProof(context *LinkedDataProofContext, jsonld JSONObject,
 	opts ...ldprocessor.Opts) ([]Proof, error) {
 	documentSigner := lddocument.NewDocumentSigner(context.ProofCreator)
 
-	err := documentSigner.Sign(mapContext(context), jsonld, opts...)
+	// The JSON-LD library supports only the types that unmarshalling of JSON produces.
+	doc, err := jsonutil.ToMap(jsonld)
 	if err != nil {
 		return nil, fmt.Errorf("add linked data proof: %w", err)
 	}
 
-	proofs, err := parseLDProof(jsonld[jsonFldLDProof])
+	err = documentSigner.Sign(mapContext(context), doc, opts...)
+	if err != nil {
+		return nil, fmt.Errorf("add linked data proof: %w", err)
+	}
+
+	proofs, err := parseLDProof(doc[jsonFldLDProof])
 	if err != nil {
 		return nil, err
 	}
 
+	jsonld[jsonFldLDProof] = doc[jsonFldLDProof]
+
 	return proofs, nil
 }
 
-- 
2.43.0


From 2dcf728213f7e74d1026a18decfc1cf89a0f5fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:11 +0000
Subject: [PATCH 52/83] fix: keep existing proofs when a data integrity proof
 is added

---
 dataintegrity/signer.go         | 33 ++++++++++++++++++++++++++++++---
 verifiable/linked_data_proof.go |  2 +-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/dataintegrity/signer.go b/dataintegrity/signer.go
index bc72f6b..bca60d8 100644
--- a/dataintegrity/signer.go
+++ b/dataintegrity/signer.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
 	"github.com/trustbloc/did-go/doc/did"
 
@@ -80,7 +81,7 @@ var (
 )
 
 // AddProof returns the provided JSON doc, with a top-level "proof" field added,
-// signed using the provided options.
+// signed using the provided options. If the doc has proofs already, the proof is added to them.
 //
 // If the provided options request a cryptographic suite that this Signer does
 // not support, AddProof returns ErrUnsupportedSuite.
@@ -98,7 +99,13 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, err
 	}
 
-	proof, err := signerSuite.CreateProof(doc, opts)
+	// As in verification, a proof covers the document without the proofs.
+	unsecuredDoc, err := sjson.DeleteBytes(doc, proofPath)
+	if err != nil {
+		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
+	}
+
+	proof, err := signerSuite.CreateProof(unsecuredDoc, opts)
 	if err != nil {
 		// TODO update linter to use go 1.20: https://github.com/hyperledger/aries-framework-go/issues/3613
 		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
@@ -125,7 +132,7 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, ErrProofGeneration
 	}
 
-	out, err := sjson.SetRawBytes(doc, proofPath, proofRaw)
+	out, err := sjson.SetRawBytes(unsecuredDoc, proofPath, appendProof(gjson.GetBytes(doc, proofPath), proofRaw))
 	if err != nil {
 		// TODO update linter to use go 1.20: https://github.com/hyperledger/aries-framework-go/issues/3613
 		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
@@ -134,6 +141,26 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 	return out, nil
 }
 
+// appendProof returns the raw JSON of the existing proofs, if any, followed by the new one.
+func appendProof(existing gjson.Result, proofRaw []byte) []byte {
+	var proofs []string
+
+	switch {
+	case existing.IsArray():
+		for _, p := range existing.Array() {
+			proofs = append(proofs, p.Raw)
+		}
+	case existing.IsObject():
+		proofs = append(proofs, existing.Raw)
+	}
+
+	if len(proofs) == 0 {
+		return proofRaw
+	}
+
+	return []byte("[" + strings.Join(append(proofs, string(proofRaw)), ",") + "]")
+}
+
 func resolveVM(opts *models.ProofOptions, resolver didResolver, vmID string) error {
 	if opts.VerificationMethod == nil {
 		if opts.VerificationMethodID == "" {
diff --git a/verifiable/linked_data_proof.go b/verifiable/linked_data_proof.go
index a9fae25..b4202d2 100644
--- a/verifiable/linked_data_proof.go
+++ b/verifiable/linked_data_proof.go
@@ -81,7 +81,7 @@ func mapJSONLDProcessorOpts(jsonldOpts *jsonldCredentialOpts) []ldprocessor.Opts
 }
 
 type rawProof struct {
-	Proof JSONObject `json:"proof,omitempty"`
+	Proof interface{} `json:"proof,omitempty"`
 }
 
 // addLinkedDataProof adds a new proof to the JSON-LD document (VC or VP). It returns a slice
-- 
2.43.0


From 1f99ed15651cea6dad9d5a605441b310684b12dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 53/83] fix: modified dates are those that the modified
 credential states

---
 verifiable/credential.go | 62 +++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 0220c70..fb19e7c 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2645,53 +2645,55 @@ func (vc *Credential) WithModifiedID(id string) *Credential {
 
 // WithModifiedIssued creates new credential with modified issued time and without proofs as they become invalid.
 func (vc *Credential) WithModifiedIssued(wrapper *util.TimeWrapper) *Credential {
-	newCredJSON := copyCredentialJSONWithoutProofs(vc.credentialJSON)
-	newContents := vc.Contents()
-
-	newContents.Issued = wrapper
-	newCredJSON[jsonFldIssued] = serializeTime(wrapper)
+	fld, _ := dateFlds(vc.credentialJSON, jsonFldIssued, jsonFldValidFrom)
 
-	return &Credential{
-		credentialJSON:     newCredJSON,
-		credentialContents: newContents,
-	}
+	return vc.withModifiedDate(fld, wrapper)
 }
 
 // WithModifiedExpired creates new credential with modified expired time and without proofs as they become invalid.
 func (vc *Credential) WithModifiedExpired(wrapper *util.TimeWrapper) *Credential {
-	newCredJSON := copyCredentialJSONWithoutProofs(vc.credentialJSON)
-	newContents := vc.Contents()
+	fld, _ := dateFlds(vc.credentialJSON, jsonFldExpired, jsonFldValidUntil)
 
-	newContents.Expired = wrapper
-	newCredJSON[jsonFldExpired] = serializeTime(wrapper)
-
-	return &Credential{
-		credentialJSON:     newCredJSON,
-		credentialContents: newContents,
-	}
+	return vc.withModifiedDate(fld, wrapper)
 }
 
 // WithModifiedValidFrom creates new credential with modified issued time and without proofs as they become invalid.
 func (vc *Credential) WithModifiedValidFrom(wrapper *util.TimeWrapper) *Credential {
-	newCredJSON := copyCredentialJSONWithoutProofs(vc.credentialJSON)
-	newContents := vc.Contents()
-
-	newContents.Issued = wrapper
-	newCredJSON[jsonFldValidFrom] = serializeTime(wrapper)
-
-	return &Credential{
-		credentialJSON:     newCredJSON,
-		credentialContents: newContents,
-	}
+	return vc.withModifiedDate(jsonFldValidFrom, wrapper)
 }
 
 // WithModifiedValidUntil creates new credential with modified expired time and without proofs as they become invalid.
 func (vc *Credential) WithModifiedValidUntil(wrapper *util.TimeWrapper) *Credential {
+	return vc.withModifiedDate(jsonFldValidUntil, wrapper)
+}
+
+func (vc *Credential) withModifiedDate(fld string, wrapper *util.TimeWrapper) *Credential {
 	newCredJSON := copyCredentialJSONWithoutProofs(vc.credentialJSON)
 	newContents := vc.Contents()
 
-	newContents.Expired = wrapper
-	newCredJSON[jsonFldValidUntil] = serializeTime(wrapper)
+	if wrapper != nil {
+		newCredJSON[fld] = serializeTime(wrapper)
+	} else {
+		delete(newCredJSON, fld)
+	}
+
+	// The date can also be stated by the field of the other data model, which may be the one that counts.
+	stated := func(v1Fld, v2Fld string) *util.TimeWrapper {
+		counting := dateFld(newCredJSON, v1Fld, v2Fld)
+		if counting == fld {
+			return wrapper
+		}
+
+		date, _ := parseTimeFld(newCredJSON, counting) //nolint:errcheck // was parsed or serialized before
+
+		return date
+	}
+
+	if fld == jsonFldIssued || fld == jsonFldValidFrom {
+		newContents.Issued = stated(jsonFldIssued, jsonFldValidFrom)
+	} else {
+		newContents.Expired = stated(jsonFldExpired, jsonFldValidUntil)
+	}
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
-- 
2.43.0


From 5d6057fd227b930c5e5efa76c2aeafa7f236a6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 54/83] fix: leave out absent ids and types of typed objects

---
 verifiable/common.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verifiable/common.go b/verifiable/common.go
index 93728c3..0d0a2e6 100644
--- a/verifiable/common.go
+++ b/verifiable/common.go
@@ -169,8 +169,13 @@ func parseTypedIDObj(typedIDObj JSONObject) (TypedID, error) {
 func serializeTypedIDObj(typedID TypedID) JSONObject {
 	json := jsonutil.ShallowCopyObj(typedID.CustomFields)
 
-	json[jsonFldTypedIDID] = typedID.ID
-	json[jsonFldTypedIDType] = typedID.Type
+	if typedID.ID != "" {
+		json[jsonFldTypedIDID] = typedID.ID
+	}
+
+	if typedID.Type != "" {
+		json[jsonFldTypedIDType] = typedID.Type
+	}
 
 	return json
 }
-- 
2.43.0


From dfc9c8f1f64a6030a9657764bdcc180730ba53c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 55/83] fix: cloned presentations share no fields with the
 original

---
 verifiable/presentation.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 7b0443e..e2955ae 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -10,6 +10,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/fxamacker/cbor/v2"
@@ -542,14 +544,14 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 // Clone returns an exact copy of the presentation.
 func (vp *Presentation) Clone() *Presentation {
 	return &Presentation{
-		Context:       vp.Context,
-		CustomContext: vp.CustomContext,
+		Context:       slices.Clone(vp.Context),
+		CustomContext: slices.Clone(vp.CustomContext),
 		ID:            vp.ID,
-		Type:          vp.Type,
-		credentials:   vp.credentials,
+		Type:          slices.Clone(vp.Type),
+		credentials:   slices.Clone(vp.credentials),
 		Holder:        vp.Holder,
-		Proofs:        vp.Proofs,
-		CustomFields:  vp.CustomFields,
+		Proofs:        slices.Clone(vp.Proofs),
+		CustomFields:  maps.Clone(vp.CustomFields),
 		JWT:           vp.JWT,
 		CWT:           vp.CWT,
 	}
-- 
2.43.0


From 90fd0e06c9443af6e8c396b6c93a572d16d81836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 56/83] fix: the display map of a credential is not the
 credential itself

---
 verifiable/credential_sdjwt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 3e1468a..a2a7ee3 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -17,6 +17,7 @@ import (
 	"github.com/trustbloc/vc-go/sdjwt/common"
 	"github.com/trustbloc/vc-go/sdjwt/holder"
 	"github.com/trustbloc/vc-go/sdjwt/issuer"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
 type marshalDisclosureOpts struct {
@@ -534,7 +535,7 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 	}
 
 	if vc.credentialContents.SDJWTHashAlg == nil || vc.JWTEnvelope == nil {
-		return vc.credentialJSON, nil
+		return jsonutil.ShallowCopyObj(vc.credentialJSON), nil
 	}
 
 	credClaims := &JWTCredClaims{}
-- 
2.43.0


From 761eeb77cda3e2049ac660e0990f768519b193eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 57/83] fix: data integrity proofs of secured credentials cover
 their claims, not the envelope

---
 verifiable/data_integrity_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/data_integrity_proof.go b/verifiable/data_integrity_proof.go
index 514e338..ebb6061 100644
--- a/verifiable/data_integrity_proof.go
+++ b/verifiable/data_integrity_proof.go
@@ -29,7 +29,7 @@ type DataIntegrityProofContext struct {
 
 // AddDataIntegrityProof adds a Data Integrity Proof to the Credential.
 func (vc *Credential) AddDataIntegrityProof(context *DataIntegrityProofContext, signer *dataintegrity.Signer) error {
-	vcBytes, err := vc.MarshalJSON()
+	vcBytes, err := vc.MarshalAsJSONLD()
 	if err != nil {
 		return fmt.Errorf("add data integrity proof to VC: %w", err)
 	}
-- 
2.43.0


From a34696942594f75bacc4636114ad1d34aff14d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 58/83] fix: CWT credentials show their embedded proofs as JWT
 ones do

---
 verifiable/credential_parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verifiable/credential_parser.go b/verifiable/credential_parser.go
index 287d56d..8910aa9 100644
--- a/verifiable/credential_parser.go
+++ b/verifiable/credential_parser.go
@@ -210,9 +210,15 @@ func (p *CredentialCBORParser) Parse( //nolint:funlen,gocyclo // Old function
 		}
 	}
 
+	ldProofs, err := parseLDProof(convertedMap[jsonFldLDProof])
+	if err != nil {
+		return nil, fmt.Errorf("fill credential proof from raw: %w", err)
+	}
+
 	finalCred := &Credential{
 		credentialJSON:     convertedMap,
 		credentialContents: *contents,
+		ldProofs:           ldProofs,
 		CWTEnvelope: &CWTEnvelope{
 			Sign1MessageRaw:    vcData,
 			Sign1MessageParsed: message,
-- 
2.43.0


From 4a9a0eacdc10e95a088fd1ca862dd311f8640230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 59/83] fix: presentations keep their custom contexts

---
 verifiable/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index e2955ae..063c448 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -499,7 +499,7 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 	// TODO single value contexts should be compacted as part of Issue [#1730]
 	// Not compacting now to support interoperability
 	if len(vp.Context) > 0 {
-		rp[vpFldContext] = contextToRaw(vp.Context, nil)
+		rp[vpFldContext] = contextToRaw(vp.Context, vp.CustomContext)
 	}
 
 	if vp.ID != "" {
-- 
2.43.0


From 8032402ebe9314ce2c7899cfe536ddd058d2f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 60/83] fix: presentations keep the properties of their holder

---
 verifiable/presentation.go     | 14 ++++++++++++++
 verifiable/presentation_jwt.go | 17 +++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 063c448..12bb316 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -350,6 +350,9 @@ type Presentation struct {
 	JWT           string
 	CWT           *VpCWT
 
+	// holderProperties of a holder that is given as an object.
+	holderProperties map[string]interface{}
+
 	CustomFields CustomFields
 }
 
@@ -512,6 +515,10 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 
 	if len(vp.Holder) > 0 {
 		rp[vpFldHolder] = vp.Holder
+
+		if vp.holderProperties[vpFldID] == vp.Holder {
+			rp[vpFldHolder] = vp.holderProperties
+		}
 	}
 
 	if len(vp.Proofs) > 0 {
@@ -554,6 +561,8 @@ func (vp *Presentation) Clone() *Presentation {
 		CustomFields:  maps.Clone(vp.CustomFields),
 		JWT:           vp.JWT,
 		CWT:           vp.CWT,
+
+		holderProperties: vp.holderProperties,
 	}
 }
 
@@ -859,6 +868,8 @@ func newPresentation(vpRaw rawPresentation, vpOpts *presentationOpts) (*Presenta
 		return nil, fmt.Errorf("fill presentation holder from raw: %w", err)
 	}
 
+	holderProperties, _ := vpRaw[vpFldHolder].(map[string]interface{}) //nolint:errcheck // nil if it is a string
+
 	if err = executeChecks(vpOpts, proofs, creds, holder); err != nil {
 		return nil, err
 	}
@@ -871,6 +882,9 @@ func newPresentation(vpRaw rawPresentation, vpOpts *presentationOpts) (*Presenta
 		credentials:   creds,
 		Holder:        holder,
 		Proofs:        proofs,
+
+		holderProperties: holderProperties,
+
 		CustomFields: jsonutil.CopyExcept(vpRaw,
 			vpFldContext,
 			vpFldID,
diff --git a/verifiable/presentation_jwt.go b/verifiable/presentation_jwt.go
index 368e302..2014eef 100644
--- a/verifiable/presentation_jwt.go
+++ b/verifiable/presentation_jwt.go
@@ -28,7 +28,7 @@ func (jpc *JWTPresClaims) refineFromJWTClaims() {
 	raw := jpc.Presentation
 
 	if jpc.Issuer != "" {
-		raw[vpFldHolder] = jpc.Issuer
+		setHolderID(raw, jpc.Issuer)
 	}
 
 	if jpc.ID != "" {
@@ -36,6 +36,15 @@ func (jpc *JWTPresClaims) refineFromJWTClaims() {
 	}
 }
 
+// setHolderID sets the holder of the presentation, which keeps its properties if it is that holder already.
+func setHolderID(raw rawPresentation, holderID string) {
+	if holder, ok := raw[vpFldHolder].(map[string]interface{}); ok && holder["id"] == holderID {
+		return
+	}
+
+	raw[vpFldHolder] = holderID
+}
+
 // newJWTPresClaims creates JWT Claims of VP with an option to minimize certain fields put into "vp" claim.
 func newJWTPresClaims(vp *Presentation, audience []string, minimizeVP bool) (*JWTPresClaims, error) {
 	// currently jwt encoding supports only single subject.([]Subject) (by the spec)
@@ -55,7 +64,11 @@ func newJWTPresClaims(vp *Presentation, audience []string, minimizeVP bool) (*JW
 	if minimizeVP {
 		vpCopy := *vp
 		vpCopy.ID = ""
-		vpCopy.Holder = ""
+
+		if vp.holderProperties[vpFldID] != vp.Holder { // the claims have no properties of the holder
+			vpCopy.Holder = ""
+		}
+
 		rawVP, err = vpCopy.raw()
 	} else {
 		rawVP, err = vp.raw()
-- 
2.43.0


From b9527562b50bfd61875f956c928bb71623285188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 61/83] fix: CWT presentations take holder and id from their
 claims

---
 verifiable/presentation_parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index e471df6..7715dd6 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -156,8 +156,15 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 	}
 
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
-	if !ok {
-		// do nothing
+	if ok {
+		// As in JWT form, the claims tell the holder and the id of the presentation.
+		if iss, isStr := convertedMap["iss"].(string); isStr && iss != "" {
+			setHolderID(vpContent, iss)
+		}
+
+		if jti, isStr := convertedMap["jti"].(string); isStr && jti != "" {
+			vpContent[vpFldID] = jti
+		}
 	}
 
 	return &parsePresentationResponse{
-- 
2.43.0


From 537fe7f3938d4ddcb62d01555442df1dced7ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:03 +0000
Subject: [PATCH 62/83] fix: token of a linkage credential must name the DID as
 issuer and subject

---
 didconfig/verifier/didconfig.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 3ec3599..03982bb 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -280,6 +280,15 @@ func validateJWTPayload(vc *verifiable.Credential, payload map[string]interface{
 		return fmt.Errorf("JWT Payload: %w", err)
 	}
 
+	// the claims of the token itself, if they are given
+	if iss, ok := payload["iss"]; ok && iss != did {
+		return errors.New("iss MUST be equal to credentialSubject.id")
+	}
+
+	if sub, ok := payload["sub"]; ok && sub != did {
+		return errors.New("sub MUST be equal to credentialSubject.id")
+	}
+
 	return validateJWTClaims(vc, did)
 }
 
-- 
2.43.0


From ca4623e341f7b443623217488a06fdeb03710aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:03 +0000
Subject: [PATCH 63/83] fix: linkage credentials without issuer or subject are
 skipped

---
 didconfig/verifier/didconfig.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 03982bb..a7a82f8 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -327,6 +327,10 @@ func validateSubject(subject interface{}, did, origin string) error {
 			return errors.New("encountered multiple subjects")
 		}
 
+		if len(s) == 0 {
+			return errors.New("subject MUST be present")
+		}
+
 		subject := s[0]
 
 		if subject.ID == "" {
@@ -420,9 +424,16 @@ func getCredentials(linkedDIDs []interface{}, did, domain string, opts ...verifi
 			continue
 		}
 
-		if vc.Contents().Issuer.ID != did {
+		issuer := vc.Contents().Issuer
+		if issuer == nil {
+			debugLogger.Printf("skipping credential since it has no issuer")
+
+			continue
+		}
+
+		if issuer.ID != did {
 			debugLogger.Printf("skipping credential since issuer[%s] is different from DID[%s]",
-				vc.Contents().Issuer.ID, did)
+				issuer.ID, did)
 
 			continue
 		}
-- 
2.43.0


From 552a02eaf28920c33ff75493160bf480402c6b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:03 +0000
Subject: [PATCH 64/83] fix: origins without a host match only when equal

---
 didconfig/verifier/didconfig.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index a7a82f8..846e522 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -384,6 +384,11 @@ func validateOrigin(origin1, origin2 string) error {
 		return err
 	}
 
+	// without a host there is no origin to compare: "shop.example" and "other.example" both parse as paths
+	if url1.Host == "" && url2.Host == "" && origin1 != origin2 {
+		return fmt.Errorf("origin[%s] and domain origin[%s] are different", origin1, origin2)
+	}
+
 	// Browsers define same origin based on the following pieces of data:
 	// The protocol (e.g., HTTP or HTTPS)
 	// The port, if available
-- 
2.43.0


From f0068c2e8f818a3c62186fe791f1159f6a886b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:09 +0000
Subject: [PATCH 65/83] fix: BBS+ proof statements keep the signed order

---
 .../bbsblssignatureproof2020/proof.go         | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/proof/ldproofs/bbsblssignatureproof2020/proof.go b/proof/ldproofs/bbsblssignatureproof2020/proof.go
index 2e14d2b..652627a 100644
--- a/proof/ldproofs/bbsblssignatureproof2020/proof.go
+++ b/proof/ldproofs/bbsblssignatureproof2020/proof.go
@@ -15,6 +15,9 @@ package bbsblssignatureproof2020
 // It uses BLS12-381 pairing-friendly curve (https://tools.ietf.org/html/draft-irtf-cfrg-pairing-friendly-curves-03).
 
 import (
+	"bytes"
+	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/trustbloc/did-go/doc/ld/processor"
@@ -37,6 +40,8 @@ const (
 	rdfDataSetAlg          = "URDNA2015"
 )
 
+var blankNodeIRI = regexp.MustCompile(`<urn:bnid:(_:c14n[0-9]+)>`)
+
 // New an instance of Linked Data Signatures for the suite.
 func New() *Proof {
 	p := &Proof{jsonldProcessor: processor.NewProcessor(rdfDataSetAlg)}
@@ -72,7 +77,29 @@ func (s *Proof) GetCanonicalDocument(doc map[string]interface{}, opts ...process
 		}
 	}
 
-	return s.jsonldProcessor.GetCanonicalDocument(doc, opts...)
+	canonical, err := s.jsonldProcessor.GetCanonicalDocument(doc, opts...)
+	if err != nil {
+		return nil, err
+	}
+
+	return restoreStatementOrder(canonical), nil
+}
+
+// restoreStatementOrder puts the statements of a derived document in the order which they had in the signed one.
+// The signed document had blank nodes ("_:c14n0") where the derived one has IRIs ("<urn:bnid:_:c14n0>"), and
+// canonical statements are sorted.
+func restoreStatementOrder(canonical []byte) []byte {
+	if !bytes.Contains(canonical, []byte("<urn:bnid:_:c14n")) {
+		return canonical
+	}
+
+	rows := strings.Split(strings.TrimSuffix(string(canonical), "\n"), "\n")
+
+	sort.SliceStable(rows, func(i, j int) bool {
+		return blankNodeIRI.ReplaceAllString(rows[i], "$1") < blankNodeIRI.ReplaceAllString(rows[j], "$1")
+	})
+
+	return []byte(strings.Join(rows, "\n") + "\n")
 }
 
 // GetDigest returns the doc itself as we would process N-Quads statements as messages to be signed/verified.
-- 
2.43.0


From 6d4d5b2e25a6c06728366f488dfe6da6d57bfbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:09 +0000
Subject: [PATCH 66/83] fix: revealed statements have to be in the BBS+ signed
 document

---
 verifiable/bbs_selective_disclosure.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 5d92dbe..04128bd 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -237,7 +237,12 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 
 	for i := range revealDocumentStatements {
 		statement := revealDocumentStatements[i]
-		statementInd := documentStatementsMap[statement]
+
+		statementInd, ok := documentStatementsMap[statement]
+		if !ok {
+			return nil, fmt.Errorf("statement to reveal is not in the document: %s", statement)
+		}
+
 		revealIndexes[i] = statementInd
 	}
 
-- 
2.43.0


From aa3ab4eac5c7263ee0bef6ff009ff6949650543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:09 +0000
Subject: [PATCH 67/83] fix: BBS+ proofs cover all statements and do not panic

---
 crypto-ext/verifiers/bbs/verifier.go | 58 ++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 2ce92fa..c6b2af3 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -8,8 +8,10 @@ package bbs
 
 import (
 	"bytes"
+	"encoding/binary"
 	"errors"
 	"fmt"
+	"math/big"
 	"strings"
 
 	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
@@ -75,7 +77,14 @@ type G2SignatureProofVerifier struct {
 
 // Verify verifies the signature.
 func (v *G2SignatureProofVerifier) Verify(signature, msg []byte, pubKeyValue *pubkey.PublicKey,
-	proof *proof.Proof) error {
+	proof *proof.Proof) (err error) {
+	// the library panics on proofs with too few values
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid signature proof: %v", r)
+		}
+	}()
+
 	bbs := bbs12381g2pub.New()
 
 	bytesKey := pubKeyValue.BytesKey
@@ -93,8 +102,51 @@ func (v *G2SignatureProofVerifier) Verify(signature, msg []byte, pubKeyValue *pu
 		return errors.New("incorrect pub key, should contain key bytes or jwk")
 	}
 
-	return bbs.VerifyProof(splitMessageIntoLines(string(msg), true),
-		bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+	messages := splitMessageIntoLines(string(msg), true)
+
+	// VerifyProof pairs revealed messages with the given ones in order and doesn't look at surplus ones.
+	revealed, err := revealedMessagesCount(signature)
+	if err != nil {
+		return err
+	}
+
+	if revealed != len(messages) {
+		return fmt.Errorf("proof reveals %d messages, got %d", revealed, len(messages))
+	}
+
+	return bbs.VerifyProof(messages, bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+}
+
+// revealedMessagesCount returns the number of messages revealed by a signature proof. The proof starts with
+// the total number of signed messages (2 bytes), followed by a bit vector of the revealed ones.
+func revealedMessagesCount(signatureProof []byte) (int, error) {
+	const (
+		countLen    = 2
+		bitsPerByte = 8
+	)
+
+	if len(signatureProof) < countLen {
+		return 0, errors.New("invalid size of signature proof")
+	}
+
+	total := int(binary.BigEndian.Uint16(signatureProof))
+	end := countLen + total/bitsPerByte + 1
+
+	if len(signatureProof) < end {
+		return 0, errors.New("invalid size of signature proof")
+	}
+
+	revealed := new(big.Int).SetBytes(signatureProof[countLen:end])
+	if revealed.BitLen() > total {
+		return 0, errors.New("proof reveals messages beyond the signed ones")
+	}
+
+	count := 0
+	for i := range total {
+		count += int(revealed.Bit(i))
+	}
+
+	return count, nil
 }
 
 func splitMessageIntoLines(msg string, transformBlankNodes bool) [][]byte {
-- 
2.43.0


From eeed05b2e28e346a51c4a60bba053027a5203f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:10 +0000
Subject: [PATCH 68/83] fix: BBS+ limited disclosure reveals exactly the
 selected members

---
 presexch/definition.go | 146 +++++++++++++++++++++--------------------
 1 file changed, 76 insertions(+), 70 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 1292da2..4cfe536 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -12,17 +12,13 @@ import (
 	"errors"
 	"fmt"
 	"maps"
-	"slices"
 	"sort"
-	"strconv"
 	"strings"
 	"time"
 
 	"github.com/google/uuid"
 	"github.com/piprate/json-gold/ld"
 	"github.com/samber/lo"
-	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 	"github.com/xeipuuv/gojsonschema"
 
 	"github.com/trustbloc/vc-go/presexch/internal/requirementlogic"
@@ -1444,7 +1440,6 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 	var (
 		doBBS               = hasBBS(credential) && constraints.LimitDisclosure.isRequired()
 		modifiedByPredicate bool
-		explicitPaths       = make(map[string]bool)
 		srcMap, limitedMap  map[string]interface{}
 	)
 
@@ -1472,7 +1467,7 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		}
 	}
 
-	limitedCred, err := json.Marshal(selected.reveal(srcMap, limitedMap, nil, explicitPaths))
+	limitedCred, err := json.Marshal(selected.reveal(srcMap, limitedMap))
 	if err != nil {
 		return nil, err
 	}
@@ -1482,17 +1477,17 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		return verifiable.ParseCredential(limitedCred, opts...)
 	}
 
-	revealDoc, err := enhanceRevealDoc(explicitPaths, limitedCred, src)
-	if err != nil {
+	var doc map[string]interface{}
+	if err := json.Unmarshal(limitedCred, &doc); err != nil {
 		return nil, err
 	}
 
-	var doc map[string]interface{}
-	if err := json.Unmarshal(revealDoc, &doc); err != nil {
-		return nil, err
+	frame, ok := selected.frame(srcMap, doc).(map[string]interface{})
+	if !ok {
+		return nil, errors.New("credential cannot be revealed by a frame")
 	}
 
-	return credential.GenerateBBSSelectiveDisclosure(doc, []byte(uuid.New().String()), sdBBSProofCreator, opts...)
+	return credential.GenerateBBSSelectiveDisclosure(frame, []byte(uuid.New().String()), sdBBSProofCreator, opts...)
 }
 
 // fieldLocations lists the places in the credential that the paths of the field select.
@@ -1549,14 +1544,8 @@ func (s *selection) add(location spec.NormalizedPath, predicate bool) {
 
 // reveal returns what has to be at a place of the limited document where the complete document has src and the
 // limited one has limited so far: selected values are copied, predicates are answered with true. Array elements that
-// are not selected are left out. The parents of the selected values are added to explicitPaths.
-func (s *selection) reveal(src, limited interface{}, path []string, explicitPaths map[string]bool) interface{} {
-	if s.whole || s.predicate {
-		if len(path) > 1 {
-			explicitPaths[strings.Join(path[:len(path)-1], ".")] = true
-		}
-	}
-
+// are not selected are left out.
+func (s *selection) reveal(src, limited interface{}) interface{} {
 	if s.predicate {
 		return true
 	}
@@ -1576,21 +1565,19 @@ func (s *selection) reveal(src, limited interface{}, path []string, explicitPath
 
 		for selector, child := range s.children {
 			if name, isName := selector.(spec.Name); isName {
-				limitedObj[string(name)] = child.reveal(value[string(name)], limitedObj[string(name)],
-					append(slices.Clone(path), string(name)), explicitPaths)
+				limitedObj[string(name)] = child.reveal(value[string(name)], limitedObj[string(name)])
 			}
 		}
 
 		return limitedObj
 	case []interface{}:
-		return s.revealArray(value, limited, path, explicitPaths)
+		return s.revealArray(value, limited)
 	default:
 		return limited
 	}
 }
 
-func (s *selection) revealArray(src []interface{}, limited interface{}, path []string,
-	explicitPaths map[string]bool) interface{} {
+func (s *selection) revealArray(src []interface{}, limited interface{}) interface{} {
 	limitedArr, ok := limited.([]interface{})
 	compact := !ok || len(limitedArr) != len(src)
 
@@ -1607,8 +1594,7 @@ func (s *selection) revealArray(src []interface{}, limited interface{}, path []s
 
 		switch {
 		case selected:
-			result = append(result, child.reveal(value, element,
-				append(slices.Clone(path), strconv.Itoa(len(result))), explicitPaths))
+			result = append(result, child.reveal(value, element))
 		case !compact:
 			result = append(result, element)
 		}
@@ -1617,71 +1603,91 @@ func (s *selection) revealArray(src []interface{}, limited interface{}, path []s
 	return result
 }
 
-func enhanceRevealDoc(explicitPaths map[string]bool, revealDoc, vcBytes []byte) ([]byte, error) {
-	var err error
-
-	revealDoc, err = sjson.SetBytes(revealDoc, "@explicit", true)
-	if err != nil {
-		return nil, err
+// frame returns the JSON-LD frame that reveals the selection of src, where limited is the result of reveal: objects
+// show nothing but the members of the frame, selected values are matched whatever they are.
+func (s *selection) frame(src, limited interface{}) interface{} {
+	if s.whole {
+		return wholeFrame(src)
 	}
 
-	intermPaths := make(map[string]bool)
+	switch limited := limited.(type) {
+	case map[string]interface{}:
+		srcObj, _ := src.(map[string]interface{}) //nolint:errcheck // members of other values are unknown
 
-	for path := range explicitPaths {
-		revealDoc, err = enhanceRevealField(path, revealDoc, vcBytes)
-		if err != nil {
-			return nil, err
-		}
+		frame := map[string]interface{}{"@explicit": true}
 
-		pathParts := strings.Split(path, ".")
-		combinedPath := ""
+		for name, value := range limited {
+			child, selected := s.children[spec.Name(name)]
 
-		for i := range len(pathParts) - 1 {
-			if i == 0 {
-				combinedPath = pathParts[0]
-			} else {
-				combinedPath += "." + pathParts[i]
+			switch {
+			case selected:
+				frame[name] = child.frame(srcObj[name], value)
+			case name == "issuer":
+				frame[name] = wholeFrame(value)
+			default:
+				frame[name] = (&selection{}).frame(srcObj[name], value)
 			}
 
-			if _, ok := explicitPaths[combinedPath]; !ok {
-				intermPaths[combinedPath] = false
+			if member, ok := frame[name].(map[string]interface{}); ok {
+				delete(member, "id") // framing renames nodes that occur more than once
 			}
 		}
+
+		copyMembers(frame, srcObj, "type", "@context")
+
+		return frame
+	case []interface{}:
+		return s.frameArray(src, limited)
+	default:
+		return limited
 	}
+}
 
-	for path := range intermPaths {
-		revealDoc, err = enhanceRevealField(path, revealDoc, vcBytes)
-		if err != nil {
-			return nil, err
+func (s *selection) frameArray(src interface{}, limited []interface{}) interface{} {
+	srcArr, _ := src.([]interface{}) //nolint:errcheck // elements of other values are unknown
+	compact := len(limited) != len(srcArr)
+	frames := make([]interface{}, 0, len(limited))
+
+	for i, value := range srcArr {
+		child, selected := s.children[spec.Index(i)]
+
+		switch {
+		case selected && len(frames) < len(limited):
+			frames = append(frames, child.frame(value, limited[len(frames)]))
+		case !compact:
+			frames = append(frames, (&selection{}).frame(value, limited[i]))
 		}
 	}
 
-	return revealDoc, nil
+	return frames
 }
 
-func enhanceRevealField(path string, revealDoc, vcBytes []byte) ([]byte, error) {
-	var err error
+// wholeFrame returns the JSON-LD frame that matches any value in the place of src. It doesn't embed the node that src
+// is the id of.
+func wholeFrame(src interface{}) interface{} {
+	switch value := src.(type) {
+	case map[string]interface{}:
+		frame := map[string]interface{}{}
+		copyMembers(frame, value, "id", "type", "@context")
 
-	revealDoc, err = sjson.SetBytes(revealDoc, path+".@explicit", true)
-	if err != nil {
-		return nil, err
+		return frame
+	case []interface{}:
+		for _, element := range value {
+			if _, isObj := element.(map[string]interface{}); isObj {
+				return map[string]interface{}{}
+			}
+		}
 	}
 
-	for _, cf := range [...]string{"type", "@context"} {
-		specialFieldPath := path + "." + cf
-
-		specialFieldValue := gjson.GetBytes(vcBytes, specialFieldPath)
-		if specialFieldValue.Type == gjson.Null {
-			continue
-		}
+	return map[string]interface{}{"@embed": "@never"}
+}
 
-		revealDoc, err = sjson.SetBytes(revealDoc, specialFieldPath, specialFieldValue.Value())
-		if err != nil {
-			return nil, err
+func copyMembers(dst, src map[string]interface{}, names ...string) {
+	for _, name := range names {
+		if value, ok := src[name]; ok {
+			dst[name] = value
 		}
 	}
-
-	return revealDoc, nil
 }
 
 func hasBBS(vc *verifiable.Credential) bool {
-- 
2.43.0


From ce0877dff2153ca40749814f92a03d34c07ecfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 69/83] fix: short digests of related resources do not crash
 the validator

---
 verifiable/related_resource.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 03fdae4..132a7c7 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -197,9 +197,12 @@ func (r *RelatedResourceValidator) validateHash(
 		return fmt.Errorf("unsupported hash algorithm: %s", hashAlgo)
 	}
 
-	hasHeader := enc == multibase.Base64url && decodedDigest[0] == 0x12 && decodedDigest[1] == 0x20
+	header := []byte{0x12, 0x20}
+
+	hasHeader := enc == multibase.Base64url && bytes.HasPrefix(decodedDigest, header) &&
+		len(decodedDigest) == len(header)+len(rawHash)
 	if hasHeader { // skip header
-		decodedDigest = decodedDigest[2:]
+		decodedDigest = decodedDigest[len(header):]
 	}
 
 	if !bytes.Equal(rawHash, decodedDigest) {
-- 
2.43.0


From c9407d4ed5b3e6e0cb16d9c797db312e31e35bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 70/83] fix: null entries of a descriptor map are refused

---
 presexch/api.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index 75badcf..9bdcde3 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -158,6 +158,10 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 			return nil, err
 		}
 
+		if err := checkDescriptorMap(opts.MergedSubmission.DescriptorMap); err != nil {
+			return nil, fmt.Errorf("failed to parse descriptor map: %w", err)
+		}
+
 		mappingsByVPIndex = descriptorsByPresentationIndex(opts.MergedSubmission.DescriptorMap)
 	} else if len(opts.MergedSubmissionMap) != 0 {
 		useMergedSubmission = true
@@ -420,9 +424,13 @@ func parseDescriptorMap(vp *verifiable.Presentation) ([]*InputDescriptorMapping,
 	case map[string]interface{}:
 		return getDescriptorMapping(submission)
 	case *PresentationSubmission:
-		return submission.DescriptorMap, nil
+		if submission == nil {
+			return nil, fmt.Errorf("missing '%s' on verifiable presentation", submissionProperty)
+		}
+
+		return submission.DescriptorMap, checkDescriptorMap(submission.DescriptorMap)
 	case PresentationSubmission:
-		return submission.DescriptorMap, nil
+		return submission.DescriptorMap, checkDescriptorMap(submission.DescriptorMap)
 	default:
 		return nil, fmt.Errorf("missing '%s' on verifiable presentation", submissionProperty)
 	}
@@ -470,7 +478,18 @@ func getDescriptorMapping(submission map[string]interface{}) ([]*InputDescriptor
 		return nil, fmt.Errorf("failed to unmarshal descriptor map: %w", err)
 	}
 
-	return typedDescriptorMap, nil
+	return typedDescriptorMap, checkDescriptorMap(typedDescriptorMap)
+}
+
+// checkDescriptorMap checks that a descriptor map, which comes from the holder, has no empty entries.
+func checkDescriptorMap(descriptorMap []*InputDescriptorMapping) error {
+	for i, mapping := range descriptorMap {
+		if mapping == nil {
+			return fmt.Errorf("entry %d of '%s' is null", i, descriptorMapProperty)
+		}
+	}
+
+	return nil
 }
 
 func descriptorIDs(input []*InputDescriptor) map[string]bool {
-- 
2.43.0


From abc015c4379800963117829b373dab29fbba10e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:14 +0000
Subject: [PATCH 71/83] fix: presentation definitions with null entries are
 refused when matching

---
 presexch/api.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index 9bdcde3..3d62b8d 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -126,6 +126,11 @@ func (pd *PresentationDefinition) Match(
 		options[i](opts)
 	}
 
+	err := pd.checkNoNullEntries()
+	if err != nil {
+		return nil, fmt.Errorf("presentation definition: %w", err)
+	}
+
 	result, err := getMatchedCreds(pd, vpList, contextLoader, opts)
 	if err != nil {
 		return nil, err
@@ -347,6 +352,47 @@ func selectVC(typelessVerifiable interface{},
 	return vc, nil
 }
 
+// checkNoNullEntries checks that no list of the definition has a null entry.
+func (pd *PresentationDefinition) checkNoNullEntries() error {
+	for _, descriptor := range pd.InputDescriptors {
+		if descriptor == nil {
+			return errors.New("input descriptor is null")
+		}
+
+		for _, schema := range descriptor.Schema {
+			if schema == nil {
+				return fmt.Errorf("input descriptor %s has a null schema", descriptor.ID)
+			}
+		}
+
+		if descriptor.Constraints == nil {
+			continue
+		}
+
+		for _, field := range descriptor.Constraints.Fields {
+			if field == nil {
+				return fmt.Errorf("input descriptor %s has a null field", descriptor.ID)
+			}
+		}
+	}
+
+	return checkNoNullRequirements(pd.SubmissionRequirements)
+}
+
+func checkNoNullRequirements(requirements []*SubmissionRequirement) error {
+	for _, requirement := range requirements {
+		if requirement == nil {
+			return errors.New("submission requirement is null")
+		}
+
+		if err := checkNoNullRequirements(requirement.FromNested); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 // Ensures the matched credentials meet the submission requirements.
 func (pd *PresentationDefinition) evalSubmissionRequirements(matched []*MatchValue) error {
 	if len(pd.SubmissionRequirements) > 0 {
-- 
2.43.0


From 475eb7447f3f2b327c520aa6b8de0ab37402bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 72/83] fix: malformed credential schemas are refused without a
 panic

---
 verifiable/credential.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index fb19e7c..c6c7cdb 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2170,7 +2170,7 @@ func validateCredentialUsingJSONSchema(vcJSON JSONObject, vcc *CredentialContent
 
 	loader := gojsonschema.NewGoLoader(vcJSON)
 
-	result, err := gojsonschema.Validate(schemaLoader, loader)
+	result, err := validateAgainstSchema(schemaLoader, loader)
 	if err != nil {
 		return fmt.Errorf("validation of verifiable credential: %w", err)
 	}
@@ -2183,6 +2183,18 @@ func validateCredentialUsingJSONSchema(vcJSON JSONObject, vcc *CredentialContent
 	return nil
 }
 
+// validateAgainstSchema validates a document against a schema that may come from outside: the library panics on some
+// malformed schemas.
+func validateAgainstSchema(schema, document gojsonschema.JSONLoader) (result *gojsonschema.Result, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("malformed JSON schema: %v", r)
+		}
+	}()
+
+	return gojsonschema.Validate(schema, document)
+}
+
 func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschema.JSONLoader, error) {
 	var schemaLoader gojsonschema.JSONLoader
 
-- 
2.43.0


From 21d297ca57326ac94e783d1be2a41058a80cfedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:22 +0000
Subject: [PATCH 73/83] fix: SRI digests in base64url may contain dashes

---
 verifiable/related_resource.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 132a7c7..bed206d 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -157,14 +157,13 @@ func (r *RelatedResourceValidator) validateSingleResource(
 	var hash string
 
 	if res.DigestSRI != "" {
-		sp := strings.Split(res.DigestSRI, "-")
+		var found bool
 
-		if len(sp) != 2 {
+		// the digest itself may contain dashes when it is encoded in base64url
+		hashAlgo, hash, found = strings.Cut(res.DigestSRI, "-")
+		if !found {
 			return fmt.Errorf("invalid digest SRI format: %s", res.DigestSRI)
 		}
-
-		hashAlgo = sp[0]
-		hash = sp[1]
 	} else if res.DigestMultiBase != "" {
 		hashAlgo = "sha256"
 		hash = res.DigestMultiBase
-- 
2.43.0


From 077d5a842269498cadcc3fc85fb8b20b69ef30e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:25 +0000
Subject: [PATCH 74/83] fix: both digests of a related resource have to match

---
 verifiable/related_resource.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index bed206d..914daf0 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -152,24 +152,27 @@ func (r *RelatedResourceValidator) validateSingleResource(
 	res *RelatedResource,
 	cachedResource *CachedResource,
 ) error {
-	var hashAlgo string
-
-	var hash string
+	if res.DigestSRI == "" && res.DigestMultiBase == "" {
+		return fmt.Errorf("no digest: %s", res.Id)
+	}
 
 	if res.DigestSRI != "" {
-		var found bool
-
 		// the digest itself may contain dashes when it is encoded in base64url
-		hashAlgo, hash, found = strings.Cut(res.DigestSRI, "-")
+		hashAlgo, hash, found := strings.Cut(res.DigestSRI, "-")
 		if !found {
 			return fmt.Errorf("invalid digest SRI format: %s", res.DigestSRI)
 		}
-	} else if res.DigestMultiBase != "" {
-		hashAlgo = "sha256"
-		hash = res.DigestMultiBase
+
+		if err := r.validateHash(hash, hashAlgo, res, cachedResource); err != nil {
+			return err
+		}
+	}
+
+	if res.DigestMultiBase != "" {
+		return r.validateHash(res.DigestMultiBase, "sha256", res, cachedResource)
 	}
 
-	return r.validateHash(hash, hashAlgo, res, cachedResource)
+	return nil
 }
 
 func (r *RelatedResourceValidator) validateHash(
-- 
2.43.0


From 11e728369fed451f273af33e072ce6c329fec0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:28 +0000
Subject: [PATCH 75/83] fix: multihash digests of related resources are
 recognised in every multibase encoding

---
 verifiable/related_resource.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 914daf0..609ada8 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -181,7 +181,7 @@ func (r *RelatedResourceValidator) validateHash(
 	res *RelatedResource,
 	cachedResource *CachedResource,
 ) error {
-	enc, decodedDigest, err := multibase.Decode(hash)
+	_, decodedDigest, err := multibase.Decode(hash)
 	if err != nil {
 		return errors.Join(err, fmt.Errorf("decode digest: %s", hash))
 	}
@@ -199,11 +199,10 @@ func (r *RelatedResourceValidator) validateHash(
 		return fmt.Errorf("unsupported hash algorithm: %s", hashAlgo)
 	}
 
-	header := []byte{0x12, 0x20}
+	header := []byte{0x12, 0x20} // of a SHA-256 multihash, in any encoding
 
-	hasHeader := enc == multibase.Base64url && bytes.HasPrefix(decodedDigest, header) &&
-		len(decodedDigest) == len(header)+len(rawHash)
-	if hasHeader { // skip header
+	if len(rawHash) == sha256.Size && len(decodedDigest) == len(header)+sha256.Size &&
+		bytes.HasPrefix(decodedDigest, header) { // skip header
 		decodedDigest = decodedDigest[len(header):]
 	}
 
-- 
2.43.0


From 0bdb2837797fdc7af19097fc7b50f179eebc74ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:41 +0000
Subject: [PATCH 76/83] fix: cached schemas are not served after they expired

---
 verifiable/credential.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index c6c7cdb..d1a5de3 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -725,7 +725,7 @@ func (b *CredentialSchemaLoaderBuilder) Build() *CredentialSchemaLoader {
 
 // Put element to the cache. It also adds a mark of when the element will expire.
 func (sc *ExpirableSchemaCache) Put(k string, v []byte) {
-	expires := time.Now().Add(sc.expiration).Unix()
+	expires := time.Now().Add(sc.expiration).UnixMilli()
 
 	const numBytesTime = 8
 
@@ -750,7 +750,7 @@ func (sc *ExpirableSchemaCache) Get(k string) ([]byte, bool) {
 	const numBytesTime = 8
 
 	expires := int64(binary.LittleEndian.Uint64(b[:numBytesTime]))
-	if expires < time.Now().Unix() {
+	if expires <= time.Now().UnixMilli() {
 		// cache expires
 		sc.cache.Del([]byte(k))
 		return nil, false
-- 
2.43.0


From 88bf5c1214121e299f1306514a2cb1ba8b487392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:00 +0000
Subject: [PATCH 77/83] fix: a credential has to satisfy all the JSON schemas
 it names

---
 verifiable/credential.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index d1a5de3..fcd230c 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2163,21 +2163,23 @@ func SerializeSubject(subject []Subject) interface{} {
 // conforms to the serialization of the Verifiable Credential data model
 // (https://w3c.github.io/vc-data-model/#example-1-a-simple-example-of-a-verifiable-credential)
 func validateCredentialUsingJSONSchema(vcJSON JSONObject, vcc *CredentialContents, opts *credentialOpts) error {
-	schemaLoader, err := getSchemaLoader(vcc, opts)
+	schemaLoaders, err := getSchemaLoaders(vcc, opts)
 	if err != nil {
 		return fmt.Errorf("get schema loader: %w", err)
 	}
 
 	loader := gojsonschema.NewGoLoader(vcJSON)
 
-	result, err := validateAgainstSchema(schemaLoader, loader)
-	if err != nil {
-		return fmt.Errorf("validation of verifiable credential: %w", err)
-	}
+	for _, schemaLoader := range schemaLoaders {
+		result, err := validateAgainstSchema(schemaLoader, loader)
+		if err != nil {
+			return fmt.Errorf("validation of verifiable credential: %w", err)
+		}
 
-	if !result.Valid() {
-		errMsg := describeSchemaValidationError(result, "verifiable credential")
-		return errors.New(errMsg)
+		if !result.Valid() {
+			errMsg := describeSchemaValidationError(result, "verifiable credential")
+			return errors.New(errMsg)
+		}
 	}
 
 	return nil
@@ -2195,7 +2197,9 @@ func validateAgainstSchema(schema, document gojsonschema.JSONLoader) (result *go
 	return gojsonschema.Validate(schema, document)
 }
 
-func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschema.JSONLoader, error) {
+// getSchemaLoaders returns the schemas that the credential has to satisfy: all the custom ones of a supported type that
+// it names, or else the default one.
+func getSchemaLoaders(vcc *CredentialContents, opts *credentialOpts) ([]gojsonschema.JSONLoader, error) {
 	var schemaLoader gojsonschema.JSONLoader
 
 	if IsBaseContext(vcc.Context, V2ContextURI) {
@@ -2205,17 +2209,19 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 	}
 
 	if opts.disabledCustomSchema {
-		return schemaLoader, nil
+		return []gojsonschema.JSONLoader{schemaLoader}, nil
 	}
 
 	if opts.defaultSchema != "" {
-		return gojsonschema.NewStringLoader(opts.defaultSchema), nil
+		return []gojsonschema.JSONLoader{gojsonschema.NewStringLoader(opts.defaultSchema)}, nil
 	}
 
 	if opts.defaultSchemaLoader != nil {
-		return gojsonschema.NewStringLoader(opts.defaultSchemaLoader(vcc)), nil
+		return []gojsonschema.JSONLoader{gojsonschema.NewStringLoader(opts.defaultSchemaLoader(vcc))}, nil
 	}
 
+	var customSchemas []gojsonschema.JSONLoader
+
 	for _, schema := range vcc.Schemas {
 		switch schema.Type {
 		case jsonSchema2018Type, jsonSchemaType:
@@ -2224,7 +2230,7 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 				return nil, fmt.Errorf("load of custom credential schema from %s: %w", schema.ID, err)
 			}
 
-			return gojsonschema.NewBytesLoader(customSchemaData), nil
+			customSchemas = append(customSchemas, gojsonschema.NewBytesLoader(customSchemaData))
 		//TODO: add support for JSON Schema Credential
 		case jsonSchemaCredentialType:
 			// TODO: should unsupported schema type be ignored or should this cause an error?
@@ -2235,7 +2241,11 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 		}
 	}
 
-	return schemaLoader, nil
+	if len(customSchemas) > 0 {
+		return customSchemas, nil
+	}
+
+	return []gojsonschema.JSONLoader{schemaLoader}, nil
 }
 
 type schemaOpts struct {
-- 
2.43.0


From 91388c8ebb543c5e05ea33a4b8700d9beb0996a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 78/83] fix: a schema too big for the cache does not leave an
 older one in its place

---
 verifiable/credential.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index fcd230c..88aaf4f 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -736,6 +736,8 @@ func (sc *ExpirableSchemaCache) Put(k string, v []byte) {
 	copy(ve[:numBytesTime], b)
 	copy(ve[numBytesTime:], v)
 
+	// The cache ignores elements that are too big for it: an older one must not stay in their place.
+	sc.cache.Del([]byte(k))
 	sc.cache.Set([]byte(k), ve)
 }
 
-- 
2.43.0


From 4e51d866780d8c40cdbb919395452ee4eb7b8ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 79/83] fix: base-context validation refuses an empty list of
 types or contexts instead of panicking

---
 verifiable/credential.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 88aaf4f..05406fa 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1643,11 +1643,11 @@ func validateCredential(vcc *CredentialContents, vcJSON JSONObject, vcOpts *cred
 }
 
 func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) error {
-	if len(vcc.Types) > 1 || vcc.Types[0] != VCType {
+	if len(vcc.Types) != 1 || vcc.Types[0] != VCType {
 		return errors.New("violated type constraint: not base only type defined")
 	}
 
-	if len(vcc.Context) > 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
+	if len(vcc.Context) != 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
 		return errors.New("violated @context constraint: not base only @context defined")
 	}
 
-- 
2.43.0


From 3f02da14e4084179e4325708155ee7bdd022fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 80/83] fix: inline contexts and those that follow them are
 held against the allowed contexts

---
 verifiable/credential.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 05406fa..4c09665 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1647,7 +1647,7 @@ func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *cre
 		return errors.New("violated type constraint: not base only type defined")
 	}
 
-	if len(vcc.Context) != 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
+	if len(vcc.Context) != 1 || len(vcc.CustomContext) > 0 || !vcOpts.allowedContexts[vcc.Context[0]] {
 		return errors.New("violated @context constraint: not base only @context defined")
 	}
 
@@ -1662,6 +1662,14 @@ func validateBaseContextWithExtendedValidation(vcJSON JSONObject, vcc *Credentia
 		}
 	}
 
+	// Contexts that follow an inline context are in the custom ones, whatever they are.
+	for _, customContext := range vcc.CustomContext {
+		vcContext, isString := customContext.(string)
+		if _, ok := vcOpts.allowedContexts[vcContext]; !isString || !ok {
+			return fmt.Errorf("not allowed @context: %v", customContext)
+		}
+	}
+
 	for _, vcType := range vcc.Types {
 		if _, ok := vcOpts.allowedCustomTypes[vcType]; !ok {
 			return fmt.Errorf("not allowed type: %s", vcType)
-- 
2.43.0


From 80d77c16797adcac586d2dd8786c0e1166b17a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 81/83] fix: a V1 credential with an empty list of contexts is
 invalid

---
 verifiable/credential.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 4c09665..71c9265 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -64,6 +64,7 @@ const SchemaTemplateV1 = `{
         },
         {
           "type": "array",
+          "minItems": 1,
           "items": [
             {
               "type": "string",
-- 
2.43.0


From c5c60a949cfe04d786e8c6dda4695520477655be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:05 +0000
Subject: [PATCH 82/83] fix: reject ECDSA signatures in ASN.1 form with
 trailing data

---
 crypto-ext/verifiers/ecdsa/verifier.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto-ext/verifiers/ecdsa/verifier.go b/crypto-ext/verifiers/ecdsa/verifier.go
index 58523b7..65c78cc 100644
--- a/crypto-ext/verifiers/ecdsa/verifier.go
+++ b/crypto-ext/verifiers/ecdsa/verifier.go
@@ -7,6 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 package ecdsa
 
 import (
+	"bytes"
 	"crypto"
 	"crypto/ecdsa"
 	"crypto/elliptic"
@@ -113,6 +114,12 @@ func (sv *Verifier) Verify(signature, msg []byte, pubKey *pubkey.PublicKey) erro
 			return err
 		}
 
+		// Unmarshal ignores trailing data, both after and inside of the sequence.
+		der, err := asn1.Marshal(esig)
+		if err != nil || !bytes.Equal(der, signature) {
+			return errors.New("ecdsa: invalid signature encoding")
+		}
+
 		r = esig.R
 		s = esig.S
 	}
-- 
2.43.0


From b463b968c7a6c160451bbd9b0f290ad2d560faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:29 +0000
Subject: [PATCH 83/83] fix: data integrity proofs are checked with their own
 attributes, not the expected ones

---
 dataintegrity/verifier.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index a998417..0d6c91c 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -142,15 +142,19 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return ErrUnsupportedSuite
 	}
 
-	if opts.SuiteType == "" {
-		opts.SuiteType = proof.CryptoSuite
+	if opts.SuiteType != "" && opts.SuiteType != proof.CryptoSuite {
+		return ErrUnsupportedSuite
 	}
 
+	opts.SuiteType = proof.CryptoSuite
+
 	if verifierSuite.RequiresCreated() && proof.Created == "" {
 		return ErrMalformedProof
 	}
 
-	if opts.Created.IsZero() && proof.Created != "" {
+	opts.Created = time.Time{}
+
+	if proof.Created != "" {
 		var parsedCreatedTime time.Time
 
 		parsedCreatedTime, err = time.Parse(models.DateTimeFormat, proof.Created)
@@ -161,6 +165,8 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		opts.Created = parsedCreatedTime
 	}
 
+	opts.Expires = time.Time{}
+
 	if proof.Expires != "" {
 		var parsedExpiresTime time.Time
 
@@ -193,7 +199,8 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return ErrInvalidChallenge
 	}
 
-	// The signature covers the domain and challenge of the proof, also if none is expected.
+	// The signature covers the attributes of the proof, whatever is expected.
+	opts.VerificationMethodID = proof.VerificationMethod
 	opts.Domain = proof.Domain
 	opts.Challenge = proof.Challenge
 
-- 
2.43.0

