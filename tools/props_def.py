NA_REASONS = {}
MC = "bounded exhaustive enumeration of executions of the real code against a reference model"
TB = "Exhaustive within the stated bounds on the real code; trusts the Go toolchain, the reference model in /verif/mc, and values outside the alphabet are not covered."

prop("P01", "Submission requirements are solved exactly",
 "For every presentation definition built from input descriptors, groups and (nested) submission requirements with rules all/pick and count/min/max, creating a presentation from a set of credentials succeeds exactly when some choice of credentials satisfies the requirements, and the descriptors chosen satisfy them. When no choice exists the caller gets a no-credentials error; the search always terminates and never panics.",
 ["inputs", "configurations"], "all requirement trees up to a depth and width bound x every subset of satisfiable descriptors",
 "Tests run a dozen hand-written definitions; the solver iterates a product of per-requirement combinations with exclusion and skipping whose corner cases (overlapping groups, nested counts, several alternatives) are never enumerated.",
 ["presexch/definition.go", "presexch/internal/requirementlogic/requirementlogic.go", "presexch/internal/requirementlogic/combinatorics.go"],
 [("solution iterator over requirement logic", "presexch/internal/requirementlogic/requirementlogic.go"), ("applyRequirement/makeRequirement", "presexch/definition.go")],
 ["PresentationDefinition.CreateVP", "PresentationDefinition.CreateVPArray", "PresentationDefinition.MatchSubmissionRequirement"],
 technique="explicit enumeration of all requirement trees x satisfiable sets, oracle: brute-force satisfiability model", note=TB)

prop("P02", "Presentation submissions point at credentials that satisfy their descriptors",
 "Every entry of the presentation submission that is produced names an input descriptor of the definition and a path in the presentation that resolves to a credential which satisfies all constraints of that descriptor (schema, format, fields with their filters, issuer relation), and every credential that satisfies a required descriptor is offered to it. Optional fields, predicates and relational constraints only restrict as the definition says.",
 ["inputs", "configurations"], "all small definitions over an alphabet of schemas, constraints and filters x all small credential sets",
 "Tests use one definition per feature; combinations of constraint kinds, credential forms (JSON-LD, JWT, SD-JWT, CWT) and several credentials with equal or missing ids are not enumerated.",
 ["presexch/definition.go"], [("applyInputDescriptor, filterSchema, filterFormat, filterConstraints, merge", "presexch/definition.go")],
 ["PresentationDefinition.CreateVP", "the presentation_submission custom field"], technique=MC, note=TB)

prop("P03", "Verifier matching accepts exactly the submissions that satisfy the definition",
 "Matching presentations against a definition returns the mapped credentials exactly when each submitted mapping resolves to a credential that satisfies its descriptor, all submission requirements are met, and the definition ids agree; any presentation produced from the definition is accepted by it. A submission that maps a descriptor to a missing or non-matching credential, or leaves a required descriptor out, is rejected.",
 ["inputs", "histories"], "every single mutation of every valid submission, plus create-then-match round trips",
 "Tests mutate a handful of submissions; the space of (definition, presentation, mutated descriptor map) is not covered.",
 ["presexch/api.go"], [("PresentationDefinition.Match, getMatchedCreds, evalSubmissionRequirements", "presexch/api.go")],
 ["PresentationDefinition.Match"], technique=MC, note=TB)

prop("P04", "Limited disclosure reveals only what was asked and leaves inputs intact",
 "When a definition requires limited disclosure, the credential put in the presentation contains only the claims that the descriptor's fields select (plus the mandatory credential fields), and predicates reveal only a boolean. The credentials the caller passed in are not modified by creating presentations, so repeating the call gives the same result.",
 ["inputs", "histories"], "all subsets of requested fields x credential forms x repeated and multi-descriptor use of one credential",
 "Tests check one selected field in one call; leakage through nested paths, arrays, several descriptors sharing one credential, and repeated calls are not enumerated.",
 ["presexch/definition.go"], [("limitDisclosure/createNewCredential", "presexch/definition.go"), ("SetSDJWTDisclosures", "verifiable/credential.go")],
 ["PresentationDefinition.CreateVP", "credentials of the created presentation", "caller's credentials"], technique=MC, note=TB)

prop("P05", "SD-JWT round trip discloses exactly the chosen claims",
 "For every claim structure and issuer option, an issued SD-JWT never shows a selectively disclosable value in its signed payload, and presenting any subset of the disclosures and verifying it yields exactly the always-visible claims plus the chosen ones with their original values. No digest or disclosure artefact remains in the verified claims.",
 ["inputs", "configurations"], "all claim trees up to a size bound x issuer options (version 2/5, structured, recursive, always-include, non-disclosable, decoys, hash) x all subsets of disclosures",
 "Tests use a few example claim sets and disclose all or one claim; option combinations and subset choices are not enumerated.",
 ["sdjwt/issuer/issuer.go", "sdjwt/issuer/v2.go", "sdjwt/issuer/v5.go", "sdjwt/common/common.go", "sdjwt/holder/holder.go", "sdjwt/verifier/verifier.go"],
 [("issuer.New builders", "sdjwt/issuer"), ("GetDisclosedClaims", "sdjwt/common/common.go")],
 ["issuer.New", "holder.CreatePresentation", "verifier.Parse"], technique="exhaustive enumeration of claim trees, options and disclosure subsets; oracle: claim-tree model", note=TB)

prop("P06", "SD-JWT verification rejects disclosures the issuer did not sign",
 "Verification of a combined SD-JWT fails if any disclosure was altered, invented, duplicated, or does not correspond to a digest reachable from the signed payload, if a digest occurs twice, if a disclosure re-uses a claim name of its level or a reserved name, or if the hash algorithm is missing, unknown or weaker than allowed. Holders and the credential parser apply the same rule to the combined format they receive, except that they may drop an exact repetition of a disclosure.",
 ["inputs", "fault_sequences"], "every single (and pairwise) mutation from a fixed menu at every disclosure of every enumerated SD-JWT",
 "Tests try one bad digest and one malformed disclosure; the position, nesting and encoding of the bad element is never enumerated.",
 ["sdjwt/common/common.go", "sdjwt/verifier/verifier.go", "sdjwt/holder/holder.go"],
 [("VerifyDisclosuresInSDJWT", "sdjwt/common/common.go")], ["verifier.Parse", "holder.Parse", "verifiable.ParseCredential"], technique="exhaustive enumeration of disclosure faults on real SD-JWTs", note=TB)

prop("P07", "SD-JWT verifier enforces signature, time, type and holder-binding policy",
 "A combined SD-JWT is accepted exactly when the issuer signature verifies with an allowed algorithm, the issuer claims are valid in time, the expected type matches, and the holder binding, when present or required, is signed by the holder key confirmed in the issuer-signed payload with the expected nonce, audience and acceptable times. Unsecured (alg none) tokens are never accepted where a signature is demanded.",
 ["inputs", "configurations"], "the complete decision table over token features and verifier options",
 "Tests walk single deviations with default options; combinations of option and token features are not enumerated.",
 ["sdjwt/verifier/verifier.go", "sdjwt/common/common.go"], [("verifier.Parse, runHolderVerification", "sdjwt/verifier")], ["verifier.Parse"], technique="exhaustive decision-table enumeration against a reference policy", note=TB)

prop("P08", "SD-JWT credentials present and display exactly the selected disclosures",
 "A credential issued as SD-JWT, parsed, marshalled with any disclosure selection and parsed again keeps its issuer signature valid and carries exactly the selected disclosures; its display form contains exactly the always-visible and selected claims. Marshalling and display never change the credential they are called on, and a required name that is missing is an error.",
 ["inputs", "histories"], "all subject shapes in the alphabet x all name selections x repeated operations",
 "Tests cover a fixed credential and few names.",
 ["verifiable/credential_sdjwt.go", "verifiable/credential_parser.go"], [("MarshalWithDisclosure, MakeSDJWT, CreateDisplayCredential", "verifiable/credential_sdjwt.go")],
 ["Credential.MakeSDJWT", "ParseCredential", "Credential.MarshalWithDisclosure", "Credential.CreateDisplayCredential"], technique=MC, note=TB)

prop("P09", "A JWT proof is accepted only for the right key, algorithm and issuer",
 "A signed JWT is accepted exactly when its header names an algorithm and key, the key id resolves for the expected issuer, the key type fits the algorithm, and the signature verifies over exactly the transmitted header and payload. Any change of header, payload, key or issuer, a signature that is not one of that key over them, an unsecured token, or a missing issuer or key id is rejected.",
 ["inputs", "configurations"], "all (algorithm x signing key x resolver entry x issuer relation) tuples and every single-segment or single-field mutation",
 "Tests verify matching pairs and a few mismatches, not the cross product.",
 ["jwt/jwt.go", "jwt/jose_wrappers.go", "proof/checker/checker.go", "crypto-ext/verifiers"], [("ParseAndCheckProof, CheckProof", "jwt/jwt.go"), ("CheckJWTProof, convertToPublicKey", "proof/checker/checker.go")],
 ["jwt.ParseAndCheckProof", "jwt.CheckProof", "checker.ProofChecker"], technique="exhaustive decision-table and mutation enumeration against a reference policy", note=TB)

prop("P10", "A CWT proof is accepted only for the right key, algorithm and issuer",
 "A COSE_Sign1 credential or token is accepted exactly when algorithm and key are named in the protected header, the key resolves for the expected issuer, its type fits the algorithm and the signature covers the transmitted protected header and payload. Every change of protected header, payload, key or issuer, and every signature that is not one of that key over them, is rejected.",
 ["inputs", "configurations"], "all (algorithm x key x resolver entry x issuer) tuples and every single-field mutation of the message",
 "Tests verify matching pairs only.",
 ["cwt/cwt.go", "cwt/wrappers.go", "verifiable/cose.go", "verifiable/cwt/cwt.go", "proof/checker/checker.go"], [("CheckCWTProof", "proof/checker/checker.go"), ("GetProofValue", "verifiable/cwt/cwt.go")],
 ["cwt.ParseAndCheckProof", "ParseCredential of CBOR data"], technique="exhaustive decision-table and mutation enumeration against a reference policy", note=TB)

prop("P11", "Linked-data proofs bind the whole document and every proof is checked",
 "A document signed with any supported linked-data proof type and signature representation verifies unchanged, and after any change of a signed claim, of a signed proof attribute, of the signature or of the proof list, verification fails. A document with several proofs is accepted only if every one of them verifies, and one with none is rejected.",
 ["inputs", "configurations"], "all suites x representations x every single leaf change x all proof-list compositions up to three",
 "Tests sign one document per suite and tamper one field.",
 ["verifiable/lddocument/verifier.go", "verifiable/lddocument/signer.go", "verifiable/linked_data_proof.go", "verifiable/embedded_proof.go", "proof/ldproofs"],
 [("DocumentVerifier.Verify", "verifiable/lddocument/verifier.go"), ("checkEmbeddedProof", "verifiable/embedded_proof.go")],
 ["Credential.AddLinkedDataProof", "ParseCredential", "Credential.CheckProof", "ParsePresentation"], technique="exhaustive mutation enumeration on really signed documents", note=TB)

prop("P12", "Data Integrity proofs bind document and proof options and every proof is checked",
 "A document secured with a Data Integrity proof verifies exactly when every proof on it is well formed, was made over the unchanged document and proof options (type, cryptosuite, verification method, purpose, created, expires, domain, challenge) by the key its verification method resolves to, has the expected purpose, domain and challenge, and is not expired. The decision for one proof or one call does not depend on other proofs or earlier calls.",
 ["inputs", "histories", "configurations"], "all suites x every single field mutation x all proof lists up to three x all pairs of calls sharing options",
 "Tests check one proof with fresh options.",
 ["dataintegrity/verifier.go", "dataintegrity/signer.go", "dataintegrity/suite/ecdsa2019", "dataintegrity/suite/eddsa2022", "verifiable/data_integrity_proof.go"],
 [("Verifier.VerifyProof", "dataintegrity/verifier.go"), ("Signer.AddProof", "dataintegrity/signer.go")],
 ["dataintegrity.Signer.AddProof", "dataintegrity.Verifier.VerifyProof", "ParseCredential"], technique="exhaustive mutation and history enumeration on really signed documents", note=TB)

prop("P13", "Verification methods are resolved only from the expected controller",
 "The key used to check a proof is taken from the DID document of the expected controller, has exactly the requested id, and is not one that appears in the document only under key agreement; otherwise resolution fails.",
 ["inputs", "fault_sequences"], "all small DID documents (which keys, in which relationships, under which ids) x requested ids x registry faults",
 "Tests use one document with one key.",
 ["vermethod/vdrkeyresolver.go"], [("ResolveVerificationMethod", "vermethod/vdrkeyresolver.go")], ["VDRResolver.ResolveVerificationMethod"], technique="exhaustive enumeration of small DID documents against a reference resolver", note=TB)

prop("P14", "Credentials survive parsing, serialisation and conversion unchanged",
 "Parsing a credential and serialising it again, in any of its forms (JSON-LD, JWT, unsecured JWT, CWT, enveloped), and converting between forms preserves every claim, so that parsing the result yields equal contents and an equal JSON representation. A credential created from typed contents, serialised and parsed again has the same contents.",
 ["inputs", "histories"], "all combinations of present/absent/one/many for each credential field in both data-model versions x all forms",
 "Tests round-trip a few sample credentials.",
 ["verifiable/credential.go", "verifiable/credential_jwt.go", "verifiable/credential_cwt.go", "verifiable/common.go", "util/json/json.go"],
 [("parseCredentialContents, serializeCredentialContents", "verifiable/credential.go"), ("newJWTCredClaims, refineFromJWTClaims", "verifiable/credential_jwt.go")],
 ["ParseCredential", "Credential.MarshalJSON", "Credential.Contents", "CreateCredential", "Credential.CreateSignedJWTVC", "Credential.CreateSignedCOSEVC"], technique=MC, note=TB)

prop("P15", "Deriving a credential never changes the credential it is derived from",
 "Creating a modified copy, signing, enveloping, converting, presenting or displaying a credential leaves the original credential's contents and serialised form as they were, and the modified copy carries exactly the requested change and no proof of the original.",
 ["histories"], "all sequences of derivation operations up to a depth bound",
 "Tests call each operation once and inspect the result, not the source.",
 ["verifiable/credential.go", "verifiable/presentation.go"], [("WithModified*, copyCredentialJSONWithoutProofs", "verifiable/credential.go")],
 ["Credential.WithModified*", "Credential.CreateSignedJWTVC", "Credential.ToRawJSON", "Presentation.Clone"], technique="exhaustive enumeration of operation sequences with a snapshot oracle", note=TB)

prop("P16", "Parsing with proof checking never returns an unproven credential",
 "With proof checking enabled, parsing returns a credential only if a proof by its stated issuer covers exactly the returned claims; unsigned, unsecured, wrongly signed or tampered credentials are rejected in every form and wrapping. A proof by another party than the issuer is rejected, and so is a token whose iss claim and named issuer are different DIDs.",
 ["inputs", "configurations"], "all forms and wrappings x all proof states x issuer relations",
 "Tests cover each form with a few broken inputs; the combination of wrapping, form and proof state is not enumerated.",
 ["verifiable/credential.go", "verifiable/credential_parser.go", "verifiable/embedded_proof.go"], [("ParseCredential, checkProof", "verifiable/credential.go")],
 ["ParseCredential", "Credential.CheckProof"], technique="exhaustive enumeration of (form x wrapping x proof fault) against a reference policy", note=TB)

prop("P17", "Parsing a presentation with proof checking never returns an unproven one",
 "With proof checking enabled, parsing a presentation succeeds only if every proof of the presentation verifies over exactly the returned contents with the registered key it names (for a JWT or CWT presentation a key of its issuer, the holder) and every token-form or enveloped credential inside verifies for its issuer; unsigned, tampered or wrongly signed presentations are rejected in every form and wrapping. Requested holder checks and expected Data Integrity options are enforced.",
 ["inputs", "configurations"], "all forms x all proof states of presentation and inner credentials",
 "Tests cover single forms with single faults.",
 ["verifiable/presentation.go", "verifiable/presentation_parser.go", "verifiable/presentation_jwt.go"], [("ParsePresentation, decodeCredentials", "verifiable/presentation.go")],
 ["ParsePresentation"], technique="exhaustive enumeration of (form x proof fault) against a reference policy", note=TB)

prop("P18", "Presentations survive serialisation and conversion unchanged",
 "A presentation that is created or parsed, serialised or converted to JWT or CWT form and parsed again has the same contexts, id, types, holder, credentials and custom fields, in the same order.",
 ["inputs", "histories"], "all combinations of presentation fields and credential forms",
 "Tests round-trip sample presentations.",
 ["verifiable/presentation.go", "verifiable/presentation_jwt.go", "verifiable/presentation_cwt.go"], [("raw, newPresentation, newJWTPresClaims", "verifiable/presentation.go")],
 ["Presentation.MarshalJSON", "Presentation.CreateJWTVP", "Presentation.CreateCWTVP", "ParsePresentation"], technique=MC, note=TB)

prop("P19", "Malformed input is rejected with an error, never a crash",
 "Whatever bytes or JSON a remote party supplies as credential, presentation, SD-JWT, presentation definition, submission, status list or DID configuration, the library returns a value or an error; it never panics, crashes the process or fails to terminate.",
 ["inputs"], "every deletion, retyping and replacement of every node of a set of valid documents in every form, pairwise within the bound",
 "Tests feed selected malformed inputs; untrusted-input positions times wrong types are thousands.",
 ["verifiable", "presexch", "sdjwt", "jwt", "status", "didconfig", "dataintegrity", "cwt"], [("type assertions and nil checks on decoded input", "all parsers")],
 ["ParseCredential", "ParsePresentation", "verifier.Parse", "holder.Parse", "PresentationDefinition.Match", "status.Client.VerifyStatus", "didconfig VerifyDIDAndDomain"], technique="exhaustive structural mutation of valid inputs, oracle: no panic or hang", note=TB)

prop("P20", "Data-model validation accepts exactly conforming credentials",
 "With validation enabled, a credential is accepted exactly when the mandatory fields of its data-model version are present and well typed, optional fields are well formed, the base context comes first and, in the chosen validation mode, only allowed contexts, types and defined terms are used.",
 ["inputs", "configurations"], "all single and pairwise field deletions and retypings x validation modes x data-model versions",
 "Tests delete or retype one field at a time in one mode.",
 ["verifiable/credential.go", "verifiable/jsonld.go"], [("validateCredential, JSON schema", "verifiable/credential.go")], ["ParseCredential", "Credential.ValidateCredential"], technique="exhaustive enumeration of field states x modes against a reference validator", note=TB)

prop("P21", "Related resources are accepted only if their digests match",
 "A credential listing related resources is accepted exactly when every listed resource can be fetched and its content matches the listed digest; this does not depend on which resources were fetched before or in which order fetches finish.",
 ["inputs", "fault_sequences", "schedules"], "all digest forms x fetch outcomes x histories of validations sharing a cache",
 "Tests check single resources with a fresh validator.",
 ["verifiable/related_resource.go"], [("RelatedResourceValidator.Validate, Fetch", "verifiable/related_resource.go")], ["RelatedResourceValidator.Validate", "ParseCredential"], technique="exhaustive fault-sequence and history enumeration", note=TB)

prop("P22", "Custom credential schemas are enforced and cached schemas stay faithful",
 "A credential naming a JSON schema of a supported type is accepted exactly when it satisfies that schema, and a schema that cannot be loaded is an error. With a schema cache the decision is the same as without it, and an expired entry is never served.",
 ["histories", "fault_sequences"], "all histories of (validate, server content change, server fault, expiry) up to a depth bound",
 "Tests perform one hit and one miss.",
 ["verifiable/credential.go"], [("getJSONSchema, ExpirableSchemaCache", "verifiable/credential.go")], ["ParseCredential with WithCredentialSchemaLoader", "ExpirableSchemaCache.Get"], technique="exhaustive history enumeration against a cache model", note=TB)

prop("P23", "Credential status is decided by exactly the bit it names",
 "Status verification of a credential reports it as revoked exactly when the bit (or multi-bit entry) at its status index is set in the decoded list, for every index of the list, in every supported status type and encoding; an index outside the list is an error.",
 ["inputs"], "every index of every list pattern up to a length bound x status types and encodings",
 "Tests check a couple of indices.",
 ["status/status.go", "status/internal/bitstring/bitstring.go", "status/validator"], [("Client.VerifyStatus", "status/status.go"), ("Bitstring.Get, Decode", "status/internal/bitstring/bitstring.go")],
 ["status.Client.VerifyStatus"], technique="exhaustive enumeration of lists and indices against a boolean-array model", note=TB)

prop("P24", "Status verification fails closed",
 "A credential is reported as not revoked only if every one of its status entries was validated, its list was resolved, the list was issued by the same issuer, and the entry's bit was read as unset; any resolver fault, malformed or mismatching entry or list is an error.",
 ["inputs", "fault_sequences"], "all single and pairwise deviations of entry, list credential and resolver answer, with up to three entries in any order",
 "Tests cover one entry and single deviations.",
 ["status/status.go", "status/validator", "status/resolver/resolver.go"], [("VerifyStatus loop, validators", "status/status.go")],
 ["status.Client.VerifyStatus"], technique="exhaustive fault enumeration against a reference decision", note=TB)

prop("P25", "Domain linkage is confirmed only by a valid linkage credential",
 "Verifying that a DID is linked to a domain succeeds exactly when the domain's DID configuration contains a domain-linkage credential with valid proof, whose issuer and subject are that DID and whose origin is that domain, which is of the required type, has no id and states its issuance and expiration dates (the dates themselves are not enforced); other well-formed entries neither help nor prevent it, and a response that is not such a configuration is an error.",
 ["inputs", "fault_sequences"], "all lists of up to three entries over an alphabet of valid and deviating linkage credentials, JSON-LD and JWT",
 "Tests cover single entries with single deviations.",
 ["didconfig/verifier/didconfig.go", "didconfig/client/didconfig.go"], [("VerifyDIDAndDomain, getCredentials", "didconfig/verifier/didconfig.go")], ["VerifyDIDAndDomain", "Client.VerifyDIDAndDomain"], technique="exhaustive enumeration of configuration lists against a reference decision", note=TB)

prop("P26", "The in-memory store behaves like a map with tags",
 "After any history of store and provider operations, every read, bulk read, tag query, iterator, configuration and open-store listing of the in-memory storage reflects exactly the accepted writes; a rejected operation changes nothing.",
 ["histories"], "all operation sequences up to a depth bound on up to three keys, two tags and three store handles",
 "Tests run fixed scenarios.",
 ["legacy/mem/mem.go"], [("memStore, Provider", "legacy/mem/mem.go")], ["Provider", "Store", "Iterator"], state=[("dbs", "open stores by lower-case name", "legacy/mem/mem.go"), ("db", "entries by key", "legacy/mem/mem.go")],
 technique="explicit-state enumeration of operation sequences against a map model", note=TB)

prop("P27", "The in-memory store is linearizable and free of data races",
 "Concurrent operations on one provider and its stores behave as if each took effect at one instant between its call and return, and no operation races with another or deadlocks.",
 ["schedules"], "all interleavings (up to a preemption bound, at statement granularity) of two to three threads with one or two operations each",
 "Tests run no concurrent operations, and a test would see only the schedules it happens to get.",
 ["legacy/mem/mem.go"], [("Provider.lock, memStore RWMutex", "legacy/mem/mem.go")], ["Provider", "Store"], technique="stateless model checking of the real code under a controlled scheduler with preemption bounding, linearizability oracle and happens-before race detection", note=TB)

prop("P28", "Issuing and verifying from several goroutines is safe",
 "Independent calls that issue, present, parse and verify credentials, SD-JWTs and proofs from several goroutines, sharing verifiers, checkers and validators, give the same results as when they run one after the other and do not race.",
 ["schedules"], "all interleavings up to a preemption bound of pairs of operations sharing library objects",
 "Tests run sequentially.",
 ["sdjwt/issuer", "proof/checker/checker.go", "dataintegrity/verifier.go", "verifiable/related_resource.go"], [("package-level and shared state", "sdjwt/issuer/issuer.go")],
 ["issuer.New", "verifier.Parse", "Verifier.VerifyProof", "RelatedResourceValidator.Validate"], technique="stateless model checking of the real code under a controlled scheduler with happens-before race detection", note=TB)

prop("P29", "Custom JSON fields are merged and split without loss",
 "Marshalling a structure together with custom fields and unmarshalling it again returns the same structure and exactly the custom fields that do not collide with it; helper copies, splits and selections of JSON objects keep all other fields and never modify their inputs.",
 ["inputs"], "all small structures and custom-field maps over a colliding alphabet of names and values",
 "Tests use a few examples.",
 ["util/json/json.go", "util/maphelpers"], [("MarshalWithCustomFields, UnmarshalWithCustomFields", "util/json/json.go")], ["util/json functions", "jwt.Claims and credential claims marshalling"], technique="exhaustive enumeration of small objects against a map model", note=TB)

prop("P30", "BBS+ selective disclosure derives credentials that reveal only the frame",
 "Deriving a credential from a BBS+ signed one with a reveal frame yields a credential that verifies with the original issuer key and the given nonce, contains exactly the claims selected by the frame and no other, and fails to verify after any change or with another key.",
 ["inputs"], "all frames over the subject fields of a sample credential x single mutations",
 "Tests use one frame.",
 ["verifiable/bbs_selective_disclosure.go", "verifiable/credential_bbs.go"], [("GenerateBBSSelectiveDisclosure", "verifiable/credential_bbs.go")],
 ["Credential.GenerateBBSSelectiveDisclosure", "ParseCredential"], technique="exhaustive enumeration of reveal frames on a real BBS+ signature", note=TB)
