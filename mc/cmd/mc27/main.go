// Command mc27 checks P27; its build is instrumented.
package main

import (
	"github.com/trustbloc/vc-go/zz_verifmc/run"
	"github.com/trustbloc/vc-go/zz_verifmc/sp27"
)

func main() {
	sp27.Child()
	run.Main()
}
