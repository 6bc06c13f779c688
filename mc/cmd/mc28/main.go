// Command mc28 checks P28; its build is instrumented.
package main

import (
	"github.com/trustbloc/vc-go/zz_verifmc/props"
	"github.com/trustbloc/vc-go/zz_verifmc/run"
)

func main() {
	props.P28Child()
	run.Main()
}
