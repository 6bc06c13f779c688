// Command mc runs one property check.
package main

import (
	_ "github.com/trustbloc/vc-go/zz_verifmc/props"
	"github.com/trustbloc/vc-go/zz_verifmc/run"
)

func main() { run.Main() }
