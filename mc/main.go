// Command mc is the bounded-exhaustive model checker for github.com/lyraproj/hiera.
//
//	mc check <ID>            explore the property <ID> (VERIF_TIER, VERIF_SEED), write evidence/<ID>.json
//	mc worker <ID> ...       internal: explore one shard
//	mc replay <file>         re-run one recorded violation
package main

import (
	"verif/mc/props"
	"verif/mc/runner"
)

func main() {
	runner.Main(props.All())
}
