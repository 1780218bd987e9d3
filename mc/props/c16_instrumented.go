//go:build instrumented
// +build instrumented

package props

import (
	"net/http"

	"github.com/lyraproj/hiera/api"

	"verif/mc/restpkg"
)

func init() {
	c16Server = func(flags []string, s api.Session) http.Handler {
		if cmd := restpkg.VerifCommand(); cmd != nil {
			must(cmd.ParseFlags(flags))
		} else if len(flags) > 0 {
			panic(`no flags`)
		}
		return restpkg.CreateRouter(s)
	}
}
