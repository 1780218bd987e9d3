// Command testplugin is a plugin with the functions that are called both in-process and in a plugin
package main

import (
	"github.com/lyraproj/hierasdk/plugin"
	"github.com/lyraproj/hierasdk/register"

	"verif/mc/pluglib"
)

func main() {
	register.DataDig(`f_dd`, pluglib.DataDig)
	register.DataHash(`f_dh`, pluglib.DataHash)
	register.LookupKey(`f_lk`, pluglib.LookupKey)
	register.DataDig(`m_dd`, pluglib.MergedDataDig)
	register.DataHash(`m_dh`, pluglib.MergedDataHash)
	register.LookupKey(`m_lk`, pluglib.MergedLookupKey)
	for _, n := range pluglib.Names {
		register.DataDig(n+`_dd`, pluglib.DataDig)
		register.DataHash(n+`_dh`, pluglib.DataHash)
		register.LookupKey(n+`_lk`, pluglib.LookupKey)
	}
	plugin.ServeAndExit()
}
