// Package pluglib contains the functions that are called both in-process and in a plugin
package pluglib

import (
	"errors"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// Values are the values that the functions return. The first NumData are data
var Values []dgo.Value

// NumData is the number of values that are data
var NumData int

// Failures are what the functions panic with
var Failures []interface{}

// Messages are what must be seen in the error from a lookup
var Messages []string

// Names are additional names of the functions
var Names = []string{`my::fn`, `dash-ed`, `dot.ted`, `UPPER`, `under_score`, `n0`, `éa`}

func init() {
	ss := []string{``, ` `, `text`, `"`, `'`, `\`, `/`, `<a href="x">&amp;</a>`, "line\nline\r\n\ttab", "\x00\x01\x1f\x7f", `é`, `日本語`, "\U0001F600", "\u2028\u2029", "\ufeff", "\ufffd", `null`, `true`, `1`, `1.0`,
		`{"a":1}`, `[1]`, `__type`, `%41`, `100%`, `a+b c&d=e;f#g?h`, `{}`, `404 value not found`, strings.Repeat(`x`, 5000), strings.Repeat("é\n\"", 3000)}
	var base []dgo.Value
	for _, s := range ss {
		base = append(base, vf.String(s))
	}
	base = append(base, vf.Nil, vf.True, vf.False)
	for _, i := range []int64{0, 1, -1, 255, 1 << 31, -1 << 31, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MinInt64} {
		base = append(base, vf.Integer(i))
	}
	for _, f := range []float64{0, 1, -1, 0.5, 1e100, 1e-100, math.MaxFloat64, math.SmallestNonzeroFloat64, 123456789.125, 1 << 60, 0.1, 1e20, 1e21, 1e22, -2.5e-7} {
		base = append(base, vf.Float(f))
	}
	Values = append(Values, base...)
	for _, v := range base {
		Values = append(Values, vf.Values(v), vf.Map(`k`, v))
	}
	for i, s := range ss {
		if s != `__type` {
			Values = append(Values, vf.Map(s, i, `other`, s))
		}
	}
	var deep dgo.Value = vf.String(`deep`)
	for i := 0; i < 30; i++ {
		deep = vf.Map(`m`, vf.Values(deep, i))
	}
	long := vf.MutableValues()
	for i := 0; i < 5000; i++ {
		long.Add(vf.Map(`index`, i, `text`, fmt.Sprint(`number `, i)))
	}
	same := vf.Map(`a`, vf.Values(`shared`, `text`))
	Values = append(Values, vf.Values(), vf.Map(), vf.Values(vf.Values(), vf.Map()), vf.Map(`a`, vf.Map(`b`, vf.Map(`c`, vf.Values(1, 2.0, `3`, nil, true)))), deep, long.FrozenCopy(),
		vf.Map(`z`, 1, `a`, 2, `m`, 3), vf.Values(same, same, `a`, same), vf.Map(`x`, `repeated string`, `y`, `repeated string`, `z`, vf.Values(`repeated string`)), vf.Values(1, `1`, 1.0, true, nil, `true`, `null`))
	NumData = len(Values)
	// what has a representation as data although it's something else
	Values = append(Values, vf.Sensitive(`s`), vf.Binary([]byte{0, 255, 1}, true), vf.Time(time.Unix(1, 0).UTC()), vf.Map(1, 2), vf.Values(vf.Sensitive(vf.Map(`a`, `b`))))

	for _, m := range []string{`plain message`, `with "quotes" & <html>`, "two\nlines", `é日本`, `404`, `value not found`, `100%s %d`} {
		Failures = append(Failures, errors.New(m), m)
		Messages = append(Messages, m, m)
	}
}

func fail(s string) {
	i, _ := strconv.Atoi(s)
	panic(Failures[i])
}

func options(pc sdk.ProviderContext) dgo.Value {
	m := pc.OptionsMap()
	if m == nil {
		return vf.String(`no map of options`)
	}
	return m
}

// Seen describes what a function sees
func Seen(pc sdk.ProviderContext, key interface{}) dgo.Map {
	m := vf.MutableMap()
	m.Put(`key`, key)
	m.Put(`options`, options(pc))
	so, sOk := pc.StringOption(`o`)
	bo, bOk := pc.BoolOption(`o`)
	io, iOk := pc.IntOption(`o`)
	fo, fOk := pc.FloatOption(`o`)
	m.Put(`o`, vf.Values(so, sOk, bo, bOk, io, iOk, fo, fOk, pc.Option(`o`)))
	m.Put(`missing`, pc.Option(`missing`) == nil)
	m.Put(`data`, pc.ToData(map[string]int{`x`: 1}))
	return m
}

func answer(pc sdk.ProviderContext, root string, key interface{}) dgo.Value {
	switch {
	case root == `lookup_options`, root == `nil`:
		return nil
	case root == `exe`, root == `m::exe_path`:
		return vf.String(os.Args[0])
	case root == `pid`:
		return vf.Integer(int64(os.Getpid()))
	case strings.HasPrefix(root, `value_`):
		i, _ := strconv.Atoi(root[6:])
		return Values[i]
	case strings.HasPrefix(root, `fail_`):
		fail(root[5:])
	}
	return Seen(pc, key)
}

// LookupKey is a lookup_key function
func LookupKey(pc sdk.ProviderContext, key string) dgo.Value {
	return answer(pc, key, key)
}

// DataDig is a data_dig function
func DataDig(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
	return answer(pc, key.Get(0).String(), key)
}

// MergedLookupKey is a lookup_key function that has what the option "merged" is
func MergedLookupKey(pc sdk.ProviderContext, key string) dgo.Value {
	if key == `merged` {
		return pc.Option(key)
	}
	return nil
}

// MergedDataDig is a data_dig function that has what the option "merged" is
func MergedDataDig(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
	return MergedLookupKey(pc, key.Get(0).String())
}

// MergedDataHash is a data_hash function that has what the option "merged" is
func MergedDataHash(pc sdk.ProviderContext) dgo.Map {
	return vf.Map(`merged`, pc.Option(`merged`))
}

// DataHash is a data_hash function
func DataHash(pc sdk.ProviderContext) dgo.Map {
	mode, _ := pc.StringOption(`mode`)
	if mode == `nil` {
		return nil
	}
	if strings.HasPrefix(mode, `fail_`) {
		fail(mode[5:])
	}
	m := vf.MutableMap()
	if mode == `values` {
		for i, v := range Values {
			m.Put(fmt.Sprintf(`value_%d`, i), v)
		}
	}
	m.Put(`seen`, Seen(pc, `no key`))
	m.Put(`exe`, os.Args[0])
	m.Put(`pid`, os.Getpid())
	return m
}
