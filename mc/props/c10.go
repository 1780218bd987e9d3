package props

import (
	"fmt"
	"reflect"
	"strconv"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"

	"verif/mc/model"
	"verif/mc/runner"
)

// C10: overrides, names, defaults, and types

var c10Names = []string{`num`, `str`, `list.0`, `missing`, `list.9`, `null`, `fails`, `bad..key`, `opt`}

var c10Data = model.NewM(`num`, `17`, `str`, `s`, `list`, model.List{4, `y`}, `null`, nil, `fails`, `%{bogus('x')}`, `opt`, model.List{`b`, `b`}, `lookup_options`, model.NewM(`opt`, model.NewM(`merge`, `unique`)))

// c10Over are the maps with overrides and with defaults
var c10Over = []*model.M{
	nil,
	{},
	model.NewM(`missing`, `3`, `list`, 12),
	model.NewM(`list.9`, `l9`, `list.0`, false),
	model.NewM(`fails`, 5, `num`, `over`),
	model.NewM(`null`, `n`, `str`, nil, `bad..key`, model.List{`q`}),
}

var c10Default = []struct {
	has bool
	v   model.Val
}{{false, nil}, {true, `dflt`}, {true, `42`}, {true, nil}, {true, model.List{1}}}

var c10Func = []struct {
	has bool
	v   model.Val
}{{false, nil}, {true, `fn`}, {true, 3}, {true, nil}}

type c10Type struct {
	name string
	t    dgo.Type
	// conv returns the value that the type gives, an error, or that it isn't judged
	conv func(v model.Val) (r model.Val, isErr, judged bool)
	is   func(v model.Val) bool
}

var c10Types = []c10Type{
	{`nil`, nil, nil, func(v model.Val) bool { return true }},
	{`any`, typ.Any, nil, func(v model.Val) bool { return true }},
	{`string`, typ.String, func(v model.Val) (model.Val, bool, bool) {
		switch v := v.(type) {
		case int:
			return strconv.Itoa(v), false, true
		case bool:
			return fmt.Sprint(v), false, true
		}
		return nil, false, false
	}, func(v model.Val) bool { _, ok := v.(string); return ok }},
	{`int`, typ.Integer, toInt, func(v model.Val) bool { _, ok := v.(int); return ok }},
	{`0..20`, tf.Integer(0, 20, true), func(v model.Val) (model.Val, bool, bool) {
		r, e, j := toInt(v)
		if n, ok := r.(int); j && !e && ok && (n < 0 || n > 20) {
			return nil, true, true
		}
		return r, e, j
	}, func(v model.Val) bool { n, ok := v.(int); return ok && n >= 0 && n <= 20 }},
	{`bool`, typ.Boolean, func(v model.Val) (model.Val, bool, bool) {
		if s, ok := v.(string); ok && s == `s` {
			return nil, true, true
		}
		return nil, false, false
	}, func(v model.Val) bool { _, ok := v.(bool); return ok }},
	{`[]string`, tf.Array(typ.String), func(v model.Val) (model.Val, bool, bool) { return nil, false, false }, func(v model.Val) bool {
		l, ok := v.(model.List)
		for _, e := range l {
			if _, s := e.(string); !s {
				return false
			}
		}
		return ok
	}},
	{`enum`, tf.Enum(`s`, `fn`, `x`), func(v model.Val) (model.Val, bool, bool) {
		if _, ok := v.(string); ok {
			return nil, true, true
		}
		return nil, false, false
	}, func(v model.Val) bool { return v == `s` || v == `fn` || v == `x` }},
}

func toInt(v model.Val) (model.Val, bool, bool) {
	switch v := v.(type) {
	case string:
		n, err := strconv.Atoi(v)
		return n, err != nil, true
	case bool:
		if v {
			return 1, false, true
		}
		return 0, false, true
	}
	return nil, false, false
}

type c10Case struct {
	Names []string
	All   bool
	Merge string `json:",omitempty"`
	Size  int    `json:",omitempty"` // number of names
}

func c10Enum(tier string, yield func(interface{}) bool) {
	for _, n := range sizes(pick(tier, 260, 2100)) {
		if !yield(c10Case{Size: n}) {
			return
		}
	}
	for _, all := range []bool{false, true} {
		for _, m := range []string{``, `deep`} {
			if !sequences(len(c10Names), 0, pick(tier, 3, 4), func(ix []int) bool {
				if m != `` && len(ix) > 2 {
					return true
				}
				c := c10Case{All: all, Merge: m}
				for _, i := range ix {
					c.Names = append(c.Names, c10Names[i])
				}
				return yield(c)
			}) {
				return
			}
		}
	}
}

var c10Session struct {
	b *build
}

func c10World() *build {
	b := newBuild()
	b.data(`data/common.yaml`, c10Data)
	b.config(`hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `c`, Loc: &model.Loc{Kind: `path`, S: []string{`common.yaml`}}}}})
	return b
}

func toDgoMap(m *model.M) dgo.Map {
	if m == nil {
		return nil
	}
	return model.ToDgo(m).(dgo.Map)
}

// typed is what the given type makes of an outcome. The bool is false if only the type can be judged
func (t *c10Type) typed(o outcome) (outcome, bool) {
	if o.err != `` || !o.OK || t.is(o.V) {
		return o, true
	}
	r, isErr, judged := t.conv(o.V)
	if isErr {
		return outcome{err: `conversion`}, judged
	}
	return outcome{Found: model.Found{V: r, OK: true}}, judged
}

// c10Size looks up many names
func c10Size(w *runner.W, n int) {
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, fmt.Sprintf(`name%d`, i))
	}
	at := []int{-1, 0, n / 2, n - 1}
	for _, d := range at {
		b := newBuild()
		data := model.NewM(`other`, 1)
		if d >= 0 {
			data = data.With(names[d], `data`)
		}
		b.data(`data/common.yaml`, data)
		b.config(`hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `c`, Loc: &model.Loc{Kind: `path`, S: []string{`common.yaml`}}}}})
		b.session(func(s api.Session) {
			iv := s.Invocation(nil, nil)
			for _, o := range at {
				for _, f := range at {
					over, dflts := &model.M{}, &model.M{}
					if o >= 0 {
						over = over.With(names[o], `over`)
					}
					if f >= 0 {
						dflts = dflts.With(names[f], `dflt`)
					}
					want := outcome{Found: model.Found{V: `last`, OK: true}}
					switch {
					case o >= 0:
						want.V = `over`
					case d >= 0:
						want.V = `data`
					case f >= 0:
						want.V = `dflt`
					}
					got := catch(func() dgo.Value {
						return hiera.Lookup2(iv, names, typ.String, nil, toDgoMap(over), toDgoMap(dflts), nil, func() dgo.Value { return vf.String(`last`) })
					})
					w.Eval(2)
					w.Outcome(n, o, d, f)
					if got.class() != want.class() {
						w.Fail("Lookup2 of %d names where override %d, data %d, and default %d exist\n got: %s\nwant: %s", n, o, d, f, got, want)
					}
					wm := &model.M{}
					for i, k := range names {
						switch i {
						case o:
							wm = wm.With(k, `over`)
						case d:
							wm = wm.With(k, `data`)
						case f:
							wm = wm.With(k, `dflt`)
						}
					}
					want = outcome{Found: model.Found{V: wm, OK: true}}
					got = catch(func() dgo.Value {
						return hiera.LookupAll(iv, names, nil, toDgoMap(over), toDgoMap(dflts), nil)
					})
					if got.class() != want.class() {
						w.Fail("LookupAll of %d names where override %d, data %d, and default %d exist\n got: %s\nwant: %s", n, o, d, f, got, want)
					}
				}
			}
		})
	}
}

func c10Check(w *runner.W, ci interface{}) {
	c := ci.(c10Case)
	if c.Size > 0 {
		c10Size(w, c.Size)
		return
	}
	b := c10World()
	var merge model.Val
	if c.Merge != `` {
		merge = c.Merge
	}
	found := map[string]outcome{}
	for _, n := range c.Names {
		found[n] = query{n, merge}.model(b.world)
	}
	b.session(func(s api.Session) {
		iv := s.Invocation(nil, nil)
		if c.All {
			c10All(w, iv, &c, merge, found)
			return
		}
		for oi, over := range c10Over {
			for di, dflts := range c10Over {
				for vi, dv := range c10Default {
					for fi, df := range c10Func {
						calls := 0
						var want outcome
						useFunc := false
						want = func() outcome {
							for _, n := range c.Names {
								if over == nil {
									break
								}
								if v, ok := over.Get(n); ok {
									return outcome{Found: model.Found{V: v, OK: true}}
								}
							}
							for _, n := range c.Names {
								if o := found[n]; o.OK || o.err != `` {
									return o
								}
							}
							for _, n := range c.Names {
								if dflts == nil {
									break
								}
								if v, ok := dflts.Get(n); ok {
									return outcome{Found: model.Found{V: v, OK: true}}
								}
							}
							if dv.has {
								return outcome{Found: model.Found{V: dv.v, OK: true}}
							}
							if df.has {
								useFunc = true
								return outcome{Found: model.Found{V: df.v, OK: true}}
							}
							return outcome{}
						}()
						for ti := range c10Types {
							t := &c10Types[ti]
							calls = 0
							var dval dgo.Value
							if dv.has {
								dval = model.ToDgo(dv.v)
							}
							var dfn dgo.Producer
							if df.has {
								dfn = func() dgo.Value { calls++; return model.ToDgo(df.v) }
							}
							mo, md := toDgoMap(over), toDgoMap(dflts)
							got := catch(func() dgo.Value {
								return hiera.Lookup2(iv, c.Names, t.t, dval, mo, md, mergeOpt(merge), dfn)
							})
							w.Eval(1)
							where := func() string {
								return fmt.Sprintf("Lookup2 names=%v type=%s default=%v overrides=%s defaults=%s function=%v merge=%v", c.Names, t.name, dv, canonM(over), canonM(dflts), df, merge)
							}
							tw, judged := t.typed(want)
							switch {
							case judged && got.class() != tw.class():
								w.Fail("got: %s\nwant: %s\n%s", got, tw, where())
							case !judged && got.err == `` && !t.is(got.V):
								w.Fail("got: %s which isn't an instance of the type\n%s", got, where())
							}
							wantCalls := 0
							if useFunc {
								wantCalls = 1
							}
							if calls != wantCalls {
								w.Fail("default function was called %d times, expected %d\n%s", calls, wantCalls, where())
							}
							if !judged {
								w.Count(`only_type_judged`, 1)
							}
							if canonM(over) != canonDgoMap(mo) || canonM(dflts) != canonDgoMap(md) {
								w.Fail("the maps given to Lookup2 were altered\n%s", where())
							}
							w.Outcome(c.Names, oi, di, vi, fi, ti, tw)
						}
					}
				}
			}
		}
		if len(c.Names) == 1 {
			c10Simple(w, iv, &c, merge, found[c.Names[0]])
		}
	})
}

func canonM(m *model.M) string {
	if m == nil {
		return `none`
	}
	return model.Canon(m)
}

func canonDgoMap(m dgo.Map) string {
	if m == nil {
		return `none`
	}
	return canonDgo(m)
}

// c10Simple checks the function Lookup and all forms of options
func c10Simple(w *runner.W, iv api.Invocation, c *c10Case, merge model.Val, found outcome) {
	forms := []interface{}{mergeOpt(merge)}
	if c.Merge == `` {
		forms = append(forms, nil, map[string]string{}, vf.Map())
	} else {
		forms = append(forms, map[string]string{`merge`: c.Merge}, map[string]interface{}{`merge`: c.Merge}, map[string]interface{}{`merge`: map[string]interface{}{`strategy`: c.Merge}}, vf.Map(`merge`, vf.Map(`strategy`, c.Merge)))
	}
	for i, f := range forms {
		if m, ok := f.(dgo.Map); ok && m == nil {
			f = nil
		}
		for _, dv := range c10Default {
			var dval dgo.Value
			want := found
			if dv.has {
				dval = model.ToDgo(dv.v)
				if want.err == `` && !want.OK {
					want = outcome{Found: model.Found{V: dv.v, OK: true}}
				}
			}
			got := catch(func() dgo.Value { return hiera.Lookup(iv, c.Names[0], dval, f) })
			w.Eval(1)
			if got.class() != want.class() {
				w.Fail("Lookup %s default=%v options form %d: %v\n got: %s\nwant: %s", c.Names[0], dv, i, f, got, want)
			}
		}
	}
	for _, f := range []interface{}{`deep`, 3, []string{`merge`}} {
		got := catch(func() dgo.Value { return hiera.Lookup(iv, c.Names[0], nil, f) })
		if got.err == `` {
			w.Fail("Lookup %s with options %#v\n got: %s\nwant: error", c.Names[0], f, got)
		}
	}
}

// c10All checks LookupAll
func c10All(w *runner.W, iv api.Invocation, c *c10Case, merge model.Val, found map[string]outcome) {
	for oi, over := range c10Over {
		for di, dflts := range c10Over {
			for tj := -1; tj <= len(c10Types); tj++ {
				// -1: no type. The last one: a type that lacks the last name
				ti := tj
				var st dgo.StructMapType
				lacks := ``
				if ti >= 0 {
					if ti == len(c10Types) {
						ti = 1
						if len(c.Names) == 0 {
							continue
						}
						lacks = c.Names[len(c.Names)-1]
					}
					if c10Types[ti].t == nil {
						continue
					}
					var es []dgo.StructMapEntry
					seen := map[string]bool{}
					for _, n := range c.Names {
						if n != lacks && !seen[n] {
							seen[n] = true
							es = append(es, tf.StructMapEntry(n, c10Types[ti].t, true))
						}
					}
					st = tf.StructMap(false, es...)
				}
				want := outcome{Found: model.Found{OK: true}}
				wm := &model.M{}
				allJudged := true
				loose := map[string]bool{}
				for _, n := range c.Names {
					o := found[n]
					if over != nil {
						if v, ok := over.Get(n); ok {
							o = outcome{Found: model.Found{V: v, OK: true}}
						}
					}
					if !o.OK && o.err == `` && dflts != nil {
						if v, ok := dflts.Get(n); ok {
							o = outcome{Found: model.Found{V: v, OK: true}}
						}
					}
					if o.OK && n == lacks {
						o = outcome{err: `no type for ` + n}
					}
					judged := true
					if tj >= 0 {
						o, judged = c10Types[ti].typed(o)
					}
					if o.err != `` {
						want.err = o.err
						break
					}
					if !judged {
						allJudged = false
						loose[n] = true
					}
					if o.OK {
						wm = wm.With(n, o.V)
					}
				}
				want.V = wm
				mo, md := toDgoMap(over), toDgoMap(dflts)
				got := catch(func() dgo.Value { return hiera.LookupAll(iv, c.Names, st, mo, md, mergeOpt(merge)) })
				w.Eval(1)
				where := func() string {
					return fmt.Sprintf("LookupAll names=%v type=%v overrides=%s defaults=%s merge=%v", c.Names, st, canonM(over), canonM(dflts), merge)
				}
				w.Outcome(c.Names, oi, di, tj, want)
				if canonM(over) != canonDgoMap(mo) || canonM(dflts) != canonDgoMap(md) {
					w.Fail("the maps given to LookupAll were altered\n%s", where())
				}
				if allJudged {
					if got.class() != want.class() {
						w.Fail("got: %s\nwant: %s\n%s", got, want, where())
					}
					continue
				}
				w.Count(`only_type_judged`, 1)
				if got.err != `` {
					continue
				}
				gm, ok := got.V.(*model.M)
				if !ok || want.err != `` || len(gm.E) != len(wm.E) {
					w.Fail("got: %s\nwant: something like %s\n%s", got, want, where())
					continue
				}
				for _, e := range wm.E {
					v, ok := gm.Get(e.K)
					n := e.K.(string)
					if !ok || !loose[n] && !reflect.DeepEqual(v, e.V) || loose[n] && !c10Types[ti].is(v) {
						w.Fail("got: %s\nwant: something like %s\n%s", got, want, where())
					}
				}
			}
		}
	}
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C10`,
		Level: `exploration`,
		Rule: fmt.Sprintf(`every sequence of at most 3 (thorough: 4) names out of %d (found, not found, null, failing, malformed, found by digging, with options), x %d maps of overrides x %d maps of defaults x %d default values x %d default functions x %d types, for Lookup2; the same names, overrides, defaults and types for LookupAll; all forms of options for Lookup; up to 257 (thorough: 2049) names. `, len(c10Names), len(c10Over), len(c10Over), len(c10Default), len(c10Func), len(c10Types)) +
			`Compared with the order that is documented, what was found for each name, and how often the default function was called. Non-trivial and distinct: by arguments and result`,
		Enumerate: c10Enum,
		Check:     c10Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`names`: pick(tier, 3, 4)}
		},
		Assumptions: []string{`conversions other than those between strings, integers and booleans are only required to give an instance of the type or an error`},
	}
})
