package props

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"

	"verif/mc/model"
	"verif/mc/runner"
)

// C04: the syntax of keys, and how they dig into values

type c04Case struct {
	Prefix string   `json:",omitempty"` // all strings that start with this
	Key    string   `json:",omitempty"` // a key to look up
	Keys   []string `json:",omitempty"`
	Val    int
	Size   int `json:",omitempty"` // when > 0, the size of a value and of the keys that dig into it
}

const c04Alphabet = "a1.'\"- "

var c04Vals = []model.Val{
	model.NewM(`a`, model.NewM(`b`, model.List{`x`, model.List{`y`, nil}, model.NewM(`1`, `one`, 1, `int one`, `c.d`, `dotted`)}), `1`, `s1`, 1, `i1`, `a.b`, `ab`, ``, `empty`, `'`, `sq`, `-1`, `neg`, -1, `ineg`, `01`, `zeroone`, ` `, `space`, `é`, `e`),
	model.List{`z`, model.List{`y`, model.List{`x`}}, model.NewM(`a`, `m`, 0, `izero`, `0`, `szero`), nil, false},
	`scalar`,
	17,
	nil,
	&model.M{},
	model.List{},
	true,
	model.NewM(`a`, nil, `b`, model.NewM(`a`, false)),
	model.Sensitive{V: model.NewM(`a`, 1)},
	// one kind of key each, so that one can't stand in for another
	model.NewM(`1`, `s`, `-1`, `s`, `0`, model.NewM(`1`, `s`), `01`, `s`),
	model.NewM(1, `i`, -1, `i`, 0, model.NewM(1, `i`)),
	model.NewM(`a.b`, `dotted`, `c.d`, `dotted`),
	model.NewM(`a`, model.NewM(`b`, `nested`), `c`, model.NewM(`d`, `nested`)),
	model.NewM(1.0, `float`, true, `bool`),
	model.List{model.NewM(`0`, `s`), model.NewM(0, `i`)},
	`1`,
	``,
}

var c04Segs = []string{`a`, `b`, `1`, `0`, `'1'`, `"1"`, `'a.b'`, `"c.d"`, `''`, `-1`, `2`, `01`, `"'"`, ` `, `99999999999`, `é`, `'é'`, `3`, `'0'`, `+1`, `'-1'`}

func c04Enum(tier string, yield func(interface{}) bool) {
	// all strings over the alphabet. A case is a prefix of three characters
	ok := sequences(len(c04Alphabet), 0, 2, func(ix []int) bool { return yield(c04Case{Keys: []string{c04String(ix)}}) })
	ok = ok && sequences(len(c04Alphabet), 3, 3, func(ix []int) bool { return yield(c04Case{Prefix: c04String(ix)}) })
	if !ok {
		return
	}
	for _, n := range sizes(pick(tier, 1100, 20000)) {
		if !yield(c04Case{Size: n}) {
			return
		}
	}
	// Lookup of keys of all values
	for v := range c04Vals {
		for l := 0; l <= 2; l++ {
			if !sequences(len(c04Segs), l, l, func(ix []int) bool {
				ks := []string{`k`}
				for _, i := range ix {
					ks = append(ks, c04Segs[i])
				}
				c := c04Case{Val: v}
				if l < 2 {
					c.Keys = []string{strings.Join(ks, `.`)}
				} else {
					for _, s := range c04Segs {
						c.Keys = append(c.Keys, strings.Join(append(append([]string{}, ks...), s), `.`))
					}
					c.Keys = append(c.Keys, strings.Join(ks, `.`))
				}
				return yield(c)
			}) {
				return
			}
		}
	}
}

// c04Sized returns a value of a size together with keys
func c04Sized(n int) (model.Val, []string) {
	long := strings.Repeat(`n`, n)
	list, m := model.List{}, model.NewM(long, `long`, long+`n`, model.NewM(`a`+long, `longer`, long+`.`+long, `dotted`))
	for i := 0; i < n; i++ {
		list = append(list, i+n)
		m.E = append(m.E, model.KV{K: fmt.Sprint(i), V: i})
	}
	v := model.List{list, m}
	keys := []string{`k.1.` + long, `k.1.` + long + `n`, `k.1.` + long + `n.a` + long, `k.1.` + long + `nn`, `k.1.'` + long + `'`, `k.1."` + long + `n"."` + long + `.` + long + `"`}
	for _, i := range []int{n - 2, n - 1, n, n + 1} {
		keys = append(keys, fmt.Sprintf(`k.0.%d`, i), fmt.Sprintf(`k.1.%d`, i), fmt.Sprintf(`k.1.'%d'`, i), fmt.Sprintf(`k.0.00%d`, i))
	}
	if n <= 600 {
		// levels
		var tall model.Val = `top`
		path := ``
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 0:
				tall = model.List{`no`, tall}
				path = `.1` + path
			case 1:
				tall = model.NewM(`no`, 1, `x`, tall)
				path = `.x` + path
			default:
				tall = model.NewM(`no`, 1, `d.d`, tall)
				path = `.'d.d'` + path
			}
		}
		v = append(v, tall)
		keys = append(keys, `k.2`+path, `k.2`+path+`.x`, `k.2`+path+`.1`)
	}
	return v, keys
}

func c04String(ix []int) string {
	bs := make([]byte, len(ix))
	for i, x := range ix {
		bs[i] = c04Alphabet[x]
	}
	return string(bs)
}

func c04Parse(w *runner.W, s string) {
	want, mixed, werr := model.ParseKey(s)
	if mixed {
		w.Count(`partly_quoted_not_judged`, 1)
		// Not specified, but must never be anything but an error or a key that starts with a string
		_ = catch(func() dgo.Value { return vf.String(api.NewKey(s).Root()) })
		return
	}
	w.Eval(1)
	var k api.Key
	o := catch(func() dgo.Value { k = api.NewKey(s); return vf.True })
	if (o.err != ``) != (werr != nil) {
		w.Fail("NewKey(%q)\n got: %s\nwant: %v %v", s, o, want, werr)
		return
	}
	if werr != nil {
		w.Outcome(`error `, werr.Msg)
		return
	}
	ps := k.Parts()
	same := len(ps) == len(want)
	for i := 0; same && i < len(ps); i++ {
		same = ps[i] == interface{}(want[i].Val())
	}
	if !same || k.Source() != s || k.Root() != want[0].S {
		w.Fail("NewKey(%q)\n got: %#v source %q root %q\nwant: %#v", s, ps, k.Source(), k.Root(), want)
		return
	}
	w.Outcome(fmt.Sprintf(`%v`, want))
	if len(want) > 1 {
		// what has been buried can be found again
		b := model.FromDgo(k.Bury(vf.String(`v`)))
		if v, ok := model.Dig(b, want[1:]); !ok || v != `v` {
			w.Fail("Bury using key %q gave %s", s, model.Canon(b))
		}
	}
}

func c04Check(w *runner.W, ci interface{}) {
	c := ci.(c04Case)
	if c.Prefix != `` {
		sequences(len(c04Alphabet), 0, pick(w.Tier, 5, 6), func(ix []int) bool {
			c04Parse(w, c.Prefix+c04String(ix))
			return true
		})
		return
	}
	b := newBuild()
	val := c04Vals[c.Val]
	if c.Size > 0 {
		val, c.Keys = c04Sized(c.Size)
	}
	b.fn(`f`, `lookup_key`, func(_ *model.Ctx, _ *model.M, key string) model.Found {
		if key == `k` {
			return model.Found{V: val, OK: true}
		}
		return model.NotFound
	})
	b.config(`hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `f`, Kind: `lookup_key`, Func: `f`}}})
	b.scope = model.NewM(`k`, val)
	if _, ok := val.(model.Sensitive); ok {
		b.scope = &model.M{}
	}
	for _, k := range c.Keys {
		c04Parse(w, k)
	}
	b.session(func(s api.Session) {
		for _, k := range c.Keys {
			if _, mixed, _ := model.ParseKey(k); mixed {
				continue
			}
			for _, q := range []query{{Key: k}, {Key: k, Merge: `deep`}} {
				got, want := q.impl(s.Invocation(nil, nil)), q.model(b.world)
				w.Eval(1)
				if want.OK {
					w.Outcome(k, want)
				}
				if got.class() != want.class() {
					w.Fail("lookup %s in %s\n got: %s\nwant: %s", q, model.Canon(val), got, want)
				}
			}
			// The same syntax is used when referring to variables
			if strings.ContainsAny(k, `}`) || len(b.scope.E) == 0 {
				continue
			}
			got := catch(func() dgo.Value {
				return s.Invocation(b.dgoScope(), nil).InterpolateInScope(k, true)
			})
			var want outcome
			parts, _, err := model.ParseKey(k)
			if err != nil {
				want.err = err.Msg
			} else if v, ok := b.scope.Get(parts[0].S); ok {
				want.V, want.OK = model.Dig(v, parts[1:])
			}
			w.Eval(1)
			if got.class() != want.class() {
				w.Fail("variable %s in %s\n got: %s\nwant: %s", k, model.Canon(b.scope), got, want)
			}
		}
	})
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C04`,
		Level: `exploration`,
		Rule: `every string of at most 8 (thorough: 9) characters over {a 1 . ' " - space} is parsed and compared with the reference parser (segments and their types, or an error), and used to bury a value that must be found again; every key of 1..4 segments over 21 segments (indexes, quoted, dotted, negative, out of range, non ASCII) is looked up in 10 values, and used to refer to a variable; names, indexes, and numbers of segments of many sizes up to 1025 (thorough: 16385). ` +
			`Non-trivial: parsed or found; distinct: by segments, or by key and value`,
		Enumerate: c04Enum,
		Check:     c04Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`key_length`: pick(tier, 8, 9), `alphabet`: c04Alphabet, `segments`: 4}
		},
		Assumptions: []string{`the meaning of a key segment that is only partly quoted is not specified and not judged`},
	}
})
