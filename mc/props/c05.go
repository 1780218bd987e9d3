package props

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"

	"verif/mc/model"
	"verif/mc/runner"
)

// C05: interpolation

var c05Tokens = []string{
	`x`, `%{sv}`, `%{ sv }`, `%{missing}`, `%{h.a}`, `%{lookup('k')}`, `%{alias('m')}`, `%{literal('%')}`, `{sv}`, `%`, `%{`, `}`,
	`%{nested}`, `%{lookup('ref')}`, `%{strict_alias('nope')}`, `%{alias('nope')}`, `%{pc}`, `%{scope('sv')}`,
	// the remaining ones are not part of the longest sequences
	`%{hiera("k")}`, `%{lookup('m.x')}`, `%{lookup('nope')}`, `%{strict_alias('m')}`, `%{bogus('k')}`, `%{lookup(k)}`, `%{::}`, `%{}`, `%{""}`, `%{'::'}`,
	`%{h.l.1}`, `%{'q.v'}`, `%{h."d.d"}`, `%{num}`, `%{bool}`, `%{nul}`, `%{list}`, `%{h}`, `%{a..b}`, `%{1}`, `%{lookup('')}`, `%{scope("h.a")}`, `%{literal("}")}`,
	`%{alias("m.l")}`, `%{sv'}`, `%{lookup('a"b')}`, `%{lookup("k')}`, ` `, `%%`, `\`, "\n", `%{ lookup( 'k' ) }`, `%{lookup ('k')}`, `%{literal('x y')}`, `%{::sv}`, `%{Lookup('k')}`,
	`%{lookup('tojson')}`, `%{lookup('infn')}`, `%{nestedal}`, `%{nestedlu}`, `é`, `%{h.é}`, `%{empty}`, `%{float}`, `%{"::"}`, `%{''}`, `%{lookup('nil')}`, `%{alias('nil')}`, "%{\tsv}", "%{sv\n}", "%{\n}", "%{lookup('k')\r}", "%{lookup('k\n')}", "%{\u00a0sv}", `%{lookup("it's")}`,
}

const c05Core = 18

type c05Case struct {
	S    string
	Conf bool `json:",omitempty"`
	Size int  `json:",omitempty"` // size of a value that has the string
	Form int  `json:",omitempty"`
}

// c05Sized are values of a given size that have a string
var c05Sized = []func(s string, n int) model.Val{
	func(s string, n int) model.Val { return strings.Repeat(s, n) },
	func(s string, n int) model.Val { return strings.Repeat(`t`, n) + s + strings.Repeat(`u`, n) + s },
	func(s string, n int) model.Val { return strings.Repeat(`}`, n) + s + strings.Repeat(`{`, n) },
	func(s string, n int) model.Val { return strings.Repeat(`%`, n) + s },
	func(s string, n int) model.Val {
		l := model.List{}
		for i := 0; i < n; i++ {
			l = append(l, []model.Val{i, s, `plain`, fmt.Sprint(i, s)}[i%4])
		}
		return append(l, s)
	},
	func(s string, n int) model.Val {
		m := &model.M{}
		for i := 0; i < n; i++ {
			m.E = append(m.E, model.KV{K: fmt.Sprint(i, s), V: []model.Val{i, s, `plain`}[i%3]})
		}
		return m
	},
	func(s string, n int) model.Val {
		var v model.Val = s
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				v = model.List{i, v}
			} else {
				v = model.NewM(`l`, i, s, v)
			}
		}
		return v
	},
}

func c05Enum(tier string, yield func(interface{}) bool) {
	str := func(ix []int) string {
		var sb strings.Builder
		for _, i := range ix {
			sb.WriteString(c05Tokens[i])
		}
		return sb.String()
	}
	n := len(c05Tokens)
	// In the configuration
	if !sequences(n, 1, 2, func(ix []int) bool { return yield(c05Case{S: str(ix), Conf: true}) }) {
		return
	}
	if !sequences(n, 0, pick(tier, 2, 3), func(ix []int) bool { return yield(c05Case{S: str(ix)}) }) {
		return
	}
	for _, n := range sizes(pick(tier, 260, 1100)) {
		for f := range c05Sized {
			for _, s := range []string{`%{sv}`, `%{lookup('k')}`, `%{h.a}`, `%{pc}`, `%{ sv }`, `%{literal('%')}`, `%{nested}`, `%{missing}`} {
				if !yield(c05Case{S: s, Size: n, Form: f}) {
					return
				}
			}
		}
	}
	sequences(c05Core, 3, pick(tier, 3, 4), func(ix []int) bool { return yield(c05Case{S: str(ix)}) })
}

func c05Scope(s string) *model.M {
	return model.NewM(`sv`, `S`, `h`, model.NewM(`a`, `ha`, `l`, model.List{1, `two`}, `d.d`, `hdd`, `é`, `hé`), `q.v`, `qv`, `num`, 17, `bool`, true, `nul`, nil,
		`list`, model.List{`a`, 1, nil}, `nested`, `<%{sv}>`, `nestedal`, `%{alias('k')}`, `nestedlu`, model.List{`%{lookup('k')}`}, `pc`, `%`, `v`, s, `vm`, model.NewM(`a`, model.List{s}), `empty`, ``, `float`, 1.5, `::`, `colons`, ``, `no name`)
}

// c05Shapes are maps and arrays that have the string in all combinations of places
func c05Shapes(s string) model.List {
	return model.List{
		model.NewM(s, 1),
		model.NewM(s, s),
		model.NewM(`p`, s),
		model.NewM(`p`, 1, s, 2),
		model.NewM(s, 1, `p`, 2),
		model.NewM(s, model.NewM(s, nil)),
		model.NewM(`p`, model.NewM(s, model.List{})),
		model.NewM(`p`, model.List{`q`, model.NewM(s, false)}),
		model.NewM(`p`, s, `q`, 1, `r`, s),
		model.List{model.List{}, model.List{model.List{s}}, s, &model.M{}},
		`plain`,
	}
}

// c05Size decides a case where the value is large
func c05Size(w *runner.W, c c05Case) {
	b := newBuild()
	b.scope = c05Scope(c.S)
	v := c05Sized[c.Form](c.S, c.Size)
	text, _ := v.(string)
	b.scope = b.scope.With(`big`, v).With(strings.Repeat(`n`, c.Size), `long name`)
	b.data(`data/d.yaml`, model.NewM(`v`, v, `k`, `K`, `var`, `<%{big}>`, `ref`, `%{alias('v')}`, `long`, `%{`+strings.Repeat(`n`, c.Size)+`}`, `text`, `[%{lookup('v')}]`, `lit`, `%{literal('`+strings.Repeat(`n`, c.Size)+`')}`))
	b.fn(`fn`, `lookup_key`, func(_ *model.Ctx, _ *model.M, key string) model.Found {
		return model.Found{V: v, OK: key == `f`}
	})
	b.config(`hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `y`, Loc: &model.Loc{Kind: `path`, S: []string{`d.yaml`}}}, {Name: `f`, Kind: `lookup_key`, Func: `fn`}}})
	keys := []string{`v`, `f`, `ref`, `long`, `lit`}
	if text != `` {
		keys = append(keys, `text`, `var`)
	}
	double := *b.world
	double.Double = true
	b.session(func(s api.Session) {
		for _, k := range keys {
			q := query{Key: k}
			got, want := q.impl(s.Invocation(b.dgoScope(), nil)), q.model(b.world)
			w.Eval(1)
			w.Outcome(c, k, want)
			if got.class() == want.class() {
				continue
			}
			if alt := q.model(&double); got.class() == alt.class() {
				w.FailAs(`interpolated twice`, "lookup %s where the value is %q\n got: %s\nwant: %s", q, c.S, got, want)
				w.Count(`lookups_interpolated_twice`, 1)
				continue
			}
			w.Fail("lookup %s where the value is %q\n got: %s\nwant: %s\n%s", q, c.S, got, want, b.describe())
		}
	})
}

func c05Check(w *runner.W, ci interface{}) {
	c := ci.(c05Case)
	if c.Size > 0 {
		c05Size(w, c)
		return
	}
	b := newBuild()
	b.scope = c05Scope(c.S)
	cfg := &model.Config{}
	var keys []string
	if c.Conf {
		b.fn(`opts`, `lookup_key`, func(_ *model.Ctx, opts *model.M, key string) model.Found {
			if key == `opts` {
				return model.Found{V: opts, OK: true}
			}
			return model.NotFound
		})
		b.fn(`optsS`, `lookup_key`, func(_ *model.Ctx, opts *model.M, key string) model.Found {
			if key == `opts` {
				return model.Found{V: `function named optsS`, OK: true}
			}
			return model.NotFound
		})
		// values of options are nested, a path, and the name of a function
		opts := model.NewM(`o`, c.S, `l`, model.List{c.S, `x`}, `m`, model.NewM(`y`, model.NewM(`z`, c.S)))
		cfg.Hierarchy = []model.Entry{{Name: `o`, Kind: `lookup_key`, Func: `opts`, Options: opts, Loc: &model.Loc{Kind: `uris`, S: []string{`http://` + c.S + `/`}}}}
		if c.S == `%{sv}` {
			cfg.Hierarchy = append([]model.Entry{{Name: `first`, Kind: `lookup_key`, Func: `opts` + c.S, Options: &model.M{}}}, cfg.Hierarchy...)
		}
		keys = []string{`opts`}
	} else {
		get := func(m *model.M) model.Fn {
			return func(_ *model.Ctx, _ *model.M, key string) model.Found {
				v, ok := m.Get(key)
				return model.Found{V: v, OK: ok}
			}
		}
		infn := model.NewM(`infn`, c.S, `infnl`, model.List{c.S, 1})
		if c.S == `%{lookup('infn')}` || strings.Contains(c.S, `infn`) {
			infn = model.NewM(`infn`, `IN %{sv}`)
		}
		b.fn(`fn`, `lookup_key`, get(infn))
		b.data(`data/d.json`, model.NewM(`js`, c.S, `tojson`, `J%{nested}`))
		b.data(`data/d.yaml`, model.NewM(`s`, c.S, `l`, model.List{c.S, `plain`, model.List{c.S}}, `m2`, model.NewM(c.S, 1, `kk`, model.NewM(`z`, c.S)), `shapes`, c05Shapes(c.S), `k`, `K`, `ref`, `R%{lookup('k')}%{sv}`,
			`m`, model.NewM(`x`, `mx`, `y`, model.NewM(`z`, `%{sv}`), `l`, model.List{1, `%{lookup("k")}`}), `vs`, `%{v}`, `vml`, `%{vm.a.0}`, `nil`, nil, `it's`, `its`, "k\n", `nl`, `lu`, `%{lookup('s')}`, `al`, `%{alias('l')}`, `str`, `[%{lookup('l')}]`))
		cfg.Hierarchy = []model.Entry{
			{Name: `y`, Loc: &model.Loc{Kind: `path`, S: []string{`d.yaml`}}},
			{Name: `j`, Kind: `data_hash`, Func: `json_data`, Loc: &model.Loc{Kind: `path`, S: []string{`d.json`}}},
			{Name: `f`, Kind: `lookup_key`, Func: `fn`},
			{Name: `s`, Kind: `lookup_key`, Func: `scope`},
		}
		keys = []string{`s`, `l`, `shapes`, `m2`, `m2.kk`, `js`, `infn`, `infnl.0`, `vs`, `v`, `vml`, `lu`, `al`, `str`, `vm.a`}
	}
	b.config(`hiera.yaml`, cfg)
	double := *b.world
	double.Double = true
	b.session(func(s api.Session) {
		for _, k := range keys {
			q := query{Key: k}
			got, want := q.impl(s.Invocation(b.dgoScope(), nil)), q.model(b.world)
			w.Eval(1)
			if want.OK || want.err != `` {
				w.Outcome(c.S, c.Conf, k, want)
			}
			if got.class() == want.class() {
				continue
			}
			if alt := q.model(&double); got.class() == alt.class() {
				w.FailAs(`interpolated twice`, "lookup %s where the value is %q\n got: %s\nwant: %s", q, c.S, got, want)
				w.Count(`lookups_interpolated_twice`, 1)
				continue
			}
			w.Fail("lookup %s where the value is %q\n got: %s\nwant: %s\n%s", q, c.S, got, want, b.describe())
		}
		if !c.Conf {
			// The methods of the invocation
			for _, methods := range []bool{true, false} {
				ctx := model.NewCtx(b.world)
				w.Eval(1)
				want := modelOutcome(ctx.InterpolateAll(model.List{c.S, model.NewM(`a`, c.S), c05Shapes(c.S)}, methods))
				got := catch(func() dgo.Value {
					return s.Invocation(b.dgoScope(), nil).Interpolate(model.ToDgo(model.List{c.S, model.NewM(`a`, c.S), c05Shapes(c.S)}), methods)
				})
				if got.class() != want.class() {
					w.Fail("Interpolate(%q, %v)\n got: %s\nwant: %s", c.S, methods, got, want)
				}
			}
		}
	})
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C05`,
		Level: `exploration`,
		Rule: fmt.Sprintf(`every concatenation of at most 2 (thorough: 3) of %d fragments, and of 3 (thorough: 4) of %d of them (variables, digging, every method, aliases, unknown methods, unterminated, quoted, empty, nested, failing), as the value of a string, in arrays, as keys and values of maps, in values from yaml_data, json_data, and a function, in variables, behind lookups and aliases, and in options, locations and function names of the configuration; values of seven forms and sizes up to 257 (thorough: 1025) that have an expression at many places, at the end, or at the deepest level. `, len(c05Tokens), c05Core) +
			`Compared with a reference interpolation that scans the text once. Non-trivial: found or an error; distinct: by text, place, and result`,
		Enumerate: c05Enum,
		Check:     c05Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`fragments`: len(c05Tokens), `length`: pick(tier, 2, 3), `length_core`: pick(tier, 3, 4)}
		},
		Assumptions: []string{`the text form of maps and arrays that are interpolated into strings is the one that dgo uses`},
	}
})
