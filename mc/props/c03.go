package props

import (
	"fmt"
	"strings"

	"github.com/lyraproj/hiera/api"

	"verif/mc/model"
	"verif/mc/runner"
)

// C03: which lookup options apply to a key, and what they do

// c03Opts are the options that a source can declare. They are all for the key that is looked up unless otherwise noted
var c03Opts = []func(key string) model.Val{
	func(k string) model.Val { return nil }, // no lookup_options at all
	func(k string) model.Val { return model.NewM(k, model.NewM(`merge`, `deep`)) },
	func(k string) model.Val { return model.NewM(k, model.NewM(`merge`, `unique`)) },
	func(k string) model.Val { return model.NewM(k, model.NewM(`merge`, model.NewM(`strategy`, `hash`))) },
	func(k string) model.Val { return model.NewM(k, model.NewM(`convert_to`, `string`)) },
	func(k string) model.Val {
		return model.NewM(k, model.NewM(`merge`, `first`, `convert_to`, `sensitive`))
	},
	func(k string) model.Val {
		return model.NewM(k+`x`, model.NewM(`merge`, `deep`), `x`+k, model.NewM(`merge`, `unique`), `other`, model.NewM(`convert_to`, `string`))
	},
	func(k string) model.Val {
		return model.NewM(k, model.NewM(`convert_to`, model.List{`string`, `%x`}), `other`, model.NewM(`merge`, `deep`))
	},
	func(k string) model.Val { return model.NewM(k, &model.M{}) },
	func(k string) model.Val { return model.NewM(k, `deep`) },
	func(k string) model.Val { return model.NewM(k, model.NewM(`merge`, `bogus`)) },
	func(k string) model.Val { return `not a map` },
	func(k string) model.Val { return model.NewM(k, model.NewM(`convert_to`, `int`)) },
	func(k string) model.Val { return model.NewM(k, model.NewM(`convert_to`, model.List{`int`, 16})) },
	func(k string) model.Val { return model.NewM(k, model.NewM(`convert_to`, model.List{})) },
	func(k string) model.Val { return model.NewM(k, model.NewM(`convert_to`, model.List{`sensitive`})) },
	func(k string) model.Val {
		return model.NewM(`k.x`, model.NewM(`merge`, `unique`), `x`, model.NewM(`merge`, `deep`), `k`, model.NewM(`merge`, `deep`), `m`, model.NewM(`convert_to`, `string`))
	},
	func(k string) model.Val {
		return model.NewM(`lookup_options`, model.NewM(`merge`, `first`), k, model.NewM(`merge`, nil))
	},
	func(k string) model.Val {
		return model.NewM(k, model.NewM(`a`, 1, `merge`, `unique`, `b`, model.NewM(`convert_to`, `int`), `strategy`, `deep`, `convert_to`, `string`, `c`, nil))
	},
}

// c03Data are the values for the key from the first, second, and third source
var c03Data = [][]model.Val{
	{model.NewM(`x`, `12`, `y`, model.List{1}), model.NewM(`x`, `13`, `y`, model.List{2}, `z`, true), model.NewM(`z`, false, `y`, model.List{3, 1})},
	{model.List{`b`, `a`}, model.List{`a`, model.List{`c`}}, `d`},
	{`17`, 18, model.List{1}},
	{true, model.NewM(`x`, 1), 3},
	{255, model.List{`q`}, `q`},
}

// c03Worlds describe where the data and the options live
var c03Worlds = []string{`config`, `locations`, `functions`, `mux-config`, `mux-config-module`, `mux-module-config`, `mux-scope-config`, `mux-config-scope`, `optslast`}

type c03Case struct {
	World string
	Key   string
	Opts  []int
	Data  int
	Size  int `json:",omitempty"` // number of declarations
}

func c03Enum(tier string, yield func(interface{}) bool) {
	for _, wd := range []string{`one`, `sources`, `module`} {
		for _, n := range sizes(pick(tier, 130, 600)) {
			for d := 0; d < 2; d++ {
				if !yield(c03Case{World: wd, Data: d, Size: n}) {
					return
				}
			}
		}
	}
	for _, wd := range c03Worlds {
		for _, key := range []string{`k`, `m::k`, `a.b`} {
			if key == `a.b` && wd != `config` && wd != `mux-config` {
				continue
			}
			for d := range c03Data {
				n := len(c03Opts)
				if !product(func(ix []int) bool {
					return yield(c03Case{World: wd, Key: key, Opts: ix, Data: d})
				}, n, n) {
					return
				}
				if tier == `thorough` && (wd == `config` || wd == `locations` || wd == `mux-config-module`) {
					if !product(func(ix []int) bool {
						return yield(c03Case{World: wd, Key: key, Opts: ix, Data: d})
					}, n, n, n) {
						return
					}
				}
			}
		}
	}
}

// c03Size decides a case with many declarations, in one source, in many sources, or in the module of the key
func c03Size(w *runner.W, c c03Case) {
	b := newBuild()
	b.world.Mux = true
	b.world.Top = []string{`config`}
	cfg := &model.Config{Hierarchy: []model.Entry{}}
	n := c.Size
	first, last := &model.M{}, &model.M{}
	lo := &model.M{}
	prefix := ``
	if c.World == `module` {
		prefix = `m::`
		b.world.Top = []string{`config`, `module`}
	}
	key := func(i int) string {
		if c.Data == 1 {
			return prefix + `k` + strings.Repeat(`x`, i)
		}
		return prefix + fmt.Sprintf(`k%d`, i)
	}
	var srcs []*model.M
	for i := 0; i <= n; i++ {
		k := key(i)
		first = first.With(k, c03Data[i%len(c03Data)][0])
		last = last.With(k, c03Data[i%len(c03Data)][1])
		o := []model.Val{model.NewM(`merge`, `deep`), model.NewM(`convert_to`, `string`), model.NewM(`merge`, `unique`), nil, model.NewM(`merge`, model.NewM(`strategy`, `hash`), `convert_to`, `sensitive`)}[i%5]
		if o == nil {
			continue
		}
		if c.World == `sources` {
			d := model.NewM(k, o)
			if i%3 == 2 {
				d = d.With(key(i-2), model.NewM(`merge`, `first`)) // declared before, which takes precedence
			}
			srcs = append(srcs, model.NewM(`lookup_options`, d))
		} else {
			lo.E = append(lo.E, model.KV{K: k, V: o})
		}
	}
	if c.World == `module` {
		b.config(`modules/m/hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `x`, Loc: &model.Loc{Kind: `path`, S: []string{`m.yaml`}}}}})
		b.data(`modules/m/data/m.yaml`, last.With(`lookup_options`, lo))
		b.world.ModulePath = []string{theFS.path(`modules`)}
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(`yaml`, `first`, first))
	} else {
		if c.World == `one` {
			first = first.With(`lookup_options`, lo)
		}
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(`yaml`, `first`, first), b.source(`yaml`, `last`, last))
		for i, d := range srcs {
			cfg.Hierarchy = append(cfg.Hierarchy, b.source(`yaml`, fmt.Sprintf(`s%d`, i), d))
		}
	}
	b.config(`hiera.yaml`, cfg)
	b.session(func(s api.Session) {
		shared := s.Invocation(b.dgoScope(), nil)
		for i := n; i >= 0; i-- {
			if i > 12 && i < n-12 {
				continue
			}
			q := query{Key: key(i)}
			for _, iv := range []api.Invocation{shared, s.Invocation(b.dgoScope(), nil)} {
				got, want := q.impl(iv), q.model(b.world)
				w.Eval(1)
				if want.OK {
					w.Outcome(c, q, want)
				}
				if got.class() != want.class() {
					w.Fail("lookup %s, one of %d keys\n got: %s\nwant: %s\n%s", q, n+1, got, want, b.describe())
					return
				}
			}
		}
	})
}

func c03Check(w *runner.W, ci interface{}) {
	c := ci.(c03Case)
	if c.Size > 0 {
		c03Size(w, c)
		return
	}
	b := newBuild()
	n := len(c.Opts)
	q := c.Key
	if q == `a.b` {
		q = `"a.b"`
	}
	data := make([]*model.M, n)
	for i := range data {
		data[i] = model.NewM(c.Key, c03Data[c.Data][i])
		if i == 0 {
			// references to the key from other keys that have, or don't have, options of their own
			data[i] = data[i].With(`ali`, `%{alias("`+c.Key+`")}`).With(`other`, `>%{lookup('`+c.Key+`')}`).With(`c`, `%{alias('other')}`)
			if c.Key == `a.b` {
				data[i] = data[i].With(`ali`, `%{alias('"a.b"')}`).With(`other`, `>%{lookup('"a.b"')}`)
			}
		}
		if o := c03Opts[c.Opts[i]](c.Key); o != nil {
			data[i] = data[i].With(`lookup_options`, o)
		}
	}
	cfg := &model.Config{Hierarchy: []model.Entry{}}
	module := func() {
		// the module has an extra key, and options for a key that isn't in the module
		b.config(`modules/m/hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `x`, Loc: &model.Loc{Kind: `path`, S: []string{`m.yaml`}}}}})
		b.data(`modules/m/data/m.yaml`, data[n-1].With(`m::other`, 1))
		b.world.ModulePath = []string{theFS.path(`modules`)}
		data = data[:n-1]
	}
	b.world.Mux = true
	kind := `yaml`
	switch c.World {
	case `config`, `locations`, `optslast`:
		b.world.Mux = false
	case `functions`:
		b.world.Mux = false
		kind = `fnkey`
	case `mux-config`:
		b.world.Top = []string{`config`}
	case `mux-config-module`:
		b.world.Top = []string{`config`, `module`}
		module()
	case `mux-module-config`:
		b.world.Top = []string{`module`, `config`}
		module()
	case `mux-scope-config`, `mux-config-scope`:
		b.world.Top = []string{`scope`, `config`}
		if c.World == `mux-config-scope` {
			b.world.Top = []string{`config`, `scope`}
		}
		v, _ := data[n-1].Get(c.Key)
		b.scope = b.scope.With(c.Key, v)
		data = data[:n-1]
	}
	if c.World == `locations` {
		e := model.Entry{Name: `p`, Loc: &model.Loc{Kind: `paths`}}
		for i := range data {
			f := fmt.Sprintf(`p%d.yaml`, i)
			b.data(`data/`+f, data[i])
			e.Loc.S = append(e.Loc.S, f)
		}
		cfg.Hierarchy = append(cfg.Hierarchy, e)
	} else {
		for i := range data {
			if c.World == `optslast` {
				// the options live in sources of their own, after all data
				lo, ok := data[i].Get(`lookup_options`)
				d := &model.M{}
				for _, e := range data[i].E {
					if e.K != `lookup_options` {
						d = d.With(e.K, e.V)
					}
				}
				cfg.Hierarchy = append(cfg.Hierarchy, b.source(`json`, fmt.Sprintf(`d%d`, i), d))
				if ok {
					defer func(i int) {}(i)
					data[i] = model.NewM(`lookup_options`, lo)
				} else {
					data[i] = nil
				}
				continue
			}
			cfg.Hierarchy = append(cfg.Hierarchy, b.source(kind, fmt.Sprintf(`s%d`, i), data[i]))
		}
		if c.World == `optslast` {
			for i := range data {
				if data[i] != nil {
					cfg.Hierarchy = append(cfg.Hierarchy, b.source(`fnhash`, fmt.Sprintf(`o%d`, i), data[i]))
				}
			}
		}
	}
	b.config(`hiera.yaml`, cfg)
	var qs []query
	for _, k := range []string{q, q + `.x`, q + `.y`, `ali`, `other`, `c`, `ali.x`} {
		qs = append(qs, query{Key: k})
	}
	for _, m := range []model.Val{`first`, `deep`, `unique`, model.NewM(`strategy`, `hash`)} {
		qs = append(qs, query{q, m}, query{`ali`, m})
	}
	qs = append(qs, query{Key: `lookup_options`}, query{Key: `lookup_options.` + c.Key}, query{Key: q + `.z`, Merge: `deep`})
	b.session(func(s api.Session) {
		// One invocation for each, and then the same in the opposite order using the same invocation
		one := func(iv api.Invocation, q query) bool {
			got, want := q.impl(iv), q.model(b.world)
			w.Eval(1)
			if want.OK {
				w.Outcome(b.describe(), q, want)
			}
			if got.class() != want.class() {
				w.Fail("lookup %s\n got: %s\nwant: %s\n%s", q, got, want, b.describe())
				return false
			}
			return true
		}
		for _, q := range qs {
			if !one(s.Invocation(b.dgoScope(), nil), q) {
				return
			}
		}
		iv := s.Invocation(b.dgoScope(), nil)
		for i := len(qs) - 1; i >= 0; i-- {
			if !one(iv, qs[i]) {
				return
			}
		}
	})
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C03`,
		Level: `exploration`,
		Rule: `every pair (thorough: triple in three worlds) of 18 declarations of lookup_options, over 9 worlds (entries, locations, functions, options declared after the data, muxed configuration/module/scope in different order), 3 keys and 5 sets of values; 18 lookups of the key, of its sub keys, of aliases and interpolations that refer to it, and with explicit strategies, each compared with the reference interpreter using a new invocation and in reverse order using a shared one; up to 129 (thorough: 513) declarations for as many keys, in one source, in sources of their own, or in a module. ` +
			`Non-trivial: the key is found; distinct: by files, query, and result`,
		Enumerate: c03Enum,
		Check:     c03Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`declarations`: len(c03Opts), `sources`: pick(tier, 2, 3), `worlds`: len(c03Worlds)}
		},
		Assumptions: []string{`conversions are explored for the types string, int, and sensitive`},
	}
})
