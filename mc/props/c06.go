package props

import (
	"fmt"
	"strings"

	"github.com/lyraproj/hiera/api"

	"verif/mc/model"
	"verif/mc/runner"
)

// C06: cyclic references

// c06Vals are the values that a key can have. A, B, and C stand for the names of the keys
var c06Vals = []model.Val{
	`k`,
	`%{lookup('A')}`, `%{lookup('B')}`, `%{lookup('C')}`,
	`%{alias('A')}`, `%{alias('B')}`, `%{strict_alias('C')}`,
	`%{v}`, `%{scope('w')}`,
	`%{lookup('B')}%{lookup('C')}`,
	`%{lookup('C')}%{lookup('C')}%{v}%{v}`,
	model.List{`%{alias('A')}`, `%{lookup('C')}`},
	model.NewM(`x`, `%{lookup('B')}`, `y`, `%{lookup('B.x')}`),
	model.NewM(`x`, `1`, `y`, `%{lookup('A.x')}`),
	model.NewM(`%{lookup('B')}`, 1),
	`%{hiera("C.x")}`,
	`%{v.x}`,
}

// c06VarV and c06VarW are the values of two variables
var c06VarV = []model.Val{`k`, `%{v}`, `%{w}`, `%{lookup('A')}`, model.NewM(`x`, `%{v.y}`, `y`, 1), model.NewM(`x`, `%{lookup('B')}`), model.List{`%{alias('C')}`, `%{w}`}, `%{w.x}%{w}`}
var c06VarW = []model.Val{`q`, `%{v}`, `%{lookup('C')}`, model.NewM(`x`, `%{scope('v')}`)}

var c06Opts = []model.Val{
	model.NewM(`A`, model.NewM(`merge`, `%{lookup('B')}`)),
	model.NewM(`A`, model.NewM(`merge`, `%{v}`)),
	model.NewM(`%{w}`, model.NewM(`merge`, `deep`)),
	model.NewM(`%{alias('C')}`, model.NewM(`convert_to`, `string`)),
}

type c06Case struct {
	World string
	Keys  []int
	V, W  int
	Extra int
}

func c06Enum(tier string, yield func(interface{}) bool) {
	n := len(c06Vals)
	worlds := []string{`yaml`, `fnkey`}
	if tier == `thorough` {
		worlds = []string{`yaml`, `fnkey`, `fnhash`, `fndig`, `two`, `module`, `mux`, `callkey`, `callhash`, `callmodule`}
	}
	for _, wd := range worlds {
		if !product(func(ix []int) bool {
			return yield(c06Case{World: wd, Keys: ix[:3], V: ix[3], W: ix[4]})
		}, n, n, n, len(c06VarV), len(c06VarW)) {
			return
		}
	}
	// fewer keys for the other places
	small := [][]int{{0, 0, 0}, {2, 1, 3}, {2, 3, 0}, {5, 1, 0}, {7, 2, 8}, {8, 7, 1}, {9, 3, 0}, {9, 3, 2}, {11, 6, 0}, {12, 14, 0}, {12, 14, 1}, {2, 3, 7}, {13, 0, 0}}
	for _, wd := range []string{`fnhash`, `two`, `module`, `mux`, `callkey`, `calldig`, `callhash`, `calltwo`, `callmodule`, `path`, `mapped`, `options`, `function`, `datadir`, `glob`} {
		for _, ks := range small {
			for v := range c06VarV {
				for x := range c06VarW {
					if !yield(c06Case{World: wd, Keys: ks, V: v, W: x}) {
						return
					}
				}
			}
		}
	}
	for _, wd := range []string{`luopts`, `luoptsModule`, `luoptsMux`} {
		for _, ks := range small {
			for v := range c06VarV {
				for x := range c06VarW {
					for o := range c06Opts {
						if !yield(c06Case{World: wd, Keys: ks, V: v, W: x, Extra: o}) {
							return
						}
					}
				}
			}
		}
	}
	for _, i := range sizes(pick(tier, 260, 1100)) {
		for _, wd := range []string{`chain`, `loop`, `varchain`, `varloop`} {
			if !yield(c06Case{World: wd, Extra: i}) {
				return
			}
		}
	}
	for i := 1; i <= pick(tier, 8, 12); i++ {
		for _, wd := range []string{`diamond`, `diamondloop`} {
			if !yield(c06Case{World: wd, Extra: i}) {
				return
			}
		}
	}
}

func rename(v model.Val, f func(string) string) model.Val {
	switch v := v.(type) {
	case string:
		return f(v)
	case model.List:
		r := make(model.List, len(v))
		for i := range v {
			r[i] = rename(v[i], f)
		}
		return r
	case *model.M:
		r := &model.M{}
		for _, e := range v.E {
			r = r.With(rename(e.K, f), rename(e.V, f))
		}
		return r
	}
	return v
}

func c06Check(w *runner.W, ci interface{}) {
	c := ci.(c06Case)
	b := newBuild()
	cfg := &model.Config{Hierarchy: []model.Entry{}}
	var qs []query
	data := &model.M{}
	names := []string{`a`, `b`, `c`}
	if c.World == `module` || c.World == `luoptsModule` {
		names = []string{`m::a`, `m::b`, `c`}
	}
	rn := func(v model.Val) model.Val {
		return rename(v, func(s string) string {
			for i, n := range []string{`A`, `B`, `C`} {
				s = strings.Replace(s, n, names[i], -1)
			}
			return s
		})
	}
	if c.Keys != nil {
		for i, k := range c.Keys {
			data = data.With(names[i], rn(c06Vals[k]))
			qs = append(qs, query{Key: names[i]})
		}
		b.scope = b.scope.With(`v`, rn(c06VarV[c.V])).With(`w`, rn(c06VarW[c.W]))
		qs = append(qs, query{Key: names[0], Merge: `deep`}, query{Key: names[1] + `.x`})
	}
	data = data.With(`z`, `z`)
	qs = append(qs, query{Key: `z`})
	switch c.World {
	case `yaml`, `fnkey`, `fnhash`, `fndig`:
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(c.World, `s`, data))
	case `callkey`, `calldig`, `callhash`:
		// functions that interpolate what they return
		cfg.Hierarchy = append(cfg.Hierarchy, b.interpolating(b.source(`fn`+c.World[4:], `s`, data)))
	case `calltwo`:
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(`yaml`, `s1`, data), b.interpolating(b.source(`fnhash`, `s2`, model.NewM(`a`, data.E[0].V))), b.interpolating(b.source(`fnkey`, `s3`, data)))
	case `callmodule`:
		// keys of the function of the module are independent of those that are global
		b.world.Mux = true
		b.world.Top = []string{`config`, `module`}
		b.world.ModulePath = []string{theFS.path(`modules`)}
		md := model.NewM()
		for _, e := range data.E[:2] {
			md = md.With(`m::`+e.K.(string), e.V)
			qs = append(qs, query{Key: `m::` + e.K.(string)})
		}
		b.config(`modules/m/hiera.yaml`, &model.Config{Hierarchy: []model.Entry{b.interpolating(b.source(`fnhash`, `m`, md))}})
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(`yaml`, `s`, data))
	case `two`:
		// the references refer to values in other sources
		d2 := &model.M{}
		for _, e := range data.E {
			if e.K != `a` {
				d2 = d2.With(e.K, e.V)
			}
		}
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(`json`, `s1`, model.NewM(`a`, data.E[0].V)), b.source(`fnkey`, `s2`, d2), b.source(`yaml`, `s3`, data))
	case `module`, `luoptsModule`:
		b.world.Mux = true
		b.world.Top = []string{`config`, `module`}
		b.world.ModulePath = []string{theFS.path(`modules`)}
		if c.World == `luoptsModule` {
			data = data.With(`lookup_options`, rn(c06Opts[c.Extra]))
		}
		b.config(`modules/m/hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `x`, Loc: &model.Loc{Kind: `path`, S: []string{`m.yaml`}}}}})
		b.data(`modules/m/data/m.yaml`, data)
		v, _ := data.Get(`c`)
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(`yaml`, `s`, model.NewM(`c`, v, `z`, `z`)))
	case `mux`:
		b.world.Mux = true
		b.world.Top = []string{`scope`, `config`}
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(`yaml`, `s`, data))
		qs = append(qs, query{Key: `v`}, query{Key: `w`, Merge: `unique`})
	case `luopts`, `luoptsMux`:
		data = data.With(`lookup_options`, rn(c06Opts[c.Extra]))
		if c.World == `luoptsMux` {
			b.world.Mux = true
			b.world.Top = []string{`config`}
		}
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(`yaml`, `s`, data))
	case `path`, `mapped`, `options`, `function`, `datadir`, `glob`:
		// variables are used by the configuration
		e := model.Entry{Name: `x`}
		switch c.World {
		case `path`:
			e.Loc = &model.Loc{Kind: `paths`, S: []string{`none.yaml`, `%{v}.yaml`}}
			b.data(`data/k.yaml`, model.NewM(`a`, `from k`))
		case `glob`:
			e.Loc = &model.Loc{Kind: `glob`, S: []string{`%{v}/*.yaml`}}
			b.data(`data/k/x.yaml`, model.NewM(`a`, `from k`))
		case `mapped`:
			e.Loc = &model.Loc{Kind: `mapped_paths`, S: []string{`v`, `w`, `%{w}.yaml`}}
			b.data(`data/k.yaml`, model.NewM(`a`, `from k`))
		case `datadir`:
			e.DataDir = `%{v}`
			e.Loc = &model.Loc{Kind: `path`, S: []string{`x.yaml`}}
			b.data(`k/x.yaml`, model.NewM(`a`, `from k`))
		case `function`, `options`:
			f := func(c *model.Ctx, opts *model.M, key string) model.Found {
				if key != `a` {
					return model.NotFound
				}
				v, _ := opts.Get(`o`)
				return model.Found{V: model.List{`from fn`, v}, OK: true}
			}
			b.fn(`k`, `lookup_key`, f)
			e.Kind, e.Func = `lookup_key`, `k`
			if c.World == `function` {
				e.Func = `%{v}`
			} else {
				e.Options = model.NewM(`o`, model.List{`%{v}`, model.NewM(`p`, `%{w}`)})
			}
		}
		cfg.Hierarchy = append(cfg.Hierarchy, e, b.source(`yaml`, `s`, data))
	case `chain`, `loop`, `varchain`, `varloop`:
		// a chain of a given length and the same with its end connected to its beginning
		f := `%%{lookup('k%d')}`
		set := func(k string, v model.Val) { data = data.With(k, v) }
		if strings.HasPrefix(c.World, `var`) {
			f = `%%{k%d}`
			set = func(k string, v model.Val) { b.scope = b.scope.With(k, v) }
			data = data.With(`k0`, `%{k0}`)
		}
		for i := 0; i < c.Extra; i++ {
			set(fmt.Sprintf(`k%d`, i), fmt.Sprintf(f, i+1))
		}
		if strings.HasSuffix(c.World, `loop`) {
			set(fmt.Sprintf(`k%d`, c.Extra), fmt.Sprintf(f, 0))
		} else {
			set(fmt.Sprintf(`k%d`, c.Extra), `end`)
		}
		qs = append([]query{{Key: `k0`}}, qs...)
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(`yaml`, `s`, data))
	case `diamond`, `diamondloop`:
		for i := 0; i < c.Extra; i++ {
			data = data.With(fmt.Sprintf(`k%d`, i), fmt.Sprintf(`%%{lookup('k%d')}%%{lookup("k%d")}`, i+1, i+1))
		}
		last := `x`
		if c.World == `diamondloop` {
			last = `%{lookup('k0')}`
		}
		data = data.With(fmt.Sprintf(`k%d`, c.Extra), last)
		qs = append([]query{{Key: `k0`}}, qs...)
		// from a source without interpolation of its own, to keep the number of lookups at the power of two
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(`fnkey`, `s`, data))
	}
	b.config(`hiera.yaml`, cfg)
	b.session(func(s api.Session) {
		one := func(iv api.Invocation, q query, what string) bool {
			got, want := q.impl(iv), q.model(b.world)
			w.Eval(1)
			if q.Key != `z` {
				w.Outcome(b.describe(), q, want.class())
			}
			w.Count(`lookups that `+map[bool]string{true: `fail`, false: `end with a value or not found`}[want.err != ``], 1)
			if got.class() != want.class() {
				w.Fail("lookup %s (%s)\n got: %s\nwant: %s\n%s", q, what, got, want, b.describe())
				return false
			}
			return true
		}
		iv := s.Invocation(b.dgoScope(), nil)
		for _, q := range qs {
			if !one(iv, q, `shared invocation`) {
				return
			}
		}
		for i := len(qs) - 1; i >= 0; i-- {
			if !one(s.Invocation(b.dgoScope(), nil), qs[i], `invocation of its own`) {
				return
			}
		}
	})
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C06`,
		Level: `exploration`,
		Rule: `every graph of references between three keys (17 kinds of values each) and two variables (8 and 4 kinds of values), in values that come from data_hash and lookup_key functions (thorough: five more worlds); graphs that pass through the configuration (paths, globs, mapped paths, options, functions, directories) and through lookup_options of the configuration or a module; functions that interpolate what they return; chains and loops of increasing length. Every key is looked up in one shared invocation, followed by an unrelated key, and again using invocations of their own. A lookup that doesn't end, or that ends the process, is attributed to its case. ` +
			`Non-trivial: a key that is part of the graph; distinct: by files, query and outcome`,
		Enumerate:   c06Enum,
		Check:       c06Check,
		Setup:       setupFS,
		CaseTimeout: 30e9,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`keys`: 3, `variables`: 2, `values per key`: len(c06Vals), `chain`: pick(tier, 257, 1025)}
		},
	}
})
