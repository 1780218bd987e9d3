package props

import (
	"fmt"
	"os"
	"strings"

	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"

	"verif/mc/model"
	"verif/mc/runner"
)

// C25: functions that are consulted without a configuration

// c25Tops are the functions. f, g, and o are functions of the user. o only has options, and a does other lookups
var c25Tops = []string{`config`, `module`, `env`, `scope`, `yaml`, `f`, `g`, `o`, `a`}

var c25Keys = []string{`k`, `h`, `h.x`, `h.deep.b`, `arr`, `arr.0`, `env`, `env.C25V`, `env::C25V`, `env::C25REF`, `env::C25EMPTY`, `env::C25NUM`, `env::MISSING`, `env::`, `env::C25EQ`, `env::A::B`, `env::c25v`, `C25V`,
	`ref`, `fails`, `nil`, `m::k`, `m::arr`, `secret`, `none`, `both`, `envref`, `lookup_options`, `h.nope`, `num`, `k.x`, `sh`, `ol`, `oh`}

var c25Merges = []model.Val{nil, `first`, `unique`, `hash`, `deep`, `bogus`}

type c25Case struct {
	Top  []int
	Solo bool  // the function is used without a mux
	File bool  // the file of the function yaml exists
	Keys []int `json:",omitempty"` // those that are looked up in the same session, in order. All when it's empty
}

func c25Enum(tier string, yield func(interface{}) bool) {
	for i := range c25Tops {
		for _, file := range []bool{true, false} {
			if !yield(c25Case{Top: []int{i}, Solo: true, File: file}) {
				return
			}
		}
	}
	if !sequences(len(c25Tops), 0, pick(tier, 3, 4), func(ix []int) bool {
		return yield(c25Case{Top: ix, File: true}) && (len(ix) > 2 || yield(c25Case{Top: ix}))
	}) {
		return
	}
	if tier != `thorough` && !sequences(len(c25Tops), 4, 4, func(ix []int) bool {
		return yield(c25Case{Top: ix, File: true, Keys: []int{0, 1, 4, 7, 21, 23, 25, 32}})
	}) {
		return
	}
	// long ones
	for _, n := range sizes(pick(tier, 257, 2049)) {
		for a := range c25Tops {
			for b := range c25Tops {
				if c25Tops[a] == `a` && n > 20 {
					continue // each does lookups that use all of them
				}
				top := make([]int, n)
				for i := range top {
					top[i] = a
				}
				top[n-1] = b
				if !yield(c25Case{Top: top, File: true, Keys: []int{0, 1, 4, 7, 11, 23, 25, (a + b + n) % len(c25Keys)}}) {
					return
				}
			}
		}
	}
}

func c25World(c c25Case) *build {
	b := newBuild()
	w := b.world
	for _, t := range c.Top {
		w.Top = append(w.Top, c25Tops[t])
	}
	w.Mux = !c.Solo
	w.Env = map[string]string{`C25V`: `ev`, `C25REF`: `%{lookup('k')}-%{v}`, `C25EMPTY`: ``, `C25NUM`: `12`, `C25EQ`: `a=b=c`, `A::B`: `colons`, `k`: `env k`, `HIERA`: `x`}
	b.scope = model.NewM(`v`, `V`, `k`, `sk`, `h`, model.NewM(`s`, 1, `x`, `s`, `deep`, model.NewM(`a`, `s`)), `arr`, model.List{`s`, `x`}, `env::C25V`, `scoped`, `nil`, nil, `ref`, `%{v}`, `sh`, model.NewM(`v`, `%{v}`),
		`num`, `13`, `both`, model.List{`s`})
	if c.File {
		w.Single = model.NewM(`k`, `yk`, `h`, model.NewM(`y`, 1, `x`, `y`, `deep`, model.NewM(`b`, `y`)), `arr`, model.List{`y`, `x`, `y`}, `ref`, `%{lookup('h.x')}`, `num`, `14`, `lookup_options`, model.NewM(`k`, model.NewM(`merge`, `bogus`)),
			`nil`, nil, `both`, model.List{`y`, `s`}, `envref`, `%{lookup('env::C25V')}`, `secret`, `ys`)
		b.files[`single.yaml`] = model.Flow(w.Single)
	}
	b.data(`data/common.yaml`, model.NewM(`k`, `ck`, `h`, model.NewM(`c`, 1, `x`, `c`, `deep`, model.NewM(`c`, `c`)), `arr`, model.List{`c`, `c`, `x`}, `env::C25V`, `configured`, `m::arr`, model.List{`c`}, `secret`, `cs`, `ol`, model.NewM(`merge`, `deep`, `c`, 1), `oh`, model.NewM(`convert_to`, `string`), `env`, model.NewM(`C25V`, `configured`),
		`lookup_options`, model.NewM(`arr`, model.NewM(`merge`, `unique`), `env::C25NUM`, model.NewM(`convert_to`, `int`), `secret`, model.NewM(`convert_to`, `Sensitive`), `env`, model.NewM(`merge`, `hash`), `both`, model.NewM(`merge`, `deep`))))
	b.config(`hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `c`, Loc: &model.Loc{Kind: `path`, S: []string{`common.yaml`}}}}})
	b.data(`mods/m/data/common.yaml`, model.NewM(`m::k`, `mk %{lookup('k')}`, `m::arr`, model.List{`m`, `c`}, `k`, `bad`, `lookup_options`, model.NewM(`m::arr`, model.NewM(`merge`, `unique`), `h`, model.NewM(`merge`, `bogus`))))
	b.config(`mods/m/hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `c`, Loc: &model.Loc{Kind: `path`, S: []string{`common.yaml`}}}}})
	w.ModulePath = []string{theFS.path(`mods`)}
	w.TopFns = map[string]model.TopFn{
		`f`: {Data: model.NewM(`k`, `fk`, `h`, model.NewM(`f`, 1, `x`, `f`, `deep`, model.NewM(`a`, `f`, `b`, `f`)), `arr`, model.List{`f`, `s`}, `nil`, nil, `ref`, `%{lookup('arr.0')}`, `both`, model.NewM(`f`, 1), `none`, `f`, `ol`, model.NewM(`merge`, `hash`, `f`, model.List{2})),
			Options: model.NewM(`h`, model.NewM(`merge`, `deep`), `num`, model.NewM(`convert_to`, `int`))},
		`g`: {Data: model.NewM(`arr`, model.List{`g`, model.List{`s`}}, `env::C25V`, `g`, `m::k`, `gm`, `secret`, `gs`, `num`, `15`, `h`, `not a hash`),
			Fail: map[string]string{`fails`: `g says no`}},
		`a`: {Data: model.NewM(`ol`, model.NewM(`a`, 1, `merge`, `unique`), `arr`, model.List{`a`}), Asks: map[string]string{`ol`: `k`, `oh`: `nil`, `arr`: `h`, `m::arr`: `k`, `both`: `nil`}},
		`o`: {Options: model.NewM(`h`, model.NewM(`merge`, `hash`), `arr`, model.NewM(`merge`, model.NewM(`strategy`, `deep`)), `k`, model.NewM(`merge`, `unique`), `secret`, model.NewM(`merge`, `unique`), `m::arr`, model.NewM(`merge`, `first`), `env::C25V`, model.NewM(`merge`, `unique`))},
	}
	return b
}

func c25Check(w *runner.W, ci interface{}) {
	c := ci.(c25Case)
	b := c25World(c)
	theFS.set(b.files)
	for _, e := range os.Environ() {
		if i := strings.IndexByte(e, '='); i > 0 {
			n, v := e[:i], e[i+1:]
			must(os.Unsetenv(n))
			defer func() { must(os.Setenv(n, v)) }()
		}
	}
	for n, v := range b.world.Env {
		must(os.Setenv(n, v))
		n := n
		defer func() { must(os.Unsetenv(n)) }()
	}
	opts := b.options()
	opts[`path`] = theFS.path(`single.yaml`)
	top := provider.MuxLookupKey
	if c.Solo {
		switch t := b.world.Top[0]; t {
		case `config`:
			top = provider.ConfigLookupKey
		case `module`:
			top = provider.ModuleLookupKey
			b.world.Mux = true
		case `env`:
			top = provider.Environment
		case `scope`:
			top = provider.ScopeLookupKey
		case `yaml`:
			top = provider.YamlLookupKey
		default:
			top = topFunction(b.world.TopFns[t])
		}
	}
	keys := c.Keys
	if len(keys) == 0 {
		for i := range c25Keys {
			keys = append(keys, i)
		}
	}
	withSession(top, opts, func(s api.Session) {
		shared := s.Invocation(b.dgoScope(), nil)
		for _, k := range keys {
			for _, m := range c25Merges {
				if c.Solo && m == `bogus` {
					continue // might have no use for it
				}
				q := query{Key: c25Keys[k], Merge: m}
				want := q.model(b.world)
				w.Outcome(len(c.Top), c.Top[:min(len(c.Top), 4)], c.Top[max(0, len(c.Top)-1):], c.Solo, c.File, q, want)
				for _, iv := range []api.Invocation{s.Invocation(b.dgoScope(), nil), shared} {
					w.Eval(1)
					if got := q.impl(iv); got.class() != want.class() {
						w.Fail("lookup %s using %s (on its own: %t)\n got: %s\nwant: %s\n%s", q, b.world.Top, c.Solo, got, want, b.describe())
						return
					}
				}
			}
		}
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C25`,
		Level: `exploration`,
		Rule: fmt.Sprintf(`All sequences of up to three (with seven of the keys: four; thorough: four) of %d lookup functions (the configuration, modules, the environment, the scope, a single file, and functions of the user of which two have lookup options and one fails, and one does lookups of its own) in a mux, and each of them on its own. All of %d keys are looked up with all of %d merge options, in new and shared invocations. `, len(c25Tops), len(c25Keys), len(c25Merges)) +
			`Sequences of many sizes up to 257 (thorough: 2049), where all functions but the last are the same, for all pairs of functions. Distinct: by functions, query, and outcome`,
		Assumptions: []string{
			`functions that have values find no lookup options, unless they are asked for them: what a function of the user returns for a key when lookup options are wanted is taken for the options of that key`,
		},
		Enumerate: c25Enum,
		Check:     c25Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`functions`: pick(tier, 3, 4), `kinds of functions`: len(c25Tops), `keys`: len(c25Keys), `merge options`: len(c25Merges), `functions in long sequences`: pick(tier, 257, 2049)}
		},
	}
})
