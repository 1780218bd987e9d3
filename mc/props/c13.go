package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"verif/mc/model"
	"verif/mc/runner"
)

// C13: modules

// c13Mods are the ways in which a module can be present in a directory of the module path
var c13Mods = []string{``, `m`, `M`, `m/no config`, `m/file`, `m/config is a directory`, `m/default config`, `mm`, `m+mm`, `M+MM`, `m/empty hierarchy`}

// c13Tops are the functions that are consulted. A single name that starts with ! is used without a mux
var c13Tops = [][]string{{`module`}, {`config`, `module`}, {`module`, `config`}, {`!module`}, {`!config`}, {`config`}, {`module`, `env`, `config`}, {`scope`, `module`}, {`module`, `module`}, {`config`, `module`, `scope`}, {`module`, `scope`, `env`}}

var c13Queries = []query{
	{Key: `m::k`}, {Key: `M::k`}, {Key: `mm::k`}, {Key: `m::sub::k`}, {Key: `m::`}, {Key: `::k`}, {Key: `k`}, {Key: `m:k`},
	{Key: `m::h.a`}, {`m::h`, `hash`}, {Key: `m::arr`}, {`m::arr`, `first`}, {Key: `mm::arr`}, {Key: `arr`}, {Key: `other::k`},
	{Key: `m::ref`}, {Key: `m::ali`}, {Key: `cref`}, {Key: `..::k`}, {Key: `M::arr`}, {Key: `m::vis`}, {Key: `mm::h`}, {Key: `lookup_options`},
	{Key: `Mm::k`}, {`m::arr`, `deep`}, {Key: `m::hopt`}, {Key: `m::nil`}, {Key: `m`},
}

type c13Case struct {
	Top   int
	Dirs  []int // how the modules are present in each directory of the module path
	First int   // the query made before all other ones
	Quiet bool  // the module path isn't set
	Path  int   `json:",omitempty"` // 1 when the module path also has empty elements and directories that don't exist, 2 when it's relative to the current directory
}

func c13Enum(tier string, yield func(interface{}) bool) {
	for top := range c13Tops {
		for _, n := range sizes(pick(tier, 66, 260)) {
			for _, at := range [][]int{{n - 1}, {n / 2, n - 1}, {0, n - 1}} {
				for mod := 1; mod < len(c13Mods); mod += 5 {
					dirs := make([]int, n)
					for _, i := range at {
						dirs[i] = mod
					}
					if !yield(c13Case{Top: top, Dirs: dirs, First: n % len(c13Queries)}) {
						return
					}
				}
			}
		}
	}
	for top := range c13Tops {
		if !yield(c13Case{Top: top, Quiet: true}) {
			return
		}
		if !sequences(len(c13Mods), 0, pick(tier, 2, 3), func(ix []int) bool {
			step := 1
			switch {
			case len(ix) > 2:
				step = len(c13Queries)
			case len(ix) == 2 && tier == `quick`:
				step = 5
			}
			for f := 0; f < len(c13Queries); f += step {
				if !yield(c13Case{Top: top, Dirs: ix, First: f}) {
					return false
				}
			}
			for p := 1; p < 3; p++ {
				if !yield(c13Case{Top: top, Dirs: ix, First: (top + len(ix)*5 + p) % len(c13Queries), Path: p}) {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
}

// c13Data is what a module has, including a lot that it shouldn't have
func c13Data(n, tag string) *model.M {
	other := `mm`
	if n == `mm` {
		other = `m`
	}
	m := model.NewM(
		n+`::k`, tag+`k`, `k`, tag+`bad`, other+`::k`, tag+`bad`, strings.ToUpper(n)+`::k`, tag+`upper`, n+`::sub::k`, tag+`sub`, n+`::`, tag+`empty`, `::k`, tag+`bad`,
		n+`:k`, tag+`bad`, n+`::h`, model.NewM(`a`, tag, tag, 1), n+`::arr`, model.List{tag, `x`}, `arr`, model.List{`bad`}, other+`::arr`, model.List{`bad`}, `other::k`, `bad`,
		n+`::ref`, tag+`-%{lookup('`+other+`::k')}-%{lookup('k')}`, n+`::ali`, `%{alias('`+other+`::h')}`, `..::k`, `bad`, strings.ToUpper(n)+`::arr`, model.List{tag, `u`},
		n+`::vis`, `%{mvar}`, n+`::hopt`, model.NewM(`x`, model.List{tag}), n+`::nil`, nil, n, `bad`,
		`lookup_options`, model.NewM(
			n+`::arr`, model.NewM(`merge`, `unique`), `arr`, model.NewM(`merge`, `deep`), other+`::arr`, model.NewM(`merge`, `first`),
			`k`, model.NewM(`merge`, `unique`), n+`::hopt`, model.NewM(`merge`, `deep`, `convert_to`, `Sensitive`), n+`::h`, model.NewM(`merge`, `hash`),
			`other::k`, model.NewM(`merge`, `bogus`), `m`, model.NewM(`merge`, `bogus`), strings.ToUpper(n)+`::arr`, model.NewM(`convert_to`, `Sensitive`)))
	return m
}

func c13World(c c13Case) *build {
	b := newBuild()
	b.scope = model.NewM(`mvar`, `mv`, `k`, `scoped`, `m::k`, `scopedm`)
	b.data(`data/common.yaml`, model.NewM(`k`, `ck`, `m::k`, `cmk`, `arr`, model.List{`c`, `c`}, `m::arr`, model.List{`c`, `x`, `c`}, `mm::arr`, model.List{`cm`},
		`cref`, `%{lookup('m::k')}+%{lookup('M::k')}`, `m::h`, model.NewM(`a`, `c`, `c`, 1), `m::hopt`, model.NewM(`x`, model.List{`c`}), `other::k`, `ok`, `::k`, `cc`,
		`lookup_options`, model.NewM(`mm::arr`, model.NewM(`merge`, `unique`), `m::arr`, model.NewM(`merge`, model.NewM(`strategy`, `unique`)))))
	b.config(`hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `c`, Loc: &model.Loc{Kind: `path`, S: []string{`common.yaml`}}}}})
	if c.Path == 1 {
		for _, n := range []string{`m`, `mm`} {
			b.files[`cwd/`+n+`/hiera.yaml`] = "version: 5\n"
			b.files[`cwd/`+n+`/data/common.yaml`] = n + "::k: bad\n" + n + "::arr: [bad]\n"
		}
	}
	top := c13Tops[c.Top]
	b.world.Mux = top[0] != `!config`
	b.world.Top = []string{strings.TrimPrefix(top[0], `!`)}
	b.world.Top = append(b.world.Top, top[1:]...)
	for i, d := range c.Dirs {
		dir := fmt.Sprintf(`mods%d`, i)
		b.world.ModulePath = append(b.world.ModulePath, theFS.path(dir))
		add := func(name string) {
			n := strings.ToLower(name)
			p := dir + `/` + name + `/`
			data := c13Data(n, fmt.Sprintf(`%s%d`, n, i))
			lo := data
			if i == 0 {
				// spread over two files
				lo = model.NewM(`lookup_options`, model.NewM(n+`::arr`, model.NewM(`merge`, `deep`), n+`::extra`, model.NewM(`merge`, `first`)), n+`::arr`, model.List{`two`})
			}
			b.data(p+`data/%{mvar}.yaml`, model.NewM(n+`::k`, `not interpolated`))
			b.data(p+`data/mv.yaml`, data)
			b.data(p+`data/two.yaml`, lo)
			b.config(p+`hiera.yaml`, &model.Config{Hierarchy: []model.Entry{
				{Name: `a`, Loc: &model.Loc{Kind: `path`, S: []string{`%{mvar}.yaml`}}}, {Name: `b`, Loc: &model.Loc{Kind: `path`, S: []string{`two.yaml`}}}}})
		}
		switch k := c13Mods[d]; k {
		case ``:
			b.files[dir+`/x/hiera.yaml`] = "version: 5\n"
		case `m/no config`:
			b.data(dir+`/m/data/common.yaml`, c13Data(`m`, `noconfig`))
			b.data(dir+`/m/data.yaml`, c13Data(`m`, `noconfig`))
		case `m/file`:
			b.files[dir+`/m`] = "version: 5\n"
		case `m/config is a directory`:
			b.files[dir+`/m/hiera.yaml/data/common.yaml`] = "m::k: bad\n"
		case `m/default config`:
			b.config(dir+`/m/hiera.yaml`, &model.Config{})
			b.data(dir+`/m/data/common.yaml`, c13Data(`m`, fmt.Sprintf(`m%d`, i)))
		case `m/empty hierarchy`:
			b.config(dir+`/m/hiera.yaml`, &model.Config{Hierarchy: []model.Entry{}})
		default:
			for _, n := range strings.Split(k, `+`) {
				add(n)
			}
		}
	}
	return b
}

// c13Options checks the options that the configuration of each module gives directly. A module gives options for nothing
// but its own keys
func c13Options(w *runner.W, b *build) bool {
	ok := true
	b.session(func(s api.Session) {
		for path := range b.world.Configs {
			dir := filepath.Dir(path)
			mod := strings.ToLower(filepath.Base(dir))
			if filepath.Dir(dir) == theFS.path(`.`) || mod != `m` && mod != `mm` {
				continue
			}
			iv := s.Invocation(b.dgoScope(), nil)
			cx := model.NewCtx(b.world)
			for _, r := range []string{`m::arr`, `mm::arr`, `m`, `mm`, `arr`, `k`, `M::arr`, `m::hopt`, `m::extra`, `mm::extra`, `other::k`, `m::nope`, `mm::h`} {
				w.Eval(1)
				want := modelOutcome(cx.ConfigOptions(path, mod, r))
				got := catch(func() dgo.Value {
					if o := iv.Config(path, mod).LookupOptions(api.NewKey(r)); o != nil {
						return o
					}
					return nil
				})
				if got.class() != want.class() {
					w.Fail("options that module %s, in %s, gives for %s\n got: %s\nwant: %s\n%s", mod, dir, r, got, want, b.describe())
					ok = false
					return
				}
			}
		}
	})
	return ok
}

func c13Check(w *runner.W, ci interface{}) {
	c := ci.(c13Case)
	b := c13World(c)
	theFS.set(b.files)
	opts := b.options()
	if !c.Quiet && len(c.Dirs) == 0 {
		opts[provider.ModulePath] = ``
	}
	if c.Path > 0 {
		sep := string(filepath.ListSeparator)
		old, err := os.Getwd()
		must(err)
		defer func() { must(os.Chdir(old)) }()
		if c.Path == 1 {
			// modules in the current directory aren't modules
			must(os.Chdir(theFS.path(`cwd`)))
			mp := sep
			for _, d := range b.world.ModulePath {
				mp += theFS.path(`missing`) + sep + d + sep + sep
			}
			opts[provider.ModulePath] = mp
		} else {
			must(os.Chdir(theFS.path(`data`)))
			var mp []string
			for i := range b.world.ModulePath {
				mp = append(mp, fmt.Sprintf(`..%cmods%d`, filepath.Separator, i))
			}
			opts[provider.ModulePath] = strings.Join(mp, sep)
		}
	}
	top := sdk.LookupKey(nil)
	switch {
	case c13Tops[c.Top][0] == `!module`:
		top = provider.ModuleLookupKey
	case !b.world.Mux:
		top = provider.ConfigLookupKey
	default:
		top = provider.MuxLookupKey
	}
	withSession(top, opts, func(s api.Session) {
		shared := s.Invocation(b.dgoScope(), nil)
		if c.First == 0 && !c13Options(w, b) {
			return
		}
		for i := -1; i < len(c13Queries); i++ {
			q := c13Queries[c.First]
			if i >= 0 {
				q = c13Queries[i]
			}
			want := q.model(b.world)
			w.Outcome(b.describe(), q, want)
			for _, iv := range []api.Invocation{s.Invocation(b.dgoScope(), nil), shared} {
				w.Eval(1)
				if got := q.impl(iv); got.class() != want.class() {
					w.Fail("lookup %s (first was %s)\n got: %s\nwant: %s\n%s", q, c13Queries[c.First], got, want, b.describe())
					return
				}
			}
		}
	})
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C13`,
		Level: `exploration`,
		Rule:  `All module paths of up to two (thorough: three) directories, in each of which the modules are present in one of eleven ways, with eleven arrangements of top functions. In each world all queries are made, in new and shared invocations, after each of the queries; module paths with empty elements, missing directories, and relative ones; module paths of up to 65 (thorough: 257) directories where the module is in the last one, or in the last one and another. Modules have lots of data and options that they should not provide.`,
		Assumptions: []string{
			`a directory in the module path doesn't have two modules with names that only differ in case`,
			`a module without a configuration doesn't hide one that has a configuration and comes later in the module path`,
		},
		Enumerate: c13Enum,
		Check:     c13Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`directories in module path`: pick(tier, 2, 3), `ways to be present`: len(c13Mods), `top functions`: len(c13Tops), `queries`: len(c13Queries)}
		},
	}
})
