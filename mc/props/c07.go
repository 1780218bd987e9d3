package props

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"

	"verif/mc/model"
	"verif/mc/runner"
)

// C07: histories of lookups

type c07Op struct {
	name string
	q    query
	f    func(iv api.Invocation) dgo.Value // used instead of the query when not nil
	sess func(s api.Session, scope interface{}) dgo.Value
}

var c07Ops = []c07Op{
	{q: query{Key: `plain`}},
	{q: query{Key: `h`}},
	{q: query{`h`, `deep`}},
	{q: query{`h`, `first`}},
	{q: query{`h.x`, `hash`}},
	{q: query{`h`, `bogus`}},
	{q: query{Key: `arr`}},
	{q: query{`arr`, `deep`}},
	{q: query{Key: `ali`}},
	{q: query{Key: `sens`}},
	{q: query{Key: `bad`}},
	{q: query{Key: `cyc`}},
	{q: query{Key: `fnfail`}},
	{q: query{Key: `fnkey`}},
	{q: query{Key: `dig.a`}},
	{q: query{Key: `vs`}},
	{q: query{Key: `m::k`}},
	{q: query{Key: `M::k`}},
	{q: query{Key: `m::h`}},
	{q: query{Key: `broken::k`}},
	{q: query{Key: `nomod::k`}},
	{q: query{Key: `np::k`}},
	{q: query{Key: `fm::k`}},
	{q: query{Key: `vm::k`}},
	{q: query{Key: `missing`}},
	{q: query{Key: `lookup_options`}},
	{q: query{Key: `env::C07VAR`}},
	{q: query{Key: `a..b`}},
	{name: `explained`, sess: func(s api.Session, scope interface{}) dgo.Value {
		return hiera.Lookup(s.Invocation(scope, explain.NewExplainer(true, false)), `ali`, nil, nil)
	}},
	{name: `options explained`, sess: func(s api.Session, scope interface{}) dgo.Value {
		return hiera.Lookup(s.Invocation(scope, explain.NewExplainer(true, true)), `sens`, nil, nil)
	}},
	{name: `all`, f: func(iv api.Invocation) dgo.Value {
		return hiera.LookupAll(iv, []string{`arr`, `missing`, `h`, `vs`}, nil, vf.Map(`vs`, `o`), vf.Map(`missing`, `d`), vf.Map(`merge`, `unique`))
	}},
	{name: `default of a bad type`, f: func(iv api.Invocation) dgo.Value {
		return hiera.Lookup2(iv, []string{`missing`, `nomod::k`}, typ.Integer, vf.String(`notint`), nil, nil, nil, nil)
	}},
	{name: `default`, f: func(iv api.Invocation) dgo.Value {
		return hiera.Lookup2(iv, []string{`missing`, `vs`}, typ.String, nil, nil, vf.Map(`missing`, 1), nil, nil)
	}},
	{name: `in another scope`, f: c07Scoped(`ws`)},
	{name: `failure in another scope`, f: c07Scoped(`fnfail`)},
	{q: query{Key: `ws`}},
	{q: query{Key: `lk`}},
	{q: query{Key: `al`}},
	{q: query{Key: `so`}},
}

// c07Scoped makes a lookup while the invocation has a scope that says something else about a variable that doesn't
// decide where data is
func c07Scoped(key string) func(iv api.Invocation) dgo.Value {
	return func(iv api.Invocation) (v dgo.Value) {
		iv.DoWithScope(vf.Map(`v`, iv.Scope().Get(`v`), `list`, iv.Scope().Get(`list`), `w`, `inner`), func() { v = hiera.Lookup(iv, key, nil, nil) })
		return
	}
}

// repair is the operation that makes a broken configuration usable
const c07Repair = -1

type c07Step struct {
	Op int
	Iv int // 0: fresh, 1: shared, 2: shared with variables of its own
}

type c07Case struct {
	World string
	Steps []c07Step `json:",omitempty"`
	Size  int       `json:",omitempty"` // number of keys, variables, and modules
}

func (s c07Step) String() string {
	if s.Op == c07Repair {
		return `repair`
	}
	o := c07Ops[s.Op]
	n := o.name
	if n == `` {
		n = o.q.String()
	}
	return fmt.Sprintf(`%s@%d`, n, s.Iv)
}

func c07Enum(tier string, yield func(interface{}) bool) {
	var full, one []c07Step
	for o := range c07Ops {
		for iv := 0; iv < 3; iv++ {
			full = append(full, c07Step{o, iv})
		}
		one = append(one, c07Step{o, 1})
	}
	emit := func(world string, al []c07Step, l int) bool {
		return sequences(len(al), l, l, func(ix []int) bool {
			steps := make([]c07Step, l)
			for i, x := range ix {
				steps[i] = al[x]
			}
			return yield(c07Case{World: world, Steps: steps})
		})
	}
	rep := []c07Step{{c07Repair, 0}}
	brk := append(append([]c07Step{}, rep...), one...)
	// long histories
	for _, wd := range []string{`many keys`, `many variables`, `many modules`, `many invocations`} {
		for _, n := range sizes(pick(tier, 130, 1100)) {
			if !yield(c07Case{World: wd, Size: n}) {
				return
			}
		}
	}
	for _, wd := range []string{`config`, `mux`, `modfirst`} {
		for stride := 1; stride <= pick(tier, 8, 90); stride++ {
			var steps []c07Step
			for i := 0; i < pick(tier, 400, 2000); i++ {
				steps = append(steps, full[(i*stride+i/len(full))%len(full)])
			}
			if !yield(c07Case{World: wd, Steps: steps}) {
				return
			}
		}
	}
	// the shortest histories first
	for _, wd := range []string{`config`, `mux`, `modfirst`} {
		if !emit(wd, full, 2) || !emit(wd, one, 3) {
			return
		}
	}
	if !emit(`broken`, append(append([]c07Step{}, rep...), full...), 2) || !emit(`broken`, brk, 3) {
		return
	}
	if tier == `thorough` {
		for _, wd := range []string{`mux`, `config`, `broken`} {
			if !emit(wd, full, 3) {
				return
			}
		}
		if !emit(`mux`, one, 4) || !emit(`broken`, brk, 4) {
			return
		}
	} else {
		// some of the operations, more steps
		var few []c07Step
		for _, o := range []int{1, 3, 6, 8, 11, 12, 16, 19, 22} {
			few = append(few, c07Step{o, 1})
		}
		if !emit(`mux`, few, 4) || !emit(`broken`, append(rep, few...), 4) {
			return
		}
	}
}

func c07World(world string) *build {
	b := newBuild()
	b.scope = model.NewM(`v`, `session`, `w`, `outer`, `loop`, `%{loop}`, `list`, model.List{`p`, `q`})
	b.world.Env = map[string]string{`C07VAR`: `envval`}
	opts := model.NewM(`h`, model.NewM(`merge`, `deep`), `sens`, model.NewM(`convert_to`, `sensitive`), `bad`, model.NewM(`convert_to`, `int`))
	b.data(`data/one.yaml`, model.NewM(`plain`, `p1`, `h`, model.NewM(`x`, `%{v}`, `n`, model.NewM(`a`, 1)), `arr`, model.List{1, 2, 2}, `ali`, `%{alias('h')}`, `sens`, `secret`, `bad`, `notint`,
		`cyc`, `%{lookup('cyc2')}`, `vs`, `<%{v}>`, `ws`, `<%{w}>`, `lk`, `[%{lookup('vs')}]`, `al`, `%{alias('vs')}`, `m::k`, `from config`, `lookup_options`, opts))
	b.data(`data/two.yaml`, model.NewM(`plain`, `p2`, `h`, model.NewM(`y`, 2, `n`, model.NewM(`b`, 2)), `arr`, model.List{2, 3}, `cyc2`, `%{alias('cyc')}`,
		`lookup_options`, model.NewM(`arr`, model.NewM(`merge`, `unique`))))
	b.fn(`fk`, `lookup_key`, func(_ *model.Ctx, opts *model.M, key string) model.Found {
		switch key {
		case `fnkey`:
			return model.Found{V: model.List{`F`, `%{v}`}, OK: true}
		case `fnfail`:
			panic(&model.Err{Kind: `fn`, Msg: `failure of function`})
		}
		return model.NotFound
	})
	b.fn(`fd`, `data_dig`, func(_ *model.Ctx, opts *model.M, key string) model.Found {
		if key == `dig` {
			return model.Found{V: model.NewM(`a`, `dug`), OK: true}
		}
		return model.NotFound
	})
	b.data(`data/of_session.yaml`, model.NewM(`so`, model.List{1, 1, 2}, `lookup_options`, model.NewM(`so`, model.NewM(`merge`, `unique`), `m::k`, model.NewM(`convert_to`, `sensitive`))))
	b.data(`data/of_other.yaml`, model.NewM(`so`, model.List{3, 3}, `lookup_options`, model.NewM(`so`, model.NewM(`convert_to`, `string`), `vs`, model.NewM(`convert_to`, `sensitive`))))
	cfg := &model.Config{Hierarchy: []model.Entry{
		{Name: `of`, Loc: &model.Loc{Kind: `path`, S: []string{`of_%{v}.yaml`}}},
		{Name: `y`, Loc: &model.Loc{Kind: `paths`, S: []string{`one.yaml`, `none.yaml`}}},
		{Name: `f`, Kind: `lookup_key`, Func: `fk`},
		{Name: `d`, Kind: `data_dig`, Func: `fd`},
		{Name: `t`, Loc: &model.Loc{Kind: `mapped_paths`, S: []string{`list`, `v`, `%{v}.yaml`}}},
		{Name: `z`, Loc: &model.Loc{Kind: `glob`, S: []string{`tw*.yaml`}}},
	}}
	b.config(`hiera.yaml`, cfg)
	loc := func(s string) *model.Config {
		return &model.Config{Hierarchy: []model.Entry{{Name: `x`, Loc: &model.Loc{Kind: `path`, S: []string{s}}}}}
	}
	b.config(`modules/m/hiera.yaml`, loc(`m.yaml`))
	b.data(`modules/m/data/m.yaml`, model.NewM(`m::k`, `from module`, `m::h`, model.NewM(`x`, `%{alias('m::k')}`), `lookup_options`, model.NewM(`m::h`, model.NewM(`merge`, `deep`), `h`, model.NewM(`merge`, `first`))))
	b.config(`modules/broken/hiera.yaml`, loc(`m.yaml`))
	b.files[`modules/broken/hiera.yaml`] = "version: 5\nhierarchy: 3\n"
	b.world.Bad[theFS.path(`modules/broken/hiera.yaml`)] = true
	b.config(`modules/np/hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `x`, Kind: `lookup_key`, Func: `no_such_plugin`}}})
	b.config(`modules/fm/hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `x`, Loc: &model.Loc{Kind: `mapped_paths`, S: []string{`list`, `v`, `%{v}%{loop}.yaml`}}}}})
	b.config(`modules/vm/hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `x`, Loc: &model.Loc{Kind: `mapped_paths`, S: []string{`list`, `v`, `%{v}.yaml`}}}}})
	b.data(`modules/vm/data/q.yaml`, model.NewM(`vm::k`, `>%{v}`))
	b.world.ModulePath = []string{theFS.path(`modules`), theFS.path(`nomodules`)}
	b.world.Mux = world != `config`
	switch world {
	case `modfirst`:
		b.world.Top = []string{`module`, `config`, `env`}
	case `config`:
	default:
		b.world.Top = []string{`config`, `module`, `env`}
	}
	return b
}

type c07Alone struct {
	w   *build
	out map[string]outcome
}

var c07Cache = map[string]*c07Alone{}

func c07Scope(b *build, iv int) *model.M {
	if iv == 2 {
		return b.scope.With(`v`, `other`)
	}
	return b.scope
}

func (s c07Step) run(b *build, ss api.Session, ivs map[int]api.Invocation) outcome {
	o := c07Ops[s.Op]
	scope := model.ToDgo(c07Scope(b, s.Iv))
	if o.sess != nil {
		return catch(func() dgo.Value { return o.sess(ss, scope) })
	}
	iv := ivs[s.Iv]
	if iv == nil {
		iv = ss.Invocation(scope, nil)
		if s.Iv > 0 {
			ivs[s.Iv] = iv
		}
	}
	if o.f != nil {
		return catch(func() dgo.Value { return o.f(iv) })
	}
	return o.q.impl(iv)
}

// c07Size decides a case where each lookup is of something that no earlier lookup was of, and is then made again
func c07Size(w *runner.W, c c07Case) {
	b := newBuild()
	n := c.Size
	common, opts := model.NewM(`vs`, `<%{v}>`, `fromcommon`, `c%{v}`), &model.M{}
	cfg := &model.Config{Hierarchy: []model.Entry{
		{Name: `v`, Loc: &model.Loc{Kind: `paths`, S: []string{`%{v}.yaml`, `sub/%{v}.yaml`}}},
		{Name: `f`, Kind: `lookup_key`, Func: `fk`, Options: model.NewM(`o`, `%{v}`)},
		{Name: `c`, Loc: &model.Loc{Kind: `path`, S: []string{`common.yaml`}}}}}
	b.fn(`fk`, `lookup_key`, func(_ *model.Ctx, opts *model.M, key string) model.Found {
		o, _ := opts.Get(`o`)
		return model.Found{V: model.List{o, key}, OK: key == `opt`}
	})
	var qs []query
	scopes := []*model.M{{}}
	switch c.World {
	case `many keys`, `many invocations`:
		for i := 0; i < n; i++ {
			k := fmt.Sprintf(`k%d`, i)
			common.E = append(common.E, model.KV{K: k, V: []model.Val{i, model.List{i, `%{v}`}, model.NewM(`x`, i, `a`, `%{alias('k0')}`), fmt.Sprintf(`%d%%{lookup('k%d')}`, i, i/2-1), nil}[i%5]})
			if i%7 == 3 {
				opts.E = append(opts.E, model.KV{K: k, V: model.NewM(`convert_to`, `string`)})
			}
			qs = append(qs, query{Key: k})
		}
		qs = append(qs, query{Key: `vs`}, query{Key: `opt`}, query{Key: `opt.1`})
	case `many variables`:
		scopes = nil
		for i := 0; i < n; i++ {
			v := fmt.Sprintf(`s%d`, i)
			scopes = append(scopes, model.NewM(`v`, v))
			f := `data/` + v + `.yaml`
			if i%2 == 1 {
				f = `data/sub/` + v + `.yaml`
			}
			b.data(f, model.NewM(`k`, v, fmt.Sprintf(`own%d`, i), `%{v}`, `common`, model.NewM(v, 1)))
		}
		qs = []query{{Key: `k`}, {Key: `vs`}, {Key: `own0`}, {Key: fmt.Sprintf(`own%d`, n-1)}, {Key: `opt`}, {Key: `fromcommon`}, {`common`, `deep`}}
	case `many modules`:
		b.world.Mux = true
		b.world.Top = []string{`config`, `module`}
		b.world.ModulePath = []string{theFS.path(`modules`)}
		for i := 0; i < n; i++ {
			m := fmt.Sprintf(`m%d`, i)
			b.config(`modules/`+m+`/hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `x`, Loc: &model.Loc{Kind: `path`, S: []string{`m.yaml`}}}}})
			b.data(`modules/`+m+`/data/m.yaml`, model.NewM(m+`::k`, i, m+`::h`, model.NewM(`x`, i), `lookup_options`, model.NewM(m+`::k`, model.NewM(`convert_to`, `string`))))
			qs = append(qs, query{Key: m + `::k`}, query{Key: m + `::h.x`}, query{Key: m + `::nope`})
		}
	}
	b.data(`data/common.yaml`, common.With(`lookup_options`, opts))
	b.config(`hiera.yaml`, cfg)
	b.session(func(s api.Session) {
		ivs := make([]api.Invocation, len(scopes))
		one := func(si int, q query) bool {
			b.scope = scopes[si]
			if ivs[si] == nil || c.World == `many invocations` {
				ivs[si] = s.Invocation(b.dgoScope(), nil)
			}
			got, want := q.impl(ivs[si]), q.model(b.world)
			w.Eval(1)
			if want.OK {
				w.Outcome(c, q, want)
			}
			if got.class() != want.class() {
				w.Fail("%s (%d): lookup %s\n got: %s\nwant: %s\nscope: %s", c.World, n, q, got, want, model.Canon(b.scope))
				return false
			}
			return true
		}
		for round := 0; round < 2; round++ {
			for si := range scopes {
				for _, q := range qs {
					if !one(si, q) {
						return
					}
				}
			}
		}
		for qi := len(qs) - 1; qi >= 0; qi-- {
			for si := range scopes {
				if !one(si, qs[qi]) {
					return
				}
			}
		}
	})
}

func c07Check(w *runner.W, ci interface{}) {
	c := ci.(c07Case)
	if c.Size > 0 {
		c07Size(w, c)
		return
	}
	al := c07Cache[c.World]
	if al == nil {
		al = &c07Alone{c07World(c.World), map[string]outcome{}}
		c07Cache[c.World] = al
	}
	b := al.w
	const good = `hiera.yaml`
	goodText := b.files[good]
	state := func(broken bool) {
		b.files[good] = goodText
		b.world.Bad[theFS.path(good)] = broken
		if broken {
			b.files[good] = "version: 5\nhierarchy: {}\n"
		}
	}
	defer state(false)
	broken := c.World == `broken`
	alone := func(s c07Step) outcome {
		k := fmt.Sprintf(`%s %v`, s, broken)
		o, ok := al.out[k]
		if !ok {
			state(broken)
			b.session(func(ss api.Session) { o = s.run(b, ss, map[int]api.Invocation{}) })
			al.out[k] = o
			if op := c07Ops[s.Op]; op.name == `` {
				// the outcome of a lookup that is made alone must be what the reference says
				outer := b.scope
				b.scope = c07Scope(b, s.Iv)
				want := op.q.model(b.world)
				b.scope = outer
				if o.class() != want.class() {
					w.FailAs(`alone: `+k, "lookup %s, made alone\n got: %s\nwant: %s\n%s", s, o, want, b.describe())
				}
			}
		}
		return o
	}
	want := make([]outcome, len(c.Steps))
	for i, s := range c.Steps {
		if s.Op == c07Repair {
			broken = false
			continue
		}
		want[i] = alone(s)
	}
	broken = c.World == `broken`
	state(broken)
	b.session(func(ss api.Session) {
		ivs := map[int]api.Invocation{}
		var hist []string
		for i, s := range c.Steps {
			hist = append(hist, s.String())
			if s.Op == c07Repair {
				state(false)
				theFS.set(b.files)
				continue
			}
			got := s.run(b, ss, ivs)
			w.Eval(1)
			if got.class() != want[i].class() {
				w.Fail("history: %s\n got: %s\nwant: %s (which is what the last one results in when made alone)\n%s", strings.Join(hist, ` ; `), got, want[i], b.describe())
				return
			}
		}
		w.Outcome(c.World, hist, want[len(want)-1].class())
	})
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C07`,
		Level: `exploration`,
		Rule: `every history of two operations out of 39 kinds (lookups that find, don't find, merge, convert, alias, dig, call functions, use modules, and that fail in every way; explained lookups; lookups with defaults) over three invocations (one made for the operation, one shared, one shared with variables of its own), every history of three in one shared invocation, and longer ones from a smaller set, in three configurations and starting from a broken configuration that is repaired at every possible point; histories of 400 (thorough: 2000) operations; up to 129 (thorough: 1025) different keys, invocations, sets of variables, or modules, each used several times. Every outcome is compared with the outcome of the same operation made alone in a new session, and that with the reference interpreter. ` +
			`Non-trivial: all; distinct: by world, history, and last outcome`,
		Enumerate: c07Enum,
		Check:     c07Check,
		Setup: func(w *runner.W) {
			setupFS(w)
			must(setenv(`C07VAR`, `envval`))
		},
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`operations`: len(c07Ops), `length, all operations and invocations`: pick(tier, 2, 3), `length, one invocation`: pick(tier, 3, 4)}
		},
	}
})
