package props

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"verif/mc/model"
	"verif/mc/runner"
)

// C21: the cache that provider functions share, and their options

// c21Performers are the ways in which a function can get hold of the cache
var c21Performers = []string{`lk`, `dd`, `dh`, `top`, `module`, `options`, `ForData`, `ForLookupOptions`, `ServerContext`, `nested`, `other`, `child`}

var c21Keys = []string{`a`, `b`}

// c21Mutators alter the cache. All performers can do all of them
var c21Mutators = []struct {
	all  bool
	k, v []string
}{
	{false, []string{`a`}, []string{`1`}}, {false, []string{`a`}, []string{`2`}}, {false, []string{`b`}, []string{`1`}}, {false, []string{`b`}, []string{`2`}},
	{true, []string{`a`, `b`}, []string{`1`, `2`}}, {true, []string{`a`}, []string{`3`}}, {true, nil, nil},
}

type c21Op struct{ By, Op int }

type c21Case struct {
	Ops   []c21Op `json:",omitempty"`
	Value int     `json:",omitempty"` // the value that is written by one and read by another
	By    []int   `json:",omitempty"`
	Key   string  `json:",omitempty"`

	Size    int         `json:",omitempty"` // number of entries
	Options *c21Options `json:",omitempty"`
}

type c21Options struct {
	Value, Other    int // index of the values of options o and p, negative when not given
	Kind            string
	Defaults        bool // options are those of defaults
	Both            bool // both have options
	Loc             string
	Mutate          bool
	PathAmongParams bool `json:",omitempty"`
}

var c21Values []dgo.Value

var c21OddKeys = []string{``, ` `, `a b`, `é`, `%{a}`, `a.b`, `a::b`, `lookup_options`, "x\x00y", `HieraConfig:x`, `yaml::other`, `A`}

func init() {
	c21Values = []dgo.Value{
		vf.Nil, vf.False, vf.True, vf.Integer(0), vf.Integer(-1), vf.Float(0), vf.String(``), vf.String(`x`), vf.Values(), vf.Values(1, nil, `x`), vf.Map(), vf.Map(`a`, vf.Map(`b`, 1)),
		vf.Map(1, 2), vf.Sensitive(`s`), vf.Binary([]byte{0, 255}, true), vf.Time(time.Unix(1, 0).UTC()), vf.Value(func(s string) string { return s }), vf.String(`%{a}`), vf.Values(vf.Nil),
		vf.Sensitive(vf.Map(`a`, `b`)), vf.Integer(1 << 62), vf.Float(1.5),
	}
}

// c21OptionValues are the values of options
var c21OptionValues = []model.Val{`text`, ``, `true`, `1`, true, false, 0, 1, -5, 1 << 53, 1.5, 2.0, 0.0, model.List{}, model.List{1, `a`}, model.NewM(`a`, 1), model.NewM(), nil, `%{var}`, `a%{var}b`, model.List{`%{var}`}, model.NewM(`%{var}`, `x`)}

func c21Enum(tier string, yield func(interface{}) bool) {
	for v := range c21Values {
		for w := range c21Performers {
			for r := range c21Performers {
				if !yield(c21Case{Value: v, By: []int{w, r}, Key: `a`}) {
					return
				}
			}
		}
	}
	for _, k := range c21OddKeys {
		for w := range c21Performers {
			for r := range c21Performers {
				if !yield(c21Case{Value: 7, By: []int{w, r}, Key: k}) {
					return
				}
			}
		}
	}
	for _, n := range sizes(pick(tier, 2100, 33000)) {
		for _, by := range [][]int{{0, 1}, {2, 3}, {4, 0}, {9, 4}} {
			if !yield(c21Case{Size: n, By: by}) {
				return
			}
		}
	}
	for _, kind := range []string{`data_hash`, `data_dig`, `lookup_key`} {
		for v := range c21OptionValues {
			for o := -1; o < len(c21OptionValues); o++ {
				if o >= 0 && tier == `quick` && o%3 != v%3 {
					continue
				}
				for _, loc := range []string{``, `path`, `uri`, `glob`} {
					for b := 0; b < 8; b++ {
						if b&3 == 3 || loc == `glob` && kind == `data_dig` {
							continue
						}
						if !yield(c21Case{Options: &c21Options{Value: v, Other: o, Kind: kind, Loc: loc, Defaults: b&1 != 0, Both: b&2 != 0, Mutate: b&4 != 0}}) {
							return
						}
					}
				}
			}
		}
	}
	n := len(c21Performers) * len(c21Mutators)
	max := pick(tier, 3, 3)
	sequences(n, 1, max, func(ix []int) bool {
		ops := make([]c21Op, len(ix))
		for i, x := range ix {
			ops[i] = c21Op{x / len(c21Mutators), x % len(c21Mutators)}
		}
		if len(ix) == 3 && tier == `quick` {
			// in the middle, what one function of each kind does is enough
			if by := ops[1].By; by > 0 && by != 4 && by < 10 {
				return true
			}
		}
		return yield(c21Case{Ops: ops})
	})
	if tier == `thorough` {
		// longer ones with fewer that act
		few := []int{0, 4, 9, 10}
		n = len(few) * len(c21Mutators)
		sequences(n, 4, 4, func(ix []int) bool {
			ops := make([]c21Op, len(ix))
			for i, x := range ix {
				ops[i] = c21Op{few[x/len(c21Mutators)], x % len(c21Mutators)}
			}
			return yield(c21Case{Ops: ops})
		})
	}
}

// c21Env is two sessions with functions that do what they are told
type c21Env struct {
	w          *runner.W
	main, othr api.Session
	by         string
	act        func(sc api.ServerContext)
	calls      int
}

func (e *c21Env) called(by string, pc sdk.ProviderContext) {
	if e.by == by {
		if sc, ok := pc.(api.ServerContext); ok {
			act := e.act
			e.by = ``
			e.calls++
			act(sc)
		}
	}
}

func (e *c21Env) options(tag string) map[string]interface{} {
	fs := vf.Map(
		`lk`, func(pc sdk.ProviderContext, key string) dgo.Value {
			switch key {
			case `lookup_options`:
				e.called(tag+`options`, pc)
			case `n`:
				e.called(tag+`nested`, pc)
			case `k`:
				e.called(tag+`lk`, pc)
			}
			return nil
		},
		`dd`, func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			e.called(tag+`dd`, pc)
			return nil
		},
		`dh`, func(pc sdk.ProviderContext) dgo.Map {
			e.called(tag+`dh`, pc)
			return vf.Map(`other`, 1)
		},
		`mlk`, func(pc sdk.ProviderContext, key string) dgo.Value {
			if key == `m::k` {
				e.called(tag+`module`, pc)
			}
			return nil
		})
	top := func(pc sdk.ProviderContext, key string) dgo.Value {
		if key == `k` {
			e.called(tag+`top`, pc)
		}
		return nil
	}
	return map[string]interface{}{
		api.HieraConfig:             theFS.path(`hiera.yaml`),
		api.HieraFunctions:          fs,
		provider.ModulePath:         theFS.path(`mods`),
		provider.LookupKeyFunctions: []sdk.LookupKey{top, provider.ConfigLookupKey, provider.ModuleLookupKey},
	}
}

// perform lets the given performer do something. It returns the name of the cache that it is expected to use
func (e *c21Env) perform(by string, act func(sc api.ServerContext)) string {
	s, tag, key, cache := e.main, ``, `k`, `main`
	e.by, e.act, e.calls = by, act, 0
	switch by {
	case `module`:
		key = `m::k`
	case `ForData`:
		e.by, e.act = `lk`, func(sc api.ServerContext) { act(sc.ForData()) }
	case `ForLookupOptions`:
		e.by, e.act = `lk`, func(sc api.ServerContext) { act(sc.ForLookupOptions()) }
	case `ServerContext`:
		e.by, e.act = `lk`, func(sc api.ServerContext) { act(sc.Invocation().ServerContext(vf.Map(`x`, 1))) }
	case `nested`:
		e.by = `lk`
		e.act = func(sc api.ServerContext) {
			e.by, e.act, e.calls = `nested`, act, 0
			sc.Invocation().Lookup(api.NewKey(`n`), nil)
		}
	case `other`:
		s, tag, cache = e.othr, `other `, `other`
		e.by = tag + `lk`
	case `child`:
		cache = `child`
		e.by = `lk`
		e.act = func(sc api.ServerContext) {
			e.by, e.act, e.calls = `child lk`, act, 0
			hiera.DoWithParent(sc.Invocation(), provider.MuxLookupKey, e.options(`child `), func(cs api.Session) {
				hiera.Lookup(cs.Invocation(nil, nil), `k`, nil, nil)
			})
		}
	}
	hiera.Lookup(s.Invocation(nil, nil), key, nil, nil)
	e.w.Eval(1)
	if e.calls != 1 {
		e.w.Fail("the function %s was called %d times", by, e.calls)
	}
	return cache
}

func (e *c21Env) run(f func()) {
	theFS.set(map[string]string{
		`hiera.yaml`:        `{"version":5,"hierarchy":[{"name":"1","lookup_key":"lk"},{"name":"2","data_dig":"dd"},{"name":"3","data_hash":"dh"}]}`,
		`mods/m/hiera.yaml`: `{"version":5,"hierarchy":[{"name":"1","lookup_key":"mlk"}]}`,
	})
	withSession(provider.MuxLookupKey, e.options(``), func(s api.Session) {
		withSession(provider.MuxLookupKey, e.options(`other `), func(o api.Session) {
			e.main, e.othr = s, o
			f()
		})
	})
}

// c21Entries returns the entries of the cache, and what's wrong with them
func c21Entries(sc api.ServerContext) (map[string]dgo.Value, string) {
	m := map[string]dgo.Value{}
	bad := ``
	sc.CachedEntries(func(k string, v dgo.Value) {
		if strings.HasPrefix(k, `hiera::`) {
			return // what the built in functions cache
		}
		if _, ok := m[k]; ok {
			bad = `more than one entry for ` + k
		}
		m[k] = v
	})
	return m, bad
}

func c21Same(a, b dgo.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	// Equality of maps doesn't consider order and that of functions and sensitive values is special
	return a == b || a.Equals(b) && fmt.Sprint(a) == fmt.Sprint(b)
}

// c21Observe compares what the given context sees with what the cache should be
func c21Observe(sc api.ServerContext, want map[string]dgo.Value, keys []string) string {
	for _, k := range append([]string{`missing`, ``, `A`}, keys...) {
		v, ok := sc.CachedValue(k)
		wv, wok := want[k]
		if ok != wok || !c21Same(v, wv) {
			return fmt.Sprintf("CachedValue(%q) is %v, %v", k, v, ok)
		}
	}
	m, bad := c21Entries(sc)
	if bad != `` {
		return bad
	}
	if len(m) != len(want) {
		return fmt.Sprintf("entries are %v", m)
	}
	for k, v := range want {
		if !c21Same(m[k], v) {
			return fmt.Sprintf("entries are %v", m)
		}
	}
	return ``
}

// c21CheckSize decides a case where there are many entries, and some with long keys
func c21CheckSize(w *runner.W, c c21Case) {
	e := &c21Env{w: w}
	want := map[string]dgo.Value{}
	var keys []string
	for i := 0; i < c.Size; i++ {
		keys = append(keys, fmt.Sprintf(`key%d`, i))
	}
	long := strings.Repeat(`k`, c.Size)
	keys = append(keys, long, long+`k`)
	e.run(func() {
		see := func(by, what string) {
			var bad string
			e.perform(by, func(sc api.ServerContext) { bad = c21Observe(sc, want, keys) })
			if bad != `` {
				if len(bad) > 300 {
					bad = bad[:300]
				}
				w.Fail("%d entries, after %s, %s sees: %s", len(keys), what, by, bad)
			}
		}
		write, read := c21Performers[c.By[0]], c21Performers[c.By[1]]
		e.perform(write, func(sc api.ServerContext) {
			for i, k := range keys {
				v := vf.Integer(int64(i))
				if old := sc.Cache(k, v); old != nil {
					w.Fail("Cache(%q) returned %v", k, old)
				}
				want[k] = v
			}
		})
		see(read, `entries were written one at a time`)
		see(write, `entries were written one at a time`)
		m := vf.MutableMap()
		for i, k := range keys {
			if i%2 == 0 {
				continue
			}
			keys = append(keys, k+` new`)
			for _, n := range []string{k, k + ` new`} {
				want[n] = vf.String(n)
				m.Put(n, want[n])
			}
		}
		e.perform(read, func(sc api.ServerContext) { sc.CacheAll(m) })
		see(write, `many were written at the same time`)
		see(read, `many were written at the same time`)
		e.perform(write, func(sc api.ServerContext) {
			for _, k := range keys {
				if old := sc.Cache(k, vf.Nil); !c21Same(old, want[k]) {
					w.Fail("Cache(%q) returned %v instead of %v", k, old, want[k])
				}
				want[k] = vf.Nil
			}
		})
		see(read, `all were replaced`)
		want = nil
		see(`other`, `all that`)
		w.Outcome(c.Size, c.By)
	})
}

func c21Check(w *runner.W, ci interface{}) {
	c := ci.(c21Case)
	if c.Options != nil {
		c21CheckOptions(w, *c.Options)
		return
	}
	if c.Size > 0 {
		c21CheckSize(w, c)
		return
	}
	e := &c21Env{w: w}
	caches := map[string]map[string]dgo.Value{`main`: {}, `other`: {}}
	describe := func(n int) string {
		var ss []string
		for _, o := range c.Ops[:n] {
			m := c21Mutators[o.Op]
			ss = append(ss, fmt.Sprintf("%s: all=%v %v %v", c21Performers[o.By], m.all, m.k, m.v))
		}
		return strings.Join(ss, "\n")
	}
	abstract := func() string {
		var ss []string
		for n, m := range caches {
			for k, v := range m {
				ss = append(ss, n+k+v.String())
			}
		}
		sort.Strings(ss)
		return strings.Join(ss, ` `)
	}
	e.run(func() {
		if c.By != nil {
			v := c21Values[c.Value]
			write, read := c21Performers[c.By[0]], c21Performers[c.By[1]]
			first := vf.String(`first`)
			for i, v := range []dgo.Value{first, v, first, v, v, first, v} {
				var old dgo.Value
				all := i == 3 || i > 4
				cn := e.perform(write, func(sc api.ServerContext) {
					if all {
						sc.CacheAll(vf.Map(c.Key, v))
					} else {
						old = sc.Cache(c.Key, v)
					}
				})
				if cn != `child` && all {
					caches[cn][c.Key] = v
				} else if cn != `child` {
					if !c21Same(old, caches[cn][c.Key]) {
						w.Fail("Cache(%q) by %s returned %v instead of %v", c.Key, write, old, caches[cn][c.Key])
					}
					caches[cn][c.Key] = v
				} else if old != nil {
					w.Fail("Cache(%q) by %s returned %v", c.Key, write, old)
				}
				var bad string
				rn := ``
				rn = e.perform(read, func(sc api.ServerContext) {
					want := caches[map[bool]string{true: `other`, false: `main`}[read == `other`]]
					if read == `child` {
						want = nil
					}
					bad = c21Observe(sc, want, []string{c.Key})
				})
				w.Outcome(c.Key, v, rn, write)
				if bad != `` {
					w.Fail("%s wrote %q = %v and %s sees: %s", write, c.Key, v, read, bad)
				}
			}
			return
		}
		for i, o := range c.Ops {
			m := c21Mutators[o.Op]
			by := c21Performers[o.By]
			cache := `main`
			switch by {
			case `other`, `child`:
				cache = by
			}
			if cache == `child` {
				caches[`child`] = map[string]dgo.Value{}
			}
			cur := caches[cache]
			var bad string
			cn := e.perform(by, func(sc api.ServerContext) {
				if bad = c21Observe(sc, cur, c21Keys); bad != `` {
					bad = `before: ` + bad
					return
				}
				if m.all {
					h := vf.MutableMap()
					for j, k := range m.k {
						h.Put(k, m.v[j])
					}
					sc.CacheAll(h)
				} else if old := sc.Cache(m.k[0], vf.String(m.v[0])); !c21Same(old, cur[m.k[0]]) {
					bad = fmt.Sprintf("replaced %v", old)
					return
				}
				for j, k := range m.k {
					cur[k] = vf.String(m.v[j])
				}
				bad = c21Observe(sc, cur, c21Keys)
				// An entry that is there all the time is enumerated also when entries are written meanwhile
				seen := map[string]int{}
				sc.CachedEntries(func(k string, v dgo.Value) {
					seen[k]++
					sc.Cache(k, v)
				})
				for k := range cur {
					if seen[k] != 1 && bad == `` {
						bad = fmt.Sprintf("entry %s is enumerated %d times", k, seen[k])
					}
				}
			})
			if cn != cache {
				panic(cn)
			}
			delete(caches, `child`)
			w.Transition(1)
			w.State(abstract())
			w.Outcome(by, o.Op, abstract())
			if bad != `` {
				w.Fail("%s\nshould be %v, main is %v, other is %v\n%s", bad, cur, caches[`main`], caches[`other`], describe(i+1))
				return
			}
		}
		w.Trace(1)
		// finally, all see the same
		for _, by := range []string{`dh`, `top`, `module`, `other`} {
			want := caches[`main`]
			if by == `other` {
				want = caches[by]
			}
			var bad string
			e.perform(by, func(sc api.ServerContext) { bad = c21Observe(sc, want, c21Keys) })
			if bad != `` {
				w.Fail("finally, %s sees %s\nshould be %v\n%s", by, bad, want, describe(len(c.Ops)))
			}
		}
	})
}

// c21CheckOptions checks what the function of an entry sees of its options
func c21CheckOptions(w *runner.W, o c21Options) {
	b := newBuild()
	b.scope = model.NewM(`var`, `value`)
	opts := model.NewM(`o`, c21OptionValues[o.Value])
	if o.Other >= 0 {
		opts = opts.With(`p`, c21OptionValues[o.Other])
	}
	e := model.Entry{Name: `e`, Kind: o.Kind, Func: `f`}
	cfg := &model.Config{}
	wrong := model.NewM(`o`, `wrong`, `q`, `wrong`)
	switch {
	case o.Defaults:
		cfg.Defaults = &model.Entry{Options: opts}
	case o.Both:
		cfg.Defaults = &model.Entry{Options: wrong}
		e.Options = opts
	default:
		e.Options = opts
	}
	want := (&model.M{})
	for _, x := range opts.E {
		want = want.With(x.K, c21Interpolated(b, x.V))
	}
	switch o.Loc {
	case `path`:
		e.Loc = &model.Loc{Kind: `path`, S: []string{`f-%{var}.yaml`}}
		b.data(`data/f-value.yaml`, &model.M{})
		want = want.With(`path`, theFS.path(`data/f-value.yaml`))
	case `uri`:
		e.Loc = &model.Loc{Kind: `uri`, S: []string{`http://example.com/%{var}?a=b`}}
		want = want.With(`path`, `http://example.com/value?a=b`)
	case `glob`:
		e.Loc = &model.Loc{Kind: `glob`, S: []string{`f-*.yaml`}}
		b.data(`data/f-value.yaml`, &model.M{})
		want = want.With(`path`, theFS.path(`data/f-value.yaml`))
	}
	second := model.Entry{Name: `second`, Kind: o.Kind, Func: `g`, Options: model.NewM(`only`, `second`)}
	third := e
	third.Name, third.Func = `third`, `h`
	cfg.Hierarchy = []model.Entry{e, second, third}
	b.config(`hiera.yaml`, cfg)
	calls := map[string]int{}
	see := func(name string, pc sdk.ProviderContext) {
		calls[name]++
		wm := want
		if name == `g` {
			wm = second.Options
		}
		if bad := c21Accessors(pc, wm); bad != `` {
			w.Fail("function %s in call %d: %s, options should be %s\n%s", name, calls[name], bad, model.Canon(wm), b.describe())
		}
		if o.Mutate {
			// What one function does to its options is not seen by anyone else
			m := pc.OptionsMap()
			for _, f := range []func(){func() { m.Put(`o`, `mutated`) }, func() { m.Put(`new`, 1) }, func() { m.Remove(`o`) }, func() { m.RemoveAll(vf.Values(`o`, `p`)) },
				func() {
					m.EachEntry(func(e dgo.MapEntry) {
						switch v := e.Value().(type) {
						case dgo.Map:
							v.Put(`new`, 1)
						case dgo.Array:
							v.Add(1)
						}
					})
				}} {
				_ = catch(func() dgo.Value { f(); return nil })
			}
		}
	}
	fs := vf.MutableMap()
	for _, n := range []string{`f`, `g`, `h`} {
		n := n
		switch o.Kind {
		case `data_hash`:
			fs.Put(n, func(pc sdk.ProviderContext) dgo.Map { see(n, pc); return vf.Map() })
		case `data_dig`:
			fs.Put(n, func(pc sdk.ProviderContext, key dgo.Array) dgo.Value { see(n, pc); return nil })
		default:
			fs.Put(n, func(pc sdk.ProviderContext, key string) dgo.Value { see(n, pc); return nil })
		}
	}
	theFS.set(b.files)
	withSession(provider.ConfigLookupKey, map[string]interface{}{api.HieraConfig: b.world.ConfigPath, api.HieraFunctions: fs}, func(s api.Session) {
		for i := 0; i < 2; i++ {
			q := query{Key: `k`}
			got := q.impl(s.Invocation(b.dgoScope(), nil))
			w.Eval(1)
			if got.class() != `not found` {
				w.Fail("lookup %s\n%s", got, b.describe())
			}
		}
	})
	w.Outcome(o)
	for _, n := range []string{`f`, `g`, `h`} {
		if calls[n] < 2 {
			w.Fail("function %s is called %d times\n%s", n, calls[n], b.describe())
		}
	}
}

// c21Accessors compares what the accessors for options return with what they should return
func c21Accessors(pc sdk.ProviderContext, want *model.M) string {
	m := pc.OptionsMap()
	got, _ := model.FromDgo(m).(*model.M)
	if got == nil || !model.Equal(got, want) {
		return fmt.Sprintf("OptionsMap() is %v", m)
	}
	names := []string{`nope`, ``}
	for _, e := range want.E {
		names = append(names, e.K.(string))
	}
	for _, n := range names {
		wv, ok := want.Get(n)
		v := pc.Option(n)
		if (v != nil) != ok || ok && !model.Equal(model.FromDgo(v), wv) {
			return fmt.Sprintf("Option(%q) is %v", n, v)
		}
		ws, wok := wv.(string)
		if s, ok := pc.StringOption(n); s != ws || ok != wok {
			return fmt.Sprintf("StringOption(%q) is %v, %v", n, s, ok)
		}
		wb, wok := wv.(bool)
		if x, ok := pc.BoolOption(n); x != wb || ok != wok {
			return fmt.Sprintf("BoolOption(%q) is %v, %v", n, x, ok)
		}
		wi, wok := wv.(int)
		if x, ok := pc.IntOption(n); x != wi || ok != wok {
			return fmt.Sprintf("IntOption(%q) is %v, %v", n, x, ok)
		}
		wf, wok := wv.(float64)
		if x, ok := pc.FloatOption(n); x != wf || ok != wok {
			return fmt.Sprintf("FloatOption(%q) is %v, %v", n, x, ok)
		}
	}
	return ``
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C21`,
		Level: `model_checking`,
		Rule:  `All sequences of operations on the cache made by functions in all of the ways that they can get hold of it, in two sessions and in nested ones, replayed against a model that is one map per session; all values and odd keys written by one and read by another; up to 2049 (thorough: 32769) entries, and long keys; and all options, by all accessors. Non-trivial when something is written or there are options.`,
		Assumptions: []string{
			`values that are cached are not altered afterwards, and are never a Go nil`,
			`keys that start with hiera:: are used by the built in functions`,
			`concurrent use of the cache is decided by C08`,
		},
		Enumerate: c21Enum,
		Check:     c21Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`performers`: c21Performers, `mutators`: len(c21Mutators), `length`: pick(tier, 3, 4), `values`: len(c21Values), `option values`: len(c21OptionValues)}
		},
	}
})

func c21Interpolated(b *build, v model.Val) model.Val {
	f, err := model.NewCtx(b.world).InterpolateAll(v, false)
	if err != nil {
		panic(err)
	}
	return f.V
}
