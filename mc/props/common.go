// Package props contains the properties, their bounded enumerations, and what decides each case.
package props

import (
	"context"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"verif/mc/model"
	"verif/mc/runner"
)

// All returns all properties
func All() []*runner.Prop {
	var ps []*runner.Prop
	for _, f := range registered {
		ps = append(ps, f())
	}
	return ps
}

var registered []func() *runner.Prop

func register(f func() *runner.Prop) bool {
	registered = append(registered, f)
	return true
}

// fsys is a directory whose contents are kept in sync with a map with as few writes as possible
type fsys struct {
	root string
	cur  map[string]string
}

func newFS(root string) *fsys {
	_ = os.RemoveAll(root)
	if err := os.MkdirAll(root, 0755); err != nil {
		panic(err)
	}
	return &fsys{root, map[string]string{}}
}

func (f *fsys) path(p string) string { return filepath.Join(f.root, p) }

// set makes the directory contain exactly the given files. Directories are removed when empty
func (f *fsys) set(files map[string]string) {
	for p := range f.cur {
		if _, ok := files[p]; !ok {
			if err := os.Remove(f.path(p)); err != nil {
				panic(err)
			}
			for d := filepath.Dir(p); d != `.`; d = filepath.Dir(d) {
				if os.Remove(f.path(d)) != nil {
					break
				}
			}
			delete(f.cur, p)
		}
	}
	for p, c := range files {
		if o, ok := f.cur[p]; ok && o == c {
			continue
		}
		fp := f.path(p)
		err := ioutil.WriteFile(fp, []byte(c), 0644)
		if err != nil {
			if err = os.MkdirAll(filepath.Dir(fp), 0755); err == nil {
				err = ioutil.WriteFile(fp, []byte(c), 0644)
			}
		}
		if err != nil {
			panic(err)
		}
		f.cur[p] = c
	}
}

// setup creates the function that gives a worker a file system of its own
var theFS *fsys

func setupFS(w *runner.W) {
	theFS = newFS(filepath.Join(w.Dir, `fs`))
}

// outcome is what a lookup resulted in
type outcome struct {
	model.Found
	err string // not empty when the lookup failed
}

func (o outcome) String() string {
	switch {
	case o.err != ``:
		return `error: ` + o.err
	case !o.OK:
		return `not found`
	}
	return `value ` + model.Canon(o.V)
}

// class is a string that equals the class of another outcome if they agree. All errors are in the same class
func (o outcome) class() string {
	if o.err != `` {
		return `error`
	}
	return o.String()
}

func modelOutcome(f model.Found, err *model.Err) outcome {
	if err != nil {
		return outcome{err: err.Error()}
	}
	return outcome{Found: f}
}

// catch calls the function and converts what it returns, or panics with, to an outcome
func catch(f func() dgo.Value) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = outcome{err: fmt.Sprintf("%v", r)}
			if o.err == `` {
				o.err = `?`
			}
		}
	}()
	v := f()
	if v == nil {
		return outcome{}
	}
	return outcome{Found: model.Found{V: model.FromDgo(v), OK: true}}
}

// implFns converts model functions to functions that the session can load
func implFns(world *model.World, kinds map[string]string, interpolates map[string]bool, called func(name, key string)) dgo.Map {
	m := vf.MutableMap()
	for n, fn := range world.Functions {
		n, fn := n, fn
		note := func(key string) {
			if called != nil {
				called(n, key)
			}
		}
		call := func(pc sdk.ProviderContext, key string) dgo.Value {
			note(key)
			opts, _ := model.FromDgo(pc.OptionsMap()).(*model.M)
			if f := fn(nil, opts, key); f.OK {
				if interpolates[n] {
					return pc.(api.ServerContext).Interpolate(model.ToDgo(f.V))
				}
				return model.ToDgo(f.V)
			}
			return nil
		}
		switch kinds[n] {
		case `data_hash`:
			m.Put(n, func(pc sdk.ProviderContext) dgo.Map {
				h, _ := call(pc, ``).(dgo.Map)
				return h
			})
		case `data_dig`:
			m.Put(n, func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
				ss := make([]string, key.Len())
				key.EachWithIndex(func(v dgo.Value, i int) { ss[i] = fmt.Sprint(v) })
				return call(pc, strings.Join(ss, "\x00"))
			})
		default:
			m.Put(n, func(pc sdk.ProviderContext, key string) dgo.Value { return call(pc, key) })
		}
	}
	return m
}

// topFunctions maps the names used by the model to functions
func topFunctions(w *model.World) []sdk.LookupKey {
	fs := make([]sdk.LookupKey, len(w.Top))
	for i, n := range w.Top {
		switch n {
		case `yaml`:
			fs[i] = provider.YamlLookupKey
		case `config`:
			fs[i] = provider.ConfigLookupKey
		case `module`:
			fs[i] = provider.ModuleLookupKey
		case `env`:
			fs[i] = provider.Environment
		case `scope`:
			fs[i] = provider.ScopeLookupKey
		default:
			fs[i] = topFunction(w.TopFns[n])
		}
	}
	return fs
}

func topFunction(f model.TopFn) sdk.LookupKey {
	return func(pc sdk.ProviderContext, key string) dgo.Value {
		if msg, ok := f.Fail[key]; ok {
			panic(errors.New(msg))
		}
		if other, ok := f.Asks[key]; ok {
			ic := pc.(api.ServerContext).Invocation()
			ic.Lookup(api.NewKey(other), vf.Map(`merge`, `unique`))
			ic.Lookup(api.NewKey(`nowhere`), vf.Map())
		}
		m := f.Data
		if sc, ok := pc.(api.ServerContext); ok && sc.Invocation().LookupOptionsMode() {
			m = f.Options
		}
		if m != nil {
			if v, ok := m.Get(key); ok {
				return model.ToDgo(v)
			}
		}
		return nil
	}
}

// build is a world together with what is needed to let the implementation live in it
type build struct {
	world  *model.World
	kinds  map[string]string // kind of each function
	files  map[string]string // relative path to contents
	scope  *model.M
	called func(name, key string)
	cfg    *model.Config
	// functions that interpolate what they return
	interpolates map[string]bool
}

func newBuild() *build {
	b := &build{kinds: map[string]string{}, files: map[string]string{}, scope: &model.M{}}
	b.world = &model.World{
		Configs: map[string]*model.Config{}, Data: map[string]*model.M{}, Bad: map[string]bool{},
		Functions: map[string]model.Fn{}, ConfigPath: theFS.path(`hiera.yaml`)}
	b.world.Scope = func(n string) (model.Val, bool) { return b.scope.Get(n) }
	b.world.Convert = convert
	return b
}

// config sets the contents of the configuration file
func (b *build) config(rel string, c *model.Config) {
	b.files[rel] = c.YAML()
	b.world.Configs[theFS.path(rel)] = c
}

// data sets the contents of a data file
func (b *build) data(rel string, m *model.M) {
	b.files[rel] = model.Flow(m)
	b.world.Data[theFS.path(rel)] = m
}

func (b *build) fn(name, kind string, f model.Fn) {
	b.kinds[name] = kind
	b.world.Functions[name] = f
}

// interpolating lets the function of the entry interpolate what it returns
func (b *build) interpolating(e model.Entry) model.Entry {
	f := b.world.Functions[e.Func]
	b.world.Functions[e.Func] = func(c *model.Ctx, opts *model.M, key string) model.Found {
		r := f(c, opts, key)
		if c != nil && r.OK {
			return c.Interpolated(r.V)
		}
		return r
	}
	if b.interpolates == nil {
		b.interpolates = map[string]bool{}
	}
	b.interpolates[e.Func] = true
	return e
}

func (b *build) options() map[string]interface{} {
	o := map[string]interface{}{api.HieraConfig: b.world.ConfigPath}
	if len(b.world.Functions) > 0 {
		o[api.HieraFunctions] = implFns(b.world, b.kinds, b.interpolates, b.called)
	}
	if b.world.Mux {
		o[provider.LookupKeyFunctions] = topFunctions(b.world)
	}
	if len(b.world.ModulePath) > 0 {
		o[provider.ModulePath] = strings.Join(b.world.ModulePath, `:`)
	}
	return o
}

func (b *build) top() sdk.LookupKey {
	if b.world.Mux {
		return provider.MuxLookupKey
	}
	return provider.ConfigLookupKey
}

// session materializes the files and calls the given function with a session
func (b *build) session(f func(s api.Session)) {
	theFS.set(b.files)
	hiera.DoWithParent(context.Background(), b.top(), b.options(), f)
}

func withSession(top sdk.LookupKey, opts map[string]interface{}, f func(s api.Session)) {
	hiera.DoWithParent(context.Background(), top, opts, f)
}

func (b *build) dgoScope() interface{} {
	if len(b.scope.E) == 0 {
		return nil
	}
	return model.ToDgo(b.scope)
}

func mergeOpt(m model.Val) dgo.Map {
	if m == nil {
		return nil
	}
	return vf.Map(`merge`, model.ToDgo(m))
}

// query is one lookup
type query struct {
	Key   string
	Merge model.Val
}

func (q query) String() string {
	if q.Merge != nil {
		return q.Key + ` merge=` + model.Canon(q.Merge)
	}
	return q.Key
}

func (q query) impl(iv api.Invocation) outcome {
	return catch(func() dgo.Value {
		return hiera.Lookup2(iv, []string{q.Key}, nil, nil, nil, nil, mergeOpt(q.Merge), nil)
	})
}

func (q query) model(w *model.World) outcome {
	return modelOutcome(model.NewCtx(w).Lookup(q.Key, q.Merge))
}

// compare performs all queries using one session, one invocation for each, and compares the outcome with the model.
func (b *build) compare(w *runner.W, qs ...query) {
	b.session(func(s api.Session) {
		for _, q := range qs {
			got := q.impl(s.Invocation(b.dgoScope(), nil))
			want := q.model(b.world)
			w.Eval(1)
			w.Outcome(b.describe(), q, want)
			if got.class() != want.class() {
				w.Fail("lookup %s\n got: %s\nwant: %s\n%s", q, got, want, b.describe())
			}
		}
	})
}

func (b *build) describe() string {
	var ss []string
	for p, c := range b.files {
		ss = append(ss, p+`: `+c)
	}
	sort.Strings(ss)
	if len(b.scope.E) > 0 {
		ss = append(ss, `scope: `+model.Canon(b.scope))
	}
	if b.world.Mux {
		ss = append(ss, `mux: `+strings.Join(b.world.Top, `,`))
	}
	return strings.Join(ss, "\n")
}

// product calls f with all combinations of indexes below the given limits until f returns false
func product(f func(ix []int) bool, limits ...int) bool {
	ix := make([]int, len(limits))
	for _, l := range limits {
		if l == 0 {
			return true
		}
	}
	for {
		if !f(append([]int{}, ix...)) {
			return false
		}
		i := len(ix) - 1
		for ; i >= 0; i-- {
			ix[i]++
			if ix[i] < limits[i] {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

// sequences calls f with all sequences of indexes below n that have a length between min and max
func sequences(n, min, max int, f func(ix []int) bool) bool {
	for l := min; l <= max; l++ {
		lim := make([]int, l)
		for i := range lim {
			lim[i] = n
		}
		if l == 0 {
			if !f(nil) {
				return false
			}
			continue
		}
		if !product(f, lim...) {
			return false
		}
	}
	return true
}

// sizes are numbers of things, up to a maximum: all small ones, and those at and around powers of two and round numbers
func sizes(max int) []int {
	var ns []int
	for n := 1; n <= max; n++ {
		ok := n <= 20
		for _, r := range []int{32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 65536, 100000} {
			ok = ok || n >= r-1 && n <= r+1
		}
		if ok {
			ns = append(ns, n)
		}
	}
	return ns
}

func pick(tier string, quick, thorough int) int {
	if tier == `thorough` {
		return thorough
	}
	return quick
}

var setenv = os.Setenv

var ctxBackground = context.Background()

func must(err error) {
	if err != nil {
		panic(err)
	}
}
