package props

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"verif/mc/model"
	"verif/mc/pluglib"
	"verif/mc/runner"
)

// C15: provider functions in-process and in plugins

type c15Case struct {
	What      string
	Kind      string
	Transport string
	From, To  int    // range of items
	Name      string `json:",omitempty"` // of the function
	Resolve   []int  `json:",omitempty"`
}

var c15Kinds = []string{`lookup_key`, `data_dig`, `data_hash`}

var c15Suffix = map[string]string{`lookup_key`: `_lk`, `data_dig`: `_dd`, `data_hash`: `_dh`}

// c15Where are the ways to provide the functions
var c15Transports = []string{`in-process`, `unix`, `tcp`}

var c15KeyAlphabet = []string{`a`, ` `, `+`, `&`, `=`, `%`, `#`, `?`, `/`, `:`, `é`, `\`, `;`, "\n", "\x00", `.`, `'`, `{`, `<`, `A`, `1`, "\u2028"}

// c15Keys are the keys that are requested
func c15Keys(tier string) []string {
	ks := []string{`a`, `a::b`, `::a`, `a::b::c`, `lookup`, `key`, `options`, strings.Repeat(`k`, 3000), strings.Repeat(`é `, 500), `日本語`, "\U0001F600", `http://x/y?z=1#f`, `..`, `../x`, `%2F`, `%zz`, `__type`}
	sequences(len(c15KeyAlphabet), 1, pick(tier, 2, 3), func(ix []int) bool {
		s := ``
		for _, i := range ix {
			s += c15KeyAlphabet[i]
		}
		if s == `1` || s == `11` || s == `111` {
			return true // not keys
		}
		ks = append(ks, s)
		return true
	})
	for _, n := range sizes(pick(tier, 300, 5000)) {
		ks = append(ks, strings.Repeat(`a`, n), strings.Repeat(`é`, n), `x`+strings.Repeat(`::y`, n))
	}
	return ks
}

var c15OptionValues []model.Val

func init() {
	for i := 0; i < pluglib.NumData; i++ {
		if s := pluglib.Values[i].String(); len(s) > 10000 {
			continue // options are part of a URL
		}
		if f, ok := pluglib.Values[i].(dgo.Float); ok && math.Abs(f.GoFloat()) > 1<<53 && math.Abs(f.GoFloat()) < 1e21 {
			continue // becomes an integer that isn't exact
		}
		c15OptionValues = append(c15OptionValues, model.FromDgo(pluglib.Values[i]))
	}
	for _, n := range sizes(1100) {
		l, m := model.List{}, &model.M{}
		for i := 0; i < n; i++ {
			l = append(l, i)
			m.E = append(m.E, model.KV{K: fmt.Sprintf(`k%d`, i), V: i})
		}
		c15OptionValues = append(c15OptionValues, strings.Repeat(`s`, n), l, m)
	}
	c15OptionValues = append(c15OptionValues, `%{var}`, `a%{var}b`, model.List{`%{var}`}, model.NewM(`%{var}`, `%{odd}`))
}

// c15Locs are the locations of an entry
var c15Locs = []*model.Loc{
	nil, {Kind: `path`, S: []string{`one.txt`}}, {Kind: `path`, S: []string{`%{var}.txt`}}, {Kind: `paths`, S: []string{`one.txt`, `missing.txt`, `odd & name+é.txt`}}, {Kind: `glob`, S: []string{`*.txt`}},
	{Kind: `uri`, S: []string{`http://example.com/a?b=c&d=%{var}#e`}}, {Kind: `uris`, S: []string{`x:y`, `not a uri %{odd}`}}, {Kind: `mapped_paths`, S: []string{`list`, `n`, `%{n}.txt`}},
}

const (
	c15Chunk = 40
)

// where the files that contain plugins are
var c15PluginDirs = []string{``, `pd`, `ABS/abspd`, `%{var}pd`, `../outside`, `pd/../pd2`}
var c15DefaultDirs = []string{``, `defpd`, `ABS/absdef`, `%{var}def`}
var c15EnvDirs = []string{``, `envpd`, `ABS/absenv`}
var c15PluginFiles = []string{``, `other`, `sub/file`, `ABS/elsewhere/file`, `../up`, `f_lk.exe`}

func c15Enum(tier string, yield func(interface{}) bool) {
	chunks := func(what, kind string, n int, transports ...string) bool {
		for _, t := range transports {
			for from := 0; from < n; from += c15Chunk {
				to := from + c15Chunk
				if to > n {
					to = n
				}
				if !yield(c15Case{What: what, Kind: kind, Transport: t, From: from, To: to}) {
					return false
				}
			}
		}
		return true
	}
	nk := len(c15Keys(tier))
	for _, kind := range c15Kinds {
		if !chunks(`values`, kind, len(pluglib.Values), c15Transports...) || !chunks(`failures`, kind, len(pluglib.Failures), c15Transports...) || !chunks(`options`, kind, len(c15OptionValues), c15Transports...) {
			return
		}
		if kind != `data_hash` && !chunks(`keys`, kind, nk, c15Transports...) {
			return
		}
		for _, t := range c15Transports {
			for i := range c15Locs {
				for _, what := range []string{`location`, `nothing`} {
					if !yield(c15Case{What: what, Kind: kind, Transport: t, From: i, To: i + 1}) {
						return
					}
				}
			}
			for _, n := range pluglib.Names {
				if !yield(c15Case{What: `values`, Kind: kind, Transport: t, From: 30, To: 33, Name: n}) {
					return
				}
			}
		}
	}
	// mixtures of in-process functions and plugins
	if !product(func(ix []int) bool { return yield(c15Case{What: `mixture`, Resolve: ix}) }, 7, 7, pick(tier, 1, 7), len(c15Strategies)) {
		return
	}
	for _, n := range sizes(pick(tier, 66, 300)) {
		for kind := 4; kind < 7; kind++ {
			for st := range c15Strategies {
				r := make([]int, n+1)
				for i := range r {
					r[i] = kind
				}
				r[n] = st
				if !yield(c15Case{What: `mixture`, Resolve: r}) {
					return
				}
			}
		}
	}
	// many plugins
	for n := 1; n <= pick(tier, 17, 40); n++ {
		for k := 4; k < 7; k++ {
			r := make([]int, n+1)
			for i := range r {
				r[i] = k
			}
			r[n] = len(c15Strategies) - 1
			if !yield(c15Case{What: `mixture`, Resolve: r, Name: `many`}) {
				return
			}
		}
	}
	// plugins in files that have the same name, which provide functions that have the same names
	for _, t := range c15Transports[1:] {
		if !sequences(len(c15Same)*len(c15Kinds), 1, pick(tier, 2, 3), func(ix []int) bool {
			return yield(c15Case{What: `same`, Resolve: ix, Transport: t})
		}) {
			return
		}
	}
	product(func(ix []int) bool { return yield(c15Case{What: `resolve`, Resolve: ix}) }, len(c15PluginDirs), len(c15DefaultDirs), len(c15EnvDirs), len(c15PluginFiles), 2)
}

var c15Strategies = []model.Val{nil, `unique`, `hash`, `deep`}

// c15Build makes a session with the functions provided in the given way
func c15Options(b *build, transport string) map[string]interface{} {
	o := map[string]interface{}{api.HieraConfig: b.world.ConfigPath}
	switch transport {
	case `in-process`:
		fs := vf.MutableMap()
		for _, n := range append([]string{`f`}, pluglib.Names...) {
			fs.Put(n+`_lk`, pluglib.LookupKey)
			fs.Put(n+`_dd`, pluglib.DataDig)
			fs.Put(n+`_dh`, pluglib.DataHash)
		}
		o[api.HieraFunctions] = fs
	case `unix`, `tcp`:
		o[`pluginTransport`] = transport
		o[`unixSocketDir`] = theFS.root
	}
	return o
}

func c15Exe() string {
	e := os.Getenv(`VERIF_PLUGIN`)
	if e == `` {
		panic(`no plugin`)
	}
	return e
}

func c15PluginName(name, kind string) string {
	if name == `` {
		name = `f`
	}
	return name + c15Suffix[kind]
}

// c15Entry creates an entry. The plugin file is given as an additional key since the model doesn't know about plugins
func c15Entry(e model.Entry, keys ...model.Val) model.Val {
	m := e.Map()
	for i := 0; i < len(keys); i += 2 {
		m = m.With(keys[i], keys[i+1])
	}
	return m
}

func c15Quote(k string) string {
	if strings.Contains(k, `'`) {
		return `"` + k + `"`
	}
	return `'` + k + `'`
}

// c15Seen is what a function should see
func c15Seen(key model.Val, opts *model.M) model.Val {
	so, bo, io, fo := ``, false, 0, 0.0
	var sOk, bOk, iOk, fOk bool
	v, _ := opts.Get(`o`)
	switch v := v.(type) {
	case string:
		so, sOk = v, true
	case bool:
		bo, bOk = v, true
	case int:
		io, iOk = v, true
	case float64:
		fo, fOk = v, true
	}
	return model.NewM(`key`, key, `options`, opts, `o`, model.List{so, sOk, bo, bOk, io, iOk, fo, fOk, v}, `missing`, true, `data`, model.NewM(`x`, 1))
}

func c15Check(w *runner.W, ci interface{}) {
	c := ci.(c15Case)
	switch c.What {
	case `resolve`:
		c15Resolve(w, c)
		return
	case `mixture`:
		c15Mixture(w, c)
		return
	case `same`:
		c15SameName(w, c)
		return
	}
	b := newBuild()
	b.scope = model.NewM(`var`, `value`, `odd`, "a+b &é\n\"%41", `list`, model.List{`one`, `two`, `odd & name+é`})
	for _, n := range []string{`data/one.txt`, `data/two.txt`, `data/odd & name+é.txt`, `data/value.txt`} {
		b.files[n] = ``
		b.world.Data[theFS.path(n)] = &model.M{}
	}
	fn := c15PluginName(c.Name, c.Kind)
	entry := func(name string, opts *model.M, loc *model.Loc) (model.Entry, model.Val) {
		e := model.Entry{Name: name, Kind: c.Kind, Func: fn, Options: opts, Loc: loc}
		if c.Transport == `in-process` {
			return e, c15Entry(e)
		}
		return e, c15Entry(e, `pluginfile`, c15Exe())
	}
	// config sets the configuration
	config := func(es ...model.Val) {
		b.files[`hiera.yaml`] = model.Flow(model.NewM(`version`, 5, `hierarchy`, append(model.List{}, es...)))
	}
	session := func(f func(s api.Session)) {
		theFS.set(b.files)
		withSession(provider.ConfigLookupKey, c15Options(b, c.Transport), f)
	}
	lookup := func(s api.Session, key string) outcome {
		w.Eval(1)
		return query{Key: key}.impl(s.Invocation(b.dgoScope(), nil))
	}
	check := func(got outcome, want outcome, about ...interface{}) {
		w.Outcome(c.Kind, want)
		if c.Transport != `in-process` && want.OK && got.OK {
			got.V = c15Num(got.V, want.V)
		}
		if got.class() != want.class() {
			w.Fail("%s, %s, %s: %s\n got: %.2000s\nwant: %.2000s\n%s", c.What, c.Kind, c.Transport, fmt.Sprint(about...), got, want, b.describe())
		}
	}
	val := func(v model.Val) outcome { return outcome{Found: model.Found{V: v, OK: true}} }
	switch c.What {
	case `values`:
		_, e := entry(`e`, model.NewM(`mode`, `values`), nil)
		config(e)
		session(func(s api.Session) {
			for i := c.From; i < c.To; i++ {
				k := fmt.Sprintf(`value_%d`, i)
				check(lookup(s, k), val(model.FromDgo(pluglib.Values[i])), k)
			}
			if c.Kind != `data_hash` {
				check(lookup(s, `nil`), outcome{}, `nil`)
			}
		})
	case `failures`:
		if c.Kind == `data_hash` {
			for i := c.From; i < c.To; i++ {
				_, e := entry(`e`, model.NewM(`mode`, fmt.Sprintf(`fail_%d`, i)), nil)
				config(e)
				session(func(s api.Session) {
					for j := 0; j < 2; j++ {
						c15Message(w, c, lookup(s, `seen`), pluglib.Messages[i])
					}
				})
			}
			return
		}
		_, e := entry(`e`, nil, nil)
		config(e)
		session(func(s api.Session) {
			for i := c.From; i < c.To; i++ {
				c15Message(w, c, lookup(s, fmt.Sprintf(`fail_%d`, i)), pluglib.Messages[i])
				check(lookup(s, `nil`), outcome{}, `nil`)
				check(lookup(s, `value_5`), val(model.FromDgo(pluglib.Values[5])), `value_5`)
			}
		})
	case `keys`:
		_, e := entry(`e`, nil, nil)
		config(e)
		ks := c15Keys(w.Tier)[c.From:c.To]
		session(func(s api.Session) {
			for _, k := range ks {
				var key model.Val = k
				if c.Kind == `data_dig` {
					key = model.List{k}
				}
				check(lookup(s, c15Quote(k)), val(c15Seen(key, &model.M{})), fmt.Sprintf("%q", k))
			}
		})
	case `options`:
		for i := c.From; i < c.To; i++ {
			// alone, together with another one, and under another name
			v, w := c15OptionValues[i], c15OptionValues[(i+7)%len(c15OptionValues)]
			for _, opts := range []*model.M{model.NewM(`o`, v), model.NewM(`o`, v, `second`, w), model.NewM(`a`, model.NewM(`o`, v), `key`, w)} {
				_, e := entry(`e`, opts, nil)
				config(e)
				f, err := model.NewCtx(b.world).InterpolateAll(opts, false)
				if err != nil {
					panic(err)
				}
				session(func(s api.Session) { c15CheckSeen(b, c, lookup, s, check, f.V.(*model.M)) })
			}
		}
	case `location`, `nothing`:
		loc := c15Locs[c.From]
		opts := model.NewM(`o`, 1)
		if c.What == `nothing` {
			opts = nil
		}
		e, ev := entry(`e`, opts, loc)
		config(ev)
		seen := &model.M{}
		if opts != nil {
			seen = opts
		}
		// The first location that exists is the one that answers
		if loc != nil {
			rel := map[string]string{`one.txt`: `one.txt`, `%{var}.txt`: `value.txt`, `*.txt`: `odd & name+é.txt`, `list`: `one.txt`}[loc.S[0]]
			p := theFS.path(`data/` + rel)
			if rel == `` {
				f, err := model.NewCtx(b.world).InterpolateAll(loc.S[0], false)
				if err != nil {
					panic(err)
				}
				p = f.V.(string)
			}
			seen = seen.With(`path`, p)
		}
		_ = e
		session(func(s api.Session) { c15CheckSeen(b, c, lookup, s, check, seen) })
	default:
		panic(c.What)
	}
}

// c15Num makes integers that are equal to the wanted floats that they were when they were made into JSON floats again
func c15Num(got, want model.Val) model.Val {
	switch want := want.(type) {
	case float64:
		if i, ok := got.(int); ok && float64(i) == want {
			return want
		}
	case model.List:
		if g, ok := got.(model.List); ok && len(g) == len(want) {
			r := make(model.List, len(g))
			for i := range g {
				r[i] = c15Num(g[i], want[i])
			}
			return r
		}
	case *model.M:
		if g, ok := got.(*model.M); ok {
			r := &model.M{}
			for _, e := range g.E {
				v, _ := want.Get(e.K)
				r.E = append(r.E, model.KV{K: e.K, V: c15Num(e.V, v)})
			}
			return r
		}
	}
	return got
}

// c15Whole is what is seen of an option that is a whole number
func c15Whole(v model.Val) model.Val {
	if f, ok := v.(float64); ok && f == float64(int64(f)) && f < 1<<62 && f > -1<<62 {
		return int(f)
	}
	return v
}

func c15CheckSeen(b *build, c c15Case, lookup func(api.Session, string) outcome, s api.Session, check func(outcome, outcome, ...interface{}), opts *model.M) {
	var key model.Val = `seen`
	switch c.Kind {
	case `data_dig`:
		key = model.List{key}
	case `data_hash`:
		key = `no key`
	}
	want := c15Seen(key, opts)
	if v, ok := opts.Get(`o`); ok && c.Transport != `in-process` {
		want = c15Seen(key, opts.With(`o`, c15Whole(v)))
	}
	for i := 0; i < 2; i++ {
		check(lookup(s, `seen`), outcome{Found: model.Found{V: want, OK: true}}, `seen`)
	}
}

func c15Message(w *runner.W, c c15Case, got outcome, msg string) {
	w.Outcome(c.Kind, msg)
	if got.err == `` || !strings.Contains(got.err, msg) {
		w.Fail("%s, %s: a function fails with %q but the lookup gives %s", c.Kind, c.Transport, msg, got)
	}
}

// c15Mixture merges what plugins, in-process functions, and files give
func c15Mixture(w *runner.W, c c15Case) {
	b := newBuild()
	var es model.List
	var mes []model.Entry
	n := len(c.Resolve) - 1
	strategy := c.Resolve[n]
	maps := strategy > 1
	for i, x := range c.Resolve[:n] {
		name := fmt.Sprintf(`e%d`, i)
		var v model.Val = model.List{name, `shared`}
		if maps {
			v = model.NewM(name, i, `shared`, model.NewM(name, i))
		}
		e := model.Entry{Name: name}
		switch x {
		case 0:
			e.Loc = &model.Loc{Kind: `path`, S: []string{name + `.yaml`}}
			b.data(`data/`+name+`.yaml`, model.NewM(`merged`, v))
			es = append(es, c15Entry(e))
		default:
			// The function in the plugin that is told what to return isn't there, so the options it sees are what's merged
			kind := c15Kinds[x%3]
			key := `seen`
			_ = key
			e.Kind, e.Func, e.Options = kind, `m`+c15Suffix[kind], model.NewM(`merged`, v)
			ret := v
			b.fn(e.Func, kind, func(_ *model.Ctx, opts *model.M, k string) model.Found {
				r, _ := opts.Get(`merged`)
				if kind == `data_hash` {
					return model.Found{V: model.NewM(`merged`, r), OK: true}
				}
				return model.Found{V: r, OK: k == `merged`}
			})
			_ = ret
			if c.Name == `many` {
				es = append(es, c15Entry(e, `pluginfile`, theFS.path(name)))
			} else if x > 3 {
				es = append(es, c15Entry(e, `pluginfile`, c15Exe()))
			} else {
				es = append(es, c15Entry(e))
			}
		}
		mes = append(mes, e)
	}
	b.files[`hiera.yaml`] = model.Flow(model.NewM(`version`, 5, `hierarchy`, es))
	b.world.Configs[theFS.path(`hiera.yaml`)] = &model.Config{Hierarchy: mes}
	theFS.set(b.files)
	if c.Name == `many` {
		for i := range mes {
			p := theFS.path(fmt.Sprintf(`e%d`, i))
			must(os.Symlink(c15Exe(), p))
			defer func() { must(os.Remove(p)) }()
		}
	}
	o := b.options()
	o[`pluginTransport`] = []string{`unix`, `tcp`}[c.Resolve[0]%2]
	o[`unixSocketDir`] = theFS.root
	fs := vf.MutableMap()
	all, _ := o[api.HieraFunctions].(dgo.Map)
	for i, x := range c.Resolve[:len(mes)] {
		if n := mes[i].Func; x > 0 && x <= 3 && all != nil {
			fs.Put(n, all.Get(n))
		}
	}
	// A function that is in-process for one entry is that for all entries
	o[api.HieraFunctions] = fs
	withSession(provider.ConfigLookupKey, o, func(s api.Session) {
		for _, q := range []query{{`merged`, c15Strategies[strategy]}, {Key: `absent`}, {Key: `merged`}} {
			got, want := q.impl(s.Invocation(nil, nil)), q.model(b.world)
			w.Eval(1)
			w.Outcome(c.Resolve, want)
			if got.class() != want.class() {
				w.Fail("lookup %s\n got: %s\nwant: %s\n%s", q, got, want, b.describe())
			}
		}
	})
}

// c15Resolve finds out which of many plugins is the one that's used
func c15Resolve(w *runner.W, c c15Case) {
	pd, dd, env, pf := c15PluginDirs[c.Resolve[0]], c15DefaultDirs[c.Resolve[1]], c15EnvDirs[c.Resolve[2]], c15PluginFiles[c.Resolve[3]]
	abs := func(s string) string { return strings.Replace(s, `ABS`, theFS.root, 1) }
	root := theFS.path(`main`)
	inModule := c.Resolve[4] == 1
	if inModule {
		root = theFS.path(`mods/m`)
	}
	// what is expected
	dir := pd
	if dir == `` {
		dir = dd
	}
	if dir == `` {
		dir = env
	}
	if dir == `` {
		dir = `plugin`
	}
	dir = strings.Replace(abs(dir), `%{var}`, `value`, 1)
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(root, dir)
	}
	file := abs(pf)
	if file == `` {
		file = `f_lk`
	}
	want := file
	if !filepath.IsAbs(want) {
		want = filepath.Join(dir, file)
	}
	// Have all of them
	for _, r := range []string{theFS.path(`main`), theFS.path(`mods/m`), theFS.root} {
		for _, ds := range [][]string{c15PluginDirs, c15DefaultDirs, c15EnvDirs, {`plugin`}} {
			for _, d := range ds {
				d = strings.Replace(abs(d), `%{var}`, `value`, 1)
				if !filepath.IsAbs(d) {
					d = filepath.Join(r, d)
				}
				for _, f := range append([]string{`f_lk`}, c15PluginFiles...) {
					if f = abs(f); f == `` {
						continue
					}
					if !filepath.IsAbs(f) {
						f = filepath.Join(d, f)
					}
					if !c15Have[f] {
						must(os.MkdirAll(filepath.Dir(f), 0755))
						if err := os.Symlink(c15Exe(), f); err != nil && !os.IsExist(err) {
							panic(err)
						}
						c15Have[f] = true
					}
				}
			}
		}
	}
	e := c15Entry(model.Entry{Name: `e`, Kind: `lookup_key`, Func: `f_lk`})
	m := e.(*model.M)
	if pd != `` {
		m = m.With(`plugindir`, abs(pd))
	}
	if pf != `` {
		m = m.With(`pluginfile`, abs(pf))
	}
	cfg := model.NewM(`version`, 5, `hierarchy`, model.List{m})
	if dd != `` {
		cfg = cfg.With(`defaults`, model.NewM(`plugindir`, abs(dd)))
	}
	other := `{"version":5,"hierarchy":[]}`
	files := map[string]string{`main/hiera.yaml`: model.Flow(cfg), `mods/m/hiera.yaml`: other}
	key := `exe`
	if inModule {
		files = map[string]string{`main/hiera.yaml`: other, `mods/m/hiera.yaml`: model.Flow(cfg)}
		key = `m::exe`
	}
	theFS.set(files)
	if env != `` {
		must(os.Setenv(`HIERA_PLUGINDIR`, abs(env)))
		defer func() { must(os.Unsetenv(`HIERA_PLUGINDIR`)) }()
	}
	withSession(provider.MuxLookupKey, map[string]interface{}{
		api.HieraConfig: theFS.path(`main/hiera.yaml`), `unixSocketDir`: theFS.root, provider.ModulePath: theFS.path(`mods`),
		provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey},
	}, func(s api.Session) {
		got := query{Key: key}.impl(s.Invocation(vf.Map(`var`, `value`), nil))
		w.Eval(1)
		w.Outcome(want)
		if inModule {
			// A key in a module is never just exe, what is seen is the key
			if got.err != `` || !got.OK {
				w.Fail("no plugin is used: %s", got)
			}
			got = query{Key: `m::exe_path`}.impl(s.Invocation(vf.Map(`var`, `value`), nil))
		}
		if !got.OK || got.V != want {
			w.Fail("plugin is %s instead of %s\n%s", got, want, files)
		}
	})
}

// c15Same are the directories of plugins with the same name, as path to the file or as directory
var c15Same = []string{`d0/p`, `d1/`, `d1/d0/p`}

// c15SameName uses plugins in different files that have the same name, each of which must be the one that is used
func c15SameName(w *runner.W, c c15Case) {
	var es, want model.List
	files := map[string]string{}
	for i, x := range c.Resolve {
		at, kind := c15Same[x/len(c15Kinds)], c15Kinds[x%len(c15Kinds)]
		e := model.Entry{Name: fmt.Sprintf(`e%d`, i), Kind: kind, Func: `f` + c15Suffix[kind]}
		file := theFS.path(`same/` + at)
		if strings.HasSuffix(at, `/`) {
			es = append(es, c15Entry(e, `plugindir`, theFS.path(`same/`+at), `pluginfile`, `p`))
			file = theFS.path(`same/` + at + `p`)
		} else {
			es = append(es, c15Entry(e, `pluginfile`, file))
		}
		if !c15Have[file] {
			must(os.MkdirAll(filepath.Dir(file), 0755))
			if err := os.Symlink(c15Exe(), file); err != nil && !os.IsExist(err) {
				panic(err)
			}
			c15Have[file] = true
		}
		dup := false
		for _, o := range want {
			dup = dup || o == file
		}
		if !dup {
			want = append(want, file)
		}
	}
	files[`hiera.yaml`] = model.Flow(model.NewM(`version`, 5, `hierarchy`, es))
	theFS.set(files)
	withSession(provider.ConfigLookupKey, map[string]interface{}{api.HieraConfig: theFS.path(`hiera.yaml`), `unixSocketDir`: theFS.root, `pluginTransport`: c.Transport}, func(s api.Session) {
		for i := 0; i < 2; i++ {
			got := query{`exe`, `unique`}.impl(s.Invocation(nil, nil))
			w.Eval(1)
			w.Outcome(want)
			exp := outcome{Found: model.Found{V: want, OK: true}}
			if len(c.Resolve) == 1 {
				exp.V = want[0]
			}
			if got.class() != exp.class() {
				w.Fail("plugins are %s instead of %s\n%s", got, exp, files)
				return
			}
		}
	})
}

var c15Have = map[string]bool{}

func c15Prepare(dir string) []string {
	exe := dir + `/testplugin`
	goBuild(dir, exe, `verif/mc/testplugin`)
	return []string{`VERIF_PLUGIN=` + exe}
}

func c15Setup(w *runner.W) {
	setupFS(w)
	if os.Getenv(`VERIF_PLUGIN`) == `` {
		panic(`not prepared`)
	}
}

var _ sdk.LookupKey = pluglib.LookupKey

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C15`,
		Level: `exploration`,
		Rule:  `The same functions, of all three kinds, are in-process and in a plugin that communicates in both ways. All values, keys, options, locations, and failures in the bounds are passed through them and compared with what was passed; mixtures of functions are merged; all ways to tell where a plugin is are resolved; and sequences of plugins whose files, and functions, have the same names are used together.`,
		Assumptions: []string{
			`a float without a fraction can become an integer when it's passed to or from a plugin (that is how the dependency makes it into JSON)`,
			`the names of the functions in a plugin are unique`,
			`options aren't larger than what a URL can be, and maps don't have the keys that the serialization reserves`,
			`a function that isn't in the plugin that should have it is not judged`,
		},
		Enumerate: c15Enum,
		Check:     c15Check,
		Setup:     c15Setup,
		Prepare:   c15Prepare,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`values`: len(pluglib.Values), `keys`: len(c15Keys(tier)), `options`: len(c15OptionValues), `failures`: len(pluglib.Failures), `locations`: len(c15Locs), `ways to find a plugin`: len(c15PluginDirs) * len(c15DefaultDirs) * len(c15EnvDirs) * len(c15PluginFiles)}
		},
	}
})
