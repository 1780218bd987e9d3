package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"verif/mc/model"
	"verif/mc/runner"
	"verif/mc/vsync"
)

// C08: all interleavings of concurrent lookups in one session

type c08Case struct {
	Setup   string
	Threads [][]int // lookups (or operations on the cache) of each thread
	Warm    int     `json:",omitempty"` // lookup that's made before the threads start plus one
	Bound   int
	Plain   bool `json:",omitempty"`
}

// c08Op is something that a thread does
type c08Op struct {
	name string
	do   func(s api.Session) string
}

// c08Setup is a way to set up a session
type c08Setup struct {
	files   map[string]string
	top     sdk.LookupKey
	options func() map[string]interface{}
	ops     []c08Op
}

// c08Scope is shared by all invocations
var c08Scope = vf.Map(`var`, `value`, `n`, `plain`)

func c08Lookup(key string, merge interface{}, extra ...string) c08Op {
	name := key
	if merge != nil {
		name += fmt.Sprint(` `, merge)
	}
	var opts dgo.Map
	if merge != nil {
		opts = vf.Map(`merge`, merge)
	}
	kind := strings.Join(extra, ` `)
	return c08Op{strings.TrimSpace(name + ` ` + kind), func(s api.Session) string {
		o := catch(func() dgo.Value {
			var ex api.Explainer
			if kind == `explain` {
				ex = explain.NewExplainer(true, false)
			}
			iv := s.Invocation(c08Scope, ex)
			if kind == `twice` {
				hiera.Lookup2(iv, []string{key}, nil, nil, nil, nil, opts, nil)
			}
			return hiera.Lookup2(iv, []string{`none such`, key}, nil, nil, nil, nil, opts, nil)
		})
		return o.String()
	}}
}

// c08Own is a lookup in a session of its own
func c08Own(key string, opts func() map[string]interface{}) c08Op {
	return c08Op{`(own session) ` + key, func(api.Session) (r string) {
		withSession(provider.ConfigLookupKey, opts(), func(s api.Session) { r = c08Lookup(key, nil).do(s) })
		return
	}}
}

// c08Explained is a lookup, and the explanation of it
func c08Explained(key string, onlyOptions bool) c08Op {
	return c08Op{fmt.Sprint(key, ` explained `, onlyOptions), func(s api.Session) string {
		ex := explain.NewExplainer(true, onlyOptions)
		o := catch(func() dgo.Value {
			return hiera.Lookup2(s.Invocation(c08Scope, ex), []string{key}, nil, nil, nil, nil, nil, nil)
		})
		return o.String() + "\n" + ex.String()
	}}
}

// c08Typed is a lookup of a value with a type
func c08Typed(key, tp string) c08Op {
	return c08Op{key + ` as ` + tp, func(s api.Session) string {
		return catch(func() dgo.Value {
			return hiera.Lookup2(s.Invocation(c08Scope, nil), []string{key}, s.Dialect().ParseType(nil, vf.String(tp)), nil, nil, nil, nil, nil)
		}).String()
	}}
}

// c08Rendered is what the command and the server do
func c08Rendered(o hiera.CommandOptions, keys ...string) c08Op {
	return c08Op{fmt.Sprintf(`%v rendered %+v`, keys, o), func(s api.Session) string {
		out := &bytes.Buffer{}
		o := o
		r := catch(func() dgo.Value { return vf.Boolean(hiera.LookupAndRender(s, &o, keys, out)) })
		return r.String() + "\n" + out.String()
	}}
}

var c08Setups map[string]*c08Setup

const c08Hierarchy = `
version: 5
defaults: {datadir: data, options: {o: "%{var}"}}
hierarchy:
  - {name: dig, data_dig: dd}
  - {name: fn, lookup_key: lk, path: "%{n}.yaml"}
  - {name: common, paths: ["%{n}.yaml", other.yaml]}
  - {name: json, data_hash: json_data, glob: "*.json"}
  - {name: hash, data_hash: dh}
`

func c08Init() {
	c08Setups = map[string]*c08Setup{}
	files := map[string]string{
		`hiera.yaml`: c08Hierarchy,
		`data/plain.yaml`: `{"plain": "a", "interpolated": "%{var} %{lookup('plain')} %{literal('%')}", "aliased": "%{alias('hash')}", "hash": {"a": {"b": [1, 2]}, "c": "%{n}"},
  "lookup_options": {"hash": {"merge": "deep"}, "merged": {"merge": "unique"}, "number": {"convert_to": "int"}, "secret": {"convert_to": "sensitive"}, "^re.*": {"merge": "hash"}},
  "merged": ["x", "y"], "number": "42", "secret": "s", "regex": {"p": 1}, "other_module": "%{lookup('m1::key')} %{lookup('m2::key')}"}`,
		`data/other.yaml`:       `{"hash": {"a": {"d": 3}}, "merged": ["y", "z"], "regex": {"q": 2}}`,
		`data/x.json`:           `{"merged": ["j"], "injson": {"deep": [10, 20]}}`,
		`data/y.json`:           `{"regex": {"r": 3}}`,
		`mods/m1/hiera.yaml`:    `{"version": 5, "hierarchy": [{"name": "c", "path": "c.yaml"}, {"name": "f", "lookup_key": "lk"}]}`,
		`mods/m1/data/c.yaml`:   `{"m1::key": "one %{lookup('m2::key')}", "m1::plain": {"a": 1}}`,
		`mods/M2/hiera.yaml`:    `{"version": 5, "defaults": {"datadir": "d"}, "hierarchy": [{"name": "c", "path": "c.yaml"}]}`,
		`mods/M2/d/c.yaml`:      `{"m2::key": "two", "lookup_options": {"m2::sum": {"convert_to": "string"}}, "m2::sum": 7}`,
		`mods/bad/hiera.yaml`:   `{"version": 4`,
		`mods/worse/hiera.yaml`: `{"version": 5, "hierarchy": [{"name": "x", "nonsense": true}]}`,
		`mods/none/readme`:      ``,
	}
	functions := func() dgo.Map {
		m := vf.MutableMap()
		m.Put(`lk`, func(pc sdk.ProviderContext, key string) dgo.Value {
			vsync.Point(0, nil, vsync.Read)
			switch key {
			case `fromlk`:
				return vf.Values(pc.Option(`o`), pc.Option(`path`) != nil)
			case `failing`:
				panic(`failing function`)
			case `m1::fn`:
				return vf.String(`fn of m1`)
			case `cached`:
				sc := pc.(api.ServerContext)
				if v, ok := sc.CachedValue(`lk::cached`); ok {
					return v
				}
				v := vf.String(`computed`)
				sc.Cache(`lk::cached`, v)
				return v
			}
			return nil
		})
		m.Put(`dd`, func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			if key.Get(0).Equals(`fromdd`) {
				return vf.Map(`x`, vf.Values(key.Len(), pc.Option(`o`)))
			}
			return nil
		})
		m.Put(`dh`, func(pc sdk.ProviderContext) dgo.Map {
			return vf.Map(`fromdh`, `h %{n}`, `merged`, vf.Values(`dh`))
		})
		return m
	}
	main := &c08Setup{files: files, top: provider.MuxLookupKey, options: func() map[string]interface{} {
		return map[string]interface{}{
			api.HieraConfig: theFS.path(`hiera.yaml`), api.HieraFunctions: functions(), provider.ModulePath: theFS.path(`absent`) + `:` + theFS.path(`mods`),
			provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey},
			api.HieraScope:              map[string]string{`session`: `variable`},
		}
	}}
	for _, k := range []string{`plain`, `interpolated`, `aliased`, `hash.a.b.1`, `merged`, `number`, `secret`, `regex`, `other_module`, `injson.deep`, `m1::key`, `m2::key`, `m2::sum`, `m1::fn`, `bad::key`, `worse::key`, `none::key`, `absent`, `fromlk`, `failing`, `cached`, `fromdd.x`, `fromdh`} {
		main.ops = append(main.ops, c08Lookup(k, nil))
	}
	main.ops = append(main.ops, c08Lookup(`merged`, `deep`), c08Lookup(`hash`, vf.Map(`strategy`, `hash`)), c08Lookup(`plain`, nil, `explain`), c08Lookup(`m1::key`, nil, `twice`))
	c08Setups[`main`] = main

	// a configuration that can't be loaded
	broken := &c08Setup{files: map[string]string{`hiera.yaml`: `{"version": 5, "hierarchy": [{}]}`}, top: provider.ConfigLookupKey, options: func() map[string]interface{} {
		return map[string]interface{}{api.HieraConfig: theFS.path(`hiera.yaml`)}
	}}
	broken.ops = []c08Op{c08Lookup(`a`, nil), c08Lookup(`b`, nil, `explain`), c08Lookup(`lookup_options`, nil)}
	c08Setups[`broken`] = broken

	// a provider that caches what it reads
	yaml := &c08Setup{files: map[string]string{`data.yaml`: `{"a": "%{lookup('b')}", "b": {"c": [1]}}`}, top: provider.YamlLookupKey, options: func() map[string]interface{} {
		return map[string]interface{}{`path`: theFS.path(`data.yaml`)}
	}}
	yaml.ops = []c08Op{c08Lookup(`a`, nil), c08Lookup(`b.c.0`, nil), c08Lookup(`c`, nil)}
	c08Setups[`yaml`] = yaml

	// one that is used by entries in the configuration
	entries := &c08Setup{files: map[string]string{`hiera.yaml`: `{"version": 5, "hierarchy": [{"name": "s", "lookup_key": "scope_lookup_key"}, {"name": "e", "lookup_key": "environment"}, {"name": "u", "lookup_key": "unknown"}, {"name": "y", "lookup_key": "my_yaml"}]}`,
		`data.yaml`: `{"a": "%{lookup('b')}", "b": {"c": [1]}}`}, top: provider.ConfigLookupKey, options: func() map[string]interface{} {
		return map[string]interface{}{api.HieraConfig: theFS.path(`hiera.yaml`), `path`: theFS.path(`data.yaml`), api.HieraFunctions: vf.Map(`scope_lookup_key`, provider.ScopeLookupKey, `environment`, provider.Environment, `my_yaml`, provider.YamlLookupKey)}
	}}
	entries.ops = []c08Op{c08Lookup(`a`, nil), c08Lookup(`var`, nil), c08Lookup(`env::HOME`, nil), c08Lookup(`b`, nil), c08Lookup(`zz`, nil)}
	c08Setups[`entries`] = entries

	// types, conversions, explanations and rendering
	values := &c08Setup{files: map[string]string{`hiera.yaml`: `
version: 5
hierarchy:
  - {name: m, mapped_paths: [list, it, "%{it}.yaml"]}
  - {name: u, lookup_key: lk, uris: ["http://%{n}", "file:///x"]}
  - {name: g, globs: ["sub/*.yaml", "x.yaml"]}
`,
		`data/a.yaml`:                `{"list": [1, "%{n}"], "bad": "x", "lookup_options": {"bad": {"convert_to": "int"}, "list": {"merge": "unique"}, "float": {"convert_to": "string"}, "map": {"merge": {"strategy": "deep", "merge_hash_arrays": true}}, "secret": {"convert_to": "sensitive"}, "wrong": {"convert_to": "nonsense[1"}, "odd": {"merge": "odd"}}}`,
		`data/b.yaml`:                `{"map": {"a": [{"b": 1}], "c": "%{alias('list')}"}, "odd": 1, "wrong": 2, "rec": "%{lookup('rec')}", "syntax": "%{lookup('x'}", "scoped": "%{scope.list.1} %{nofn('x')}"}`,
		`data/sub/y.yaml`:            `{"map": {"a": [{"d": 2}]}, "list": [3], "secret": "%{n}"}`,
		`data/x.yaml`:                `{"map": {"e": "%{scope.list.1}"}, "float": 1.5, "number": 1.5}`,
		`malformed/hiera.yaml`:       `{"version": 5, "hierarchy": [{"name": "x", "path": "x.yaml"}, {"name": "c", "path": "common.yaml"}]}`,
		`malformed/data/x.yaml`:      `{"version": `,
		`malformed/data/common.yaml`: `{"a": [}`,
	}, top: provider.ConfigLookupKey, options: func() map[string]interface{} {
		return map[string]interface{}{api.HieraConfig: theFS.path(`hiera.yaml`), api.HieraScope: map[string]interface{}{`list`: []string{`a`, `b`}, `n`: 1}, api.HieraFunctions: vf.Map(`lk`, func(pc sdk.ProviderContext, key string) dgo.Value {
			if key == `uri` {
				return pc.Option(`path`)
			}
			return nil
		})}
	}}
	dflt := `d`
	own := func(cfg string) func() map[string]interface{} {
		return func() map[string]interface{} {
			o := values.options()
			o[api.HieraConfig] = theFS.path(cfg)
			return o
		}
	}
	values.ops = []c08Op{c08Lookup(`list`, nil), c08Lookup(`bad`, nil), c08Typed(`list`, `[]int`), c08Typed(`map`, `map[string]{a:int}`), c08Typed(`number`, `1.0..2.0`), c08Explained(`map`, false), c08Explained(`bad`, true), c08Lookup(`wrong`, nil), c08Lookup(`odd`, nil),
		c08Lookup(`rec`, nil), c08Lookup(`syntax`, nil), c08Lookup(`scoped`, nil), c08Lookup(`float`, nil), c08Lookup(`uri`, nil), c08Rendered(hiera.CommandOptions{RenderAs: `yaml`, Type: `[]string`, Merge: `unique`}, `list`), c08Rendered(hiera.CommandOptions{RenderAs: `json`, LookupAll: true}, `map`, `list`, `secret`),
		c08Rendered(hiera.CommandOptions{Default: &dflt, Variables: []string{`v=1`}}, `absent`), c08Rendered(hiera.CommandOptions{ExplainData: true, ExplainOptions: true}, `map`),
		c08Own(`map`, own(`hiera.yaml`)), c08Own(`a`, own(`malformed/hiera.yaml`)), c08Own(`a`, own(`absent.yaml`))}
	c08Setups[`values`] = values

	// plugins
	exe := os.Getenv(`VERIF_PLUGIN`)
	plugin := &c08Setup{files: map[string]string{`hiera.yaml`: fmt.Sprintf(`
version: 5
hierarchy:
  - {name: lk, lookup_key: f_lk, pluginfile: %q, options: {o: 1}}
`, exe), `second/hiera.yaml`: fmt.Sprintf(`
version: 5
hierarchy:
  - {name: dh, data_hash: f_dh, pluginfile: %q, options: {mode: x}}
  - {name: lk2, lookup_key: my::fn_lk, pluginfile: %q}
`, exe, exe), `third/hiera.yaml`: `
version: 5
hierarchy:
  - {name: no, lookup_key: no_such_plugin}
`, `fourth/hiera.yaml`: `
version: 5
hierarchy:
  - {name: no, lookup_key: not_a_plugin}
`, `fourth/plugin/not_a_plugin`: "text\n"}, top: provider.MuxLookupKey, options: func() map[string]interface{} {
		return map[string]interface{}{api.HieraConfig: theFS.path(`hiera.yaml`), `unixSocketDir`: theFS.root, `pluginTransport`: `unix`, provider.ModulePath: theFS.root,
			provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey}}
	}}
	pid := func(key string) c08Op {
		return c08Op{key, func(s api.Session) string {
			o := catch(func() dgo.Value {
				return hiera.Lookup2(s.Invocation(c08Scope, nil), []string{key}, nil, nil, nil, nil, nil, nil)
			})
			if o.err == `` && o.OK {
				return fmt.Sprintf(`pid %v`, o.V)
			}
			return o.String()
		}}
	}
	plugin.ops = []c08Op{pid(`pid`), c08Lookup(`value_7`, nil), c08Lookup(`fail_0`, nil), c08Lookup(`second::seen`, nil), c08Lookup(`third::x`, nil), c08Lookup(`fourth::x`, nil)}
	c08Setups[`plugin`] = plugin
}

// operations on the cache
var c08CacheOps = []string{`put a`, `put b`, `get a`, `get b`, `all ab`, `entries`}

func c08Enum(tier string, yield func(interface{}) bool) {
	if len(c08Setups) == 0 {
		c08Init()
	}
	b2 := pick(tier, 2, 3)
	pairs := func(setup string, bound int, warm bool) bool {
		n := len(c08Setups[setup].ops)
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				ws := []int{0}
				if warm {
					ws = append(ws, 1)
					if i != 0 && tier == `thorough` {
						ws = append(ws, i+1)
					}
					if j != 0 && j != i && tier == `thorough` {
						ws = append(ws, j+1)
					}
				}
				for _, wm := range ws {
					if !yield(c08Case{Setup: setup, Threads: [][]int{{i}, {j}}, Warm: wm, Bound: bound}) {
						return false
					}
				}
			}
		}
		return true
	}
	if !pairs(`broken`, -1, false) || !pairs(`yaml`, -1, true) || !pairs(`entries`, b2, true) || !pairs(`main`, b2, true) || !pairs(`values`, b2, true) || !pairs(`plugin`, pick(tier, 1, 2), true) {
		return
	}
	// three threads
	for _, s := range []string{`broken`, `yaml`, `entries`, `plugin`} {
		n := len(c08Setups[s].ops)
		bound := pick(tier, 1, 2)
		switch {
		case s == `broken`:
			bound = 2
		case s == `plugin` && tier != `thorough`:
			n = 4
		}
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				for k := j; k < n; k++ {
					if !yield(c08Case{Setup: s, Threads: [][]int{{i}, {j}, {k}}, Bound: bound}) {
						return
					}
				}
			}
		}
	}
	// more lookups than one
	for _, s := range []string{`broken`, `yaml`} {
		n := len(c08Setups[s].ops)
		if !product(func(ix []int) bool {
			return yield(c08Case{Setup: s, Threads: [][]int{{ix[0], ix[1]}, {ix[2], ix[3]}}, Bound: pick(tier, 2, 4)})
		}, n, n, n, n) {
			return
		}
	}
	// the cache
	n := len(c08CacheOps)
	if !product(func(ix []int) bool {
		return yield(c08Case{Setup: `cache`, Threads: [][]int{{ix[0], ix[1]}, {ix[2], ix[3]}}, Bound: -1})
	}, n, n, n, n) {
		return
	}
	if !product(func(ix []int) bool {
		return yield(c08Case{Setup: `cache`, Threads: [][]int{{ix[0]}, {ix[1]}, {ix[2]}}, Bound: -1})
	}, n, n, n) {
		return
	}
	if tier == `thorough` {
		n := len(c08Setups[`main`].ops)
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				// The reduction isn't used
				if !yield(c08Case{Setup: `main`, Threads: [][]int{{i}, {j}}, Bound: 1, Plain: true}) {
					return
				}
				for k := j; k < n; k++ {
					if !yield(c08Case{Setup: `main`, Threads: [][]int{{i}, {j}, {k}}, Bound: 1}) {
						return
					}
				}
			}
		}
		product(func(ix []int) bool {
			return yield(c08Case{Setup: `cache`, Threads: [][]int{{ix[0], ix[1]}, {ix[2], ix[3]}, {ix[4]}}, Bound: 3})
		}, len(c08CacheOps), len(c08CacheOps), len(c08CacheOps), len(c08CacheOps), len(c08CacheOps))
	}
}

func c08Setup_(w *runner.W) {
	setupFS(w)
	c08Init()
	// dgo has constant keys for serialization and computes their hash codes when they are first used, without any
	// synchronization. That's a matter of dgo
	d := streamer.DgoDialect()
	for _, k := range []dgo.String{d.TypeKey(), d.ValueKey(), d.RefKey(), d.AliasTypeName(), d.BinaryTypeName(), d.MapTypeName(), d.SensitiveTypeName(), d.TimeTypeName()} {
		k.HashCode()
	}
}

var c08Artifact = regexp.MustCompile(`(?m)^(Read|Write|Previous read|Previous write|Atomic read|Previous atomic read|Atomic write|Previous atomic write) at .*\n(  sync/atomic\..*\n .*\n)+  (runtime|github\.com/lyraproj/.*)\.`)

var c08Logged int64

// c08Races returns what the race detector has reported since the last time
func c08Races(w *runner.W) string {
	fs, _ := filepath.Glob(filepath.Join(os.Getenv(`VERIF_RACE_LOGS`), fmt.Sprintf(`race.%d`, os.Getpid())))
	if len(fs) == 0 {
		return `?`
	}
	bs, _ := os.ReadFile(fs[0])
	if c08Logged > int64(len(bs)) {
		c08Logged = 0
	}
	r := string(bs[c08Logged:])
	c08Logged = int64(len(bs))
	// The runtime accesses its own data, which can be in memory that was used for something else, when there's a panic. The
	// program itself uses no atomics except those of vatomic.
	var reports []string
	for _, b := range strings.Split(r, "==================\n") {
		if strings.TrimSpace(b) != `` && !c08Artifact.MatchString(b) {
			reports = append(reports, b)
		}
	}
	return strings.Join(reports, "\n")
}

func c08Check(w *runner.W, ci interface{}) {
	c := ci.(c08Case)
	if c.Setup == `cache` {
		c08Cache(w, c)
		return
	}
	su := c08Setups[c.Setup]
	theFS.set(su.files)
	alone := func(i int) (r string) {
		withSession(su.top, su.options(), func(s api.Session) { r = su.ops[i].do(s) })
		if strings.HasPrefix(r, `pid `) {
			r = `pid`
		}
		return
	}
	// The lookups are made alone after the first schedule, which starts with nothing remembered by the process in a worker's
	// first case (and when a violation is confirmed or replayed)
	want := map[int]string{}
	expect := func(i int) string {
		if _, ok := want[i]; !ok {
			want[i] = alone(i)
			w.Eval(1)
		}
		return want[i]
	}
	describe := func() string {
		r := ``
		for i, t := range c.Threads {
			for _, o := range t {
				r += fmt.Sprintf("thread %d looks up %s\n", i, su.ops[o].name)
			}
		}
		return r
	}
	c08Explore(w, c, func(prefix []int, schedule func(*vsync.Result) string) *vsync.Result {
		var r *vsync.Result
		results := make([][]string, len(c.Threads))
		dead := false
		body := func(s api.Session) {
			if c.Warm > 0 {
				su.ops[c.Warm-1].do(s)
			}
			fs := make([]func(), len(c.Threads))
			for i := range c.Threads {
				i := i
				fs[i] = func() {
					for _, o := range c.Threads[i] {
						results[i] = append(results[i], su.ops[o].do(s))
					}
				}
			}
			r = vsync.Run(prefix, fs...)
			dead = r.Deadlock
		}
		if c.Setup == `plugin` {
			// the plugins are killed by the session, unless there's a deadlock
			withSession(su.top, su.options(), body)
		} else {
			body(newSession(su.top, su.options()))
		}
		if dead {
			w.Fail("deadlock\n%s%s\n%s", describe(), schedule(r), r.Threads)
			return nil
		}
		pid := ``
		for i, rs := range results {
			for k, got := range rs {
				o := c.Threads[i][k]
				if strings.HasPrefix(got, `pid `) {
					if pid != `` && pid != got {
						w.Fail("the same plugin is started twice: %s and %s\n%s", pid, got, schedule(r))
						return nil
					}
					pid = got
					got = `pid`
				}
				w.Outcome(got)
				if want := expect(o); got != want {
					w.Fail("thread %d: lookup of %s\nconcurrently: %s\n       alone: %s\n%s%s", i, su.ops[o].name, got, want, describe(), schedule(r))
					return nil
				}
			}
		}
		return r
	})
}

func newSession(top sdk.LookupKey, o map[string]interface{}) api.Session {
	return session.New(context.Background(), top, o, nil)
}

// c08Explore explores all schedules
func c08Explore(w *runner.W, c c08Case, run func(prefix []int, schedule func(*vsync.Result) string) *vsync.Result) {
	schedule := func(r *vsync.Result) string {
		var ss []string
		for _, s := range r.Steps {
			ss = append(ss, fmt.Sprint(s.Thread))
		}
		return `schedule: ` + strings.Join(ss, ``) + fmt.Sprintf(" (%d preemptions)", r.Steps[len(r.Steps)-1].Cost)
	}
	start := time.Now()
	st := vsync.Explore(vsync.Limits{Preemptions: c.Bound, Plain: c.Plain}, func(prefix []int) *vsync.Result {
		races := vsync.Races()
		r := run(prefix, schedule)
		w.Eval(1)
		if r != nil && vsync.Races() != races {
			if report := c08Races(w); report != `` {
				w.Fail("data race\n%v\n%s\n%s", c, schedule(r), report)
				return nil
			}
			w.Count(`ignored reports`, 1)
		}
		return r
	})
	w.Count(fmt.Sprintf(`ms %s, %d threads`, c.Setup, len(c.Threads)), time.Since(start).Milliseconds())
	w.Count(fmt.Sprintf(`schedules of %s, %d threads`, c.Setup, len(c.Threads)), int64(st.Schedules))
	w.Count(`schedules`, int64(st.Schedules))
	w.Transition(st.Steps)
	w.Count(`schedules that could not be repeated`, int64(st.Diverged))
	w.Count(`schedules of `+c.Setup+` that could not be repeated`, int64(st.Diverged))
	w.Count(`waits outside of the scheduler in `+c.Setup, int64(st.Stalls))
	w.Count(`waits outside of the scheduler`, int64(st.Stalls))
	w.Trace(st.Schedules)
}

// an operation on the cache that was executed
type c08Event struct {
	op       string // get, put
	key      string
	val      string // that was put
	ret      string // what was returned
	from, to int64
}

func c08Cache(w *runner.W, c c08Case) {
	c08Explore(w, c, func(prefix []int, schedule func(*vsync.Result) string) *vsync.Result {
		events := make([][]c08Event, len(c.Threads))
		seen := make([][][2]string, len(c.Threads))
		str := func(v dgo.Value) string {
			if v == nil {
				return `nothing`
			}
			return v.String()
		}
		lk := func(pc sdk.ProviderContext, key string) dgo.Value {
			var t, n, o int
			if c, _ := fmt.Sscanf(key, `op_%d_%d_%d`, &t, &n, &o); c != 3 || t >= len(events) {
				return nil
			}
			sc := pc.(api.ServerContext)
			val := fmt.Sprintf(`v%d%d`, t, n)
			e := c08Event{from: vsync.Tick(), val: val}
			op := c08CacheOps[o]
			e.key = op[len(op)-1:]
			switch op[:3] {
			case `put`:
				e.op = `put`
				e.ret = str(sc.Cache(e.key, vf.String(val)))
			case `get`:
				e.op = `get`
				v, _ := sc.CachedValue(e.key)
				e.ret = str(v)
			case `all`:
				sc.CacheAll(vf.Map(`a`, val, `b`, val))
				e.to = vsync.Tick()
				for _, k := range []string{`a`, `b`} {
					e.op, e.key, e.ret = `store`, k, ``
					events[t] = append(events[t], e)
				}
				return vf.True
			case `ent`:
				sc.CachedEntries(func(k string, v dgo.Value) { seen[t] = append(seen[t], [2]string{k, str(v)}) })
				return vf.True
			}
			e.to = vsync.Tick()
			events[t] = append(events[t], e)
			return vf.True
		}
		s := newSession(lk, map[string]interface{}{api.HieraConfig: theFS.path(`none`)})
		fs := make([]func(), len(c.Threads))
		results := make([]string, len(c.Threads))
		for i := range c.Threads {
			i := i
			fs[i] = func() {
				for n, o := range c.Threads[i] {
					results[i] += catch(func() dgo.Value {
						return s.Invocation(nil, nil).Lookup(api.NewKey(fmt.Sprintf(`op_%d_%d_%d`, i, n, o)), nil)
					}).String()
				}
			}
		}
		r := vsync.Run(prefix, fs...)
		if r.Deadlock {
			w.Fail("deadlock\n%s\n%s", schedule(r), r.Threads)
			return nil
		}
		for i, x := range results {
			if x != strings.Repeat(`value true`, len(c.Threads[i])) {
				w.Fail("the functions weren't called: %s", results)
				return nil
			}
		}
		var all []c08Event
		for _, es := range events {
			all = append(all, es...)
		}
		w.Outcome(all)
		if !c08Linearizable(all) {
			w.Fail("there is no order of the operations on the cache that explains what they returned:\n%s\n%s", c08Describe(all), schedule(r))
			return nil
		}
		// what is in the end, and what has been seen, must be something that was put
		final := map[string]string{}
		s.Invocation(nil, nil).ServerContext(nil).CachedEntries(func(k string, v dgo.Value) { final[k] = str(v) })
		for _, ss := range append(seen, c08Pairs(final)) {
			for _, kv := range ss {
				ok := false
				for _, e := range all {
					ok = ok || e.op != `get` && e.key == kv[0] && e.val == kv[1]
				}
				if !ok {
					w.Fail("an entry that nobody added is in the cache: %v\n%s\n%s", kv, c08Describe(all), schedule(r))
					return nil
				}
			}
		}
		// The last one must also be explained
		for k := range map[string]bool{`a`: true, `b`: true} {
			v, ok := final[k]
			if !ok {
				v = `nothing`
			}
			all = append(all, c08Event{op: `get`, key: k, ret: v, from: 1 << 60, to: 1 << 61})
		}
		if !c08Linearizable(all) {
			w.Fail("there is no order of the operations on the cache that explains what is in it at the end:\n%s\n%s", c08Describe(all), schedule(r))
			return nil
		}
		return r
	})
}

func c08Pairs(m map[string]string) (r [][2]string) {
	for k, v := range m {
		r = append(r, [2]string{k, v})
	}
	return
}

func c08Describe(es []c08Event) string {
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	r := ``
	for _, e := range es {
		r += fmt.Sprintf("%d-%d %s %s %s: %s\n", e.from, e.to, e.op, e.key, e.val, e.ret)
	}
	return r
}

// c08Linearizable tries all orders of the operations
func c08Linearizable(es []c08Event) bool {
	used := make([]bool, len(es))
	state := map[string]string{}
	var try func(n int) bool
	try = func(n int) bool {
		if n == len(es) {
			return true
		}
		for i, e := range es {
			if used[i] {
				continue
			}
			first := true
			for j, o := range es {
				if !used[j] && j != i && o.to < e.from {
					first = false
					break
				}
			}
			if !first {
				continue
			}
			old, ok := state[e.key]
			cur := old
			if !ok {
				cur = `nothing`
			}
			switch e.op {
			case `get`:
				if cur != e.ret {
					continue
				}
			case `put`:
				if cur != e.ret {
					continue
				}
				state[e.key] = e.val
			case `store`:
				state[e.key] = e.val
			}
			used[i] = true
			if try(n + 1) {
				return true
			}
			used[i] = false
			if ok {
				state[e.key] = old
			} else {
				delete(state, e.key)
			}
		}
		return false
	}
	return try(0)
}

func c08Prepare(dir string) []string {
	exe := dir + `/testplugin`
	goBuild(dir, exe, `verif/mc/testplugin`)
	must(os.MkdirAll(dir+`/races`, 0755))
	return []string{`WORKER_EXE=` + instrumented(dir), `VERIF_PLUGIN=` + exe, `VERIF_RACE_LOGS=` + dir + `/races`, `GORACE=halt_on_error=0 history_size=3 log_path=` + dir + `/races/race`}
}

var _ = model.Canon

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C08`,
		Level: `model_checking`,
		Rule:  `Each case is a set of lookups (or operations on the cache) that threads perform in one session. All schedules of them within the bound on preemptions are executed on the real code under a scheduler that controls every operation on mutexes, maps, once and atomics in hiera and the loader that it uses, one for each way to order dependent operations. The race detector watches every schedule.`,
		Assumptions: []string{
			`code between two synchronization operations executes without being interleaved with other code, which can't be observed unless there's a data race, and that is reported by the race detector`,
			`an operation that adds several entries to the cache takes effect one entry at a time, and CachedEntries sees each entry at some point in time`,
			`that dgo computes the hash codes of its constant keys when they are first used is not judged`,
		},
		Enumerate:   c08Enum,
		Check:       c08Check,
		Setup:       c08Setup_,
		Prepare:     c08Prepare,
		CaseTimeout: 10 * time.Minute,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`threads`: 3, `preemptions`: pick(tier, 2, 3), `lookups per thread`: 2}
		},
	}
})
