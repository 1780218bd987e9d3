package props

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"verif/mc/model"
	"verif/mc/runner"
)

// C12: what configurations resolve to. Every file contains its own path and every function returns a description of how it
// was called, so a lookup that makes a unique merge of everything tells what was consulted, in which order, and how.

type c12Case struct {
	Fn, DefFn, DD, DefDD, Env, Opt, DefOpt, Loc int
	Vars                                        int
	Sub                                         bool `json:",omitempty"` // configuration in a sub directory
	Sel                                         *c12Sel
	Form                                        string `json:",omitempty"`
	Size                                        int    `json:",omitempty"` // number of locations
}

// c12Sel is how the configuration is selected
type c12Sel struct {
	Config, Root, File, Env, Cwd string
	Files                        int // which of the configurations that exist
}

type c12Fn struct{ kind, name string }

var c12Fns = []c12Fn{{}, {`data_hash`, `yaml_data`}, {`data_hash`, `json_data`}, {`data_hash`, `dh`}, {`lookup_key`, `lk`}, {`data_dig`, `dd`}, {`lookup_key`, `%{fnv}`}, {`data_hash`, `%{fnh}`}, {`lookup_key`, `nofn`}}

// the first one is no defaults at all
var c12DefFns = []c12Fn{{`none`, ``}, {}, {`data_hash`, `json_data`}, {`lookup_key`, `lk2`}, {`data_dig`, `%{fnd}`}, {`data_hash`, `dh`}}

var c12DDs = []string{``, `d1`, `%{ddv}`, `ABS`, `../up`, `d1/d2`, `.`, `x%{missing}/../d%{num}`}
var c12DefDDs = []string{``, `d2`, `%{ddv}/d2`, `ABS`}
var c12Envs = []string{``, `envd`, `ABS`}
var c12Opts = []*model.M{nil, {}, model.NewM(`a`, 1), model.NewM(`s`, `<%{ov}>`, `l`, model.List{`%{ov}`, model.NewM(`k%{num}`, `%{m.f}`)}, `n`, nil)}
var c12DefOpts = []*model.M{nil, model.NewM(`a`, `def`, `z`, `%{ov}`), {}}

var c12Locs = []*model.Loc{
	nil,
	{Kind: `path`, S: []string{`a.yaml`}},
	{Kind: `path`, S: []string{`%{m.f}/a.yaml`}},
	{Kind: `path`, S: []string{`nope.yaml`}},
	{Kind: `paths`, S: []string{`b.yaml`, `nope.yaml`, `a.yaml`}},
	{Kind: `paths`, S: []string{`%{str}.yaml`, `%{missing}a.yaml`, `%{num}.yaml`}},
	{Kind: `glob`, S: []string{`*.yaml`}},
	{Kind: `glob`, S: []string{`sub/**/*.yaml`}},
	{Kind: `glob`, S: []string{`**/%{list.0}.yaml`}},
	{Kind: `glob`, S: []string{`nope/*`}},
	{Kind: `glob`, S: []string{`*`}},
	{Kind: `globs`, S: []string{`sub/*`, `{b,a}.yaml`, `?.yaml`, `[3c]*.*`}},
	{Kind: `globs`, S: []string{`nope*`, `%{m.f}/d*/*`}},
	{Kind: `uri`, S: []string{`http://h/%{str}?q=1`}},
	{Kind: `uris`, S: []string{`x:%{missing}`, `a.yaml`, `http://h`}},
	{Kind: `mapped_paths`, S: []string{`list`, `v`, `%{v}.yaml`}},
	{Kind: `mapped_paths`, S: []string{`str`, `v`, `%{v}.yaml`}},
	{Kind: `mapped_paths`, S: []string{`m.list`, `v`, `%{m.f}/%{v.p}.yaml`}},
	{Kind: `mapped_paths`, S: []string{`list`, `str`, `%{str}.yaml`}},
	{Kind: `mapped_paths`, S: []string{`missing`, `v`, `%{v}.yaml`}},
	{Kind: `mapped_paths`, S: []string{`nums`, `v`, `%{v}.yaml`}},
	{Kind: `mapped_paths`, S: []string{`none`, `v`, `a.yaml`}},
	{Kind: `mapped_paths`, S: []string{`nested`, `v`, `%{v.0}.yaml`}},
}

var c12Vars = []*model.M{
	model.NewM(`fnv`, `lk`, `fnh`, `dh`, `fnd`, `dd`, `ddv`, `d1`, `ov`, `oval`, `num`, 3, `str`, `c`, `list`, model.List{`b`, `nope`, `a`},
		`nums`, model.List{3, 4}, `none`, model.List{}, `nested`, model.List{model.List{`b`}, model.List{`a`, `c`}, `b`, 3}, `m`, model.NewM(`f`, `sub`, `list`, model.List{model.NewM(`p`, `x`), model.NewM(`p`, `a`)})),
	model.NewM(`fnv`, `lk2`, `ddv`, `d2`, `list`, model.List{`a`}, `m`, model.NewM(`f`, `sub/deep`)),
	{},
}

// c12Session are the variables of the session. Those of the invocation hide them
var c12Session = model.NewM(`fnh`, `dh`, `fnd`, `dd`, `ddv`, `nope`, `str`, `b`, `num`, 1)

var c12TreeFiles = []string{`a.yaml`, `b.yaml`, `c.yaml`, `3.yaml`, `1.yaml`, `cc.json`, `sub/a.yaml`, `sub/B.yaml`, `sub/b.json`, `sub/deep/x.yaml`, `sub/deep/a.yaml`, `.h.yaml`, `sub/.hid/a.yaml`}
var c12TreeDirs = []string{`r`, `r/data`, `r/d1`, `r/d1/d2`, `r/d2`, `r/d2/d2`, `r/d3`, `r/envd`, `up`, `r/up`, `abs`,
	`r/conf`, `r/conf/data`, `r/conf/d1`, `r/conf/d1/d2`, `r/conf/d2`, `r/conf/d3`, `r/conf/envd`}

var c12Tree map[string]string

func c12Enum(tier string, yield func(interface{}) bool) {
	for _, s := range c12Sels(tier) {
		s := s
		if !yield(c12Case{Sel: &s}) {
			return
		}
	}
	for _, f := range []string{`path`, `paths`, `glob`, `globs`, `tree`, `uris`, `mapped_paths`, `entries`, `options`} {
		for _, n := range sizes(pick(tier, 260, 2100)) {
			if !yield(c12Case{Form: f, Size: n}) {
				return
			}
		}
	}
	seen := map[c12Case]bool{}
	emit := func(c c12Case) bool {
		if seen[c] {
			return true
		}
		seen[c] = true
		return yield(c)
	}
	nf, ndf, nd, ndd, ne, no, ndo, nl := len(c12Fns), len(c12DefFns), len(c12DDs), len(c12DefDDs), len(c12Envs), len(c12Opts), len(c12DefOpts), len(c12Locs)
	if tier == `thorough` {
		for vars := range c12Vars {
			for sub := 0; sub < 2; sub++ {
				if !product(func(ix []int) bool {
					return emit(c12Case{Fn: ix[0], DefFn: ix[1], DD: ix[2], DefDD: ix[3], Env: ix[4], Opt: ix[5], DefOpt: ix[6], Loc: ix[7], Vars: vars, Sub: sub == 1})
				}, nf, ndf, nd, ndd, 2, no, 2, nl) {
					return
				}
			}
		}
		return
	}
	for vars := range c12Vars {
		if !product(func(ix []int) bool {
			return emit(c12Case{Fn: ix[0], DefFn: ix[1], DD: ix[2], Loc: ix[3], Vars: vars})
		}, nf, ndf, nd, nl) ||
			!product(func(ix []int) bool {
				return emit(c12Case{DefFn: ix[0], DD: ix[1], DefDD: ix[2], Env: ix[3], Loc: ix[4], Vars: vars})
			}, ndf, nd, ndd, ne, nl) ||
			!product(func(ix []int) bool {
				return emit(c12Case{Fn: ix[0], DefFn: ix[1], Opt: ix[2], DefOpt: ix[3], Loc: ix[4], Vars: vars})
			}, nf, ndf, no, ndo, nl) ||
			!product(func(ix []int) bool {
				return emit(c12Case{Fn: ix[0], DD: ix[1], DefDD: ix[2], Env: ix[3], Loc: ix[4], Vars: vars, Sub: true})
			}, 2, nd, ndd, ne, nl) {
			return
		}
	}
}

func c12Sels(tier string) (r []c12Sel) {
	for _, config := range []string{``, `ABS/r/cfg/explicit.yaml`, `cfg/explicit.yaml`, `ABS/r/nope.yaml`, `nope/nope.yaml`} {
		for _, root := range []string{``, `ABS/r/rt`, `rt`, `ABS/r/nodir`} {
			for _, file := range []string{``, `named.yaml`, `sub/named.yaml`, `nope.yaml`} {
				for _, env := range []string{``, `env.yaml`, `ABS/r/cfg/env.yaml`, `nope.yaml`} {
					for _, cwd := range []string{`r`, `r/cwd`} {
						for files := 0; files < 3; files++ {
							r = append(r, c12Sel{config, root, file, env, cwd, files})
						}
					}
				}
			}
		}
	}
	return
}

func c12Abs(s string) string { return strings.Replace(s, `ABS`, theFS.root, 1) }

var c12Ipl = regexp.MustCompile(`%{[^}]*}`)

// c12Str is what a string denotes when variables are replaced
func c12Str(s string, vars *model.M) string {
	return c12Ipl.ReplaceAllStringFunc(s, func(e string) string {
		v := c12Var(strings.Trim(e, `%{}`), vars)
		switch v := v.(type) {
		case nil:
			return ``
		case string:
			return v
		case int:
			return fmt.Sprint(v)
		}
		panic(e)
	})
}

func c12Var(name string, vars *model.M) model.Val {
	var v model.Val = vars
	for _, p := range strings.Split(name, `.`) {
		switch x := v.(type) {
		case *model.M:
			v, _ = x.Get(p)
		case model.List:
			v = nil
			for i := range x {
				if fmt.Sprint(i) == p {
					v = x[i]
				}
			}
		default:
			return nil
		}
	}
	return v
}

func c12Val(v model.Val, vars *model.M) model.Val {
	switch v := v.(type) {
	case string:
		return c12Str(v, vars)
	case model.List:
		r := make(model.List, len(v))
		for i := range v {
			r[i] = c12Val(v[i], vars)
		}
		return r
	case *model.M:
		r := model.NewM()
		for _, e := range v.E {
			r = r.With(c12Val(e.K, vars), c12Val(e.V, vars))
		}
		return r
	}
	return v
}

// globRx translates a glob to a regular expression
func globRx(g string) *regexp.Regexp {
	var b strings.Builder
	b.WriteByte('^')
	inBrace := 0
	for i := 0; i < len(g); i++ {
		switch c := g[i]; {
		case strings.HasPrefix(g[i:], `**/`):
			b.WriteString(`(?:[^/]+/)*`)
			i += 2
		case strings.HasPrefix(g[i:], `**`):
			b.WriteString(`.*`)
			i++
		case c == '*':
			b.WriteString(`[^/]*`)
		case c == '?':
			b.WriteString(`[^/]`)
		case c == '{':
			b.WriteString(`(?:`)
			inBrace++
		case c == '}':
			b.WriteString(`)`)
			inBrace--
		case c == ',' && inBrace > 0:
			b.WriteString(`|`)
		case c == '[' || c == ']':
			b.WriteByte(c)
		default:
			b.WriteString(regexp.QuoteMeta(string(c)))
		}
	}
	b.WriteByte('$')
	return regexp.MustCompile(b.String())
}

// c12Locations returns the files (or URIs) in the order they should be consulted, and false when there is no location
func c12Locations(l *model.Loc, dir string, vars *model.M) (r []string, has bool) {
	if l == nil {
		return nil, false
	}
	isFile := func(p string) bool {
		rel, err := filepath.Rel(theFS.root, p)
		_, ok := theFS.cur[rel]
		return err == nil && ok
	}
	add := func(p string) {
		if p = filepath.Join(dir, p); isFile(p) {
			r = append(r, p)
		}
	}
	switch strings.TrimSuffix(l.Kind, `s`) {
	case `path`:
		for _, p := range l.S {
			add(c12Str(p, vars))
		}
	case `uri`:
		for _, p := range l.S {
			r = append(r, c12Str(p, vars))
		}
	case `glob`:
		for _, p := range l.S {
			rx := globRx(filepath.Clean(`/` + c12Str(p, vars))[1:])
			var ms []string
			for f := range theFS.cur {
				if rel, err := filepath.Rel(dir, theFS.path(f)); err == nil && !strings.HasPrefix(rel, `..`) && rx.MatchString(rel) {
					ms = append(ms, theFS.path(f))
				}
			}
			sort.Strings(ms)
			r = append(r, ms...)
		}
	case `mapped_path`:
		var vs model.List
		switch v := c12Var(l.S[0], vars).(type) {
		case string:
			vs = model.List{v}
		case model.List:
			vs = v
		}
		for _, v := range vs {
			add(c12Str(l.S[2], vars.With(l.S[1], v)))
		}
	}
	return r, true
}

func c12Call(kind, name string, opts *model.M) string {
	if opts == nil {
		opts = &model.M{}
	}
	return kind + ` ` + name + ` ` + model.Canon(opts)
}

type c12Entry struct {
	fn  c12Fn
	dd  string
	opt *model.M
	loc *model.Loc
}

// c12Want is an independent interpretation of the configuration. It returns false for an error
func c12Want(root string, def c12Entry, hasDef bool, env string, entries []c12Entry, vars *model.M) ([]string, bool) {
	builtin := `data`
	if env != `` {
		builtin = env
	}
	var r []string
	seen := map[string]bool{}
	note := func(s string) {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	for _, e := range entries {
		fn := e.fn
		if fn.kind == `` && hasDef {
			fn = def.fn
		}
		if fn.kind == `` {
			fn = c12Fn{`data_hash`, `yaml_data`}
		}
		fn.name = c12Str(fn.name, vars)
		dir := e.dd
		if dir == `` && hasDef {
			dir = def.dd
		}
		if dir != `` {
			dir = c12Str(dir, vars)
		} else {
			// not part of the configuration, so not interpolated
			dir = builtin
		}
		if !filepath.IsAbs(dir) {
			dir = filepath.Join(root, dir)
		}
		opts := e.opt
		if opts == nil && hasDef {
			opts = def.opt
		}
		if opts == nil {
			opts = &model.M{}
		}
		opts = c12Val(opts, vars).(*model.M)
		locs, has := c12Locations(e.loc, dir, vars)
		if !has {
			locs = []string{``}
		}
		for _, l := range locs {
			o := opts
			if has {
				o = o.With(`path`, l)
			}
			switch fn.name {
			case `yaml_data`, `json_data`:
				if !has {
					return nil, false
				}
				rel, _ := filepath.Rel(theFS.root, l)
				if _, ok := c12Tree[rel]; ok {
					note(l)
				} // a file that doesn't exist is no data
			case `dh`, `lk`, `lk2`, `dd`:
				note(c12Call(fn.kind, fn.name, o))
			default:
				return nil, false // no such function
			}
		}
	}
	return r, true
}

func c12Functions() dgo.Map {
	m := vf.MutableMap()
	desc := func(kind, name string, pc sdk.ProviderContext) dgo.Value {
		o, _ := model.FromDgo(pc.OptionsMap()).(*model.M)
		return vf.String(c12Call(kind, name, o))
	}
	m.Put(`dh`, func(pc sdk.ProviderContext) dgo.Map { return vf.Map(`who`, desc(`data_hash`, `dh`, pc)) })
	for _, n := range []string{`lk`, `lk2`} {
		n := n
		m.Put(n, func(pc sdk.ProviderContext, key string) dgo.Value {
			if key == `who` {
				return desc(`lookup_key`, n, pc)
			}
			return nil
		})
	}
	m.Put(`dd`, func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
		if key.Len() == 1 && key.Get(0).Equals(`who`) {
			return desc(`data_dig`, `dd`, pc)
		}
		return nil
	})
	return m
}

func c12Who(opts map[string]interface{}, vars interface{}) (o outcome) {
	return catch(func() (v dgo.Value) {
		hiera.DoWithParent(context.Background(), provider.ConfigLookupKey, opts, func(s api.Session) {
			v = c12LookUp(s, vars)
		})
		return
	})
}

func c12LookUp(s api.Session, vars interface{}) dgo.Value {
	return hiera.Lookup2(s.Invocation(vars, nil), []string{`who`}, nil, nil, nil, nil, vf.Map(`merge`, `unique`), nil)
}

func c12Look(s api.Session, vars interface{}) outcome {
	return catch(func() dgo.Value { return c12LookUp(s, vars) })
}

func c12Judge(w *runner.W, got outcome, want []string, ok bool, doc string) {
	w.Eval(1)
	ws := `error`
	if ok {
		l := make(model.List, len(want))
		for i := range want {
			l[i] = want[i]
		}
		ws = `value ` + model.Canon(l)
		if len(l) == 0 {
			ws = `not found`
		}
	}
	w.Outcome(doc, ws)
	g := got.class()
	if s, isS := got.V.(string); isS {
		g = `value ` + model.Canon(model.List{s})
	}
	if g != ws {
		short := func(s string) string { return strings.Replace(s, theFS.root, ``, -1) }
		w.Fail("what was consulted:\n got: %s\nwant: %s\n%s", short(got.String()), short(ws), short(doc))
	}
}

// c12Size decides a case where there are many locations, entries, options, or levels
func c12Size(w *runner.W, form string, n int) {
	files := map[string]string{}
	var want, ss []string
	vars := c12Session
	cfg := &model.Config{}
	file := func(p string) {
		files[`r/data/`+p] = `who: ` + model.Quote(p) + "\n"
		want = append(want, p)
	}
	e := model.Entry{Name: `e`, Loc: &model.Loc{Kind: form}}
	switch form {
	case `path`:
		// a long name, and many levels
		p := strings.Repeat(`d/`, n) + `%{str}.yaml`
		if n < 200 {
			p = strings.Repeat(`d/`, n) + strings.Repeat(`x`, n) + `%{str}.yaml`
		}
		ss = []string{p}
		file(strings.Replace(p, `%{str}`, `b`, 1))
	case `paths`, `globs`:
		for i := n; i > 0; i-- {
			ss = append(ss, fmt.Sprintf(`f%d.y*l`, i))
			if form == `paths` {
				ss[len(ss)-1] = fmt.Sprintf(`f%d.yaml`, i)
			}
			if i%3 != 2 {
				file(fmt.Sprintf(`f%d.yaml`, i))
			}
		}
	case `glob`:
		ss = []string{`f?????.yaml`}
		for i := 0; i < n; i++ {
			file(fmt.Sprintf(`f%05d.yaml`, i))
		}
		files[`r/data/f1.yaml`] = "who: bad\n"
	case `tree`:
		// a file at each level
		e.Loc.Kind = `globs`
		ss = []string{`d/**/x.yaml`}
		for i := n; i > 0 && n < 200; i-- {
			file(strings.Repeat(`d/`, i) + `x.yaml`)
		}
		if n >= 200 {
			file(strings.Repeat(`d/`, n) + `x.yaml`)
		}
	case `uris`:
		e.Kind, e.Func = `lookup_key`, `lk`
		for i := 0; i < n; i++ {
			ss = append(ss, fmt.Sprintf(`http://h/%d`, n-i))
			want = append(want, c12Call(`lookup_key`, `lk`, model.NewM(`path`, fmt.Sprintf(`http://h/%d`, n-i))))
		}
	case `mapped_paths`:
		var l model.List
		ss = []string{`l`, `v`, `f%{v}.yaml`}
		for i := 0; i < n; i++ {
			l = append(l, n-i)
			if i%3 != 2 {
				file(fmt.Sprintf(`f%d.yaml`, n-i))
			}
		}
		vars = vars.With(`l`, l)
	case `entries`, `options`:
		opts := &model.M{}
		for i := 0; i < n; i++ {
			opts = opts.With(fmt.Sprintf(`o%d`, i), model.List{`%{str}`, i})
			o := model.NewM(`i`, i)
			if form == `entries` {
				cfg.Hierarchy = append(cfg.Hierarchy, model.Entry{Name: fmt.Sprintf(`e%d`, i), Kind: `lookup_key`, Func: `lk`, Options: o})
				want = append(want, c12Call(`lookup_key`, `lk`, o))
			}
		}
		e = model.Entry{Name: `e`, Kind: `lookup_key`, Func: `lk2`, Options: opts}
		ro := &model.M{}
		for _, x := range opts.E {
			ro = ro.With(x.K, model.List{`b`, x.V.(model.List)[1]})
		}
		want = append(want, c12Call(`lookup_key`, `lk2`, ro))
	}
	if e.Loc != nil {
		e.Loc.S = ss
	}
	cfg.Hierarchy = append(cfg.Hierarchy, e, model.Entry{Name: `last`, Kind: `lookup_key`, Func: `lk`})
	want = append(want, c12Call(`lookup_key`, `lk`, &model.M{}))
	files[`r/hiera.yaml`] = cfg.YAML()
	theFS.set(files)
	withSession(provider.ConfigLookupKey, map[string]interface{}{api.HieraConfig: theFS.path(`r/hiera.yaml`), api.HieraFunctions: c12Functions(), api.HieraScope: model.ToDgo(vars)}, func(s api.Session) {
		for i := 0; i < 2; i++ {
			c12Judge(w, c12Look(s, nil), want, true, files[`r/hiera.yaml`])
		}
	})
}

func c12Check(w *runner.W, ci interface{}) {
	c := ci.(c12Case)
	_ = os.Unsetenv(`HIERA_DATADIR`)
	_ = os.Unsetenv(`HIERA_CONFIGFILE`)
	if c.Sel != nil {
		c12CheckSel(w, *c.Sel)
		return
	}
	if c.Size > 0 {
		c12Size(w, c.Form, c.Size)
		return
	}
	def := c12Entry{fn: c12DefFns[c.DefFn], dd: c12Abs(c12DefDDs[c.DefDD]), opt: c12DefOpts[c.DefOpt]}
	hasDef := def.fn.kind != `none`
	if def.fn.kind == `none` {
		def.fn.kind = ``
		if def.dd != `` || def.opt != nil {
			hasDef = true
		}
	}
	entries := []c12Entry{
		{c12Fns[c.Fn], c12Abs(c12DDs[c.DD]), c12Opts[c.Opt], c12Locs[c.Loc]},
		{fn: c12Fn{`lookup_key`, `lk`}},
		{loc: &model.Loc{Kind: `path`, S: []string{`b.yaml`}}},
	}
	cfg := &model.Config{}
	put := func(e c12Entry, name string) model.Entry {
		return model.Entry{Name: name, Kind: e.fn.kind, Func: e.fn.name, DataDir: e.dd, Options: e.opt, Loc: e.loc}
	}
	if hasDef {
		d := put(def, ``)
		cfg.Defaults = &d
	}
	for i, e := range entries {
		cfg.Hierarchy = append(cfg.Hierarchy, put(e, fmt.Sprintf(`e%d`, i)))
	}
	rel := `r/hiera.yaml`
	if c.Sub {
		rel = `r/conf/my.yaml`
	}
	files := map[string]string{rel: cfg.YAML()}
	for p, t := range c12Tree {
		files[p] = t
	}
	theFS.set(files)
	env := c12Abs(c12Envs[c.Env])
	if env != `` {
		_ = os.Setenv(`HIERA_DATADIR`, env)
	}
	// the same configuration is resolved with different variables by each invocation
	withSession(provider.ConfigLookupKey, map[string]interface{}{api.HieraConfig: theFS.path(rel), api.HieraFunctions: c12Functions(), api.HieraScope: model.ToDgo(c12Session)}, func(s api.Session) {
		for i := 0; i <= len(c12Vars); i++ {
			own := c12Vars[(c.Vars+i)%len(c12Vars)]
			vars := c12Session
			for _, e := range own.E {
				vars = vars.With(e.K, e.V)
			}
			var iv interface{}
			if len(own.E) > 0 {
				iv = model.ToDgo(own)
			}
			got := c12Look(s, iv)
			want, ok := c12Want(filepath.Dir(theFS.path(rel)), def, hasDef, env, entries, vars)
			c12Judge(w, got, want, ok, fmt.Sprintf("%s: %s\nHIERA_DATADIR=%s\ninvocation %d, variables: %s", rel, files[rel], env, i+1, model.Canon(vars)))
		}
	})
}

func c12CheckSel(w *runner.W, s c12Sel) {
	self := func(p string) string { return `who: ` + model.Quote(p) + "\n" }
	files := map[string]string{`r/cwd/.keep`: ``, `r/.keep`: ``, `r/cwd/rt/.keep`: ``, `r/rt/.keep`: ``}
	conf := func(p string) {
		files[p] = "version: 5\nhierarchy:\n- name: x\n  datadir: .\n  path: " + model.Quote(filepath.Base(p)+`.data`) + "\n"
		files[p+`.data`] = self(p)
	}
	// data files that are used when there is no configuration
	for _, d := range []string{`r`, `r/cwd`, `r/rt`, `r/cwd/rt`, `r/cfg`, `r/cwd/cfg`} {
		if s.Files == 2 {
			files[d+`/data/common.yaml`] = self(d + `/data/common.yaml`)
			continue
		}
		files[d+`/data.yaml`] = self(d + `/data.yaml`)
		files[d+`/data/common.yaml`] = self(d + `/data/common.yaml`)
	}
	for _, d := range []string{`r/cfg`, `r/cwd/cfg`} {
		conf(d + `/explicit.yaml`)
		conf(d + `/env.yaml`)
	}
	for _, d := range []string{`r`, `r/cwd`, `r/rt`, `r/cwd/rt`} {
		if s.Files == 0 {
			conf(d + `/hiera.yaml`)
			conf(d + `/env.yaml`)
		}
		conf(d + `/named.yaml`)
		conf(d + `/sub/named.yaml`)
	}
	theFS.set(files)

	opts := map[string]interface{}{}
	cwd := theFS.path(s.Cwd)
	must(os.Chdir(cwd))
	defer func() { must(os.Chdir(theFS.root)) }()
	abs := func(dir, p string) string {
		if filepath.IsAbs(p) {
			return p
		}
		return filepath.Join(dir, p)
	}
	// The documented order
	root, name := cwd, `hiera.yaml`
	if s.Env != `` {
		name = c12Abs(s.Env)
		_ = os.Setenv(`HIERA_CONFIGFILE`, name)
	}
	if s.Root != `` {
		opts[api.HieraRoot] = c12Abs(s.Root)
		root = abs(cwd, c12Abs(s.Root))
	}
	if s.File != `` {
		opts[api.HieraConfigFileName] = s.File
		name = s.File
	}
	path := abs(root, name)
	if s.Config != `` {
		opts[api.HieraConfig] = c12Abs(s.Config)
		path = abs(cwd, c12Abs(s.Config))
	}
	rel, err := filepath.Rel(theFS.root, path)
	must(err)
	var want []string
	if _, ok := files[rel]; ok {
		want = []string{rel}
	} else {
		for _, p := range []string{`data.yaml`, `data/common.yaml`} {
			p = filepath.Join(filepath.Dir(rel), p)
			if _, ok := files[p]; ok {
				want = append(want, p)
			}
		}
	}
	c12Judge(w, c12Who(opts, nil), want, true, fmt.Sprintf("%+v", s))
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C12`,
		Level: `exploration`,
		Rule:  `One configuration each, with three entries and all combinations of functions, defaults, datadirs, environment, options, locations, and variables that fit in the bounds, each resolved by four invocations in a row that have different variables, up to 257 (thorough: 2049) locations, entries, or options; and all ways to select a configuration. Everything that is consulted, in which order and with which options, is observed and compared with an independent interpretation of the configuration.`,
		Assumptions: []string{
			`names of files and directories have no characters that are special to globs`,
			`variables in HIERA_DATADIR are not judged`,
			`default_hierarchy isn't covered (it's parsed but never consulted)`,
		},
		Enumerate: c12Enum,
		Check:     c12Check,
		Setup: func(w *runner.W) {
			setupFS(w)
			must(os.Chdir(theFS.root))
			c12Tree = map[string]string{}
			for _, d := range c12TreeDirs {
				for _, f := range c12TreeFiles {
					p := filepath.Join(d, f)
					c12Tree[p] = model.Flow(model.NewM(`who`, theFS.path(p)))
				}
			}
		},
		Bounds: func(tier string) interface{} {
			all := `functions x defaults x datadirs x locations, defaults x datadirs x default datadirs x environment x locations, functions x defaults x options x default options x locations`
			if tier == `thorough` {
				all = `full product of all dimensions`
			}
			return map[string]interface{}{`combined`: all, `functions`: len(c12Fns), `datadirs`: len(c12DDs), `locations`: len(c12Locs), `selections`: len(c12Sels(tier))}
		},
	}
})
