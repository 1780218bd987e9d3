package model

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Fn is a lookup function of any of the kinds data_hash (returns a *M), lookup_key and data_dig
type Fn func(c *Ctx, opts *M, key string) Found

// Loc is a location
type Loc struct {
	Kind string // path, paths, glob, globs, uri, uris, mapped_paths
	S    []string
}

// Entry is an entry in a hierarchy
type Entry struct {
	Name    string
	Kind    string // data_hash, lookup_key, data_dig or empty
	Func    string
	DataDir string
	Options *M
	Loc     *Loc
}

// Config is the contents of a hiera.yaml file
type Config struct {
	Defaults  *Entry
	Hierarchy []Entry // nil means default hierarchy
}

// World is everything that a lookup depends on
type World struct {
	// Config files and data files by absolute path. A nil data map is a file that can't be used
	Configs map[string]*Config
	Data    map[string]*M
	Bad     map[string]bool

	ConfigPath string
	ModulePath []string // directories, absolute
	Scope      func(name string) (Val, bool)
	Functions  map[string]Fn
	Env        map[string]string
	EnvDataDir string

	// Top is the names of the functions that are consulted: config, module, env, scope. If Mux is false then there is
	// just one and it is config
	Top []string
	Mux bool

	// Single is the contents of the file that the function yaml finds everything in
	Single *M
	// TopFns are further functions that can be in Top
	TopFns map[string]TopFn

	// Double is true when the values of a data_hash function are interpolated twice, which they should not be
	Double bool

	// Convert performs type conversions
	Convert func(typeAndArgs Val, v Val) Val
}

// TopFn is a function that finds values, and options for them
type TopFn struct {
	Data, Options *M
	Fail          map[string]string // keys that it fails for, and the messages
	Asks          map[string]string // keys that it does another lookup for, the outcome of which has no bearing
}

func get(m *M, k string) Found {
	if m == nil {
		return NotFound
	}
	v, ok := m.Get(k)
	return Found{v, ok}
}

func (f TopFn) find(m *M, k string) Found {
	if msg, ok := f.Fail[k]; ok {
		fail(`fn`, `%s`, msg)
	}
	return get(m, k)
}

// Ctx is the state of one top level lookup
type Ctx struct {
	W     *World
	stack []string
	cfgs  map[string]*resolved

	Consulted []string // path of all data files that were consulted

	// Trace receives what an explainer is told when it isn't nil
	Trace    *Trace
	on       bool // false where the explainer is out of sight
	redacted bool
}

// Trace is what an explainer is told
type Trace struct {
	Options, OnlyOptions bool
	Events               []string
}

func (c *Ctx) ev(format string, args ...interface{}) {
	if c.on {
		c.Trace.Events = append(c.Trace.Events, fmt.Sprintf(format, args...))
	}
}

func (c *Ctx) push(format string, args ...interface{}) func() {
	c.ev(`push `+format, args...)
	on := c.on
	return func() {
		outer := c.on
		c.on = on
		c.ev(`pop`)
		c.on = outer
	}
}

func (c *Ctx) shown(v Val) string {
	if c.redacted {
		return `"value redacted"`
	}
	return Canon(redact(unpct(v)))
}

// redact replaces what is wrapped by all contained Sensitive values
func redact(v Val) Val {
	switch v := v.(type) {
	case List:
		r := make(List, len(v))
		for i := range v {
			r[i] = redact(v[i])
		}
		return r
	case *M:
		r := &M{}
		for _, e := range v.E {
			r.E = append(r.E, KV{e.K, redact(e.V)})
		}
		return r
	case Sensitive:
		return Sensitive{`value redacted`}
	}
	return v
}

func (c *Ctx) evFound(key interface{}, f Found) {
	if f.OK {
		c.ev(`found %v %s`, key, c.shown(f.V))
	} else {
		c.ev(`not found %v`, key)
	}
}

// visible limits what the explainer sees until the returned function is called
func (c *Ctx) visible(yes bool) func() {
	on := c.on
	c.on = on && yes
	return func() { c.on = on }
}

func (c *Ctx) forOptions() func() {
	return c.visible(c.Trace != nil && (c.Trace.Options || c.Trace.OnlyOptions))
}

func (c *Ctx) forData() func() {
	return c.visible(c.Trace != nil && !c.Trace.OnlyOptions)
}

func (c *Ctx) dig(src string, v Val, parts []Part) (Val, bool) {
	if len(parts) == 1 {
		return v, true
	}
	defer c.push(`sub %s`, src)()
	for _, p := range parts[1:] {
		var ok bool
		func() {
			defer c.push(`segment %v`, p.Val())()
			v, ok = Dig(v, []Part{p})
			c.evFound(p.Val(), Found{v, ok})
		}()
		if !ok {
			return nil, false
		}
	}
	return v, true
}

// merge consults the given sources and tells the explainer about it
func (c *Ctx) merge(strategy string, sources []func() Found) Found {
	if strategy != `first` && len(sources) > 1 {
		defer c.push(`merge %s`, strategy)()
	}
	f := Merge(strategy, sources)
	if f.OK && len(sources) > 1 {
		c.ev(`result %s`, c.shown(f.V))
	}
	return f
}

type resolved struct {
	providers []*provider
	luOpts    *M
	module    string
}

type provider struct {
	e       Entry
	locs    []location
	hasLocs bool
}

type location struct {
	path   string
	exists bool
	kind   string // path or uri
	orig   string // as written in the configuration
}

// NewCtx creates the context of one lookup
func NewCtx(w *World) *Ctx {
	return &Ctx{W: w, cfgs: map[string]*resolved{}}
}

// pct stands for a '%' in the result of an interpolation. It must not start another interpolation
const pct = "\ue000"

func opaque(v Val) Val { return replace(v, `%`, pct) }
func unpct(v Val) Val  { return replace(v, pct, `%`) }

func replace(v Val, from, to string) Val {
	switch v := v.(type) {
	case string:
		return strings.Replace(v, from, to, -1)
	case List:
		r := make(List, len(v))
		for i := range v {
			r[i] = replace(v[i], from, to)
		}
		return r
	case *M:
		r := &M{}
		for _, e := range v.E {
			r = r.With(replace(e.K, from, to), replace(e.V, from, to))
		}
		return r
	case Sensitive:
		return Sensitive{replace(v.V, from, to)}
	}
	return v
}

// Lookup performs a lookup
func (c *Ctx) Lookup(key string, mergeOpt Val) (r Found, err *Err) {
	c.on = c.Trace != nil
	err = Try(func() {
		r = c.lookup(key, mergeOpt)
		r.V = unpct(r.V)
	})
	if err != nil {
		r = NotFound
	}
	return
}

func (c *Ctx) enter(name string) func() {
	for _, n := range c.stack {
		if n == name {
			fail(`recursive`, `%v`, c.stack)
		}
	}
	c.stack = append(c.stack, name)
	return func() { c.stack = c.stack[:len(c.stack)-1] }
}

func (c *Ctx) lookup(src string, mergeOpt Val) Found {
	parts, _, err := ParseKey(src)
	if err != nil {
		panic(err)
	}
	defer c.enter(src)()
	root := parts[0].S
	if root == `lookup_options` {
		defer c.push(`invalid %s`, src)()
		c.ev(`not found %s`, src)
		return NotFound
	}
	var r Found
	if c.W.Mux {
		r = c.mux(root, mergeOpt)
	} else if len(c.W.Top) > 0 && c.W.Top[0] != `config` && c.W.Top[0] != `module` {
		r = c.topData(c.W.Top[0], root)
	} else {
		rc := c.config(c.W.ConfigPath, ``)
		func() {
			defer c.forData()()
			defer c.push(`lookup %s`, RootSource(root))()
			r = c.withOptions(mergeOpt, rc.options(root), func(s string) Found { return c.hierarchy(rc, root, s) })
		}()
	}
	if !r.OK {
		return r
	}
	defer c.forData()()
	var ok bool
	if r, ok = c.interpolate(r.V, true); !ok {
		return NotFound
	}
	v, ok := c.dig(src, r.V, parts)
	return Found{v, ok}
}

// inModule calls the given function with the configuration of the module that the key belongs to
func (c *Ctx) inModule(root string, f func(rc *resolved) Found) Found {
	m, p := c.module(root)
	if m == `` {
		return NotFound
	}
	defer c.push(`module %s`, m)()
	if p == `` {
		c.ev(`module not found`)
		return NotFound
	}
	return f(c.config(p, m))
}

func (c *Ctx) mux(root string, mergeOpt Val) Found {
	var lo []func() Found
	for _, t := range c.W.Top {
		t := t
		lo = append(lo, func() Found {
			switch t {
			case `config`:
				return mapFound(c.config(c.W.ConfigPath, ``).options(root))
			case `module`:
				return c.inModule(root, func(rc *resolved) Found { return mapFound(rc.options(root)) })
			}
			if f, ok := c.W.TopFns[t]; ok {
				return f.find(f.Options, root)
			}
			return NotFound
		})
	}
	var opts *M
	func() {
		defer c.forOptions()()
		if f := c.merge(`deep`, lo); f.OK {
			opts, _ = f.V.(*M)
		}
	}()
	defer c.forData()()
	defer c.push(`lookup %s`, RootSource(root))()
	return c.withOptions(mergeOpt, opts, func(s string) Found {
		var src []func() Found
		for _, t := range c.W.Top {
			t := t
			src = append(src, func() Found {
				switch t {
				case `config`:
					return c.hierarchy(c.config(c.W.ConfigPath, ``), root, s)
				case `module`:
					return c.inModule(root, func(rc *resolved) Found { return c.hierarchy(rc, root, s) })
				}
				return c.topData(t, root)
			})
		}
		return c.merge(s, src)
	})
}

// topData calls a function that has no configuration
func (c *Ctx) topData(t, root string) Found {
	switch t {
	case `scope`:
		v, ok := c.W.Scope(root)
		return Found{v, ok}
	case `env`:
		return c.env(root)
	case `yaml`:
		return get(c.W.Single, root)
	}
	f := c.W.TopFns[t]
	return f.find(f.Data, root)
}

func (c *Ctx) env(root string) Found {
	if root == `env` {
		m := &M{}
		for k, v := range c.W.Env {
			m.E = append(m.E, KV{k, v})
		}
		return Found{m, true}
	}
	if strings.HasPrefix(root, `env::`) {
		v, ok := c.W.Env[root[5:]]
		if ok {
			return Found{v, true}
		}
	}
	return NotFound
}

func mapFound(m *M) Found {
	if m == nil {
		return NotFound
	}
	return Found{m, true}
}

// module finds the module that the given key belongs to and returns its name and the path of its configuration
func (c *Ctx) module(key string) (string, string) {
	ci := strings.Index(key, `::`)
	if ci <= 0 {
		return ``, ``
	}
	name := strings.ToLower(key[:ci])
	for _, dir := range c.W.ModulePath {
		var cps []string
		for p := range c.W.Configs {
			d := filepath.Dir(p)
			if filepath.Dir(d) == dir && strings.ToLower(filepath.Base(d)) == name {
				cps = append(cps, p)
			}
		}
		if len(cps) > 0 {
			sort.Strings(cps)
			return name, cps[0]
		}
	}
	return name, ``
}

func (c *Ctx) withOptions(mergeOpt Val, opts *M, f func(strategy string) Found) Found {
	var mo Val = mergeOpt
	if mo != nil {
		c.ev(`source CLI option`)
	} else if opts != nil {
		var ok bool
		if mo, ok = opts.Get(`merge`); ok {
			c.ev(`source "lookup_options" hash`)
		}
	}
	strategy := `first`
	switch mo := mo.(type) {
	case string:
		strategy = mo
	case *M:
		strategy = ``
		if s, ok := mo.Get(`strategy`); ok {
			strategy, _ = s.(string)
		}
	}
	switch strategy {
	case `first`, `unique`, `hash`, `deep`:
	default:
		fail(`merge`, `unknown merge strategy '%s'`, strategy)
	}
	outer := c.redacted
	c.redacted = outer || isSensitive(opts)
	r := f(strategy)
	c.redacted = outer
	if r.OK && opts != nil {
		if ct, ok := opts.Get(`convert_to`); ok {
			r.V = c.W.Convert(ct, r.V)
		}
	}
	return r
}

func isSensitive(opts *M) bool {
	if opts == nil {
		return false
	}
	ct, _ := opts.Get(`convert_to`)
	if l, ok := ct.(List); ok && len(l) > 0 {
		ct = l[0]
	}
	s, ok := ct.(string)
	return ok && strings.HasPrefix(strings.ToLower(s), `sensitive`)
}

// config resolves the given configuration
func (c *Ctx) config(path, module string) *resolved {
	if rc := c.cfgs[path]; rc != nil {
		return rc
	}
	cfg := c.W.Configs[path]
	if c.W.Bad[path] {
		fail(`config`, `%s`, path)
	}
	root := filepath.Dir(path)
	rc := &resolved{module: module}
	restore := c.visible(false)
	dfltDir := `data`
	if c.W.EnvDataDir != `` {
		dfltDir = c.W.EnvDataDir
	}
	dflts := Entry{Kind: `data_hash`, Func: `yaml_data`, DataDir: dfltDir, Options: &M{}}
	var hier []Entry
	if cfg != nil {
		if d := cfg.Defaults; d != nil {
			if d.Func != `` {
				dflts.Kind, dflts.Func = d.Kind, c.str(d.Func)
			}
			if d.DataDir != `` {
				dflts.DataDir = c.str(d.DataDir)
			}
			if d.Options != nil {
				dflts.Options = c.opts(d.Options)
			}
		}
		hier = cfg.Hierarchy
	}
	if cfg == nil || hier == nil {
		hier = []Entry{{Name: `Root`, DataDir: `.`, Loc: &Loc{`path`, []string{`data.yaml`}}}, {Name: `Common`, Loc: &Loc{`path`, []string{`common.yaml`}}}}
	}
	for _, e := range hier {
		if e.Func == `` {
			e.Kind, e.Func = dflts.Kind, dflts.Func
		} else {
			e.Func = c.str(e.Func)
		}
		if e.DataDir == `` {
			e.DataDir = dflts.DataDir
		} else {
			e.DataDir = c.str(e.DataDir)
		}
		if !filepath.IsAbs(e.DataDir) {
			e.DataDir = filepath.Join(root, e.DataDir)
		}
		if e.Options == nil {
			e.Options = dflts.Options
		} else {
			e.Options = c.opts(e.Options)
		}
		p := &provider{e: e}
		c.locations(p)
		rc.providers = append(rc.providers, p)
	}
	restore()
	func() {
		defer c.forOptions()()
		defer c.push(`lookup lookup_options`)()
		if f := c.hierarchyOf(rc, `lookup_options`, `deep`); f.OK {
			rc.luOpts, _ = unpct(f.V).(*M)
		}
	}()
	c.cfgs[path] = rc
	return rc
}

func (c *Ctx) exists(p string) bool {
	if _, ok := c.W.Data[p]; ok {
		return true
	}
	return c.W.Bad[p]
}

func (c *Ctx) locations(p *provider) {
	if p.e.Loc == nil {
		return
	}
	p.hasLocs = true
	add := func(s, orig string) {
		fp := filepath.Join(p.e.DataDir, s)
		p.locs = append(p.locs, location{fp, c.exists(fp), `path`, orig})
	}
	switch p.e.Loc.Kind {
	case `path`, `paths`:
		for _, s := range p.e.Loc.S {
			add(c.str(s), s)
		}
	case `glob`, `globs`:
		for _, s := range p.e.Loc.S {
			var ms []string
			pat := globRegexp(filepath.Join(p.e.DataDir, c.str(s)))
			for f := range c.W.Data {
				if pat.MatchString(f) {
					ms = append(ms, f)
				}
			}
			sort.Strings(ms)
			for _, m := range ms {
				p.locs = append(p.locs, location{m, true, `path`, s})
			}
		}
	case `uri`, `uris`:
		for _, s := range p.e.Loc.S {
			p.locs = append(p.locs, location{c.str(s), true, `uri`, s})
		}
	case `mapped_paths`:
		s := p.e.Loc.S
		f := c.scopeExpr(s[0], false)
		var l List
		switch v := f.V.(type) {
		case string:
			l = List{v}
		case List:
			l = v
		}
		if !f.OK {
			l = nil
		}
		outer := c.W.Scope
		for _, v := range l {
			v := v
			cc := *c
			cw := *c.W
			cw.Scope = func(n string) (Val, bool) {
				if n == s[1] {
					return v, true
				}
				return outer(n)
			}
			cc.W = &cw
			add(cc.str(s[2]), s[2])
		}
	}
}

func globRegexp(g string) *regexp.Regexp {
	var b strings.Builder
	b.WriteString(`^`)
	for i := 0; i < len(g); i++ {
		switch {
		case strings.HasPrefix(g[i:], `**/`):
			b.WriteString(`(?:.*/)?`)
			i += 2
		case g[i] == '*':
			b.WriteString(`[^/]*`)
		case g[i] == '?':
			b.WriteString(`[^/]`)
		case g[i] == '{':
			b.WriteString(`(?:`)
		case g[i] == '}':
			b.WriteString(`)`)
		case g[i] == ',':
			b.WriteString(`|`)
		default:
			b.WriteString(regexp.QuoteMeta(g[i : i+1]))
		}
	}
	b.WriteString(`$`)
	return regexp.MustCompile(b.String())
}

// ConfigOptions returns the options that the configuration with the given path, used for the given module, gives for
// the given key
func (c *Ctx) ConfigOptions(path, module, root string) (r Found, err *Err) {
	err = Try(func() { r = mapFound(c.config(path, module).options(root)) })
	return
}

func (rc *resolved) options(root string) *M {
	if rc.luOpts == nil || rc.module != `` && !strings.HasPrefix(root, rc.module+`::`) {
		return nil
	}
	v, _ := rc.luOpts.Get(root)
	m, _ := v.(*M)
	return m
}

func (c *Ctx) hierarchy(rc *resolved, root, strategy string) Found {
	return c.hierarchyOf(rc, root, strategy)
}

func (c *Ctx) hierarchyOf(rc *resolved, root, strategy string) Found {
	var src []func() Found
	for _, p := range rc.providers {
		p := p
		src = append(src, func() Found {
			defer c.push(`provider %s function '%s'`, p.e.Kind, p.e.Func)()
			if !p.hasLocs {
				return c.provider(p, nil, root)
			}
			var ls []func() Found
			for i := range p.locs {
				l := &p.locs[i]
				ls = append(ls, func() Found {
					defer c.push(`location %s %s from %s`, l.kind, l.path, l.orig)()
					if !l.exists {
						c.ev(`location not found`)
						return NotFound
					}
					return c.provider(p, l, root)
				})
			}
			if len(ls) == 1 {
				return ls[0]()
			}
			return c.merge(strategy, ls)
		})
	}
	return c.merge(strategy, src)
}

func (c *Ctx) provider(p *provider, l *location, root string) Found {
	f := c.providerValue(p, l, root)
	if p.e.Kind == `data_dig` {
		c.evFound(RootSource(root), f)
	} else {
		c.evFound(root, f)
	}
	return f
}

// RootSource is the key that denotes the given root and nothing else
func RootSource(root string) string {
	if ps, _, err := ParseKey(root); err == nil && len(ps) == 1 && ps[0].S == root {
		return root
	}
	b := strings.Builder{}
	for i, part := range strings.Split(root, `'`) {
		if i > 0 {
			b.WriteString(`"'"`)
		}
		b.WriteString(`'` + part + `'`)
	}
	return b.String()
}

func (c *Ctx) providerValue(p *provider, l *location, root string) Found {
	opts := p.e.Options
	if l != nil {
		opts = opts.With(`path`, l.path)
	}
	switch p.e.Kind {
	case `data_hash`:
		var h *M
		switch p.e.Func {
		case `yaml_data`, `json_data`:
			if l == nil {
				fail(`option`, `missing required provider option 'path'`)
			}
			c.Consulted = append(c.Consulted, l.path)
			if c.W.Bad[l.path] {
				fail(`data`, `%s`, l.path)
			}
			h = c.W.Data[l.path]
		default:
			fn := c.W.Functions[p.e.Func]
			if fn == nil {
				fail(`plugin`, `%s`, p.e.Func)
			}
			h, _ = fn(c, opts, ``).V.(*M)
		}
		if h == nil {
			return NotFound
		}
		v, ok := h.Get(root)
		if !ok {
			return NotFound
		}
		f, ok := c.interpolate(v, true)
		f.OK = ok
		if !c.W.Double {
			f.V = opaque(f.V)
		}
		return f
	default:
		switch {
		case p.e.Kind == `lookup_key` && p.e.Func == `environment`:
			return c.env(root)
		case p.e.Kind == `lookup_key` && p.e.Func == `scope`:
			v, ok := c.W.Scope(root)
			return Found{v, ok}
		}
		fn := c.W.Functions[p.e.Func]
		if fn == nil {
			fail(`plugin`, `%s`, p.e.Func)
		}
		return fn(c, opts, root)
	}
}

func (c *Ctx) opts(m *M) *M {
	f, _ := c.interpolate(m, false)
	return f.V.(*M)
}

func (c *Ctx) str(s string) string {
	f, _ := c.interpolateString(s, false)
	return strings.Replace(f.V.(string), pct, `%`, -1)
}

// interpolate returns the given value with all contained expressions replaced. The returned bool is false if the result
// is the absent value (which is possible only when the value is a string).
func (c *Ctx) interpolate(v Val, methods bool) (Found, bool) {
	switch v := v.(type) {
	case string:
		return c.interpolateString(v, methods)
	case List:
		r := make(List, len(v))
		for i := range v {
			f, _ := c.interpolate(v[i], methods)
			r[i] = f.V
		}
		return Found{r, true}, true
	case *M:
		r := &M{}
		for _, e := range v.E {
			k, _ := c.interpolate(e.K, methods)
			x, _ := c.interpolate(e.V, methods)
			r = r.With(k.V, x.V)
		}
		return Found{r, true}, true
	}
	return Found{v, true}, true
}

func isWord(s string) bool {
	for _, r := range s {
		if !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return false
		}
	}
	return s != ``
}

// method returns the name of the method and its argument
func method(expr string) (string, string, bool) {
	o := strings.IndexByte(expr, '(')
	if o < 0 || !strings.HasSuffix(expr, `)`) || !isWord(expr[:o]) {
		return ``, ``, false
	}
	arg := expr[o+1 : len(expr)-1]
	if len(arg) < 3 || arg[0] != '\'' && arg[0] != '"' || arg[len(arg)-1] != arg[0] {
		return ``, ``, false
	}
	in := arg[1 : len(arg)-1]
	if strings.IndexByte(in, arg[0]) >= 0 {
		return ``, ``, false
	}
	return expr[:o], in, true
}

func (c *Ctx) interpolateString(s string, methods bool) (Found, bool) {
	var out strings.Builder
	pos := 0
	if strings.Contains(s, `%{`) {
		shown := s
		if c.redacted {
			shown = `value redacted`
		}
		defer c.push(`interpolation %s`, shown)()
	}
	for {
		b := strings.Index(s[pos:], `%{`)
		if b < 0 {
			break
		}
		b += pos
		e := strings.IndexByte(s[b:], '}')
		if e < 0 {
			break
		}
		e += b + 1
		out.WriteString(s[pos:b])
		whole := b == 0 && e == len(s)
		expr := strings.TrimSpace(s[b+2 : e-1])
		pos = e
		switch expr {
		case ``, `::`, `""`, `''`, `"::"`, `'::'`:
			continue
		}
		m, arg, isMethod := method(expr)
		if !isMethod {
			if f := c.scopeExpr(expr, methods); f.OK {
				out.WriteString(Str(f.V))
			}
			continue
		}
		if !methods {
			fail(`method`, `method syntax is not allowed`)
		}
		switch m {
		case `alias`, `strict_alias`:
			if !whole {
				fail(`alias`, `%s`, s)
			}
			f := c.lookup(arg, nil)
			if f.OK {
				return f, true
			}
			if m == `strict_alias` {
				return NotFound, false
			}
			return Found{``, true}, true
		case `lookup`, `hiera`:
			if f := c.lookup(arg, nil); f.OK {
				out.WriteString(Str(f.V))
			}
		case `literal`:
			out.WriteString(arg)
		case `scope`:
			if f := c.scopeExpr(arg, methods); f.OK {
				out.WriteString(Str(f.V))
			}
		default:
			fail(`method`, `unknown interpolation method '%s'`, m)
		}
	}
	out.WriteString(s[pos:])
	return Found{out.String(), true}, true
}

func (c *Ctx) scopeExpr(expr string, methods bool) Found {
	parts, _, err := ParseKey(expr)
	if err != nil {
		panic(err)
	}
	v, ok := c.W.Scope(parts[0].S)
	if !ok {
		return NotFound
	}
	defer c.enter(`%{` + parts[0].S + `}`)()
	f, ok := c.interpolate(v, methods)
	if !ok {
		return NotFound
	}
	v, ok = c.dig(expr, f.V, parts)
	return Found{v, ok}
}

// Str is the string that a value turns into when it's a part of a string. It's the text form of the dgo library
// for all values except the basic ones
func Str(v Val) string {
	switch v := v.(type) {
	case string:
		return v
	case bool, int:
		return fmt.Sprint(v)
	case Sensitive:
		return `sensitive [value redacted]`
	}
	u := unpct(v)
	s := fmt.Sprint(ToDgo(u))
	if !Equal(u, v) {
		s = strings.Replace(s, `%`, pct, -1)
	}
	return s
}

// YAML renders the configuration as YAML
func (cfg *Config) YAML() string {
	return Flow(cfg.Map())
}

// Map returns the configuration as a map
func (cfg *Config) Map() *M {
	m := NewM(`version`, 5)
	if cfg.Defaults != nil {
		m = m.With(`defaults`, cfg.Defaults.Map())
	}
	if cfg.Hierarchy != nil {
		l := List{}
		for i := range cfg.Hierarchy {
			l = append(l, cfg.Hierarchy[i].Map())
		}
		m = m.With(`hierarchy`, l)
	}
	return m
}

// Map returns the entry as a map
func (e *Entry) Map() *M {
	m := &M{}
	if e.Name != `` {
		m = m.With(`name`, e.Name)
	}
	if e.Func != `` {
		m = m.With(e.Kind, e.Func)
	}
	if e.DataDir != `` {
		m = m.With(`datadir`, e.DataDir)
	}
	if e.Options != nil {
		m = m.With(`options`, e.Options)
	}
	if e.Loc != nil {
		switch e.Loc.Kind {
		case `path`, `glob`, `uri`:
			m = m.With(e.Loc.Kind, e.Loc.S[0])
		default:
			l := List{}
			for _, s := range e.Loc.S {
				l = append(l, s)
			}
			m = m.With(e.Loc.Kind, l)
		}
	}
	return m
}

// InterpolateAll interpolates a value
func (c *Ctx) InterpolateAll(v Val, methods bool) (r Found, err *Err) {
	err = Try(func() {
		r, _ = c.interpolate(v, methods)
		r.V = unpct(r.V)
		r.OK = true
	})
	return
}

// Interpolated is what a function gets when it asks for interpolation of a value
func (c *Ctx) Interpolated(v Val) Found {
	f, ok := c.interpolate(v, true)
	f.OK = ok
	return f
}
