package props

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/config"
	"gopkg.in/yaml.v3"

	"verif/mc/jsonschema"
	"verif/mc/model"
	"verif/mc/runner"
)

// C11: documents that may or may not be configurations

type c11Case struct {
	Doc string // YAML
	// V is what the document denotes. It's not set for documents that aren't well formed
	v      model.Val
	raw    bool // the document isn't made from v
	expect verdict
}

type verdict int

const (
	byOracle verdict = iota
	reject
	unjudged
)

var c11Values = []model.Val{
	nil, true, 0, 5, 1.5, ``, `s`, `5`, `%{v}`, model.List{}, model.List{``}, model.List{`s`}, model.List{`s`, 1}, model.List{`s`, `t`},
	model.List{`a`, `b`, `c`}, model.List{`a`, ``, `c`}, model.List{`a`, `b`, 3}, model.List{`a`, `b`, `c`, `d`}, model.List{nil},
	model.NewM(), model.NewM(`a`, 1), model.NewM(`path`, `x`), model.NewM(`uri`, `x`), model.NewM(1, `x`),
	model.NewM(`a`, model.NewM(`b`, model.List{1, nil, 2.5, true, `%{x}`}), `b`, nil), model.List{model.NewM(`name`, `q`)},
	model.List{model.NewM(`name`, `q`, `path`, `p`), model.NewM(`name`, `q`)},
}

// c11Few is what is used when there are many combinations
var c11Few = []model.Val{nil, 5, ``, `s`, model.List{`a`, `b`, `c`}, model.List{}, model.NewM(), model.NewM(`a`, 1)}

var c11EntryKeys = []model.Val{`name`, `options`, `data_dig`, `data_hash`, `lookup_key`, `datadir`, `plugindir`, `pluginfile`, `path`, `paths`,
	`glob`, `globs`, `uri`, `uris`, `mapped_paths`, `foo`, `Path`, `mapped_path`, 1}

var c11TopKeys = []model.Val{`version`, `defaults`, `hierarchy`, `default_hierarchy`, `hierarchies`, `Version`, 5}

const c11Locs = ` path paths glob globs uri uris mapped_paths `
const c11Fns = ` data_dig data_hash lookup_key `

func isOne(k model.Val, of string) bool {
	s, ok := k.(string)
	return ok && strings.Contains(of, ` `+s+` `)
}

// c11Yes, c11No, and c11Dunno are what the oracle says
type c11Says int

const (
	c11No c11Says = iota
	c11Dunno
	c11Yes
)

func min3(a, b c11Says) c11Says {
	if a < b {
		return a
	}
	return b
}

func text(v model.Val) c11Says {
	if s, ok := v.(string); ok && s != `` {
		return c11Yes
	}
	return c11No
}

func texts(v model.Val, min, max int) c11Says {
	l, ok := v.(model.List)
	if !ok || len(l) < min || max > 0 && len(l) > max {
		return c11No
	}
	r := c11Yes
	for _, e := range l {
		r = min3(r, text(e))
	}
	return r
}

// isData says if the value consists of things that data can consist of
func isData(v model.Val) c11Says {
	r := c11Yes
	switch v := v.(type) {
	case model.List:
		for _, e := range v {
			r = min3(r, isData(e))
		}
	case *model.M:
		for _, e := range v.E {
			if _, ok := e.K.(string); !ok {
				r = c11No
			}
			r = min3(r, isData(e.V))
		}
	case model.Other:
		r = c11Dunno
	}
	return r
}

func optionKey(k model.Val) c11Says {
	s, ok := k.(string)
	if !ok || s == `` || s == `path` || s == `uri` {
		return c11No
	}
	alnum := func(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	if !alnum(s[0]) || s[0] <= '9' || !alnum(s[len(s)-1]) {
		return c11No
	}
	r := c11Yes
	for i := range s {
		switch {
		case alnum(s[i]), s[i] == '_', s[i] == '-':
		case s[i] == ':':
			r = min3(r, c11Dunno)
		default:
			return c11No
		}
	}
	return r
}

func c11Entry(v model.Val, isDefaults bool) c11Says {
	m, ok := v.(*model.M)
	if !ok {
		return c11No
	}
	r := c11Yes
	fns, locs := 0, 0
	for _, e := range m.E {
		says := c11No
		switch {
		case isOne(e.K, c11Fns):
			fns++
			says = text(e.V)
		case isOne(e.K, ` datadir plugindir `):
			says = text(e.V)
		case e.K == `options`:
			if om, ok := e.V.(*model.M); ok {
				says = c11Yes
				for _, o := range om.E {
					says = min3(says, min3(optionKey(o.K), isData(o.V)))
				}
			}
		case isDefaults:
		case isOne(e.K, ` name pluginfile path glob uri `):
			says = text(e.V)
		case isOne(e.K, ` paths globs uris `):
			says = texts(e.V, 1, 0)
		case e.K == `mapped_paths`:
			says = texts(e.V, 3, 3)
		}
		if isOne(e.K, c11Locs) {
			locs++
		}
		r = min3(r, says)
	}
	if _, named := m.Get(`name`); !named && !isDefaults || fns > 1 || locs > 1 {
		return c11No
	}
	return r
}

// c11Oracle says if the given document is a valid configuration
func c11Oracle(v model.Val) c11Says {
	m, ok := v.(*model.M)
	if !ok {
		return c11No
	}
	r := c11Yes
	if ver, _ := m.Get(`version`); ver != 5 {
		r = c11No
	}
	for _, e := range m.E {
		says := c11No
		switch e.K {
		case `version`:
			says = c11Yes
		case `defaults`:
			says = c11Entry(e.V, true)
		case `hierarchy`, `default_hierarchy`:
			if l, ok := e.V.(model.List); ok {
				says = c11Yes
				names := map[model.Val]bool{}
				for _, x := range l {
					es := c11Entry(x, false)
					says = min3(says, es)
					if es != c11No {
						n, _ := x.(*model.M).Get(`name`)
						if names[n] {
							says = c11No
						}
						names[n] = true
					}
				}
			}
		}
		r = min3(r, says)
	}
	return r
}

var c11Positions = []string{`defaults`, `hierarchy`, `second`, `default_hierarchy`}

// c11At places an entry in a document
func c11At(pos string, e model.Val) *model.M {
	ok := func(n string) *model.M { return model.NewM(`name`, n, `path`, `x.yaml`) }
	switch pos {
	case `defaults`:
		return model.NewM(`version`, 5, `defaults`, e)
	case `hierarchy`:
		return model.NewM(`version`, 5, `hierarchy`, model.List{e, ok(`other`)})
	case `second`:
		return model.NewM(`version`, 5, `hierarchy`, model.List{ok(`other`), e}, `default_hierarchy`, model.List{ok(`s`)})
	default:
		return model.NewM(`version`, 5, `hierarchy`, model.List{ok(`s`)}, `default_hierarchy`, model.List{e})
	}
}

var c11Raw = []c11Case{
	{Doc: ``, expect: reject},
	{Doc: "# comment only\n", expect: reject},
	{Doc: "---\n", expect: reject},
	{Doc: "null\n", expect: reject},
	{Doc: "text\n", expect: reject},
	{Doc: "5\n", expect: reject},
	{Doc: "- version: 5\n", expect: reject},
	{Doc: "version 5\n", expect: reject},
	{Doc: "version: 5\nhierarchy:\n- name: a\n path: x\n", expect: reject},
	{Doc: "version: 5\n\thierarchy: []\n", expect: reject},
	{Doc: "{version: 5", expect: reject},
	{Doc: "version: 5\nhierarchy: [\n", expect: reject},
	{Doc: "version: 5\nhierarchy: *nope\n", expect: reject},
	{Doc: "version: 5\nversion: 5\n", expect: unjudged},
	{Doc: "version: 5\nhierarchy: []\nhierarchy: [{name: a}]\n", expect: unjudged},
	{Doc: "version: 4\nversion: 5\n", expect: unjudged},
	{Doc: "version: 5.0\n", expect: unjudged},
	{Doc: "version: 0x5\n", expect: unjudged},
	{Doc: "version: !!str 5\n", expect: reject},
	{Doc: "version: '5'\n", expect: reject},
	{Doc: "version: five\n", expect: reject},
	{Doc: "version: 5\n...\nrubbish: [\n", expect: unjudged},
	{Doc: "version: 5\n---\nversion: 3\n", expect: unjudged},
	{Doc: "\x00", expect: reject},
	{Doc: "version: 5\nhierarchy: \xff\xfe\n", expect: reject},
	{Doc: "%YAML 1.1\n---\nversion: 5\n", v: model.NewM(`version`, 5)},
	{Doc: "\ufeffversion: 5\n", v: model.NewM(`version`, 5)},
	{Doc: "version: 5\r\nhierarchy:\r\n  - name: a\r\n    path: b\r\n", v: model.NewM(`version`, 5, `hierarchy`, model.List{model.NewM(`name`, `a`, `path`, `b`)})},
	{Doc: "version: 5\nhierarchy:\n- &e {name: a, path: x}\ndefault_hierarchy:\n- *e\n", v: model.NewM(`version`, 5, `hierarchy`, model.List{model.NewM(`name`, `a`, `path`, `x`)}, `default_hierarchy`, model.List{model.NewM(`name`, `a`, `path`, `x`)})},
	{Doc: "version: 5\nhierarchy:\n- &e {name: a, path: x}\n- *e\n", expect: reject},
	{Doc: "version: 5\nhierarchy:\n- name: 1\n", expect: reject},
	{Doc: "version: 5\nhierarchy:\n- name: yes\n", expect: unjudged},
	{Doc: "version: 5\nhierarchy:\n- name: |\n    long\n    name\n", v: model.NewM(`version`, 5, `hierarchy`, model.List{model.NewM(`name`, "long\nname\n")})},
	{Doc: "version: 5\nhierarchy:\n- name: a\n  path: !!binary aGVsbG8=\n", expect: reject},
	{Doc: "version: 5\nhierarchy:\n- name: a\n  options: {x: !!binary aGVsbG8=}\n", expect: unjudged},
	{Doc: "version: 5\nhierarchy:\n- name: a\n  options: {x: 2019-01-01}\n", expect: unjudged},
	{Doc: "version: 5\nhierarchy:\n- name: a\n  path: 2019-01-01\n", expect: reject},
	{Doc: "version: 5\nhierarchy:\n- name: a\n  options: {? [a] : b}\n", expect: reject},
	{Doc: "? [version]\n: 5\n", expect: reject},
	{Doc: "? {version: 5}\n: 5\n", expect: reject},
	{Doc: "version: 5\nhierarchy: {name: a}\n", expect: reject},
	{Doc: "version: 5\nhierarchy:\n- name:\n", expect: reject},
	{Doc: "version: 5\nhierarchy:\n-\n", expect: reject},
	{Doc: "version: 5\nhierarchy: ~\n", expect: reject},
	{Doc: "version: 5\ndefaults:\n", expect: reject},
}

func c11Enum(tier string, yield func(interface{}) bool) {
	ended := false
	seen := map[string]bool{}
	emit := func(v model.Val) bool {
		c := c11Case{Doc: model.Flow(v), v: v}
		if seen[c.Doc] {
			return true
		}
		seen[c.Doc] = true
		ended = ended || !yield(c)
		return !ended
	}
	for _, r := range c11Raw {
		r.raw = true
		if !yield(r) {
			return
		}
	}
	// All top level keys, alone and in pairs, with all values
	type kv struct{ k, v model.Val }
	var tops []kv
	for _, k := range c11TopKeys {
		for _, v := range c11Values {
			tops = append(tops, kv{k, v})
			emit(model.NewM(k, v))
			emit(model.NewM(`version`, 5, k, v))
		}
	}
	for i, a := range tops {
		for _, b := range tops[i+1:] {
			if a.k != b.k && !emit(model.NewM(a.k, a.v, b.k, b.v)) {
				return
			}
			if a.k != b.k && a.k != `version` && !emit(model.NewM(`version`, 5, a.k, a.v, b.k, b.v)) {
				return
			}
		}
	}
	for _, v := range c11Values {
		emit(v)
		for _, pos := range c11Positions {
			emit(c11At(pos, v))
		}
	}
	// All keys of entries, alone, in pairs, and with fewer values three (or four) at a time
	positions := c11Positions
	if tier == `quick` {
		positions = c11Positions[:2]
	}
	entries := func(ks []kv) bool {
		for _, pos := range positions {
			m := model.NewM()
			if pos != `defaults` {
				m = model.NewM(`name`, `n`)
			}
			for _, x := range ks {
				m = m.With(x.k, x.v)
			}
			if !emit(c11At(pos, m)) {
				return false
			}
			if _, named := m.Get(`name`); named && pos == `hierarchy` {
				// without name
				n := &model.M{}
				for _, e := range m.E {
					if e.K != `name` {
						n = n.With(e.K, e.V)
					}
				}
				if !emit(c11At(pos, n)) {
					return false
				}
			}
		}
		return true
	}
	var all, few []kv
	for _, k := range c11EntryKeys {
		for _, v := range c11Values {
			all = append(all, kv{k, v})
		}
		for _, v := range c11Few {
			few = append(few, kv{k, v})
		}
	}
	for i, a := range all {
		if !entries([]kv{a}) {
			return
		}
		for _, b := range all[i+1:] {
			if a.k != b.k && !entries([]kv{a, b}) {
				return
			}
		}
	}
	positions = c11Positions
	for i, a := range few {
		for _, b := range few[i+1:] {
			if a.k != b.k && !entries([]kv{a, b}) {
				return
			}
		}
	}
	// valid values of all keys, in all subsets of up to three (four) keys
	valid := []kv{{`options`, model.NewM(`a`, 1)}, {`data_dig`, `f`}, {`data_hash`, `f`}, {`lookup_key`, `f`}, {`datadir`, `d`}, {`plugindir`, `d`},
		{`pluginfile`, `d`}, {`path`, `p`}, {`paths`, model.List{`p`}}, {`glob`, `p`}, {`globs`, model.List{`p`}}, {`uri`, `p`}, {`uris`, model.List{`p`}},
		{`mapped_paths`, model.List{`a`, `b`, `c`}}, {`foo`, `x`}}
	n := pick(tier, 4, 6)
	if tier == `thorough` {
		valid = append(valid, kv{`options`, model.NewM(`path`, 1)}, kv{`paths`, model.List{}}, kv{`path`, ``})
	}
	var rec func(from int, ks []kv) bool
	rec = func(from int, ks []kv) bool {
		if len(ks) > 2 && !entries(ks) {
			return false
		}
		if len(ks) == n {
			return true
		}
		for i := from; i < len(valid); i++ {
			if !rec(i+1, append(ks[:len(ks):len(ks)], valid[i])) {
				return false
			}
		}
		return true
	}
	if !rec(0, nil) {
		return
	}
	if tier == `thorough` {
		for i, a := range few {
			for j := i + 1; j < len(few); j++ {
				for _, c := range few[j+1:] {
					b := few[j]
					if a.k != b.k && b.k != c.k && a.k != c.k && !entries([]kv{a, b, c}) {
						return
					}
				}
			}
		}
	}
	// option keys
	al := []string{`a`, `Z`, `0`, `_`, `-`, `.`, ` `, `:`, `é`, "\n"}
	opts := []string{`path`, `uri`, `paths`, `Path`, `PATH`, `uris`, `glob`, `path `, `option_name`, `a-b-c`, `a__b`}
	sequences(len(al), 0, pick(tier, 3, 4), func(ix []int) bool {
		s := ``
		for _, i := range ix {
			s += al[i]
		}
		opts = append(opts, s)
		return true
	})
	for _, o := range opts {
		for _, pos := range c11Positions {
			m := model.NewM(`name`, `n`)
			if pos == `defaults` {
				m = model.NewM()
			}
			if !emit(c11At(pos, m.With(`options`, model.NewM(o, `v`)))) || !emit(c11At(pos, m.With(`options`, model.NewM(`ok`, 1, o, `v`)))) {
				return
			}
		}
	}
	// names
	names := []model.Val{`a`, `A`, `b`, `a `, ` a`, `1`, `%{a}`, 1, ``, nil}
	sequences(len(names), 1, pick(tier, 3, 4), func(ix []int) bool {
		var l model.List
		for _, i := range ix {
			l = append(l, model.NewM(`name`, names[i]))
		}
		return emit(model.NewM(`version`, 5, `hierarchy`, l)) &&
			emit(model.NewM(`version`, 5, `default_hierarchy`, l)) &&
			emit(model.NewM(`version`, 5, `hierarchy`, l, `default_hierarchy`, l))
	})
}

var c11Schema *jsonschema.Schema

const repo = `/repo`

func c11Setup(w *runner.W) {
	setupFS(w)
	bs, err := ioutil.ReadFile(filepath.Join(repo, `schema/hiera_v5.yaml`))
	must(err)
	var v interface{}
	must(yaml.Unmarshal(bs, &v))
	c11Schema = jsonschema.New(model.FromGo(v))
	// all of it must be something that the evaluator understands
	c11Schema.Valid(model.NewM(`version`, 5, `defaults`, model.NewM(), `hierarchy`, model.List{model.NewM(`name`, `a`, `paths`, model.List{`a`}, `mapped_paths`, model.List{`a`})}))
}

func jsonAble(v model.Val) bool {
	switch v := v.(type) {
	case model.List:
		for _, e := range v {
			if !jsonAble(e) {
				return false
			}
		}
	case *model.M:
		for _, e := range v.E {
			if _, ok := e.K.(string); !ok || !jsonAble(e.V) {
				return false
			}
		}
	case model.Other:
		return false
	}
	return true
}

func tryNew(path string) (c api.Config, err string) {
	defer func() {
		if r := recover(); r != nil {
			c, err = nil, fmt.Sprintf(`%v`, r)
			if err == `` {
				err = `?`
			}
		}
	}()
	return config.New(path), ``
}

// c11Describe describes what the configuration should consist of
func c11Describe(doc *model.M) string {
	get := func(m *model.M, k string) string {
		s, _ := m.Get(k)
		if s == nil {
			return ``
		}
		return s.(string)
	}
	entry := func(m *model.M, name string) string {
		var fn []string
		for _, k := range []string{`data_dig`, `data_hash`, `lookup_key`} {
			if f, ok := m.Get(k); ok {
				fn = append(fn, k+` `+f.(string))
			}
		}
		var locs []string
		for _, e := range m.E {
			switch {
			case e.K == `mapped_paths`:
				locs = append(locs, `mapped_paths `+model.Canon(e.V))
			case !isOne(e.K, c11Locs):
			default:
				if l, many := e.V.(model.List); many {
					for _, x := range l {
						locs = append(locs, strings.TrimSuffix(e.K.(string), `s`)+` `+x.(string))
					}
				} else {
					locs = append(locs, e.K.(string)+` `+e.V.(string))
				}
			}
		}
		o := `none`
		if ov, ok := m.Get(`options`); ok {
			o = model.Canon(ov)
		}
		return fmt.Sprintf("%s|%s|%s|%s|%v|%q|%s\n", name, get(m, `datadir`), get(m, `plugindir`), get(m, `pluginfile`), fn, locs, o)
	}
	s := `defaults:`
	if d, ok := doc.Get(`defaults`); ok {
		s += entry(d.(*model.M), `*`)
	} else {
		s += "*|data|plugin||[data_hash yaml_data]|[]|none\n"
	}
	for _, k := range []string{`hierarchy`, `default_hierarchy`} {
		s += k + ":\n"
		if h, ok := doc.Get(k); ok {
			for _, e := range h.(model.List) {
				s += entry(e.(*model.M), get(e.(*model.M), `name`))
			}
		} else if k == `hierarchy` {
			s += "Root|.|||[]|[\"path data.yaml\"]|none\nCommon||||[]|[\"path common.yaml\"]|none\n"
		}
	}
	return s
}

// c11DescribeImpl describes what it does consist of
func c11DescribeImpl(c api.Config, doc *model.M) string {
	entry := func(e api.Entry, defaults bool, src *model.M) string {
		var fn []string
		if f := e.Function(); f != nil {
			fn = append(fn, string(f.Kind())+` `+f.Name())
		}
		var locs []string
		for _, l := range e.Locations() {
			s := string(l.Kind()) + ` ` + l.Original()
			if l.Kind() == api.LcMappedPaths && src != nil {
				// it must mention all that it consists of, how isn't significant
				if v, ok := src.Get(`mapped_paths`); ok {
					all := true
					for _, x := range v.(model.List) {
						all = all && strings.Contains(s, x.(string))
					}
					if all {
						s = `mapped_paths ` + model.Canon(v)
					}
				}
			}
			locs = append(locs, s)
		}
		o := `none`
		if e.Options() != nil {
			o = model.Canon(model.FromDgo(e.Options()))
		}
		n := e.Name()
		if defaults {
			n = `*`
		}
		return fmt.Sprintf("%s|%s|%s|%s|%v|%q|%s\n", n, e.DataDir(), e.PluginDir(), e.PluginFile(), fn, locs, o)
	}
	src := func(k string, i int) *model.M {
		if h, ok := doc.Get(k); ok {
			if l := h.(model.List); i < len(l) {
				return l[i].(*model.M)
			}
		}
		return nil
	}
	s := `defaults:`
	if c.Defaults() == nil {
		s += "nil\n"
	} else {
		s += entry(c.Defaults(), true, nil)
	}
	s += "hierarchy:\n"
	for i, e := range c.Hierarchy() {
		s += entry(e, false, src(`hierarchy`, i))
	}
	s += "default_hierarchy:\n"
	for i, e := range c.DefaultHierarchy() {
		s += entry(e, false, src(`default_hierarchy`, i))
	}
	return s
}

func c11Check(w *runner.W, ci interface{}) {
	c := ci.(c11Case)
	files := map[string]string{`hiera.yaml`: c.Doc, `modules/m/hiera.yaml`: c.Doc}
	theFS.set(files)
	path := theFS.path(`hiera.yaml`)
	cfg, err := tryNew(path)
	w.Eval(1)
	w.Outcome(c.Doc, err == ``)
	accepted := err == ``
	says := c11Dunno
	switch {
	case c.expect == reject:
		says = c11No
	case c.expect == byOracle:
		says = c11Oracle(c.v)
	}
	if accepted && says == c11No {
		w.Fail("a configuration that isn't valid is accepted\n%s", c.Doc)
		return
	}
	if !accepted && says == c11Yes {
		w.Fail("a valid configuration is rejected: %s\n%s", err, c.Doc)
		return
	}
	if c.expect == byOracle && jsonAble(c.v) {
		w.Eval(1)
		if sv := c11Schema.Valid(c.v); accepted && !sv {
			w.Fail("the loader accepts what the schema rejects\n%s", c.Doc)
			return
		}
	}
	if accepted && c.expect == byOracle {
		doc := c.v.(*model.M)
		if got, want := c11DescribeImpl(cfg, doc), c11Describe(doc); got != want {
			w.Fail("the configuration isn't what the document says\n%s\n got: %s\nwant: %s", c.Doc, got, want)
			return
		}
		if cfg.Root() != theFS.root || cfg.Path() != path {
			w.Fail("root %q and path %q of configuration in %q", cfg.Root(), cfg.Path(), path)
		}
	}
	if accepted || c.expect == byOracle && w.Tier == `quick` && !c11Deep(c.v) {
		return
	}
	// a lookup that uses the configuration must fail
	b := newBuild()
	b.files = files
	b.session(func(s api.Session) {
		for i := 0; i < 2; i++ {
			if o := (query{Key: `k`}).impl(s.Invocation(nil, nil)); o.err == `` {
				w.Fail("lookup using a bad configuration gives %s\n%s", o, c.Doc)
			}
		}
	})
	b = newBuild()
	b.world.Mux, b.world.Top, b.world.ModulePath = true, []string{`module`}, []string{theFS.path(`modules`)}
	b.files = map[string]string{`modules/m/hiera.yaml`: c.Doc}
	b.session(func(s api.Session) {
		if o := (query{Key: `m::k`}).impl(s.Invocation(nil, nil)); o.err == `` {
			w.Fail("lookup using the bad configuration of a module gives %s\n%s", o, c.Doc)
		}
		if o := (query{Key: `k`}).impl(s.Invocation(nil, nil)); o.class() != `not found` {
			w.Fail("lookup that doesn't use the bad configuration of a module gives %s\n%s", o, c.Doc)
		}
	})
	w.Eval(4)
}

// c11Deep limits what is done for each case to what is needed for documents that are small
func c11Deep(v model.Val) bool {
	m, ok := v.(*model.M)
	if !ok || len(m.E) < 2 {
		return true
	}
	n := 0
	for _, e := range m.E {
		switch x := e.V.(type) {
		case *model.M:
			n += len(x.E)
		case model.List:
			for _, y := range x {
				if ym, ok := y.(*model.M); ok {
					n += len(ym.E)
				} else {
					n++
				}
			}
		}
	}
	return n <= 4
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C11`,
		Level: `exploration`,
		Rule:  `One document each: all top level keys in pairs with all kinds of values, all keys of entries in pairs with all kinds of values in four positions, all subsets of keys of entries with valid values, option keys, names, and malformed documents. Each is loaded as the configuration of a session and of a module.`,
		Assumptions: []string{
			`documents with keys used twice, several documents, and scalars whose type depends on the version of YAML are not judged`,
			`option keys with colons are not judged`,
		},
		Enumerate: c11Enum,
		Check:     c11Check,
		Setup: func(w *runner.W) {
			_ = os.Unsetenv(`HIERA_DATADIR`)
			_ = os.Unsetenv(`HIERA_PLUGINDIR`)
			c11Setup(w)
		},
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`keys of an entry, valid`: pick(tier, 4, 6), `keys of an entry, any value`: pick(tier, 2, 3), `values`: len(c11Values), `names`: pick(tier, 3, 4), `length of option keys`: pick(tier, 3, 4)}
		},
	}
})
