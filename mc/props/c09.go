package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"

	"verif/mc/model"
	"verif/mc/runner"
)

// C09: explanations

// node is one node in a tree that is built from what an explainer is told, in the order it is told
type node struct {
	kind     string
	parent   *node
	branches []*node
	arg      map[string]interface{} // what the node is about
	event    string
	key      string
	value    dgo.Value
	hasValue bool
	texts    []string
}

// recorder is an explainer that notes what it is told and passes it on to a real explainer
type recorder struct {
	api.Explainer
	events []string
	root   *node
	cur    *node
	bad    string
}

func newRecorder(options, only bool) *recorder {
	r := &recorder{Explainer: explain.NewExplainer(options, only)}
	r.root = &node{kind: `explainer`, arg: map[string]interface{}{}}
	if options {
		r.root.arg[`options`] = true
	}
	if only {
		r.root.arg[`onlyOptions`] = true
	}
	r.cur = r.root
	return r
}

func (r *recorder) ev(format string, args ...interface{}) {
	r.events = append(r.events, fmt.Sprintf(format, args...))
}

func (r *recorder) push(n *node, format string, args ...interface{}) {
	r.ev(`push `+format, args...)
	n.parent = r.cur
	if n.arg == nil {
		n.arg = map[string]interface{}{}
	}
	r.cur.branches = append(r.cur.branches, n)
	r.cur = n
}

func keyString(k interface{}) string {
	if ak, ok := k.(api.Key); ok {
		return ak.Source()
	}
	return fmt.Sprint(k)
}

func canonDgo(v dgo.Value) string {
	if v == nil {
		return `nothing`
	}
	return model.Canon(model.FromDgo(v))
}

func (r *recorder) AcceptFound(key interface{}, value dgo.Value) {
	r.Explainer.AcceptFound(key, value)
	r.ev(`found %s %s`, keyString(key), canonDgo(value))
	r.cur.event, r.cur.key, r.cur.value, r.cur.hasValue = `found`, keyString(key), value, true
}

func (r *recorder) AcceptFoundInDefaults(key string, value dgo.Value) {
	r.Explainer.AcceptFoundInDefaults(key, value)
	r.ev(`found in defaults %s %s`, key, canonDgo(value))
	r.cur.event, r.cur.key, r.cur.value, r.cur.hasValue = `found_in_defaults`, key, value, true
}

func (r *recorder) AcceptFoundInOverrides(key string, value dgo.Value) {
	r.Explainer.AcceptFoundInOverrides(key, value)
	r.ev(`found in overrides %s %s`, key, canonDgo(value))
	r.cur.event, r.cur.key, r.cur.value, r.cur.hasValue = `found_in_overrides`, key, value, true
}

func (r *recorder) AcceptLocationNotFound() {
	r.Explainer.AcceptLocationNotFound()
	r.ev(`location not found`)
	r.cur.event = `location_not_found`
}

func (r *recorder) AcceptMergeSource(s string) {
	r.Explainer.AcceptMergeSource(s)
	r.ev(`source %s`, s)
	r.cur.branches = append(r.cur.branches, &node{kind: `mergeSource`, parent: r.cur, arg: map[string]interface{}{`mergeSource`: s}})
}

func (r *recorder) AcceptModuleNotFound() {
	r.Explainer.AcceptModuleNotFound()
	r.ev(`module not found`)
	r.cur.event = `module_not_found`
}

func (r *recorder) AcceptNotFound(key interface{}) {
	r.Explainer.AcceptNotFound(key)
	r.ev(`not found %s`, keyString(key))
	r.cur.event, r.cur.key = `not_found`, keyString(key)
}

func (r *recorder) AcceptMergeResult(value dgo.Value) {
	r.Explainer.AcceptMergeResult(value)
	r.ev(`result %s`, canonDgo(value))
	r.cur.event, r.cur.value, r.cur.hasValue = `result`, value, true
}

func (r *recorder) AcceptText(text string) {
	r.Explainer.AcceptText(text)
	r.ev(`text %s`, text)
	r.cur.texts = append(r.cur.texts, text)
}

func (r *recorder) PushDataProvider(p api.DataProvider) {
	r.Explainer.PushDataProvider(p)
	r.push(&node{kind: `dataProvider`, arg: map[string]interface{}{`providerName`: p.FullName()}}, `provider %s`, p.FullName())
}

func (r *recorder) PushInterpolation(expr string) {
	r.Explainer.PushInterpolation(expr)
	r.push(&node{kind: `interpolate`, arg: map[string]interface{}{`expression`: expr}}, `interpolation %s`, expr)
}

func (r *recorder) PushInvalidKey(key interface{}) {
	r.Explainer.PushInvalidKey(key)
	r.push(&node{kind: `invalidKey`, key: keyString(key)}, `invalid %s`, keyString(key))
}

func (r *recorder) PushLocation(l api.Location) {
	r.Explainer.PushLocation(l)
	r.push(&node{kind: `location`, arg: map[string]interface{}{`location`: l}}, `location %s %s from %s`, l.Kind(), l.Resolved(), l.Original())
}

func (r *recorder) PushLookup(key api.Key) {
	r.Explainer.PushLookup(key)
	r.push(&node{kind: `lookup`, key: key.Source()}, `lookup %s`, key.Source())
}

func (r *recorder) PushMerge(m api.MergeStrategy) {
	r.Explainer.PushMerge(m)
	n := &node{kind: `merge`, arg: map[string]interface{}{}}
	if m.Name() != `first` {
		n.arg[`strategy`] = m.Name()
		if o := m.Options(); o != nil && o.Len() > 0 {
			n.arg[`options`] = o
		}
	}
	r.push(n, `merge %s`, m.Name())
}

func (r *recorder) PushModule(mn string) {
	r.Explainer.PushModule(mn)
	r.push(&node{kind: `module`, arg: map[string]interface{}{`moduleName`: mn}}, `module %s`, mn)
}

func (r *recorder) PushSegment(seg interface{}) {
	r.Explainer.PushSegment(seg)
	r.push(&node{kind: `keySegment`, arg: map[string]interface{}{`segment`: seg}}, `segment %v`, seg)
}

func (r *recorder) PushSubLookup(key api.Key) {
	r.Explainer.PushSubLookup(key)
	r.push(&node{kind: `subLookup`, arg: map[string]interface{}{`subKey`: key.Source()}}, `sub %s`, key.Source())
}

func (r *recorder) Pop() {
	r.Explainer.Pop()
	r.ev(`pop`)
	if r.cur.parent == nil {
		r.bad = `more pops than pushes`
		return
	}
	r.cur = r.cur.parent
}

var mergeLabels = map[string]string{`unique`: `unique merge strategy`, `hash`: `hash merge strategy`, `deep`: `deep merge strategy`}

// text writes what the text form of the tree must be
func (n *node) text(w dgo.Indenter) {
	line := func(s ...string) {
		w.NewLine()
		w.Append(strings.Join(s, ``))
	}
	all := func() {
		for _, b := range n.branches {
			b.text(w)
		}
	}
	outcome := func() {
		switch n.event {
		case `not_found`:
			line(`No such key: "`, n.key, `"`)
		case `found`, `found_in_defaults`, `found_in_overrides`:
			line(`Found key: "`, n.key, `" value: `)
			w.AppendValue(n.value)
			w.Append(map[string]string{`found`: ``, `found_in_defaults`: ` in defaults`, `found_in_overrides`: ` in overrides`}[n.event])
		}
		for _, t := range n.texts {
			line(t)
		}
	}
	switch n.kind {
	case `explainer`:
		all()
		for _, t := range n.texts {
			line(t)
		}
	case `dataProvider`:
		line(n.arg[`providerName`].(string))
		w = w.Indent()
		all()
		outcome()
	case `interpolate`:
		line(`Interpolation on "`, n.arg[`expression`].(string), `"`)
		w = w.Indent()
		all()
	case `invalidKey`:
		line(`Invalid key "`, n.key, `"`)
	case `keySegment`:
		outcome()
	case `location`:
		l := n.arg[`location`].(api.Location)
		t := `URI`
		if l.Kind() == api.LcPath {
			t = `Path`
		}
		line(t, ` "`, l.Resolved(), `"`)
		w = w.Indent()
		line(`Original `, string(l.Kind()), `: "`, l.Original(), `"`)
		all()
		if n.event == `location_not_found` {
			line(string(l.Kind()), ` not found`)
		}
		outcome()
	case `lookup`:
		if w.Len() > 0 || w.Level() > 0 {
			w.NewLine()
		}
		w.Append(`Searching for "` + n.key + `"`)
		w = w.Indent()
		all()
	case `merge`:
		if len(n.branches) < 2 {
			all()
			return
		}
		label := `first found strategy`
		if s, ok := n.arg[`strategy`].(string); ok {
			label = mergeLabels[s]
		}
		line(`Merge strategy "`, label, `"`)
		w = w.Indent()
		if o, ok := n.arg[`options`].(dgo.Map); ok {
			line(`Options: `)
			w.AppendValue(o)
		}
		all()
		if n.event == `result` {
			line(`Merged result: `)
			w.AppendValue(n.value)
		}
	case `mergeSource`:
		line(`Using merge options from `, n.arg[`mergeSource`].(string))
	case `module`:
		if n.event == `module_not_found` {
			line(`Module "`, n.arg[`moduleName`].(string), `" not found`)
			return
		}
		all()
		outcome()
	case `subLookup`:
		var ps []string
		ak := api.NewKey(n.arg[`subKey`].(string))
		for _, p := range ak.Parts()[1:] {
			ps = append(ps, fmt.Sprint(p))
		}
		line(`Sub key: "`, strings.Join(ps, `.`), `"`)
		w = w.Indent()
		all()
		outcome()
	default:
		panic(n.kind)
	}
}

// data is what the yaml and json form of the tree must decode to
func (n *node) data() interface{} {
	m := map[string]interface{}{`__type`: `hiera.` + map[bool]string{true: `explainer`, false: `explain` + strings.ToUpper(n.kind[:1]) + n.kind[1:]}[n.kind == `explainer`]}
	for k, v := range n.arg {
		switch v := v.(type) {
		case api.Location:
			if v.Kind() == api.LcPath {
				m[k] = map[string]interface{}{`__type`: `hiera.path`, `original`: v.Original(), `resolved`: v.Resolved(), `exists`: v.Exists()}
			} else {
				m[k] = map[string]interface{}{`__type`: `hiera.uri`, `original`: v.Original(), `resolved`: v.Resolved()}
			}
		case int:
			m[k] = float64(v)
		case dgo.Map:
			m[k] = plain(model.FromDgo(v))
		default:
			m[k] = v
		}
	}
	if len(n.branches) > 0 {
		var bs []interface{}
		for _, b := range n.branches {
			bs = append(bs, b.data())
		}
		m[`branches`] = bs
	}
	if n.event != `` {
		m[`event`] = n.event
	}
	if n.key != `` {
		m[`key`] = n.key
	}
	if n.hasValue {
		m[`value`] = plain(model.FromDgo(n.value))
	}
	if len(n.texts) > 0 {
		var ts []interface{}
		for _, t := range n.texts {
			ts = append(ts, t)
		}
		m[`texts`] = ts
	}
	return m
}

// plain converts a model value to what a JSON decoder produces
func plain(v model.Val) interface{} {
	switch v := v.(type) {
	case int:
		return float64(v)
	case model.Sensitive:
		return map[string]interface{}{`__type`: `sensitive`, `__value`: plain(v.V)}
	case model.List:
		l := []interface{}{}
		for _, e := range v {
			l = append(l, plain(e))
		}
		return l
	case *model.M:
		m := map[string]interface{}{}
		for _, e := range v.E {
			m[fmt.Sprint(e.K)] = plain(e.V)
		}
		return m
	}
	return v
}

func modelTree(events []string) string {
	var sb strings.Builder
	ind := 0
	for _, e := range events {
		if e == `pop` {
			ind--
			continue
		}
		fmt.Fprintf(&sb, "%s%s\n", strings.Repeat(`  `, ind), e)
		if strings.HasPrefix(e, `push `) {
			ind++
		}
	}
	return sb.String()
}

var c09Shapes = []func(i int) model.Val{
	func(i int) model.Val { return model.NewM(`x`, fmt.Sprintf(`v%d`, i), `y`, model.List{i, `z`}) },
	func(i int) model.Val {
		if i > 0 {
			return c09Absent
		}
		return `first`
	},
	func(i int) model.Val {
		if i == 0 {
			return c09Absent
		}
		return model.List{`only`, fmt.Sprint(i)}
	},
	func(i int) model.Val { return c09Absent },
	func(i int) model.Val {
		return model.List{fmt.Sprintf(`i%%{v}%d`, i), `%{lookup('o')}`, model.NewM(`x`, `%{h.a}`, `%{v}`, `%{alias('al')}`)}
	},
	func(i int) model.Val {
		if i == 0 {
			return nil
		}
		return false
	},
}

var c09Absent = &model.M{}

var c09Opts = []func(i int) model.Val{
	func(i int) model.Val { return nil },
	func(i int) model.Val {
		return model.NewM(`k`, model.NewM(`merge`, `deep`), `m::k`, model.NewM(`merge`, `hash`))
	},
	func(i int) model.Val {
		if i == 0 {
			return nil
		}
		return model.NewM(`k`, model.NewM(`merge`, `unique`), `o`, model.NewM(`convert_to`, `sensitive`), `m::k`, model.NewM(`convert_to`, `string`))
	},
	func(i int) model.Val {
		return model.NewM(`k`, model.NewM(`convert_to`, `sensitive`, `merge`, []model.Val{`first`, `deep`}[i%2]), `%{v}`, model.NewM(`merge`, `deep`))
	},
	func(i int) model.Val {
		if i > 0 {
			return nil
		}
		return model.NewM(`k`, model.NewM(`merge`, model.NewM(`strategy`, `hash`), `convert_to`, model.List{`string`, `%v`}))
	},
	func(i int) model.Val { return model.NewM(`k`, model.NewM(`merge`, `bogus`)) },
}

var c09Tops = []string{``, `config,module`, `module,config,scope`, `scope,env,config`, `env,module,config`}

type c09Case struct {
	Kinds []string
	Shape int
	Opts  int
	Top   string
}

var c09Queries = []query{
	{Key: `k`}, {Key: `k.x`}, {Key: `k.y.0`}, {Key: `k.2.x`}, {Key: `k.'9'.x`}, {`k`, `deep`}, {`k`, model.NewM(`strategy`, `unique`)}, {`k`, `bogus`},
	{Key: `ali`}, {Key: `o`}, {Key: `m::k`}, {Key: `M::k.x`}, {`m::k`, `hash`}, {Key: `nomod::k`}, {Key: `absent`}, {Key: `lookup_options`}, {Key: `lookup_options.k`}, {Key: `"d.d".e`}, {Key: `cyc`},
}

func c09Enum(tier string, yield func(interface{}) bool) {
	// every kind of source, alone
	dups := []string{`mappeddup`, `pathsdup`, `globsdup`}
	for _, t := range c09Tops {
		for _, k := range append(dups, srcKinds...) {
			for s := range c09Shapes {
				for o := range c09Opts {
					if !yield(c09Case{[]string{k}, s, o, t}) {
						return
					}
				}
			}
		}
	}
	for _, a := range append(dups, srcKinds...) {
		for _, b := range srcKinds {
			for s := range c09Shapes {
				for _, o := range []int{0, 1} {
					if !yield(c09Case{[]string{a, b}, s, o, ``}) {
						return
					}
				}
			}
		}
	}
	// many entries
	for _, n := range sizes(pick(tier, 50, 130)) {
		for _, s := range []int{0, 3, 4} {
			for o := 0; o < 2; o++ {
				var ks []string
				for i := 0; i < n; i++ {
					ks = append(ks, []string{`paths`, `fnkey`, `yaml`, `missing`, `glob`}[i%5])
				}
				if !yield(c09Case{ks, s, o, c09Tops[2*o]}) {
					return
				}
			}
		}
	}
	red := []string{`yaml`, `paths`, `fnkey`, `missing`, `uris`, `fndig`}
	for _, t := range c09Tops[1:] {
		for _, a := range red {
			for _, b := range red {
				for s := range c09Shapes {
					for o := range c09Opts {
						if tier == `quick` && (a == `fndig` || b == `uris` || a == `uris` && s > 1 || b == `fndig` && o > 1 || len(t) > 20 && s > 2) {
							continue
						}
						if !yield(c09Case{[]string{a, b}, s, o, t}) {
							return
						}
					}
				}
			}
		}
	}
	// three entries
	shapes, opts := []int{0, 1, 4}, []int{0, 1, 2}
	if tier == `thorough` {
		shapes, opts = []int{0, 1, 2, 3, 4, 5}, []int{0, 1, 2, 3, 4, 5}
	}
	three := []string{`yaml`, `paths`, `fnkey`, `missing`}
	if tier == `thorough` {
		three = red
	}
	n := len(three)
	product(func(ix []int) bool {
		return yield(c09Case{[]string{three[ix[0]], three[ix[1]], three[ix[2]]}, shapes[ix[3]], opts[ix[4]], c09Tops[ix[5]*2]})
	}, n, n, n, len(shapes), len(opts), pick(tier, 1, 2))
}

func c09Check(w *runner.W, ci interface{}) {
	c := ci.(c09Case)
	b := newBuild()
	b.scope = model.NewM(`v`, `V`, `h`, model.NewM(`a`, `h%{v}`), `scoped`, `S`)
	cfg := &model.Config{Hierarchy: []model.Entry{}}
	for i, kind := range c.Kinds {
		d := model.NewM(`other`, 1)
		if v := c09Shapes[c.Shape](i); v != model.Val(c09Absent) {
			d = d.With(`k`, v).With(`m::k`, v)
		}
		if i == len(c.Kinds)-1 {
			d = d.With(`o`, fmt.Sprintf(`o%d`, i)).With(`al`, `al%{v}`).With(`ali`, model.List{`%{alias('k')}`, `<%{lookup('k.x')}>`, `%{lookup('ali2')}`, `%{lookup('lookup_options')}`}).With(`ali2`, `2%{o} %{h}`).
				With(`d.d`, model.NewM(`e`, 1)).With(`cyc`, `%{lookup('cyc')}`)
		}
		if o := c09Opts[c.Opts](i); o != nil {
			d = d.With(`lookup_options`, o)
		}
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(kind, fmt.Sprintf(`s%d`, i), d))
	}
	b.config(`hiera.yaml`, cfg)
	if c.Top != `` {
		b.world.Mux = true
		b.world.Top = strings.Split(c.Top, `,`)
		md := model.NewM(`m::k`, model.NewM(`x`, `mx`))
		if c.Opts > 0 {
			md = md.With(`lookup_options`, model.NewM(`m::k`, model.NewM(`merge`, `deep`), `k`, model.NewM(`merge`, `unique`)))
		}
		b.config(`modules/m/hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `x`, Loc: &model.Loc{Kind: `path`, S: []string{`m.yaml`}}}}})
		b.data(`modules/m/data/m.yaml`, md)
		b.world.ModulePath = []string{theFS.path(`modules`)}
	}
	b.session(func(s api.Session) {
		c09Together(w, b, s)
		for _, q := range c09Queries {
			alone := q.impl(s.Invocation(b.dgoScope(), nil))
			for _, mode := range [][2]bool{{false, false}, {true, false}, {true, true}} {
				rec := newRecorder(mode[0], mode[1])
				got := q.impl(s.Invocation(b.dgoScope(), rec))
				w.Eval(1)
				where := func() string {
					return fmt.Sprintf("lookup %s options=%v onlyOptions=%v\n%s", q, mode[0], mode[1], b.describe())
				}
				if got.class() != alone.class() {
					w.Fail("explaining alters the lookup\n got: %s\nwant: %s\n%s", got, alone, where())
					continue
				}
				if rec.bad != `` || rec.cur != rec.root {
					w.Fail("not a tree: %s\n%s\n%s", rec.bad, strings.Join(rec.events, "\n"), where())
					continue
				}
				if got.err == `` {
					mc := model.NewCtx(b.world)
					mc.Trace = &model.Trace{Options: mode[0], OnlyOptions: mode[1]}
					_, _ = mc.Lookup(q.Key, q.Merge)
					w.Outcome(rec.events)
					if !reflect.DeepEqual(rec.events, mc.Trace.Events) {
						d := 0
						for d < len(rec.events) && d < len(mc.Trace.Events) && rec.events[d] == mc.Trace.Events[d] {
							d++
						}
						at := func(es []string) string {
							if d < len(es) {
								return es[d]
							}
							return `the end`
						}
						w.Fail("explanation differs in event %d: %s, expected %s\n got:\n%swant:\n%s%s", d, at(rec.events), at(mc.Trace.Events), modelTree(rec.events), modelTree(mc.Trace.Events), where())
						continue
					}
				}
				c09Render(w, s, rec, where)
			}
		}
	})
}

// c09Together makes the lookups that don't fail in one invocation, with one explainer
func c09Together(w *runner.W, b *build, s api.Session) {
	rec := newRecorder(true, false)
	iv := s.Invocation(b.dgoScope(), rec)
	mc := model.NewCtx(b.world)
	mc.Trace = &model.Trace{Options: true}
	for i := range c09Queries {
		q := c09Queries[len(c09Queries)-1-i]
		if q.model(b.world).err != `` {
			continue
		}
		from := len(rec.events)
		got := q.impl(iv)
		w.Eval(1)
		_, _ = mc.Lookup(q.Key, q.Merge)
		if got.err != `` || rec.bad != `` || rec.cur != rec.root || !reflect.DeepEqual(rec.events, mc.Trace.Events) {
			w.Fail("lookup %s after others, with the same explainer: %s %s\n got:\n%swant:\n%s%s", q, got, rec.bad, modelTree(rec.events[from:]), modelTree(mc.Trace.Events[from:]), b.describe())
			return
		}
	}
	c09Render(w, s, rec, b.describe)
}

// firstDiff describes the first difference between two decoded documents
func firstDiff(at string, got, want interface{}) string {
	if reflect.DeepEqual(got, want) {
		return ``
	}
	if g, ok := got.(map[string]interface{}); ok {
		if w, ok := want.(map[string]interface{}); ok {
			for k := range w {
				if d := firstDiff(at+`.`+k, g[k], w[k]); d != `` {
					return d
				}
			}
			for k := range g {
				if _, ok := w[k]; !ok {
					return fmt.Sprintf("%s.%s\n got: %v\nwant: nothing", at, k, g[k])
				}
			}
		}
	}
	if g, ok := got.([]interface{}); ok {
		if w, ok := want.([]interface{}); ok && len(g) == len(w) {
			for i := range w {
				if d := firstDiff(fmt.Sprintf(`%s[%d]`, at, i), g[i], w[i]); d != `` {
					return d
				}
			}
		}
	}
	return fmt.Sprintf("%s\n got: %v (%T)\nwant: %v (%T)", at, got, got, want, want)
}

func c09Render(w *runner.W, s api.Session, rec *recorder, where func() string) {
	ind := util.NewIndenter(`  `)
	rec.root.text(ind)
	want := ind.String()
	for i := 0; i < 1; i++ {
		if got := rec.Explainer.String(); got != want {
			w.Fail("text #%d\n got: %s\nwant: %s\n%s", i, got, want, where())
			return
		}
	}
	if !w.State(strings.Join(rec.events, "\n")) {
		return // rendered before
	}
	w.Count(`distinct_trees_rendered`, 1)
	wantData := rec.root.data()
	formats := []hiera.RenderName{hiera.JSON, hiera.YAML}
	if w.Tier != `thorough` && rec.Explainer.Options() && !rec.Explainer.OnlyOptions() {
		// contains what the other two modes contain
		formats = formats[:1]
	}
	for _, as := range formats {
		var out bytes.Buffer
		o := catch(func() dgo.Value { hiera.Render(s, as, rec.Explainer, &out); return nil })
		var data interface{}
		var err error
		if o.err == `` {
			if as == hiera.JSON {
				err = json.Unmarshal(out.Bytes(), &data)
			} else {
				var v dgo.Value
				if v, err = yaml.Unmarshal(out.Bytes()); err == nil {
					data = plain(model.FromDgo(v))
				}
			}
		}
		if o.err != `` || err != nil || !reflect.DeepEqual(data, wantData) {
			w.Fail("%s: %s %v\n%s\n%s", as, o.err, err, firstDiff(``, data, wantData), where())
			return
		}
	}
	if got := rec.Explainer.String(); got != want {
		w.Fail("text after rendering\n got: %s\nwant: %s\n%s", got, want, where())
	}
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C09`,
		Level: `exploration`,
		Rule: `every combination of one to three hierarchy entries (19 kinds alone and in pairs, 4 (thorough: 6) kinds in triples, 5 kinds in turn in up to 50 (thorough: 129) entries), 6 shapes of data (maps, in one source only, absent, interpolated, null) , 6 declarations of lookup options (strategies, conversions, sensitive, unknown), 5 top level functions; 19 lookups in each, with explainers for data, data and options, and options only; and those that don't fail together with one explainer. ` +
			`Compared: the result with the one without explainer, what the explainer is told (order, nesting, values) with the trace of the reference interpreter, and the text, yaml and json renderings with the tree that was told, repeatedly. Non-trivial and distinct: by what was told`,
		Enumerate: c09Enum,
		Check:     c09Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`entries`: 3, `lookups`: len(c09Queries), `modes`: 3}
		},
		Assumptions: []string{`the exact steps that are explained before a lookup fails are not judged, only that they are a tree`},
	}
})
