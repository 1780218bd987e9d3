package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/config"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/merge"
	"github.com/lyraproj/hiera/provider"

	"verif/mc/model"
	"verif/mc/runner"
)

// C24: keys, locations and explanations are values. All keys and locations up to the bound are compared with each other, and
// explainers are told all sequences of events up to the bound.

type c24Case struct {
	Kind string // keys, locations, events
	From int    `json:",omitempty"`
	Ops  []int  `json:",omitempty"` // the first events
	More int    `json:",omitempty"` // how many that can follow
}

const c24KeyChars = "a1.'\" "

func c24Keys() (keys []string) {
	for n := 0; n <= 4; n++ {
		limits := make([]int, n)
		for i := range limits {
			limits[i] = len(c24KeyChars)
		}
		product(func(ix []int) bool {
			k := make([]byte, n)
			for i, x := range ix {
				k[i] = c24KeyChars[x]
			}
			keys = append(keys, string(k))
			return true
		}, limits...)
	}
	for _, n := range sizes(130) {
		// longer ones that differ in the end, or in the number of segments
		keys = append(keys, strings.Repeat(`l`, n+4), strings.Repeat(`l.`, n+4)+`1`, strings.Repeat(`l.`, n+4)+`'1'`)
	}
	return append(keys, "a.b.c", `a."b.c".1`, `é.'日本'`, "a\nb", `a\b`, `::a::b`, `-1`, `a.-1`, `a.99999999999`)
}

// ---------------------------------------------------------------- events

type c24Named string

func (n c24Named) FullName() string                                          { return string(n) }
func (n c24Named) Hierarchy() api.Entry                                      { return nil }
func (n c24Named) LookupKey(api.Key, api.Invocation, api.Location) dgo.Value { return nil }

type c24Op struct {
	name string
	push bool
	do   func(r *recorder)
}

var c24Ops []c24Op
var c24Pop int

func c24MakeOps() {
	if c24Ops != nil {
		return
	}
	add := func(push bool, name string, do func(r *recorder)) {
		c24Ops = append(c24Ops, c24Op{name, push, do})
	}
	dgoVal := func(v model.Val) dgo.Value { return model.ToDgo(v) }
	add(true, `PushLookup`, func(r *recorder) { r.PushLookup(api.NewKey(`a.b`)) })
	add(true, `PushSubLookup`, func(r *recorder) { r.PushSubLookup(api.NewKey(`a."x.y".1`)) })
	add(true, `PushSegment(string)`, func(r *recorder) { r.PushSegment(`12`) })
	add(true, `PushSegment(int)`, func(r *recorder) { r.PushSegment(12) })
	add(true, `PushInterpolation`, func(r *recorder) { r.PushInterpolation("%{lookup('a')}\n") })
	add(true, `PushInvalidKey`, func(r *recorder) { r.PushInvalidKey(`a..b`) })
	add(true, `PushModule`, func(r *recorder) { r.PushModule(`mod`) })
	add(true, `PushDataProvider`, func(r *recorder) { r.PushDataProvider(c24Named(`data_hash function 'x'`)) })
	add(true, `PushMerge(first)`, func(r *recorder) { r.PushMerge(merge.GetStrategy(`first`, nil)) })
	add(true, `PushMerge(unique)`, func(r *recorder) { r.PushMerge(merge.GetStrategy(`unique`, nil)) })
	add(true, `PushMerge(deep)`, func(r *recorder) { r.PushMerge(merge.GetStrategy(`deep`, nil)) })
	add(true, `PushMerge(deep, options)`, func(r *recorder) {
		r.PushMerge(merge.GetStrategy(`deep`, vf.Map(`merge_hash_arrays`, true, `x`, vf.Map(`y`, 1))))
	})
	add(true, `PushLocation(path)`, func(r *recorder) { r.PushLocation(c24Resolved[0]) })
	add(true, `PushLocation(uri)`, func(r *recorder) { r.PushLocation(c24Resolved[1]) })
	add(false, `AcceptFound(string)`, func(r *recorder) { r.AcceptFound(api.NewKey(`k.'l'`), vf.String("v\n \"w\"")) })
	add(false, `AcceptFound(int key)`, func(r *recorder) { r.AcceptFound(3, dgoVal(model.NewM(`a`, model.List{1, true, nil, 2.5}))) })
	add(false, `AcceptFound(null)`, func(r *recorder) { r.AcceptFound(`n`, vf.Nil) })
	add(false, `AcceptFoundInDefaults`, func(r *recorder) { r.AcceptFoundInDefaults(`d`, vf.Integer(1)) })
	add(false, `AcceptFoundInOverrides`, func(r *recorder) { r.AcceptFoundInOverrides(`o`, vf.False) })
	add(false, `AcceptNotFound`, func(r *recorder) { r.AcceptNotFound(api.NewKey(`nf`)) })
	add(false, `AcceptLocationNotFound`, func(r *recorder) { r.AcceptLocationNotFound() })
	add(false, `AcceptModuleNotFound`, func(r *recorder) { r.AcceptModuleNotFound() })
	add(false, `AcceptMergeSource`, func(r *recorder) { r.AcceptMergeSource(`"lookup_options" hash`) })
	add(false, `AcceptMergeResult`, func(r *recorder) { r.AcceptMergeResult(dgoVal(model.NewM(`r`, model.List{}))) })
	add(false, `AcceptText`, func(r *recorder) { r.AcceptText(`some text`) })
	c24Pop = len(c24Ops)
	add(false, `Pop`, func(r *recorder) { r.Pop() })
}

func c24Enum(tier string, yield func(interface{}) bool) {
	c24MakeOps()
	for i := range c24Keys() {
		if !yield(c24Case{Kind: `keys`, From: i}) {
			return
		}
	}
	for i := 0; i < c24Locations; i++ {
		if !yield(c24Case{Kind: `locations`, From: i}) {
			return
		}
	}
	if !yield(c24Case{Kind: `events`}) {
		return
	}
	for a := range c24Ops {
		for b := range c24Ops {
			if !c24Ops[a].push || b == c24Pop {
				continue
			}
			for _, n := range sizes(pick(tier, 33, 130)) {
				// many in a row, and many levels
				var row, deep []int
				for i := 0; i < n; i++ {
					row = append(row, a, b)
					for j := 0; j < 1+map[bool]int{true: 1}[c24Ops[b].push]; j++ {
						row = append(row, c24Pop)
					}
					deep = append(deep, a, b)
				}
				if !yield(c24Case{Kind: `events`, Ops: row}) || !yield(c24Case{Kind: `events`, Ops: deep}) {
					return
				}
			}
		}
	}
	more := pick(tier, 2, 3)
	for a := range c24Ops {
		if !yield(c24Case{Kind: `events`, Ops: []int{a}}) {
			return
		}
		for b := range c24Ops {
			if !yield(c24Case{Kind: `events`, Ops: []int{a, b}, More: more}) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- locations

type c24Loc struct {
	l    api.Location
	desc string // everything that distinguishes it
}

const c24Locations = 96

var c24Locs []c24Loc
var c24Resolved [2]api.Location

func c24Setup(w *runner.W) {
	setupFS(w)
	theFS.set(map[string]string{`d/a`: `x`, `e/a`: `x`, `e/aa`: `x`})
	c24MakeOps()
	names := []string{``, `a`, `aa`, `%{v}`, `%{u}`, `b c`}
	add := func(l api.Location, desc string) { c24Locs = append(c24Locs, c24Loc{l, desc}) }
	for _, n := range names {
		add(config.NewPath(n), `path `+n)
		add(config.NewURI(n), `uri `+n)
		add(config.NewGlob(n), `glob `+n)
		add(config.NewPath(n), `path `+n)
		add(config.NewURI(n), `uri `+n)
		add(config.NewGlob(n), `glob `+n)
	}
	parts := []string{``, `a`, `aa`}
	product(func(ix []int) bool {
		add(config.NewMappedPaths(parts[ix[0]], parts[ix[1]], parts[ix[2]]), fmt.Sprintf(`mapped %q %q %q`, parts[ix[0]], parts[ix[1]], parts[ix[2]]))
		return true
	}, 3, 3, 3)
	withSession(provider.ConfigLookupKey, map[string]interface{}{api.HieraScope: vf.Map(`v`, `a`, `u`, `aa`, `l`, vf.Strings(`a`, `b`))}, func(s api.Session) {
		ic := s.Invocation(nil, nil)
		for _, d := range []string{`d`, `e`} {
			for _, n := range names[1:] {
				for _, l := range []api.Location{config.NewPath(n), config.NewURI(n)} {
					for _, r := range l.Resolve(ic, theFS.path(d)) {
						add(r, fmt.Sprintf(`%s %s from %s exists %v`, r.Kind(), r.Resolved(), r.Original(), r.Exists()))
					}
				}
			}
			for _, r := range config.NewMappedPaths(`l`, `x`, `%{x}`).Resolve(ic, theFS.path(d)) {
				add(r, fmt.Sprintf(`%s %s from %s exists %v`, r.Kind(), r.Resolved(), r.Original(), r.Exists()))
			}
			for _, r := range config.NewGlob(`*`).Resolve(ic, theFS.path(d)) {
				add(r, fmt.Sprintf(`%s %s from %s exists %v`, r.Kind(), r.Resolved(), r.Original(), r.Exists()))
			}
		}
		c24Resolved = [2]api.Location{config.NewPath(`%{v}`).Resolve(ic, theFS.path(`d`))[0], config.NewURI(`http://x/%{v}`).Resolve(ic, ``)[0]}
	})
	if len(c24Locs) > c24Locations {
		panic(len(c24Locs))
	}
}

// c24Back serializes a value as JSON or YAML and converts it back
func c24Back(s api.Session, v dgo.Value, as hiera.RenderName) (text string, back dgo.Value) {
	var out bytes.Buffer
	hiera.Render(s, as, v, &out)
	text = out.String()
	if as == hiera.JSON {
		return text, streamer.UnmarshalJSON(out.Bytes(), nil)
	}
	data, err := yaml.Unmarshal(out.Bytes())
	must(err)
	dc := streamer.DataDecoder(nil, streamer.DgoDialect())
	streamer.New(nil, streamer.DefaultOptions()).Stream(data, dc)
	return text, dc.Value()
}

// c24Values checks that two values are equal, or not, in every respect
func c24Values(w *runner.W, a, b dgo.Value, same bool, what string) {
	w.Eval(1)
	o := catch(func() dgo.Value {
		e1, e2 := a.Equals(b), b.Equals(a)
		if e1 != same || e2 != same {
			panic(fmt.Sprintf(`Equals yields %v and %v instead of %v`, e1, e2, same))
		}
		if same && a.HashCode() != b.HashCode() {
			panic(`the hash codes of equal values differ`)
		}
		m := vf.MutableMap()
		m.Put(a, 1)
		if got := m.Get(b) != nil; got != same {
			panic(fmt.Sprintf(`a map with one of them as a key has the other: %v`, got))
		}
		return nil
	})
	if o.err != `` {
		w.Fail("%s: %s", what, o.err)
	}
}

func c24Survives(w *runner.W, s api.Session, v dgo.Value, what string, same func(back dgo.Value) bool) {
	for _, as := range []hiera.RenderName{hiera.JSON, hiera.YAML} {
		var text string
		o := catch(func() dgo.Value {
			w.Eval(1)
			var back dgo.Value
			text, back = c24Back(s, vf.Map(`x`, vf.Values(v, 1)), as)
			b := back.(dgo.Map).Get(`x`).(dgo.Array).Get(0)
			if !v.Equals(b) || !b.Equals(v) || !same(b) {
				panic(fmt.Sprintf(`became %s`, b))
			}
			return nil
		})
		w.Outcome(text)
		if o.err != `` {
			w.Fail("%s doesn't survive %s: %s\n%s", what, as, o.err, text)
		}
	}
}

func c24Check(w *runner.W, ci interface{}) {
	c := ci.(c24Case)
	withSession(provider.ConfigLookupKey, map[string]interface{}{}, func(s api.Session) {
		switch c.Kind {
		case `keys`:
			keys := c24Keys()
			ks := keys[c.From]
			rk := api.NewRootKey(ks)
			if !reflect.DeepEqual(rk.Parts(), []interface{}{ks}) || rk.Root() != ks {
				w.Fail("root key %q has the parts %v", ks, rk.Parts())
			}
			c24Survives(w, s, rk, fmt.Sprintf(`root key %q`, ks), func(b dgo.Value) bool {
				bk, ok := b.(api.Key)
				return ok && reflect.DeepEqual(bk.Parts(), rk.Parts()) && bk.Source() == rk.Source()
			})
			var k api.Key
			if catch(func() dgo.Value { k = api.NewKey(ks); return nil }).err != `` {
				return
			}
			what := fmt.Sprintf(`key %q`, ks)
			for _, os := range keys {
				rk := api.NewRootKey(os)
				if same := k.Source() == rk.Source(); same && (rk.Root() != k.Root() || len(k.Parts()) > 1) {
					w.Fail("root key %q and key %q have the same source, but aren't the same", os, ks)
				} else {
					c24Values(w, k, rk, same, what+fmt.Sprintf(` and root key %q`, os))
				}
			}
			c24Survives(w, s, k, what, func(b dgo.Value) bool {
				bk, ok := b.(api.Key)
				return ok && bk.Source() == ks && reflect.DeepEqual(bk.Parts(), k.Parts()) && bk.Root() == k.Root() && bk.String() == k.String()
			})
			for _, os := range keys {
				var ok api.Key
				if catch(func() dgo.Value { ok = api.NewKey(os); return nil }).err == `` {
					c24Values(w, k, ok, os == ks, what+fmt.Sprintf(` and key %q`, os))
				}
			}
			for _, v := range []interface{}{ks, vf.String(ks), nil, 1} {
				if k.Equals(v) {
					w.Fail("%s equals %v (%T)", what, v, v)
				}
			}
		case `locations`:
			if c.From >= len(c24Locs) {
				return
			}
			l := c24Locs[c.From]
			c24Survives(w, s, l.l, l.desc, func(b dgo.Value) bool {
				bl, ok := b.(api.Location)
				if !ok || bl.Kind() != l.l.Kind() || bl.Original() != l.l.Original() || bl.Exists() != l.l.Exists() || bl.String() != l.l.String() {
					return false
				}
				if strings.Contains(l.desc, ` from `) {
					return bl.Resolved() == l.l.Resolved()
				}
				return true
			})
			for _, o := range c24Locs {
				c24Values(w, l.l, o.l, o.desc == l.desc, l.desc+` and `+o.desc)
			}
			for _, v := range []interface{}{l.l.Original(), vf.String(l.l.Original()), nil, 1} {
				if l.l.Equals(v) {
					w.Fail("%s equals %v (%T)", l.desc, v, v)
				}
			}
		case `events`:
			c24Events(w, s, c)
		}
	})
}

// c24Events tells explainers all sequences that start with the given events
func c24Events(w *runner.W, s api.Session, c c24Case) {
	var seq func(ops []int, more int)
	seq = func(ops []int, more int) {
		depth := 0
		for _, o := range ops {
			switch {
			case c24Ops[o].push:
				depth++
			case o == c24Pop:
				depth--
			}
			if depth < 0 {
				return
			}
		}
		c24Explain(w, s, ops, depth)
		if more > 0 && !w.Failed() {
			for o := range c24Ops {
				seq(append(ops[:len(ops):len(ops)], o), more-1)
			}
		}
	}
	seq(c.Ops, c.More)
}

// c24Bare is true if there's a node about which nothing is told. Its data denotes a type
func c24Bare(data interface{}) bool {
	switch data := data.(type) {
	case map[string]interface{}:
		if len(data) == 1 && data[`__type`] != nil {
			return true
		}
		for _, v := range data {
			if c24Bare(v) {
				return true
			}
		}
	case []interface{}:
		for _, v := range data {
			if c24Bare(v) {
				return true
			}
		}
	}
	return false
}

func c24Explain(w *runner.W, s api.Session, ops []int, depth int) {
	mode := len(ops) % 3
	if len(ops) > 0 {
		mode = (len(ops) + ops[0]) % 3
	}
	where := func() string {
		names := make([]string, len(ops))
		for i, o := range ops {
			names[i] = c24Ops[o].name
		}
		return fmt.Sprintf("NewExplainer(%v, %v), %s", mode > 0, mode == 2, strings.Join(names, `, `))
	}
	r := newRecorder(mode > 0, mode == 2)
	w.Eval(1)
	var text string
	o := catch(func() dgo.Value {
		for _, op := range ops {
			c24Ops[op].do(r)
		}
		for i := 0; i < depth; i++ {
			r.Pop()
		}
		text = r.Explainer.String()
		return nil
	})
	if o.err != `` {
		w.Fail("%s\n%s", o.err, where())
		return
	}
	ind := util.NewIndenter(`  `)
	r.root.text(ind)
	if text != ind.String() {
		w.Fail("text\n got: %s\nwant: %s\n%s", text, ind, where())
		return
	}
	wantData := r.root.data()
	bare := c24Bare(wantData)
	for _, as := range []hiera.RenderName{hiera.JSON, hiera.YAML} {
		if as == hiera.YAML && len(ops) > 3 && w.Tier != `thorough` {
			continue
		}
		var doc string
		o = catch(func() dgo.Value {
			var out bytes.Buffer
			hiera.Render(s, as, r.Explainer, &out)
			doc = out.String()
			if as == hiera.JSON {
				var data interface{}
				must(json.Unmarshal([]byte(doc), &data))
				if !reflect.DeepEqual(data, wantData) {
					panic(firstDiff(``, data, wantData))
				}
			}
			if bare {
				return nil
			}
			_, back := c24Back(s, r.Explainer, as)
			ex, ok := back.(api.Explainer)
			if !ok {
				panic(fmt.Sprintf(`became a %T`, back))
			}
			if ex.Options() != r.Explainer.Options() || ex.OnlyOptions() != r.Explainer.OnlyOptions() {
				panic(`the mode has changed`)
			}
			if got := ex.String(); got != text {
				panic(fmt.Sprintf("text after conversion back\n got: %s\nwant: %s", got, text))
			}
			var again bytes.Buffer
			hiera.Render(s, as, ex, &again)
			if again.String() != doc {
				panic(fmt.Sprintf("converted again\n got: %s\nwant: %s", again.String(), doc))
			}
			// one that was converted back can be told more
			ex.PushLookup(api.NewKey(`more`))
			ex.Pop()
			nl := "\n"
			if text == `` {
				nl = ``
			}
			if got := ex.String(); len(r.root.texts) == 0 && got != text+nl+`Searching for "more"` {
				panic(fmt.Sprintf("text after more was explained\n got: %s\nwant: %s", got, text+nl+`Searching for "more"`))
			}
			return nil
		})
		if o.err != `` {
			w.Fail("%s: %s\n%s\n%s", as, o.err, doc, where())
			return
		}
	}
	if got := r.Explainer.String(); got != text {
		w.Fail("text after rendering\n got: %s\nwant: %s\n%s", got, text, where())
	}
	if !r.Explainer.Equals(r.Explainer) || r.Explainer.Equals(nil) || r.Explainer.HashCode() != r.Explainer.HashCode() {
		w.Fail("an explanation doesn't equal itself\n%s", where())
	}
	w.Outcome(text)
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C24`,
		Level: `exploration`,
		Rule:  `All keys up to four characters, longer ones of up to 129 segments, and locations of all kinds (before and after they were resolved) are compared with each other (and with keys made as root keys) and converted to JSON and YAML and back. Explainers are told all well formed sequences of events up to the bound, and pairs of events that are repeated up to 33 (thorough: 129) times in a row or nested; text, data, and what is converted back are compared with an independent renderer.`,
		Assumptions: []string{
			`explanations are converted when they are complete, with the default dialect`,
			`an explanation with a node about which nothing at all is told is not converted back (the serialization that the dependency implements reserves its form for types)`,
		},
		Enumerate: c24Enum,
		Check:     c24Check,
		Setup:     c24Setup,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`keys`: len(c24Keys()), `kinds of events`: len(c24Ops), `events`: 2 + pick(tier, 2, 3)}
		},
	}
})
