package props

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/cli"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"verif/mc/model"
	"verif/mc/runner"
)

// C18: variables

type c18Case struct {
	// variables of the session and of two invocations. A negative index means none
	Session int    `json:",omitempty"`
	Invs    []int  `json:",omitempty"`
	Way     string `json:",omitempty"` // how they are passed

	// sources of a command
	Sources []int `json:",omitempty"`
	CLI     bool  `json:",omitempty"`

	// one argument to --var
	Arg     *string `json:",omitempty"`
	Dialect string  `json:",omitempty"`

	Size int `json:",omitempty"` // number of variables, sources, and levels
}

var c18Values = []model.Val{nil, `s`, ``, 0, false, model.NewM(`k`, `mk`, `n`, nil), model.List{`l0`, `l1`}, `%{b}`, `c18/%{c}`}

// c18Scopes are the variables that a session or an invocation can have. The last one is none at all
var c18Scopes []*model.M

func init() {
	for i, v := range c18Values {
		c18Scopes = append(c18Scopes, model.NewM(`a`, v), model.NewM(`a`, v, `b`, fmt.Sprintf(`b%d`, i), `facts`, model.NewM(`a`, `f`)))
	}
	c18Scopes = append(c18Scopes, model.NewM(`b`, `onlyb`), model.NewM(`a.k`, `dotted`, `x::y`, `colons`, `A`, `upper`), model.NewM(`c`, `cc`, `b`, model.List{`1`, `2`}), model.NewM())
}

var c18Ways = []string{`go map`, `go map of string`, `mutable`, `frozen`, `nil`}

var c18Queries = []query{{Key: `a`}, {Key: `a.k`}, {Key: `i`}, {Key: `mapped`}, {Key: `after`}, {Key: `b`}, {Key: `x::y`}, {Key: `facts.a`}, {Key: `A`}, {Key: `missing`}, {`mapped`, `unique`}, {Key: `i2`}}

// c18Src are the sources of a command
var c18Src = []struct {
	kind, text string
	v          *model.M
	err        bool
}{
	{`var`, `a=1`, model.NewM(`a`, `1`), false},
	{`var`, `a:2`, model.NewM(`a`, `2`), false},
	{`var`, `b="q=r"`, model.NewM(`b`, `q=r`), false},
	{`var`, `facts=text`, model.NewM(`facts`, `text`), false},
	{`vars`, "a: v1\nc: v1\n", model.NewM(`a`, `v1`, `c`, `v1`), false},
	{`vars`, `{"a": "v2", "b": {"x": "v2"}, "facts": {"a": "notafact"}}`, model.NewM(`a`, `v2`, `b`, model.NewM(`x`, `v2`), `facts`, model.NewM(`a`, `notafact`)), false},
	{`vars`, ``, model.NewM(), false},
	{`facts`, "a: f1\nos: {family: f1}\n", model.NewM(`a`, `f1`, `os`, model.NewM(`family`, `f1`)), false},
	{`facts`, `{"os": {"name": "f2"}, "c": "f2"}`, model.NewM(`os`, model.NewM(`name`, `f2`), `c`, `f2`), false},
	{`facts`, ``, model.NewM(), false},
	{`facts`, `{"facts": {"a": "nested"}, "b": {"x": "f3"}}`, model.NewM(`facts`, model.NewM(`a`, `nested`), `b`, model.NewM(`x`, `f3`)), false},
	{`vars`, `- a`, nil, true},
	{`vars`, `{`, nil, true},
	{`facts`, `text`, nil, true},
	{`facts`, `MISSING`, nil, true},
	{`vars`, `STDIN`, model.NewM(`a`, `stdin`, `c`, `stdin`), false},
}

var c18Literals = map[string][]struct {
	text string
	v    model.Val
}{
	`dgo`: {
		{`"x"`, `x`}, {`""`, ``}, {`" sp "`, ` sp `}, {`"a=b:c"`, `a=b:c`}, {`"a\"b"`, `a"b`}, {`{"a":1}`, model.NewM(`a`, 1)}, {`{}`, nil},
		{`{"a":"b","c":"d=e"}`, model.NewM(`a`, `b`, `c`, `d=e`)}, {`{a:true}`, model.NewM(`a`, true)}, {`{"a":{"b":-1.5}}`, model.NewM(`a`, model.NewM(`b`, -1.5))},
	},
	`pcore`: {
		{`"x"`, `x`}, {`'x'`, `x`}, {`''`, ``}, {`' sp '`, ` sp `}, {`'a=b:c'`, `a=b:c`}, {`'it\'s'`, `it's`}, {`[]`, model.List{}}, {`{}`, model.NewM()},
		{`[1, 'b', true, undef, 1.5, -3]`, model.List{1, `b`, true, nil, 1.5, -3}}, {`{'a' => 1}`, model.NewM(`a`, 1)}, {`{a => [1, {b => 'c=d'}]}`, model.NewM(`a`, model.List{1, model.NewM(`b`, `c=d`)})},
		{`[[], {}]`, model.List{model.List{}, model.NewM()}}, {`{1 => 2}`, model.NewM(1, 2)},
	},
}

var c18BadLiterals = map[string][]string{
	`dgo`:   {`"x`, `"x" y`, `{"a":1`, `[1`, `{"a"=>1}`, `"`, `{`, `[`, `{"a":1}}`},
	`pcore`: {`"x`, `'x`, `"x" y`, `'x' 'y'`, `{'a' => 1`, `[1`, `{'a' = 1}`, `"`, `'`, `{`, `[`, `[1]]`},
}

func c18Enum(tier string, yield func(interface{}) bool) {
	// scopes
	n := len(c18Scopes)
	for s := 0; s < n; s++ {
		for _, way := range c18Ways {
			if !product(func(ix []int) bool { return yield(c18Case{Session: s, Invs: ix, Way: way}) }, n, n) {
				return
			}
		}
	}
	for _, n := range sizes(pick(tier, 260, 2100)) {
		if !yield(c18Case{Size: n}) {
			return
		}
	}
	// sources
	for _, c := range []bool{false, true} {
		if !sequences(len(c18Src), 0, pick(tier, 3, 4), func(ix []int) bool { return yield(c18Case{Sources: append([]int{}, ix...), CLI: c}) }) {
			return
		}
	}
	// arguments
	emit := func(s string) bool {
		for _, d := range []string{`dgo`, `pcore`} {
			s := s
			if !yield(c18Case{Arg: &s, Dialect: d}) {
				return false
			}
		}
		return true
	}
	strs := func(al []string, min, max int) bool {
		return sequences(len(al), min, max, func(ix []int) bool {
			s := ``
			for _, i := range ix {
				s += al[i]
			}
			return emit(s)
		})
	}
	if !strs([]string{`a`, `b`, `:`, `=`, ` `}, 0, pick(tier, 7, 8)) || !strs([]string{`a`, `:`, `=`, ` `, `"`, `'`, `[`, `{`, "\n", "\t", `é`, `.`, `%`, `5`}, 0, pick(tier, 4, 5)) {
		return
	}
	for d, ls := range c18Literals {
		_ = d
		for _, l := range ls {
			for _, pre := range []string{`v=`, `v:`, `v= `, `v = `, `x::v=`, `v:`, ` v=`} {
				for _, post := range []string{``, ` `, "\t"} {
					if !emit(pre + l.text + post) {
						return
					}
				}
			}
		}
		for _, l := range c18BadLiterals[d] {
			if !emit(`v=`+l) || !emit(`v:`+l) || !emit(`v= `+l) {
				return
			}
		}
	}
}

func c18Check(w *runner.W, ci interface{}) {
	c := ci.(c18Case)
	switch {
	case c.Size > 0:
		c18CheckSize(w, c.Size)
	case c.Arg != nil:
		c18CheckArg(w, c)
	case c.Way != ``:
		c18CheckScopes(w, c)
	default:
		c18CheckSources(w, c)
	}
}

// pass creates the map that is passed for the given variables. It returns false if they cannot be passed that way
func c18Pass(m *model.M, way string) (v interface{}, check func() string, ok bool) {
	if way == `nil` {
		return nil, func() string { return `` }, len(m.E) == 0
	}
	want := model.Canon(m)
	switch way {
	case `go map`, `go map of string`:
		if way == `go map of string` {
			sm := map[string]string{}
			for _, e := range m.E {
				s, isS := e.V.(string)
				if !isS {
					return nil, nil, false
				}
				sm[e.K.(string)] = s
			}
			return sm, func() string { return diff(want, model.Canon(model.FromDgo(vf.Value(sm)))) }, true
		}
		var conv func(v model.Val) interface{}
		conv = func(v model.Val) interface{} {
			switch v := v.(type) {
			case *model.M:
				r := map[string]interface{}{}
				for _, e := range v.E {
					r[e.K.(string)] = conv(e.V)
				}
				return r
			case model.List:
				r := []interface{}{}
				for _, e := range v {
					r = append(r, conv(e))
				}
				return r
			}
			return v
		}
		gm := conv(m).(map[string]interface{})
		return gm, func() string { return diff(want, model.Canon(model.FromDgo(vf.Value(gm)))) }, true
	}
	var mutable func(v model.Val) interface{}
	mutable = func(v model.Val) interface{} {
		switch v := v.(type) {
		case *model.M:
			r := vf.MutableMap()
			for _, e := range v.E {
				r.Put(e.K, mutable(e.V))
			}
			return r
		case model.List:
			r := vf.MutableValues()
			for _, e := range v {
				r.Add(mutable(e))
			}
			return r
		}
		return v
	}
	dm := mutable(m).(dgo.Map)
	if way == `frozen` {
		dm = dm.FrozenCopy().(dgo.Map)
	}
	frozen := dm.Frozen()
	return dm, func() string {
		if dm.Frozen() != frozen {
			return `the map of the caller was frozen`
		}
		bad := ``
		dm.EachValue(func(v dgo.Value) {
			if f, ok := v.(dgo.Freezable); ok && f.Frozen() != frozen {
				bad = `a value in the map of the caller was frozen`
			}
		})
		if bad == `` {
			bad = diff(want, model.Canon(model.FromDgo(dm)))
		}
		return bad
	}, true
}

func diff(want, got string) string {
	if want == got {
		return ``
	}
	return fmt.Sprintf("the map of the caller was changed from %s to %s", want, got)
}

func c18World() *build {
	b := newBuild()
	b.data(`data/i.yaml`, model.NewM(`i`, `<%{a}|%{scope('a.k')}|%{a.1}|%{b}|%{facts.a}|%{x::y}>`, `after`, `%{a}`, `i2`, `%{'a.k'}%{scope("A")}`))
	for _, f := range []string{`1`, `2`, `l0`} {
		b.data(`data/mp`+f+`.yaml`, model.NewM(`mapped`, f+`-%{a}-%{b}`))
	}
	b.config(`hiera.yaml`, &model.Config{Hierarchy: []model.Entry{
		{Name: `m1`, Loc: &model.Loc{Kind: `mapped_paths`, S: []string{`b`, `a`, `mp%{a}.yaml`}}},
		{Name: `m2`, Loc: &model.Loc{Kind: `mapped_paths`, S: []string{`a`, `b`, `mp%{b}.yaml`}}},
		{Name: `i`, Loc: &model.Loc{Kind: `path`, S: []string{`i.yaml`}}},
		{Name: `scope`, Kind: `lookup_key`, Func: `scope`}}})
	return b
}

func c18CheckScopes(w *runner.W, c c18Case) {
	b := c18World()
	b.fn(`scope`, `lookup_key`, func(_ *model.Ctx, _ *model.M, key string) model.Found {
		v, ok := b.world.Scope(key)
		return model.Found{V: v, OK: ok}
	})
	sm := c18Scopes[c.Session]
	sv, schk, ok := c18Pass(sm, c.Way)
	if !ok {
		return
	}
	opts := b.options()
	delete(opts, api.HieraFunctions)
	if sv != nil {
		opts[api.HieraScope] = sv
	}
	theFS.set(b.files)
	type inv struct {
		iv  api.Invocation
		chk func() string
		m   *model.M
	}
	var ivs []inv
	withSession(b.top(), opts, func(s api.Session) {
		for _, i := range c.Invs {
			v, chk, ok := c18Pass(c18Scopes[i], c.Way)
			if !ok {
				return
			}
			eff := &model.M{E: append([]model.KV{}, sm.E...)}
			for _, e := range c18Scopes[i].E {
				eff = eff.With(e.K, e.V)
			}
			ivs = append(ivs, inv{s.Invocation(v, nil), chk, eff})
		}
		before := s.Scope()
		for qi := range c18Queries {
			for ii, iv := range ivs {
				q := c18Queries[qi]
				b.scope = iv.m
				want := q.model(b.world)
				got := q.impl(iv.iv)
				w.Eval(1)
				w.Outcome(model.Canon(iv.m), q, want)
				if got.class() != want.class() {
					w.Fail("lookup %s using invocation %d\n got: %s\nwant: %s\nsession: %s\ninvocations: %s and %s", q, ii, got, want, model.Canon(sm), model.Canon(c18Scopes[c.Invs[0]]), model.Canon(c18Scopes[c.Invs[1]]))
					return
				}
			}
		}
		for _, iv := range ivs {
			if s := iv.chk(); s != `` {
				w.Fail("variables of an invocation: %s", s)
			}
		}
		if s.Scope() != before {
			w.Fail("the scope of the session was replaced")
		}
		for _, n := range []string{`a`, `b`, `c`, `facts`, `x::y`, `A`, `a.k`} {
			v, ok := sm.Get(n)
			g := s.Scope().Get(n)
			if ok != (g != nil) || ok && model.Canon(model.FromDgo(g)) != model.Canon(v) {
				w.Fail("variable %s of the session is now %v, was %v", n, g, v)
			}
		}
	})
	if s := schk(); s != `` {
		w.Fail("variables of the session: %s", s)
	}
}

// c18CheckSize decides a case with many variables of the session, an invocation, and a command
func c18CheckSize(w *runner.W, n int) {
	b := newBuild()
	b.config(`hiera.yaml`, &model.Config{Hierarchy: []model.Entry{{Name: `i`, Loc: &model.Loc{Kind: `path`, S: []string{`i.yaml`}}}}})
	long := strings.Repeat(`n`, n)
	text, sess, inv := ``, &model.M{}, &model.M{}
	var nested model.Val = `leaf`
	path := ``
	for i := 0; i < n; i++ {
		name := fmt.Sprintf(`v%d`, i)
		text += `%{` + name + `} `
		sess = sess.With(name, fmt.Sprintf(`s%d`, i))
		if i%2 == 1 {
			inv = inv.With(name, fmt.Sprintf(`i%d`, i))
		}
		nested = model.NewM(`x`, nested)
		path += `.x`
	}
	inv = inv.With(`nested`, nested).With(long, long+`value`)
	text += `%{nested` + path + `} %{nested` + path + `.x} %{` + long + `} %{` + long + `n}`
	b.data(`data/i.yaml`, model.NewM(`t`, text))
	eff := sess
	for _, e := range inv.E {
		eff = eff.With(e.K, e.V)
	}
	opts := b.options()
	opts[api.HieraScope] = model.ToDgo(sess)
	theFS.set(b.files)
	b.scope = eff
	want := query{Key: `t`}.model(b.world)
	withSession(b.top(), opts, func(s api.Session) {
		w.Eval(1)
		w.Outcome(n, want)
		if got := (query{Key: `t`}).impl(s.Invocation(model.ToDgo(inv), nil)); got.class() != want.class() {
			w.Fail("%d variables\n got: %s\nwant: %s", n, got, want)
		}
	})
	// as arguments and files, where each file hides a variable of the one before it
	delete(opts, api.HieraScope)
	co := hiera.CommandOptions{RenderAs: `s`}
	eff = &model.M{}
	for _, e := range inv.E {
		if s, ok := e.V.(string); ok {
			co.Variables = append(co.Variables, e.K.(string)+`=`+s)
		}
	}
	for i := 0; i < n && i < 130; i++ {
		m := model.NewM(fmt.Sprintf(`v%d`, i), fmt.Sprintf(`f%d`, i), fmt.Sprintf(`v%d`, i+1), `hidden`)
		b.files[fmt.Sprintf(`in/%d.yaml`, i)] = model.Flow(m)
		co.VarPaths = append(co.VarPaths, theFS.path(fmt.Sprintf(`in/%d.yaml`, i)))
		for _, e := range m.E {
			eff = eff.With(e.K, e.V)
		}
	}
	b.files[`in/facts.yaml`] = model.Flow(model.NewM(`nested`, nested))
	co.FactPaths = []string{theFS.path(`in/facts.yaml`)}
	// what comes from the arguments is hidden by what comes from files
	all := &model.M{}
	for _, e := range inv.E {
		all = all.With(e.K, e.V)
	}
	for _, e := range eff.E {
		all = all.With(e.K, e.V)
	}
	b.scope = all
	theFS.set(b.files)
	want = query{Key: `t`}.model(b.world)
	withSession(b.top(), opts, func(s api.Session) {
		var out bytes.Buffer
		o := catch(func() dgo.Value { hiera.LookupAndRender(s, &co, []string{`t`}, &out); return nil })
		w.Eval(1)
		if o.err != `` || out.String() != fmt.Sprint(want.V)+"\n" {
			w.Fail("%d variables given to a command\n got: %q %s\nwant: %s", n, out.String(), o.err, want)
		}
	})
}

const c18Text = `a=%{a}|b.x=%{b.x}|c=%{c}|os=%{os.family},%{os.name}|f.a=%{facts.a}|f.c=%{facts.c}|f.os=%{facts.os.family},%{facts.os.name}`

func c18CheckSources(w *runner.W, c c18Case) {
	files := map[string]string{`data/i.yaml`: model.Flow(model.NewM(`t`, c18Text)),
		`hiera.yaml`: "version: 5\nhierarchy:\n- name: i\n  path: i.yaml\n"}
	var co hiera.CommandOptions
	args := []string{`--config`, theFS.path(`hiera.yaml`), `--render-as`, `s`, `t`}
	eff, facts := model.NewM(), model.NewM()
	isErr := false
	hasFacts := false
	stdinUsed := false
	pass := map[string]*model.M{`var`: model.NewM(), `vars`: model.NewM(), `facts`: model.NewM()}
	for i, si := range c.Sources {
		s := c18Src[si]
		arg := s.text
		if s.kind != `var` {
			rel := fmt.Sprintf(`in/%d.yaml`, i)
			arg = theFS.path(rel)
			switch s.text {
			case `MISSING`:
				arg += `.nope`
			case `STDIN`:
				arg = `-`
			default:
				files[rel] = s.text
			}
		}
		switch s.kind {
		case `var`:
			co.Variables = append(co.Variables, arg)
		case `vars`:
			co.VarPaths = append(co.VarPaths, arg)
		case `facts`:
			co.FactPaths = append(co.FactPaths, arg)
			hasFacts = true
		}
		args = append(args, `--`+s.kind, arg)
		if s.err {
			isErr = true
			continue
		}
		if arg == `-` {
			if stdinUsed {
				continue
			}
			stdinUsed = true
		}
		for _, e := range s.v.E {
			pass[s.kind] = pass[s.kind].With(e.K, e.V)
		}
	}
	for _, k := range []string{`var`, `vars`, `facts`} {
		for _, e := range pass[k].E {
			eff = eff.With(e.K, e.V)
		}
	}
	facts = pass[`facts`]
	if hasFacts {
		eff = eff.With(`facts`, facts)
	}
	files[`stdin`] = `{"a": "stdin", "c": "stdin"}`
	theFS.set(files)
	if stdinUsed {
		f, err := os.Open(theFS.path(`stdin`))
		must(err)
		old := os.Stdin
		os.Stdin = f
		defer func() { os.Stdin = old; _ = f.Close() }()
	}
	want := c18Text
	var names []string
	for _, m := range c12Ipl.FindAllString(want, -1) {
		names = append(names, m)
	}
	for _, m := range names {
		v := c12Var(strings.Trim(m, `%{}`), eff)
		t := ``
		switch v := v.(type) {
		case nil:
		case string:
			t = v
		default:
			t = fmt.Sprint(v)
		}
		want = strings.Replace(want, m, t, 1)
	}
	var out string
	var err error
	if c.CLI {
		var bs []byte
		bs, err = cli.ExecuteLookup(args...)
		out = string(bs)
	} else {
		co.RenderAs = `s`
		buf := &bytes.Buffer{}
		err = hiera.TryWithParent(ctxBackground, provider.ConfigLookupKey, map[string]interface{}{api.HieraConfig: theFS.path(`hiera.yaml`)}, func(s api.Session) error {
			hiera.LookupAndRender(s, &co, []string{`t`}, buf)
			return nil
		})
		out = buf.String()
	}
	w.Eval(1)
	w.Outcome(fmt.Sprint(c.Sources), out)
	if isErr {
		if err == nil {
			w.Fail("no error from a source that can't be used, output is %q\nsources: %v", out, args)
		}
		return
	}
	if err != nil || out != want+"\n" {
		w.Fail("got: %q, %v\nwant: %q\nsources: %v", out, err, want, args)
	}
}

// c18Split finds the name and the text of the value in an argument
func c18Split(s string) (name, text string, ok bool) {
	sep := func(i int) bool { return s[i] == ':' || s[i] == '=' }
	for i := 1; i+1 < len(s); i++ {
		if sep(i) && !sep(i-1) && !sep(i+1) {
			return strings.TrimSpace(s[:i]), strings.TrimSpace(s[i+1:]), true
		}
	}
	return
}

func c18CheckArg(w *runner.W, c c18Case) {
	arg := *c.Arg
	var scope dgo.Keyed
	peek := func(pc sdk.ProviderContext, key string) dgo.Value {
		scope = pc.(api.ServerContext).Invocation().Scope()
		return nil
	}
	err := hiera.TryWithParent(ctxBackground, peek, map[string]interface{}{api.HieraDialect: c.Dialect, api.HieraConfig: theFS.path(`nope.yaml`)}, func(s api.Session) error {
		hiera.LookupAndRender(s, &hiera.CommandOptions{Variables: []string{arg}}, []string{`k`}, &bytes.Buffer{})
		return nil
	})
	w.Eval(1)
	if err == nil && scope == nil {
		w.Fail("no lookup was made")
		return
	}
	name, text, ok := c18Split(arg)
	w.Outcome(arg, c.Dialect, err == nil)
	multi := strings.Contains(arg, "\n")
	if !ok {
		if err == nil {
			w.Fail("argument %q has no name and value but is not an error", arg)
		}
		return
	}
	if name == `` || multi && err != nil {
		return
	}
	if err == nil {
		// no other variable
		for i := 0; i <= len(arg); i++ {
			for _, n := range []string{arg[:i], strings.TrimSpace(arg[:i])} {
				if v := scope.Get(n); n != name && v != nil {
					w.Fail("argument %q gives a variable %q, should be %q", arg, n, name)
					return
				}
			}
		}
		if scope.Get(name) == nil {
			w.Fail("argument %q doesn't give a variable %q", arg, name)
			return
		}
	}
	var want model.Val
	known, bad := true, false
	if text == `` || !strings.Contains("{[\"'", text[:1]) {
		want = text
	} else {
		known = false
		for _, l := range c18Literals[c.Dialect] {
			if l.text == text {
				known, want = l.v != nil || text != `{}`, l.v
			}
		}
		for _, l := range c18BadLiterals[c.Dialect] {
			if l == text {
				bad = true
			}
		}
		if n := len(text); n > 1 && text[0] == '"' && text[n-1] == '"' && !strings.ContainsAny(text[1:n-1], "\"\\\n$") {
			known, want = true, text[1:n-1]
		}
	}
	switch {
	case bad:
		if err == nil {
			w.Fail("argument %q denotes nothing in %s but gives %v", arg, c.Dialect, scope.Get(name))
		}
	case known:
		if err != nil {
			w.Fail("argument %q: %s", arg, err)
		} else if got := model.FromDgo(scope.Get(name)); !model.Equal(got, want) {
			w.Fail("argument %q gives %s, should be %s", arg, model.Canon(got), model.Canon(want))
		}
	}
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C18`,
		Level: `exploration`,
		Rule:  `All combinations of variables of a session and of two invocations that are used alternately, passed in five ways; all sequences of up to three (thorough: four) sources of a command; up to 257 (thorough: 2049) variables, levels, and files; and all arguments up to the bound over an alphabet with all significant characters, plus literals, in both dialects.`,
		Assumptions: []string{
			`variables with an empty name, and literals that denote types, are not judged`,
			`an argument that contains a newline may be an error`,
		},
		Enumerate: c18Enum,
		Check:     c18Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`scopes`: len(c18Scopes), `sources`: len(c18Src), `sources of a command`: pick(tier, 3, 4), `length of arguments`: pick(tier, 7, 8), `length of arguments, large alphabet`: pick(tier, 4, 5)}
		},
	}
})
