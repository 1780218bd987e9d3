package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/cli"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"gopkg.in/yaml.v3"

	"verif/mc/model"
	"verif/mc/runner"
)

// C17: the command line gives what the API gives, in each output format

type c17Case struct {
	Names   []string
	Merge   string `json:",omitempty"`
	Type    int    `json:",omitempty"` // index in c17Types
	Default int    `json:",omitempty"` // index in c17Defaults
	Vars    int    `json:",omitempty"` // index in c17Vars
	Render  string `json:",omitempty"`
	Explain int    `json:",omitempty"` // bit 0 is data, bit 1 is options
	All     bool   `json:",omitempty"`
	Dialect string `json:",omitempty"`
	Config  string `json:",omitempty"` // how the configuration is found
	Process bool   `json:",omitempty"` // run the command in a process of its own
}

// c17Values are values that can be rendered
var c17Values = []model.Val{
	`plain`, `23`, `true`, `~`, `null`, `1.5`, `2020-01-01`, ` lead`, `trail `, "line1\nline2\n", "a\n\n b", "\n", ``, `- a`, `é` + "\x01\u2028", `<a&b>`, `yes`, `0x1f`, `1_000`,
	`a: b #c`, "\t", `{`, `[]`, `'`, `"`, `\`, `a"b\c`, `!x`, `&x`, `*x`, `@`, "`", `|`, `>`, `?`, `:`, `-`, `...`, `---`, `#`, `, `, `<<`, `=`, `aGVsbG8=`, `aGVsbG8`, `====`,
	strings.Repeat(`long text `, 20),
	0, 7, -12, 9223372036854775807, 1.0, 1.5, -0.25, 1e300, 1e-7, 123456789.125, true, false, nil,
	model.List{}, model.NewM(), model.List{model.List{}}, model.List{nil}, model.List{1, `1`, 1.0, nil, true, model.List{}, model.NewM(), model.List{nil}}, model.List{104, 105, 0, 255}, model.List{256}, model.List{-1}, model.List{`a`}, model.List{`2`},
	model.NewM(`z`, 1, `a`, model.NewM(`b`, nil, `c`, model.List{model.NewM(`d`, `e`)})), model.NewM(``, ``), model.NewM(`a b`, `c: d`), model.NewM(`1`, `2`, `true`, `x`, `~`, 3),
	model.NewM(1, `a`, true, `b`, 1.5, `c`), model.NewM(nil, `x`), model.NewM(`m`, model.NewM(2, 3)),
	model.List{strings.Repeat(`same text `, 5), strings.Repeat(`same text `, 5)}, model.NewM(`x`, model.NewM(`long key that is long`, 1), `y`, model.NewM(`long key that is long`, 1)),
}

var c17Merges = []string{``, `first`, `unique`, `hash`, `deep`, `bogus`, `fir`}

var c17Renders = []string{``, `yaml`, `json`, `s`, `binary`, `bogus`}

var c17Types = []struct {
	dgo, pcore string
	t          dgo.Type
	bad, isMap bool
}{
	{``, ``, nil, false, false},
	{`string`, `String`, typ.String, false, false},
	{`int`, `Integer`, typ.Integer, false, false},
	{`[]string`, `Array[String]`, tf.Array(typ.String), false, false},
	{`float`, `Float`, typ.Float, false, false},
	{`{num:int,str:string,missing?:int,m?:any}`, `Struct[{num=>Integer,str=>String,Optional[missing]=>Integer,Optional[m]=>Any}]`, tf.StructMap(false,
		tf.StructMapEntry(`num`, typ.Integer, true), tf.StructMapEntry(`str`, typ.String, true), tf.StructMapEntry(`missing`, typ.Integer, false), tf.StructMapEntry(`m`, typ.Any, false)), false, true},
	{`[`, `Array[`, nil, true, false},
	{`sensitive`, `Sensitive`, typ.Sensitive, false, false},
}

var c17Defaults = []struct {
	text string
	v    model.Val
	has  bool
	bad  bool
}{{``, nil, false, false}, {``, ``, true, false}, {`text`, `text`, true, false}, {`42`, `42`, true, false}, {`"q: 1"`, `q: 1`, true, false}, {` {"a":1}`, nil, true, false}, {`["x`, nil, true, true}}

// c17Vars are variables, the first are flags, and the last is what they mean
var c17Vars = []struct {
	args []string
	m    *model.M
}{
	{nil, model.NewM()},
	{[]string{`--var`, `v=one`, `--var`, `w:"x=y"`}, model.NewM(`v`, `one`, `w`, `x=y`)},
	{[]string{`--facts`, `FACTS`, `--var`, `v=one`}, model.NewM(`v`, `fact`, `facts`, model.NewM(`v`, `fact`))},
	{[]string{`--vars`, `MISSING`}, nil},
}

var c17Exe string

// c17Sized are sizes of values
func c17Sized(tier string) []int {
	return sizes(pick(tier, 260, 2050))
}

func c17Enum(tier string, yield func(interface{}) bool) {
	// sizes
	for _, n := range c17Sized(tier) {
		for shape := 0; shape < c19SizedShapes; shape++ {
			if n > 130 && shape > 2 {
				continue
			}
			for _, r := range c17Renders {
				for _, p := range []bool{false, true} {
					if p && (n > 20 || r == `bogus` || shape > 2) {
						continue
					}
					if !yield(c17Case{Names: []string{fmt.Sprintf(`size%d_%d`, shape, n)}, Render: r, Process: p, Config: `vals`}) {
						return
					}
				}
			}
		}
		// the last of many names is the one that's found, and all of them
		ns := make([]string, n)
		for i := range ns {
			ns[i] = fmt.Sprintf(`missing%d`, i)
		}
		for _, last := range []string{`v0`, `v1`, `missing`} {
			for _, all := range []bool{false, true} {
				if !yield(c17Case{Names: append(append([]string{}, ns...), last), Config: `vals`, All: all}) {
					return
				}
			}
		}
	}
	// all values
	for i := range c17Values {
		for _, r := range c17Renders {
			for _, d := range []string{``, `dgo`, `pcore`} {
				for _, p := range []bool{false, true} {
					for _, k := range []string{`v%d`, `in.%d`, `alias%d`} {
						if p && (k != `v%d` || d != ``) {
							continue
						}
						if !yield(c17Case{Names: []string{fmt.Sprintf(k, i)}, Render: r, Dialect: d, Process: p, Config: `vals`}) {
							return
						}
					}
				}
			}
		}
	}
	names := [][]string{{`num`}, {`m`}, {`missing`}, {`missing`, `num`}, {`num`, `str`}, {`fails`}, {`l.0`}, {`env::C17VAR`}, {`opt`}, {`sens`}, {`l`}}
	for _, c := range []string{``, `cwd`, `none`, `malformed`} {
		for _, r := range c17Renders {
			for _, d := range []string{``, `bogus`, `dgo`} {
				for ni, n := range names {
					for e := 0; e < 4; e++ {
						for _, all := range []bool{false, true} {
							for _, p := range []bool{false, true} {
								if p && (ni > 3 || d == `dgo` || e > 1) {
									continue
								}
								if !yield(c17Case{Names: n, Config: c, Render: r, Dialect: d, Explain: e, All: all, Process: p}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
	product(func(ix []int) bool {
		if tier != `thorough` && (ix[2] != 0 && ix[6] != 0 || ix[4] > 1 && ix[1] > 0) {
			return true
		}
		return yield(c17Case{Names: names[ix[0]], Merge: c17Merges[ix[1]], Type: ix[2], Default: ix[3], Vars: ix[4], Render: c17Renders[ix[5]], Explain: ix[6], All: ix[7] == 1, Dialect: []string{``, `dgo`}[ix[8]]})
	}, len(names), len(c17Merges), len(c17Types), len(c17Defaults), len(c17Vars), len(c17Renders), 4, 2, 2)
}

var c17Dir string

func c17Setup(w *runner.W) {
	setupFS(w)
	c17Exe = os.Getenv(`VERIF_C17_LOOKUP`)
	must(os.Setenv(`C17VAR`, `from env`))
	d1 := model.NewM(`num`, `17`, `str`, `s-%{v}-%{w}-%{facts.v}`, `fails`, `%{bogus('x')}`, `opt`, model.List{`a`, `a`}, `sens`, `hidden`,
		`l`, model.List{`one`, `two`}, `m`, model.NewM(`k`, `1`, `sub`, model.NewM(`x`, `%{v}`)),
		`lookup_options`, model.NewM(`opt`, model.NewM(`merge`, `unique`), `sens`, model.NewM(`convert_to`, `sensitive`)))
	vals, in := model.NewM(), model.NewM()
	for i, v := range c17Values {
		vals = vals.With(fmt.Sprintf(`v%d`, i), v).With(fmt.Sprintf(`alias%d`, i), fmt.Sprintf(`%%{alias('v%d')}`, i))
		in = in.With(fmt.Sprintf(`k%d`, i), v)
	}
	vals = vals.With(`in`, in)
	for _, n := range c17Sized(w.Tier) {
		for shape := 0; shape < c19SizedShapes; shape++ {
			if n <= 130 || shape <= 2 {
				vals.E = append(vals.E, model.KV{K: fmt.Sprintf(`size%d_%d`, shape, n), V: c19Sized(shape, n)})
			}
		}
	}
	d2 := model.NewM(`num`, `18`, `opt`, model.List{`a`, `b`}, `l`, model.List{`two`, `three`}, `m`, model.NewM(`k`, `2`, `j`, `3`, `sub`, model.NewM(`y`, 2)))
	theFS.set(map[string]string{
		`hiera.yaml`:       "version: 5\nhierarchy:\n- name: d1\n  path: d1.yaml\n- name: d2\n  path: d2.yaml\n",
		`data/d1.yaml`:     model.Flow(d1),
		`data/d2.yaml`:     model.Flow(d2),
		`facts.yaml`:       `v: fact`,
		`vals/hiera.yaml`:  "version: 5\nhierarchy:\n- name: d\n  path: d.yaml\n",
		`vals/data/d.yaml`: model.Flow(vals),
		`mal/hiera.yaml`:   "version: 5\nhierarchy: x\n",
		`none/x`:           ``,
	})
}

func (c c17Case) names() []string {
	ns := make([]string, len(c.Names))
	for i, n := range c.Names {
		if strings.HasPrefix(n, `in.`) {
			n = `in.k` + n[3:]
		}
		ns[i] = n
	}
	return ns
}

func c17Check(w *runner.W, ci interface{}) {
	c := ci.(c17Case)
	cfg := theFS.path(`hiera.yaml`)
	dir := theFS.path(`none`)
	var args []string
	flag := func(n, v string) {
		if len(args)%4 < 2 {
			args = append(args, `--`+n, v)
		} else {
			args = append(args, `--`+n+`=`+v)
		}
	}
	switch c.Config {
	case ``:
		flag(`config`, cfg)
	case `cwd`:
		dir = theFS.root
	case `vals`:
		dir = theFS.path(`vals`)
		cfg = theFS.path(`vals/hiera.yaml`)
	case `none`:
		flag(`config`, theFS.path(`nope.yaml`))
		cfg = theFS.path(`nope.yaml`)
	case `malformed`:
		dir = theFS.path(`mal`)
		cfg = theFS.path(`mal/hiera.yaml`)
	}
	if c.Merge != `` {
		flag(`merge`, c.Merge)
	}
	d := c.Dialect
	if d != `` {
		flag(`dialect`, d)
	} else {
		d = `pcore`
	}
	t := c17Types[c.Type]
	if c.Type > 0 {
		flag(`type`, map[bool]string{true: t.dgo, false: t.pcore}[d == `dgo`])
	}
	df := c17Defaults[c.Default]
	if df.has {
		flag(`default`, df.text)
	}
	vs := c17Vars[c.Vars]
	for i := 0; i < len(vs.args); i += 2 {
		v := vs.args[i+1]
		switch v {
		case `FACTS`:
			v = theFS.path(`facts.yaml`)
		case `MISSING`:
			v = theFS.path(`missing.yaml`)
		}
		args = append(args, vs.args[i], v)
	}
	if c.Render != `` {
		flag(`render-as`, c.Render)
	}
	if c.Explain&1 != 0 {
		args = append(args, `--explain`)
	}
	if c.Explain&2 != 0 {
		args = append(args, `--explain-options`)
	}
	if c.All {
		args = append(args, `--all`)
	}
	args = append(args, c.names()...)

	var got []byte
	var err error
	if c.Process {
		cmd := exec.Command(c17Exe, args...)
		cmd.Dir = dir
		errOut := &bytes.Buffer{}
		cmd.Stderr = errOut
		got, err = cmd.Output()
		if err != nil {
			if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() <= 0 {
				w.Fail("the command did not exit: %v", err)
				return
			} else if strings.Contains(errOut.String(), "goroutine ") {
				w.Fail("the command crashed: %s", errOut)
				return
			} else if errOut.Len() == 0 {
				w.Fail("the command failed without a message: %v", args)
				return
			}
		}
	} else {
		must(os.Chdir(dir))
		func() {
			defer func() {
				if r := recover(); r != nil {
					w.Fail("the command panics: %v\narguments: %q", r, args)
				}
			}()
			got, err = cli.ExecuteLookup(args...)
		}()
		must(os.Chdir(w.Dir))
	}
	w.Eval(1)
	fail := func(f string, as ...interface{}) {
		w.Fail("%s\noutput: %q\n error: %v\narguments: %q", fmt.Sprintf(f, as...), got, err, args)
	}

	// the same lookup using the API
	bad := df.bad || t.bad || vs.m == nil || d == `bogus` || c.All && c.Type > 0 && !t.isMap
	var exp api.Explainer
	var want outcome
	var text string
	if !bad {
		os.Chdir(dir)
		want = catch(func() (v dgo.Value) {
			opts := map[string]interface{}{api.HieraDialect: d, provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment}}
			opts[api.HieraConfig] = cfg
			withSession(provider.MuxLookupKey, opts, func(s api.Session) {
				var lo, em dgo.Map
				if c.Merge != `` && c.Merge != `first` {
					lo = vf.Map(`merge`, c.Merge)
				}
				if c.Explain != 0 {
					exp = explain.NewExplainer(c.Explain&2 != 0, c.Explain == 2)
				}
				iv := s.Invocation(model.ToDgo(vs.m), exp)
				if c.All {
					st, _ := t.t.(dgo.StructMapType)
					v = hiera.LookupAll(iv, c.names(), st, nil, em, lo)
				} else {
					var dv dgo.Value
					if df.has {
						dv = model.ToDgo(df.v)
						if strings.Contains(df.text, `{"a":1}`) {
							dv = model.ToDgo(c17Brace(d))
							if dv == nil {
								panic(fmt.Errorf(`not a literal`))
							}
						}
					}
					v = hiera.Lookup2(iv, c.names(), t.t, dv, nil, nil, lo, nil)
				}
				if exp != nil {
					text = fmt.Sprint(exp)
				}
			})
			return
		})
		os.Chdir(w.Dir)
	}
	bad = bad || want.err != ``
	if d == `pcore` && strings.Contains(df.text, `{"a":1}`) {
		// the literal isn't one in this dialect
		bad = true
	}
	if want.OK && strings.Contains(model.Canon(want.V), `other(`) {
		// not data
		return
	}
	w.Outcome(c.Render, bad, want, c.Explain != 0)
	if bad {
		if err == nil {
			fail("no error, the API gives %s", want)
		}
		if len(got) > 0 && c.Process {
			fail("output in spite of an error")
		}
		return
	}
	r := c.Render
	if r == `bogus` {
		if err == nil && (want.OK || exp != nil) {
			fail("no error from a bad rendering")
		}
		return
	}
	if exp != nil {
		if r == `` {
			r = `s`
		}
		switch r {
		case `s`:
			if err != nil || string(got) != text+"\n" && string(got) != text {
				fail("explanation should be %q", text)
			}
		case `json`, `yaml`:
			// what it contains is decided by C09
			v, e := c17Decode(r, got)
			if m, ok := v.(*model.M); err != nil || e != nil || !ok || len(m.E) == 0 {
				fail("the explanation cannot be decoded: %v", e)
			}
		default:
			if err == nil {
				fail("no error from a binary explanation")
			}
		}
		return
	}
	if !want.OK {
		if err != nil || len(got) != 0 {
			fail("should be not found")
		}
		return
	}
	if r == `` {
		r = `yaml`
	}
	switch r {
	case `s`:
		if s, ok := c17Text(want.V, true); ok && (err != nil || string(got) != s+"\n") {
			fail("should be %q", s+"\n")
		}
	case `yaml`, `json`:
		v, e := c17Decode(r, got)
		if err != nil || e != nil || !model.Equal(c17Num(v, r), c17Num(c17Rich(want.V), r)) {
			fail("should decode to %s", model.Canon(c17Rich(want.V)))
		}
		if len(got) == 0 || got[len(got)-1] != '\n' {
			fail("should end with a newline")
		}
	case `binary`:
		bs, ok := c17Binary(want.V)
		if ok != (err == nil) || ok && !bytes.Equal(got, bs) {
			fail("should be %q, ok is %v", bs, ok)
		}
	}
}

// c17Brace is what the literal {"a":1} denotes
func c17Brace(d string) model.Val {
	if d == `dgo` {
		return model.NewM(`a`, 1)
	}
	return nil
}

// c17Rich is the data that a value is rendered as
func c17Rich(v model.Val) model.Val {
	switch v := v.(type) {
	case model.List:
		r := model.List{}
		for _, e := range v {
			r = append(r, c17Rich(e))
		}
		return r
	case *model.M:
		flat := model.List{}
		r := &model.M{}
		strs := true
		for _, e := range v.E {
			if _, ok := e.K.(string); !ok {
				strs = false
			}
			rv := c17Rich(e.V)
			flat = append(flat, c17Rich(e.K), rv)
			r.E = append(r.E, model.KV{K: e.K, V: rv})
		}
		if !strs {
			return model.NewM(`__type`, `map`, `__value`, flat)
		}
		return r
	case model.Sensitive:
		return model.NewM(`__type`, `sensitive`, `__value`, c17Rich(v.V))
	}
	return v
}

// c17Num makes all numbers floats when comparing json
func c17Num(v model.Val, r string) model.Val {
	if r != `json` {
		return v
	}
	switch v := v.(type) {
	case int:
		return model.Other{S: strconv.Itoa(v)}
	case float64:
		if v == float64(int64(v)) && v < 1e15 && v > -1e15 {
			return model.Other{S: strconv.FormatInt(int64(v), 10)}
		}
	case model.List:
		l := model.List{}
		for _, e := range v {
			l = append(l, c17Num(e, r))
		}
		return l
	case *model.M:
		m := &model.M{}
		for _, e := range v.E {
			m.E = append(m.E, model.KV{K: e.K, V: c17Num(e.V, r)})
		}
		return m
	}
	return v
}

// c17Text is the text of a value
func c17Text(v model.Val, top bool) (string, bool) {
	switch v := v.(type) {
	case nil:
		if top {
			return `null`, true
		}
		return `nil`, true
	case bool:
		return fmt.Sprint(v), true
	case int:
		return strconv.Itoa(v), true
	case float64:
		if s := strconv.FormatFloat(v, 'f', -1, 64); len(s) < 12 {
			if !strings.Contains(s, `.`) {
				s += `.0`
			}
			return s, len(s) < 8
		}
	case string:
		if top {
			return v, true
		}
		return strconv.Quote(v), !strings.ContainsAny(v, "\u2028")
	case model.List:
		ss := make([]string, len(v))
		for i, e := range v {
			s, ok := c17Text(e, false)
			if !ok {
				return ``, false
			}
			ss[i] = s
		}
		return `{` + strings.Join(ss, `,`) + `}`, true
	case *model.M:
		ss := make([]string, len(v.E))
		for i, e := range v.E {
			k, ok1 := c17Text(e.K, false)
			s, ok2 := c17Text(e.V, false)
			if !ok1 || !ok2 {
				return ``, false
			}
			ss[i] = k + `:` + s
		}
		return `{` + strings.Join(ss, `,`) + `}`, true
	case model.Sensitive:
		return `sensitive [value redacted]`, true
	}
	return ``, false
}

func c17Binary(v model.Val) ([]byte, bool) {
	switch v := v.(type) {
	case string:
		bs, err := base64.StdEncoding.Strict().DecodeString(v)
		return bs, err == nil
	case model.List:
		bs := []byte{}
		for _, e := range v {
			n, ok := e.(int)
			if !ok || n < 0 || n > 255 {
				return nil, false
			}
			bs = append(bs, byte(n))
		}
		return bs, true
	}
	return nil, false
}

func c17Decode(r string, bs []byte) (v model.Val, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v", x)
		}
	}()
	if r == `json` {
		return decodeJSON(bs)
	}
	return decodeYAML(bs)
}

// decodeJSON decodes exactly one document
func decodeJSON(bs []byte) (model.Val, error) {
	d := json.NewDecoder(bytes.NewReader(bs))
	d.UseNumber()
	var value func() model.Val
	value = func() model.Val {
		t, err := d.Token()
		must(err)
		switch t := t.(type) {
		case json.Delim:
			if t == '[' {
				l := model.List{}
				for d.More() {
					l = append(l, value())
				}
				_, err = d.Token()
				must(err)
				return l
			}
			m := &model.M{}
			for d.More() {
				k, err := d.Token()
				must(err)
				if _, dup := m.Get(k); dup {
					panic(fmt.Errorf("duplicate key %v", k))
				}
				m.E = append(m.E, model.KV{K: k, V: value()})
			}
			_, err = d.Token()
			must(err)
			return m
		case json.Number:
			if i, err := strconv.Atoi(string(t)); err == nil {
				return i
			}
			f, err := t.Float64()
			must(err)
			return f
		}
		return t
	}
	v := value()
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one document")
	}
	return v, nil
}

// decodeYAML decodes exactly one document
func decodeYAML(bs []byte) (model.Val, error) {
	d := yaml.NewDecoder(bytes.NewReader(bs))
	var n yaml.Node
	if len(bytes.TrimSpace(bs)) == 0 {
		return nil, nil
	}
	if err := d.Decode(&n); err != nil {
		return nil, err
	}
	var value func(n *yaml.Node) model.Val
	value = func(n *yaml.Node) model.Val {
		switch n.Kind {
		case yaml.DocumentNode:
			return value(n.Content[0])
		case yaml.SequenceNode:
			l := model.List{}
			for _, c := range n.Content {
				l = append(l, value(c))
			}
			return l
		case yaml.MappingNode:
			m := &model.M{}
			for i := 0; i < len(n.Content); i += 2 {
				k := value(n.Content[i])
				if _, dup := m.Get(k); dup {
					panic(fmt.Errorf("duplicate key %v", k))
				}
				m.E = append(m.E, model.KV{K: k, V: value(n.Content[i+1])})
			}
			return m
		case yaml.AliasNode:
			return value(n.Alias)
		}
		var v interface{}
		must(n.Decode(&v))
		switch v := v.(type) {
		case nil, bool, int, float64, string:
			return v
		}
		return model.Other{S: fmt.Sprint(v)}
	}
	v := value(&n)
	var x yaml.Node
	if err := d.Decode(&x); err == nil {
		return nil, fmt.Errorf("more than one document")
	}
	return v, nil
}

func c17Prepare(dir string) []string {
	exe := dir + `/lookup`
	goBuild(dir, exe, `github.com/lyraproj/hiera/lookup`)
	return []string{`VERIF_C17_LOOKUP=` + exe}
}

// goBuild builds a program in the repository. The module file of the checker is used so that /repo is left alone
func goBuild(dir, exe, pkg string) {
	vd := os.Getenv(`VERIF_DIR`)
	for _, n := range []string{`go.mod`, `go.sum`} {
		bs, err := os.ReadFile(vd + `/mc/` + n)
		must(err)
		must(os.WriteFile(dir+`/`+n, bs, 0644))
	}
	cmd := exec.Command(`go`, `build`, `-modfile=`+dir+`/go.mod`, `-o`, exe, pkg)
	cmd.Dir = vd + `/mc`
	if out, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Errorf("%v: %s", err, out))
	}
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C17`,
		Level: `exploration`,
		Rule:  `All values times renderings times dialects times ways to reach the value, in this process and as a command; and the product of names, merges, types, defaults, variables, renderings, explanations, and --all.`,
		Assumptions: []string{
			`what the lookup yields through the API is decided by the other properties`,
			`--merge first is the same as no merge, --loglevel has no effect, and a bad rendering is only an error when there is something to render`,
			`infinity, NaN, and maps with the keys __ref, __type, and __value aren't rendered (the serialization that the dependency implements reserves them)`,
		},
		Enumerate: c17Enum,
		Check:     c17Check,
		Setup:     c17Setup,
		Prepare:   c17Prepare,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`values`: len(c17Values), `renderings`: len(c17Renders), `merges`: len(c17Merges), `types`: len(c17Types), `defaults`: len(c17Defaults), `variables`: len(c17Vars)}
		},
	}
})
