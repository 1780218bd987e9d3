package props

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"gopkg.in/yaml.v3"

	"verif/mc/model"
	"verif/mc/runner"
)

// C22: yaml2json prints the JSON that denotes the same data, or fails

type c22Case struct {
	Doc   string
	Stdin string `json:",omitempty"` // what is wrong with stdin or stdout
}

// c22Scalars are leaves
var c22Scalars = []string{`a`, `"1"`, `1`, `-1.5`, `1.0`, `true`, `~`, `"é<&>\n"`, `.inf`, `0x1F`, `2020-01-01`, `''`, `12345678901234567890`, `1e400`, `*x`, `!!str 5`, `!!binary aGVsbG8=`, `"\x00\u2028\U0001F600"`}

var c22Keys = []string{`a`, `"b c"`, `1`, `'1'`, `<<`, `? [q]
`, `""`, `*k `, `true`, `é`, `a.b`, `null`}

var c22Alphabet = []string{`a`, `1`, `:`, `-`, ` `, "\n", `{`, `}`, `[`, `]`, `,`, `"`, `'`, `&`, `*`, `#`, `!`, `|`, `?`, `%`, `~`, "\t", `<`}

func c22Enum(tier string, yield func(interface{}) bool) {
	emit := func(s string) bool { return yield(c22Case{Doc: s}) }
	for _, s := range []string{`closed`, `directory`, `stdout full`, `stdout closed`} {
		for _, d := range []string{``, `a: 1`, `{`, strings.Repeat("- abc\n", 20000)} {
			if !yield(c22Case{Doc: d, Stdin: s}) {
				return
			}
		}
	}
	for _, s := range []string{"a: 1\r\nb:\r\n- 2\r\n", "\ufeffa: 1", "---\na: 1\n...\n", "a: |\n  x\n  y\n\n", "a: >-\n  x\n  y\n", "a: |+\n  x\n\n\n", "? a\n: b\n", "- - - a\n", "\xff", "a: \xff",
		strings.Repeat(`[`, 50) + strings.Repeat(`]`, 50), strings.Repeat(`{a: `, 50) + `1` + strings.Repeat(`}`, 50), "&a [1, *a]", "a: &a {b: *a}", "&a a: *a", "- &a x\n- &a y\n- *a\n", "- *a", "%YAML 1.1\n---\na: yes\n", "%FOO\n---\na",
		"a: &x [1, 2]\nb: *x\nc: *x\n", "a: &x {p: 1}\nb: {<<: *x, p: 2}\nc: {<<: [*x, {q: 1}]}\n", "a: {<<: 1}", "<<: &x {b: 1}\nc: {<<: *x, b: 2}\n", strings.Repeat("- a: [b, {c: d}]\n", 3000), "a: " + strings.Repeat("long ", 30000),
		"!!map {a: b}", "!!seq [a]", "!foo {a: b}", "!!omap [a: 1, b: 2]", "!!set {x, y}", "!!float 1", "!!int '7'", "!!null ''", "!!bool 'true'", "-0.0", "- 0.1\n- 1e21\n- 1e-7\n- 123456789.125\n", "- 9223372036854775807\n- -9223372036854775808\n- 18446744073709551615\n"} {
		if !emit(s) {
			return
		}
	}
	// sizes
	for _, n := range sizes(pick(tier, 1100, 10001)) {
		docs := []string{strings.Repeat("- a\n", n), `[` + strings.Repeat(`1, `, n) + `~]`, strings.Repeat(`x`, n), `- "` + strings.Repeat(`q `, n) + `"`, "k: |\n" + strings.Repeat("  line\n", n), "- &a x\n" + strings.Repeat("- *a\n", n),
			strings.Repeat("\n", n) + `a: 1`, strings.Repeat("# comment\n", n) + `a: 1`, strings.Repeat(`k`, n) + `: v`}
		m, nested := ``, ``
		for i := 0; i < n; i++ {
			m += fmt.Sprintf("k%d: %d\n", i, i)
			nested += fmt.Sprintf("- {a: [%d], b: {c: ~}}\n", i)
		}
		docs = append(docs, m, nested)
		if n <= 200 {
			docs = append(docs, strings.Repeat(`[`, n)+`x`+strings.Repeat(`]`, n), strings.Repeat(`{a: `, n)+`1`+strings.Repeat(`}`, n), strings.Repeat(`- `, n)+`x`)
		}
		for _, d := range docs {
			if !emit(d) {
				return
			}
		}
	}
	// all short strings
	if !sequences(len(c22Alphabet), 0, 3, func(ix []int) bool {
		s := ``
		for _, i := range ix {
			s += c22Alphabet[i]
		}
		return emit(s)
	}) {
		return
	}
	// and longer ones
	few4 := []string{`a`, `1`, `:`, `-`, ` `, "\n", `{`, `}`, `[`, `]`, `,`, `"`, `*`, `&`}
	if !sequences(len(few4), 4, pick(tier, 4, 5), func(ix []int) bool {
		s := ``
		for _, i := range ix {
			s += few4[i]
		}
		return emit(s)
	}) {
		return
	}
	// all trees
	var leaves []string
	leaves = append(leaves, c22Scalars...)
	depth1 := append([]string{}, leaves...)
	depth1 = append(depth1, `[]`, `{}`)
	few := []string{`a`, `1`, `~`, `1.5`, `*x`, `.nan`}
	var mid []string
	for _, l := range few {
		mid = append(mid, `[`+l+`]`, `[`+l+`, b]`)
		for _, k := range c22Keys {
			mid = append(mid, `{`+k+`: `+l+`}`)
		}
	}
	mid = append(mid, `{<<: {m: 1}, n: 2}`, `{<<: *x, m: 3}`, `{a: 1, a: 2}`, `{a: 1, 1: 2, '1': 3}`, `[[], {}]`)
	all := append(append([]string{}, depth1...), mid...)
	wrap := func(f func(l string) string) bool {
		for _, l := range all {
			if !emit(f(l)) {
				return false
			}
		}
		return true
	}
	pre := []string{``, "- &x {m: 1}\n- &k key\n- ", "z: &x {m: 1}\ny: &k key\nw: ", "z: &x q\ny: &k 1\nw: "}
	for _, p := range pre {
		p := p
		if !wrap(func(l string) string { return p + l + "\n" }) {
			return
		}
		for _, o := range []string{`[%s]`, `{o: %s}`, `{1: %s}`, `{o: [%s, b]}`, `[{o: %s}]`, `{o: {p: %s}, q: 1}`, `{<<: {o: %s}}`} {
			o := o
			if !wrap(func(l string) string { return p + fmt.Sprintf(o, l) + "\n" }) {
				return
			}
		}
	}
	// pairs
	if !product(func(ix []int) bool {
		k1, k2 := c22Keys[ix[0]], c22Keys[ix[1]]
		v := all[ix[2]]
		return emit("z: &x {m: 1}\ny: &k key\nw:\n  " + strings.TrimRight(k1, "\n") + `: ` + v + "\n  " + strings.TrimRight(k2, "\n") + `: ` + v + "\n")
	}, len(c22Keys), len(c22Keys), pick(tier, 12, len(all))) {
		return
	}
	if tier == `thorough` {
		sequences(len(c22Alphabet), 4, 4, func(ix []int) bool {
			s := ``
			for _, i := range ix {
				s += c22Alphabet[i]
			}
			return emit(s)
		})
	}
}

// c22NonString starts keys that aren't strings. What they become isn't judged, but they must not be dropped
const c22NonString = "\x00\x00key "

func c22HasNonString(v model.Val) bool {
	switch v := v.(type) {
	case model.List:
		for _, e := range v {
			if c22HasNonString(e) {
				return true
			}
		}
	case *model.M:
		for _, e := range v.E {
			if strings.HasPrefix(e.K.(string), c22NonString) || c22HasNonString(e.V) {
				return true
			}
		}
	}
	return false
}

// c22Match is true if the values are equal except for what keys that aren't strings have become
func c22Match(got, want model.Val) bool {
	switch want := want.(type) {
	case model.List:
		l, ok := got.(model.List)
		if !ok || len(l) != len(want) {
			return false
		}
		for i := range l {
			if !c22Match(l[i], want[i]) {
				return false
			}
		}
		return true
	case *model.M:
		m, ok := got.(*model.M)
		if !ok || len(m.E) != len(want.E) {
			return false
		}
		used := make([]bool, len(m.E))
		var rest []model.Val
		for _, e := range want.E {
			if strings.HasPrefix(e.K.(string), c22NonString) {
				rest = append(rest, e.V)
				continue
			}
			found := false
			for i, g := range m.E {
				if model.Equal(g.K, e.K) && c22Match(g.V, e.V) {
					used[i], found = true, true
				}
			}
			if !found {
				return false
			}
		}
		var assign func(i int) bool
		assign = func(i int) bool {
			if i == len(rest) {
				return true
			}
			for k, g := range m.E {
				if !used[k] && c22Match(g.V, rest[i]) {
					used[k] = true
					if assign(i + 1) {
						return true
					}
					used[k] = false
				}
			}
			return false
		}
		return assign(0)
	}
	return model.Equal(got, want)
}

// c22Value is what a node denotes
func c22Value(n *yaml.Node) (v model.Val, judged bool, err error) {
	judged = true
	var value func(n *yaml.Node, depth int) model.Val
	bad := func(f string, as ...interface{}) { panic(fmt.Errorf(f, as...)) }
	value = func(n *yaml.Node, depth int) model.Val {
		if depth > 10000 {
			bad(`cyclic`)
		}
		if n.Kind != yaml.AliasNode {
			if t := n.ShortTag(); strings.HasPrefix(t, `!`) {
				switch t {
				case `!!str`, `!!int`, `!!float`, `!!bool`, `!!null`, `!!map`, `!!seq`, `!!merge`:
				default:
					judged = false
				}
				switch n.Kind {
				case yaml.MappingNode:
					judged = judged && t == `!!map`
				case yaml.SequenceNode:
					judged = judged && t == `!!seq`
				}
			}
		}
		switch n.Kind {
		case yaml.DocumentNode:
			return value(n.Content[0], depth+1)
		case yaml.SequenceNode:
			l := model.List{}
			for _, c := range n.Content {
				l = append(l, value(c, depth+1))
			}
			return l
		case yaml.MappingNode:
			m := &model.M{}
			merged := &model.M{}
			keys := map[string]bool{}
			for i := 0; i < len(n.Content); i += 2 {
				kn := n.Content[i]
				vn := n.Content[i+1]
				if kn.ShortTag() == `!!merge` {
					mv := value(vn, depth+1)
					ms, isList := mv.(model.List)
					if !isList {
						ms = model.List{mv}
					}
					for _, o := range ms {
						om, ok := o.(*model.M)
						if !ok {
							bad(`map merge requires map or sequence of maps`)
						}
						for _, e := range om.E {
							if _, ok := merged.Get(e.K); !ok {
								merged = merged.With(e.K, e.V)
							}
						}
					}
					if isList {
						// precedence in lists depends on the parser
						judged = judged && len(ms) < 2
					}
					continue
				}
				k := value(kn, depth+1)
				ks, isS := k.(string)
				switch {
				case isS:
				case kn.Kind == yaml.MappingNode, kn.Kind == yaml.SequenceNode, kn.Kind == yaml.AliasNode && kn.Alias.Kind != yaml.ScalarNode:
					bad(`a key that is a list or a map`)
				default:
					ks = c22NonString + model.Canon(k)
				}
				if keys[ks] {
					bad(`duplicate key`)
				}
				keys[ks] = true
				m.E = append(m.E, model.KV{K: ks, V: value(vn, depth+1)})
			}
			for _, e := range merged.E {
				if _, ok := m.Get(e.K); !ok {
					m.E = append(m.E, e)
				}
			}
			return m
		case yaml.AliasNode:
			return value(n.Alias, depth+1)
		}
		var v interface{}
		if e := n.Decode(&v); e != nil {
			panic(e)
		}
		switch v := v.(type) {
		case nil, bool, int:
			return v
		case float64:
			if math.IsNaN(v) || math.IsInf(v, 0) {
				bad(`not a number`)
			}
			return v
		case string:
			if !utf8.ValidString(v) {
				judged = false
			}
			return v
		case uint64:
			return model.Other{S: strconv.FormatUint(v, 10)}
		case int64:
			return int(v)
		case time.Time:
			judged = false
			return v.String()
		}
		judged = false
		return fmt.Sprint(v)
	}
	defer func() {
		if r := recover(); r != nil {
			err = r.(error)
		}
	}()
	v = value(n, 0)
	return
}

var c22Exe string

func c22Check(w *runner.W, ci interface{}) {
	c := ci.(c22Case)
	cmd := exec.Command(c22Exe)
	cmd.Dir = w.Dir
	cmd.Stdin = strings.NewReader(c.Doc)
	out, errOut := &bytes.Buffer{}, &bytes.Buffer{}
	cmd.Stdout, cmd.Stderr = out, errOut
	switch c.Stdin {
	case `closed`:
		r, wr, err := os.Pipe()
		must(err)
		must(r.Close())
		cmd.Stdin = wr // can not be read
		defer func() { _ = wr.Close() }()
	case `directory`:
		f, err := os.Open(w.Dir)
		must(err)
		cmd.Stdin = f
		defer func() { _ = f.Close() }()
	case `stdout full`:
		f, err := os.OpenFile(`/dev/full`, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		cmd.Stdout = f
		defer func() { _ = f.Close() }()
	case `stdout closed`:
		r, wr, err := os.Pipe()
		must(err)
		cmd.Stdout = r // can not be written
		defer func() { _ = r.Close(); _ = wr.Close() }()
	}
	err := cmd.Run()
	w.Eval(1)
	if err != nil {
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() <= 0 {
			w.Fail("the command did not exit: %v\ndocument: %q", err, c.Doc)
			return
		}
		if errOut.Len() == 0 {
			w.Fail("the command failed without a message\ndocument: %q", c.Doc)
		}
		if out.Len() > 0 {
			w.Fail("the command failed but printed %q\ndocument: %q", out, c.Doc)
		}
	}
	if c.Stdin != `` {
		if err == nil {
			w.Fail("no error when stdin or stdout is %s", c.Stdin)
		}
		return
	}
	var n yaml.Node
	var want model.Val
	judged := true
	perr := yaml.Unmarshal([]byte(c.Doc), &n)
	if perr == nil && n.Kind != 0 {
		want, judged, perr = c22Value(&n)
	}
	w.Outcome(perr != nil, judged, model.Canon(want))
	if perr != nil {
		if err == nil && judged {
			w.Fail("should be an error (%v) but is %q\ndocument: %q", perr, out, c.Doc)
		}
		return
	}
	if err != nil {
		if judged && !c22HasNonString(want) {
			w.Fail("failed with %q\nwant: %s\ndocument: %q", errOut, model.Canon(want), c.Doc)
		}
		return
	}
	got, derr := c17Decode(`json`, out.Bytes())
	if derr != nil {
		w.Fail("output isn't JSON: %v\noutput: %q\ndocument: %q", derr, out, c.Doc)
		return
	}
	if judged && !c22Match(c22Num(got), c22Num(want)) {
		w.Fail("got: %s\nwant: %s\ndocument: %q", model.Canon(got), model.Canon(want), c.Doc)
	}
}

// c22Num makes numbers comparable
func c22Num(v model.Val) model.Val {
	f := func(f float64) model.Val {
		return model.Other{S: strconv.FormatFloat(math.Abs(f), 'g', 17, 64) + map[bool]string{true: `-`}[f < 0]}
	}
	switch v := v.(type) {
	case float64:
		return f(v)
	case int:
		if float64(v) == math.Trunc(float64(v)) && v < 1<<53 && v > -1<<53 {
			return f(float64(v))
		}
		return model.Other{S: strconv.Itoa(v)}
	case model.Other:
		if x, err := strconv.ParseFloat(v.S, 64); err == nil {
			return f(x)
		}
	case model.List:
		l := model.List{}
		for _, e := range v {
			l = append(l, c22Num(e))
		}
		return l
	case *model.M:
		m := &model.M{}
		for _, e := range v.E {
			m.E = append(m.E, model.KV{K: e.K, V: c22Num(e.V)})
		}
		return m
	}
	return v
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C22`,
		Level: `exploration`,
		Rule:  `The command is run with all strings up to three (thorough: four) characters over an alphabet with everything that is significant in YAML, all trees up to the bound over keys and leaves of all kinds (with anchors, aliases, merges, and tags), and with stdin and stdout that fail.`,
		Assumptions: []string{
			`what a document consists of is decided by the parser of the YAML library, its composition and types by the check`,
			`scalar keys that aren't strings may be errors or become any text, and values that JSON has no type for (time, binary, explicit foreign tags) are not judged`,
			`only the first document in a stream is considered`,
		},
		Enumerate: c22Enum,
		Check:     c22Check,
		Setup: func(w *runner.W) {
			setupFS(w)
			c22Exe = os.Getenv(`VERIF_C22_EXE`)
		},
		Prepare: func(dir string) []string {
			exe := dir + `/yaml2json`
			goBuild(dir, exe, `github.com/lyraproj/hiera/yaml2json`)
			return []string{`VERIF_C22_EXE=` + exe}
		},
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`alphabet`: len(c22Alphabet), `length of strings`: pick(tier, 3, 4), `leaves`: len(c22Scalars), `keys`: len(c22Keys)}
		},
	}
})
