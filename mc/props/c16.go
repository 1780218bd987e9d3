package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"verif/mc/model"
	"verif/mc/runner"
	"verif/mc/vsync"
)

// C16: requests to the server

// c16Req is a request, or a change of the data
type c16Req struct {
	Key     string   `json:",omitempty"`
	Raw     string   `json:",omitempty"` // path instead of /lookup/ and the key
	Bare    bool     `json:",omitempty"` // slashes aren't escaped
	Merge   string   `json:",omitempty"`
	Type    int      `json:",omitempty"` // index in c17Types
	Default int      `json:",omitempty"` // index in c16Defaults
	Vars    int      `json:",omitempty"` // index in c16Vars
	Data    string   `json:",omitempty"` // set the data
	Query   string   `json:",omitempty"` // that isn't well formed
	Many    int      `json:",omitempty"` // number of variables
	Long    int      `json:",omitempty"` // length of the value of a variable and of the default
	Names   []string `json:"-"`
}

type c16Case struct {
	Kind  string // params, keys, history, concurrent
	Flags int    // flags of the server, index in c16Flags
	From  int    `json:",omitempty"` // requests From to To of the enumeration of this kind
	To    int    `json:",omitempty"`
	Reqs  []int  `json:",omitempty"` // concurrent ones, indexes in c16Alphabet
	Warm  bool   `json:",omitempty"`
	Bound int    `json:",omitempty"`
}

// c16Server makes the code of the server available in this process. It's only set in the instrumented worker
var c16Server func(flags []string, s api.Session) http.Handler

var c16Flags = []struct {
	args   []string
	config string
	scope  *model.M
}{
	{nil, `hiera.yaml`, model.NewM()},
	{[]string{`--var`, `s=server`, `--var`, `a:"b c"`, `--var`, `t=1`}, `hiera.yaml`, model.NewM(`s`, `server`, `a`, `b c`, `t`, `1`)},
	{[]string{`--vars`, `FILE`, `--var`, `s=server`, `--var=v:from server`}, `hiera.yaml`, model.NewM(`s`, `server`, `v`, `from server`, `file`, `yes`)},
	{nil, `absent.yaml`, model.NewM()},
	{nil, `malformed/hiera.yaml`, model.NewM()},
	{[]string{`--vars`, `MISSING`}, `hiera.yaml`, nil},
}

var c16Defaults = []struct {
	text string
	v    model.Val
	has  bool
	bad  bool
}{{``, nil, false, false}, {``, ``, true, false}, {`text`, `text`, true, false}, {`42`, `42`, true, false}, {`"q: 1"`, `q: 1`, true, false}, {` {"a":1}`, model.NewM(`a`, 1), true, false}, {`["x`, nil, true, true}, {`a&b=c+d é%41;/?#`, `a&b=c+d é%41;/?#`, true, false}, {"\x00\n\"", "\x00\n\"", true, false}}

var c16Vars = []struct {
	vars []string
	m    *model.M
}{
	{nil, model.NewM()},
	{[]string{`v=one`}, model.NewM(`v`, `one`)},
	{[]string{`w=two`, `v: "x=y"`}, model.NewM(`w`, `two`, `v`, `x=y`)},
	{[]string{`v=one`, `v=other`}, model.NewM(`v`, `other`)},
	{[]string{`s=mine`}, model.NewM(`s`, `mine`)},
	{[]string{`n::v=a&b=c+d é%41;/?#`}, model.NewM(`n::v`, `a&b=c+d é%41;/?#`)},
	{[]string{`nothing`}, nil},
	{[]string{`v=one`, `w={`}, nil},
}

var c16Keys = []string{`num`, `str`, `m`, `m.sub.x`, `missing`, `fails`, `opt`, `l`, `l.1`, `sens`, `env::C17VAR`, `bool`, `null`, `'q.k'`, `nested`, `a..b`, `lookup_options`}

// c16Alphabet are what histories consist of
var c16Alphabet = []c16Req{
	{Key: `num`}, {Key: `str`}, {Key: `str`, Vars: 1}, {Key: `str`, Vars: 2}, {Key: `str`, Vars: 4}, {Key: `str`, Vars: 6}, {Key: `str`, Vars: 7},
	{Key: `m`}, {Key: `m`, Merge: `deep`}, {Key: `m`, Merge: `bogus`}, {Key: `m`, Merge: `f`}, {Key: `opt`}, {Key: `l`, Merge: `unique`},
	{Key: `missing`}, {Key: `missing`, Default: 2}, {Key: `missing`, Default: 1}, {Key: `missing`, Default: 6}, {Key: `missing`, Default: 3, Type: 2},
	{Key: `num`, Type: 2}, {Key: `num`, Type: 6}, {Key: `fails`}, {Key: `fails`, Default: 2}, {Key: `sens`}, {Key: `m.sub.x`, Vars: 1}, {Key: `env::C17VAR`},
	{Raw: `/elsewhere`}, {Raw: `/`},
	{Data: `A`}, {Data: `B`}, {Data: `bad`}, {Data: `none`},
}

// c16Concurrent are the indexes of requests that run concurrently
var c16Concurrent = []int{0, 2, 3, 4, 5, 8, 7, 9, 10, 12, 13, 17, 18, 19, 21, 23}

const c16Sig = "a/.%?#:+ \"'\n;&é\\"

// c16KeyList are all keys of significant characters up to a length, and some more
func c16KeyList(tier string) (keys []string) {
	rs := []rune(c16Sig)
	for n := 0; n <= pick(tier, 2, 3); n++ {
		sizes := make([]int, n)
		for i := range sizes {
			sizes[i] = len(rs)
		}
		product(func(ix []int) bool {
			k := ``
			for _, i := range ix {
				k += string(rs[i])
			}
			keys = append(keys, k)
			return true
		}, sizes...)
	}
	return append(keys, `a/../b`, `a/./b`, `../a`, `a/..`, `/../a`, `lookup/a`, `a%2Fb`, `a%2fb`, `%41`, `a+b`, `a b`, `a//b`, `key with "quotes"`, `<a>`, "a\r\nb", "\x00", `~`, `a?merge=deep`, `a#b`, strings.Repeat(`long`, 500))
}

func c16KeyReqs(tier string) (rs []c16Req) {
	for _, k := range c16KeyList(tier) {
		rs = append(rs, c16Req{Key: k})
		if strings.Contains(k, `/`) {
			rs = append(rs, c16Req{Key: k, Bare: true})
		}
	}
	for _, p := range []string{``, `/`, `/lookup`, `/lookupa`, `/lookup2/num`, `/x/lookup/num`, `/Lookup/num`, `//lookup/num`, `/num`} {
		rs = append(rs, c16Req{Raw: p})
	}
	for _, q := range []string{`merge=%zz`, `var=v=1;var=w=2`, `default=%`, `%=1`} {
		rs = append(rs, c16Req{Key: `num`, Query: q})
	}
	// sizes
	for _, n := range sizes(pick(tier, 1100, 5000)) {
		rs = append(rs, c16Req{Key: `vars`, Many: n}, c16Req{Key: `str`, Long: n}, c16Req{Key: `missing`, Long: n}, c16Req{Key: strings.Repeat(`k`, n)}, c16Req{Key: `m` + strings.Repeat(`.k`, n)})
	}
	return
}

// c16ParamReqs are the combinations of parameters
func c16ParamReqs(tier string) (rs []c16Req) {
	product(func(ix []int) bool {
		if tier != `thorough` {
			n := 0
			for _, i := range ix[1:] {
				if i > 0 {
					n++
				}
			}
			if n > 2 {
				return true
			}
		}
		rs = append(rs, c16Req{Key: c16Keys[ix[0]], Merge: c17Merges[ix[1]], Type: ix[2], Default: ix[3], Vars: ix[4]})
		return true
	}, len(c16Keys), len(c17Merges), len(c17Types), len(c16Defaults), len(c16Vars))
	return
}

// c16DeBruijn returns the indexes of a sequence where all sequences of length n over k symbols occur (the last ones are
// completed by the beginning)
func c16DeBruijn(k, n int) (seq []int) {
	a := make([]int, k*n)
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(seq, seq[:n-1]...)
}

var c16Lists = map[string][]c16Req{}

func c16List(tier, kind string) []c16Req {
	if l, ok := c16Lists[kind]; ok {
		return l
	}
	var l []c16Req
	switch kind {
	case `params`:
		l = c16ParamReqs(tier)
	case `keys`:
		l = c16KeyReqs(tier)
	case `history`:
		for _, i := range c16DeBruijn(len(c16Alphabet), 3) {
			l = append(l, c16Alphabet[i])
		}
	}
	c16Lists[kind] = l
	return l
}

func c16Enum(tier string, yield func(interface{}) bool) {
	chunks := func(kind string, flags, size, overlap int) bool {
		n := len(c16List(tier, kind))
		for i := 0; i < n; i += size {
			to := i + size + overlap
			if to > n {
				to = n
			}
			if !yield(c16Case{Kind: kind, Flags: flags, From: i, To: to}) {
				return false
			}
		}
		return true
	}
	for _, f := range []int{0, 1, 2, 3, 4, 5} {
		size := 500
		if !chunks(`params`, f, size, 0) || !chunks(`keys`, f, size, 0) {
			return
		}
	}
	for _, f := range pickInts(tier, []int{0, 1}, []int{0, 1, 2, 3, 4}) {
		if !chunks(`history`, f, 900, 2) {
			return
		}
	}
	// at the same time
	n := len(c16Concurrent)
	for _, f := range pickInts(tier, []int{1}, []int{0, 1, 2}) {
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				for _, wm := range []bool{false, true} {
					if !yield(c16Case{Kind: `concurrent`, Flags: f, Reqs: []int{c16Concurrent[i], c16Concurrent[j]}, Warm: wm, Bound: pick(tier, 2, 3)}) {
						return
					}
				}
			}
		}
	}
	m := pick(tier, 8, n)
	for i := 0; i < m; i++ {
		for j := i; j < m; j++ {
			for k := j; k < m; k++ {
				if !yield(c16Case{Kind: `concurrent`, Flags: 1, Reqs: []int{c16Concurrent[i], c16Concurrent[j], c16Concurrent[k]}, Bound: 1}) {
					return
				}
			}
		}
	}
}

func pickInts(tier string, quick, thorough []int) []int {
	if tier == `thorough` {
		return thorough
	}
	return quick
}

var c16Exe string
var c16Tier string

// c16Data are the states of the data
var c16Data = map[string]map[string]string{}

func c16Setup(w *runner.W) {
	setupFS(w)
	c16Tier = w.Tier
	c16Exe = os.Getenv(`VERIF_C16_SERVER`)
	must(os.Setenv(`C17VAR`, `from env`))
	keys := model.NewM()
	for _, k := range c16KeyList(w.Tier) {
		if _, ok := keys.Get(k); !ok {
			keys = keys.With(k, `value of `+k)
		}
	}
	all := ``
	for i := 0; i < 5000; i += 1 + i/40 {
		all += fmt.Sprintf(`,%%{x%d}`, i)
	}
	keys = keys.With(`vars`, all).With(`str`, `s-%{v}`)
	d1 := func(v string) *model.M {
		return model.NewM(`num`, `17`+v, `str`, `s-%{v}-%{w}-%{s}-%{a}-%{file}-%{n::v}`, `fails`, `%{bogus('x')}`, `opt`, model.List{`a`, `a`}, `sens`, `hidden`, `bool`, true, `null`, nil, `q.k`, 1.5, `nested`, `%{lookup('str')} <&>`,
			`l`, model.List{`one` + v, `two`}, `m`, model.NewM(`k`, `1`, `sub`, model.NewM(`x`, `%{v}`+v)),
			`lookup_options`, model.NewM(`opt`, model.NewM(`merge`, `unique`), `sens`, model.NewM(`convert_to`, `sensitive`)))
	}
	d2 := model.NewM(`num`, `18`, `opt`, model.List{`a`, `b`}, `l`, model.List{`two`, `three`}, `m`, model.NewM(`k`, `2`, `j`, `3`, `sub`, model.NewM(`y`, 2)))
	base := map[string]string{
		`hiera.yaml`:           "version: 5\nhierarchy:\n- name: d1\n  path: d1.yaml\n- name: d2\n  path: d2.yaml\n",
		`data/d2.yaml`:         model.Flow(d2),
		`vars.yaml`:            `file: "yes"`,
		`malformed/hiera.yaml`: "version: 5\nhierarchy: x\n",
		`keys/hiera.yaml`:      "version: 5\nhierarchy:\n- name: k\n  path: keys.json\n  data_hash: json_data\n",
		`keys/data/keys.json`:  string(c16JSON(keys)),
		`data/common.yaml`:     `{"num": "default hierarchy"}`,
	}
	with := func(d1 string) map[string]string {
		m := map[string]string{}
		for k, v := range base {
			m[k] = v
		}
		if d1 != `` {
			m[`data/d1.yaml`] = d1
		}
		return m
	}
	c16Data[`A`] = with(model.Flow(d1(``)))
	c16Data[`B`] = with(model.Flow(d1(`1`)))
	c16Data[`bad`] = with(`{`)
	c16Data[`none`] = with(``)
}

func (r *c16Req) target() string {
	p := r.Raw
	if r.Raw == `` && (r.Key != `` || r.Query != `` || r.Data == ``) {
		p = `/lookup/` + url.PathEscape(r.Key)
		if r.Bare {
			p = strings.Replace(p, `%2F`, `/`, -1)
		}
	}
	q := url.Values{}
	if r.Merge != `` {
		q.Set(`merge`, r.Merge)
	}
	if r.Type > 0 {
		q.Set(`type`, c17Types[r.Type].dgo)
	}
	if d := c16Defaults[r.Default]; d.has {
		q.Set(`default`, d.text)
	}
	for _, v := range c16Vars[r.Vars].vars {
		q.Add(`var`, v)
	}
	for i := 0; i < r.Many; i++ {
		q.Add(`var`, fmt.Sprintf(`x%d=value %d`, i, i))
	}
	if r.Long > 0 {
		q.Add(`var`, `v=`+strings.Repeat(`v`, r.Long))
		q.Set(`default`, strings.Repeat(`d`, r.Long))
	}
	if s := q.Encode(); s != `` {
		p += `?` + s
	}
	if r.Query != `` {
		p += `?` + r.Query
	}
	return p
}

func c16Config(f int, kind string) string {
	c := c16Flags[f].config
	if kind == `keys` && c == `hiera.yaml` {
		c = `keys/hiera.yaml`
	}
	return theFS.path(c)
}

func c16Args(f int) (args []string) {
	for _, a := range c16Flags[f].args {
		switch a {
		case `FILE`:
			a = theFS.path(`vars.yaml`)
		case `MISSING`:
			a = theFS.path(`missing.yaml`)
		}
		args = append(args, a)
	}
	return
}

func c16Session(f int, kind string) (sdk.LookupKey, map[string]interface{}) {
	return provider.MuxLookupKey, map[string]interface{}{api.HieraConfig: c16Config(f, kind), provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment}}
}

// want is what the request should be answered with. The second value is false when anything goes
func (r *c16Req) want(flags int, kind string) (o outcome, judged bool) {
	if r.Raw != `` {
		return outcome{}, true
	}
	bad := func() (outcome, bool) { return outcome{err: `bad request`}, true }
	if r.Query != `` {
		return bad()
	}
	t := c17Types[r.Type]
	df := c16Defaults[r.Default]
	vs := c16Vars[r.Vars].m
	scope := c16Flags[flags].scope
	if r.Long > 0 {
		df.v, df.has, vs = strings.Repeat(`d`, r.Long), true, model.NewM(`v`, strings.Repeat(`v`, r.Long))
	}
	for i := 0; i < r.Many; i++ {
		vs = vs.With(fmt.Sprintf(`x%d`, i), fmt.Sprintf(`value %d`, i))
	}
	if t.bad || df.bad || vs == nil || scope == nil {
		return bad()
	}
	for _, e := range vs.E {
		scope = scope.With(e.K, e.V)
	}
	top, opts := c16Session(flags, kind)
	o = catch(func() (v dgo.Value) {
		withSession(top, opts, func(s api.Session) {
			var lo dgo.Map
			if r.Merge != `` && r.Merge != `first` {
				lo = vf.Map(`merge`, r.Merge)
			}
			var dv dgo.Value
			if df.has {
				dv = model.ToDgo(df.v)
			}
			v = hiera.Lookup2(s.Invocation(model.ToDgo(scope), nil), []string{r.Key}, t.t, dv, nil, nil, lo, nil)
		})
		return
	})
	return o, !(o.OK && strings.Contains(model.Canon(o.V), `other(`))
}

// c16Judge returns what's wrong with a response
func c16Judge(want outcome, status int, ctype string, body []byte) string {
	switch {
	case want.err != ``:
		if status != 500 || len(bytes.TrimSpace(body)) == 0 {
			return `should be 500 with a message`
		}
	case !want.OK:
		if status != 404 {
			return `should be 404`
		}
	default:
		v, err := c17Decode(`json`, body)
		if status != 200 || err != nil || !model.Equal(c17Num(v, `json`), c17Num(c17Rich(want.V), `json`)) {
			return `should be 200 with ` + model.Canon(c17Rich(want.V))
		}
		if !strings.HasPrefix(ctype, `application/json`) {
			return `should be application/json, not ` + ctype
		}
	}
	return ``
}

type c16Process struct {
	cmd  *exec.Cmd
	addr string
	out  *bytes.Buffer
	done chan bool
}

var c16Port = 8000

func c16Start(flags int, kind string) *c16Process {
	// Each worker has an address of its own
	pid := os.Getpid()
	ip := fmt.Sprintf(`127.%d.%d.%d`, 1+pid>>16&0x7f, pid>>8&0xff, pid&0xff)
	c16Port++
	if c16Port > 60000 {
		c16Port = 8001
	}
	args := append([]string{`--addr`, ip, `--port`, fmt.Sprint(c16Port), `--config`, c16Config(flags, kind)}, c16Args(flags)...)
	p := &c16Process{addr: fmt.Sprintf(`%s:%d`, ip, c16Port), cmd: exec.Command(c16Exe, args...), out: &bytes.Buffer{}, done: make(chan bool)}
	p.cmd.Stdout = p.out
	p.cmd.Stderr = p.out
	must(p.cmd.Start())
	go func() {
		_ = p.cmd.Wait()
		close(p.done)
	}()
	for i := 0; i < 3000; i++ {
		if c, err := net.Dial(`tcp`, p.addr); err == nil {
			_ = c.Close()
			return p
		}
		select {
		case <-p.done:
			return p
		case <-time.After(10 * time.Millisecond):
		}
	}
	return p
}

func (p *c16Process) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *c16Process) stop() {
	_ = p.cmd.Process.Kill()
	<-p.done
}

func c16Check(w *runner.W, ci interface{}) {
	c := ci.(c16Case)
	if c.Kind == `concurrent` {
		c16Threads(w, c)
		return
	}
	data := `A`
	theFS.set(c16Data[data])
	p := c16Start(c.Flags, c.Kind)
	defer p.stop()
	if p.ended() {
		w.Fail("the server doesn't start: %s", p.out)
		return
	}
	tr := &http.Transport{}
	defer tr.CloseIdleConnections()
	client := &http.Client{Transport: tr, Timeout: time.Minute, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	type memoKey struct {
		data string
		req  string
	}
	type memoVal struct {
		want   outcome
		judged bool
	}
	memo := map[memoKey]memoVal{}
	reqs := c16List(w.Tier, c.Kind)[c.From:c.To]
	for i := range reqs {
		r := &reqs[i]
		if r.Data != `` {
			data = r.Data
			theFS.set(c16Data[data])
			continue
		}
		target := r.target()
		mk := memoKey{data, target}
		mv, ok := memo[mk]
		if !ok {
			mv.want, mv.judged = r.want(c.Flags, c.Kind)
			memo[mk] = mv
		}
		fail := func(f string, args ...interface{}) {
			h := ``
			for k := i - 3; k <= i; k++ {
				if k >= 0 {
					if reqs[k].Data != `` {
						h += `data is now ` + reqs[k].Data + "\n"
					} else {
						h += `GET ` + reqs[k].target() + "\n"
					}
				}
			}
			w.FailAs(fmt.Sprintf("%s %d %s", c.Kind, c.Flags, target), "%s\nflags of the server: %q\nlast requests:\n%s", fmt.Sprintf(f, args...), c16Args(c.Flags), h)
		}
		resp, err := client.Get(`http://` + p.addr + target)
		w.Eval(1)
		if err != nil {
			fail("no response: %v", err)
			if p.ended() {
				w.Fail("the server has ended: %s", p.out)
			}
			return
		}
		body, err := ioutil.ReadAll(resp.Body)
		_ = resp.Body.Close()
		if err != nil {
			fail("incomplete response: %v", err)
			return
		}
		if !mv.judged {
			continue
		}
		w.Outcome(mv.want.class(), data, c.Flags)
		if m := c16Judge(mv.want, resp.StatusCode, resp.Header.Get(`Content-Type`), body); m != `` {
			fail("%s\nis %d %q", m, resp.StatusCode, body)
			if c.Kind == `history` {
				return
			}
		}
	}
	if p.ended() {
		w.Fail("the server has ended: %s", p.out)
	}
}

func c16Threads(w *runner.W, c c16Case) {
	theFS.set(c16Data[`A`])
	top, opts := c16Session(c.Flags, c.Kind)
	reqs := make([]c16Req, len(c.Reqs))
	want := make([]outcome, len(c.Reqs))
	judged := make([]bool, len(c.Reqs))
	text := ``
	for i, n := range c.Reqs {
		reqs[i] = c16Alphabet[n]
		want[i], judged[i] = reqs[i].want(c.Flags, c.Kind)
		text += fmt.Sprintf("thread %d: GET %s\n", i, reqs[i].target())
	}
	c08Explore(w, c08Case{Setup: `requests`, Threads: make([][]int, len(reqs)), Bound: c.Bound}, func(prefix []int, schedule func(*vsync.Result) string) *vsync.Result {
		h := c16Server(c16Args(c.Flags), newSession(top, opts))
		get := func(r *c16Req) *httptest.ResponseRecorder {
			rr := httptest.NewRecorder()
			h.ServeHTTP(rr, httptest.NewRequest(`GET`, r.target(), nil))
			return rr
		}
		if c.Warm {
			get(&c16Req{Key: `l`, Vars: 2})
		}
		fs := make([]func(), len(reqs))
		rs := make([]*httptest.ResponseRecorder, len(reqs))
		crash := make([]interface{}, len(reqs))
		for i := range reqs {
			i := i
			fs[i] = func() {
				defer func() { crash[i] = recover() }()
				rs[i] = get(&reqs[i])
			}
		}
		r := vsync.Run(prefix, fs...)
		if r.Deadlock {
			w.Fail("deadlock\n%s%s\n%s", text, schedule(r), r.Threads)
			return nil
		}
		for i, rr := range rs {
			if crash[i] != nil {
				w.Fail("request %d panics: %v\n%s%s", i, crash[i], text, schedule(r))
				return nil
			}
			w.Outcome(want[i].class())
			if m := c16Judge(want[i], rr.Code, rr.Header().Get(`Content-Type`), rr.Body.Bytes()); m != `` && judged[i] {
				w.Fail("request %d %s\nis %d %q\n%s%s", i, m, rr.Code, rr.Body, text, schedule(r))
				return nil
			}
		}
		return r
	})
}

// c16JSON renders a map of strings
func c16JSON(m *model.M) []byte {
	b := &bytes.Buffer{}
	b.WriteByte('{')
	for i, e := range m.E {
		if i > 0 {
			b.WriteByte(',')
		}
		k, err := json.Marshal(e.K)
		must(err)
		v, err := json.Marshal(e.V)
		must(err)
		fmt.Fprintf(b, "%s:%s", k, v)
	}
	b.WriteByte('}')
	return b.Bytes()
}

func c16Prepare(dir string) []string {
	exe := dir + `/server`
	goBuild(dir, exe, `github.com/lyraproj/hiera/hieraserver/rest`)
	must(os.MkdirAll(dir+`/races`, 0755))
	return []string{`WORKER_EXE=` + instrumented(dir), `VERIF_C16_SERVER=` + exe, `VERIF_RACE_LOGS=` + dir + `/races`, `GORACE=halt_on_error=0 history_size=3 log_path=` + dir + `/races/race`}
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C16`,
		Level: `model_checking`,
		Rule:  `A real server process is sent all combinations of parameters, all keys of significant characters up to the bound, and a sequence in which all sequences of three out of 30 requests and changes of the data occur. All schedules of two and three concurrent requests within the bound on preemptions are executed on the handler of the server, with the scheduler and race detector of C08.`,
		Assumptions: []string{
			`what a lookup yields through the API is decided by the other properties`,
			`the parameter merge=first is the same as no merge; parameters other than the documented ones and repeated ones (except var) are not judged`,
			`code between two synchronization operations executes without being interleaved with other code, which can't be observed unless there's a data race, and that is reported by the race detector`,
		},
		Enumerate:   c16Enum,
		Check:       c16Check,
		Setup:       c16Setup,
		Prepare:     c16Prepare,
		CaseTimeout: 10 * time.Minute,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`parameters`: len(c16List(tier, `params`)), `keys`: len(c16List(tier, `keys`)), `requests of histories`: len(c16Alphabet), `length of histories`: 3, `concurrent requests`: 3, `preemptions`: pick(tier, 2, 3)}
		},
	}
})
