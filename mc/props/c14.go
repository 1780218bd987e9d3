package props

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	log "github.com/sirupsen/logrus"

	"verif/mc/model"
	"verif/mc/runner"
)

// C14: plugins that fail

type c14Life struct {
	Start    string
	Requests []string `json:",omitempty"`
	End      string   `json:",omitempty"`
}

type c14Case struct {
	Kind      string
	Transport string
	Lives     []c14Life // of plugin a
	Other     []c14Life // of plugin b
	Kill      string    `json:",omitempty"` // twice: kill plugins again. early: kill them, and make lookups after that
	Exe       string    `json:",omitempty"` // what the executable is
}

var c14StartsOK = []string{`ok`, `ok chatty`, `ok more`, `ok slow`, `ok closes stdout`, `ok closes stderr`, `ok other kinds`, `ok no network`}

// c14StartsFast are failures to start that are noticed directly
var c14StartsFast = []string{`exit 0`, `exit 1`, `killed`, `partial and exit`, `closes stdout`, `closes both`, `says []`, `says 1`, `says "x"`, `says null`, `says {}`, `says {"version":`, `says }`, `says hello`,
	`version=2`, `version=0`, `version="1"`, `version=null`, `version=`, `version=[1]`, `version=-1`,
	`address=`, `address=1`, `address=null`, `address={}`,
	`functions=`, `functions=null`, `functions=[]`, `functions="x"`, `functions={}`, `functions={"lookup_key":"x_lk"}`, `functions={"lookup_key":{"a":"b"}}`, `functions={"lookup_key":[1]}`, `functions={"lookup_key":[null],"data_dig":["x_dd"]}`, `functions={"lookup_key":null}`, `functions={"lookup_key":["other"]}`}

// c14Without are the ones that succeed, but the plugin doesn't have the function
var c14Without = map[string]bool{`functions={}`: true, `functions={"lookup_key":["other"]}`: true}

// c14StartsHang are those that are noticed when there is nothing after some time
var c14StartsHang = []string{`partial and hang`, `hang`, `stopped`, `endless`, `endless string`}

// c14StartsLate are those that are noticed when the plugin is used
var c14StartsLate = []string{`then exits`, `closes listener`, `not listening`, `network="udp"`, `network="nonsense"`, `address="nonsense"`, `address=""`}

// c14StartsVeryLate are those where a request gets no answer
var c14StartsVeryLate = []string{`then stops`, `never accepts`}

// c14Requests are what can happen at a request
var c14RequestsOK = []string{`ok`, `ok slow`, `ok large`, `ok and noise`, `ok redirect`, `404`}
var c14RequestsFail = []string{`invalid`, `empty`, `text`, `truncated`, `truncated chunk`, `500`, `500 empty`, `500 truncated`, `400`, `503`, `redirect loop`, `closed`, `reset`, `garbage`, `header`}
var c14RequestsHang = []string{`hang`, `hang in header`, `hang in body`, `endless body`}

// c14RequestsLast are those after which the plugin doesn't answer
var c14RequestsLast = []string{`ok and exit`, `exit`, `abort`, `stop`, `close listener`}

var c14Ends = []string{``, `ignore`, `slow`, `stop`, `close`, `chatty`, `status`, `abort`, `grandchild`}

var c14Exes = []string{`missing`, `directory`, `not executable`, `text`, `empty`, `script`, `dangling`}

func c14Enum(tier string, yield func(interface{}) bool) {
	good := []c14Life{{Start: `ok`}}
	kinds := []string{`lookup_key`, `data_dig`, `data_hash`}
	thorough := tier == `thorough`
	n := 0
	try := func(c c14Case) bool {
		// kinds and transports alternate, unless exploration is thorough
		if len(c.Other) == 0 {
			c.Other = good
		}
		for i, k := range kinds {
			for j, t := range []string{`unix`, `tcp`} {
				if thorough || n%3 == i && n%2 == j {
					c.Kind, c.Transport = k, t
					if !yield(c) {
						return false
					}
				}
			}
		}
		n++
		return true
	}
	all := func(sets ...[]string) (r []string) {
		for _, s := range sets {
			r = append(r, s...)
		}
		return
	}
	for _, e := range c14Exes {
		for _, k := range []string{``, `twice`, `early`} {
			if !try(c14Case{Exe: e, Kill: k}) {
				return
			}
		}
	}
	// ways to start, and to end
	for _, s := range all(c14StartsOK, c14StartsFast, c14StartsLate, c14StartsHang, c14StartsVeryLate) {
		ends := c14Ends
		if !thorough && !strings.HasPrefix(s, `ok`) {
			ends = []string{``, `ignore`, `grandchild`}
		}
		for _, e := range ends {
			if !try(c14Case{Lives: []c14Life{{Start: s, End: e}}}) {
				return
			}
		}
	}
	// The next attempt is different
	for _, s := range all(c14StartsFast, c14StartsHang) {
		for _, s2 := range pickList(tier, []string{`ok`, `hang`}, all(c14StartsOK, c14StartsFast, c14StartsHang, c14StartsLate)) {
			if !try(c14Case{Lives: []c14Life{{Start: s}, {Start: s2}}}) {
				return
			}
		}
	}
	// requests
	for _, r := range all(c14RequestsOK, c14RequestsFail, c14RequestsHang, c14RequestsLast) {
		for pos := 0; pos < 3; pos++ {
			for _, e := range pickList(tier, []string{``, `ignore`}, c14Ends) {
				rs := []string{`ok`, `ok`, `ok`, `ok`, `ok`}
				rs[pos] = r
				if !try(c14Case{Lives: []c14Life{{Start: `ok`, Requests: rs, End: e}}}) {
					return
				}
			}
		}
	}
	// pairs of them
	second := all(c14RequestsOK, c14RequestsFail, c14RequestsLast)
	if thorough {
		second = append(second, c14RequestsHang...)
	}
	for _, r := range all(c14RequestsOK, c14RequestsFail) {
		for _, r2 := range second {
			if !try(c14Case{Lives: []c14Life{{Start: `ok`, Requests: []string{r, r2, `ok`}}}}) {
				return
			}
		}
	}
	// two plugins, how both of them start, and end
	for _, s := range pickList(tier, []string{`ok`, `exit 1`, `version=2`, `functions={"lookup_key":[1]}`, `then exits`}, all(c14StartsFast, c14StartsLate)) {
		for _, s2 := range []string{`ok`, `exit 1`, `version=2`, `functions={"lookup_key":[1]}`, `then exits`} {
			if !try(c14Case{Lives: []c14Life{{Start: s}}, Other: []c14Life{{Start: s2}}}) {
				return
			}
		}
	}
	for _, e := range c14Ends {
		for _, e2 := range c14Ends {
			for _, k := range pickList(tier, []string{``}, []string{``, `twice`, `early`}) {
				if !try(c14Case{Lives: []c14Life{{Start: `ok`, End: e}}, Other: []c14Life{{Start: `ok`, End: e2}}, Kill: k}) {
					return
				}
			}
		}
		for _, k := range []string{`twice`, `early`} {
			if !try(c14Case{Lives: []c14Life{{Start: `ok`, End: e}}, Kill: k}) {
				return
			}
		}
	}
}

func pickList(tier string, quick, thorough []string) []string {
	if tier == `thorough` {
		return thorough
	}
	return quick
}

// c14Resources are the descriptors and go routines of this process
func c14Resources() (fds map[string]int, gs int) {
	fds = map[string]int{}
	es, err := ioutil.ReadDir(`/proc/self/fd`)
	must(err)
	for _, e := range es {
		if l, err := os.Readlink(`/proc/self/fd/` + e.Name()); err == nil && !strings.HasSuffix(l, `/fd`) {
			fds[l]++
		}
	}
	return fds, runtime.NumGoroutine()
}

func c14FDsLeft(before map[string]int) (r []string) {
	now, _ := c14Resources()
	for l, n := range now {
		if n > before[l] {
			r = append(r, fmt.Sprintf("%s x %d", l, n-before[l]))
		}
	}
	sort.Strings(r)
	return
}

// c14Alive returns the state of the process unless it's gone
func c14Alive(pid int) string {
	bs, err := ioutil.ReadFile(fmt.Sprintf(`/proc/%d/stat`, pid))
	if err != nil {
		return ``
	}
	s := string(bs)
	if i := strings.LastIndexByte(s, ')'); i >= 0 && len(s) > i+2 {
		return s[i+2 : i+3]
	}
	return `?`
}

func c14Pids(exe string) (pids []int) {
	for n := 0; ; n++ {
		bs, err := ioutil.ReadFile(fmt.Sprintf(`%s.start%d`, exe, n))
		if err != nil {
			return
		}
		if p, err := strconv.Atoi(strings.TrimSpace(string(bs))); err == nil {
			pids = append(pids, p)
		}
	}
}

const (
	c14LookupTime = 13 * time.Second
	c14KillTime   = 12 * time.Second
)

// c14Check runs the case, again if it fails since what it does takes real time and the machine can be busy
func c14Check(w *runner.W, ci interface{}) {
	var failure string
	for i := 0; i < 3; i++ {
		if failure = c14Run(w, ci.(c14Case)); failure == `` {
			return
		}
		w.Count(`runs that failed`, 1)
		time.Sleep(200 * time.Millisecond)
	}
	w.Fail("%s", failure)
}

func c14Run(w *runner.W, c c14Case) (failure string) {
	c14Number++
	dir := filepath.Join(w.Dir, fmt.Sprintf(`c%d`, c14Number))
	exe := map[string]string{`a`: dir + `/pa`, `b`: dir + `/pb`}
	for _, d := range []string{`data`, `mods/a`, `mods/b`} {
		must(os.MkdirAll(dir+`/`+d, 0755))
	}
	defer func() { must(os.RemoveAll(dir)) }()
	write := func(name, text string) { must(ioutil.WriteFile(dir+`/`+name, []byte(text), 0644)) }
	fault := os.Getenv(`VERIF_FAULT_PLUGIN`)
	fn := `x` + c15Suffix[c.Kind]
	write(`hiera.yaml`, `{"version": 5, "hierarchy": [{"name": "d", "path": "d.yaml"}]}`)
	write(`data/d.yaml`, `{"plain": 1}`)
	for m, e := range exe {
		lives := c.Lives
		if m == `b` {
			lives = c.Other
		}
		if m == `a` && c.Exe != `` {
			switch c.Exe {
			case `directory`:
				must(os.Mkdir(e, 0755))
			case `not executable`:
				write(`pa`, "#!/bin/sh\nexit 0\n")
			case `text`, `empty`, `script`:
				write(`pa`, map[string]string{`text`: "text\n", `empty`: ``, `script`: "#!/nonexistent/interpreter\n"}[c.Exe])
				must(os.Chmod(e, 0755))
			case `dangling`:
				must(os.Symlink(dir+`/nowhere`, e))
			}
		} else {
			must(os.Symlink(fault, e))
			js, err := json.Marshal(lives)
			must(err)
			write(filepath.Base(e)+`.script`, string(js))
		}
		write(`mods/`+m+`/hiera.yaml`, fmt.Sprintf(`{"version": 5, "hierarchy": [{"name": "p", %q: %q, "pluginfile": %q}]}`, c.Kind, fn, e))
	}
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // descriptors aren't closed by finalizers
	defer runtime.GC()
	fds, gs := c14Resources()
	top := provider.MuxLookupKey
	opts := map[string]interface{}{api.HieraConfig: dir + `/hiera.yaml`, `pluginTransport`: c.Transport, `unixSocketDir`: dir, provider.ModulePath: dir + `/mods`,
		provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey}}
	s := newSession(top, opts)
	history := ``
	fail := func(format string, args ...interface{}) {
		if failure == `` {
			failure = fmt.Sprintf("%s\n%s\nscript: %v, other: %v", fmt.Sprintf(format, args...), history, c.Lives, c.Other)
		}
	}
	// within calls the function and fails if it takes too much time
	within := func(what string, max time.Duration, f func()) bool {
		done := make(chan bool, 1)
		start := time.Now()
		go func() {
			defer func() { done <- true }()
			f()
		}()
		select {
		case <-done:
			history += fmt.Sprintf("%s: %.1f s\n", what, time.Since(start).Seconds())
			return true
		case <-time.After(max):
			fail("%s has not returned in %v", what, max)
			return false
		}
	}
	stuck := false
	lookup := func(key string) (o outcome) {
		max := c14LookupTime
		if key == `plain` {
			max = 5 * time.Second
		}
		var res outcome
		if !within(`lookup of `+key, max, func() { res = query{Key: key}.impl(s.Invocation(nil, nil)) }) {
			stuck = true
			return outcome{err: `no answer`}
		}
		w.Eval(1)
		history += `  ` + res.String() + "\n"
		return res
	}
	lives := map[string][]c14Life{`a`: c.Lives, `b`: c.Other}
	requests := map[string]int{}
	first := map[string]int{}   // the process that answered first
	over := map[string]bool{}   // the plugin has done something after which nothing in particular can be expected
	failed := map[string]bool{} // the plugin couldn't be started
	lookupIn := func(m string) {
		started := len(c14Pids(exe[m]))
		o := lookup(m + `::v`)
		if stuck {
			return
		}
		pids := c14Pids(exe[m])
		for i := len(pids) - 1; i >= 0 && o.err == `` && o.OK; i-- {
			mp, ok := o.V.(*model.M)
			if !ok {
				fail("unexpected value %s", o)
				return
			}
			if p, _ := mp.Get(`pid`); p == pids[i] {
				break
			}
			if i == 0 {
				fail("%s is not from a process that was started: %v", o, pids)
				return
			}
		}
		w.Outcome(m, lives[m], o.class() == `error`, o.OK)
		if failed[m] && o.err == `` && !o.OK {
			fail("a plugin whose start is %q and has failed is now taken for one without the function: %s", lives[m][0].Start, o)
		}
		if failed[m] && len(lives[m]) > 1 && strings.HasPrefix(lives[m][1].Start, `ok`) && !c14Without[lives[m][0].Start] {
			// The next attempt isn't affected by the one that failed
			if o.err != `` {
				fail("a plugin that couldn't be started the first time (%q) but can be now (%q) gives %s", lives[m][0].Start, lives[m][1].Start, o)
			} else if len(pids) != 2 {
				fail("a plugin that couldn't be started the first time (%q) but then could (%q) was started %d times", lives[m][0].Start, lives[m][1].Start, len(pids))
			}
		}
		if over[m] {
			return
		}
		if m == `a` && c.Exe != `` {
			if o.err == `` {
				fail("what is %s was used as a plugin: %s", c.Exe, o)
			}
			return
		}
		l := lives[m][0]
		if !strings.HasPrefix(l.Start, `ok`) {
			over[m] = true
			if started == 0 && o.err == `` {
				fail("a plugin whose start is %q gives %s", l.Start, o)
			}
			failed[m] = started == 0
			return
		}
		if len(pids) != 1 {
			fail("the plugin was started %d times", len(pids))
			return
		}
		what := `ok`
		if n := len(l.Requests); n > 0 {
			i := requests[m]
			if i >= n {
				i = n - 1
			}
			what = l.Requests[i]
		}
		requests[m]++
		switch {
		case what == `404`:
			if o.err != `` || o.OK {
				fail("request %d is answered with 404 and gives %s", requests[m], o)
			}
		case strings.HasPrefix(what, `ok`):
			if o.err != `` || !o.OK {
				fail("request %d is answered with a value and gives %s", requests[m], o)
			}
		case what == `close listener`:
			if o.err == `` && !o.OK {
				fail("request %d is answered with a value and gives %s", requests[m], o)
			}
		default:
			if o.err == `` {
				fail("request %d fails (%s) but gives %s", requests[m], what, o)
			}
			if what == `500` && !strings.Contains(o.err, `plugin says no`) {
				fail("the message of the plugin isn't in %s", o)
			}
		}
		for _, x := range c14RequestsLast {
			over[m] = over[m] || what == x
		}
		if p := pids[0]; first[m] == 0 {
			first[m] = p
		}
	}
	plain := func() {
		if o := lookup(`plain`); !stuck && (!o.OK || o.V != 1) {
			fail("other lookups fail: %s", o)
		}
	}
	kill := func() {
		if !stuck {
			stuck = !within(`KillPlugins`, c14KillTime, s.KillPlugins)
		}
	}
	defer func() {
		// nothing remains of a run that has failed
		for _, e := range exe {
			_ = ioutil.WriteFile(e+`.stop`, nil, 0644)
			for _, p := range c14Pids(e) {
				if c14Alive(p) != `` {
					_ = syscall.Kill(p, syscall.SIGKILL)
				}
			}
		}
	}()
	steps := []func(){plain, func() { lookupIn(`a`) }, func() { lookupIn(`a`) }, func() { lookupIn(`b`) }, plain, func() { lookupIn(`a`) }, func() { lookupIn(`b`) }}
	for i, step := range steps {
		if c.Kill == `early` && i == 4 {
			kill()
			// What is expected from plugins after that isn't specified
			over[`a`], over[`b`] = true, true
		}
		step()
		if stuck || failure != `` {
			return
		}
	}
	kill()
	if c.Kill == `twice` {
		kill()
	}
	if stuck {
		return
	}
	// Nothing remains
	var left string
	for i := 0; i < 40; i++ {
		left = ``
		for _, e := range exe {
			for _, p := range c14Pids(e) {
				if st := c14Alive(p); st != `` {
					left += fmt.Sprintf("process %d of plugin %s is in state %s\n", p, filepath.Base(e), st)
				}
			}
		}
		if fl := c14FDsLeft(fds); len(fl) > 0 {
			left += fmt.Sprintf("open descriptors: %v\n", fl)
		}
		if n := runtime.NumGoroutine(); n > gs {
			left += fmt.Sprintf("%d more go routines\n", n-gs)
			if i == 39 {
				buf := make([]byte, 1<<20)
				left += string(buf[:runtime.Stack(buf, true)])
			}
		}
		if left == `` {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	fail("this remains when the plugins have been killed:\n%s", left)
	return
}

var c14Number int

func c14Setup(w *runner.W) {
	setupFS(w)
	if os.Getenv(`VERIF_FAULT_PLUGIN`) == `` {
		panic(`not prepared`)
	}
	log.StandardLogger().Out = ioutil.Discard
	// Have the runtime allocate what it keeps for ever
	for _, t := range []string{`unix`, `tcp`} {
		warm := &runner.W{Dir: w.Dir, Tier: w.Tier}
		c14Check(warm, c14Case{Kind: `lookup_key`, Transport: t, Lives: []c14Life{{Start: `ok`}}, Other: []c14Life{{Start: `ok`}}})
	}
}

func c14Prepare(dir string) []string {
	exe := dir + `/faultplugin`
	goBuild(dir, exe, `verif/mc/faultplugin`)
	return []string{`VERIF_FAULT_PLUGIN=` + exe}
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C14`,
		Level: `fault_enumeration`,
		Rule:  `A plugin follows a script that tells how it starts, how it answers each request, and how it ends. All single faults at each step, and pairs of faults (of consecutive starts, of consecutive requests, of two plugins, and of ends), are executed on the real code with a fixed history of lookups in the same session. Garbage collection is turned off so that finalizers don't hide descriptors that aren't closed.`,
		Assumptions: []string{
			`bounded time is 13 seconds for a lookup and 12 seconds to kill two plugins (the timeouts in the code are 3 seconds to start, 5 seconds for a request, and 3 seconds to end)`,
			`processes that a plugin starts aren't the responsibility of the session, but must not prevent it from ending`,
			`whether a plugin that failed when it was used is started again by the next lookup isn't judged, and neither is what lookups give after the plugins have been killed`,
		},
		Enumerate:   c14Enum,
		Check:       c14Check,
		Setup:       c14Setup,
		Prepare:     c14Prepare,
		Workers:     48,
		CaseTimeout: 3 * time.Minute,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`ways to start`: len(c14StartsOK) + len(c14StartsFast) + len(c14StartsHang) + len(c14StartsLate) + len(c14StartsVeryLate), `answers`: len(c14RequestsOK) + len(c14RequestsFail) + len(c14RequestsHang) + len(c14RequestsLast), `ends`: len(c14Ends), `executables`: len(c14Exes), `faults`: 2}
		},
	}
})
