// Package runner drives an exhaustive exploration. A property supplies a deterministic enumeration of cases and a
// function that decides one case. The supervisor shards the enumeration over worker processes, so that a case that
// crashes the process (stack overflow, concurrent map write) or blocks it forever (deadlock) is attributed to that case
// and reported instead of ending the exploration.
package runner

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is a property to decide.
type Prop struct {
	ID          string
	Level       string // level of evidence
	Rule        string // how cases are made and what makes one non-trivial
	Assumptions []string

	// Enumerate calls yield with all cases, in a deterministic order. It returns when yield returns false
	Enumerate func(tier string, yield func(c interface{}) bool)

	// Check decides one case
	Check func(w *W, c interface{})

	// Setup is called once in each worker process
	Setup func(w *W)

	// Prepare is called once by the supervisor and returns additional environment for the workers
	Prepare func(dir string) []string

	// Fatal is true when a failure to prepare should be considered
	Workers     int
	CaseTimeout time.Duration
	Budget      map[string]time.Duration
	// Bounds describes the explored bounds for the tier
	Bounds func(tier string) interface{}
}

// W is what a worker has available when deciding a case
type W struct {
	Dir  string // scratch directory of this worker
	Tier string
	Seed int64

	mu       sync.Mutex
	res      result
	outcomes map[uint64]struct{}
	states   map[uint64]struct{}
	index    int
	cur      interface{}
	failed   bool
}

type failure struct {
	Index       int             `json:"index"`
	Fingerprint string          `json:"fingerprint"`
	Message     string          `json:"message"`
	Case        json.RawMessage `json:"case"`

	// which cases the process that reported it had executed before
	shard, start int
}

type result struct {
	Cases       int64         `json:"cases"`
	Evals       int64         `json:"evals"`
	Trivial     int64         `json:"trivial"`
	Transitions int64         `json:"transitions"`
	Traces      int64         `json:"traces"`
	Outcomes    []uint64      `json:"outcomes"`
	States      []uint64      `json:"states"`
	Failures    []failure     `json:"failures"`
	Samples     []interface{} `json:"samples"`
	Done        bool          `json:"done"`
	Next        int           `json:"next"`
	Counters    map[string]int64
}

func hash(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

// Eval counts n executions of the real code
func (w *W) Eval(n int) {
	w.mu.Lock()
	w.res.Evals += int64(n)
	w.mu.Unlock()
}

// Outcome notes an outcome of a non-trivial case, used when counting distinct ones
func (w *W) Outcome(parts ...interface{}) {
	w.mu.Lock()
	if w.outcomes == nil {
		w.outcomes = map[uint64]struct{}{}
	}
	w.outcomes[hash(fmt.Sprint(parts...))] = struct{}{}
	w.mu.Unlock()
}

// State notes a reached state and returns true if it was not seen before (by this worker)
func (w *W) State(s string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	h := hash(s)
	if _, ok := w.states[h]; ok {
		return false
	}
	w.states[h] = struct{}{}
	return true
}

// Transition counts state transitions
func (w *W) Transition(n int) {
	w.mu.Lock()
	w.res.Transitions += int64(n)
	w.mu.Unlock()
}

// Trace counts model traces replayed against the implementation
func (w *W) Trace(n int) {
	w.mu.Lock()
	w.res.Traces += int64(n)
	w.mu.Unlock()
}

// Count adds to a named counter that ends up in the evidence
func (w *W) Count(name string, n int64) {
	w.mu.Lock()
	if w.res.Counters == nil {
		w.res.Counters = map[string]int64{}
	}
	w.res.Counters[name] += n
	w.mu.Unlock()
}

// Sample records a sample (the first few are retained)
func (w *W) Sample(s interface{}) {
	w.mu.Lock()
	if len(w.res.Samples) < 2 {
		w.res.Samples = append(w.res.Samples, s)
	}
	w.mu.Unlock()
}

// Fail reports that the current case violates the property.
func (w *W) Fail(format string, args ...interface{}) {
	w.FailAs(``, format, args...)
}

// Failed returns true when the current case has failed
func (w *W) Failed() bool {
	return w.failed
}

// FailAs is like Fail but with an explicit identity of what failed. The default identity is the case itself
func (w *W) FailAs(fingerprint, format string, args ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.failed = true
	if len(w.res.Failures) >= 40 {
		return
	}
	if fingerprint != `` {
		// one of each kind is enough
		for _, f := range w.res.Failures {
			if f.Fingerprint == fingerprint {
				return
			}
		}
	}
	cs, err := json.Marshal(w.cur)
	if err != nil {
		cs, _ = json.Marshal(fmt.Sprintf("%+v", w.cur))
	}
	if fingerprint == `` {
		fingerprint = string(cs)
	}
	m := fmt.Sprintf(format, args...)
	if len(m) > 6000 {
		m = m[:6000] + "..."
	}
	w.res.Failures = append(w.res.Failures, failure{Index: w.index, Fingerprint: fingerprint, Message: m, Case: cs})
}

// Main is the entry point of the program
func Main(all []*Prop) {
	byID := map[string]*Prop{}
	for _, p := range all {
		byID[p.ID] = p
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|replay|count <ID>|<file>")
		os.Exit(2)
	}
	switch os.Args[1] {
	case `check`:
		p := byID[os.Args[2]]
		if p == nil {
			fmt.Fprintln(os.Stderr, "no such property", os.Args[2])
			os.Exit(2)
		}
		os.Exit(supervise(p))
	case `worker`:
		worker(byID[os.Args[2]], os.Args[3:])
	case `count`:
		n := 0
		byID[os.Args[2]].Enumerate(tier(), func(interface{}) bool { n++; return true })
		fmt.Println(n)
	case `show`:
		n := 0
		i, _ := strconv.Atoi(os.Args[3])
		byID[os.Args[2]].Enumerate(tier(), func(c interface{}) bool {
			if n == i {
				cs, _ := json.Marshal(c)
				fmt.Println(string(cs))
			}
			n++
			return n <= i
		})
	case `replay`:
		bs, err := ioutil.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r replay
		if err = json.Unmarshal(bs, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		p := byID[r.Property]
		_ = os.Setenv(`VERIF_TIER`, r.Tier)
		s := newSupervisor(p)
		defer s.cleanup()
		var v *wresult
		if r.History != nil {
			v = s.history(*r.History)
		} else {
			v = s.only(r.Index)
		}
		for _, f := range v.Failures {
			fmt.Printf("index %d\ncase %s\n%s\n", f.Index, f.Case, f.Message)
		}
		if len(v.Failures) > 0 {
			s.cleanup()
			os.Exit(1)
		}
		fmt.Println(`property held`)
	default:
		os.Exit(2)
	}
}

type replay struct {
	Property    string          `json:"property"`
	Tier        string          `json:"tier"`
	Index       int             `json:"index"`
	Fingerprint string          `json:"fingerprint"`
	Message     string          `json:"message"`
	Case        json.RawMessage `json:"case"`
	Replay      string          `json:"replay_with"`

	// History is set when the case fails only after the cases that precede it in a shard
	History *history `json:"history,omitempty"`
}

// A history is what a worker executes: each case of a shard, starting with one, until another
type history struct {
	Shard  int `json:"shard"`
	Shards int `json:"shards"`
	Start  int `json:"start"`
	Until  int `json:"until"`
}

func tier() string {
	if t := os.Getenv(`VERIF_TIER`); t == `thorough` {
		return t
	}
	return `quick`
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv(`VERIF_SEED`), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}

// ---------------------------------------------------------------- worker

func worker(p *Prop, args []string) {
	// args: dir shard shards start only deadlineUnix
	atoi := func(i int) int { n, _ := strconv.Atoi(args[i]); return n }
	dir, shard, shards, start, only := args[0], atoi(1), atoi(2), atoi(3), atoi(4)
	deadline := time.Unix(int64(atoi(5)), 0)
	until := -1
	if len(args) > 6 {
		until = atoi(6)
	}

	debug.SetMaxStack(48 << 20)
	debug.SetGCPercent(800)
	w := &W{Dir: filepath.Join(dir, `scratch`), Tier: tier(), Seed: seed(), outcomes: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
	if err := os.MkdirAll(w.Dir, 0755); err != nil {
		panic(err)
	}
	journal, err := os.Create(filepath.Join(dir, `journal`))
	if err != nil {
		panic(err)
	}
	if p.Setup != nil {
		p.Setup(w)
	}
	ended := false
	i := -1
	p.Enumerate(w.Tier, func(c interface{}) bool {
		i++
		if only >= 0 {
			if i < only {
				return true
			}
			if i > only {
				return false
			}
		} else if until >= 0 && i > until {
			return false
		} else if i%shards != shard || i < start {
			return true
		}
		if only < 0 && w.res.Cases&15 == 0 && time.Now().After(deadline) {
			ended = true
			return false
		}
		_, _ = journal.WriteAt([]byte(fmt.Sprintf("%12d\n", i)), 0)
		w.index = i
		w.cur = c
		w.failed = false
		w.res.Cases++
		runCase(p, w, c)
		if len(w.res.Failures) >= 40 && until < 0 {
			ended = true
			return false
		}
		return true
	})
	w.res.Done = !ended
	w.res.Next = i
	for h := range w.outcomes {
		w.res.Outcomes = append(w.res.Outcomes, h)
	}
	for h := range w.states {
		w.res.States = append(w.res.States, h)
	}
	bs, err := json.Marshal(&w.res)
	if err == nil {
		err = ioutil.WriteFile(filepath.Join(dir, `result.json`), bs, 0644)
	}
	if err != nil {
		panic(err)
	}
}

func runCase(p *Prop, w *W, c interface{}) {
	defer func() {
		if r := recover(); r != nil {
			w.Fail("panic that the check did not expect: %v\n%s", r, debug.Stack())
		}
	}()
	p.Check(w, c)
	if !w.failed && len(w.res.Samples) == 0 && w.res.Cases > 3 {
		w.res.Samples = append(w.res.Samples, map[string]interface{}{`index`: w.index, `case`: c})
	}
}

// ---------------------------------------------------------------- supervisor

type supervisor struct {
	p    *Prop
	dir  string
	env  []string
	exe  string
	n    int
	once sync.Once
}

func newSupervisor(p *Prop) *supervisor {
	dir, err := ioutil.TempDir(``, `verif-`+p.ID+`-`)
	if err != nil {
		panic(err)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	s := &supervisor{p: p, dir: dir, exe: exe}
	if p.Prepare != nil {
		s.env = p.Prepare(dir)
		for _, e := range s.env {
			if strings.HasPrefix(e, `WORKER_EXE=`) {
				s.exe = e[len(`WORKER_EXE=`):]
			}
		}
	}
	return s
}

func (s *supervisor) cleanup() {
	s.once.Do(func() { _ = os.RemoveAll(s.dir) })
}

func (s *supervisor) caseTimeout() time.Duration {
	if s.p.CaseTimeout > 0 {
		return s.p.CaseTimeout
	}
	return 100 * time.Second
}

type wresult struct {
	result
	crashed  bool
	crashLog string
	index    int // index of case when crashed
	start    int
}

// spawn runs one worker process to completion, crash or hang.
func (s *supervisor) spawn(shard, shards, start, only int, deadline time.Time, more ...string) *wresult {
	s0 := time.Now().UnixNano()
	dir := filepath.Join(s.dir, fmt.Sprintf(`w%d-%d-%d-%d`, shard, start, only, s0))
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	defer func() { _ = os.RemoveAll(dir) }()
	log, err := os.Create(filepath.Join(dir, `log`))
	if err != nil {
		panic(err)
	}
	args := []string{`worker`, s.p.ID, dir, strconv.Itoa(shard), strconv.Itoa(shards), strconv.Itoa(start), strconv.Itoa(only), strconv.FormatInt(deadline.Unix(), 10)}
	cmd := exec.Command(s.exe, append(args, more...)...)
	cmd.Env = append(append(os.Environ(), `GOTRACEBACK=all`, `TMPDIR=`+dir), s.env...)
	cmd.Stdout = log
	cmd.Stderr = log
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err = cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()

	last, lastChange := ``, time.Now()
	hang := false
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			j, _ := ioutil.ReadFile(filepath.Join(dir, `journal`))
			if string(j) != last {
				last, lastChange = string(j), time.Now()
			} else if time.Since(lastChange) > s.caseTimeout() && last != `` {
				hang = true
				_ = cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case err = <-done:
				case <-time.After(10 * time.Second):
				}
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				break loop
			}
		}
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // stray children
	_ = log.Close()
	r := &wresult{}
	if bs, e2 := ioutil.ReadFile(filepath.Join(dir, `result.json`)); e2 == nil && !hang {
		if json.Unmarshal(bs, &r.result) == nil {
			return r
		}
	}
	r.crashed = true
	lb, _ := ioutil.ReadFile(filepath.Join(dir, `log`))
	if len(lb) > 5000 {
		lb = append(append(append([]byte{}, lb[:3000]...), "\n...\n"...), lb[len(lb)-1500:]...)
	}
	j, _ := ioutil.ReadFile(filepath.Join(dir, `journal`))
	r.index = -1
	if n, e2 := strconv.Atoi(strings.TrimSpace(string(j))); e2 == nil {
		r.index = n
	}
	if hang {
		r.crashLog = fmt.Sprintf("the lookup never returned (no progress in %s)\n%s", s.caseTimeout(), lb)
	} else {
		r.crashLog = fmt.Sprintf("the process died: %v\n%s", err, lb)
	}
	return r
}

// only runs one single case in a process of its own
func (s *supervisor) only(index int) *wresult {
	r := s.spawn(0, 1, 0, index, time.Now().Add(time.Hour))
	if r.crashed {
		r.Failures = append(r.Failures, failure{Index: index, Fingerprint: `crash`, Message: r.crashLog, Case: s.caseAt(index)})
	}
	return r
}

// history executes the same cases in the same order as the worker that reported a failure did
func (s *supervisor) history(h history) *wresult {
	r := s.spawn(h.Shard, h.Shards, h.Start, -1, time.Now().Add(time.Hour), strconv.Itoa(h.Until))
	if r.crashed {
		r.Failures = append(r.Failures, failure{Index: r.index, Fingerprint: `crash`, Message: r.crashLog, Case: s.caseAt(r.index)})
	}
	return r
}

func (s *supervisor) caseAt(index int) json.RawMessage {
	i := -1
	cs := json.RawMessage(`null`)
	s.p.Enumerate(tier(), func(c interface{}) bool {
		i++
		if i == index {
			if bs, err := json.Marshal(c); err == nil {
				cs = bs
			}
			return false
		}
		return true
	})
	return cs
}

type known struct {
	Property    string `json:"property"`
	Fingerprint string `json:"fingerprint"`
	What        string `json:"what"`
	Fixed       string `json:"fixed,omitempty"`
}

func verifDir() string {
	if d := os.Getenv(`VERIF_DIR`); d != `` {
		return d
	}
	return `/verif`
}

func loadKnown(id string) map[string]string {
	m := map[string]string{}
	bs, err := ioutil.ReadFile(filepath.Join(verifDir(), `known_findings.json`))
	if err != nil {
		return m
	}
	var kf struct {
		Findings []known `json:"findings"`
	}
	if json.Unmarshal(bs, &kf) == nil {
		for _, k := range kf.Findings {
			if k.Property == id {
				m[k.Fingerprint] = k.What
			}
		}
	}
	return m
}

func supervise(p *Prop) int {
	t0 := time.Now()
	s := newSupervisor(p)
	defer s.cleanup()
	budget := map[string]time.Duration{`quick`: 200 * time.Second, `thorough`: 40 * time.Minute}[tier()]
	if b, ok := p.Budget[tier()]; ok {
		budget = b
	}
	deadline := t0.Add(budget)
	n := p.Workers
	if n == 0 {
		n = 8
	}
	results := make([][]*wresult, n)
	crashes := 0
	var cmu sync.Mutex
	var wg sync.WaitGroup
	for sh := 0; sh < n; sh++ {
		wg.Add(1)
		go func(sh int) {
			defer wg.Done()
			start := 0
			for {
				r := s.spawn(sh, n, start, -1, deadline)
				for i := range r.Failures {
					r.Failures[i].shard, r.Failures[i].start = sh, start
				}
				r.start = start
				results[sh] = append(results[sh], r)
				if !r.crashed || r.index < 0 {
					return
				}
				start = r.index + 1
				cmu.Lock()
				crashes++
				stop := crashes >= 3
				cmu.Unlock()
				if stop {
					return
				}
			}
		}(sh)
	}
	wg.Wait()

	exhaustive := true
	total := result{Counters: map[string]int64{}}
	outcomes, states := map[uint64]struct{}{}, map[uint64]struct{}{}
	var failures []failure
	broken := ``
	for sh, rs := range results {
		for _, r := range rs {
			if r.crashed {
				if r.index < 0 {
					broken = r.crashLog
				} else {
					failures = append(failures, failure{Index: r.index, Fingerprint: `crash`, Message: r.crashLog, shard: sh, start: r.start})
				}
				exhaustive = false
				continue
			}
			total.Cases += r.Cases
			total.Evals += r.Evals
			total.Transitions += r.Transitions
			total.Traces += r.Traces
			for _, h := range r.Outcomes {
				outcomes[h] = struct{}{}
			}
			for _, h := range r.States {
				states[h] = struct{}{}
			}
			for k, v := range r.Counters {
				total.Counters[k] += v
			}
			failures = append(failures, r.Failures...)
			if len(total.Samples) < 6 {
				total.Samples = append(total.Samples, r.Samples...)
			}
			exhaustive = exhaustive && r.Done
		}
	}
	if broken != `` {
		fmt.Fprintf(os.Stderr, "worker failed before its first case:\n%s\n", broken)
		return 2
	}
	sort.SliceStable(failures, func(i, j int) bool { return failures[i].Index < failures[j].Index })

	kf := loadKnown(p.ID)
	seenKnown := map[string]bool{}
	seen := map[string]bool{}
	violations, unconfirmed, reruns := 0, 0, 0
	for _, f := range failures {
		if what, ok := kf[f.Fingerprint]; ok {
			if !seenKnown[f.Fingerprint] {
				seenKnown[f.Fingerprint] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
			}
			continue
		}
		key := f.Fingerprint
		if f.Fingerprint == `crash` {
			key = fmt.Sprintf(`crash %d`, f.Index)
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		if violations >= 3 || violations > 0 && time.Since(t0) > 3*time.Minute && tier() == `quick` {
			break
		}
		confirmed := true
		runs := 3
		if time.Since(t0) > 6*time.Minute && tier() == `quick` {
			runs = 1
		}
		if strings.HasPrefix(f.Message, `the lookup never returned`) {
			runs = 1
		}
		for i := 0; i < runs && confirmed; i++ {
			r := s.only(f.Index)
			hit := false
			for _, g := range r.Failures {
				if g.Fingerprint == f.Fingerprint {
					hit = true
					f = g
				}
			}
			confirmed = hit
		}
		var after *history
		if !confirmed {
			// perhaps it depends on something that the process remembers from the cases that it executed before
			if reruns < 3 {
				reruns++
				h := history{f.shard, n, f.start, f.Index}
				confirmed = true
				for i := 0; i < 2 && confirmed; i++ {
					confirmed = false
					for _, g := range s.history(h).Failures {
						if g.Index == f.Index && g.Fingerprint == f.Fingerprint {
							confirmed = true
						}
					}
				}
				after = &h
			}
			if !confirmed {
				unconfirmed++
				fmt.Fprintf(os.Stderr, "not reproduced, ignored: case %d: %s\n", f.Index, f.Message)
				if unconfirmed > 20 {
					break
				}
				continue
			}
			f.Message += "\nwhen executed after the cases that precede it in its shard"
		}
		violations++
		rp := filepath.Join(verifDir(), `evidence`, fmt.Sprintf(`replay-%s-%d.json`, p.ID, violations))
		bs, _ := json.MarshalIndent(&replay{Property: p.ID, Tier: tier(), Index: f.Index, Fingerprint: f.Fingerprint, Message: f.Message, Case: f.Case, Replay: `./check.sh replay ` + rp, History: after}, ``, `  `)
		_ = os.MkdirAll(filepath.Dir(rp), 0755)
		_ = ioutil.WriteFile(rp, bs, 0644)
		m := f.Message
		if len(m) > 1500 {
			m = m[:1500] + `...`
		}
		fmt.Printf("case %d: %s\n%s\n", f.Index, f.Case, m)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
	}

	cov := map[string]interface{}{
		`cases`:               total.Cases,
		`evaluations`:         total.Evals,
		`distinct_nontrivial`: len(outcomes),
		`rule`:                p.Rule,
		`samples`:             total.Samples,
		`exhaustive`:          exhaustive,
	}
	if p.Level == `model_checking` {
		cov[`states`] = len(states)
		cov[`transitions`] = total.Transitions
		cov[`traces_validated_against_impl`] = total.Traces
	}
	if p.Bounds != nil {
		cov[`bounds`] = p.Bounds(tier())
	}
	for k, v := range total.Counters {
		cov[k] = v
	}
	if unconfirmed > 0 {
		cov[`unconfirmed`] = unconfirmed
	}
	if len(seenKnown) > 0 {
		cov[`known_findings_seen`] = len(seenKnown)
	}
	if len(total.Samples) == 0 {
		cov[`samples`] = []interface{}{`none: every explored case failed`}
	}
	ev := map[string]interface{}{
		`property`: p.ID, `tier`: tier(), `seed`: seed(), `level`: p.Level, `coverage`: cov,
		`assumptions`: append([]string{}, p.Assumptions...), `wall_s`: time.Since(t0).Seconds(), `violations`: violations}
	bs, err := json.MarshalIndent(ev, ``, ` `)
	if err == nil {
		_ = os.MkdirAll(filepath.Join(verifDir(), `evidence`), 0755)
		err = ioutil.WriteFile(filepath.Join(verifDir(), `evidence`, p.ID+`.json`), bs, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d cases, %d executions, %d distinct outcomes, %d states, %d transitions, exhaustive=%v, %.1fs\n", p.ID, total.Cases, total.Evals, len(outcomes), len(states), total.Transitions, exhaustive, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}
