// Package vsync has the same types and functions as package sync. When a scheduler is active, the threads that it
// controls run one at a time, and control is handed over from one to another only at the operations of this package and
// at calls to Point. The scheduler decides which thread that runs, which is how all interleavings are explored.
//
// The package must not be instrumented by the race detector, but uses the primitives of package sync (which are), so that
// the detector sees the synchronization made by the program but not the one that is made by the scheduler.
package vsync

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"
	"unsafe"
)

func getg() uintptr

// Kind is the kind of operation
type Kind int

// Kinds of operations
const (
	Read    = Kind(iota) // can be exchanged with another read of the same object and key
	Write                // an access that can't be exchanged with another access of the same object and key
	Acquire              // exclusive
	Share                // not exclusive
	Release
	Try // to acquire but don't wait
	Begin
)

// Op is an operation on a shared object
type Op struct {
	Obj  uintptr
	Key  interface{} // nil is all keys
	Kind Kind
}

// Dependent is true when the operations can't be exchanged with each other
func (o Op) Dependent(p Op) bool {
	if o.Obj != p.Obj || o.Obj == 0 {
		return false
	}
	if o.Key != nil && p.Key != nil && o.Key != p.Key {
		return false
	}
	if o.Kind == Release || p.Kind == Release {
		return o.Kind == Try || p.Kind == Try
	}
	return !((o.Kind == Read || o.Kind == Share) && (p.Kind == Read || p.Kind == Share))
}

const maxThreads = 8

type state int

const (
	runnable = state(iota)
	blocked  // on an operation of this package
	outside  // on something else
	finished
)

type thread struct {
	id    int
	g     uintptr
	goid  string
	wake  chan bool
	op    Op
	state state
	on    uintptr // object that the thread is blocked on
	dead  bool
}

// Step is one step of an execution
type Step struct {
	Thread   int
	Op       Op
	Runnable uint32 // set of threads that could have been chosen
	Cost     int    // preemptions so far, including this one
}

// Result is the result of one execution
type Result struct {
	Steps    []Step
	Deadlock bool
	Diverged bool // a step of the prefix could not be taken
	Stalls   int  // times that a thread was blocked on something that isn't an operation of this package
	Threads  string
}

type scheduler struct {
	mu       sync.Mutex
	threads  [maxThreads]*thread
	n        int
	cur      int // thread that runs, or -1
	prefix   []int
	steps    []Step
	nsteps   int
	cost     int
	done     chan bool
	diverged bool
	stalls   int
	over     bool
	live     int
	clock    int64
}

var active *scheduler

// The active scheduler is protected by this lock for those that aren't controlled
var activeLock sync.RWMutex

// self returns the thread that calls, or nil if it isn't controlled
func self() *thread {
	s := active
	if s == nil {
		return nil
	}
	g := getg()
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t != nil && t.g == g && !t.dead {
			return t
		}
	}
	return nil
}

// Self is the number of the calling thread or -1
func Self() int {
	if t := self(); t != nil {
		return t.id
	}
	return -1
}

func (s *scheduler) runnableSet() uint32 {
	r := uint32(0)
	for i := 0; i < s.n; i++ {
		if s.threads[i].state == runnable {
			r |= 1 << uint(i)
		}
	}
	return r
}

// choose picks the thread to run next. The lock is held. Returns -1 if there is none
func (s *scheduler) choose() int {
	rs := s.runnableSet()
	if rs == 0 {
		s.cur = -1
		return -1
	}
	prev := -1
	if s.nsteps > 0 {
		prev = s.steps[s.nsteps-1].Thread
	}
	c := -1
	if s.nsteps < len(s.prefix) {
		c = s.prefix[s.nsteps]
		if rs&(1<<uint(c)) == 0 {
			s.diverged = true
			c = -1
		}
	}
	if c < 0 {
		if prev >= 0 && rs&(1<<uint(prev)) != 0 {
			c = prev
		} else {
			for i := 0; i < s.n; i++ {
				if rs&(1<<uint(i)) != 0 {
					c = i
					break
				}
			}
		}
	}
	if prev >= 0 && c != prev && rs&(1<<uint(prev)) != 0 {
		s.cost++
	}
	if s.nsteps == len(s.steps) {
		ns := make([]Step, 2*len(s.steps)+256)
		for i := range s.steps {
			ns[i] = s.steps[i]
		}
		s.steps = ns
	}
	s.steps[s.nsteps] = Step{Thread: c, Op: s.threads[c].op, Runnable: rs, Cost: s.cost}
	s.nsteps++
	s.cur = c
	return c
}

// point announces the operation and returns when it's the turn of the thread to perform it
func (t *thread) point(op Op) {
	hide()
	s := active
	s.mu.Lock()
	t.op = op
	t.state = runnable
	if s.cur == t.id || s.cur < 0 {
		s.handOver()
	}
	for s.cur != t.id {
		s.mu.Unlock()
		<-t.wake
		s.mu.Lock()
	}
	s.mu.Unlock()
	unhide()
}

// handOver picks the next one and wakes it. The lock is held
func (s *scheduler) handOver() {
	if c := s.choose(); c >= 0 {
		select {
		case s.threads[c].wake <- true:
		default:
		}
	}
}

// block waits until the object is released, and it's the turn of the thread again
func (t *thread) block(obj uintptr) {
	hide()
	s := active
	s.mu.Lock()
	t.state = blocked
	t.on = obj
	s.handOver()
	for s.cur != t.id || t.state != runnable {
		s.mu.Unlock()
		<-t.wake
		s.mu.Lock()
	}
	s.mu.Unlock()
	unhide()
}

// released makes those that wait for the object runnable
func released(obj uintptr) {
	hide()
	activeLock.RLock()
	if s := active; s != nil {
		s.mu.Lock()
		for i := 0; i < s.n; i++ {
			t := s.threads[i]
			if t.state == blocked && t.on == obj {
				t.state = runnable
				t.on = 0
			}
		}
		if s.cur < 0 && !s.over {
			s.handOver()
		}
		s.mu.Unlock()
	}
	activeLock.RUnlock()
	unhide()
}

func (t *thread) finish() {
	hide()
	s := active
	s.mu.Lock()
	t.state = finished
	t.dead = true
	s.live--
	if s.live == 0 {
		s.cur = -1
		s.done <- true
	} else if s.cur == t.id {
		s.handOver()
	}
	s.mu.Unlock()
	unhide()
}

// setWrite alters the kind of the operation that was just performed
func (t *thread) setKind(k Kind) {
	s := active
	for i := s.nsteps - 1; i >= 0; i-- {
		if s.steps[i].Thread == t.id {
			s.steps[i].Op.Kind = k
			return
		}
	}
}

// Tick returns a number that increases each time that it's called
func Tick() int64 {
	s := active
	if s == nil {
		return 0
	}
	s.clock++
	return s.clock
}

// Point is a place where control can be handed over. The object can be zero, in which case the place is independent of
// all other places
func Point(obj uintptr, key interface{}, kind Kind) {
	if t := self(); t != nil {
		t.point(Op{obj, key, kind})
	}
}

func goid() string {
	buf := make([]byte, 64)
	n := runtime.Stack(buf, false)
	f := strings.Fields(string(buf[:n]))
	if len(f) > 1 {
		return f[1]
	}
	return ``
}

// stallTime is the time without progress after which it's investigated if the thread that runs waits for something else
var stallTime = 100 * time.Millisecond

// tickTime is the same when it waits for a channel, which normally isn't something that takes time
var tickTime = 4 * time.Millisecond

// DeadlockTime is the time that all threads must have been waiting for something outside of this package before it's a deadlock
var DeadlockTime = 20 * time.Second

// Run runs the functions in threads that are controlled. The prefix tells which thread that is chosen at each step.
// After that, no thread is preempted
func Run(prefix []int, fs ...func()) *Result {
	hide()
	s := &scheduler{cur: -1, prefix: prefix, n: len(fs), live: len(fs), done: make(chan bool, 1), steps: make([]Step, 512)}
	ready := make(chan bool, len(fs))
	for i := range fs {
		s.threads[i] = &thread{id: i, wake: make(chan bool, 1), op: Op{Kind: Begin}}
	}
	unhide()
	var wg sync.WaitGroup
	wg.Add(len(fs))
	for i := range fs {
		t, f := s.threads[i], fs[i]
		go func() {
			hide()
			t.g = getg()
			t.goid = goid()
			ready <- true
			unhide()
			hide()
			s.mu.Lock()
			for s.cur != t.id {
				s.mu.Unlock()
				<-t.wake
				s.mu.Lock()
			}
			s.mu.Unlock()
			unhide()
			defer wg.Done()
			defer t.finish()
			f()
		}()
	}
	hide()
	for range fs {
		<-ready
	}
	activeLock.Lock()
	active = s
	activeLock.Unlock()
	s.mu.Lock()
	s.handOver()
	s.mu.Unlock()
	r := &Result{}
	lastSteps, lastChange := -1, time.Now()
	timer := time.NewTicker(tickTime)
wait:
	for {
		select {
		case <-s.done:
			break wait
		case <-timer.C:
			s.mu.Lock()
			if s.nsteps != lastSteps {
				lastSteps, lastChange = s.nsteps, time.Now()
				s.mu.Unlock()
				continue
			}
			switch {
			case s.cur >= 0:
				t := s.threads[s.cur]
				if waits(t.goid, time.Since(lastChange) > stallTime) {
					// control is given to another thread. This one waits for its turn when it gets to its next operation
					t.state = outside
					s.stalls++
					s.handOver()
				} else if time.Since(lastChange) > 3*DeadlockTime {
					// neither waits nor gets anywhere
					r.Deadlock = true
				}
			default:
				// None is runnable. Those that are blocked are so forever, unless there is one that is outside or some
				// go routine that isn't controlled that releases what they wait for
				max := time.Second
				for i := 0; i < s.n; i++ {
					if s.threads[i].state == outside {
						max = DeadlockTime
					}
				}
				if time.Since(lastChange) > max {
					r.Deadlock = true
				}
			}
			if r.Deadlock {
				s.over = true
				r.Threads = stacks(s)
				for i := 0; i < s.n; i++ {
					s.threads[i].dead = true
				}
				s.mu.Unlock()
				break wait
			}
			s.mu.Unlock()
		}
	}
	timer.Stop()
	activeLock.Lock()
	active = nil
	activeLock.Unlock()
	s.mu.Lock()
	r.Steps = s.steps[:s.nsteps]
	r.Diverged = s.diverged
	r.Stalls = s.stalls
	s.mu.Unlock()
	unhide()
	if !r.Deadlock {
		// What the threads did happened before what the caller does
		wg.Wait()
	}
	return r
}

// waits is true if the go routine waits for something. A select is normally one that waits for another process
func waits(goid string, long bool) bool {
	for _, st := range strings.Split(allStacks(), "\n\n") {
		if strings.HasPrefix(st, `goroutine `+goid+` `) {
			i, j := strings.IndexByte(st, '['), strings.IndexByte(st, ']')
			if i < 0 || j < i {
				return false
			}
			if inScheduler(st) {
				return false
			}
			s := st[i+1 : j]
			for _, w := range []string{`chan `, `select`, `semacquire`, `sync.`} {
				if strings.HasPrefix(s, w) && (long || w == `chan `) {
					return true
				}
			}
			return false
		}
	}
	return false
}

// inScheduler is true if the go routine waits for the lock of the scheduler or for its turn
func inScheduler(stack string) bool {
	for _, l := range strings.Split(stack, "\n")[1:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, `sync.`) || strings.HasPrefix(l, `internal/`) || strings.HasPrefix(l, `runtime.`) {
			continue
		}
		const pkg = `verif/mc/vsync.`
		for _, f := range []string{`(*thread).`, `released(`, `Run.func`} {
			if strings.HasPrefix(l, pkg+f) {
				return true
			}
		}
		return false
	}
	return false
}

func allStacks() string {
	for n := 1 << 16; ; n *= 4 {
		buf := make([]byte, n)
		if m := runtime.Stack(buf, true); m < n {
			return string(buf[:m])
		}
	}
}

func stacks(s *scheduler) string {
	r := ``
	all := strings.Split(allStacks(), "\n\n")
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t.state == finished {
			continue
		}
		for _, st := range all {
			if strings.HasPrefix(st, `goroutine `+t.goid+` `) {
				r += fmt.Sprintf("thread %d: %s\n", i, st)
			}
		}
	}
	return r
}

func addr(p unsafe.Pointer) uintptr { return uintptr(p) }
