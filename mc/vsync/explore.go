package vsync

// Limits bound an exploration
type Limits struct {
	Preemptions int  // negative is no bound
	Plain       bool // explore all schedules, not just one for each way to order dependent operations
	Max         int  // schedules, zero is no limit
}

// Stats tells what was explored
type Stats struct {
	Schedules int
	Steps     int
	Diverged  int
	Stalls    int
	Complete  bool // everything within the limits was explored
}

type node struct {
	runnable uint32
	thread   int
	prev     int // thread that ran before, or -1
	cost     int // preemptions before this step
	todo     uint32
	done     uint32
}

func (n *node) costOf(t int) int {
	if n.prev >= 0 && n.prev != t && n.runnable&(1<<uint(n.prev)) != 0 {
		return n.cost + 1
	}
	return n.cost
}

// Explore calls the function with prefixes such that all schedules within the limits are executed, or until the function
// returns nil. Unless Plain is true, two schedules that differ only in the order of independent operations are considered to be the
// same. The algorithm is dynamic partial order reduction with the conservative backtrack points that a bound on the
// preemptions makes necessary.
func Explore(l Limits, run func(prefix []int) *Result) Stats {
	var st Stats
	var nodes []*node
	var prefix []int
	for {
		if l.Max > 0 && st.Schedules >= l.Max {
			return st
		}
		r := run(prefix)
		if r == nil {
			return st
		}
		st.Schedules++
		st.Steps += len(r.Steps)
		st.Stalls += r.Stalls
		if r.Diverged {
			st.Diverged++
		}
		// Nodes of the prefix are retained as long as the execution did what it was told
		same := 0
		for same < len(prefix) && same < len(r.Steps) && same < len(nodes) && r.Steps[same].Thread == prefix[same] {
			nodes[same].thread = prefix[same]
			same++
		}
		nodes = nodes[:same]
		for i := same; i < len(r.Steps); i++ {
			s := r.Steps[i]
			n := &node{runnable: s.Runnable, thread: s.Thread, prev: -1, done: 1 << uint(s.Thread)}
			if i > 0 {
				n.prev = r.Steps[i-1].Thread
				n.cost = r.Steps[i-1].Cost
			}
			if l.Plain {
				n.todo = s.Runnable
			}
			nodes = append(nodes, n)
		}
		if !l.Plain {
			backtracks(l, nodes, r.Steps)
		}
		// the last node that has something left to do
		next := -1
		for i := len(nodes) - 1; i >= 0 && next < 0; i-- {
			n := nodes[i]
			for t := 0; t < maxThreads; t++ {
				b := uint32(1) << uint(t)
				if n.todo&b == 0 || n.done&b != 0 {
					continue
				}
				n.done |= b
				if l.Preemptions >= 0 && n.costOf(t) > l.Preemptions {
					continue
				}
				prefix = make([]int, i+1)
				for j := 0; j < i; j++ {
					prefix[j] = nodes[j].thread
				}
				prefix[i] = t
				n.thread = t
				nodes = nodes[:i+1]
				next = i
				break
			}
		}
		if next < 0 {
			st.Complete = true
			return st
		}
	}
}

// ordered is true when one of the operations happens before the other whenever it's executed before it
func ordered(o, p Op) bool {
	if o.Obj != p.Obj || o.Obj == 0 {
		return false
	}
	if o.Key != nil && p.Key != nil && o.Key != p.Key {
		return false
	}
	return !((o.Kind == Read || o.Kind == Share) && (p.Kind == Read || p.Kind == Share))
}

func backtracks(l Limits, nodes []*node, steps []Step) {
	type clock [maxThreads]int
	cv := make([]clock, len(steps)) // cv[i][t] is one more than the index of the last step of t that happens before, or is, i
	var last clock
	byObj := map[uintptr][]int{}
	for j, s := range steps {
		q := s.Thread
		var c clock
		if last[q] > 0 {
			c = cv[last[q]-1]
		}
		before := c
		seen := uint32(0)
		prior := byObj[s.Op.Obj]
		if s.Op.Obj == 0 {
			prior = nil
		}
		for x := len(prior) - 1; x >= 0; x-- {
			i := prior[x]
			p := steps[i].Thread
			if p != q && seen&(1<<uint(p)) == 0 && steps[i].Op.Dependent(s.Op) {
				seen |= 1 << uint(p)
				if before[p] <= i {
					add(nodes, i, q)
					// The preemption that makes it possible can be one too many. Having the other thread go first
					// where this thread got control might not be
					if l.Preemptions >= 0 {
						k := i
						for k > 0 && steps[k-1].Thread == p {
							k--
						}
						add(nodes, k, q)
					}
				}
			}
			if ordered(steps[i].Op, s.Op) {
				for t := range c {
					if cv[i][t] > c[t] {
						c[t] = cv[i][t]
					}
				}
			}
		}
		c[q] = j + 1
		cv[j] = c
		last[q] = j + 1
		if s.Op.Obj != 0 {
			byObj[s.Op.Obj] = append(prior, j)
		}
	}
}

func add(nodes []*node, i, q int) {
	n := nodes[i]
	if n.runnable&(1<<uint(q)) != 0 {
		n.todo |= 1 << uint(q)
	} else {
		n.todo |= n.runnable
	}
}
