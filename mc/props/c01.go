package props

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"

	"verif/mc/model"
	"verif/mc/runner"
)

// C01: the value of the first source, in the order of the hierarchy, that has the key wins, whatever that value is.

// c01Vals are the values that a source can have for the key. The last is the absence of the key
var c01Vals = []func(src int) (model.Val, bool){
	func(i int) (model.Val, bool) { return fmt.Sprintf(`v%d`, i), true },
	func(i int) (model.Val, bool) { return model.NewM(`x`, fmt.Sprintf(`v%d`, i)), true },
	func(i int) (model.Val, bool) { return model.List{fmt.Sprintf(`v%d`, i), i}, true },
	func(i int) (model.Val, bool) { return false, true },
	func(i int) (model.Val, bool) { return nil, true },
	func(i int) (model.Val, bool) { return ``, true },
	func(i int) (model.Val, bool) { return 0, true },
	func(i int) (model.Val, bool) { return &model.M{}, true },
	func(i int) (model.Val, bool) { return model.List{}, true },
	func(i int) (model.Val, bool) { return 1.5 + float64(i), true },
	func(i int) (model.Val, bool) { return nil, false },
}

const c01Absent = 10

type c01Case struct {
	Kinds []string
	Vals  []int
	Key   string
	Merge string `json:",omitempty"`
	// locations of each entry
	Seqs [][]string `json:",omitempty"`
}

// c01Seqs enumerates entries with sequences of locations
func c01Seqs(tier string, yield func(kinds []string, seqs [][]string) bool) bool {
	all := func(max int) (r [][]string) {
		sequences(len(seqTokens), 1, max, func(ix []int) bool {
			var s []string
			for _, i := range ix {
				s = append(s, seqTokens[i])
			}
			r = append(r, s)
			return true
		})
		return
	}
	for _, k := range seqKinds {
		for _, s := range all(pick(tier, 4, 6)) {
			if !yield([]string{k}, [][]string{s}) {
				return false
			}
		}
		for _, l := range seqKinds {
			for _, s := range all(2) {
				for _, t := range all(2) {
					if !yield([]string{k, l}, [][]string{s, t}) {
						return false
					}
				}
			}
		}
	}
	return true
}

func c01Enum(tier string, yield func(interface{}) bool) {
	rootKeys := []string{`k`, `k.x`, `k.1`, `"a.b"`, `m::k`}
	nv := len(c01Vals)
	nk := len(srcKinds)
	// one and two sources: everything
	for n := 1; n <= 2; n++ {
		lim := []int{}
		for i := 0; i < n; i++ {
			lim = append(lim, nk, nv)
		}
		lim = append(lim, len(rootKeys))
		if !product(func(ix []int) bool {
			c := c01Case{Key: rootKeys[ix[2*n]]}
			if n == 2 && ix[2*n] > 2 && tier == `quick` {
				return true
			}
			for i := 0; i < n; i++ {
				c.Kinds = append(c.Kinds, srcKinds[ix[2*i]])
				c.Vals = append(c.Vals, ix[2*i+1])
			}
			return yield(c)
		}, lim...) {
			return
		}
	}
	// three (and four) sources of the kinds that differ in how they are processed, three values
	kinds := []string{`yaml`, `paths`, `fnkey`, `fnhash`, `missing`, `fndig`, `noglob`, `uris`}
	vals := []int{0, 1, 4, c01Absent}
	for n := 3; n <= pick(tier, 3, 4); n++ {
		lim := []int{}
		for i := 0; i < n; i++ {
			lim = append(lim, pick(tier, 8, 8), len(vals))
		}
		if n == 4 {
			for i := range lim {
				if i%2 == 0 {
					lim[i] = 6
				}
			}
		}
		if !product(func(ix []int) bool {
			c := c01Case{Key: `k`}
			for i := 0; i < n; i++ {
				c.Kinds = append(c.Kinds, kinds[ix[2*i]])
				c.Vals = append(c.Vals, vals[ix[2*i+1]])
			}
			return yield(c)
		}, lim...) {
			return
		}
	}
	// the same files more than once
	if !c01Seqs(tier, func(kinds []string, seqs [][]string) bool {
		return yield(c01Case{Kinds: kinds, Seqs: seqs, Key: `k`})
	}) {
		return
	}
	// many sources where the key is only present in the last one, or in the last one and one in the middle
	for _, kind := range srcKinds[:11] {
		for _, n := range sizes(pick(tier, 130, 520)) {
			for _, other := range []int{n - 1, n / 2} {
				c := c01Case{Key: `k`}
				for i := 0; i < n; i++ {
					c.Kinds = append(c.Kinds, kind)
					c.Vals = append(c.Vals, c01Absent)
				}
				c.Vals[other], c.Vals[n-1] = 0, 1
				if !yield(c) {
					return
				}
			}
		}
	}
	// longer hierarchies where the key is present in every possible subset of the sources
	for n := 5; n <= pick(tier, 8, 11); n++ {
		for _, kind := range []string{`yaml`, `fnkey`, `paths`, `json`} {
			for m := 0; m < 1<<uint(n); m++ {
				c := c01Case{Key: `k`}
				for i := 0; i < n; i++ {
					c.Kinds = append(c.Kinds, kind)
					if m&(1<<uint(i)) != 0 {
						c.Vals = append(c.Vals, 0)
					} else {
						c.Vals = append(c.Vals, c01Absent)
					}
				}
				if !yield(c) {
					return
				}
			}
		}
	}
}

func c01Check(w *runner.W, ci interface{}) {
	c := ci.(c01Case)
	parts, _, _ := model.ParseKey(c.Key)
	root := parts[0].S
	b := newBuild()
	cfg := &model.Config{Hierarchy: []model.Entry{}}
	for i, k := range c.Kinds {
		if c.Seqs != nil {
			cfg.Hierarchy = append(cfg.Hierarchy, b.sequence(k, fmt.Sprintf(`s%d`, i), c.Seqs[i], func(tok string) *model.M {
				if tok == `a` || tok == `b` {
					return model.NewM(root, tok)
				}
				return &model.M{}
			}))
			continue
		}
		data := model.NewM(`other`, `o`, root+`x`, `no`, `x`+root, `no`)
		if v, ok := c01Vals[c.Vals[i]](i); ok {
			data = data.With(root, v)
		}
		cfg.Hierarchy = append(cfg.Hierarchy, b.source(k, fmt.Sprintf(`s%d`, i), data))
	}
	b.config(`hiera.yaml`, cfg)

	// Sources must be consulted in order, and none after the one that has the value.
	calls := []string{}
	b.called = func(name, key string) {
		if key == root {
			calls = append(calls, name)
		}
	}
	mw := *b.world
	mw.Functions = map[string]model.Fn{}
	wantCalls := []string{}
	for n, f := range b.world.Functions {
		n, f := n, f
		mw.Functions[n] = func(x *model.Ctx, opts *model.M, key string) model.Found {
			if key == root {
				wantCalls = append(wantCalls, n)
			}
			return f(x, opts, key)
		}
	}
	q := query{Key: c.Key}
	b.session(func(s api.Session) {
		// the same invocation is used twice
		iv := s.Invocation(b.dgoScope(), nil)
		for i := 0; i < 2; i++ {
			calls, wantCalls = calls[:0], wantCalls[:0]
			got, want := q.impl(iv), q.model(&mw)
			w.Eval(1)
			if want.OK {
				w.Outcome(b.describe(), want)
			}
			if got.class() != want.class() {
				w.Fail("lookup %s #%d\n got: %s\nwant: %s\n%s", q, i, got, want, b.describe())
			}
			if fmt.Sprint(calls) != fmt.Sprint(wantCalls) {
				w.Fail("lookup %s #%d consulted functions %v, expected %v\n%s", q, i, calls, wantCalls, b.describe())
			}
		}
	})
	_ = dgo.Value(nil)
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C01`,
		Level: `exploration`,
		Rule: `every hierarchy of 1..2 entries over 16 kinds of entries (all location kinds, in-process functions of all kinds, missing files, unresolved functions) x 11 values (incl. false, null, empty) x key shapes; 3 (thorough: 4) entries over 8 kinds x 4 values; every subset of sources that has the key for hierarchies of 5..8 (thorough ..11) entries; hierarchies of up to 129 (thorough: 513) entries of 11 kinds where the last one, or also the one in the middle, has the key; one entry with every sequence of up to 4 (thorough: 6), and two with up to 2, locations of five kinds, which can be the same. ` +
			`Each is executed on the real code twice and compared with the reference interpreter (value, found/not found, order of consulted functions). Non-trivial: the key is found; distinct: by files, functions and value`,
		Enumerate: c01Enum,
		Check:     c01Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`entries_full_product`: 2, `entries_reduced_product`: pick(tier, 3, 4), `entries_subsets`: pick(tier, 8, 11)}
		},
		Assumptions: []string{`data files do not change while a session is alive`, `functions are deterministic`},
	}
})
