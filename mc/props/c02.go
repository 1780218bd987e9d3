package props

import (
	"fmt"

	"github.com/lyraproj/hiera/api"

	"verif/mc/model"
	"verif/mc/runner"
)

// C02: what the merge strategies make of the values of several sources

var c02Vals = []model.Val{
	`a`,
	`b`,
	model.List{`a`, `b`},
	model.List{`b`, `c`, `b`},
	model.List{`a`, model.List{`b`, model.List{`d`}}, `a`},
	model.List{},
	&model.M{},
	model.NewM(`x`, 1, `y`, model.List{1, 2}),
	model.NewM(`x`, 2, `y`, model.List{2, 3, 1}, `z`, 3),
	model.NewM(`x`, model.NewM(`p`, 1, `q`, model.List{`m`})),
	model.NewM(`x`, model.NewM(`p`, 2, `r`, nil, `q`, model.List{`n`, `m`}), `n`, nil),
	model.NewM(`n`, 1, `x`, model.NewM(`r`, 4, `q`, model.List{})),
	nil,
	7,
	model.List{model.NewM(`x`, 1), model.NewM(`x`, 2)},
	model.List{model.NewM(`x`, 1), nil, 1, `1`, 1.5},
	model.NewM(`y`, model.List{1, 1, model.List{2}}, `x`, nil),
	false,
	model.NewM(`x`, model.NewM(`p`, model.NewM(`d`, model.NewM(`e`, model.List{1}, `f`, 0)))),
	model.NewM(`x`, model.NewM(`p`, model.NewM(`d`, model.NewM(`e`, model.List{2}, `g`, false)))),
	model.NewM(`y`, model.NewM(`a`, 1), `x`, model.List{`s`}),
	``,
	model.NewM(1, `i`, `1`, `s`),
}

// Values of which there are many
const (
	c02Lists = 1000 * (iota + 1) // a list
	c02Maps                      // a map with nested ones
	c02Long  = 10000 * iota      // a long list
	c02Wide                      // a map with many keys
	c02Tall                      // a map with many levels
)

func c02Val(v int) model.Val {
	switch {
	case v < c02Lists:
		return c02Vals[v]
	case v < c02Maps:
		v -= c02Lists
		return model.List{v, `all`, model.List{v, `l`}}
	case v < c02Long:
		v -= c02Maps
		k := fmt.Sprintf(`k%d`, v)
		return model.NewM(k, v, `s`, v, `x`, model.NewM(k, model.List{v}, `all`, model.List{v, `l`}, `m`, model.NewM(`s`, v, k, nil)))
	case v < c02Wide:
		v -= c02Long
		l := model.List{}
		for i := 0; i < v; i++ {
			l = append(l, v-i)
		}
		return append(l, v, 1)
	case v < c02Tall:
		v -= c02Wide
		m := &model.M{}
		for i := 0; i < v; i++ {
			m.E = append(m.E, model.KV{K: fmt.Sprintf(`k%d`, i), V: v})
		}
		return m
	}
	v -= c02Tall
	var l model.Val = model.List{v}
	for i := v; i > 0; i-- {
		l = model.NewM(`x`, l, fmt.Sprintf(`l%d`, v), i)
	}
	return l
}

// indexes into c02Vals of the values used when there are many sources. -1 is absent
var c02Few = []int{0, 2, 4, 8, 9, 10, 12, 16, 18, 19, -1}

var c02Arr = []string{`entries`, `paths`, `entries2+1`, `entries1+2`, `glob`, `functions`, `mixed`, `absentbetween`, `dig`}

type c02Case struct {
	Arr  string
	Vals []int
	// kinds of entries and their locations
	Kinds []string   `json:",omitempty"`
	Seqs  [][]string `json:",omitempty"`
}

// c02SeqVals are the values in the files that are consulted many times
var c02SeqVals = []*model.M{
	model.NewM(`a`, model.List{`p`, model.List{`q`}, `p`}, `b`, model.List{`q`, `r`}),
	model.NewM(`a`, model.NewM(`x`, model.List{1}, `y`, 1), `b`, model.NewM(`z`, 2, `x`, model.List{2}), `c`, model.NewM(`y`, 3)),
	model.NewM(`a`, `s`, `b`, model.List{`t`}, `c`, model.NewM(`x`, 1)),
}

func c02Enum(tier string, yield func(interface{}) bool) {
	all := make([]int, 0, len(c02Vals)+1)
	for i := range c02Vals {
		all = append(all, i)
	}
	all = append(all, -1)
	for _, arr := range c02Arr {
		if arr != `entries2+1` && arr != `entries1+2` {
			for _, v := range all {
				if !yield(c02Case{Arr: arr, Vals: []int{v}}) {
					return
				}
			}
			for _, v := range all {
				for _, u := range all {
					if !yield(c02Case{Arr: arr, Vals: []int{v, u}}) {
						return
					}
				}
			}
		}
		three := c02Few
		if tier == `thorough` || arr == `entries` {
			three = all
		}
		if !sequences(len(three), 3, 3, func(ix []int) bool {
			return yield(c02Case{Arr: arr, Vals: []int{three[ix[0]], three[ix[1]], three[ix[2]]}})
		}) {
			return
		}
	}
	// many sources, and large values
	for i := range c02SeqVals {
		if !c01Seqs(tier, func(kinds []string, seqs [][]string) bool {
			return yield(c02Case{Arr: `seqs`, Vals: []int{i}, Kinds: kinds, Seqs: seqs})
		}) {
			return
		}
	}
	for _, arr := range c02Arr {
		for _, n := range sizes(pick(tier, 40, 260)) {
			for _, p := range []func(i int) int{
				func(i int) int { return c02Lists + i },
				func(i int) int { return c02Maps + i },
				func(i int) int {
					if i == 0 || i == n-1 {
						return c02Maps + i
					}
					return -1
				},
				func(i int) int { return []int{c02Maps + i, c02Lists + i, 0, 12, -1}[i%5] },
			} {
				c := c02Case{Arr: arr}
				for i := 0; i < n; i++ {
					c.Vals = append(c.Vals, p(i))
				}
				if (arr == `entries2+1` || arr == `entries1+2`) && n < 3 {
					continue
				}
				if !yield(c) {
					return
				}
			}
		}
	}
	for _, n := range sizes(pick(tier, 300, 2000)) {
		for _, k := range []int{c02Long, c02Wide, c02Tall} {
			for _, vs := range [][]int{{k + n, k + n/2}, {k + n/2, k + n}, {k + n, -1, k + n}, {k + n, c02Maps, k + n - 1}} {
				for _, arr := range []string{`entries`, `paths`, `functions`, `dig`} {
					if !yield(c02Case{Arr: arr, Vals: vs}) {
						return
					}
				}
			}
		}
	}
	four := []int{2, 3, 8, 10, 19, -1}
	for _, arr := range []string{`entries`, `paths`, `entries2+1`, `mixed`} {
		if !sequences(len(four), 4, pick(tier, 4, 6), func(ix []int) bool {
			c := c02Case{Arr: arr}
			for _, i := range ix {
				c.Vals = append(c.Vals, four[i])
			}
			return yield(c)
		}) {
			return
		}
	}
}

var c02Strategies = []model.Val{`first`, `unique`, `hash`, `deep`, model.NewM(`strategy`, `deep`, `knockout_prefix`, `--`), nil,
	model.NewM(`strategy`, `unique`), model.NewM(`strategy`, `hash`), `reverse_deep`, model.NewM(`merge_hash_arrays`, true), ``, `Deep`}

func c02Check(w *runner.W, ci interface{}) {
	c := ci.(c02Case)
	b := newBuild()
	cfg := &model.Config{Hierarchy: []model.Entry{}}
	data := func(v int) *model.M {
		m := model.NewM(`other`, `o`)
		if v >= 0 {
			m = m.With(`k`, c02Val(v))
		}
		return m
	}
	paths := func(n string, vs []int) model.Entry {
		e := model.Entry{Name: n, Loc: &model.Loc{Kind: `paths`}}
		for i, v := range vs {
			f := fmt.Sprintf(`%s-%d.yaml`, n, i)
			b.data(`data/`+f, data(v))
			e.Loc.S = append(e.Loc.S, f)
		}
		return e
	}
	entries := func(kind string, vs []int) {
		for i, v := range vs {
			cfg.Hierarchy = append(cfg.Hierarchy, b.source(kind, fmt.Sprintf(`s%s%d`, kind, i), data(v)))
		}
	}
	vs := c.Vals
	switch c.Arr {
	case `seqs`:
		for i, k := range c.Kinds {
			cfg.Hierarchy = append(cfg.Hierarchy, b.sequence(k, fmt.Sprintf(`s%d`, i), c.Seqs[i], func(tok string) *model.M {
				m := &model.M{}
				if v, ok := c02SeqVals[c.Vals[0]].Get(tok); ok {
					m = m.With(`k`, v)
				}
				return m
			}))
		}
	case `entries`, `dig`:
		entries(`yaml`, vs)
	case `functions`:
		entries(`fnkey`, vs)
	case `paths`:
		cfg.Hierarchy = append(cfg.Hierarchy, paths(`p`, vs))
	case `entries2+1`:
		cfg.Hierarchy = append(cfg.Hierarchy, paths(`p`, vs[:2]))
		entries(`yaml`, vs[2:])
	case `entries1+2`:
		entries(`yaml`, vs[:1])
		cfg.Hierarchy = append(cfg.Hierarchy, paths(`p`, vs[1:]))
	case `glob`:
		for i, v := range vs {
			b.data(fmt.Sprintf(`data/g/%d.yaml`, i), data(v))
		}
		cfg.Hierarchy = append(cfg.Hierarchy, model.Entry{Name: `g`, Loc: &model.Loc{Kind: `glob`, S: []string{`g/*.yaml`}}})
	case `mixed`:
		for i, v := range vs {
			k := []string{`json`, `fndig`, `paths`, `fnhash`, `mapped`}[i%5]
			if v >= 0 && k == `json` {
				if m, ok := c02Val(v).(*model.M); ok && v == len(c02Vals)-1 && m != nil {
					k = `yaml` // not valid JSON since it has an integer key
				}
			}
			cfg.Hierarchy = append(cfg.Hierarchy, b.source(k, fmt.Sprintf(`s%d`, i), data(v)))
		}
	case `absentbetween`:
		for i, v := range vs {
			cfg.Hierarchy = append(cfg.Hierarchy, b.source(`yaml`, fmt.Sprintf(`s%d`, i), data(v)), b.source(`yaml`, fmt.Sprintf(`e%d`, i), data(-1)),
				b.source(`missing`, fmt.Sprintf(`m%d`, i), data(-1)))
		}
	}
	b.config(`hiera.yaml`, cfg)
	keys := []string{`k`}
	if c.Arr == `dig` {
		keys = []string{`k.x`, `k.y.1`, `k.0`, `k.x.p`}
	}
	b.session(func(s api.Session) {
		// All strategies using the same invocation, and hence the same cached data. A merge must not alter what it merges
		iv := s.Invocation(b.dgoScope(), nil)
		for round := 0; round < 2; round++ {
			for _, k := range keys {
				for _, m := range c02Strategies {
					q := query{k, m}
					got, want := q.impl(iv), q.model(b.world)
					w.Eval(1)
					if want.OK {
						w.Outcome(b.describe(), q, want)
					}
					if got.class() != want.class() {
						w.Fail("lookup %s (round %d)\n got: %s\nwant: %s\n%s", q, round, got, want, b.describe())
						return
					}
				}
			}
		}
	})
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C02`,
		Level: `exploration`,
		Rule: `every combination of 1..3 values (of 23 values: scalars, null, flat and nested arrays with duplicates, nested maps with conflicts, plus absent; a subset of 11 for three values in all but one arrangement) over 9 arrangements of sources (entries, locations within an entry, mixtures, functions, absent ones in between), and 4 (thorough: ..6) values of 6 in four arrangements; entries with sequences of locations that can be the same; up to 40 (thorough: 257) sources in all arrangements, and values with up to 257 (thorough: 2001) elements, keys, or levels; ` +
			`all strategies, also unknown ones, with and without options, using the same invocation twice, each compared with the reference merge. Non-trivial: the key is found; distinct: by files, strategy and result`,
		Enumerate: c02Enum,
		Check:     c02Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`sources`: pick(tier, 4, 6), `values`: len(c02Vals) + 1, `strategies`: len(c02Strategies)}
		},
		Assumptions: []string{`the order of entries in a merged map is not judged`},
	}
})
