package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"

	"verif/mc/model"
	"verif/mc/runner"
)

// C20: files that are missing or unusable

// c20Fault is a file in some state
type c20Fault struct {
	File  int    // index in c20Files
	State int    // index in the states of the kind of the file, or -1 when Text is what the file contains
	Text  string `json:",omitempty"`
}

type c20Case struct {
	Faults []c20Fault `json:",omitempty"` // the initial state, other files are good
	Then   []int      `json:",omitempty"` // states that the first file assumes, one after another
	Way    string     `json:",omitempty"` // when states change: "" new invocation, "invocation" same invocation, "during" while looking up
	At     int        `json:",omitempty"` // call of the function that makes the change
	Query  int        `json:",omitempty"` // for "during"
}

type c20File struct{ path, kind string }

const (
	c20Main = iota
	c20A
	c20J
	c20H
	c20G
	c20P2
	c20Mp
	c20Last
	c20ModCfg
	c20ModData
	c20ModPath
	c20Mod
	c20Single
)

var c20Files = []c20File{
	{`hiera.yaml`, `config`}, {`data/a.yaml`, `yaml`}, {`data/j.json`, `json`}, {`data/h-h1.yaml`, `yaml`}, {`data/g/1.yaml`, `yaml`}, {`data/p2.yaml`, `yaml`},
	{`data/mp-v.yaml`, `yaml`}, {`data/last.yaml`, `yaml`}, {`mods/m/hiera.yaml`, `modconfig`}, {`mods/m/data/md.yaml`, `yaml`}, {`mods0`, `modpath`}, {`mods0/m`, `mod`}, {`single.yaml`, `single`},
}

type c20State struct {
	name string
	text string
	how  string // empty for a regular file
}

var c20YamlStates = []c20State{
	{`good`, ``, `good`}, {`good2`, ``, `good2`}, {`missing`, ``, `missing`}, {`empty hash`, `{}`, ``}, {`empty`, ``, ``}, {`comment`, "# nothing\n", ``}, {`list`, "- x\n- k_last\n", ``},
	{`scalar`, "x\n", ``}, {`null`, "~\n", ``}, {`unclosed`, `{"x": [1`, ``}, {`tab`, "x:\n\t- y\n", ``}, {`bad utf8`, "x: \"\xff\xfe\"\n", ``}, {`nul`, "x: a\x00b\n", ``},
	{`bad alias`, "x: *nope\n", ``}, {`bad indent`, "x:\n  a: 1\n b: 2\n", ``}, {`unclosed quote`, "x: \"y\n", ``}, {`bad escape`, "x: \"\\q\"\n", ``},
	{`directory`, ``, `dir`}, {`dangling`, ``, `dangling`}, {`link`, ``, `link`}, {`unreadable`, ``, `perm`},
}

var c20JSONStates = []c20State{
	{`good`, ``, `good`}, {`good2`, ``, `good2`}, {`missing`, ``, `missing`}, {`empty hash`, `{}`, ``}, {`empty`, ``, ``}, {`space`, " \n", ``}, {`list`, `["x"]`, ``}, {`scalar`, `"x"`, ``},
	{`number`, `1`, ``}, {`null`, `null`, ``}, {`unclosed`, `{"x": [1`, ``}, {`trailing`, `{"x":"trailing"} x`, ``}, {`two`, `{"x":1}{"x":2}`, ``}, {`comma`, `{"x":1,}`, ``}, {`yaml`, "x: 1\n", ``},
	{`single quotes`, `{'x':1}`, ``}, {`nul`, "{\"x\":\"a\x00b\"}", ``}, {`bad escape`, `{"x":"\q"}`, ``}, {`number syntax`, `{"x":01}`, ``}, {`literal`, `{"x":nul}`, ``}, {`key`, `{1:2}`, ``}, {`bracket`, `{"x":[1}`, ``},
	{`directory`, ``, `dir`}, {`dangling`, ``, `dangling`}, {`link`, ``, `link`}, {`unreadable`, ``, `perm`},
}

var c20ConfigStates = []c20State{
	{`good`, ``, `good`}, {`good2`, ``, `good2`}, {`missing`, ``, `missing`}, {`empty`, ``, ``}, {`comment`, "# nothing\n", ``}, {`empty hash`, `{}`, ``}, {`list`, "- version\n", ``}, {`scalar`, "version\n", ``},
	{`null`, "~\n", ``}, {`unclosed`, `{"version": 5`, ``}, {`tab`, "version: 5\nhierarchy:\n\t- name: x\n", ``}, {`version 3`, `{"version":3}`, ``}, {`version text`, `{"version":"5"}`, ``},
	{`unknown key`, `{"version":5,"hierarchies":[]}`, ``}, {`bad hierarchy`, `{"version":5,"hierarchy":{"name":"x"}}`, ``}, {`bad entry`, `{"version":5,"hierarchy":["x"]}`, ``},
	{`null hierarchy`, `{"version":5,"hierarchy":null}`, ``}, {`unnamed`, `{"version":5,"hierarchy":[{"path":"last.yaml"}]}`, ``}, {`bad utf8`, "{\"version\":5,\"hierarchy\":[{\"name\":\"\xff\"}]}", ``},
	{`directory`, ``, `dir`}, {`dangling`, ``, `dangling`}, {`link`, ``, `link`}, {`unreadable`, ``, `perm`},
}

// The directory in the module path that isn't the one that has the module
var c20ModPathStates = []c20State{{`missing`, ``, `missing`}, {`empty`, ``, `dir`}, {`file`, `x`, ``}, {`unreadable`, ``, `permdir`}, {`dangling`, ``, `dangling`}}

// A module in that directory
var c20ModStates = []c20State{{`missing`, ``, `missing`}, {`no config`, ``, `dir`}, {`file`, `x`, ``}, {`unreadable`, ``, `permdir`}}

func c20States(kind string) []c20State {
	switch kind {
	case `json`:
		return c20JSONStates
	case `config`:
		return c20ConfigStates
	case `modconfig`:
		// It's not decided if what isn't a file is a configuration that can't be used or the lack of one
		var ss []c20State
		for _, s := range c20ConfigStates {
			if s.how != `dir` && s.how != `dangling` {
				ss = append(ss, s)
			}
		}
		return ss
	case `modpath`:
		return c20ModPathStates
	case `mod`:
		return c20ModStates
	}
	return c20YamlStates
}

func c20Entry(name, loc string, s ...string) model.Entry {
	return model.Entry{Name: name, Loc: &model.Loc{Kind: loc, S: s}}
}

// c20Config returns a good configuration
func c20Config(f c20File, second bool) *model.Config {
	if f.kind == `modconfig` {
		if second {
			return &model.Config{Hierarchy: []model.Entry{c20Entry(`o`, `path`, `other.yaml`)}}
		}
		return &model.Config{Hierarchy: []model.Entry{c20Entry(`m`, `path`, `md.yaml`), c20Entry(`o`, `path`, `other.yaml`)}}
	}
	if second {
		return &model.Config{Hierarchy: []model.Entry{c20Entry(`g`, `glob`, `g/*.yaml`), c20Entry(`last`, `path`, `last.yaml`)}}
	}
	j := c20Entry(`j`, `path`, `j.json`)
	j.Kind, j.Func = `data_hash`, `json_data`
	return &model.Config{Hierarchy: []model.Entry{
		c20Entry(`a`, `path`, `a.yaml`), j, {Name: `f`, Kind: `lookup_key`, Func: `mutate`}, c20Entry(`h`, `path`, `h-%{host}.yaml`), c20Entry(`g`, `glob`, `g/*.yaml`),
		c20Entry(`p`, `paths`, `p1.yaml`, `p2.yaml`), c20Entry(`mp`, `mapped_paths`, `names`, `n`, `mp-%{n}.yaml`), c20Entry(`last`, `path`, `last.yaml`),
	}}
}

// c20Data returns good data
func c20Data(path string, second bool) *model.M {
	n := filepath.Base(path)
	n = n[:len(n)-len(filepath.Ext(n))]
	t := n
	if second {
		t += ` two`
	}
	p := ``
	if strings.HasPrefix(path, `mods`) {
		p = `m::`
	}
	m := model.NewM(p+`x`, t, p+`arr`, model.List{`shared`, t}, p+`k_`+n, t, p+`lo`, model.List{t, `shared`}, p+`h`, model.NewM(n, t, `s`, model.NewM(`by`, t)))
	switch {
	case n == `j`:
		m = m.With(`ref`, `<%{lookup('k_last')}>`)
	case n == `last` && !second:
		m = m.With(`lookup_options`, model.NewM(`lo`, model.NewM(`merge`, `unique`)))
	case n == `last` || n == `md` && second:
		m = m.With(`lookup_options`, model.NewM(p+`h`, model.NewM(`merge`, `deep`)))
	case n == `single`:
		m = model.NewM(`x`, t, `k_single`, t)
	}
	return m
}

// c20Good is the files when nothing is wrong
var c20Good = []string{`data/a.yaml`, `data/j.json`, `data/h-h1.yaml`, `data/h-h2.yaml`, `data/g/1.yaml`, `data/g/2.yaml`, `data/p1.yaml`, `data/p2.yaml`, `data/mp-u.yaml`, `data/mp-v.yaml`,
	`data/last.yaml`, `data.yaml`, `data/common.yaml`, `mods/m/data/md.yaml`, `mods/m/data/other.yaml`, `mods/m/data/common.yaml`, `single.yaml`}

var c20Queries = []query{
	{Key: `x`}, {`arr`, `unique`}, {Key: `lo`}, {Key: `k_last`}, {Key: `k_a`}, {Key: `k_j`}, {Key: `k_p2`}, {Key: `k_mp-v`}, {Key: `k_1`}, {Key: `k_h-h1`}, {Key: `ref`}, {Key: `k_missing`},
	{`h`, `deep`}, {Key: `h.s.by`}, {Key: `m::x`}, {`m::arr`, `unique`}, {Key: `m::h`}, {Key: `m::k_md`},
}

// c20Few are the queries used in long histories
var c20Few = []query{{Key: `x`}, {Key: `lo`}, {Key: `k_last`}, {Key: `ref`}, {`h`, `deep`}, {Key: `m::x`}}

// c20During are the queries used when a file changes during the lookup
var c20During = []query{{Key: `x`}, {`arr`, `unique`}, {Key: `k_last`}, {Key: `ref`}, {`h`, `deep`}, {Key: `m::x`}}

// c20Mutable are the files that change
var c20Mutable = []int{c20A, c20J, c20H, c20G, c20P2, c20Mp, c20Last, c20Main, c20ModData, c20ModCfg, c20Single}

func c20Enum(tier string, yield func(interface{}) bool) {
	// one or two faults
	var all []c20Fault
	for fi, f := range c20Files {
		for si := range c20States(f.kind) {
			all = append(all, c20Fault{File: fi, State: si})
		}
	}
	if !yield(c20Case{}) {
		return
	}
	// states that are enough of in combination with others
	few := func(f int) (ix []int) {
		for si, s := range c20States(c20Files[f].kind) {
			if tier == `thorough` || s.how != `` || s.name == `list` || s.name == `unclosed` || s.name == `empty` {
				ix = append(ix, si)
			}
		}
		return
	}
	isFew := func(f c20Fault) bool {
		for _, si := range few(f.File) {
			if si == f.State {
				return true
			}
		}
		return false
	}
	for i, f := range all {
		if !yield(c20Case{Faults: []c20Fault{f}}) {
			return
		}
		for _, g := range all[i+1:] {
			if !isFew(f) || !isFew(g) {
				continue
			}
			if f.File != g.File && f.State+g.State > 0 && !(c20Files[f.File].kind == `modpath` && c20Files[g.File].kind == `mod`) {
				if !yield(c20Case{Faults: []c20Fault{f, g}}) {
					return
				}
			}
		}
	}
	// histories, including those where nothing changes
	for _, fi := range c20Mutable {
		n := len(c20States(c20Files[fi].kind))
		for _, way := range []string{``, `invocation`} {
			if !sequences(n, 2, pick(tier, 2, 3), func(ix []int) bool {
				return yield(c20Case{Faults: []c20Fault{{File: fi, State: ix[0]}}, Then: append([]int{}, ix[1:]...), Way: way})
			}) {
				return
			}
		}
		// the longer ones where the states are few
		short := 5
		if !sequences(short, 3, pick(tier, 4, 5), func(ix []int) bool {
			return yield(c20Case{Faults: []c20Fault{{File: fi, State: c20Short(fi, ix[0])}}, Then: c20ShortAll(fi, ix[1:])})
		}) {
			return
		}
		if fi == c20Single {
			continue
		}
		fs := few(fi)
		if !product(func(ix []int) bool {
			return yield(c20Case{Faults: []c20Fault{{File: fi, State: fs[ix[0]]}}, Then: []int{fs[ix[1]]}, Way: `during`, At: ix[2], Query: ix[3]})
		}, len(fs), len(fs), 3, len(c20During)) {
			return
		}
	}
	// torn writes and bytes that are wrong
	for _, fi := range []int{c20A, c20J, c20G, c20Last, c20Main, c20ModCfg, c20ModData, c20Single} {
		o, n := c20Text(c20Files[fi], false), c20Text(c20Files[fi], true)
		text := func(s string) bool { return yield(c20Case{Faults: []c20Fault{{File: fi, State: -1, Text: s}}}) }
		for _, p := range [][2]string{{o, ``}, {n, ``}, {o, n}, {n, o}} {
			for i := 0; i <= len(p[0]); i++ {
				rest := ``
				if i < len(p[1]) {
					rest = p[1][i:]
				}
				if !text(p[0][:i]+rest) || rest != `` && !text(p[0][:i]+strings.Repeat("\x00", len(rest))) {
					return
				}
			}
		}
		bs := []string{"\x00", "\xff", "\n", "\t", `"`, `{`, `]`, `}`, `:`, `,`, ``}
		for i := 0; i < len(o); i++ {
			for _, b := range bs {
				if !text(o[:i] + b + o[i+1:]) {
					return
				}
				if len(b) == 1 && !text(o[:i]+b+o[i:]) {
					return
				}
			}
		}
		for _, b := range append(bs, ` `, `x`, `{}`, `null`, `---`, o, n) {
			for i := 1; i <= 4 && b != ``; i++ {
				if !text(o+strings.Repeat(b, i)) || !text(strings.Repeat(b, i)+o) {
					return
				}
			}
		}
	}
}

// c20Short maps an index to one of a few important states
func c20Short(file, i int) int {
	ss := c20States(c20Files[file].kind)
	for si, s := range ss {
		if s.name == []string{`good`, `missing`, `list`, `good2`, `unclosed`}[i] {
			return si
		}
	}
	panic(i)
}

func c20ShortAll(file int, ix []int) []int {
	r := make([]int, len(ix))
	for i := range ix {
		r[i] = c20Short(file, ix[i])
	}
	return r
}

func c20Text(f c20File, second bool) string {
	if strings.HasSuffix(f.kind, `config`) {
		return c20Config(f, second).YAML()
	}
	return model.Flow(c20Data(f.path, second))
}

// c20World is the model of the files in the given states. It returns false if the outcome isn't decided
func c20World(b *build, faults []c20Fault, host string) (*model.World, bool) {
	w := *b.world
	w.Configs, w.Data, w.Bad = map[string]*model.Config{}, map[string]*model.M{}, map[string]bool{}
	fs := map[string]c20Fault{}
	for _, f := range faults {
		fs[c20Files[f.File].path] = f
	}
	for _, fi := range []int{c20Main, c20ModCfg} {
		if _, ok := fs[c20Files[fi].path]; !ok {
			w.Configs[theFS.path(c20Files[fi].path)] = c20Config(c20Files[fi], false)
		}
	}
	for _, p := range c20Good {
		if _, ok := fs[p]; !ok {
			w.Data[theFS.path(p)] = c20Data(p, false)
		}
	}
	vars := model.NewM(`host`, host, `names`, model.List{`u`, `v`})
	w.Scope = func(n string) (model.Val, bool) { return vars.Get(n) }
	for _, f := range faults {
		file := c20Files[f.File]
		p := theFS.path(file.path)
		s := c20State{text: f.Text}
		if f.State >= 0 {
			s = c20States(file.kind)[f.State]
		}
		if file.kind == `modpath` || file.kind == `mod` {
			// A directory that isn't there is nothing to search, one that can't be searched is an error
			if s.how == `permdir` || file.kind == `modpath` && s.how == `` {
				cfg := theFS.path(`mods0/m/hiera.yaml`)
				w.Configs[cfg], w.Bad[cfg] = &model.Config{}, true
			}
			continue
		}
		isCfg := strings.HasSuffix(file.kind, `config`)
		good := func(second bool) {
			if isCfg {
				w.Configs[p] = c20Config(file, second)
			} else {
				w.Data[p] = c20Data(file.path, second)
			}
		}
		bad := func() {
			w.Bad[p] = true
			if isCfg {
				w.Configs[p] = nil
			} else {
				w.Data[p] = nil
			}
		}
		switch s.how {
		case `good`, `link`:
			good(s.how == `link`)
		case `good2`:
			good(true)
		case `missing`, `dangling`:
		case `dir`:
			if !strings.HasPrefix(file.path, `data/g/`) {
				bad()
			}
		case `perm`:
			bad()
		default:
			switch s.text {
			case c20Text(file, false), c20Text(file, false) + "\n":
				good(false)
				continue
			case c20Text(file, true):
				good(true)
				continue
			}
			format := `yaml`
			if file.kind == `json` {
				format = `json`
			}
			v, err := c17Decode(format, []byte(s.text))
			m, ok := v.(*model.M)
			switch {
			case err != nil && strings.HasPrefix(err.Error(), `duplicate`):
				return nil, false // It's not decided if this is well formed
			case format == `yaml` && err != nil && strings.HasPrefix(err.Error(), `more than`), bytes.Contains([]byte(s.text), []byte("\n...")), bytes.Contains([]byte(s.text), []byte("\n---")):
				return nil, false
			case err != nil || !ok:
				bad()
			case isCfg && f.State < 0:
				return nil, false // The details of configurations are not decided here
			case isCfg:
				bad()
			case !c20Plain(m):
				return nil, false
			default:
				w.Data[p] = m
			}
		}
	}
	return &w, true
}

// c20Plain is true for data that doesn't have anything that this property doesn't judge
func c20Plain(v model.Val) bool {
	switch v := v.(type) {
	case model.List:
		for _, e := range v {
			if !c20Plain(e) {
				return false
			}
		}
	case *model.M:
		for _, e := range v.E {
			if _, ok := e.K.(string); !ok || !c20Plain(e.V) {
				return false
			}
			if e.K == `lookup_options` {
				lo, ok := e.V.(*model.M)
				if !ok {
					return false
				}
				for _, o := range lo.E {
					if _, ok := o.V.(*model.M); !ok {
						return false
					}
				}
			}
		}
	case string:
		return !strings.ContainsAny(v, "%\ufffd\x00") || v == `<%{lookup('k_last')}>`
	case model.Other:
		return false
	}
	return true
}

// c20Set puts a file in the given state
func c20Set(f c20Fault) {
	file := c20Files[f.File]
	p := theFS.path(file.path)
	c20Remove(p)
	s := c20State{text: f.Text}
	if f.State >= 0 {
		s = c20States(file.kind)[f.State]
	}
	must(os.MkdirAll(filepath.Dir(p), 0755))
	write := func(p, text string) { must(os.WriteFile(p, []byte(text), 0644)) }
	switch s.how {
	case ``:
		write(p, s.text)
	case `good`:
		write(p, c20Text(file, false))
	case `good2`:
		write(p, c20Text(file, true))
	case `missing`:
	case `dir`:
		must(os.Mkdir(p, 0755))
	case `permdir`:
		must(os.Mkdir(p, 0))
	case `dangling`:
		must(os.Symlink(theFS.path(`nowhere`), p))
	case `link`:
		t := p + `.target`
		write(t, c20Text(file, true))
		must(os.Symlink(t, p))
	case `perm`:
		write(p, c20Text(file, false))
		must(os.Chmod(p, 0))
	default:
		panic(s.how)
	}
}

func c20Remove(p string) {
	must(os.RemoveAll(p))
	must(os.RemoveAll(p + `.target`))
}

// c20Unprivileged is how permissions of files are made to matter
var c20Unprivileged bool

func c20Setup(w *runner.W) {
	setupFS(w)
	// The scratch directory must be searchable for all
	for d := theFS.root; d != `/` && d != os.TempDir() && d != `.`; d = filepath.Dir(d) {
		if fi, err := os.Stat(d); err != nil || fi.Mode().Perm()&5 == 5 {
			continue
		}
		_ = os.Chmod(d, 0755)
	}
	p := theFS.path(`probe`)
	must(os.WriteFile(p, nil, 0644))
	ok, denied := false, false
	unprivileged(func() {
		_, err := os.ReadFile(p)
		ok = err == nil
	})
	must(os.Chmod(p, 0))
	unprivileged(func() {
		_, err := os.ReadFile(p)
		denied = os.IsPermission(err)
	})
	must(os.Remove(p))
	c20Unprivileged = ok && denied
}

// isUnprivileged is true while the current go routine has no special access to files
var isUnprivileged bool

func setfsid(id int) {
	isUnprivileged = id != 0
	if os.Geteuid() != 0 {
		return
	}
	set := func(nr uintptr) { _, _, _ = syscall.RawSyscall(nr, uintptr(id), 0, 0) }
	if id == 0 {
		set(syscall.SYS_SETFSUID)
		set(syscall.SYS_SETFSGID)
	} else {
		set(syscall.SYS_SETFSGID)
		set(syscall.SYS_SETFSUID)
	}
}

// unprivileged calls the given function in a thread that has no special access to files
func unprivileged(f func()) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	setfsid(65534)
	defer setfsid(0)
	f()
}

func privileged(f func()) {
	if isUnprivileged {
		setfsid(0)
		defer setfsid(65534)
	}
	f()
}

// c20Lookup makes a lookup, and reports failures that aren't errors
func c20Lookup(w *runner.W, q query, iv api.Invocation) outcome {
	w.Eval(1)
	return catch(func() (v dgo.Value) {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case error, string:
				panic(r)
			default:
				w.Fail("lookup %s crashes: %v", q, r)
			}
		}()
		return hiera.Lookup2(iv, []string{q.Key}, nil, nil, nil, nil, mergeOpt(q.Merge), nil)
	})
}

func c20Check(w *runner.W, ci interface{}) {
	c := ci.(c20Case)
	perm := false
	uses := func(f c20Fault) {
		if f.State >= 0 {
			perm = perm || strings.HasPrefix(c20States(c20Files[f.File].kind)[f.State].how, `perm`)
		}
	}
	for _, f := range c.Faults {
		uses(f)
	}
	for _, s := range c.Then {
		uses(c20Fault{File: c.Faults[0].File, State: s})
	}
	if perm {
		if !c20Unprivileged {
			w.Count(`skipped, no way to be unprivileged`, 1)
			return
		}
		unprivileged(func() { c20Run(w, c) })
		return
	}
	c20Run(w, c)
}

func c20Run(w *runner.W, c c20Case) {
	b := newBuild()
	b.world.Mux, b.world.Top = true, []string{`config`, `module`}
	b.world.ModulePath = []string{theFS.path(`mods0`), theFS.path(`mods`)}
	calls := 0
	mutation := func() {}
	b.fn(`mutate`, `lookup_key`, func(*model.Ctx, *model.M, string) model.Found { return model.NotFound })
	b.called = func(string, string) {
		if calls == c.At {
			mutation()
		}
		calls++
	}
	files := map[string]string{}
	for _, p := range c20Good {
		files[p] = model.Flow(c20Data(p, false))
	}
	for _, fi := range []int{c20Main, c20ModCfg} {
		files[c20Files[fi].path] = c20Text(c20Files[fi], false)
	}
	for _, f := range c.Faults {
		delete(files, c20Files[f.File].path)
	}
	privileged(func() {
		theFS.set(files)
		for _, f := range c.Faults {
			c20Set(f)
		}
	})
	defer privileged(func() {
		for _, f := range c.Faults {
			c20Remove(theFS.path(c20Files[f.File].path))
		}
	})
	for _, f := range c.Faults {
		if f.File == c20Single {
			c20RunSingle(w, c)
			return
		}
	}
	describe := func(then int) string {
		var ss []string
		for _, f := range c.Faults {
			s := c20State{text: f.Text}
			if f.State >= 0 {
				s = c20States(c20Files[f.File].kind)[f.State]
			}
			ss = append(ss, fmt.Sprintf("%s is %s %q %s", c20Files[f.File].path, s.name, s.text, s.how))
		}
		for _, s := range c.Then[:then] {
			ss = append(ss, `then `+c20States(c20Files[c.Faults[0].File].kind)[s].name)
		}
		return strings.Join(ss, "\n")
	}
	scope := func(host string) interface{} {
		if host == `` {
			host = `h1`
		}
		return vf.Map(`host`, host, `names`, vf.Strings(`u`, `v`))
	}
	withSession(b.top(), b.options(), func(s api.Session) {
		switch {
		case len(c.Then) == 0:
			hosts, qs := []string{`h1`, `h2`, `h3`}, c20Queries
			if w.Tier == `quick` && (len(c.Faults) > 1 || len(c.Faults) == 1 && c.Faults[0].State < 0) {
				hosts, qs = hosts[:1], c20Few
			}
			for _, host := range hosts {
				mw, ok := c20World(b, c.Faults, host)
				if !ok {
					w.Count(`undecided`, 1)
				}
				for _, q := range qs {
					got := c20Lookup(w, q, s.Invocation(scope(host), nil))
					if !ok {
						continue
					}
					want := q.model(mw)
					w.Outcome(host, q, want, len(c.Faults))
					if got.class() != want.class() {
						w.Fail("lookup %s, host %s\n got: %s\nwant: %s\n%s", q, host, got, want, describe(0))
					}
				}
			}
		case c.Way == `during`:
			q := c20During[c.Query]
			next := c20Fault{File: c.Faults[0].File, State: c.Then[0]}
			// The state in which the session is entered is the first one. It's unknown which of them the lookup sees
			mutation = func() { privileged(func() { c20Set(next) }) }
			got := c20Lookup(w, q, s.Invocation(scope(``), nil))
			wants := c20Wants(b, q, true, c.Faults[0], next)
			w.Outcome(q, c.At, got.class())
			if !wants[got.class()] {
				w.Fail("lookup %s, with a change in call %d of the function\n got: %s\nwant: %v\n%s", q, c.At, got, keysOf(wants), describe(1))
			}
			if calls <= c.At {
				w.Count(`histories where the change is too late`, 1)
				return
			}
			// The next lookup sees the new state, but perhaps with the old configuration
			got = c20Lookup(w, q, s.Invocation(scope(``), nil))
			wants = c20Wants(b, q, true, next)
			if c20Files[next.File].kind != `yaml` && c20Files[next.File].kind != `json` {
				wants = c20Wants(b, q, true, c.Faults[0], next)
			}
			if !wants[got.class()] {
				w.Fail("lookup %s, after a change in call %d of the function\n got: %s\nwant: %v\n%s", q, c.At, got, keysOf(wants), describe(1))
			}
		default:
			cur := c.Faults[0]
			var seen []c20Fault // what the session may remember
			iv := s.Invocation(scope(``), nil)
			isCfg := strings.HasSuffix(c20Files[cur.File].kind, `config`)
			qs := c20Queries
			if len(c.Then) > 1 || w.Tier == `quick` {
				qs = c20Few
			}
			for i := 0; ; i++ {
				if i > 0 {
					cur = c20Fault{File: cur.File, State: c.Then[i-1]}
					privileged(func() { c20Set(cur) })
					if c.Way == `` {
						iv = s.Invocation(scope(``), nil)
					}
				}
				st := c20States(c20Files[cur.File].kind)[cur.State]
				w.State(fmt.Sprint(c.Way, cur.File, st.name, len(seen)))
				w.Transition(1)
				for _, q := range qs {
					got := c20Lookup(w, q, iv)
					wants := c20Wants(b, q, i > 0, append([]c20Fault{cur}, seen...)...)
					w.Outcome(q, got.class(), c.Way)
					if !wants[got.class()] {
						w.Fail("lookup %s\n got: %s\nwant: %v\n%s", q, got, keysOf(wants), describe(i))
					}
				}
				// Configurations are retained for as long as the session, and data for as long as the invocation. Failures are not
				// retained by anything
				if (isCfg || c.Way == `invocation`) && !c20Fails(b, cur) {
					seen = append(seen, cur)
					if isCfg && c.Way == `` {
						// only the first one that isn't an error can be remembered
						seen = seen[:1]
					}
				}
				if i == len(c.Then) {
					break
				}
			}
		}
	})
}

// c20Fails is true if nothing can be remembered from the given state
func c20Fails(b *build, f c20Fault) bool {
	mw, _ := c20World(b, []c20Fault{f}, `h1`)
	return mw.Bad[theFS.path(c20Files[f.File].path)]
}

// c20Wants returns the possible outcomes given that the state is one of those given
func c20Wants(b *build, q query, later bool, fs ...c20Fault) map[string]bool {
	r := map[string]bool{}
	for _, f := range fs {
		mw, ok := c20World(b, []c20Fault{f}, `h1`)
		if !ok {
			panic(`undecided`)
		}
		r[q.model(mw).class()] = true
		if len(fs) > 1 && f.File == c20G && c20States(`yaml`)[f.State].how == `dir` {
			r[`error`] = true // it was not a directory when it was found
		}
		if (len(fs) > 1 || later) && f.File == c20ModCfg && c20States(`modconfig`)[f.State].how == `missing` {
			// The module was there, so it's a module without a configuration
			mw.Configs[theFS.path(c20Files[f.File].path)] = &model.Config{}
			r[q.model(mw).class()] = true
		}
	}
	return r
}

// c20RunSingle makes lookups using the function that finds all of its data in one file
func c20RunSingle(w *runner.W, c c20Case) {
	for _, f := range c.Faults {
		if f.File != c20Single {
			return // nothing else is read
		}
	}
	b := newBuild()
	model1 := func(f c20Fault, q query) (outcome, bool) {
		mw, ok := c20World(b, []c20Fault{f}, ``)
		if !ok {
			return outcome{}, false
		}
		p := theFS.path(`single.yaml`)
		if mw.Bad[p] {
			return outcome{err: `bad`}, true
		}
		if d := mw.Data[p]; d != nil {
			v, ok := d.Get(q.Key)
			return outcome{Found: model.Found{V: v, OK: ok}}, true
		}
		return outcome{}, true
	}
	withSession(sdk.LookupKey(provider.YamlLookupKey), map[string]interface{}{`path`: theFS.path(`single.yaml`)}, func(s api.Session) {
		cur := c.Faults[0]
		var first *c20Fault
		for i := 0; ; i++ {
			if i > 0 {
				cur = c20Fault{File: cur.File, State: c.Then[i-1]}
				privileged(func() { c20Set(cur) })
			}
			for _, q := range []query{{Key: `x`}, {Key: `k_single`}, {Key: `nope`}} {
				got := c20Lookup(w, q, s.Invocation(nil, nil))
				want, ok := model1(cur, q)
				if !ok {
					continue
				}
				w.Outcome(q, want)
				if got.class() == want.class() {
					continue
				}
				// The data is cached
				if first != nil {
					if want, _ = model1(*first, q); got.class() == want.class() {
						continue
					}
				}
				w.Fail("lookup %s\n got: %s\nwant: %s\nstates %v %v", q, got, want, c.Faults, c.Then)
			}
			if first == nil && cur.State >= 0 {
				if o, _ := model1(cur, query{Key: `x`}); o.err == `` {
					f := cur
					first = &f
				}
			}
			if i == len(c.Then) {
				break
			}
		}
	})
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C20`,
		Level: `fault_enumeration`,
		Rule:  `Each file that a lookup can need (configurations, yaml and json data of all kinds of locations, modules, directories of the module path) in each state that it can be in, alone and in pairs; all histories of states of one file in one session, with changes between and during lookups; all torn writes; each byte replaced, and bytes inserted everywhere. Non-trivial when a file is not in its usual state.`,
		Assumptions: []string{
			`a file that cannot be found because a directory can't be searched, or because of a loop of symbolic links, is the same as a missing one`,
			`only the first document of a YAML file is used, and it isn't decided if duplicate keys are an error`,
			`a configuration can be retained for as long as the session, and data for as long as the invocation, when it could be loaded`,
			`what a configuration with a changed byte means is decided by C11`,
		},
		Enumerate: c20Enum,
		Check:     c20Check,
		Setup:     c20Setup,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`files`: len(c20Files), `states`: len(c20YamlStates) + len(c20JSONStates) + len(c20ConfigStates), `simultaneous faults`: 2, `length of histories`: pick(tier, 2, 3), `length of histories with five states`: pick(tier, 4, 5)}
		},
	}
})
