package props

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

// instrumentFile returns the source with imports of package sync and sync/atomic replaced, or nil if there are none, and
// the name of the package replaced if a name is given
func instrumentFile(path, pkg string) []byte {
	src, err := ioutil.ReadFile(path)
	must(err)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ImportsOnly)
	if err != nil {
		return nil // the compiler has something to say about that
	}
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	at := func(p token.Pos) int { return fs.Position(p).Offset }
	if pkg != `` {
		edits = append(edits, edit{at(f.Name.Pos()), at(f.Name.End()), pkg})
	}
	for _, is := range f.Imports {
		name, repl := ``, ``
		switch is.Path.Value {
		case `"sync"`:
			name, repl = `sync `, `"verif/mc/vsync"`
		case `"sync/atomic"`:
			name, repl = `atomic `, `"verif/mc/vatomic"`
		default:
			continue
		}
		if is.Name != nil {
			name = ``
		}
		edits = append(edits, edit{at(is.Path.Pos()), at(is.Path.End()), name + repl})
	}
	if len(edits) == 0 {
		return nil
	}
	for i := len(edits) - 1; i >= 0; i-- {
		e := edits[i]
		src = append(append(append([]byte{}, src[:e.from]...), e.text...), src[e.to:]...)
	}
	return src
}

// commandFunc returns a call of the function that returns a command and has no parameters
func commandFunc(path string) string {
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
	if err != nil {
		return ``
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || len(fd.Type.Params.List) > 0 || fd.Type.Results == nil || len(fd.Type.Results.List) != 1 {
			continue
		}
		if st, ok := fd.Type.Results.List[0].Type.(*ast.StarExpr); ok {
			if se, ok := st.X.(*ast.SelectorExpr); ok && se.Sel.Name == `Command` {
				return fd.Name.Name + `()`
			}
		}
	}
	return ``
}

func goFiles(root string, f func(path string)) {
	must(filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); path != root && (n == `.git` || n == `testdata` || n == `vendor`) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, `.go`) && !strings.HasSuffix(path, `_test.go`) {
			f(path)
		}
		return nil
	}))
}

// poolSource is a sync.Pool that never reuses anything
const poolSource = `package sync

type Pool struct {
	noCopy noCopy
	New    func() any
}

func (p *Pool) Put(x any) {}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
`

// instrumented builds the worker with all synchronization in hiera and dgo done by package vsync and with the race
// detector. The server, which is a main package, is made available as package restpkg
func instrumented(dir string) string {
	dir = filepath.Join(dir, `instrumented`)
	must(os.MkdirAll(dir, 0755))
	mc := os.Getenv(`VERIF_DIR`) + `/mc`
	out := func(args ...string) string {
		cmd := exec.Command(args[0], args[1:]...)
		cmd.Dir = mc
		cmd.Stderr = os.Stderr
		b, err := cmd.Output()
		must(err)
		return strings.TrimSpace(string(b))
	}
	overlay := map[string]string{}
	n := 0
	replace := func(path, with string, src []byte) {
		n++
		to := filepath.Join(dir, `overlay`+strconv.Itoa(n)+`.go`)
		must(ioutil.WriteFile(to, src, 0644))
		overlay[with] = to
		_ = path
	}
	command := ``
	goFiles(`/repo`, func(path string) {
		if src := instrumentFile(path, ``); src != nil {
			replace(path, path, src)
		}
		if strings.HasPrefix(path, `/repo/hieraserver/rest/`) && filepath.Dir(path) == `/repo/hieraserver/rest` {
			if src := instrumentFile(path, `restpkg`); src != nil {
				replace(path, filepath.Join(mc, `restpkg`, filepath.Base(path)), src)
				if c := commandFunc(path); c != `` {
					command = c
				}
			}
		}
	})
	cf := "package restpkg\n\nimport \"github.com/spf13/cobra\"\n\n// VerifCommand creates the command\nfunc VerifCommand() *cobra.Command {\n\treturn " + command + "\n}\n"
	if command == `` {
		cf = strings.Replace(cf, "return ", "return nil", 1)
	}
	replace(``, filepath.Join(mc, `restpkg`, `verif_command.go`), []byte(cf))
	// Pools order go routines by accident, and at random, when the race detector is used
	replace(``, filepath.Join(out(`go`, `env`, `GOROOT`), `src`, `sync`, `pool.go`), []byte(poolSource))
	// a copy of dgo
	mod, sum := filepath.Join(dir, `go.mod`), filepath.Join(dir, `go.sum`)
	ms, err := ioutil.ReadFile(filepath.Join(mc, `go.mod`))
	must(err)
	ss, err := ioutil.ReadFile(filepath.Join(mc, `go.sum`))
	must(err)
	must(ioutil.WriteFile(sum, ss, 0644))
	must(ioutil.WriteFile(mod, ms, 0644))
	dgoDir := out(`go`, `list`, `-modfile=`+mod, `-m`, `-f`, `{{.Dir}}`, `github.com/lyraproj/dgo`)
	dgo := filepath.Join(dir, `dgo`)
	must(filepath.Walk(dgoDir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dgoDir, path)
		to := filepath.Join(dgo, rel)
		if fi.IsDir() {
			return os.MkdirAll(to, 0755)
		}
		if strings.HasSuffix(path, `_test.go`) {
			return nil
		}
		var bs []byte
		if strings.HasSuffix(path, `.go`) {
			bs = instrumentFile(path, ``)
		}
		if bs == nil {
			if bs, err = ioutil.ReadFile(path); err != nil {
				return err
			}
		}
		return ioutil.WriteFile(to, bs, 0644)
	}))
	must(ioutil.WriteFile(mod, append(ms, "\nreplace github.com/lyraproj/dgo => "+dgo+"\n"...), 0644))
	oj, err := json.Marshal(map[string]interface{}{`Replace`: overlay})
	must(err)
	of := filepath.Join(dir, `overlay.json`)
	must(ioutil.WriteFile(of, oj, 0644))
	exe := filepath.Join(dir, `worker`)
	cmd := exec.Command(`go`, `build`, `-race`, `-tags`, `instrumented`, `-modfile=`+mod, `-overlay=`+of, `-gcflags=verif/mc/vsync=-race=false -l`, `-o`, exe, `.`)
	cmd.Dir = mc
	if bs, err := cmd.CombinedOutput(); err != nil {
		os.Stderr.Write(bs)
		panic(err)
	}
	return exe
}
