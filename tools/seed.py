"""Helps planting bugs. seed(...) writes seeded/<id>/ and confirms, in scratch copies of /repo, that the change compiles, passes the tests, and
is shown by its demonstration."""
import json, os, shutil, subprocess, sys, tempfile, textwrap
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod -buildvcs=false', GOPROXY='off', GOWORK='off')
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
# Exits with 0 when the property holds and non zero otherwise. Run with cwd in the repository
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export HOME=/root GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOWORK=off
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$t/overlay.json"
cp go.mod go.sum "$t"
timeout 280 go test %(race)s-modfile="$t/go.mod" -overlay "$t/overlay.json" -vet=off -count=1 -run '^TestZZDemo$' ./%(pkg)s
'''
PRE = '''package %(name)s_test

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
%(imports)s)

var _ dgo.Value
var _ = vf.Nil
var _ = api.HieraConfig
var _ = provider.ConfigLookupKey
var _ sdk.LookupKey

func files(t *testing.T, m map[string]string) string {
	dir, err := ioutil.TempDir("", "zzdemo")
	if err != nil {
		t.Fatal(err)
	}
	for n, c := range m {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0755)
		if err = ioutil.WriteFile(p, []byte(c), 0644); err != nil {
			t.Fatal(err)
		}
	}
	return dir
}

func lookup(s api.Session, scope interface{}, key string, opts interface{}) (result string) {
	return lookupIn(s.Invocation(scope, nil), key, opts)
}

func lookupIn(iv api.Invocation, key string, opts interface{}) (result string) {
	defer func() {
		if r := recover(); r != nil {
			result = "error: " + fmt.Sprint(r)
		}
	}()
	v := hiera.Lookup(iv, key, nil, opts)
	if v == nil {
		return "not found"
	}
	return v.String()
}

func in(t *testing.T, top sdk.LookupKey, opts map[string]interface{}, m map[string]string, f func(s api.Session, dir string)) {
	dir := files(t, m)
	defer func() { _ = os.RemoveAll(dir) }()
	o := map[string]interface{}{api.HieraConfig: filepath.Join(dir, "hiera.yaml")}
	for k, v := range opts {
		o[k] = v
	}
	if _, ok := opts[provider.ModulePath]; ok {
		o[provider.ModulePath] = filepath.Join(dir, "modules")
	}
	hiera.DoWithParent(context.Background(), top, o, func(s api.Session) { f(s, dir) })
}

func eq(t *testing.T, want, got string) {
	t.Helper()
	if want != got {
		t.Errorf("want %%s, got %%s", want, got)
	}
}
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def seed(id, prop, edits, needs, breaks, demo, pkg='hiera', imports=(), raw=False, race=False, name=None):
    d = os.path.join(ROOT, id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        run(['cp', '-a', '/repo', w + '/r'], '/')
        r = w + '/r'
        for f, old, new in edits:
            s = open(os.path.join(r, f)).read()
            if s.count(old) != 1:
                print(id, 'NOT UNIQUE', f, s.count(old)); return
            open(os.path.join(r, f), 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], r).stdout
        open(d + '/patch.diff', 'w').write(diff)
        code = demo if raw else PRE % dict(name=name or os.path.basename(pkg), imports=''.join('\t"%s"\n' % i for i in imports)) + '\n' + demo
        if code is not None:
            open(d + '/demo_test.go', 'w').write(code)
            open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg, race='-race ' if race else ''))
            os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        fmt = run(['gofmt', '-l', d + '/demo_test.go'] + [os.path.join(r, f) for f, _, _ in edits], r).stdout
        b = run(['go', 'build', './...'], r)
        if b.returncode: print(id, 'BUILD FAILED', b.stdout); return
        t = run(['go', 'test', '-vet=off', '-count=1', '-tags', 'test', './...'], r)
        tf = [l for l in t.stdout.split('\n') if l.startswith('--- FAIL') or l.startswith('FAIL')]
        # demo.sh runs with the changed tree in place of /repo: cwd is what matters
        dp = run([os.path.join(d, 'demo.sh')], r)
        du = run([os.path.join(d, 'demo.sh')], '/repo')
        ok = not tf and dp.returncode != 0 and du.returncode == 0
        print(id, 'OK' if ok else 'BAD', 'tests:', tf, 'patched:', dp.returncode, 'unpatched:', du.returncode, fmt)
        if not ok:
            print(du.stdout[-3000:] if du.returncode else dp.stdout[-3000:])
        elif '[build failed]' in dp.stdout or 'setup failed' in dp.stdout:
            print('DEMO DOES NOT BUILD', dp.stdout[-2000:])
    finally:
        shutil.rmtree(w)
