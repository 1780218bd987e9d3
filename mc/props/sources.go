package props

import (
	"fmt"
	"path/filepath"
	"strings"

	"verif/mc/model"
)

// srcKinds are the kinds of hierarchy entries that a source can be
var srcKinds = []string{`yaml`, `json`, `paths`, `glob`, `globs`, `mapped`, `fnhash`, `fnkey`, `fndig`, `fnkeyloc`, `uris`, `missing`, `nofunc`, `noglob`, `nomapped`, `fnhashloc`}

// source adds an entry to the hierarchy that has the given data. The name must be unique.
func (b *build) source(kind, n string, data *model.M) model.Entry {
	e := model.Entry{Name: n}
	get := func(c *model.Ctx, opts *model.M, key string) model.Found {
		v, ok := data.Get(key)
		return model.Found{V: v, OK: ok}
	}
	whole := func(c *model.Ctx, opts *model.M, key string) model.Found { return model.Found{V: data, OK: true} }
	// at guards against data being delivered for anything but the expected location
	at := func(path string, f model.Fn) model.Fn {
		return func(c *model.Ctx, opts *model.M, key string) model.Found {
			if p, ok := opts.Get(`path`); !ok || p != path {
				return model.NotFound
			}
			return f(c, opts, key)
		}
	}
	switch kind {
	case `yaml`:
		b.data(`data/`+n+`.yaml`, data)
		e.Loc = &model.Loc{Kind: `path`, S: []string{n + `.yaml`}}
	case `json`:
		b.data(`data/`+n+`.json`, data)
		e.Kind, e.Func = `data_hash`, `json_data`
		e.Loc = &model.Loc{Kind: `path`, S: []string{n + `.json`}}
	case `paths`:
		b.data(`data/`+n+`b.yaml`, data)
		e.Loc = &model.Loc{Kind: `paths`, S: []string{n + `a.yaml`, n + `b.yaml`, n + `c.yaml`}}
	case `glob`:
		b.data(`data/`+n+`/x.yaml`, data)
		e.Loc = &model.Loc{Kind: `glob`, S: []string{n + `/*.yaml`}}
	case `globs`:
		b.data(`data/`+n+`/s/x.yaml`, data)
		e.Loc = &model.Loc{Kind: `globs`, S: []string{n + `/none*.yaml`, n + `/**/*.yaml`}}
	case `mapped`:
		b.scope = b.scope.With(`mp`+n, model.List{`p`, `q`})
		b.data(`data/`+n+`q.yaml`, data)
		e.Loc = &model.Loc{Kind: `mapped_paths`, S: []string{`mp` + n, `v`, n + `%{v}.yaml`}}
	case `mappeddup`: // the same location more than once
		b.scope = b.scope.With(`mp`+n, model.List{`q`, `p`, `q`, model.List{`q`}})
		b.data(`data/`+n+`q.yaml`, data)
		e.Loc = &model.Loc{Kind: `mapped_paths`, S: []string{`mp` + n, `v`, n + `%{v}.yaml`}}
	case `pathsdup`:
		b.data(`data/`+n+`/b.yaml`, data)
		e.Loc = &model.Loc{Kind: `paths`, S: []string{n + `/b.yaml`, n + `/a.yaml`, n + `/b.yaml`}}
	case `globsdup`:
		b.data(`data/`+n+`/b.yaml`, data)
		e.Loc = &model.Loc{Kind: `globs`, S: []string{n + `/*.yaml`, n + `/b*`}}
	case `fnhash`:
		b.fn(`f`+n, `data_hash`, whole)
		e.Kind, e.Func = `data_hash`, `f`+n
	case `fnhashloc`:
		b.data(`data/`+n+`.x`, &model.M{}) // location exists. The data comes from the function
		b.fn(`f`+n, `data_hash`, at(theFS.path(`data/`+n+`.x`), whole))
		e.Kind, e.Func = `data_hash`, `f`+n
		e.Loc = &model.Loc{Kind: `path`, S: []string{n + `.x`}}
	case `fnkey`:
		b.fn(`f`+n, `lookup_key`, get)
		e.Kind, e.Func = `lookup_key`, `f`+n
	case `fndig`:
		b.fn(`f`+n, `data_dig`, get)
		e.Kind, e.Func = `data_dig`, `f`+n
	case `fnkeyloc`:
		b.data(`data/`+n+`b.x`, &model.M{})
		b.fn(`f`+n, `lookup_key`, at(theFS.path(`data/`+n+`b.x`), get))
		e.Kind, e.Func = `lookup_key`, `f`+n
		e.Loc = &model.Loc{Kind: `paths`, S: []string{n + `a.x`, n + `b.x`}}
	case `uris`:
		b.fn(`f`+n, `lookup_key`, at(`http://x/`+n, get))
		e.Kind, e.Func = `lookup_key`, `f`+n
		e.Loc = &model.Loc{Kind: `uris`, S: []string{`http://y/` + n, `http://x/` + n}}
	case `missing`:
		e.Loc = &model.Loc{Kind: `path`, S: []string{n + `.yaml`}}
	case `nofunc`:
		e.Kind, e.Func = `lookup_key`, `undefined`+n
	case `noglob`:
		e.Loc = &model.Loc{Kind: `glob`, S: []string{n + `/*.nope`}}
	case `nomapped`:
		e.Loc = &model.Loc{Kind: `mapped_paths`, S: []string{`nosuch`, `v`, n + `%{v}.yaml`}}
	default:
		panic(fmt.Sprintf(`unknown source kind %s`, kind))
	}
	return e
}

// the files a, b, and c can be consulted many times and using several entries. There's no d
var seqTokens = []string{`a`, `b`, `c`, `d`}
var seqKinds = []string{`paths`, `globs`, `mapped`, `uris`, `fnpaths`}

// sequence is an entry with the given sequence of locations
func (b *build) sequence(kind, n string, toks []string, data func(tok string) *model.M) model.Entry {
	e := model.Entry{Name: n, Loc: &model.Loc{Kind: kind}}
	for _, t := range seqTokens[:3] {
		b.data(`data/`+t+`.yaml`, data(t))
	}
	fn := func(strip func(path string) string) {
		b.fn(`f`+n, `lookup_key`, func(c *model.Ctx, opts *model.M, key string) model.Found {
			p, _ := opts.Get(`path`)
			v, ok := data(strip(p.(string))).Get(key)
			return model.Found{V: v, OK: ok}
		})
		e.Kind, e.Func = `lookup_key`, `f`+n
	}
	var mapped model.List
	for _, t := range toks {
		s := t + `.yaml`
		switch kind {
		case `globs`:
			s = map[string]string{`a`: `a.yaml`, `b`: `{a,b}.yaml`, `c`: `*.yaml`, `d`: `d*.yaml`}[t]
		case `uris`:
			s = `http://` + t
		case `mapped`:
			mapped = append(mapped, t)
			continue
		}
		e.Loc.S = append(e.Loc.S, s)
	}
	switch kind {
	case `uris`:
		fn(func(p string) string { return p[len(`http://`):] })
	case `fnpaths`:
		e.Loc.Kind = `paths`
		fn(func(p string) string { return strings.TrimSuffix(filepath.Base(p), `.yaml`) })
	case `mapped`:
		b.scope = b.scope.With(`list`+n, mapped)
		e.Loc.Kind = `mapped_paths`
		e.Loc.S = []string{`list` + n, `v`, `%{v}.yaml`}
	}
	return e
}
