package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"

	"verif/mc/model"
	"verif/mc/runner"
)

// C19: values that lookup options declare as Sensitive are never revealed

type c19Case struct {
	Form   int    // form of the type
	Shape  int    // value
	Kind   string // of the entry that has it
	Merge  string `json:",omitempty"` // merge in lookup options
	Module bool   `json:",omitempty"`
	Size   int    `json:",omitempty"` // of the value
}

// c19Sized returns a value of the given shape and size
func c19Sized(shape, n int) model.Val {
	switch shape {
	case 0:
		return strings.Repeat(`zq `, n)
	case 1:
		l := model.List{}
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf(`zq%d`, i))
		}
		return l
	case 2:
		m := &model.M{}
		for i := 0; i < n; i++ {
			m.E = append(m.E, model.KV{K: fmt.Sprintf(`zqk%d`, i), V: model.List{`zq`, i}})
		}
		return m
	case 3:
		v := model.Val(`zq`)
		for i := 0; i < n; i++ {
			v = model.List{v, `zq`}
		}
		return v
	default:
		v := model.Val(`zq`)
		for i := 0; i < n; i++ {
			v = model.NewM(`zqk`, v)
		}
		return v
	}
}

const c19SizedShapes = 5

var c19Forms = []struct {
	dialect string
	t       model.Val
}{
	{``, `sensitive`}, {``, model.List{`sensitive`}}, {``, `sensitive[any]`}, {``, `sensitive[string|int|[]any|map[any]any]`},
	{`pcore`, `Sensitive`}, {`pcore`, model.List{`Sensitive`}}, {`pcore`, `Sensitive[Any]`}, {`pcore`, `Sensitive[Variant[String,Integer,Array,Hash]]`},
	{``, model.List{`sensitive[any]`}},
}

// c19Types are types that the result is asserted to have, for each dialect
var c19Types = map[string][]string{
	``:      {`string`, `any`, `sensitive`, `int`, `[]any`, `map[any]any`, `string|int|bool|[]any|map[any]any`},
	`pcore`: {`String`, `Any`, `Sensitive`, `Integer`, `Array`, `Hash`, `Variant[String,Integer,Boolean,Array,Hash]`},
}

// zq marks what must not be revealed. The value of the second source has zw instead
var c19Shapes = []model.Val{
	`zqsecret`, 9090909, model.List{`zqa`, `zqb`}, model.NewM(`zqk`, `zqv`, `n`, model.NewM(`zqd`, model.List{`zqe`})), model.List{model.List{`zqn`}, model.NewM(`k`, `zqm`)},
	`pre zq %{var} post`, `%{lookup('plain')}`, `%{alias('plain')}`, `%{alias('deep')}`, model.NewM(`k`, `%{alias('plain')}`, `%{var}`, `zq%{lookup('deep.k')}`), model.List{`%{alias('deep')}`, `%{literal('zqlit')}`},
	`%{lookup('hop')}`, `%{alias('hop')}`, model.NewM(`k`, `zqv`, `l`, model.List{`zqx`, 9090909}), `zq "quoted" and\nlines`, `%{lookup("deep")}%{scope('var')}`, true,
}

var c19Kinds = []string{`yaml_data`, `json_data`, `data_hash`, `lookup_key`, `data_dig`}

var c19Merges = []string{``, `first`, `unique`, `hash`, `deep`}

func c19Enum(tier string, yield func(interface{}) bool) {
	for _, n := range sizes(pick(tier, 66, 520)) {
		for shape := 0; shape < c19SizedShapes; shape++ {
			if n > 130 && shape > 2 {
				continue
			}
			for _, f := range []int{0, 5} {
				for _, m := range []string{``, `deep`} {
					if !yield(c19Case{Form: f, Shape: shape, Kind: c19Kinds[n%len(c19Kinds)], Merge: m, Size: n}) {
						return
					}
				}
			}
		}
	}
	product(func(ix []int) bool {
		if tier != `thorough` && ix[0] != 0 && ix[0] != 4 && (ix[2] == 1 || ix[2] == 2 || ix[3] == 1 || ix[3] == 3 || ix[4] == 1) {
			return true
		}
		return yield(c19Case{Form: ix[0], Shape: ix[1], Kind: c19Kinds[ix[2]], Merge: c19Merges[ix[3]], Module: ix[4] == 1})
	}, len(c19Forms), len(c19Shapes), len(c19Kinds), len(c19Merges), 2)
}

// c19Others are keys that refer to the sensitive one. KEY is replaced by its name
var c19Others = model.NewM(
	`str`, `x %{lookup('KEY')} y`, `hiera`, `%{hiera("KEY")}`, `al`, `%{alias('KEY')}`, `sal`, `%{strict_alias('KEY')}`, `al2`, `%{alias('al')}`, `str2`, `%{lookup('al')}`, `list`, model.List{`%{alias('KEY')}`, `%{lookup('KEY')}`},
	`map`, model.NewM(`k`, `%{alias('KEY')}`, `n`, model.NewM(`o`, model.List{`%{alias('KEY')}`})), `keyed`, model.NewM(`%{alias('KEY')}`, 1, `%{lookup('KEY')}x`, 2), `sub`, `%{lookup('KEY.k')}%{lookup('KEY.0')}`, `subal`, `%{alias('KEY.k')}`,
	`uni`, model.List{`%{alias('KEY')}`, `u`}, `dee`, model.NewM(`d`, `%{alias('KEY')}`, `e`, model.NewM(`f`, `%{alias('KEY')}`)), `conv`, `%{alias('KEY')}`, `fmt`, `%{alias('KEY')}`, `fmt2`, `%{alias('KEY')}`, `fmt3`, `%{alias('KEY')}`, `both`, `%{alias('KEY')}`, `wrapped`, model.List{`%{alias('KEY')}`})

func c19Replace(v model.Val, key string) model.Val {
	switch v := v.(type) {
	case string:
		return strings.Replace(v, `KEY`, key, -1)
	case model.List:
		r := model.List{}
		for _, e := range v {
			r = append(r, c19Replace(e, key))
		}
		return r
	case *model.M:
		r := &model.M{}
		for _, e := range v.E {
			r.E = append(r.E, model.KV{K: c19Replace(e.K, key), V: c19Replace(e.V, key)})
		}
		return r
	}
	return v
}

// second returns the value that the second source has
func c19Second(v model.Val) model.Val {
	switch v := v.(type) {
	case string:
		return strings.Replace(v, `zq`, `zw`, -1)
	case int:
		return 8080808
	case model.List:
		r := model.List{}
		for _, e := range v {
			r = append(r, c19Second(e))
		}
		return append(r, `zwmore`)
	case *model.M:
		r := &model.M{}
		for _, e := range v.E {
			r.E = append(r.E, model.KV{K: e.K, V: c19Second(e.V)})
		}
		return r.With(`zwmore`, `zwmore`)
	}
	return v
}

func c19Leaks(s string) string {
	for _, m := range []string{`zq`, `zw`, `9090909`, `8080808`} {
		if i := strings.Index(s, m); i >= 0 {
			return m
		}
	}
	return ``
}

func c19Check(w *runner.W, ci interface{}) {
	c := ci.(c19Case)
	b := newBuild()
	key := `s`
	pfx := ``
	if c.Module {
		pfx = `m::`
		key = `m::s`
	}
	form := c19Forms[c.Form]
	opt := model.NewM(`convert_to`, form.t)
	if c.Merge != `` {
		opt = opt.With(`merge`, c.Merge)
	}
	str, sens := model.Val(`string`), form.t
	if form.dialect == `pcore` {
		str = `String`
	}
	opts := model.NewM(key, opt)
	more := model.NewM(pfx+`uni`, model.NewM(`merge`, `unique`), pfx+`dee`, model.NewM(`merge`, `deep`), pfx+`conv`, model.NewM(`convert_to`, str),
		pfx+`fmt`, model.NewM(`convert_to`, model.List{str, `%v`}), pfx+`fmt2`, model.NewM(`convert_to`, model.List{str, `%s`}), pfx+`fmt3`, model.NewM(`convert_to`, model.List{str, `%q`}), pfx+`both`, model.NewM(`convert_to`, sens), pfx+`wrapped`, model.NewM(`convert_to`, sens, `merge`, `unique`))
	for _, e := range more.E {
		opts = opts.With(e.K, e.V)
	}
	var shape model.Val
	if c.Size > 0 {
		shape = c19Sized(c.Shape, c.Size)
	} else {
		shape = c19Shapes[c.Shape]
	}
	others := &model.M{}
	for _, e := range c19Others.E {
		others.E = append(others.E, model.KV{K: pfx + e.K.(string), V: c19Replace(e.V, key)})
	}
	plain := model.NewM(`plain`, `zqplain`, `deep`, model.NewM(`k`, `zqdeep`, `zqdk`, model.List{`zqdl`}), `hop`, `zq %{alias('plain')}`, `open`, `visible`, `openmap`, model.NewM(`x`, `visible %{lookup('open')}`))
	plain = plain.With(`hop`, `%{alias('plain')}`)
	base := ``
	if c.Module {
		base = `mods/m/`
	}
	top := func(m *model.M) *model.M {
		r := &model.M{}
		r.E = append(r.E, m.E...)
		return r
	}
	cfg := &model.Config{}
	src := func(n string, v model.Val) {
		data := model.NewM(key, v)
		e := model.Entry{Name: n}
		switch c.Kind {
		case `yaml_data`:
			b.data(base+`data/`+n+`.yaml`, data)
			e.Loc = &model.Loc{Kind: `path`, S: []string{n + `.yaml`}}
		case `json_data`:
			b.data(base+`data/`+n+`.json`, data)
			e.Kind, e.Func = `data_hash`, `json_data`
			e.Loc = &model.Loc{Kind: `path`, S: []string{n + `.json`}}
		case `data_hash`:
			b.fn(n, c.Kind, func(*model.Ctx, *model.M, string) model.Found { return model.Found{V: data, OK: true} })
			e.Kind, e.Func = c.Kind, n
		default:
			b.fn(n, c.Kind, func(_ *model.Ctx, _ *model.M, k string) model.Found {
				v, ok := data.Get(strings.Split(k, "\x00")[0])
				return model.Found{V: v, OK: ok}
			})
			e.Kind, e.Func = c.Kind, n
		}
		cfg.Hierarchy = append(cfg.Hierarchy, e)
	}
	src(`s1`, shape)
	src(`s2`, c19Second(shape))
	o1 := top(others).With(`lookup_options`, opts)
	b.data(base+`data/o1.yaml`, o1)
	b.data(base+`data/o2.yaml`, model.NewM(pfx+`uni`, model.List{`u`, `v`}, pfx+`dee`, model.NewM(`e`, model.NewM(`g`, 1)), pfx+`wrapped`, model.List{`zqother`}))
	for _, n := range []string{`o1`, `o2`} {
		cfg.Hierarchy = append(cfg.Hierarchy, model.Entry{Name: n, Loc: &model.Loc{Kind: `path`, S: []string{n + `.yaml`}}})
	}
	main := &model.Config{Hierarchy: []model.Entry{{Name: `plain`, Loc: &model.Loc{Kind: `path`, S: []string{`plain.yaml`}}}}}
	b.data(`data/plain.yaml`, plain)
	if c.Module {
		b.config(base+`hiera.yaml`, cfg)
		b.world.ModulePath = []string{theFS.path(`mods`)}
	} else {
		main.Hierarchy = append(main.Hierarchy, cfg.Hierarchy...)
	}
	b.config(`hiera.yaml`, main)
	b.world.Mux = true
	b.world.Top = []string{`config`, `module`}
	b.scope = model.NewM(`var`, `zqvar`)

	theFS.set(b.files)
	so := b.options()
	if form.dialect != `` {
		so[api.HieraDialect] = form.dialect
	}
	queries := []string{key, key + `.k`, key + `.0`, key + `.n`}
	for _, e := range others.E {
		queries = append(queries, e.K.(string))
	}
	queries = append(queries, pfx+`map.k`, pfx+`list.0`, pfx+`al.k`, pfx+`nokey`, pfx+`str.0`)
	withSession(provider.MuxLookupKey, so, func(s api.Session) {
		for qi, q := range queries {
			for mi, m := range []model.Val{nil, `unique`, `deep`} {
				if mi > 0 && qi > 3 && qi != 12 && qi != 14 {
					continue
				}
				get := func(ex api.Explainer) (v dgo.Value, err string) {
					o := catch(func() dgo.Value {
						v = hiera.Lookup2(s.Invocation(b.dgoScope(), ex), []string{q}, nil, nil, nil, nil, mergeOpt(m), nil)
						return v
					})
					return v, o.err
				}
				v, err := get(nil)
				w.Eval(1)
				report := func(what, text string) {
					if l := c19Leaks(text); l != `` {
						w.Fail("%s of %s (merge %v) reveals %s:\n%s\n%s", what, q, m, l, text, b.describe())
					}
				}
				if v != nil && err == `` {
					buf := &bytes.Buffer{}
					o := catch(func() dgo.Value { hiera.Render(s, hiera.Text, v, buf); return nil })
					if o.err != `` {
						w.Fail("unable to render %s as text: %s", q, o.err)
					}
					report(`the text`, buf.String())
					for _, r := range []hiera.RenderName{hiera.YAML, hiera.JSON} {
						buf := &bytes.Buffer{}
						o := catch(func() dgo.Value { hiera.Render(s, r, v, buf); return nil })
						got, e := c17Decode(string(r), buf.Bytes())
						if o.err != `` || e != nil || !model.Equal(c17Num(got, string(r)), c17Num(c17Rich(model.FromDgo(v)), string(r))) {
							w.Fail("%s rendering of %s doesn't have the value: %s %v\n%s", r, q, buf, e, o.err)
						}
					}
				}
				if mi == 0 {
					// a type that is asserted must not unwrap the value
					for _, t := range c19Types[form.dialect] {
						buf := &bytes.Buffer{}
						catch(func() dgo.Value {
							hiera.LookupAndRender(s, &hiera.CommandOptions{Type: t, RenderAs: `s`, Variables: []string{`var=zqvar`}}, []string{q}, buf)
							return nil
						})
						w.Eval(1)
						report(`text, with type `+t+`,`, buf.String())
					}
				}
				for mode := 1; mode <= 3; mode++ {
					ex := explain.NewExplainer(mode&2 != 0, mode == 2)
					v2, err2 := get(ex)
					w.Eval(1)
					if err != err2 || (v == nil) != (v2 == nil) || v != nil && !v.Equals(v2) {
						w.Fail("lookup of %s is %v %s, with explainer %v %s", q, v, err, v2, err2)
					}
					if err != `` {
						continue
					}
					report(`explanation`, fmt.Sprint(ex))
					for _, r := range []hiera.RenderName{hiera.YAML, hiera.JSON, hiera.Text} {
						if mi > 0 || r == hiera.YAML && (mode != 1 || qi > 3) || r == hiera.JSON && mode != 3 || r == hiera.Text && qi > 3 {
							continue
						}
						buf := &bytes.Buffer{}
						if o := catch(func() dgo.Value { hiera.Render(s, r, ex, buf); return nil }); o.err != `` {
							w.Fail("unable to render explanation of %s as %s: %s", q, r, o.err)
						}
						report(`explanation (`+string(r)+`)`, buf.String())
					}
					// no less than what must be hidden is explained
					if mode == 1 && q == key {
						iv := s.Invocation(b.dgoScope(), ex)
						hiera.Lookup2(iv, []string{q}, nil, nil, nil, nil, nil, nil)
						hiera.Lookup2(iv, []string{`openmap`}, nil, nil, nil, nil, nil, nil)
						if !strings.Contains(fmt.Sprint(ex), `visible visible`) {
							w.Fail("the explanation of a value that isn't sensitive hides it: %s", ex)
						}
					}
				}
				if q == key && err == `` {
					// the value as such must be available, wrapped
					sv, ok := v.(dgo.Sensitive)
					if !ok {
						w.Fail("%s is not sensitive: %v", q, v)
						continue
					}
					q2 := query{Key: q, Merge: m}
					b.world.Convert = func(t, v model.Val) model.Val {
						if model.Equal(t, form.t) {
							return model.Sensitive{V: v}
						}
						return convert(t, v)
					}
					want := q2.model(b.world)
					w.Outcome(want.class())
					if got := (outcome{Found: model.Found{V: model.FromDgo(vf.Sensitive(sv.Unwrap())), OK: true}}); got.class() != want.class() {
						w.Fail("lookup of %s\n got: %s\nwant: %s\n%s", q2, got, want, b.describe())
					}
				}
			}
		}
	})
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C19`,
		Level: `exploration`,
		Rule:  `All combinations of forms of the type, shapes of the value, kinds of the entry, merges, and main or module data. For each, all keys that refer to the value in some way are looked up and explained in all modes, and everything that is rendered is searched for marks that all parts of the value contain.`,
		Assumptions: []string{
			`messages of errors are not judged`,
			`types that contain a Sensitive without being one (such as an array of Sensitive) are not explored`,
		},
		Enumerate: c19Enum,
		Check:     c19Check,
		Setup:     setupFS,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`forms of type`: len(c19Forms), `values`: len(c19Shapes), `entries`: c19Kinds, `merges`: c19Merges, `keys that refer to it`: len(c19Others.E)}
		},
	}
})
