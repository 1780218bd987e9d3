// Package jsonschema is an evaluator for JSON schemas (draft 4, and the keywords that later drafts added that are trivial)
package jsonschema

import (
	"fmt"
	"math"
	"regexp"
	"strings"

	"verif/mc/model"
)

// Schema is a document that contains a schema
type Schema struct {
	root  model.Val
	draft int
}

// New creates a schema and panics when it uses keywords that are not known
func New(root model.Val) *Schema {
	s := &Schema{root, 4}
	if m, ok := root.(*model.M); ok {
		if v, ok := m.Get(`$schema`); ok && !strings.Contains(fmt.Sprint(v), `draft-04`) {
			s.draft = 6
		}
	}
	return s
}

// Valid returns true if the given value, which must be something that JSON can express, is valid
func (s *Schema) Valid(v model.Val) bool {
	return s.valid(s.root, v)
}

func (s *Schema) deref(ref string) model.Val {
	if ref != `#` && !strings.HasPrefix(ref, `#/`) {
		panic(`unsupported $ref ` + ref)
	}
	c := s.root
	for _, p := range strings.Split(strings.TrimPrefix(strings.TrimPrefix(ref, `#`), `/`), `/`) {
		if p == `` {
			continue
		}
		p = strings.NewReplacer(`~1`, `/`, `~0`, `~`).Replace(p)
		m, ok := c.(*model.M)
		if ok {
			c, ok = m.Get(p)
		}
		if !ok {
			panic(`dangling $ref ` + ref)
		}
	}
	return c
}

func num(v model.Val) (float64, bool) {
	switch v := v.(type) {
	case int:
		return float64(v), true
	case float64:
		return v, true
	}
	return 0, false
}

func (s *Schema) isType(t string, v model.Val) bool {
	switch t {
	case `null`:
		return v == nil
	case `boolean`:
		_, ok := v.(bool)
		return ok
	case `integer`:
		if f, ok := v.(float64); ok && s.draft > 4 {
			return f == math.Trunc(f)
		}
		_, ok := v.(int)
		return ok
	case `number`:
		_, ok := num(v)
		return ok
	case `string`:
		_, ok := v.(string)
		return ok
	case `array`:
		_, ok := v.(model.List)
		return ok
	case `object`:
		_, ok := v.(*model.M)
		return ok
	}
	panic(`unknown type ` + t)
}

func has(m *model.M, k string) bool {
	_, ok := m.Get(k)
	return ok
}

func (s *Schema) valid(schema, v model.Val) bool {
	if b, ok := schema.(bool); ok {
		return b
	}
	sm, ok := schema.(*model.M)
	if !ok {
		panic(fmt.Sprintf(`not a schema: %v`, schema))
	}
	if r, ok := sm.Get(`$ref`); ok {
		return s.valid(s.deref(r.(string)), v)
	}
	count := func(l model.Val) (n int) {
		for _, e := range l.(model.List) {
			if s.valid(e, v) {
				n++
			}
		}
		return
	}
	obj, isObj := v.(*model.M)
	arr, isArr := v.(model.List)
	str, isStr := v.(string)
	nv, isNum := num(v)
	lim := func(c model.Val) float64 { f, _ := num(c); return f }
	for _, e := range sm.E {
		ok := true
		c := e.V
		switch e.K {
		case `title`, `$schema`, `$id`, `id`, `description`, `definitions`, `$defs`, `default`, `examples`, `format`, `$comment`,
			`then`, `else`, `exclusiveMinimum`, `exclusiveMaximum`, `patternProperties`, `additionalItems`, `readOnly`, `writeOnly`:
			// annotations, or handled below
			switch {
			case e.K == `exclusiveMinimum` && isNum && s.draft > 4:
				ok = nv > lim(c)
			case e.K == `exclusiveMaximum` && isNum && s.draft > 4:
				ok = nv < lim(c)
			case e.K == `patternProperties` && isObj:
				for _, p := range c.(*model.M).E {
					rx := regexp.MustCompile(p.K.(string))
					for _, pe := range obj.E {
						if rx.MatchString(pe.K.(string)) {
							ok = ok && s.valid(p.V, pe.V)
						}
					}
				}
			}
		case `type`:
			if l, many := c.(model.List); many {
				ok = false
				for _, t := range l {
					ok = ok || s.isType(t.(string), v)
				}
			} else {
				ok = s.isType(c.(string), v)
			}
		case `enum`:
			ok = false
			for _, x := range c.(model.List) {
				ok = ok || model.Equal(x, v)
			}
		case `const`:
			ok = model.Equal(c, v)
		case `minimum`:
			x, _ := sm.Get(`exclusiveMinimum`)
			ok = !isNum || nv > lim(c) || nv == lim(c) && x != true
		case `maximum`:
			x, _ := sm.Get(`exclusiveMaximum`)
			ok = !isNum || nv < lim(c) || nv == lim(c) && x != true
		case `multipleOf`:
			ok = !isNum || math.Mod(nv, lim(c)) == 0
		case `minLength`:
			ok = !isStr || len([]rune(str)) >= int(lim(c))
		case `maxLength`:
			ok = !isStr || len([]rune(str)) <= int(lim(c))
		case `pattern`:
			ok = !isStr || regexp.MustCompile(c.(string)).MatchString(str)
		case `minItems`:
			ok = !isArr || len(arr) >= int(lim(c))
		case `maxItems`:
			ok = !isArr || len(arr) <= int(lim(c))
		case `uniqueItems`:
			seen := map[string]bool{}
			for _, x := range arr {
				if seen[model.Canon(x)] && c == true {
					ok = false
				}
				seen[model.Canon(x)] = true
			}
		case `items`:
			for i, x := range arr {
				if l, many := c.(model.List); many {
					if i < len(l) {
						ok = ok && s.valid(l[i], x)
					} else if ai, has := sm.Get(`additionalItems`); has {
						ok = ok && s.valid(ai, x)
					}
				} else {
					ok = ok && s.valid(c, x)
				}
			}
		case `contains`:
			ok = !isArr
			for _, x := range arr {
				ok = ok || s.valid(c, x)
			}
		case `required`:
			if isObj {
				for _, k := range c.(model.List) {
					ok = ok && has(obj, k.(string))
				}
			}
		case `minProperties`:
			ok = !isObj || len(obj.E) >= int(lim(c))
		case `maxProperties`:
			ok = !isObj || len(obj.E) <= int(lim(c))
		case `properties`:
			if isObj {
				for _, p := range c.(*model.M).E {
					if x, has := obj.Get(p.K); has {
						ok = ok && s.valid(p.V, x)
					}
				}
			}
		case `propertyNames`:
			if isObj {
				for _, p := range obj.E {
					ok = ok && s.valid(c, p.K)
				}
			}
		case `additionalProperties`:
			if isObj {
				ps, _ := sm.Get(`properties`)
				pps, _ := sm.Get(`patternProperties`)
				for _, p := range obj.E {
					if m, is := ps.(*model.M); is && has(m, p.K.(string)) {
						continue
					}
					known := false
					if m, is := pps.(*model.M); is {
						for _, pp := range m.E {
							known = known || regexp.MustCompile(pp.K.(string)).MatchString(p.K.(string))
						}
					}
					ok = ok && (known || s.valid(c, p.V))
				}
			}
		case `dependencies`, `dependentRequired`, `dependentSchemas`:
			if isObj {
				for _, d := range c.(*model.M).E {
					if !has(obj, d.K.(string)) {
						continue
					}
					if l, many := d.V.(model.List); many {
						for _, k := range l {
							ok = ok && has(obj, k.(string))
						}
					} else {
						ok = ok && s.valid(d.V, v)
					}
				}
			}
		case `allOf`:
			ok = count(c) == len(c.(model.List))
		case `anyOf`:
			ok = count(c) > 0
		case `oneOf`:
			ok = count(c) == 1
		case `not`:
			ok = !s.valid(c, v)
		case `if`:
			br := `else`
			if s.valid(c, v) {
				br = `then`
			}
			if b, has := sm.Get(br); has {
				ok = s.valid(b, v)
			}
		default:
			panic(fmt.Sprintf(`unsupported keyword %v`, e.K))
		}
		if !ok {
			return false
		}
	}
	return true
}
