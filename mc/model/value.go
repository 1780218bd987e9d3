// Package model is the reference model: a small and deliberately boring interpreter for what a lookup means. It shares no
// code with the implementation that it is compared to.
package model

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// Val is nil (null), bool, int, float64, string, List, *M, or Sensitive
type Val interface{}

// List is an ordered list of values
type List []Val

// KV is one entry of a map
type KV struct {
	K Val
	V Val
}

// M is an ordered map
type M struct{ E []KV }

// Sensitive is a wrapped value that must not be revealed
type Sensitive struct{ V Val }

// Other is a value of some kind that isn't modelled further
type Other struct{ S string }

// NewM creates a map from alternating keys and values
func NewM(kvs ...Val) *M {
	m := &M{}
	for i := 0; i+1 < len(kvs); i += 2 {
		m = m.With(kvs[i], kvs[i+1])
	}
	return m
}

// Get returns the value for the given key
func (m *M) Get(k Val) (Val, bool) {
	for _, e := range m.E {
		if Equal(e.K, k) {
			return e.V, true
		}
	}
	return nil, false
}

// With returns a copy of the map where the key has the given value
func (m *M) With(k, v Val) *M {
	n := &M{E: append([]KV{}, m.E...)}
	for i := range n.E {
		if Equal(n.E[i].K, k) {
			n.E[i].V = v
			return n
		}
	}
	n.E = append(n.E, KV{k, v})
	return n
}

// Canon returns a canonical string that is equal for equal values. The order of map entries is not significant
func Canon(v Val) string {
	switch v := v.(type) {
	case nil:
		return `null`
	case bool:
		return strconv.FormatBool(v)
	case int:
		return strconv.Itoa(v)
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1e15 {
			return fmt.Sprintf(`%.1f`, v)
		}
		return strconv.FormatFloat(v, 'g', -1, 64)
	case string:
		return strconv.Quote(v)
	case List:
		ss := make([]string, len(v))
		for i, e := range v {
			ss[i] = Canon(e)
		}
		return `[` + strings.Join(ss, `,`) + `]`
	case *M:
		ss := make([]string, len(v.E))
		for i, e := range v.E {
			ss[i] = Canon(e.K) + `:` + Canon(e.V)
		}
		sort.Strings(ss)
		return `{` + strings.Join(ss, `,`) + `}`
	case Sensitive:
		return `sensitive(` + Canon(v.V) + `)`
	case Other:
		return `other(` + v.S + `)`
	}
	panic(fmt.Sprintf(`model: unexpected %T`, v))
}

// Equal compares two values
func Equal(a, b Val) bool {
	return Canon(a) == Canon(b)
}

// FromDgo converts a value of the implementation to a value of the model
func FromDgo(v dgo.Value) Val {
	switch v := v.(type) {
	case nil:
		return nil
	case dgo.Nil:
		return nil
	case dgo.Boolean:
		return v.GoBool()
	case dgo.Integer:
		return int(v.GoInt())
	case dgo.Float:
		return v.GoFloat()
	case dgo.String:
		return v.GoString()
	case dgo.Array:
		l := make(List, 0, v.Len())
		v.Each(func(e dgo.Value) { l = append(l, FromDgo(e)) })
		return l
	case dgo.Map:
		m := &M{}
		v.EachEntry(func(e dgo.MapEntry) { m.E = append(m.E, KV{FromDgo(e.Key()), FromDgo(e.Value())}) })
		return m
	case dgo.Sensitive:
		return Sensitive{FromDgo(v.Unwrap())}
	}
	return Other{fmt.Sprintf(`%s %s`, v.Type(), v)}
}

// ToDgo converts a value of the model to a value of the implementation
func ToDgo(v Val) dgo.Value {
	switch v := v.(type) {
	case List:
		a := make([]interface{}, len(v))
		for i, e := range v {
			a[i] = ToDgo(e)
		}
		return vf.Values(a...)
	case *M:
		m := vf.MutableMap()
		for _, e := range v.E {
			m.Put(ToDgo(e.K), ToDgo(e.V))
		}
		return m
	case Sensitive:
		return vf.Sensitive(ToDgo(v.V))
	default:
		return vf.Value(v)
	}
}

// FromGo converts the values produced by decoders for JSON and YAML
func FromGo(v interface{}) Val {
	switch v := v.(type) {
	case nil, bool, int, float64, string:
		return v
	case int64:
		return int(v)
	case []interface{}:
		l := make(List, len(v))
		for i := range v {
			l[i] = FromGo(v[i])
		}
		return l
	case map[string]interface{}:
		m := &M{}
		for k, e := range v {
			m.E = append(m.E, KV{k, FromGo(e)})
		}
		return m
	case map[interface{}]interface{}:
		m := &M{}
		for k, e := range v {
			m.E = append(m.E, KV{FromGo(k), FromGo(e)})
		}
		return m
	case time.Time:
		return Other{v.String()}
	}
	return Other{fmt.Sprintf(`%T %v`, v, v)}
}

// Quote is a YAML/JSON double quoted string
func Quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r < 0x20 || r == 0x7f || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Flow renders a value in YAML flow style, which is JSON when all keys are strings
func Flow(v Val) string {
	switch v := v.(type) {
	case string:
		return Quote(v)
	case List:
		ss := make([]string, len(v))
		for i, e := range v {
			ss[i] = Flow(e)
		}
		return `[` + strings.Join(ss, `, `) + `]`
	case *M:
		ss := make([]string, len(v.E))
		for i, e := range v.E {
			ss[i] = Flow(e.K) + `: ` + Flow(e.V)
		}
		return `{` + strings.Join(ss, `, `) + `}`
	}
	return Canon(v)
}
