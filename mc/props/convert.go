package props

import (
	"fmt"
	"strconv"

	"verif/mc/model"
)

// convert is the reference for the conversions that are used in the explored lookup options. A failed conversion is
// an error.
func convert(typeAndArgs model.Val, v model.Val) model.Val {
	t := typeAndArgs
	var args model.List
	if l, ok := t.(model.List); ok {
		if len(l) == 0 {
			return v
		}
		t = l[0]
		args = l[1:]
	}
	bad := func() { panic(&model.Err{Kind: `convert`, Msg: model.Canon(typeAndArgs) + ` ` + model.Canon(v)}) }
	name, ok := t.(string)
	if !ok {
		bad()
	}
	if max := map[string]int{`string`: 1, `int`: 1}[name]; len(args) > max {
		bad()
	}
	switch name {
	case `string`:
		if len(args) == 1 {
			return fmt.Sprintf(args[0].(string), toGo(v))
		}
		switch v := v.(type) {
		case string:
			return v
		case int:
			return strconv.Itoa(v)
		case bool:
			return strconv.FormatBool(v)
		}
		return model.Str(v)
	case `int`:
		switch v := v.(type) {
		case int:
			return v
		case string:
			radix := 10
			if len(args) == 1 {
				radix = args[0].(int)
			}
			if n, err := strconv.ParseInt(v, radix, 64); err == nil {
				return int(n)
			}
		case bool:
			if v {
				return 1
			}
			return 0
		case float64:
			return int(v)
		}
		bad()
	case `sensitive`:
		if s, ok := v.(model.Sensitive); ok {
			return s
		}
		return model.Sensitive{V: v}
	}
	bad()
	return nil
}

func toGo(v model.Val) interface{} {
	switch v := v.(type) {
	case model.List:
		l := make([]interface{}, len(v))
		for i := range v {
			l[i] = toGo(v[i])
		}
		return l
	case *model.M:
		m := map[string]interface{}{}
		for _, e := range v.E {
			m[e.K.(string)] = toGo(e.V)
		}
		return m
	}
	return v
}
