package model

import (
	"fmt"
	"strconv"
)

// Err is an error of the model
type Err struct{ Kind, Msg string }

func (e *Err) Error() string { return e.Kind + `: ` + e.Msg }

func fail(kind, format string, args ...interface{}) {
	panic(&Err{kind, fmt.Sprintf(format, args...)})
}

// Try calls f and returns the model error that it gave rise to
func Try(f func()) (err *Err) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*Err); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	f()
	return
}

// Part is one segment of a key
type Part struct {
	S     string
	I     int
	Index bool
}

// Val returns the part as a value
func (p Part) Val() Val {
	if p.Index {
		return p.I
	}
	return p.S
}

// Mixed is set by ParseKey when the key has a segment which is partly quoted. What such a segment means is not specified
//
// ParseKey is the reference parser. A key is a sequence of segments separated by '.'. A segment is either quoted, using
// ' or ", in which case it is a string that can contain anything except that quote, or unquoted, in which case it must not
// be empty, is an index if it is a decimal 32-bit integer, and a string otherwise. The first segment can not be an index.
func ParseKey(s string) (parts []Part, mixed bool, err *Err) {
	rs := []rune(s)
	i := 0
	for {
		var p Part
		var text []rune
		quoted, unquoted := 0, 0
		for i < len(rs) && rs[i] != '.' {
			if rs[i] == '\'' || rs[i] == '"' {
				q := rs[i]
				i++
				quoted++
				for i < len(rs) && rs[i] != q {
					text = append(text, rs[i])
					i++
				}
				if i == len(rs) {
					return nil, mixed, &Err{`key`, `unterminated quote`}
				}
				i++
				continue
			}
			unquoted++
			text = append(text, rs[i])
			i++
		}
		if quoted > 1 || quoted == 1 && unquoted > 0 {
			mixed = true
		}
		p.S = string(text)
		if quoted == 0 {
			if p.S == `` {
				return nil, mixed, &Err{`key`, `empty segment`}
			}
			if n, e := strconv.ParseInt(p.S, 10, 32); e == nil {
				if len(parts) == 0 {
					return nil, mixed, &Err{`key`, `first segment cannot be an index`}
				}
				p.Index = true
				p.I = int(n)
			}
		}
		parts = append(parts, p)
		if i == len(rs) {
			return parts, mixed, nil
		}
		i++ // skip '.'
	}
}

// Dig finds the value that the given segments refer to
func Dig(v Val, parts []Part) (Val, bool) {
	for _, p := range parts {
		switch c := v.(type) {
		case List:
			if !p.Index || p.I < 0 || p.I >= len(c) {
				return nil, false
			}
			v = c[p.I]
		case *M:
			e, ok := c.Get(p.Val())
			if !ok {
				return nil, false
			}
			v = e
		default:
			return nil, false
		}
	}
	return v, true
}
