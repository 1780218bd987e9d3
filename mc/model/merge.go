package model

// Flatten returns a list where all nested lists have been replaced by their elements
func Flatten(l List) List {
	r := List{}
	for _, e := range l {
		if el, ok := e.(List); ok {
			r = append(r, Flatten(el)...)
		} else {
			r = append(r, e)
		}
	}
	return r
}

// Unique removes elements that are equal to an earlier element
func Unique(l List) List {
	r := List{}
	seen := map[string]bool{}
	for _, e := range l {
		c := Canon(e)
		if !seen[c] {
			seen[c] = true
			r = append(r, e)
		}
	}
	return r
}

// DeepMerge merges two values. The first has priority.
func DeepMerge(a, b Val) Val {
	switch a := a.(type) {
	case *M:
		if bm, ok := b.(*M); ok {
			r := &M{}
			for _, e := range a.E {
				v := e.V
				if bv, ok := bm.Get(e.K); ok {
					v = DeepMerge(e.V, bv)
				}
				r = r.With(e.K, v)
			}
			for _, e := range bm.E {
				if _, ok := a.Get(e.K); !ok {
					r = r.With(e.K, e.V)
				}
			}
			return r
		}
	case List:
		if bl, ok := b.(List); ok {
			switch {
			case len(bl) == 0:
				return a
			case len(a) == 0:
				return bl
			}
			return Unique(append(append(List{}, a...), bl...))
		}
	}
	return a
}

// HashMerge merges two values one level deep. The first has priority.
func HashMerge(a, b Val) Val {
	am, ok := a.(*M)
	if !ok {
		return a
	}
	bm, ok := b.(*M)
	if !ok {
		return a
	}
	r := &M{E: append([]KV{}, bm.E...)}
	for _, e := range am.E {
		r = r.With(e.K, e.V)
	}
	return r
}

// Found is the value, if any, that a source has for a key
type Found struct {
	V  Val
	OK bool
}

// NotFound is what a source that has no value for a key returns
var NotFound = Found{}

// Merge folds what a sequence of sources return. The sources are consulted in order. A source is not consulted unless
// it is needed.
func Merge(strategy string, sources []func() Found) Found {
	switch strategy {
	case `first`, `unique`, `hash`, `deep`:
	default:
		fail(`merge`, `unknown merge strategy '%s'`, strategy)
	}
	switch len(sources) {
	case 0:
		return NotFound
	case 1:
		f := sources[0]()
		if f.OK && strategy == `unique` {
			if l, ok := f.V.(List); ok {
				f.V = Unique(Flatten(l))
			}
		}
		return f
	}
	asList := func(v Val) List {
		if l, ok := v.(List); ok {
			return Flatten(l)
		}
		return List{v}
	}
	r := NotFound
	for _, s := range sources {
		f := s()
		if !f.OK {
			continue
		}
		switch {
		case strategy == `first`:
			return f
		case strategy == `unique`:
			if r.OK {
				r.V = Unique(append(append(List{}, r.V.(List)...), asList(f.V)...))
			} else {
				r = Found{Unique(asList(f.V)), true}
			}
		case !r.OK:
			r = f
		case strategy == `hash`:
			r.V = HashMerge(r.V, f.V)
		default:
			r.V = DeepMerge(r.V, f.V)
		}
	}
	return r
}
