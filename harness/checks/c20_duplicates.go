package checks

import (
	"fmt"
	"math/rand"

	"dgoverif/mon"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/vf"
)

// nsShape describes a loader that can be made more than once
type nsShape struct {
	entries map[string]int // entries given when the loader is made
	values  int            // the finder's values, 0 when there is no finder
	nested  *nsShape       // what its namespaces are, nil when there is no creator
	child   int            // the values of the finder of a child loader, 0 when it isn't a child loader
}

func (s *nsShape) String() string {
	if s == nil {
		return `none`
	}
	return fmt.Sprintf(`{entries %v, finder %d, child %d, nested %s}`, s.entries, s.values, s.child, s.nested)
}

func (s *nsShape) make(p dgo.Loader, name string) dgo.Loader {
	m := vf.MutableMap()
	for k, v := range s.entries {
		m.Put(k, v)
	}
	finder := func(n int) dgo.Finder {
		if n == 0 {
			return nil
		}
		return func(_ dgo.Loader, k string) interface{} { return vf.Values(k, n) }
	}
	var creator dgo.NsCreator
	if s.nested != nil {
		creator = func(p dgo.Loader, name string) dgo.Loader { return s.nested.make(p, name) }
	}
	l := loader.New(p, name, m, finder(s.values), creator)
	if s.child != 0 {
		l = l.NewChild(finder(s.child), nil)
	}
	return l
}

func genShape(r *rand.Rand, depth int) *nsShape {
	s := &nsShape{entries: map[string]int{}}
	for k := r.Intn(3); k > 0; k-- {
		s.entries[fmt.Sprintf(`e%d`, r.Intn(3))] = r.Intn(2)
	}
	if r.Intn(2) == 0 {
		s.values = 1 + r.Intn(2)
	}
	if depth > 0 && r.Intn(2) == 0 {
		s.nested = genShape(r, depth-1)
	}
	if r.Intn(3) == 0 {
		s.child = 1 + r.Intn(2)
	}
	return s
}

func (s *nsShape) copy() *nsShape {
	c := *s
	c.entries = map[string]int{}
	for k, v := range s.entries {
		c.entries[k] = v
	}
	if s.nested != nil {
		c.nested = s.nested.copy()
	}
	return &c
}

// use looks up entries and namespaces, and returns what was found
func useLoader(r *rand.Rand, l dgo.Loader, s *nsShape, found map[string]dgo.Value, prefix string) {
	for k := r.Intn(3); k > 0; k-- {
		n := fmt.Sprintf(`e%d`, r.Intn(3))
		if v := l.Get(n); v != nil {
			found[prefix+n] = v
		}
	}
	if s.nested != nil {
		for k := r.Intn(2); k >= 0; k-- {
			n := fmt.Sprintf(`n%d`, r.Intn(2))
			if c := l.Namespace(n); c != nil {
				found[prefix+n+`/`] = c
				useLoader(r, c, s.nested, found, prefix+n+`/`)
			}
		}
	}
}

// c20Duplicates lets the creator of a namespace be outrun by another creation of the same namespace. The outcome must
// not depend on what the namespace has already loaded when the outrun creation ends.
func c20Duplicates(c *mon.Ctx, r *rand.Rand) {
	first := genShape(r, 2)
	second := first.copy()
	var what string
	differ := true
	switch t := r.Intn(6); {
	case t == 0 && first.values == 0:
		what = `another entry`
		second.entries[`e9`] = 1
	case t == 1 && first.values == 0 && len(first.entries) > 0:
		what = `another value`
		for k := range second.entries {
			second.entries[k] = 7
			break
		}
	case t == 3 && first.child == 0:
		what = `a child loader`
		second.child = 1
	default:
		differ = false
	}
	var l, old dgo.Loader
	found := map[string]dgo.Value{}
	n := 0
	useNew := r.Intn(2) == 0
	creator := func(p dgo.Loader, name string) dgo.Loader {
		n++
		if n > 1 {
			return first.make(p, name)
		}
		// someone else creates and uses the same namespace in the meantime
		old = l.Namespace(name)
		useLoader(r, old, first, found, ``)
		x := second.make(p, name)
		if useNew {
			useLoader(r, x, second, map[string]dgo.Value{}, ``)
		}
		return x
	}
	l = loader.New(nil, ``, nil, nil, creator)
	var got dgo.Loader
	e := mon.Catch(func() { got = l.Namespace(`ns`) })
	d := func() string {
		return fmt.Sprintf("first  %s, loaded %v\nsecond %s (%s), used %v\npanic %v", first, found, second, what, useNew, e)
	}
	c.Seen(d())
	if differ {
		if err, ok := e.(error); !ok || isRuntimeError(e) || err.Error() != `namespace "ns" is already defined` {
			c.Fail(`a namespace is replaced by a different one: `+what, "got the first: %v\n%s", got == old, d())
		}
		c.Count(`conflicts refused`, 1)
	} else {
		if e != nil {
			c.Fail(`an interchangeable creation of a namespace is refused`, "%s", d())
		}
		if got != old {
			c.Fail(`two creations of a namespace give two namespaces`, "%s", d())
		}
		c.Count(`duplicates dropped`, 1)
	}
	if l.Namespace(`ns`) != old {
		c.Fail(`the namespace that was created first is replaced`, "%s", d())
	}
	// what was loaded remains
	for k, v := range found {
		if k[len(k)-1] == '/' {
			ns := l
			for _, p := range append([]string{`ns`}, splitPath(k)...) {
				ns = ns.Namespace(p)
			}
			if ns != v {
				c.Fail(`a nested namespace is replaced`, "%s\n%s", k, d())
			}
			continue
		}
		if w := l.Load(`ns/` + k); w != v {
			c.Fail(`a loaded value is replaced`, "%s is %v, was %v\n%s", k, w, v, d())
		}
	}
}

func splitPath(k string) []string {
	var ps []string
	s := ``
	for _, x := range k {
		if x == '/' {
			ps = append(ps, s)
			s = ``
		} else {
			s += string(x)
		}
	}
	return ps
}
