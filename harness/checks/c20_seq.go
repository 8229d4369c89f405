package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/mon"
)

// The model of a loader. Values are Go values (int, string, []int, or nil for a name that was not found)
type seqNode struct {
	kind    byte // m immutable, l with a finder or a creator of namespaces, c child
	name    string
	parent  *seqNode
	real    dgo.Loader
	finder  bool
	creator bool
	entries map[string]interface{}
	find    map[string]interface{}
	create  map[string]*seqSpec
	ns      map[string]*seqNode
	inner   *seqNode
	par     *seqNode
}

// seqMulti is what a finder that gives several entries finds
type seqMulti map[string]interface{}

// seqSpec describes what a creator of namespaces creates
type seqSpec struct {
	mode    byte // p plain, n nothing, e one that is equal is created meanwhile, d a different one is created meanwhile
	entries map[string]interface{}
	find    map[string]interface{}
	create  map[string]*seqSpec
	child   bool
}

var seqNames = []string{`a`, `b`, `c`, `d`, `e f`, `x`}

type seqWorld struct {
	c     *mon.Ctx
	r     *rand.Rand
	l     *log
	nodes []*seqNode
	finds map[string]int
	seen  []string
	stop  bool
}

func (w *seqWorld) val() interface{} {
	switch w.r.Intn(4) {
	case 0:
		return w.r.Intn(3)
	case 1:
		return []int{w.r.Intn(2), w.r.Intn(2)}
	}
	return seqNames[w.r.Intn(3)]
}

func (w *seqWorld) vals(n int) map[string]interface{} {
	m := map[string]interface{}{}
	for ; n > 0; n-- {
		m[seqNames[w.r.Intn(len(seqNames))]] = w.val()
	}
	return m
}

func (w *seqWorld) findable() map[string]interface{} {
	m := w.vals(w.r.Intn(5))
	if chance(w.r, 40) {
		mm := seqMulti(w.vals(1 + w.r.Intn(3)))
		k := seqNames[w.r.Intn(len(seqNames))]
		if chance(w.r, 80) {
			mm[k] = w.val()
		}
		m[k] = mm
	}
	return m
}

func (w *seqWorld) spec(depth int) *seqSpec {
	s := &seqSpec{mode: "ppppned"[w.r.Intn(7)], entries: w.vals(w.r.Intn(3)), child: chance(w.r, 20)}
	if chance(w.r, 50) {
		s.find = w.findable()
	}
	if depth > 0 && chance(w.r, 60) {
		s.create = w.specs(depth - 1)
	}
	return s
}

func (w *seqWorld) specs(depth int) map[string]*seqSpec {
	m := map[string]*seqSpec{}
	for k := 1 + w.r.Intn(3); k > 0; k-- {
		m[seqNames[w.r.Intn(len(seqNames))]] = w.spec(depth)
	}
	return m
}

func seqMap(m map[string]interface{}) dgo.Map {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	dm := vf.MutableMap()
	for _, k := range ks {
		if is, ok := m[k].([]int); ok {
			dm.Put(k, vf.MutableValues(is[0], is[1]))
		} else {
			dm.Put(k, m[k])
		}
	}
	return dm
}

func (w *seqWorld) finderOf(n *seqNode) dgo.Finder {
	if n.find == nil {
		return nil
	}
	return func(l dgo.Loader, key string) interface{} {
		if l != n.real {
			w.c.Fail(`a finder is called with another loader`, "%v is not %v\n%s", l, n.real, w.l)
		}
		w.finds[key]++
		v, ok := n.find[key]
		if !ok {
			return nil
		}
		if m, ok := v.(seqMulti); ok {
			return loader.Multiple(seqMap(m))
		}
		if is, ok := v.([]int); ok && chance(w.r, 50) {
			return vf.MutableValues(is[0], is[1])
		}
		return v
	}
}

func (w *seqWorld) creatorOf(n *seqNode) dgo.NsCreator {
	if n.create == nil {
		return nil
	}
	return func(l dgo.Loader, name string) dgo.Loader {
		if l != n.real {
			w.c.Fail(`a creator of namespaces is called with another loader`, "%v is not %v\n%s", l, n.real, w.l)
		}
		s := n.create[name]
		if s == nil || s.mode == 'n' {
			return nil
		}
		if n.ns[name] == nil && (s.mode == 'e' || s.mode == 'd') {
			n.ns[name] = nil
			// the namespace is created while it is being created
			saved := s.mode
			s.mode = 'p'
			first := l.Namespace(name)
			s.mode = saved
			if first == nil {
				w.c.Fail(`a namespace that the creator creates is not found`, "%s\n%s", name, w.l)
			}
			if s.mode == 'd' {
				// immutable maps with different content are never interchangeable
				return loader.New(l, name, vf.Map(`never seen`, `elsewhere`), nil, nil)
			}
			x := w.node(n, name, s)
			return x.real
		}
		x := w.node(n, name, s)
		n.ns[name] = x
		return x.real
	}
}

// node creates a loader and its model
func (w *seqWorld) node(parent *seqNode, name string, s *seqSpec) *seqNode {
	n := &seqNode{kind: 'm', name: name, parent: parent, entries: map[string]interface{}{}, find: s.find, create: s.create, ns: map[string]*seqNode{}}
	for k, v := range s.entries {
		n.entries[k] = v
	}
	var pl dgo.Loader
	if parent != nil {
		pl = parent.real
	}
	em := seqMap(s.entries)
	if len(s.entries) == 0 && chance(w.r, 50) {
		em = nil
	}
	n.finder = s.find != nil
	n.creator = s.create != nil
	if n.finder || n.creator {
		n.kind = 'l'
	}
	n.real = loader.New(pl, name, em, w.finderOf(n), w.creatorOf(n))
	if em != nil && chance(w.r, 50) {
		// what becomes of the map has no effect on the loader
		em.EachEntry(func(e dgo.MapEntry) {
			if a, ok := e.Value().(dgo.Array); ok {
				a.Add(`changed`)
			}
		})
		em.Put(`x`, `changed`)
		em.Put(`new`, 1)
	}
	if s.child {
		n = w.child(n, &seqSpec{find: map[string]interface{}{`a`: `child a`, `x`: `child x`}})
	}
	return n
}

func (w *seqWorld) child(par *seqNode, s *seqSpec) *seqNode {
	in := &seqNode{kind: 'm', name: par.name, parent: par.parent, entries: map[string]interface{}{}, find: s.find, create: s.create, ns: map[string]*seqNode{}}
	in.finder = s.find != nil
	in.creator = s.create != nil
	if in.finder || in.creator {
		in.kind = 'l'
	}
	n := &seqNode{kind: 'c', name: par.name, parent: par.parent, inner: in, par: par}
	f, cr := w.finderOf(in), w.creatorOf(in)
	var ff dgo.Finder
	var fc dgo.NsCreator
	if f != nil {
		ff = func(l dgo.Loader, key string) interface{} { in.real = l; return f(l, key) }
	}
	if cr != nil {
		fc = func(l dgo.Loader, name string) dgo.Loader { in.real = l; return cr(l, name) }
	}
	n.real = par.real.NewChild(ff, fc)
	return n
}

func (n *seqNode) canon() string {
	switch n.kind {
	case 'm':
		return `M` + canonEntries(n.entries)
	case 'l':
		ks := []string{}
		for k, v := range n.ns {
			if v != nil {
				ks = append(ks, k+`=`+v.canon())
			}
		}
		sort.Strings(ks)
		return `L` + canonEntries(n.entries) + `(` + strings.Join(ks, `,`) + `)`
	}
	return `C(` + n.inner.canon() + `)(` + n.par.canon() + `)`
}

func canonEntries(m map[string]interface{}) string {
	ks := make([]string, 0, len(m))
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%s=%#v", k, v))
	}
	sort.Strings(ks)
	return `{` + strings.Join(ks, `,`) + `}`
}

func (n *seqNode) abs() string {
	a := `/` + n.name
	if n.parent != nil {
		if p := n.parent.abs(); p != `/` {
			a = p + a
		}
	}
	return a
}

type seqRefuse struct{ what string }

// get is the model of a lookup. It panics with a seqRefuse when the lookup must be refused
func (w *seqWorld) get(n *seqNode, key string) interface{} {
	if n.kind == 'c' {
		if v := w.get(n.par, key); v != nil {
			return v
		}
		return w.get(n.inner, key)
	}
	if v, ok := n.entries[key]; ok || !n.finder {
		return v
	}
	v := n.find[key]
	m, ok := v.(seqMulti)
	if !ok {
		n.entries[key] = v
		return v
	}
	if _, ok = m[key]; !ok {
		panic(seqRefuse{`doesn't contain original key`})
	}
	for k, v := range m {
		if o, ok := n.entries[k]; ok && canonEntries(map[string]interface{}{`k`: o}) != canonEntries(map[string]interface{}{`k`: v}) {
			panic(seqRefuse{`attempt to override entry`})
		}
	}
	for k, v := range m {
		n.entries[k] = v
	}
	return m[key]
}

// namespace finds the model of a namespace, assuming that it has been asked for
func (w *seqWorld) namespace(n *seqNode, name string) *seqNode {
	if name == `` {
		return n
	}
	switch n.kind {
	case 'm':
		return nil
	case 'l':
		return n.ns[name]
	}
	a, b := w.namespace(n.inner, name), w.namespace(n.par, name)
	switch {
	case a == nil:
		return b
	case b == nil:
		return a
	}
	return &seqNode{kind: 'c', name: a.name, parent: a.parent, inner: a, par: b}
}

// refuses is true when a request for the given namespace must be refused, because the creator creates two that differ
func (w *seqWorld) refuses(n *seqNode, name string) bool {
	switch n.kind {
	case 'l':
		if n.ns[name] != nil || n.create[name] == nil {
			return false
		}
		return n.create[name].mode == 'd'
	case 'c':
		return name != `` && (w.refuses(n.par, name) || w.refuses(n.inner, name))
	}
	return false
}

func (w *seqWorld) wantVal(sig string, e interface{}, g dgo.Value) {
	if e == nil {
		if g != nil {
			w.c.Fail(sig, "expected nil, got %v\n%s", g, w.l)
		}
		return
	}
	if g == nil || !g.Equals(vf.Value(e)) {
		w.c.Fail(sig, "expected %v, got %v\n%s", e, g, w.l)
	}
}

// lookup does a lookup and compares it with the model
func (w *seqWorld) lookup(n *seqNode, key string, f func() dgo.Value) {
	before := w.finds[key]
	var known bool
	if n.kind == 'l' {
		_, known = n.entries[key]
	}
	var g dgo.Value
	pe := mon.Catch(func() { g = f() })
	var e interface{}
	var ref interface{}
	func() {
		defer func() { ref = recover() }()
		e = w.get(n, key)
	}()
	if ref != nil {
		rf, ok := ref.(seqRefuse)
		if !ok {
			panic(ref)
		}
		w.l.add("   refused %s", rf.what)
		w.c.Count(`refused lookups`, 1)
		if pe == nil {
			w.c.Fail(`a lookup that must be refused is not: `+rf.what, "got %v\n%s", g, w.l)
		}
		if isRuntimeError(pe) {
			w.c.Fail(`a refused lookup is a runtime error`, "%v\n%s", pe, w.l)
		}
		w.stop = rf.what != `doesn't contain original key` || n.kind == 'c'
		return
	}
	if pe != nil {
		w.c.Fail(`a lookup panics: `+mon.PanicClass(pe), "%v\n%s", pe, w.l)
	}
	w.wantVal(`a lookup gives another value`, e, g)
	if known && w.finds[key] != before {
		w.c.Fail(`a finder is asked again for a known name`, "%s\n%s", key, w.l)
	}
	if e == nil {
		w.c.Count(`lookups that find nothing`, 1)
	} else {
		w.c.Count(`lookups that find a value`, 1)
	}
}

// ask gets a namespace and compares it with the model
func (w *seqWorld) ask(n *seqNode, name string) *seqNode {
	ref := w.refuses(n, name)
	var g dgo.Loader
	pe := mon.Catch(func() { g = n.real.Namespace(name) })
	if ref {
		w.c.Count(`refused namespaces`, 1)
		if pe == nil {
			w.c.Fail(`two different namespaces of one name are not refused`, "got %v\n%s", g, w.l)
		}
		if isRuntimeError(pe) {
			w.c.Fail(`a refused namespace is a runtime error`, "%v\n%s", pe, w.l)
		}
		return nil
	}
	if pe != nil {
		w.c.Fail(`asking for a namespace panics: `+mon.PanicClass(pe), "%v\n%s", pe, w.l)
	}
	e := w.namespace(n, name)
	if e == nil {
		if g != nil {
			w.c.Fail(`a namespace that does not exist is found`, "%s is %v\n%s", name, g, w.l)
		}
		return nil
	}
	if g == nil {
		w.c.Fail(`a namespace that exists is not found`, "%s\n%s", name, w.l)
	}
	if e.real == nil {
		e.real = g // the combination of two namespaces
	} else if e.real != g {
		w.c.Fail(`a namespace is another loader than the one created`, "%s: %v %v\n%s", name, e.real, g, w.l)
	}
	return e
}

func (w *seqWorld) step() {
	r, c := w.r, w.c
	h := r.Intn(len(w.nodes))
	n := w.nodes[h]
	key := seqNames[r.Intn(len(seqNames))]
	switch k := r.Intn(14); k {
	case 0, 1, 2:
		w.l.add("%d.Get(%q)", h, key)
		var k interface{} = key
		if chance(r, 50) {
			k = vf.String(key)
		}
		w.lookup(n, key, func() dgo.Value { return n.real.Get(k) })
	case 3:
		k := []interface{}{nil, 3, vf.Nil, 'x', vf.Integer(1), vf.Values(key), 1.5, true}[r.Intn(8)]
		w.l.add("%d.Get(%v)", h, k)
		before := fmt.Sprint(w.finds)
		var v dgo.Value
		if e := mon.Catch(func() { v = n.real.Get(k) }); e != nil {
			c.Fail(`a lookup of something that is no name panics`, "%v: %v\n%s", k, e, w.l)
		}
		if v != nil || fmt.Sprint(w.finds) != before {
			c.Fail(`a lookup of something that is no name finds a value`, "%v: %v\n%s", k, v, w.l)
		}
	case 4, 5, 6:
		// Load of a path
		segs := []string{}
		t := n
		for d := r.Intn(4); d > 0 && t != nil; d-- {
			s := seqNames[r.Intn(len(seqNames))]
			if t.kind == 'l' && len(t.create) > 0 && chance(r, 60) {
				for s = range t.create {
					break
				}
			}
			if chance(r, 5) {
				s = ``
			}
			segs = append(segs, s)
			w.l.add("%d namespace %s of %s", h, s, t.abs())
			if w.refuses(t, s) {
				_ = w.ask(t, s)
				if t.kind == 'c' {
					w.stop = true // it depends on the order which of the two is created
				}
				return
			}
			t = w.ask(t, s)
		}
		p := strings.Join(append(segs, key), `/`)
		w.l.add("%d.Load(%q)", h, p)
		if t == nil {
			if v := n.real.Load(p); v != nil {
				c.Fail(`a value is found in a namespace that does not exist`, "%v\n%s", v, w.l)
			}
			return
		}
		w.lookup(t, key, func() dgo.Value { return n.real.Load(p) })
		if t != n && len(w.nodes) < 12 && chance(r, 30) {
			w.nodes = append(w.nodes, t)
		}
	case 7:
		w.l.add("%d.Namespace(\"\")", h)
		if g := n.real.Namespace(``); g != n.real {
			c.Fail(`the namespace with an empty name is another loader`, "%v\n%s", g, w.l)
		}
	case 8:
		w.l.add("%d name, parent", h)
		if n.real.Name() != n.name || n.real.AbsoluteName() != n.abs() {
			c.Fail(`a loader has another name`, "expected %q %q, got %q %q\n%s", n.name, n.abs(), n.real.Name(), n.real.AbsoluteName(), w.l)
		}
		g := n.real.ParentNamespace()
		if n.parent == nil && g != nil || n.parent != nil && g != n.parent.real {
			c.Fail(`a loader has another parent namespace`, "%v\n%s", g, w.l)
		}
	case 9:
		m := w.nodes[r.Intn(len(w.nodes))]
		w.equality(n, m)
	case 10:
		w.recreate(h, n)
	case 11:
		if len(w.nodes) < 12 {
			s := w.spec(1)
			w.l.add("%d: child of %d: finds %v", len(w.nodes), h, s.find)
			w.nodes = append(w.nodes, w.child(n, s))
		}
	case 12:
		if len(w.nodes) < 12 {
			s := w.spec(1)
			s.mode = 'p'
			if chance(r, 50) {
				// equal content, other construction
				s.entries = map[string]interface{}{}
				for k, v := range n.entries {
					if v != nil {
						s.entries[k] = v
					}
				}
			}
			x := w.node(nil, seqNames[r.Intn(3)], s)
			w.l.add("%d: new loader %s", len(w.nodes), x.canon())
			w.nodes = append(w.nodes, x)
		}
	case 13:
		w.l.add("%d type", h)
		t := n.real.Type()
		if !t.Instance(n.real) {
			c.Fail(`the type of a loader does not accept the loader`, "%s\n%s", t, w.l)
		}
		m := w.nodes[r.Intn(len(w.nodes))]
		if e, g := n.canon() == m.canon(), t.Instance(m.real); e != g {
			c.Fail(`the type of a loader accepts a different loader`, "%v: %v %v\n%s", g, n.real, m.real, w.l)
		}
		if !t.Equals(n.real.Type()) || t.HashCode() != n.real.Type().HashCode() {
			c.Fail(`the types of one loader are not equal`, "%s\n%s", t, w.l)
		}
	}
}

func (w *seqWorld) equality(n, m *seqNode) {
	w.l.add("equality of %s and %s", n.canon(), m.canon())
	e := n.canon() == m.canon()
	if g := n.real.Equals(m.real); g != e {
		w.c.Fail(`equality of loaders is not equality of their content`, "expected %v, got %v\n%s", e, g, w.l)
	}
	if e && n.real.HashCode() != m.real.HashCode() {
		w.c.Fail(`equal loaders have different hash codes`, "%s\n%s", n.canon(), w.l)
	}
	if e && n != m {
		w.c.Count(`equal loaders compared`, 1)
	}
	for _, o := range []interface{}{nil, `x`, 1, vf.Map(), vf.Nil} {
		if n.real.Equals(o) {
			w.c.Fail(`a loader equals something else`, "%v\n%s", o, w.l)
		}
	}
}

// frozen gives the model of a loader that was created from a description: it finds nothing more
func (n *seqNode) frozen() *seqNode {
	x := *n
	x.finder, x.creator, x.find, x.create, x.real, x.parent = false, false, nil, nil, nil, nil
	x.entries = map[string]interface{}{}
	for k, v := range n.entries {
		x.entries[k] = v
	}
	if n.kind == 'c' {
		x.inner, x.par = n.inner.frozen(), n.par.frozen()
	}
	x.ns = map[string]*seqNode{}
	for k, v := range n.ns {
		if v != nil {
			x.ns[k] = v.frozen()
		}
	}
	return &x
}

// recreate creates an equal loader from the text or the description of a loader
func (w *seqWorld) recreate(h int, n *seqNode) {
	var g dgo.Value
	how := `text`
	if chance(w.r, 50) {
		s := n.real.String()
		w.l.add("%d: parse %s", h, s)
		var t dgo.Value
		if e := mon.Catch(func() { t = tf.ParseType(s) }); e != nil {
			w.c.Fail(`the text of a loader cannot be parsed`, "%v\n%s", e, w.l)
		}
		et, ok := t.(dgo.ExactType)
		if !ok {
			w.c.Fail(`the text of a loader is not the loader`, "%s\n%s", t, w.l)
		}
		g = et.ExactValue()
	} else {
		how = `description`
		nt := map[byte]dgo.NamedType{'m': loader.Type, 'l': loader.MutableType, 'c': loader.ChildType}[n.kind]
		arg := nt.ExtractInitArg(n.real).(dgo.Map)
		w.l.add("%d: new from %v", h, arg)
		if n.kind == 'm' {
			arg = vf.Map(`name`, n.name, `entries`, seqMap(n.entries))
		}
		if n.kind == 'l' {
			arg = arg.Copy(false)
		}
		g = nt.New(arg)
		if n.kind != 'c' {
			es := arg.Get(`entries`).(dgo.Map)
			if mon.Catch(func() { es.Put(`a`, `changed`); es.Put(`new`, 3) }) == nil {
				w.c.Count(`description changed after it was used`, 1)
			}
		}
	}
	gl, ok := g.(dgo.Loader)
	if !ok {
		w.c.Fail(`a loader created from its `+how+` is no loader`, "%v\n%s", g, w.l)
	}
	if !n.real.Equals(gl) || !gl.Equals(n.real) || gl.HashCode() != n.real.HashCode() {
		w.c.Fail(`a loader created from the `+how+` of a loader is not equal to it`, "%v %v\n%s", gl, n.real, w.l)
	}
	if gl.Name() != n.name {
		w.c.Fail(`a loader created from the `+how+` of a loader has another name`, "%v %v\n%s", gl, n.real, w.l)
	}
	w.c.Count(`loaders created from the `+how+` of a loader`, 1)
	if n.kind == 'c' && how == `description` {
		// the description refers to the loaders themselves
		key := seqNames[w.r.Intn(len(seqNames))]
		w.lookup(n, key, func() dgo.Value { return gl.Get(key) })
		return
	}
	x := n.frozen()
	x.real = gl
	for _, k := range seqNames {
		w.wantVal(`a loader created from the `+how+` of a loader finds another value`, w.get(x, k), gl.Get(k))
	}
}

func c20Sequential(c *mon.Ctx, r *rand.Rand) {
	w := &seqWorld{c: c, r: r, l: &log{}, finds: map[string]int{}}
	for k := 1 + r.Intn(2); k > 0; k-- {
		s := w.spec(2)
		s.mode = 'p'
		n := w.node(nil, []string{``, ``, `a`, `root`}[r.Intn(4)], s)
		w.l.add("%d: loader %q child %v entries %v finds %v", len(w.nodes), n.name, s.child, s.entries, s.find)
		w.nodes = append(w.nodes, n)
	}
	for k := 5 + r.Intn(40); k > 0 && !w.stop; k-- {
		w.step()
		c.Count(`sequential loader operations`, 1)
	}
	c.Seen(w.l.String())
}
