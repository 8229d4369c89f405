package checks

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C29`, Scale: 6, Rule: `a history of batches of declarations added to an alias map, where every name of every version of the map was compared with what it was declared to denote; distinct by declarations`, Run: runC29})
}

// aWorld is an alias map under test and the model of what its names denote
type aWorld struct {
	c       *mon.Ctx
	r       *rand.Rand
	kind    int
	am      dgo.AliasMap
	lock    sync.Mutex
	bound   map[string]*rtype
	past    []*aVersion
	next    int
	pre     string
	log     []string
	batches int
	decls   []*aDecl
}

// aDecl is a name that was declared
type aDecl struct {
	batch int
	name  string
	dt    dgo.Type
	t     *rtype
}

// aVersion is an earlier version of the map
type aVersion struct {
	m     dgo.AliasMap
	types map[string]dgo.Type
}

var aKinds = []string{`Collect`, `AddAliases`, `AddDefaultAliases`, `ParseType`}

func (w *aWorld) fail(sig, format string, args ...interface{}) {
	w.c.Fail(aKinds[w.kind]+`: `+sig, "%s\n%s", fmt.Sprintf(format, args...), strings.Join(w.log, "\n"))
}

func (w *aWorld) current() dgo.AliasMap {
	if w.kind >= 2 {
		return tf.DefaultAliases()
	}
	return w.am
}

func (w *aWorld) add(f func(a dgo.AliasAdder)) {
	switch w.kind {
	case 0:
		w.am = w.am.Collect(f)
	case 1:
		tf.AddAliases(&w.am, &w.lock, f)
	default:
		tf.AddDefaultAliases(f)
	}
}

// construct creates the type of a node. Every named node but the given one becomes a reference.
func construct(t *rtype, top bool) dgo.Type {
	if t.name != `` && !top {
		return parser.NewAlias(vf.String(t.name))
	}
	ks := make([]interface{}, len(t.kids))
	for i, k := range t.kids {
		ks[i] = construct(k, false)
	}
	switch t.kind {
	case `prim`:
		if t.prim == `nil` {
			return typ.Nil
		}
		return tf.ParseType(t.prim)
	case `arr`:
		if t.max >= 0 {
			return tf.Array(ks[0], t.min, t.max)
		}
		return tf.Array(ks[0])
	case `map`:
		if t.max >= 0 {
			return tf.Map(typ.String, ks[0], t.min, t.max)
		}
		return tf.Map(typ.String, ks[0])
	case `tuple`:
		if t.more {
			return tf.VariadicTuple(ks...)
		}
		return tf.Tuple(ks...)
	case `struct`:
		es := make([]dgo.StructMapEntry, len(ks))
		for i := range ks {
			es[i] = tf.StructMapEntry(t.keys[i], ks[i], t.req[i])
		}
		return tf.StructMap(t.more, es...)
	case `any`:
		return tf.AnyOf(ks...)
	case `all`:
		return tf.AllOf(ks...)
	case `one`:
		return tf.OneOf(ks...)
	case `not`:
		return tf.Not(ks[0].(dgo.Type))
	case `sens`:
		return tf.Sensitive(ks[0])
	}
	panic(t.kind)
}

// interim finds a reference that remains in a resolved type
func interim(t dgo.Value, seen map[dgo.Value]bool) bool {
	if a, ok := t.(dgo.Alias); ok && a != nil {
		return true
	}
	tt, ok := t.(dgo.Type)
	if !ok {
		return false
	}
	if tt.TypeIdentifier() == dgo.TiAlias {
		return true
	}
	if dgo.IsExact(tt) {
		return false
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t := t.(type) {
	case dgo.StructMapType:
		found := false
		t.Each(func(e dgo.StructMapEntry) { found = found || interim(e.Key(), seen) || interim(e.Value(), seen) })
		return found
	case dgo.MapType:
		return interim(t.KeyType(), seen) || interim(t.ValueType(), seen)
	case dgo.TupleType:
		found := false
		t.ElementTypes().Each(func(e dgo.Value) { found = found || interim(e, seen) })
		return found
	case dgo.ArrayType:
		return interim(t.ElementType(), seen)
	case dgo.TernaryType:
		found := false
		t.Operands().Each(func(e dgo.Value) { found = found || interim(e, seen) })
		return found
	case dgo.UnaryType:
		return interim(t.Operand(), seen)
	}
	return false
}

// graph generates named nodes that may refer to each other and to what has been declared before
func (w *aWorld) graph(n int, redeclare bool) []*rtype {
	ns := rGraph(w.r, n, w.r.Intn(4) == 0)
	var olds []string
	for nm := range w.bound {
		olds = append(olds, nm)
	}
	sortStrings(olds)
	mine := map[string]bool{}
	for _, t := range ns {
		if redeclare && len(olds) > 0 && chance(w.r, 40) {
			t.name = olds[w.r.Intn(len(olds))]
		} else {
			t.name = ``
		}
		if t.name == `` || mine[t.name] {
			t.name = fmt.Sprintf(`%s%d`, w.pre, w.next)
			w.next++
		}
		mine[t.name] = true
	}
	var visit func(t *rtype)
	visit = func(t *rtype) {
		for i, k := range t.kids {
			if k.name != `` {
				if o := olds; len(o) > 0 && chance(w.r, 30) {
					if nm := o[w.r.Intn(len(o))]; !mine[nm] {
						t.kids[i] = w.bound[nm]
					}
				}
				continue
			}
			if k.kind == `prim` {
				if o := olds; len(o) > 0 && chance(w.r, 20) {
					if nm := o[w.r.Intn(len(o))]; !mine[nm] {
						t.kids[i] = w.bound[nm]
					}
				}
				continue
			}
			visit(k)
		}
	}
	for _, t := range ns {
		visit(t)
	}
	return ns
}

func sortStrings(ss []string) {
	for i := range ss {
		for j := i; j > 0 && ss[j] < ss[j-1]; j-- {
			ss[j], ss[j-1] = ss[j-1], ss[j]
		}
	}
}

// declared is the set of the nodes that are known by their names
func (w *aWorld) declared() map[*rtype]bool {
	d := map[*rtype]bool{}
	for _, t := range w.bound {
		d[t] = true
	}
	return d
}

// text is an expression that declares the nodes
func (w *aWorld) text(ns []*rtype) string {
	d := w.declared()
	var ps []string
	inline := chance(w.r, 50)
	if !inline {
		for _, t := range ns {
			d[t] = true
		}
	}
	for _, i := range w.r.Perm(len(ns)) {
		t := ns[i]
		if inline {
			ps = append(ps, t.text(d, ``))
		} else {
			ps = append(ps, t.name+`=`+t.body(d, ``))
		}
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return `{` + strings.Join(ps, `,`) + `}`
}

// remember records the current version
func (w *aWorld) remember() {
	v := &aVersion{m: w.current(), types: map[string]dgo.Type{}}
	for nm := range w.bound {
		v.types[nm] = v.m.GetType(vf.String(nm))
	}
	w.past = append(w.past, v)
}

// check compares the map with the model
func (w *aWorld) check() {
	m := w.current()
	for nm, t := range w.bound {
		dt := m.GetType(vf.String(nm))
		if dt == nil {
			w.fail(`a declared name is not found`, "%s", nm)
		}
		if interim(dt, map[dgo.Value]bool{}) {
			w.fail(`a reference remains in a resolved type`, "%s: %T", nm, dt)
		}
		if n := m.GetName(dt); n != nil {
			if o := m.GetType(n); o == nil || !o.Equals(dt) {
				w.fail(`the name found for a type denotes another type`, "%s: %s", nm, n)
			}
			w.c.Count(`names found for types`, 1)
		}
		if e := w.lastName(dt); e != `` {
			w.c.Count(`names expected for types`, 1)
			if n := m.GetName(dt); n == nil || n.GoString() != e {
				w.fail(`the name found for a type is not the one that it was last declared with`, "%s, expected %s: %s", n, e, dt)
			}
		}
		var fresh dgo.Type
		src := t.text(map[*rtype]bool{}, ``)
		// names that have been declared again denote several types in the expression, and a reference to a literal
		// prevents that what surrounds it is simplified
		if plainGraph(t) && !ambiguous(t) {
			w.c.Count(`types compared`, 1)
			if e := mon.Catch(func() { fresh = parser.ParseFile(newAdder(), ``, src).(dgo.Type) }); e != nil {
				w.fail(`control: the expression of a type cannot be parsed`, "%s: %v", src, e)
			}
			if !fresh.Equals(dt) || !dt.Equals(fresh) {
				w.fail(`a name denotes another type than the one that was declared`, "%s: %s\nexpected %s", nm, dt, src)
			}
		}
		for k := 0; k < 3; k++ {
			var nodes []*cnode
			v := rValue(w.r, t, 0, nil, &nodes)
			if chance(w.r, 30) && len(nodes) > 0 {
				if n := nodes[w.r.Intn(len(nodes))]; len(n.kids) > 0 && n.kind != `sens` {
					n.kids[w.r.Intn(len(n.kids))] = cLeaf(w.r.Intn(len(cLeafs)))
				}
			}
			if v.kind == `leaf` || len(nodes) > 24 {
				continue
			}
			b := 20000
			want := t.accepts(v, nil, &b)
			dv := cBuild(nodes)[v]
			if got := dt.Instance(dv); got != want {
				w.fail(`a name denotes a type that does not accept what was declared`, "%s: expected %v, got %v for %s\n%s", nm, want, got, dv, src)
			}
			w.c.Count([]string{`values rejected`, `values accepted`}[b2i(want)], 1)
		}
	}
	for _, p := range w.past {
		for nm, t := range p.types {
			if g := p.m.GetType(vf.String(nm)); g != t {
				w.fail(`an earlier alias map has been modified`, "%s: %v, was %v", nm, g, t)
			}
		}
		for nm := range w.bound {
			if p.types[nm] == nil && p.m.GetType(vf.String(nm)) != nil {
				w.fail(`an earlier alias map has been modified`, "%s has been added", nm)
			}
		}
	}
	if w.kind == 1 {
		if !w.lock.TryLock() {
			w.fail(`the lock is not released`, ``)
		}
		w.lock.Unlock()
	}
	if tf.BuiltInAliases().GetType(vf.String(`data`)) == nil || m.GetType(vf.String(`data`)) == nil || m.GetType(vf.String(`richdata`)) == nil {
		w.fail(`the built in aliases are lost`, ``)
	}
}

// lastName returns the name that was given to the type most recently, or an empty string when that isn't evident
func (w *aWorld) lastName(dt dgo.Type) string {
	var last *aDecl
	for _, d := range w.decls {
		if !d.dt.Equals(dt) {
			continue
		}
		if d.dt.HashCode() != dt.HashCode() { // see C24
			return ``
		}
		if last != nil && last.batch == d.batch {
			return ``
		}
		last = d
	}
	if last == nil || w.bound[last.name] != last.t {
		return ``
	}
	return last.name
}

// plainGraph is true when nothing that the node refers to can be simplified
func plainGraph(t *rtype) bool {
	seen := map[*rtype]bool{}
	var visit func(t *rtype) bool
	visit = func(t *rtype) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.kind == `not` || t.kind == `prim` && (t.prim[0] == '"' || t.prim == `1` || t.prim == `nil` || t.prim == `any`) {
			return false
		}
		for _, k := range t.kids {
			if !visit(k) {
				return false
			}
		}
		return true
	}
	return visit(t)
}

// ambiguous is true when the same name is given to several nodes
func ambiguous(t *rtype) bool {
	by := map[string]*rtype{}
	seen := map[*rtype]bool{}
	var visit func(t *rtype) bool
	visit = func(t *rtype) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.name != `` {
			if by[t.name] != nil {
				return true
			}
			by[t.name] = t
		}
		for _, k := range t.kids {
			if visit(k) {
				return true
			}
		}
		return false
	}
	return visit(t)
}

var aSerial int

func runC29(c *mon.Ctx) {
	c.Run(`histories`, c.N(6000, 200000), func(r *rand.Rand, i int) { c29History(c, r) })
	c.Run(`adders`, c.N(3000, 60000), func(r *rand.Rand, i int) { c29Adders(c, r) })
}

func c29History(c *mon.Ctx, r *rand.Rand) {
	aSerial++
	w := &aWorld{c: c, r: r, kind: []int{0, 0, 0, 0, 1, 1, 1, 2, 3}[r.Intn(9)], am: tf.BuiltInAliases(), bound: map[string]*rtype{}, pre: fmt.Sprintf(`w%dx`, aSerial)}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(tooMany); !ok {
				panic(e)
			}
			c.Count(`too many ways through the graphs`, 1)
		}
	}()
	for n := 1 + r.Intn(4); n > 0; n-- {
		w.remember()
		switch x := r.Intn(10); {
		case x < 7:
			w.batch()
		case x < 9:
			w.refused()
		default:
			w.nothing()
		}
		w.check()
	}
	c.Count(`histories: `+aKinds[w.kind], 1)
	c.Seen(strings.ReplaceAll(strings.Join(w.log, "\n"), w.pre, `n`))
	if r.Intn(400) == 0 {
		c.Sample(aKinds[w.kind] + "\n" + strings.Join(w.log, "\n"))
	}
}

// batch adds declarations in one of several ways
func (w *aWorld) batch() {
	r := w.r
	mode := r.Intn(3)
	if w.kind == 3 {
		mode = 1
	}
	ns := w.graph(1+r.Intn(3), mode == 0)
	for _, t := range ns {
		for _, u := range ns {
			budget := 20000
			t.ways(u, nil, &budget)
		}
	}
	bind := func(ns ...*rtype) {
		w.batches++
		for _, t := range ns {
			w.bound[t.name] = t
			if dt := w.current().GetType(vf.String(t.name)); dt != nil {
				w.decls = append(w.decls, &aDecl{w.batches, t.name, dt, t})
			}
		}
	}
	var f func()
	var added *rtype
	switch mode {
	case 0: // constructed types that are added in any order
		order := r.Perm(len(ns))
		for _, i := range order {
			w.log = append(w.log, `add `+ns[i].name+`=`+ns[i].body(all(ns, w), ``))
		}
		f = func() {
			w.add(func(a dgo.AliasAdder) {
				for _, i := range order {
					t := construct(ns[i], true)
					a.Add(t, vf.String(ns[i].name))
					if g := a.GetType(vf.String(ns[i].name)); g != t {
						w.fail(`an adder does not know what was added`, "%s", ns[i].name)
					}
				}
			})
		}
	case 1: // one expression
		s := w.text(ns)
		w.log = append(w.log, `parse `+s)
		f = func() {
			if w.kind == 3 {
				// not known anywhere else
				tf.ParseFile(nil, ``, s)
				for _, t := range ns {
					if tf.DefaultAliases().GetType(vf.String(t.name)) != nil {
						w.fail(`a name that is known to a parser only is added`, "%s", t.name)
					}
				}
				switch r.Intn(3) {
				case 0:
					tf.ParseType(s)
				case 1:
					tf.Parse(s)
				default:
					parser.Parse(s)
				}
				return
			}
			w.add(func(a dgo.AliasAdder) { tf.ParseFile(a, ``, s) })
		}
	default: // an addition within an addition
		k := r.Intn(len(ns) + 1)
		outer := ns[:k]
		inner := &rtype{kind: `arr`, max: -1, name: fmt.Sprintf(`%s%d`, w.pre, w.next), kids: []*rtype{{kind: `prim`, prim: `int`}}}
		w.next++
		if w.kind == 0 {
			inner = nil
		}
		s := w.text(ns)
		w.log = append(w.log, `parse `+s)
		if inner != nil {
			w.log = append(w.log, `while adding `+inner.name+`=`+inner.body(nil, ``))
		}
		_ = outer
		f = func() {
			w.add(func(a dgo.AliasAdder) {
				if inner != nil {
					w.add(func(b dgo.AliasAdder) { b.Add(construct(inner, true), vf.String(inner.name)) })
				}
				tf.ParseFile(a, ``, s)
			})
		}
		added = inner
	}
	if e := mon.Catch(f); e != nil {
		w.fail(`a declaration is refused: `+errClass(e), "%v", e)
	}
	if added != nil {
		bind(added)
	}
	bind(ns...)
	w.c.Count(`batches of declarations`, 1)
}

func all(ns []*rtype, w *aWorld) map[*rtype]bool {
	d := w.declared()
	for _, t := range ns {
		d[t] = true
	}
	return d
}

// nothing runs an addition that doesn't add
func (w *aWorld) nothing() {
	before := w.current()
	w.log = append(w.log, `nothing`)
	w.add(func(a dgo.AliasAdder) {
		if a.GetType(vf.String(`data`)) == nil {
			w.fail(`an adder does not know the built in aliases`, ``)
		}
		for nm := range w.bound {
			if a.GetType(vf.String(nm)) != before.GetType(vf.String(nm)) {
				w.fail(`an adder does not know what was declared before`, "%s", nm)
			}
		}
		if a.GetType(vf.String(`nosuchname`)) != nil {
			w.fail(`an adder knows what was never declared`, ``)
		}
	})
	if w.current() != before {
		w.fail(`a new map is created although nothing is added`, ``)
	}
}

// refused runs additions that must fail and leave everything as it was
func (w *aWorld) refused() {
	r := w.r
	before := w.current()
	nm := fmt.Sprintf(`%s%d`, w.pre, w.next)
	w.next++
	nm2 := nm + `b`
	ref := func(n string) dgo.Type { return parser.NewAlias(vf.String(n)) }
	var want, s string
	var f func(a dgo.AliasAdder)
	switch k := r.Intn(9); k {
	case 0:
		want = `reference to unresolved type 'nosuchname'`
		s = nm + `=[]nosuchname`
		f = func(a dgo.AliasAdder) { a.Add(tf.Array(ref(`nosuchname`)), vf.String(nm)) }
	case 1:
		want = `is defined as itself`
		s = nm + `=` + nm
		f = func(a dgo.AliasAdder) { a.Add(ref(nm), vf.String(nm)) }
	case 2:
		want = `is defined as itself`
		s = `{` + nm + `=` + nm2 + `,` + nm2 + `=` + nm + `}`
		f = func(a dgo.AliasAdder) {
			a.Add(ref(nm), vf.String(nm2))
			a.Add(ref(nm2), vf.String(nm))
		}
	case 3:
		want = `is defined as itself`
		s = nm + `=string|(int&!` + nm + `)`
		f = func(a dgo.AliasAdder) {
			a.Add(tf.AnyOf(typ.String, tf.AllOf(typ.Integer, tf.Not(ref(nm)))), vf.String(nm))
		}
	case 4:
		want = `reference to unresolved type 'nosuchname'`
		s = `{` + nm + `=int,` + nm2 + `={a:string^nosuchname}}`
		f = func(a dgo.AliasAdder) {
			a.Add(typ.Integer, vf.String(nm))
			a.Add(tf.Map(typ.String, tf.OneOf(typ.String, ref(`nosuchname`))), vf.String(nm2))
		}
	case 5: // the same name twice
		want = `attempt to redeclare identifier '` + nm + `'`
		s = `{` + nm + `=int,` + nm + `=` + []string{`int`, `string`, nm}[r.Intn(3)] + `}`
	case 6: // a name within its own declaration
		want = `attempt to redeclare identifier '` + nm + `'`
		s = nm + `=[](` + nm + `=int)`
	default: // a name that exists
		o := `data`
		for n := range w.bound {
			if o == `data` || n < o {
				o = n
			}
		}
		if r.Intn(3) == 0 {
			o = []string{`data`, `richdata`, `c29named`}[r.Intn(3)]
			if o == `c29named` && tf.Named(o) == nil {
				tf.NewNamed(o, nil, nil, nil, nil, nil)
			}
		}
		want = `attempt to redeclare identifier '` + o + `'`
		s = `{` + nm + `=string,` + o + `=` + []string{`int`, `string`, `[]` + o}[r.Intn(3)] + `}`
	}
	var e interface{}
	if f != nil && w.kind != 3 && r.Intn(2) == 0 {
		w.log = append(w.log, `refused addition of `+s)
		e = mon.Catch(func() { w.add(f) })
	} else {
		w.log = append(w.log, `refused `+s)
		if w.kind == 3 {
			e = mon.Catch(func() { tf.ParseType(s) })
		} else {
			e = mon.Catch(func() { w.add(func(a dgo.AliasAdder) { tf.ParseFile(a, ``, s) }) })
		}
	}
	if err, ok := e.(error); !ok || !strings.Contains(err.Error(), want) {
		w.fail(`a declaration that makes no sense is not refused properly`, "%s\ngot %v, expected %s", s, e, want)
	}
	if w.current() != before {
		w.fail(`the map is replaced although the addition failed`, "%s", s)
	}
	for _, n := range []string{nm, nm2, `nosuchname`} {
		if before.GetType(vf.String(n)) != nil {
			w.fail(`a name remains although the addition failed`, "%s: %s", n, s)
		}
	}
	w.c.Count(`refused: `+errClass(e), 1)
}

// c29Adders checks what a parser finds in an adder, and the notation of Puppet
func c29Adders(c *mon.Ctx, r *rand.Rand) {
	aSerial++
	n := func(k int) string { return fmt.Sprintf("k%dx%d", aSerial, k) }
	up := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
	prims := []struct{ d, p string }{{`int`, `Integer`}, {`string`, `String`}, {`bool`, `Boolean`}, {`0..3`, `Integer[0,3]`}, {`[]int`, `Array[Integer]`}, {`string|int`, `Variant[String,Integer]`}}
	p := prims[r.Intn(len(prims))]
	q := prims[r.Intn(len(prims))]
	type decl struct{ d, p string }
	forms := []decl{
		{`[]` + n(0), `Array[` + up(n(0)) + `]`},
		{`map[string]` + n(0), `Hash[String,` + up(n(0)) + `]`},
		{`{` + n(0) + `,` + q.d + `}`, `Tuple[` + up(n(0)) + `,` + q.p + `]`},
		{`nil|` + n(0), `Optional[` + up(n(0)) + `]`},
		{`type[` + n(0) + `]`, `Type[` + up(n(0)) + `]`},
		{`sensitive[` + n(0) + `]`, `Sensitive[` + up(n(0)) + `]`},
		{`func(` + n(0) + `) ` + q.d, `Callable[[` + up(n(0)) + `],` + q.p + `]`},
		{`[](` + n(0) + `|[]` + n(1) + `)`, `Array[Variant[` + up(n(0)) + `,Array[` + up(n(1)) + `]]]`},
		{n(0), up(n(0))},
	}
	f := forms[r.Intn(len(forms))]
	// reference is what is meant, in one expression of the language of dgo
	body := f.d
	if strings.Contains(body, n(0)) && !strings.Contains(body, n(1)) {
		body = strings.ReplaceAll(body, n(0), `(`+p.d+`)`)
	} else {
		body = n(1) + `=` + strings.ReplaceAll(body, n(0), `(`+p.d+`)`)
	}
	var want dgo.Type
	if e := mon.Catch(func() { want = parser.ParseFile(newAdder(), ``, body).(dgo.Type) }); e != nil {
		c.Fail(`control: the expression cannot be parsed`, "%s: %v", body, e)
	}
	var got [2]dgo.Type
	how := r.Intn(7)
	desc := fmt.Sprintf("%d: %s=%s, %s=%s", how, n(0), p.d, n(1), f.d)
	c.Seen(fmt.Sprintf("%d %s %s %s", how, p.d, q.d, strings.ReplaceAll(strings.ReplaceAll(f.d, n(0), `a`), n(1), `b`)))
	var direct dgo.Value
	e := mon.Catch(func() {
		am := tf.BuiltInAliases()
		switch how {
		case 0: // in one file of Puppet
			am = am.Collect(func(a dgo.AliasAdder) {
				direct = pcore.ParseFile(a, ``, "[type "+up(n(0))+" = "+p.p+",\ntype "+up(n(1))+" = "+f.p+"]")
				direct = direct.(dgo.Array).Get(1)
			})
		case 1: // in several files of Puppet
			am = am.Collect(func(a dgo.AliasAdder) {
				pcore.ParseFile(a, ``, "type "+up(n(0))+" = "+p.p)
				direct = pcore.ParseFile(a, ``, "type "+up(n(1))+" = "+f.p)
			})
		case 2: // both languages
			am = am.Collect(func(a dgo.AliasAdder) {
				tf.ParseFile(a, ``, n(0)+`=`+p.d)
				direct = pcore.ParseFile(a, ``, "type "+up(n(1))+" = "+f.p)
			})
		case 3: // both languages, different maps
			am = am.Collect(func(a dgo.AliasAdder) { pcore.ParseFile(a, ``, "type "+up(n(0))+" = "+p.p) })
			am = am.Collect(func(a dgo.AliasAdder) { direct = tf.ParseFile(a, ``, n(1)+`=`+f.d) })
		case 4, 5: // names for names
			want = tf.ParseType(p.d)
			ds := []struct{ n, b string }{{n(0), p.d}, {n(2), n(0)}, {n(1), n(2)}}
			desc = fmt.Sprintf("%d:", how)
			var texts []string
			am = am.Collect(func(a dgo.AliasAdder) {
				for _, i := range r.Perm(3) {
					texts = append(texts, ds[i].n+`=`+ds[i].b)
					if how == 4 {
						var t dgo.Type = parser.NewAlias(vf.String(ds[i].b))
						if i == 0 {
							t = want
						}
						a.Add(t, vf.String(ds[i].n))
					}
				}
				desc += strings.Join(texts, `,`)
				direct = want
				if how == 5 {
					tf.ParseFile(a, ``, `{`+strings.Join(texts, `,`)+`}`)
				}
			})
		default: // an adder of its own that extends a map
			am = am.Collect(func(a dgo.AliasAdder) { tf.ParseFile(a, ``, n(0)+`=`+p.d) })
			am.Collect(func(a dgo.AliasAdder) {
				direct = tf.ParseFile(a, ``, n(1)+`=`+f.d)
				got[0] = a.GetType(vf.String(n(0)))
				got[1] = a.GetType(vf.String(n(1)))
			})
			if am.GetType(vf.String(n(1))) != nil {
				c.Fail(`adders: a map is modified by what is collected from it`, "%s", desc)
			}
			return
		}
		got[0] = am.GetType(vf.String(n(0)))
		got[1] = am.GetType(vf.String(n(1)))
	})
	if e != nil {
		c.Fail(`adders: a declaration is refused: `+errClass(e), "%s: %v", desc, e)
	}
	if first := tf.ParseType(p.d); got[0] == nil || !first.Equals(got[0]) {
		c.Fail(`adders: a name denotes another type than the one that was declared`, "%s\n%s", desc, got[0])
	}
	if got[1] == nil || !want.Equals(got[1]) || !got[1].Equals(want) {
		c.Fail(`adders: a name denotes another type than the one that was declared`, "%s\ngot %s\nexpected %s", desc, got[1], want)
	}
	if interim(got[1], map[dgo.Value]bool{}) {
		c.Fail(`adders: a reference remains in a resolved type`, "%s: %T", desc, got[1])
	}
	dt, ok := direct.(dgo.Type)
	if !ok || !want.Equals(dt) {
		c.Fail(`adders: what is returned is another type than the one that was declared`, "%s\ngot %s\nexpected %s", desc, direct, want)
	}
	// a name that exists is not declared again
	am := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { a.Add(want, vf.String(n(3))) })
	for _, s := range []string{"type " + up(n(3)) + " = Integer", "[type " + up(n(4)) + " = String, type " + up(n(4)) + " = " + p.p + "]", "type " + up(n(5)) + " = Array[type " + up(n(5)) + " = " + p.p + "]",
		"type Integer = String", "type Data = String"} {
		e := mon.Catch(func() { am.Collect(func(a dgo.AliasAdder) { pcore.ParseFile(a, ``, s) }) })
		if err, ok := e.(error); !ok || !strings.Contains(err.Error(), `attempt to redeclare identifier '`) {
			c.Fail(`adders: a declaration of a name that exists is not refused`, "%s: %v", s, e)
		}
	}
	// references in the parameters of a named type
	if tf.Named(`c29Par`) == nil {
		tf.NewNamed(`c29Par`, nil, nil, nil, nil, nil)
	}
	ds := []string{"type " + up(n(6)) + " = C29Par[" + up(n(7)) + ",Array[" + up(n(7)) + "],1]", "type " + up(n(7)) + " = " + p.p}
	if chance(r, 50) {
		ds[0], ds[1] = ds[1], ds[0]
	}
	s := `[` + strings.Join(ds, `, `) + `]`
	if e := mon.Catch(func() { am = am.Collect(func(a dgo.AliasAdder) { pcore.ParseFile(a, ``, s) }) }); e != nil {
		c.Fail(`adders: a declaration is refused: `+errClass(e), "%s: %v", s, e)
	}
	pt, ok := am.GetType(vf.String(n(6))).(dgo.NamedType)
	pe := tf.ParseType(p.d)
	if !ok || pt.Parameters() == nil || !vf.Values(pe, tf.Array(pe), 1).Equals(pt.Parameters()) {
		c.Fail(`adders: a reference in the parameters of a named type`, "%s: %v", s, pt)
	}
	c.Count(`declarations in adders`, 1)
}
