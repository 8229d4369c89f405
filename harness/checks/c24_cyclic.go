package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C24`, Scale: 18, Rule: `a graph of values that refer to each other, or a recursive type with the values and types that it was checked with; distinct by structure`, Run: runC24})
}

// cnode is a node of a graph of values
type cnode struct {
	kind string // arr, map, struct, sens or leaf
	leaf int
	keys []string
	kids []*cnode
	id   int
}

type cyc struct{ A, B dgo.Value }

var cLeafs = []interface{}{`a`, `b`, 1, 2, nil, true}

func cLeaf(i int) *cnode { return &cnode{kind: `leaf`, leaf: i} }

// cGraph creates collections that refer to each other and to leafs. The first one is the root.
func cGraph(r *rand.Rand, n int, sens bool) []*cnode {
	ns := make([]*cnode, n)
	kinds := []string{`arr`, `arr`, `map`, `map`, `struct`}
	if sens {
		kinds = append(kinds, `sens`)
	}
	for i := range ns {
		ns[i] = &cnode{kind: kinds[r.Intn(len(kinds))], id: i}
	}
	for i, x := range ns {
		var l int
		switch x.kind {
		case `arr`:
			l = r.Intn(4)
			if i == 0 && l == 0 {
				l = 2
			}
		case `map`:
			l = r.Intn(4)
			x.keys = []string{`A`, `B`, `c`}[:l]
			if l < 3 && r.Intn(2) == 0 {
				x.keys = []string{`A`, `B`, `c`}[3-l:]
			}
			x.keys = append([]string{}, x.keys...)
			r.Shuffle(l, func(a, b int) { x.keys[a], x.keys[b] = x.keys[b], x.keys[a] })
		case `struct`:
			l = 2
			x.keys = []string{`A`, `B`}
		case `sens`:
			l = 1
		}
		refs := 0
		for k := 0; k < l; k++ {
			if refs < 2 && r.Intn(3) > 0 {
				refs++
				t := ns[r.Intn(n)]
				if x.kind == `sens` && t.kind == `sens` {
					// the content must exist when a sensitive is created
					x.kids = append(x.kids, cLeaf(r.Intn(len(cLeafs))))
					continue
				}
				x.kids = append(x.kids, t)
			} else {
				x.kids = append(x.kids, cLeaf(r.Intn(len(cLeafs))))
			}
		}
	}
	return ns
}

// replicate creates a graph in which each node may have two replicas. Each reference to a node becomes a reference to
// one of the replicas. It is the same as the given graph when seen from the root.
func replicate(r *rand.Rand, ns []*cnode) []*cnode {
	reps := map[*cnode][]*cnode{}
	var all []*cnode
	for i, n := range ns {
		k := 1
		if r.Intn(3) == 0 || i == 0 && r.Intn(2) == 0 {
			k = 2
		}
		for ; k > 0 && (len(reps[n]) == 0 || len(all) < 5); k-- {
			c := &cnode{kind: n.kind, keys: n.keys, id: len(all)}
			reps[n] = append(reps[n], c)
			all = append(all, c)
		}
	}
	for _, n := range ns {
		for _, c := range reps[n] {
			for _, k := range n.kids {
				if k.kind == `leaf` {
					c.kids = append(c.kids, cLeaf(k.leaf))
				} else {
					c.kids = append(c.kids, reps[k][r.Intn(len(reps[k]))])
				}
			}
			if n.kind == `map` && r.Intn(2) == 0 {
				c.keys = append([]string{}, n.keys...)
				r.Shuffle(len(c.keys), func(a, b int) {
					c.keys[a], c.keys[b] = c.keys[b], c.keys[a]
					c.kids[a], c.kids[b] = c.kids[b], c.kids[a]
				})
			}
		}
	}
	return all
}

// mutate changes one thing in the graph
func mutate(r *rand.Rand, ns []*cnode) {
	for try := 0; try < 10; try++ {
		n := ns[r.Intn(len(ns))]
		if len(n.kids) == 0 {
			continue
		}
		k := r.Intn(len(n.kids))
		switch {
		case n.kids[k].kind == `leaf` && r.Intn(3) > 0:
			n.kids[k] = cLeaf(r.Intn(len(cLeafs)))
		case n.kind == `sens`:
			continue
		case r.Intn(2) == 0:
			n.kids[k] = ns[r.Intn(len(ns))]
		default:
			n.kids[k] = cLeaf(r.Intn(len(cLeafs)))
		}
		return
	}
}

// build creates the values of the given nodes
func cBuild(ns []*cnode) map[*cnode]dgo.Value {
	vs := map[*cnode]dgo.Value{}
	structs := map[*cnode]*cyc{}
	for _, n := range ns {
		switch n.kind {
		case `arr`:
			vs[n] = vf.MutableValues()
		case `map`:
			vs[n] = vf.MutableMap()
		case `struct`:
			s := &cyc{vf.Nil, vf.Nil}
			structs[n] = s
			vs[n] = vf.Map(s)
		}
	}
	get := func(n *cnode) dgo.Value {
		if n.kind == `leaf` {
			return vf.Value(cLeafs[n.leaf])
		}
		return vs[n]
	}
	for _, n := range ns {
		if n.kind == `sens` {
			vs[n] = vf.Sensitive(get(n.kids[0]))
		}
	}
	for _, n := range ns {
		for i, k := range n.kids {
			switch n.kind {
			case `arr`:
				vs[n].(dgo.Array).Add(get(k))
			case `map`:
				vs[n].(dgo.Map).Put(n.keys[i], get(k))
			case `struct`:
				if n.keys[i] == `A` {
					structs[n].A = get(k)
				} else {
					structs[n].B = get(k)
				}
			}
		}
	}
	return vs
}

// cObserve reads a graph of values back
func cObserve(c *mon.Ctx, v dgo.Value) []*cnode {
	ids := map[dgo.Value]*cnode{}
	var ns []*cnode
	var obs func(v dgo.Value) *cnode
	obs = func(v dgo.Value) *cnode {
		switch v.(type) {
		case dgo.Type:
		case dgo.Array, dgo.Map, dgo.Sensitive:
			if n, ok := ids[v]; ok {
				return n
			}
			n := &cnode{id: len(ns)}
			ids[v] = n
			ns = append(ns, n)
			switch x := v.(type) {
			case dgo.Array:
				n.kind = `arr`
				x.Each(func(e dgo.Value) { n.kids = append(n.kids, obs(e)) })
			case dgo.Map:
				n.kind = `map`
				x.EachEntry(func(e dgo.MapEntry) {
					n.keys = append(n.keys, e.Key().String())
					n.kids = append(n.kids, obs(e.Value()))
				})
			case dgo.Sensitive:
				n.kind = `sens`
				n.kids = []*cnode{obs(x.Unwrap())}
			}
			return n
		}
		for i, l := range cLeafs {
			if v.Equals(l) {
				return cLeaf(i)
			}
		}
		c.Fail(`unexpected value in a copy of a graph`, "%T %s", v, v)
		return nil
	}
	obs(v)
	return ns
}

// classes partitions the nodes of some graphs so that two nodes are in the same class when they are the same as seen
// from the outside
func classes(gs ...[]*cnode) map[*cnode]int {
	cl := map[*cnode]int{}
	cnt := 1
	for {
		sigs := map[string]int{}
		next := map[*cnode]int{}
		var ss []string
		sg := map[*cnode]string{}
		for _, g := range gs {
			for _, n := range g {
				kind := n.kind
				if kind == `struct` {
					kind = `map`
				}
				parts := make([]string, len(n.kids))
				for i, k := range n.kids {
					if k.kind == `leaf` {
						parts[i] = fmt.Sprintf("l%d", k.leaf)
					} else {
						parts[i] = fmt.Sprintf("n%d", cl[k])
					}
					if kind == `map` {
						parts[i] = n.keys[i] + `=` + parts[i]
					}
				}
				if kind == `map` {
					sort.Strings(parts)
				}
				s := kind + strings.Join(parts, `,`)
				sg[n] = s
				if _, ok := sigs[s]; !ok {
					sigs[s] = 0
					ss = append(ss, s)
				}
			}
		}
		sort.Strings(ss)
		for i, s := range ss {
			sigs[s] = i
		}
		for n, s := range sg {
			next[n] = sigs[s]
		}
		cl = next
		if len(ss) == cnt {
			return cl
		}
		cnt = len(ss)
	}
}

// path is the text of what is seen from a node until a node is seen again
func (n *cnode) path(seen []*cnode) string {
	if n.kind == `leaf` {
		return fmt.Sprint(cLeafs[n.leaf])
	}
	for i, s := range seen {
		if s == n {
			return fmt.Sprintf("^%d", len(seen)-i)
		}
	}
	seen = append(seen[:len(seen):len(seen)], n)
	ps := make([]string, len(n.kids))
	for i, k := range n.kids {
		ps[i] = k.path(seen)
		if n.keys != nil {
			ps[i] = n.keys[i] + `:` + ps[i]
		}
	}
	if n.keys != nil {
		sort.Strings(ps)
	}
	kind := n.kind
	if kind == `struct` {
		kind = `map`
	}
	return kind + `(` + strings.Join(ps, ` `) + `)`
}

func graphText(ns []*cnode) string {
	sb := &strings.Builder{}
	for _, n := range ns {
		_, _ = fmt.Fprintf(sb, "n%d=%s(", n.id, n.kind)
		for i, k := range n.kids {
			if n.keys != nil {
				sb.WriteString(n.keys[i] + `:`)
			}
			if k.kind == `leaf` {
				_, _ = fmt.Fprintf(sb, "%v ", cLeafs[k.leaf])
			} else {
				_, _ = fmt.Fprintf(sb, "n%d ", k.id)
			}
		}
		sb.WriteString(`) `)
	}
	return sb.String()
}

func cyclic(n *cnode, seen []*cnode) bool {
	for _, s := range seen {
		if s == n {
			return true
		}
	}
	for _, k := range n.kids {
		if cyclic(k, append(seen[:len(seen):len(seen)], n)) {
			return true
		}
	}
	return false
}

func runC24(c *mon.Ctx) {
	c.Run(`equality`, c.N(8000, 400000), func(r *rand.Rand, i int) { c24Equality(c, r) })
	c.Run(`copies`, c.N(4000, 200000), func(r *rand.Rand, i int) { c24Copies(c, r) })
	c.Run(`types of values`, c.N(3000, 100000), func(r *rand.Rand, i int) { c24ValueTypes(c, r) })
	c.Run(`recursive types`, c.N(12000, 500000), func(r *rand.Rand, i int) { c24Types(c, r, false) })
	c.Run(`recursive types with operators`, c.N(6000, 250000), func(r *rand.Rand, i int) { c24Types(c, r, true) })
	c.Run(`ill-founded types`, c.N(2000, 20000), func(r *rand.Rand, i int) { c24IllFounded(c, r) })
	c.Run(`the type itself`, 1, func(r *rand.Rand, i int) {
		ad := newAdder()
		tp := parser.ParseFile(ad, ``, `x=[](string|x)`).(dgo.Type)
		if tp.Instance(vf.Values(tp)) {
			c.Violate(`a recursive type accepts itself as a value contained in an instance`, "%s accepts %s", tp, vf.Values(tp))
		}
	})
}

func c24Equality(c *mon.Ctx, r *rand.Rand) {
	g := cGraph(r, 1+r.Intn(3), true)
	h := replicate(r, g)
	if r.Intn(2) == 0 {
		mutate(r, h)
	}
	gs := [][]*cnode{g, h, g}
	vs := []map[*cnode]dgo.Value{cBuild(g), cBuild(h), cBuild(g)}
	cl := classes(g, h)
	type pv struct {
		n *cnode
		v dgo.Value
	}
	var all []pv
	for i := range gs {
		for _, n := range gs[i] {
			if n.id == 0 || r.Intn(2) == 0 {
				all = append(all, pv{n, vs[i][n]})
			}
		}
	}
	desc := func() string { return graphText(g) + "\n" + graphText(h) }
	cmp := map[[2]int]int{}
	for i, a := range all {
		for k, b := range all {
			want := cl[a.n] == cl[b.n]
			if got := a.v.Equals(b.v); got != want {
				c.Fail(`equality of cyclic values`, "n%d and n%d: expected %v, got %v\n%s\n%s\n%s", a.n.id, b.n.id, want, got, desc(), a.v, b.v)
			}
			if want {
				c.Count(`equal pairs`, 1)
				if a.v.HashCode() != b.v.HashCode() {
					if a.n.path(nil) == b.n.path(nil) {
						c.Fail(`hash codes of equal cyclic values`, "n%d and n%d\n%s\n%s\n%s", a.n.id, b.n.id, desc(), a.v, b.v)
					}
					c.Violate(`hash codes of equal values with cycles that are entered differently`, "n%d and n%d\n%s\n%s\n%s", a.n.id, b.n.id, desc(), a.v, b.v)
				}
			} else {
				c.Count(`different pairs`, 1)
			}
			if ca, ok := a.v.(dgo.Comparable); ok {
				x, ok := ca.CompareTo(b.v)
				if ok && (x == 0) != want {
					// the elements of a sensitive are not compared, and a recursion may be hit before a difference is found
					if x != 0 {
						c.Fail(`comparison of equal cyclic values`, "n%d and n%d: %d\n%s\n%s\n%s", a.n.id, b.n.id, x, desc(), a.v, b.v)
					}
				}
				if ok {
					cmp[[2]int{i, k}] = x
					if y, done := cmp[[2]int{k, i}]; done && y != -x {
						c.Fail(`comparison of cyclic values is not antisymmetric`, "n%d and n%d: %d and %d\n%s\n%s\n%s", a.n.id, b.n.id, x, y, desc(), a.v, b.v)
					}
				}
			}
		}
		c.Seen(a.n.path(nil))
		if cyclic(a.n, nil) {
			c.Count(`cyclic values`, 1)
		}
	}
	// as elements and keys of others
	a, b := vs[0][g[0]], vs[2][g[0]]
	if a.Equals(nil) || a.Equals(1) || !vf.Values(1, a).Equals(vf.Values(1, b)) || !vf.Map(`x`, a).Equals(vf.Map(`x`, b)) {
		c.Fail(`equality of what contains a cyclic value`, "%s", graphText(g))
	}
	if vf.MutableValues(1, a).IndexOf(b) != 1 || vf.MutableValues(a, 1, b).Unique().Len() != 2 {
		c.Fail(`a cyclic value is not found in an array`, "%s", graphText(g))
	}
	if r.Intn(8) == 0 {
		c.Sample(desc())
	}
}

func c24Copies(c *mon.Ctx, r *rand.Rand) {
	g := cGraph(r, 1+r.Intn(3), true)
	vs := cBuild(g)
	root := vs[g[0]]
	before := cObserve(c, root)
	same := func(what string, v dgo.Value) {
		o := cObserve(c, v)
		if cl := classes(g, o); cl[g[0]] != cl[o[0]] {
			c.Fail(what+` of a cyclic value: another content`, "%s\n%s", graphText(g), graphText(o))
		}
		if !v.Equals(root) || !root.Equals(v) {
			c.Fail(what+` of a cyclic value: not equal to the original`, "%s\n%s", graphText(g), graphText(o))
		}
		c.Count(what, 1)
	}
	for i, n := range []*cnode{g[0], g[len(g)-1]} {
		v := vs[n]
		for _, t := range []func() string{v.String, func() string { return fmt.Sprintf("%v", v) }, func() string {
			if ia, ok := v.(dgo.Indentable); ok {
				return util.ToIndentedStringERP(ia)
			}
			return v.String()
		}} {
			s := t()
			if s == `` || len(s) > 1<<16 {
				c.Fail(`text of a cyclic value`, "%d bytes for %s", len(s), graphText(g))
			}
			if cyclic(n, nil) && n.kind != `sens` && !strings.Contains(s, `recursive`) && !strings.Contains(s, `redacted`) {
				c.Fail(`text of a cyclic value: no recursion`, "%s for %s", s, graphText(g))
			}
		}
		if i == 0 {
			if x, y := v.String(), cBuild(g)[n].String(); x != y {
				c.Fail(`text of a cyclic value differs between equal builds`, "%s\n%s\n%s", x, y, graphText(g))
			}
		}
	}
	frozen := func(v dgo.Value, want bool, what string) {
		seen := map[dgo.Value]bool{}
		var walk func(v dgo.Value)
		walk = func(v dgo.Value) {
			f, ok := v.(dgo.Freezable)
			if !ok || seen[v] {
				return
			}
			seen[v] = true
			if f.Frozen() != want {
				if _, ok := v.(dgo.Sensitive); !ok || want {
					c.Fail(what+` of a cyclic value: frozen state`, "expected %v: %s in %s", want, v, graphText(g))
				}
			}
			switch x := v.(type) {
			case dgo.Array:
				x.Each(walk)
			case dgo.Map:
				x.EachEntry(func(e dgo.MapEntry) { walk(e.Value()) })
			case dgo.Sensitive:
				walk(x.Unwrap())
			}
		}
		walk(v)
	}
	f := root.(dgo.Freezable)
	fc := f.FrozenCopy()
	same(`FrozenCopy`, fc)
	frozen(fc, true, `FrozenCopy`)
	tc := fc.(dgo.Freezable).ThawedCopy()
	same(`ThawedCopy`, tc)
	frozen(tc, false, `ThawedCopy`)
	frozen(root, false, `original`)
	tc = f.ThawedCopy()
	same(`ThawedCopy`, tc)
	switch x := root.(type) {
	case dgo.Array:
		same(`Copy`, x.Copy(false))
		same(`Copy`, x.Copy(true))
		if len(x.GoSlice()) != x.Len() || x.Len() != len(g[0].kids) {
			c.Fail(`length of a cyclic value`, "%s", graphText(g))
		}
	case dgo.Map:
		same(`Copy`, x.Copy(false))
		same(`Copy`, x.Copy(true))
	}
	// the graph of a thawed copy is separate from the original
	touch := func(v dgo.Value) {
		switch x := v.(type) {
		case dgo.Array:
			x.Add(`touched`)
		case dgo.Map:
			if x.Len() > 0 {
				x.Put(x.Keys().Get(0), 99)
			}
		}
	}
	touched := map[dgo.Value]bool{}
	var walk func(v dgo.Value)
	walk = func(v dgo.Value) {
		if touched[v] {
			return
		}
		switch x := v.(type) {
		case dgo.Array:
			touched[v] = true
			x.Each(walk)
		case dgo.Map:
			touched[v] = true
			x.EachEntry(func(e dgo.MapEntry) { walk(e.Value()) })
		case dgo.Sensitive:
			touched[v] = true
			walk(x.Unwrap())
		}
	}
	walk(tc)
	for v := range touched {
		touch(v)
	}
	after := cObserve(c, root)
	if cl := classes(before, after); cl[before[0]] != cl[after[0]] {
		c.Fail(`the copy of a cyclic value is not separate`, "%s became %s", graphText(g), graphText(after))
	}
	// streaming
	for _, dl := range []streamer.DedupLevel{streamer.NoKeyDedup, streamer.MaxDedup} {
		dc := streamer.DataCollector()
		streamer.New(nil, &streamer.Options{DedupLevel: dl, Dialect: streamer.DgoDialect(), RichData: true}).Stream(root, dc)
		if dc.Value() == nil {
			c.Fail(`stream of a cyclic value`, "%s", graphText(g))
		}
		back := streamer.UnmarshalJSON(streamer.MarshalJSON(root, nil), nil)
		same(`JSON round trip`, back)
	}
	f.Freeze()
	frozen(root, true, `Freeze`)
	same(`Freeze`, root)
	if cl := classes(g, cObserve(c, root)); len(cl) == 0 {
		c.Fail(`Freeze`, `no content`)
	}
	m := vf.MutableMap(root, `found`)
	if !vf.Value(`found`).Equals(m.Get(fc)) || !m.ContainsKey(root) {
		if g[0].path(nil) == cObserve(c, fc)[0].path(nil) {
			c.Fail(`a cyclic key is not found`, "%s", graphText(g))
		}
	}
	c.Seen(g[0].path(nil))
}

func c24ValueTypes(c *mon.Ctx, r *rand.Rand) {
	g := cGraph(r, 1+r.Intn(3), false)
	h := replicate(r, g)
	if r.Intn(2) == 0 {
		mutate(r, h)
	}
	gv, hv, tv := cBuild(g), cBuild(h), cBuild(g)
	cl := classes(g, h)
	a, b, d := gv[g[0]], hv[h[0]], tv[g[0]]
	same := cl[g[0]] == cl[h[0]]
	t, u := a.Type(), b.Type()
	desc := func() string { return graphText(g) + "\n" + graphText(h) }
	if t.String() == `` || t.String() != d.Type().String() {
		c.Fail(`text of the type of a cyclic value`, "%s\n%s", t, desc())
	}
	if !t.Instance(a) || !t.Instance(d) || t.Instance(b) != same || u.Instance(a) != same {
		c.Fail(`instance of the type of a cyclic value`, "%v, expected %v\n%s\n%s", t.Instance(b), same, desc(), t)
	}
	if !t.Equals(d.Type()) || t.Equals(u) != same || u.Equals(t) != same {
		c.Fail(`equality of the types of cyclic values`, "%v, expected %v\n%s\n%s\n%s", t.Equals(u), same, desc(), t, u)
	}
	if t.HashCode() != d.Type().HashCode() {
		c.Fail(`hash codes of the types of equal cyclic values`, "%s", desc())
	}
	if !t.Assignable(d.Type()) || t.Assignable(u) != same || u.Assignable(t) != same {
		c.Fail(`assignability of the types of cyclic values`, "%v, expected %v\n%s\n%s\n%s", t.Assignable(u), same, desc(), t, u)
	}
	gt := typ.Generic(t)
	if gt.String() == `` || !gt.Instance(a) || !gt.Instance(d) || !gt.Assignable(t) || !typ.Generic(gt).Equals(gt) {
		c.Fail(`generic type of a cyclic value`, "%s for %s: instance %v, assignable %v", gt, desc(), gt.Instance(a), gt.Assignable(t))
	}
	if !typ.Any.Instance(a) || typ.String.Instance(a) {
		c.Fail(`instance of simple types`, "%s", desc())
	}
	_ = t.ReflectType()
	c.Count(`types of cyclic values`, 1)
	c.Seen(g[0].path(nil) + h[0].path(nil))
}

// rtype is a type expression. The named nodes may refer to each other.
type rtype struct {
	kind string // prim, arr, map, tuple, struct, any, all, one, not, sens
	prim string
	name string // set for the nodes that are referred to
	kids []*rtype
	keys []string
	req  []bool
	min  int
	max  int
	more bool
}

var rPrims = []string{`string`, `int`, `bool`, `nil`, `any`, `"a"`, `0..1`, `string[1,1]`, `"b"`, `1`}

// rGraph generates types that refer to each other. The odd ones also contain negations, exclusive alternatives, and sensitives
func rGraph(r *rand.Rand, n int, odd bool) []*rtype {
	ns := make([]*rtype, n)
	for i := range ns {
		ns[i] = &rtype{kind: []string{`arr`, `arr`, `map`, `tuple`, `struct`}[r.Intn(5)], name: fmt.Sprintf("t%d", i), max: -1}
	}
	var elem func(depth int) *rtype
	elem = func(depth int) *rtype {
		x := r.Intn(10)
		if odd && depth < 3 && r.Intn(4) == 0 {
			switch r.Intn(4) {
			case 0:
				return &rtype{kind: `not`, kids: []*rtype{elem(depth + 1)}}
			case 1:
				k := elem(depth + 1)
				if k.kind == `prim` { // no literals, see C11
					k.prim = rPrims[r.Intn(3)]
				}
				return &rtype{kind: `sens`, kids: []*rtype{k}}
			}
			return &rtype{kind: `one`, kids: []*rtype{elem(depth + 1), elem(depth + 1)}}
		}
		switch {
		case x < 3 || depth > 2:
			return &rtype{kind: `prim`, prim: rPrims[r.Intn(len(rPrims))]}
		case x < 5:
			return ns[r.Intn(n)]
		case x < 9:
			u := &rtype{kind: `any`, kids: []*rtype{elem(depth + 1), elem(depth + 1)}}
			if r.Intn(3) == 0 {
				u.kids = append(u.kids, elem(depth+1))
			}
			return u
		default:
			return &rtype{kind: `all`, kids: []*rtype{elem(depth + 1), elem(depth + 1)}}
		}
	}
	for _, t := range ns {
		switch t.kind {
		case `arr`, `map`:
			t.kids = []*rtype{elem(0)}
			if r.Intn(3) == 0 {
				t.min = r.Intn(2)
				t.max = t.min + 1 + r.Intn(2)
			}
		case `tuple`:
			for k := 1 + r.Intn(3); k > 0; k-- {
				t.kids = append(t.kids, elem(0))
			}
			t.more = len(t.kids) > 0 && r.Intn(4) == 0
		case `struct`:
			t.keys = []string{`A`, `B`, `c`}[:1+r.Intn(3)]
			for range t.keys {
				t.kids = append(t.kids, elem(0))
				t.req = append(t.req, r.Intn(2) == 0)
			}
			t.more = r.Intn(4) == 0
		}
	}
	return ns
}

// text is the source of a type. The first occurrence of a named type is its declaration.
func (t *rtype) text(declared map[*rtype]bool, prefix string) string {
	if t.name != `` {
		if declared[t] {
			return prefix + t.name
		}
		declared[t] = true
		return `(` + prefix + t.name + `=` + t.body(declared, prefix) + `)`
	}
	return t.body(declared, prefix)
}

func (t *rtype) body(declared map[*rtype]bool, prefix string) string {
	sz := ``
	if t.max >= 0 {
		sz = fmt.Sprintf("%d,%d", t.min, t.max)
	}
	switch t.kind {
	case `prim`:
		return t.prim
	case `arr`:
		return `[` + sz + `]` + t.kids[0].text(declared, prefix)
	case `map`:
		if sz != `` {
			sz = `,` + sz
		}
		return `map[string` + sz + `]` + t.kids[0].text(declared, prefix)
	}
	ps := make([]string, len(t.kids))
	for i, k := range t.kids {
		ps[i] = k.text(declared, prefix)
		switch {
		case t.kind == `struct` && t.req[i]:
			ps[i] = `"` + t.keys[i] + `":` + ps[i]
		case t.kind == `struct`:
			ps[i] = `"` + t.keys[i] + `"?:` + ps[i]
		case t.kind == `tuple` && t.more && i == len(ps)-1:
			ps[i] = `...` + ps[i]
		}
	}
	switch t.kind {
	case `not`:
		return `!(` + ps[0] + `)`
	case `sens`:
		return `sensitive[` + ps[0] + `]`
	case `one`:
		return `(` + strings.Join(ps, `^`) + `)`
	case `any`:
		return `(` + strings.Join(ps, `|`) + `)`
	case `all`:
		return `(` + strings.Join(ps, `&`) + `)`
	case `struct`:
		if t.more {
			ps = append(ps, `...`)
		}
	}
	return `{` + strings.Join(ps, `,`) + `}`
}

type rpair struct {
	t *rtype
	v *cnode
}

// tooMany is the panic value used when the number of ways through two graphs is too large for a case. The checks of
// the library follow them all, so time would be spent on nothing but repetitions.
type tooMany struct{}

func spend(budget *int) {
	if *budget--; *budget < 0 {
		panic(tooMany{})
	}
}

// ways walks all ways through a pair of types
func (t *rtype) ways(u *rtype, seen [][2]*rtype, budget *int) {
	spend(budget)
	if t.name != `` && u.name != `` {
		p := [2]*rtype{t, u}
		for _, s := range seen {
			if s == p {
				return
			}
		}
		seen = append(seen[:len(seen):len(seen)], p)
	}
	ternary := func(x *rtype) bool { return x.kind == `any` || x.kind == `all` || x.kind == `one` || x.kind == `not` }
	switch {
	case ternary(t):
		for _, k := range t.kids {
			k.ways(u, seen, budget)
		}
	case ternary(u):
		for _, k := range u.kids {
			t.ways(k, seen, budget)
		}
	default:
		for i, k := range t.kids {
			for j, m := range u.kids {
				if i == j || len(t.kids) == 1 || len(u.kids) == 1 || t.kind == `struct` || u.kind == `struct` || t.more || u.more {
					k.ways(m, seen, budget)
				}
			}
		}
	}
}

// accepts decides if a value is an instance of a type. A value that contains itself is an instance unless something
// that is not an instance can be found.
func (t *rtype) accepts(v *cnode, seen []rpair, budget *int) bool {
	spend(budget)
	if t.name != `` && v.kind != `leaf` {
		p := rpair{t, v}
		for _, s := range seen {
			if s == p {
				return true
			}
		}
		seen = append(seen[:len(seen):len(seen)], p)
	}
	switch t.kind {
	case `any`:
		for _, k := range t.kids {
			if k.accepts(v, seen, budget) {
				return true
			}
		}
		return false
	case `all`:
		for _, k := range t.kids {
			if !k.accepts(v, seen, budget) {
				return false
			}
		}
		return true
	case `one`:
		n := 0
		for _, k := range t.kids {
			n += b2i(k.accepts(v, seen, budget))
		}
		return n == 1
	case `not`:
		return !t.kids[0].accepts(v, seen, budget)
	case `sens`:
		return v.kind == `sens` && t.kids[0].accepts(v.kids[0], seen, budget)
	case `prim`:
		if t.prim == `any` {
			return true
		}
		if v.kind != `leaf` {
			return false
		}
		switch x := cLeafs[v.leaf].(type) {
		case nil:
			return t.prim == `nil`
		case bool:
			return t.prim == `bool`
		case string:
			return t.prim == `string` || t.prim == `string[1,1]` || t.prim == `"`+x+`"`
		case int:
			return t.prim == `int` || t.prim == fmt.Sprint(x) || t.prim == `0..1` && x <= 1
		}
		return false
	}
	isMap := v.kind == `map` || v.kind == `struct`
	switch t.kind {
	case `arr`, `map`:
		if isMap != (t.kind == `map`) || !isMap && v.kind != `arr` || len(v.kids) < t.min || t.max >= 0 && len(v.kids) > t.max {
			return false
		}
		for _, k := range v.kids {
			if !t.kids[0].accepts(k, seen, budget) {
				return false
			}
		}
		return true
	case `tuple`:
		n := len(t.kids)
		if v.kind != `arr` || len(v.kids) != n && !(t.more && len(v.kids) >= n-1) {
			return false
		}
		for i, k := range v.kids {
			if i >= n {
				i = n - 1
			}
			if !t.kids[i].accepts(k, seen, budget) {
				return false
			}
		}
		return true
	case `struct`:
		if !isMap {
			return false
		}
		found := 0
	next:
		for i, key := range t.keys {
			for k := range v.keys {
				if v.keys[k] == key {
					found++
					if !t.kids[i].accepts(v.kids[k], seen, budget) {
						return false
					}
					continue next
				}
			}
			if t.req[i] {
				return false
			}
		}
		return t.more || found == len(v.kids)
	}
	panic(t.kind)
}

func new1000() *int { n := 1000; return &n }

// rUnroll creates a type which is the same as the given type but with more steps before a name is used again
func rUnroll(r *rand.Rand, ns []*rtype) []*rtype {
	reps := map[*rtype][]*rtype{}
	var all []*rtype
	for i, n := range ns {
		k := 1 + r.Intn(2)
		if i == 0 && r.Intn(3) == 0 {
			k++
		}
		for ; k > 0; k-- {
			c := *n
			c.name = fmt.Sprintf("t%d", len(all))
			reps[n] = append(reps[n], &c)
			all = append(all, &c)
		}
	}
	var copyOf func(t *rtype) *rtype
	copyOf = func(t *rtype) *rtype {
		if rs, ok := reps[t]; ok {
			return rs[r.Intn(len(rs))]
		}
		c := *t
		c.kids = nil
		for _, k := range t.kids {
			c.kids = append(c.kids, copyOf(k))
		}
		return &c
	}
	for _, n := range ns {
		for _, c := range reps[n] {
			c.kids = nil
			for _, k := range n.kids {
				c.kids = append(c.kids, copyOf(k))
			}
		}
	}
	return all
}

// rMutate changes one thing in a type
func rMutate(r *rand.Rand, ns []*rtype) {
	n := ns[r.Intn(len(ns))]
	for len(n.kids) > 0 && r.Intn(3) > 0 {
		k := n.kids[r.Intn(len(n.kids))]
		if k.name != `` || n.kind == `sens` {
			break
		}
		n = k
	}
	switch {
	case n.kind == `sens`:
		n.kids[0] = &rtype{kind: `prim`, prim: rPrims[r.Intn(3)]}
	case n.kind == `prim`:
		n.prim = rPrims[r.Intn(len(rPrims))]
	case n.max >= 0 && (n.kind == `arr` || n.kind == `map`):
		n.max++
	case n.kind == `struct` && r.Intn(2) == 0:
		n.req = append([]bool{}, n.req...)
		n.req[r.Intn(len(n.req))] = r.Intn(2) == 0
	case len(n.kids) > 0:
		n.kids[r.Intn(len(n.kids))] = []*rtype{{kind: `prim`, prim: rPrims[r.Intn(len(rPrims))]}, ns[r.Intn(len(ns))]}[r.Intn(2)]
	}
}

// rValue creates a value graph that often is an instance of the type
func rValue(r *rand.Rand, t *rtype, depth int, made map[*rtype][]*cnode, all *[]*cnode) *cnode {
	if r.Intn(25) == 0 {
		return cLeaf(r.Intn(len(cLeafs)))
	}
	if t.name != `` {
		if ms := made[t]; len(ms) > 0 && (r.Intn(3) == 0 || depth > 4) {
			return ms[r.Intn(len(ms))] // makes the value cyclic or shared
		}
	}
	if depth > 6 {
		return cLeaf(r.Intn(len(cLeafs)))
	}
	add := func(kind string) *cnode {
		v := &cnode{kind: kind, id: len(*all)}
		*all = append(*all, v)
		if t.name != `` && made != nil {
			made[t] = append(made[t], v)
		}
		return v
	}
	switch t.kind {
	case `any`, `all`, `one`, `not`:
		return rValue(r, t.kids[r.Intn(len(t.kids))], depth, made, all)
	case `sens`:
		v := rValue(r, t.kids[0], depth+1, made, all)
		if v.kind == `sens` {
			return v // the content must exist when a sensitive is created
		}
		s := add(`sens`)
		s.kids = []*cnode{v}
		return s
	case `arr`, `map`:
		n := t.min + r.Intn(3)
		if t.max >= 0 && n > t.max && r.Intn(4) > 0 {
			n = t.max
		}
		if depth > 3 {
			n = t.min
		}
		v := add(t.kind)
		for i := 0; i < n && i < 3; i++ {
			if t.kind == `map` {
				v.keys = append(v.keys, []string{`A`, `B`, `c`}[i])
			}
			v.kids = append(v.kids, rValue(r, t.kids[0], depth+1, made, all))
		}
		return v
	case `tuple`:
		v := add(`arr`)
		for i, k := range t.kids {
			if t.more && i == len(t.kids)-1 {
				if r.Intn(2) == 0 {
					break
				}
				if r.Intn(2) == 0 {
					v.kids = append(v.kids, rValue(r, k, depth+1, made, all))
				}
			}
			v.kids = append(v.kids, rValue(r, k, depth+1, made, all))
		}
		return v
	case `struct`:
		v := add(`map`)
		for i, k := range t.kids {
			if t.req[i] && r.Intn(20) > 0 || r.Intn(3) == 0 {
				v.keys = append(v.keys, t.keys[i])
				v.kids = append(v.kids, rValue(r, k, depth+1, made, all))
			}
		}
		return v
	}
	for _, i := range r.Perm(len(cLeafs)) {
		if l := cLeaf(i); t.accepts(l, nil, new1000()) {
			return l
		}
	}
	return cLeaf(0)
}

func c24Types(c *mon.Ctx, r *rand.Rand, odd bool) {
	ts := rGraph(r, 1+r.Intn(3), odd)
	us := rUnroll(r, ts)
	mutated := r.Intn(2) == 0
	if mutated {
		for k := 1 + r.Intn(2); k > 0; k-- {
			rMutate(r, us)
		}
	}
	src, usrc := ts[0].text(map[*rtype]bool{}, `x`), us[0].text(map[*rtype]bool{}, `y`)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(tooMany); !ok {
				panic(e)
			}
			c.Count(`too many ways through the graphs`, 1)
		}
	}()
	for _, p := range [][2][]*rtype{{ts, us}, {us, ts}, {ts, ts}} {
		budget := 100000
		p[0][0].ways(p[1][0], nil, &budget)
	}
	parse := func(s string) dgo.Type {
		var t dgo.Type
		if e := mon.Catch(func() { t = parser.ParseFile(newAdder(), ``, s).(dgo.Type) }); e != nil {
			c.Fail(`recursive type cannot be parsed`, "%s: %v", s, e)
		}
		return t
	}
	t, t2, u := parse(src), parse(src), parse(usrc)
	if t.String() == `` || t.String() != t2.String() || len(t.String()) > 1<<16 {
		c.Fail(`text of a recursive type`, "%s: %s %s", src, t, t2)
	}
	if !t.Equals(t) || !t.Equals(t2) || !t2.Equals(t) || t.HashCode() != t2.HashCode() {
		c.Fail(`equality of a recursive type`, "%s", src)
	}
	if ok := t.Assignable(t) && t.Assignable(t2) && t2.Assignable(t); !ok && !odd {
		c.Fail(`a recursive type is not assignable to itself`, "%s", src)
	}
	if t.Equals(u) != u.Equals(t) {
		c.Fail(`equality of recursive types is not symmetric`, "%s\n%s", src, usrc)
	}
	if t.Equals(u) && t.HashCode() != u.HashCode() {
		c.Violate(`hash codes of equal types with cycles that are entered differently`, "%s\n%s", src, usrc)
	}
	_ = t.Type().String()
	gt := typ.Generic(t)
	if ok := gt.Assignable(t); gt.String() == `` || !ok && !odd {
		c.Fail(`generic form of a recursive type`, "%s: %s", src, gt)
	}
	// an array of an intersection is assignable from a tuple whose elements together make up the intersection, see C09
	tu, ut := t.Assignable(u), u.Assignable(t)
	all := odd || strings.Contains(src, `&`) || strings.Contains(usrc, `&`)
	if !mutated && (!tu || !ut) && !odd {
		c.Fail(`a recursive type and its unrolled form are not assignable to each other`, "%v %v\n%s\n%s", tu, ut, src, usrc)
	}
	if tu {
		c.Count(`assignable recursive types`, 1)
	} else {
		c.Count(`not assignable recursive types`, 1)
	}
	for k := 0; k < 8; k++ {
		var nodes []*cnode
		var made map[*rtype][]*cnode
		cy := r.Intn(3) == 0
		if cy {
			made = map[*rtype][]*cnode{}
		}
		from := ts
		if k%2 == 1 {
			from = us
		}
		v := rValue(r, from[0], 0, made, &nodes)
		if v.kind == `leaf` || len(nodes) > 24 {
			continue
		}
		if r.Intn(3) == 0 && len(nodes) > 0 {
			if cy {
				mutate(r, nodes)
			} else if n := nodes[r.Intn(len(nodes))]; len(n.kids) > 0 {
				n.kids[r.Intn(len(n.kids))] = cLeaf(r.Intn(len(cLeafs)))
			}
		}
		dv := cBuild(nodes)[v]
		b1, b2 := 20000, 20000
		want, uwant := ts[0].accepts(v, nil, &b1), us[0].accepts(v, nil, &b2)
		cls := `finite value`
		if cyclic(v, nil) {
			cls = `cyclic value`
		}
		// what a cyclic value is an instance of is not defined when a type excludes something
		free := odd && cls == `cyclic value`
		if got := t.Instance(dv); got != want && !free {
			c.Fail(cls+`: instance of a recursive type`, "expected %v, got %v\n%s\n%s", want, got, src, dv)
		}
		if got := u.Instance(dv); got != uwant && !free {
			c.Fail(cls+`: instance of a recursive type`, "expected %v, got %v\n%s\n%s", uwant, got, usrc, dv)
		}
		if !all && tu && uwant && !want || !all && ut && want && !uwant {
			c.Fail(`a recursive type is assignable but does not accept an instance`, "%v %v %v %v\n%s\n%s\n%s", tu, ut, want, uwant, src, usrc, dv)
		}
		if ok := gt.Instance(dv); want && !ok && !odd {
			c.Fail(`the generic form of a recursive type rejects an instance`, "%s\n%s\n%s", src, gt, dv)
		}
		vt := dv.Type()
		if got := t.Assignable(vt); got != want && !all {
			c.Fail(cls+`: the type of the value is assignable differently`, "instance %v, assignable %v\n%s\n%s", want, got, src, dv)
		}
		c.Count(fmt.Sprint(cls, ` `, want), 1)
		c.Seen(src + v.path(nil))
	}
	if r.Intn(8) == 0 {
		c.Sample(src + "\n" + usrc)
	}
}

// c24IllFounded checks that a type is refused or usable when names are declared in odd ways
func c24IllFounded(c *mon.Ctx, r *rand.Rand) {
	var gen func(d int) string
	names := []string{`pa`, `pb`, `pc`}
	gen = func(d int) string {
		if d > 4 {
			return `int`
		}
		switch r.Intn(12) {
		case 0, 1:
			return names[r.Intn(3)]
		case 2:
			return `(` + names[r.Intn(3)] + `=` + gen(d+1) + `)`
		case 3:
			return `[]` + gen(d+1)
		case 4:
			return `(` + gen(d+1) + `|` + gen(d+1) + `)`
		case 5:
			return `(` + gen(d+1) + `&` + gen(d+1) + `)`
		case 6:
			return `(` + gen(d+1) + `^` + gen(d+1) + `)`
		case 7:
			return `{` + gen(d+1) + `,` + gen(d+1) + `}`
		case 8:
			return `{"a":` + gen(d+1) + `}`
		case 9:
			return `map[string]` + gen(d+1)
		case 10:
			return []string{`!`, `type[`, `sensitive[`, `func(`}[r.Intn(4)] + gen(d+1)
		}
		return []string{`int`, `string`, `"a"`}[r.Intn(3)]
	}
	s := `pa=` + gen(0)
	n := strings.Count(s, `type[`) + strings.Count(s, `sensitive[`)
	if n > 0 || strings.Contains(s, `func(`) {
		// the closing brackets of the prefix forms
		s = closeForms(s)
	}
	c.Seen(s)
	vals := []dgo.Value{vf.Integer(1), vf.String(`a`), vf.Values(), vf.Values(1, vf.Values(`a`)), vf.Map(`a`, vf.Values()), vf.Nil, typ.Integer, vf.Sensitive(1)}
	e := mon.Catch(func() {
		v := parser.ParseFile(newAdder(), ``, s)
		c.Count(`accepted`, 1)
		t, ok := v.(dgo.Type)
		if !ok {
			if et, isV := v.(dgo.Value); isV {
				t = et.Type()
			}
		}
		_ = t.String() + fmt.Sprint(t.HashCode(), t.Equals(t))
		g := typ.Generic(t)
		_ = g.String()
		for _, x := range vals {
			_ = t.Instance(x)
			_ = g.Instance(x)
			_ = t.Assignable(x.Type())
			_ = x.Type().Assignable(t)
		}
		if !t.Assignable(t) {
			c.Fail(`a recursive type is not assignable to itself`, "%s", s)
		}
	})
	if e != nil {
		if isRuntimeError(e) {
			c.Fail(`ill-founded type: runtime error`, "%s: %v", s, e)
		}
		if _, ok := e.(error); !ok {
			c.Fail(`ill-founded type: panic with something that is not an error`, "%s: %v", s, e)
		}
		c.Count(`refused`, 1)
	}
	_ = tf.BuiltInAliases
}

// closeForms adds the missing brackets of the forms type[, sensitive[ and func(
func closeForms(s string) string {
	for _, p := range []struct{ open, close string }{{`type[`, `]`}, {`sensitive[`, `]`}, {`func(`, `)`}} {
		pos := 0
		for {
			i := strings.Index(s[pos:], p.open)
			if i < 0 {
				break
			}
			i += pos + len(p.open)
			// the operand ends where the nesting that surrounds the form ends or at an operator at the same level
			d, k := 0, i
		scan:
			for ; k < len(s); k++ {
				switch s[k] {
				case '(', '[', '{':
					d++
				case ')', ']', '}':
					d--
					if d < 0 {
						break scan
					}
				case '|', '&', '^', ',':
					if d == 0 {
						break scan
					}
				}
			}
			s = s[:k] + p.close + s[k:]
			pos = i
		}
	}
	return s
}
