package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C03`, Scale: 30, Run: runC03,
		Rule: `a nested value (or Go data) is derived from by one of the copying, slicing, merging, mapping, or converting operations; then the source and the result are mutated in turn, at random depth, and a full observation of the other is compared before and after each mutation; distinct = (derivation, kind and depth of the mutated node, direction) situations together with distinct source contents`})
	mon.Register(&mon.Prop{ID: `C04`, Scale: 3, Run: runC04,
		Rule: `a nested value is frozen by one of all ways to do so; a monitor walks the graph for unfrozen parts, attempts every mutator on every reachable part, mutates origin, derived values, exported Go data, and retained entries, and compares a full observation before and after each attack; distinct = (way of freezing, attack, node kind) situations together with distinct contents`})
}

// anyStruct is used where a struct with exported fields of several kinds is wrapped by a Map
type anyStruct struct {
	A string
	B int
	S []string
	P *int
	M map[string]int
	V dgo.Value
	L dgo.Array
	W dgo.Map
	X []byte
	I interface{}
	N [][]int
	h int //nolint
}

func newAnyStruct(r *rand.Rand) *anyStruct {
	p := r.Intn(100)
	s := &anyStruct{A: `a`, B: r.Intn(10), S: []string{`x`, `y`}, P: &p, M: map[string]int{`k`: 1}, X: []byte{1, 2}, N: [][]int{{1}, {2, 3}}, h: 3}
	s.V = vf.MutableValues(1, vf.MutableValues(2))
	s.L = vf.MutableValues(`l`)
	s.W = vf.MutableMap(`w`, vf.MutableValues(1))
	if r.Intn(3) == 0 {
		s.P, s.S, s.M, s.X = nil, nil, nil, nil
	}
	if r.Intn(2) == 0 {
		s.I = []string{`i`, `j`}
	}
	return s
}

// mutateStruct changes the struct, or something that it refers to, from the Go side
func mutateStruct(r *rand.Rand, s *anyStruct) string {
	switch r.Intn(9) {
	case 0:
		s.A += `!`
		return `A`
	case 1:
		s.B++
		return `B`
	case 2:
		if len(s.S) > 0 {
			s.S[0] += `!`
			return `S[0]`
		}
	case 3:
		if s.P != nil {
			*s.P++
			return `*P`
		}
	case 4:
		if s.M != nil {
			s.M[`k`]++
			return `M[k]`
		}
	case 5:
		if len(s.X) > 0 {
			s.X[0]++
			return `X[0]`
		}
	case 6:
		s.N[1][0]++
		return `N[1][0]`
	case 7:
		s.L = s.L.With(1)
		return `L`
	case 8:
		if x, ok := s.I.([]string); ok {
			x[0] += `!`
			return `I[0]`
		}
	}
	s.A += `?`
	return `A`
}

type node struct {
	v     dgo.Value
	depth int
	path  string
}

// nodes returns all values, reachable from the given value, which can be mutable
func nodes(v dgo.Value) []node {
	var ns []node
	var walk func(v dgo.Value, depth int, path string)
	walk = func(v dgo.Value, depth int, path string) {
		switch d := v.(type) {
		case dgo.Array:
			ns = append(ns, node{v, depth, path})
			for i := 0; i < d.Len(); i++ {
				walk(d.Get(i), depth+1, path+`[]`)
			}
		case dgo.Map:
			ns = append(ns, node{v, depth, path})
			d.EachEntry(func(e dgo.MapEntry) {
				walk(e.Key(), depth+1, path+`{key}`)
				walk(e.Value(), depth+1, path+`{}`)
			})
		case dgo.Binary:
			ns = append(ns, node{v, depth, path + `b`})
		case dgo.Sensitive:
			walk(d.Unwrap(), depth+1, path+`s`)
		case dgo.MapEntry:
			walk(d.Key(), depth+1, path+`ek`)
			walk(d.Value(), depth+1, path+`ev`)
		}
	}
	walk(v, 0, ``)
	return ns
}

func frozenNode(v dgo.Value) bool { return v.(dgo.Freezable).Frozen() }

// mutateNode performs a random mutation on an unfrozen value
func mutateNode(r *rand.Rand, v dgo.Value) string {
	switch d := v.(type) {
	case dgo.Array:
		n := d.Len()
		switch x := r.Intn(8); {
		case x == 0 && n > 0:
			d.Remove(r.Intn(n))
			return `Remove`
		case x == 1 && n > 0:
			d.Set(r.Intn(n), `mutated`)
			return `Set`
		case x == 2:
			d.Insert(r.Intn(n+1), `mutated`)
			return `Insert`
		case x == 3 && n > 0:
			d.Pop()
			return `Pop`
		case x == 4:
			d.AddAll(vf.Values(`mutated`, `twice`))
			return `AddAll`
		case x == 5:
			d.AddValues(`mutated`)
			return `AddValues`
		case x == 6 && n > 0:
			d.GoSlice()[r.Intn(n)] = vf.String(`mutated`)
			return `GoSlice`
		default:
			d.Add(`mutated`)
			return `Add`
		}
	case dgo.Struct:
		d.Put(`A`, fmt.Sprint(`mutated`, r.Intn(1000)))
		d.Put(`B`, r.Intn(1000)+1000)
		return `Put`
	case dgo.Map:
		n := d.Len()
		ks := d.Keys()
		switch x := r.Intn(6); {
		case x == 0 && n > 0:
			d.Remove(ks.Get(r.Intn(n)))
			return `Remove`
		case x == 1 && n > 0:
			d.Put(ks.Get(r.Intn(n)), `mutated`)
			return `Put existing`
		case x == 2 && n > 0:
			d.RemoveAll(vf.Values(ks.Get(0)))
			return `RemoveAll`
		case x == 3:
			d.PutAll(vf.Map(`mutated`, r.Intn(1000), `more`, 1))
			return `PutAll`
		default:
			d.Put(`mutated`, r.Intn(1000))
			return `Put`
		}
	case dgo.Binary:
		bs := d.GoBytes()
		if len(bs) > 0 {
			bs[r.Intn(len(bs))]++
			return `GoBytes`
		}
	}
	return ``
}

// obsText observes without failing on natives
func obsText(v dgo.Value) string { return gen.Observe(v).Canon(false) }

type derivation struct {
	name string
	deep bool // the result shares nothing that is mutable
	f    func(r *rand.Rand, v dgo.Value) (dgo.Value, bool)
}

func arrOp(name string, f func(r *rand.Rand, a dgo.Array) dgo.Value) derivation {
	return derivation{name, false, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		if a, ok := v.(dgo.Array); ok {
			return f(r, a), true
		}
		return nil, false
	}}
}

func mapOp(name string, f func(r *rand.Rand, m dgo.Map) dgo.Value) derivation {
	return derivation{name, false, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		if a, ok := v.(dgo.Map); ok {
			return f(r, a), true
		}
		return nil, false
	}}
}

var derivations = []derivation{
	{`FrozenCopy`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) { return v.(dgo.Freezable).FrozenCopy(), true }},
	{`ThawedCopy`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) { return v.(dgo.Freezable).ThawedCopy(), true }},
	{`Copy(false)`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		switch d := v.(type) {
		case dgo.Array:
			return d.Copy(false), true
		case dgo.Map:
			return d.Copy(false), true
		case dgo.Binary:
			return d.Copy(false), true
		}
		return nil, false
	}},
	{`Copy(true)`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		switch d := v.(type) {
		case dgo.Array:
			return d.Copy(true), true
		case dgo.Map:
			return d.Copy(true), true
		case dgo.Binary:
			return d.Copy(true), true
		}
		return nil, false
	}},
	{`vf.Values`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) { return vf.Values(v), true }},
	{`vf.Map`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) { return vf.Map(`k`, v), true }},
	{`vf.Map key`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) { return vf.Map(v, 1), true }},
	{`vf.MutableMap key`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) { return vf.MutableMap(v, 1), true }},
	{`MapEntry key`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) { return vf.Values(vf.MapEntry(v, 1)), true }},
	{`vf.Array([]Value)`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) { return vf.Array([]dgo.Value{v}), true }},
	{`vf.Value(go map)`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		return vf.Value(map[string]dgo.Value{`a`: v}), true
	}},
	{`vf.Value([]interface)`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		return vf.Value([]interface{}{v}), true
	}},
	{`frozen With`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) { return vf.Values(1).With(v), true }},
	{`frozen WithAll`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		return vf.Values(1).WithAll(vf.MutableValues(v)), true
	}},
	{`frozen map With`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) { return vf.Map(`a`, 1).With(`a`, v), true }},
	{`frozen map Merge`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		return vf.Map(`a`, 1).Merge(vf.MutableMap(`b`, v)), true
	}},
	{`entry FrozenCopy`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		return vf.MapEntry(`k`, v).FrozenCopy(), true
	}},
	{`entry ThawedCopy`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		return vf.MapEntry(`k`, v).ThawedCopy(), true
	}},
	{`sensitive ThawedCopy`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		return vf.Sensitive(v).(dgo.Freezable).ThawedCopy(), true
	}},
	{`sensitive FrozenCopy`, true, func(r *rand.Rand, v dgo.Value) (dgo.Value, bool) {
		return vf.Sensitive(v).(dgo.Freezable).FrozenCopy(), true
	}},
	arrOp(`With`, func(r *rand.Rand, a dgo.Array) dgo.Value { return a.With(`x`) }),
	arrOp(`WithValues`, func(r *rand.Rand, a dgo.Array) dgo.Value { return a.WithValues(`x`, `y`) }),
	arrOp(`WithAll`, func(r *rand.Rand, a dgo.Array) dgo.Value { return a.WithAll(vf.Values(`x`)) }),
	arrOp(`Slice`, func(r *rand.Rand, a dgo.Array) dgo.Value {
		i := r.Intn(a.Len() + 1)
		return a.Slice(i, i+r.Intn(a.Len()-i+1))
	}),
	arrOp(`Slice all`, func(r *rand.Rand, a dgo.Array) dgo.Value { return a.Slice(0, a.Len()) }),
	arrOp(`Map`, func(r *rand.Rand, a dgo.Array) dgo.Value { return a.Map(func(e dgo.Value) interface{} { return e }) }),
	arrOp(`Select`, func(r *rand.Rand, a dgo.Array) dgo.Value { return a.Select(func(dgo.Value) bool { return true }) }),
	arrOp(`Reject`, func(r *rand.Rand, a dgo.Array) dgo.Value { return a.Reject(func(dgo.Value) bool { return false }) }),
	arrOp(`WrapSlice of AppendToSlice`, func(r *rand.Rand, a dgo.Array) dgo.Value { return vf.WrapSlice(a.AppendToSlice(nil)) }),
	arrOp(`InterfaceSlice`, func(r *rand.Rand, a dgo.Array) dgo.Value { return vf.MutableValues(a.InterfaceSlice()...) }),
	arrOp(`ToMap`, func(r *rand.Rand, a dgo.Array) dgo.Value { return a.ToMap() }),
	arrOp(`array in AddAll`, func(r *rand.Rand, a dgo.Array) dgo.Value {
		x := vf.ArrayWithCapacity(0)
		x.AddAll(a)
		return x
	}),
	mapOp(`With`, func(r *rand.Rand, m dgo.Map) dgo.Value { return m.With(`x`, 1) }),
	mapOp(`With existing`, func(r *rand.Rand, m dgo.Map) dgo.Value {
		if m.Len() == 0 {
			return m.With(`x`, `y`)
		}
		return m.With(m.Keys().Get(0), `a new value`)
	}),
	mapOp(`Without`, func(r *rand.Rand, m dgo.Map) dgo.Value { return m.With(`x`, 1).Without(`x`) }),
	mapOp(`WithoutAll`, func(r *rand.Rand, m dgo.Map) dgo.Value { return m.With(`x`, 1).WithoutAll(vf.Values(`x`)) }),
	mapOp(`Merge`, func(r *rand.Rand, m dgo.Map) dgo.Value { return m.Merge(vf.Map(`x`, 1)) }),
	mapOp(`merged`, func(r *rand.Rand, m dgo.Map) dgo.Value { return vf.MutableMap(`x`, 1).Merge(m) }),
	mapOp(`PutAll of`, func(r *rand.Rand, m dgo.Map) dgo.Value {
		x := vf.MutableMap()
		x.PutAll(m)
		return x
	}),
	mapOp(`Map`, func(r *rand.Rand, m dgo.Map) dgo.Value {
		return m.Map(func(e dgo.MapEntry) interface{} { return e.Value() })
	}),
	mapOp(`Keys`, func(r *rand.Rand, m dgo.Map) dgo.Value { return m.Keys() }),
	mapOp(`Values`, func(r *rand.Rand, m dgo.Map) dgo.Value { return m.Values() }),
	mapOp(`frozen entries`, func(r *rand.Rand, m dgo.Map) dgo.Value {
		es := []interface{}{}
		m.EachEntry(func(e dgo.MapEntry) { es = append(es, e) })
		return vf.Values(es...)
	}),
	mapOp(`ToMapFromEntries`, func(r *rand.Rand, m dgo.Map) dgo.Value {
		a := vf.ArrayWithCapacity(0)
		m.EachEntry(func(e dgo.MapEntry) { a.Add(e) })
		x, _ := a.ToMapFromEntries()
		return x
	}),
	mapOp(`vf.MutableMap of flat array`, func(r *rand.Rand, m dgo.Map) dgo.Value {
		a := vf.ArrayWithCapacity(0)
		m.EachEntry(func(e dgo.MapEntry) { a.AddValues(e.Key(), e.Value()) })
		return vf.MutableMap(a)
	}),
}

func runC03(c *mon.Ctx) {
	cfg := &gen.Cfg{Depth: 3, MaxLen: 4, NoErr: true}
	c.Run(`derive`, c.N(16000, 400000), func(r *rand.Rand, i int) { c03Derive(c, r, cfg, i) })
	c.Run(`struct`, c.N(3000, 60000), func(r *rand.Rand, i int) { c03Struct(c, r) })
	c.Run(`godata`, c.N(2000, 40000), func(r *rand.Rand, i int) { c03GoData(c, r) })
	c.Run(`thawed`, c.N(3000, 60000), func(r *rand.Rand, i int) { c03Thawed(c, r, cfg) })
}

func genCollection(r *rand.Rand, cfg *gen.Cfg) *gen.V {
	if r.Intn(8) == 0 {
		return gen.Bin([]byte{1, 2, byte(r.Intn(256))})
	}
	if r.Intn(2) == 0 {
		return gen.GenArr(r, cfg)
	}
	return gen.GenMap(r, cfg)
}

func hasNative(v dgo.Value) bool {
	return false
}

func c03Derive(c *mon.Ctx, r *rand.Rand, cfg *gen.Cfg, i int) {
	l := &log{}
	m := genCollection(r, cfg)
	frozen := r.Intn(4) == 0
	x := m.Build(r, !frozen)
	d := derivations[i%len(derivations)]
	y, ok := d.f(r, x)
	if !ok {
		return
	}
	l.add("x = %s (frozen %v), y = %s of x", m, frozen, d.name)
	want(c, l, d.name+`: source changed by the derivation`, m, x)
	if x == y {
		// legal only when x is frozen, or when the result has the content of the receiver
		if !frozen && d.deep {
			c.Fail(d.name+` returned the receiver`, "%s", l)
		}
		return
	}
	c.Seen(m.Canon(true))
	for k := 0; k < 6; k++ {
		a, b, dir := x, y, `source`
		if r.Intn(2) == 0 {
			a, b, dir = y, x, `result`
		}
		ns := nodes(a)
		var cand []node
		for _, n := range ns {
			if !frozenNode(n.v) && (d.deep || n.depth == 0) {
				cand = append(cand, n)
			}
		}
		if len(cand) == 0 {
			continue
		}
		n := cand[r.Intn(len(cand))]
		before := obsText(b)
		op := mutateNode(r, n.v)
		if op == `` {
			continue
		}
		l.add("%s of %s at depth %d %s", op, dir, n.depth, n.path)
		c.Count(`mutations`, 1)
		if n.depth > 0 {
			c.Count(`nested mutations`, 1)
		}
		c.Seen(fmt.Sprint(`sit:`, d.name, op, n.depth, dir, reflect.TypeOf(n.v)))
		if after := obsText(b); after != before {
			c.Fail(d.name+`: mutation of the `+dir+` is visible through the other`, "was %s, is %s\n%s", before, after, l)
		}
	}
	c.Sample(l.String())
}

// c03Thawed checks that thawed copies are mutable on all levels
func c03Thawed(c *mon.Ctx, r *rand.Rand, cfg *gen.Cfg) {
	l := &log{}
	m := genCollection(r, cfg)
	x := m.Build(r, r.Intn(2) == 0)
	l.add("x = %s", m)
	y := x.(dgo.Freezable).ThawedCopy()
	if r.Intn(2) == 0 {
		switch d := x.(type) {
		case dgo.Array:
			y = d.Copy(false)
		case dgo.Map:
			y = d.Copy(false)
		case dgo.Binary:
			y = d.Copy(false)
		}
	}
	want(c, l, `thawed copy content`, m, y)
	var walk func(v dgo.Value)
	walk = func(v dgo.Value) {
		if f, ok := v.(dgo.Freezable); ok && v.Type().TypeIdentifier() != dgo.TiErrorExact {
			switch v.(type) {
			case dgo.Array, dgo.Map, dgo.Binary:
				c.Count(`thawed parts`, 1)
				if f.Frozen() {
					c.Fail(`thawed copy has a frozen part`, "%T %s\n%s", v, canonOf(v), l)
				}
			}
		}
		switch d := v.(type) {
		case dgo.Array:
			d.Each(walk)
		case dgo.Map:
			d.EachValue(walk)
		case dgo.Sensitive:
			walk(d.Unwrap())
		}
	}
	walk(y)
	c.Seen(m.Canon(true))
}

func c03Struct(c *mon.Ctx, r *rand.Rand) {
	l := &log{}
	s := newAnyStruct(r)
	x := vf.Map(s)
	type der struct {
		n    string
		deep bool
		f    func() dgo.Value
	}
	ds := []der{
		{`Copy(true)`, true, func() dgo.Value { return x.Copy(true) }},
		{`Copy(false)`, true, func() dgo.Value { return x.Copy(false) }},
		{`FrozenCopy`, true, func() dgo.Value { return x.FrozenCopy() }},
		{`ThawedCopy`, true, func() dgo.Value { return x.ThawedCopy() }},
		{`With`, false, func() dgo.Value { return x.With(`A`, `z`) }},
		{`Without`, false, func() dgo.Value { return x.Without(`A`) }},
		{`WithoutAll`, false, func() dgo.Value { return x.WithoutAll(vf.Values(`A`)) }},
		{`Merge`, false, func() dgo.Value { return x.Merge(vf.Map(`A`, `q`)) }},
		{`Map`, false, func() dgo.Value { return x.Map(func(e dgo.MapEntry) interface{} { return e.Value() }) }},
		{`Keys`, false, func() dgo.Value { return x.Keys() }},
		{`Values`, false, func() dgo.Value { return x.Values() }},
		{`vf.Values`, true, func() dgo.Value { return vf.Values(x) }},
		{`vf.Map(struct)`, false, func() dgo.Value { return vf.Map(*s) }},
	}
	d := ds[r.Intn(len(ds))]
	l.add("y = %s of struct %s", d.n, obsText(x))
	y := d.f()
	for k := 0; k < 5; k++ {
		before := obsText(y)
		if (d.deep || k == 0) && r.Intn(2) == 0 {
			f := mutateStruct(r, s)
			l.add("mutated field %s", f)
			if !d.deep && f != `A` && f != `B` && f != `L` {
				continue // a field of the struct refers to shared Go data
			}
			c.Seen(fmt.Sprint(`sit:struct`, d.n, f))
		} else if d.deep {
			var cand []node
			for _, n := range nodes(x) {
				if !frozenNode(n.v) {
					cand = append(cand, n)
				}
			}
			if len(cand) == 0 {
				return
			}
			n := cand[r.Intn(len(cand))]
			l.add("%s at %s", mutateNode(r, n.v), n.path)
			c.Seen(fmt.Sprint(`sit:struct`, d.n, n.path))
		} else {
			x.Put(`A`, fmt.Sprint(`put`, k))
		}
		c.Count(`mutations`, 1)
		if after := obsText(y); before != after {
			c.Fail(`struct `+d.n+`: mutation of the struct is visible in the derived value`, "was %s, is %s\n%s", before, after, l)
		}
	}
	// the other direction
	bx := obsText(x)
	bs := fmt.Sprintf("%v %v %v %v", s.A, s.B, s.S, s.M)
	for k := 0; k < 4; k++ {
		var cand []node
		for _, n := range nodes(y) {
			if !frozenNode(n.v) && (d.deep || n.depth == 0) {
				cand = append(cand, n)
			}
		}
		if len(cand) == 0 {
			return
		}
		n := cand[r.Intn(len(cand))]
		l.add("derived: %s at %s", mutateNode(r, n.v), n.path)
		c.Count(`mutations`, 1)
		if ax := obsText(x); ax != bx {
			c.Fail(`struct `+d.n+`: mutation of the derived value is visible in the struct`, "was %s, is %s\n%s", bx, ax, l)
		}
		if as := fmt.Sprintf("%v %v %v %v", s.A, s.B, s.S, s.M); as != bs {
			c.Fail(`struct `+d.n+`: mutation of the derived value writes to the Go struct`, "was %s, is %s\n%s", bs, as, l)
		}
	}
}

// c03GoData checks that values created from Go data are independent of that data, and that exported Go data is
// independent of a frozen value
func c03GoData(c *mon.Ctx, r *rand.Rand) {
	l := &log{}
	mut := vf.MutableValues(1)
	si := []interface{}{1, `a`, []string{`n`}, map[string]interface{}{`m`: []int{1}}, mut}
	ss := []string{`a`, `b`}
	is := []int{1, 2}
	bs := []byte{1, 2, 3}
	ms := map[string]interface{}{`a`: 1, `b`: []string{`x`}, `c`: []byte{1}, `d`: mut}
	mi := map[string]int{`a`: 1, `b`: 2}
	vs := []dgo.Value{vf.String(`a`), mut}
	mv := map[string]dgo.Value{`v`: mut}
	vals := map[string]dgo.Value{
		`vf.Value([]interface{})`: vf.Value(si), `vf.Value([]string)`: vf.Value(ss), `vf.Value([]int)`: vf.Value(is), `vf.Value([]byte)`: vf.Value(bs),
		`vf.Value(map)`: vf.Value(ms), `vf.Value(map[string]int)`: vf.Value(mi), `vf.Value([]Value)`: vf.Value(vs), `vf.Value(map[string]Value)`: vf.Value(mv),
		`vf.Map(map)`: vf.Map(ms), `vf.Array`: vf.Array(vs), `vf.Array([]interface{})`: vf.Array(si), `vf.Strings`: vf.Strings(ss...), `vf.Integers`: vf.Integers(is...),
		`vf.Values`: vf.Values(si...), `vf.Binary`: vf.Binary(bs, true), `vf.Map(map[string]Value)`: vf.Map(mv), `vf.MutableMap(map)`: vf.MutableMap(mi),
		`vf.FromReflectedMap`: vf.FromReflectedMap(reflect.ValueOf(mi), false),
	}
	before := map[string]string{}
	for k, v := range vals {
		before[k] = obsText(v)
	}
	for k := 0; k < 8; k++ {
		switch x := r.Intn(9); x {
		case 0:
			si[r.Intn(2)] = r.Intn(1000)
			si[2].([]string)[0] += `!`
		case 1:
			ss[r.Intn(2)] += `!`
		case 2:
			is[r.Intn(2)]++
		case 3:
			bs[r.Intn(3)]++
		case 4:
			ms[`a`] = r.Intn(1000)
			ms[`b`].([]string)[0] += `!`
			ms[`c`].([]byte)[0]++
		case 5:
			mi[`a`]++
			mi[fmt.Sprint(r.Intn(100))] = 1
		case 6:
			vs[0] = vf.String(fmt.Sprint(r.Intn(1000)))
		case 7:
			mut.Add(r.Intn(1000))
		case 8:
			si[3].(map[string]interface{})[`m`].([]int)[0]++
		}
		c.Count(`mutations`, 1)
		for n, v := range vals {
			if a := obsText(v); a != before[n] {
				c.Fail(n+` changes with the Go data it was created from`, "was %s, is %s\n%s", before[n], a, l)
			}
		}
	}
	c.Seen(fmt.Sprint(si, ss, is, bs, mi))
}

func runC04(c *mon.Ctx) {
	cfg := &gen.Cfg{Depth: 3, MaxLen: 4, NoErr: true}
	c.Run(`frozen`, c.N(12000, 300000), func(r *rand.Rand, i int) { c04Frozen(c, r, cfg) })
	c.Run(`struct`, c.N(2000, 40000), func(r *rand.Rand, i int) { c04Struct(c, r) })
	c.Run(`failedfreeze`, c.N(2000, 40000), func(r *rand.Rand, i int) { c04FailedFreeze(c, r) })
	c.Run(`goalias`, c.N(6000, 150000), func(r *rand.Rand, i int) { c04GoAlias(c, r) })
	c.Run(`gopointer`, c.N(2000, 40000), func(r *rand.Rand, i int) { c04GoPointer(c, r) })
}

// withNative creates a mutable collection with a native, which cannot be frozen, somewhere within
func withNative(r *rand.Rand, depth int) dgo.Value {
	var nested dgo.Value
	if depth == 0 {
		nested = vf.Value(&natLeaf{1, 2})
	} else {
		nested = withNative(r, depth-1)
	}
	es := []interface{}{vf.MutableValues(r.Intn(9)), nested, vf.MutableMap(`a`, vf.MutableValues(1)), vf.Binary([]byte{1}, false), `x`}
	r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	switch r.Intn(4) {
	case 0:
		m := vf.MutableMap()
		for i, e := range es {
			m.Put(i, e)
		}
		return m
	case 1:
		var v dgo.Value
		var d dgo.Value
		v, d = vf.Value(es[0]), vf.MutableValues(2)
		s := vf.Map(&struct{ A, N, Z dgo.Value }{v, nested, d})
		return s
	case 2:
		if depth > 0 {
			return vf.MutableValues(vf.Sensitive(nested))
		}
	}
	a := vf.MutableValues()
	for _, e := range es {
		a.Add(e)
	}
	return a
}

// c04FailedFreeze checks that nothing claims to be frozen while it has mutable content after Freeze has failed
func c04FailedFreeze(c *mon.Ctx, r *rand.Rand) {
	depth := r.Intn(4)
	v := withNative(r, depth)
	var e interface{}
	how := r.Intn(3)
	switch how {
	case 0:
		e = mon.Catch(func() { v.(dgo.Freezable).Freeze() })
	case 1:
		var fc dgo.Value
		if e = mon.Catch(func() { fc = v.(dgo.Freezable).FrozenCopy() }); e == nil {
			v = fc
		}
	default:
		e = mon.Catch(func() { vf.MutableMap(`k`, v).Freeze() })
	}
	if e != nil {
		c.Count(`failed attempts to freeze`, 1)
		if isRuntimeError(e) {
			c.Fail(`freezing causes a runtime error`, "%s: %v", v, e)
		}
	}
	var unfrozen func(v dgo.Value) string
	unfrozen = func(v dgo.Value) string {
		what := ``
		sub := func(x dgo.Value) {
			if f, ok := x.(dgo.Freezable); ok && !f.Frozen() {
				what = fmt.Sprintf(`%T %s`, x, x)
			}
		}
		switch d := v.(type) {
		case dgo.Array:
			d.Each(sub)
		case dgo.Map:
			d.EachValue(sub)
		}
		return what
	}
	for _, n := range nodes(v) {
		if !frozenNode(n.v) {
			continue
		}
		if w := unfrozen(n.v); w != `` {
			c.Fail(`a collection claims to be frozen but has mutable content after a failed freeze`, "%T %s at %s has %s", n.v, n.v, n.path, w)
		}
	}
	c.Seen(fmt.Sprintf(`failed %d %d %s`, how, depth, v))
}

// c04GoPointer writes through Go pointers that were obtained from immutable values
func c04GoPointer(c *mon.Ctx, r *rand.Rand) {
	m := gen.GenScalar(r, &gen.Cfg{})
	v := m.Build(r, false)
	src := v
	var t reflect.Type
	switch m.K {
	case gen.KBool:
		t = reflect.TypeOf(true)
	case gen.KInt:
		t = reflect.TypeOf(int64(0))
	case gen.KFloat:
		t = reflect.TypeOf(0.0)
	case gen.KStr:
		t = reflect.TypeOf(``)
	case gen.KBin:
		t = reflect.TypeOf([]byte{})
	case gen.KTime:
		t = reflect.TypeOf(time.Time{})
	case gen.KErr:
		t = reflect.TypeOf((*error)(nil)).Elem()
	default:
		return
	}
	pt := reflect.PointerTo(t)
	shape := r.Intn(4)
	switch shape {
	case 1:
		src, pt = vf.Values(v), reflect.SliceOf(pt)
	case 2:
		src, pt = vf.Map(`k`, v), reflect.MapOf(reflect.TypeOf(``), pt)
	case 3:
		pt = reflect.TypeOf((*interface{})(nil)).Elem()
	}
	dest := reflect.New(pt).Elem()
	vf.ReflectTo(src, dest)
	switch shape {
	case 1:
		dest = dest.Index(0)
	case 2:
		dest = dest.MapIndex(reflect.ValueOf(`k`))
	case 3:
		dest = dest.Elem()
	}
	if dest.Kind() == reflect.Ptr && m.K != gen.KErr || shape != 3 && dest.Kind() == reflect.Ptr {
		if bs, ok := dest.Elem().Interface().([]byte); ok {
			for i := range bs {
				bs[i]++
			}
		}
		dest.Elem().Set(reflect.Zero(dest.Type().Elem()))
	} else if bs, ok := dest.Interface().([]byte); ok {
		for i := range bs {
			bs[i]++
		}
	}
	c.Count(`writes through Go pointers`, 1)
	if !gen.Same(m, v) {
		if m.K == gen.KTime {
			c.Violate(`a time changes through the Go pointer obtained from it`, "%s is now %s", m.Canon(false), v)
		} else {
			c.Fail(`an immutable value changes through a Go pointer obtained from it`, "%s is now %s", m.Canon(false), v)
		}
	}
	c.Seen(m.Canon(false) + fmt.Sprint(shape))
}

type freezer struct {
	name string
	f    func(r *rand.Rand, m *gen.V) (origin, frozen dgo.Value)
}

var freezers = []freezer{
	{`FrozenCopy`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		return x, x.(dgo.Freezable).FrozenCopy()
	}},
	{`Freeze`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		x.(dgo.Freezable).Freeze()
		return nil, x
	}},
	{`immutable constructor`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		return nil, m.Build(r, false)
	}},
	{`vf.Values`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		return x, vf.Values(1, x)
	}},
	{`vf.Map`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		return x, vf.Map(`a`, x, x, 2)
	}},
	{`vf.Array`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		if a, ok := x.(dgo.Array); ok {
			return x, vf.Array(a)
		}
		return x, vf.Array([]interface{}{x, map[string]interface{}{`q`: x}, []dgo.Value{x}})
	}},
	{`frozen With`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		return x, vf.Values(1).With(x).WithValues(x, []interface{}{x}).WithAll(vf.MutableValues(x))
	}},
	{`frozen map With`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		return x, vf.Map(`a`, 1).With(`a`, x).With(`b`, x).With(x, x).Merge(vf.MutableMap(`c`, x, x, x))
	}},
	{`frozen Map(mapper)`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		return x, vf.Values(vf.Values(1, 2).Map(func(dgo.Value) interface{} { return x }), vf.Map(`a`, 1).Map(func(dgo.MapEntry) interface{} { return x }))
	}},
	{`sensitive`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		return x, vf.Sensitive(x).(dgo.Freezable).FrozenCopy()
	}},
	{`sensitive Freeze`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := vf.Sensitive(m.Build(r, true))
		x.(dgo.Freezable).Freeze()
		return nil, x
	}},
	{`entry FrozenCopy`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		return x, vf.MapEntry(x, x).FrozenCopy()
	}},
	{`entry Freeze`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := vf.MapEntry(m.Build(r, true), m.Build(r, true))
		x.Freeze()
		return nil, x
	}},
	{`entries of a mutable map`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		mm := vf.MutableMap(`a`, 1, `b`, x)
		var es []interface{}
		mm.EachEntry(func(e dgo.MapEntry) { es = append(es, e) })
		return mm, vf.Values(es...)
	}},
	{`WithAll of a mutable map`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		mm := vf.MutableMap(`a`, 1, `b`, m.Build(r, true))
		return mm, vf.Values(1).WithAll(mm)
	}},
	{`array of a mutable map`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		mm := vf.MutableMap(`a`, 1, `b`, m.Build(r, true))
		return mm, vf.Array(mm)
	}},
	{`ToMap of frozen`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		return x, vf.Values(`a`, x, x, 1).ToMap()
	}},
	{`ToMapFromEntries of frozen`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		a, _ := vf.Values(vf.Values(`a`, x), vf.MapEntry(`b`, x), vf.Values(x, 2)).ToMapFromEntries()
		return x, a
	}},
	{`Flatten of frozen`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		return x, vf.Values(x, vf.Values(x, 1)).Flatten()
	}},
	{`Arguments`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		return x, vf.Arguments(x, 1)
	}},
	{`keys of mutable`, func(r *rand.Rand, m *gen.V) (dgo.Value, dgo.Value) {
		x := m.Build(r, true)
		mm := vf.MutableMap(x, 1, `a`, 2)
		mm.Put(vf.MutableValues(x), 3)
		return x, mm.Keys()
	}},
}

func c04Frozen(c *mon.Ctx, r *rand.Rand, cfg *gen.Cfg) {
	l := &log{}
	m := genCollection(r, cfg)
	fz := freezers[r.Intn(len(freezers))]
	x, y := fz.f(r, m)
	l.add("%s of %s", fz.name, m)
	before := obsText(y)
	hash := y.HashCode()
	same := func(what string) {
		if a := obsText(y); a != before {
			c.Fail(`frozen value changed by `+what, "%s: was %s, is %s\n%s", fz.name, before, a, l)
		}
		c.Count(`attacks`, 1)
	}
	if s := notDeepFrozen(y); s != `` {
		c.Fail(fz.name+`: part is not frozen`, "%s\n%s", s, l)
	}
	if _, ok := y.(dgo.Arguments); !ok && y.(dgo.Freezable).FrozenCopy() != y {
		c.Fail(fz.name+`: frozen copy of frozen value is not that value`, "%s", l)
	}
	if x != nil {
		for _, n := range nodes(x) {
			// the copy must not have frozen the original
			if frozenNode(n.v) && n.path == `` {
				c.Fail(fz.name+`: the original was frozen`, "%s\n%s", n.path, l)
			}
		}
		for k := 0; k < 4; k++ {
			var cand []node
			for _, n := range nodes(x) {
				if !frozenNode(n.v) {
					cand = append(cand, n)
				}
			}
			n := cand[r.Intn(len(cand))]
			if op := mutateNode(r, n.v); op != `` {
				c.Seen(fmt.Sprint(`sit:origin`, fz.name, op, n.depth))
				same(`mutation of the origin`)
			}
		}
	}
	attackAll(c, r, l, y, same)
	if y.HashCode() != hash {
		c.Fail(`hash code of a frozen value changed`, "%s", l)
	}
	c.Seen(m.Canon(true))
	c.Sample(l.String())
}

// attackAll attempts to change a frozen value through everything it gives access to
func attackAll(c *mon.Ctx, r *rand.Rand, l *log, y dgo.Value, same func(string)) {
	for _, n := range nodes(y) {
		n := n
		try := func(what string, f func()) {
			c.Seen(fmt.Sprint(`sit:attack`, what, reflect.TypeOf(n.v), n.depth))
			if mon.Catch(f) == nil {
				c.Fail(what+` on a frozen value does not panic`, "at %s\n%s", n.path, l)
			}
			same(what)
		}
		switch d := n.v.(type) {
		case dgo.Array:
			ln := d.Len()
			try(`Array.Add`, func() { d.Add(1) })
			try(`Array.AddAll`, func() { d.AddAll(vf.Values(1)) })
			try(`Array.AddValues`, func() { d.AddValues(1) })
			try(`Array.Insert`, func() { d.Insert(0, 1) })
			try(`Array.Pop`, func() { d.Pop() })
			try(`Array.Remove`, func() { d.Remove(0) })
			if ln > 0 {
				try(`Array.RemoveValue`, func() { d.RemoveValue(d.Get(0)) })
				try(`Array.Set`, func() { d.Set(0, 1) })
				for i := range d.GoSlice() {
					d.GoSlice()[i] = vf.String(`attacked`)
				}
				same(`Array.GoSlice`)
				as := d.AppendToSlice(make([]dgo.Value, 0, ln+4))
				for i := range as {
					as[i] = vf.Nil
				}
				is := d.InterfaceSlice()
				for i := range is {
					is[i] = 1
				}
				same(`Array.AppendToSlice`)
			}
			var gs []dgo.Value
			if mon.Catch(func() { vf.FromValue(d, &gs) }) == nil {
				for i := range gs {
					gs[i] = vf.Nil
				}
				same(`FromValue to []Value`)
			}
			var gi []interface{}
			if mon.Catch(func() { vf.FromValue(d, &gi) }) == nil {
				for i := range gi {
					if b, ok := gi[i].([]byte); ok && len(b) > 0 {
						b[0]++
					}
					gi[i] = 1
				}
				same(`FromValue to []interface{}`)
			}
			// derived values are frozen
			i := r.Intn(ln + 1)
			for nm, x := range map[string]dgo.Array{`Slice`: d.Slice(i, ln), `With`: d.With(vf.MutableValues(1)), `WithAll`: d.WithAll(vf.MutableValues(vf.MutableValues(1))),
				`WithValues`: d.WithValues(vf.MutableMap(`a`, vf.MutableValues(1))), `Select`: d.Select(func(dgo.Value) bool { return true }),
				`Reject`: d.Reject(func(dgo.Value) bool { return false }), `Flatten`: d.Flatten(), `Unique`: d.Unique(), `Sort`: d.Sort(),
				`Map`: d.Map(func(e dgo.Value) interface{} { return []interface{}{vf.MutableValues(e)} })} {
				if s := notDeepFrozen(x); s != `` {
					c.Fail(`Array.`+nm+` of a frozen array is not frozen`, "%s\n%s", s, l)
				}
			}
			// a mutable array that started from a part of this one
			tc := d.Slice(i, ln).Copy(false)
			tc.Add(1)
			tc.Set(0, `attacked`)
			same(`mutation of a thawed slice`)
			if s := notDeepFrozen(d.ToMap()); s != `` {
				c.Fail(`Array.ToMap of a frozen array is not frozen`, "%s\n%s", s, l)
			}
		case dgo.Map:
			try(`Map.Put`, func() { d.Put(`x`, 1) })
			try(`Map.PutAll`, func() { d.PutAll(vf.Map(`x`, 1)) })
			try(`Map.Remove`, func() { d.Remove(`x`) })
			if d.Len() > 0 {
				k := d.Keys().Get(0)
				try(`Map.Put existing`, func() { d.Put(k, 1) })
				try(`Map.Remove existing`, func() { d.Remove(k) })
				try(`Map.RemoveAll`, func() { d.RemoveAll(vf.Values(k)) })
			}
			mm := d.With(`an additional key`, 1)
			for nm, x := range map[string]dgo.Value{`With`: d.With(`x`, vf.MutableValues(1)), `Without`: mm.Without(`an additional key`), `WithoutAll`: mm.WithoutAll(vf.Strings(`an additional key`)),
				`Merge`: d.With(`q`, 1).Merge(vf.MutableMap(`x`, vf.MutableValues(1))), `Keys`: d.Keys(), `Values`: d.Values(),
				`Map`: d.Map(func(e dgo.MapEntry) interface{} { return vf.MutableValues(vf.MutableValues(1)) })} {
				if s := notDeepFrozen(x); s != `` {
					c.Fail(`Map.`+nm+` of a frozen map is not frozen`, "%s\n%s", s, l)
				}
			}
			d.EachEntry(func(e dgo.MapEntry) {
				if !e.Frozen() || e.FrozenCopy() != e {
					c.Fail(`entry of a frozen map is not frozen`, "%s\n%s", canonOf(e.Key()), l)
				}
			})
			tc := d.Copy(false)
			tc.Put(`x`, 1)
			if d.Len() > 0 {
				tc.Put(d.Keys().Get(0), `attacked`)
				tc.Remove(d.Keys().Get(0))
			}
			same(`mutation of a thawed map`)
			var gm map[interface{}]interface{}
			if mon.Catch(func() { vf.FromValue(d, &gm) }) == nil {
				for k := range gm {
					gm[k] = 1
				}
				same(`FromValue to map`)
			}
		case dgo.Binary:
			bs := d.GoBytes()
			for i := range bs {
				bs[i]++
			}
			same(`Binary.GoBytes`)
			var gb []byte
			vf.FromValue(d, &gb)
			for i := range gb {
				gb[i]++
			}
			var gi interface{}
			if mon.Catch(func() { vf.FromValue(d, &gi) }) == nil {
				if b, ok := gi.([]byte); ok && len(b) > 0 {
					b[0]++
				}
			}
			var gp *[]byte
			if mon.Catch(func() { vf.FromValue(d, &gp) }) == nil && gp != nil && len(*gp) > 0 {
				(*gp)[0]++
			}
			same(`FromValue to []byte`)
			cp := d.Copy(false).GoBytes()
			for i := range cp {
				cp[i]++
			}
			same(`Binary.Copy(false)`)
		}
		n.v.(dgo.Freezable).Freeze() // does nothing
		if th := n.v.(dgo.Freezable).ThawedCopy(); th != nil {
			if ns := nodes(th); len(ns) > 0 && !frozenNode(ns[0].v) {
				mutateNode(r, ns[0].v)
				same(`mutation of a thawed copy`)
			}
		}
	}
}

func c04Struct(c *mon.Ctx, r *rand.Rand) {
	l := &log{}
	s := newAnyStruct(r)
	x := vf.Map(s)
	var y dgo.Map
	op := r.Intn(6)
	switch op {
	case 0:
		x.Freeze()
		y = x
	case 1:
		y = x.Copy(true)
	case 2:
		y = x.FrozenCopy().(dgo.Map)
	case 3:
		y = vf.Values(x).Get(0).(dgo.Map)
	case 4:
		y = vf.Map(`k`, x).Get(`k`).(dgo.Map)
	case 5:
		y = vf.Map(*s)
		y.Freeze()
	}
	l.add("frozen struct map, case %d of %s", op, obsText(x))
	before := obsText(y)
	same := func(what string) {
		if a := obsText(y); a != before {
			c.Fail(`frozen struct map changed by `+what, "case %d: was %s, is %s\n%s", op, before, a, l)
		}
		c.Count(`attacks`, 1)
	}
	if z := notDeepFrozen(y); z != `` {
		c.Fail(`struct map: part is not frozen`, "case %d %s\n%s", op, z, l)
	}
	if y.FrozenCopy() != y || y.Copy(true) != y {
		c.Fail(`struct map: frozen copy of frozen value is not that value`, "%s", l)
	}
	for k := 0; k < 8; k++ {
		f := mutateStruct(r, s)
		c.Seen(fmt.Sprint(`sit:gofield`, op, f))
		same(`mutation of Go field ` + f)
	}
	if op > 0 && op < 5 {
		for k := 0; k < 4; k++ {
			var cand []node
			for _, n := range nodes(x) {
				if !frozenNode(n.v) {
					cand = append(cand, n)
				}
			}
			if len(cand) > 0 {
				n := cand[r.Intn(len(cand))]
				mutateNode(r, n.v)
				same(`mutation of the origin`)
			}
		}
	}
	for k := 0; k < 4; k++ {
		g := y.(dgo.Struct).GoStruct().(*anyStruct)
		f := mutateStruct(r, g)
		same(`mutation of GoStruct ` + f)
		var sv anyStruct
		vf.FromValue(y, &sv)
		f = mutateStruct(r, &sv)
		same(`mutation of exported struct ` + f)
		var sp *anyStruct
		vf.FromValue(y, &sp)
		f = mutateStruct(r, sp)
		same(`mutation of exported struct pointer ` + f)
	}
	for _, a := range []func(){func() { y.Put(`A`, 1) }, func() { y.PutAll(vf.Map(`A`, `x`)) }, func() { y.Remove(`A`) }, func() { y.RemoveAll(vf.Values(`A`)) }} {
		mustPanic(c, l, `mutation of frozen struct map`, a)
		same(`mutators`)
	}
	for nm, z := range map[string]dgo.Value{`With`: y.With(`x`, vf.MutableValues(1)), `Without`: y.Without(`A`), `WithoutAll`: y.WithoutAll(vf.Strings(`A`)),
		`Merge`: y.Merge(vf.MutableMap(`x`, vf.MutableValues(1))), `Keys`: y.Keys(), `Values`: y.Values(),
		`Map`: y.Map(func(e dgo.MapEntry) interface{} { return vf.MutableValues(vf.MutableValues(1)) })} {
		if q := notDeepFrozen(z); q != `` {
			c.Fail(`struct map: `+nm+` of a frozen map is not frozen`, "%s\n%s", q, l)
		}
	}
	y.EachEntry(func(e dgo.MapEntry) {
		attackAll(c, r, l, e.Value(), same)
	})
	c.Seen(before)
}

// mutateGo changes everything that can be reached and changed within Go slices and maps
func mutateGo(r *rand.Rand, rv reflect.Value) (n int) {
	switch rv.Kind() {
	case reflect.Interface:
		if _, ok := rv.Interface().(dgo.Value); !ok && !rv.IsNil() {
			n += mutateGo(r, rv.Elem())
		}
	case reflect.Ptr:
		switch rv.Type().Elem().Kind() {
		case reflect.Slice, reflect.Map, reflect.Interface, reflect.Ptr:
			if !rv.IsNil() {
				n += mutateGo(r, rv.Elem())
			}
		}
	case reflect.Slice:
		for i := 0; i < rv.Len(); i++ {
			n += mutateGo(r, rv.Index(i)) + 1
			rv.Index(i).Set(goValue(r, rv.Type().Elem(), 1))
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			n += mutateGo(r, rv.MapIndex(k)) + 1
			if chance(r, 30) {
				rv.SetMapIndex(k, reflect.Value{})
			} else {
				rv.SetMapIndex(k, goValue(r, rv.Type().Elem(), 1))
			}
		}
	}
	return
}

// c04GoAlias creates frozen values from generated Go data, changes the Go data, and checks that the values are unchanged
func c04GoAlias(c *mon.Ctx, r *rand.Rand) {
	t := goType(r, 1+r.Intn(3), false)
	switch t.Kind() {
	case reflect.Slice, reflect.Map:
	default:
		t = reflect.SliceOf(t)
	}
	gv := goValue(r, t, 3)
	if chance(r, 25) && t == reflect.TypeOf([]dgo.Value{}) || chance(r, 10) {
		// values that are frozen already
		vs := make([]dgo.Value, 1+r.Intn(4))
		for i := range vs {
			vs[i] = gen.Gen(r, &gen.Cfg{Depth: 1, MaxLen: 3}).Build(r, false)
		}
		gv = reflect.ValueOf(vs)
		if chance(r, 50) {
			gv = reflect.ValueOf(map[string]interface{}{`a`: vs, `b`: [][]dgo.Value{vs}})
		}
	}
	x := gv.Interface()
	ctors := []struct {
		name string
		f    func() dgo.Value
	}{
		{`vf.Value`, func() dgo.Value { return vf.Value(x) }},
		{`vf.Values`, func() dgo.Value { return vf.Values(1, x, `a`) }},
		{`vf.Map`, func() dgo.Value { return vf.Map(`a`, x, `b`, []interface{}{x}) }},
		{`vf.Array`, func() dgo.Value { return vf.Array([]interface{}{x, x}) }},
		{`vf.Array of it`, func() dgo.Value { return vf.Array(x) }},
		{`vf.Map of it`, func() dgo.Value { return vf.Map(x) }},
		{`vf.FromValue`, func() dgo.Value {
			var v dgo.Value
			vf.FromValue(vf.Value(x), &v)
			return v
		}},
		{`With`, func() dgo.Value { return vf.Values(1).With(x) }},
		{`WithValues`, func() dgo.Value { return vf.Values().WithValues(x, 1) }},
		{`map With`, func() dgo.Value { return vf.Map(`a`, 1).With(`a`, x) }},
		{`array Map`, func() dgo.Value { return vf.Values(1).Map(func(dgo.Value) interface{} { return x }) }},
		{`map Map`, func() dgo.Value { return vf.Map(`a`, 1).Map(func(dgo.MapEntry) interface{} { return x }) }},
		{`frozen MutableValues`, func() dgo.Value { return vf.MutableValues(x, x).FrozenCopy() }},
		{`frozen MutableMap`, func() dgo.Value { return vf.MutableMap(`a`, x, `b`, 1).FrozenCopy() }},
		{`Arguments`, func() dgo.Value { return vf.Arguments(x) }},
		{`MapEntry`, func() dgo.Value { return vf.MapEntry(`a`, x).FrozenCopy() }},
		{`ArgumentsFromArray`, func() dgo.Value { return vf.ArgumentsFromArray(vf.Values(x)) }},
		{`Sensitive`, func() dgo.Value { return vf.Sensitive(vf.Values(x)) }},
	}
	ct := ctors[r.Intn(len(ctors))]
	var v dgo.Value
	if e := mon.Catch(func() { v = ct.f() }); e != nil {
		if isRuntimeError(e) {
			c.Violate(ct.name+` of Go data causes a runtime error`, "%T %v: %v", x, x, e)
		}
		return
	}
	f, ok := v.(dgo.Freezable)
	if !ok || !f.Frozen() {
		return
	}
	c.Count(`frozen values created from Go data`, 1)
	before := obsText(v)
	desc := fmt.Sprintf(`%#v`, x)
	n := mutateGo(r, gv)
	c.Count(`mutations of Go data`, n)
	if after := obsText(v); after != before {
		c.Fail(`a frozen value changes with the Go data it was created from`, "%s of %T %.300s\nwas %s\n is %s", ct.name, x, desc, before, after)
	}
	if n > 0 {
		c.Seen(before)
	}
}
