package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C07`, Scale: 12, Rule: `a pair, triple, or array of values for which the laws of order were evaluated; distinct by the values`, Run: runC07})
}

func sign(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

func fcmp(a, b float64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func comparableKind(k gen.Kind) bool {
	switch k {
	case gen.KNil, gen.KBool, gen.KInt, gen.KFloat, gen.KStr, gen.KBin, gen.KArr:
		return true
	}
	return false
}

// refCompare is the reference order. It returns false when the values are not comparable
func refCompare(a, b *gen.V) (int, bool) {
	switch {
	case a.K == gen.KNil && b.K == gen.KNil:
		return 0, true
	case a.K == gen.KNil:
		return -1, true
	case b.K == gen.KNil:
		return 1, true
	case a.K == gen.KInt && b.K == gen.KInt:
		switch {
		case a.I < b.I:
			return -1, true
		case a.I > b.I:
			return 1, true
		}
		return 0, true
	case a.K == gen.KInt && b.K == gen.KFloat: // documented to compare as floats
		return fcmp(float64(a.I), b.F), true
	case a.K == gen.KFloat && b.K == gen.KInt:
		return fcmp(a.F, float64(b.I)), true
	case a.K != b.K:
		return 0, false
	}
	switch a.K {
	case gen.KBool:
		switch {
		case !a.B && b.B:
			return -1, true
		case a.B && !b.B:
			return 1, true
		}
		return 0, true
	case gen.KFloat:
		return fcmp(a.F, b.F), true
	case gen.KStr:
		return strings.Compare(a.S, b.S), true
	case gen.KBin:
		return bytes.Compare(a.Bin, b.Bin), true
	case gen.KArr:
		n := len(a.E)
		if len(b.E) < n {
			n = len(b.E)
		}
		for i := 0; i < n; i++ {
			c, ok := refCompare(a.E[i], b.E[i])
			if !ok || c != 0 {
				return c, ok
			}
		}
		return sign(len(a.E) - len(b.E)), true
	}
	return 0, false
}

// identicalParts is true when the comparison may depend on identity: incomparable elements that are one and the same
func hasIncomparable(v *gen.V) bool {
	if !comparableKind(v.K) {
		return true
	}
	for _, e := range v.E {
		if hasIncomparable(e) {
			return true
		}
	}
	return false
}

var ordInts = []int64{math.MinInt64, math.MinInt64 + 1, -(1 << 53) - 1, -(1 << 53), -1, 0, 1, 2, 3, 1 << 53, 1<<53 + 1, 1<<53 + 2, math.MaxInt64 - 1, math.MaxInt64, 1 << 31, 1<<32 + 1}
var ordFloats = []float64{-math.MaxFloat64, -(1 << 53), -1.5, -1, -math.SmallestNonzeroFloat64, 0, math.Copysign(0, -1), math.SmallestNonzeroFloat64, 0.5, 1, 1.5, 2, 3, 1 << 53, 1<<53 + 2, 1 << 63, math.MaxFloat64,
	math.Inf(1), math.Inf(-1), 0.1, 0.2, 0.30000000000000004, 0.3}

func genOrd(r *rand.Rand, depth int) *gen.V {
	if depth > 0 && r.Intn(2) == 0 {
		a := &gen.V{K: gen.KArr}
		for n := r.Intn(4); n > 0; n-- {
			a.E = append(a.E, genOrd(r, depth-1))
		}
		return a
	}
	switch r.Intn(9) {
	case 0:
		return gen.Nil()
	case 1:
		return gen.Bool(r.Intn(2) == 0)
	case 2, 3:
		if r.Intn(2) == 0 {
			return gen.Int(int64(r.Intn(6)))
		}
		return gen.Int(ordInts[r.Intn(len(ordInts))])
	case 4, 5:
		return gen.Float(ordFloats[r.Intn(len(ordFloats))])
	case 6, 7:
		return gen.Str(gen.Strs[r.Intn(len(gen.Strs))])
	default:
		bs := make([]byte, r.Intn(4))
		for i := range bs {
			bs[i] = byte([]int{0, 1, 127, 128, 255}[r.Intn(5)])
		}
		return gen.Bin(bs)
	}
}

// nearOrd returns a value that is comparable with the given value most of the time
func nearOrd(r *rand.Rand, v *gen.V) *gen.V {
	n := *v
	n.E = append([]*gen.V{}, v.E...)
	switch v.K {
	case gen.KArr:
		switch x := r.Intn(5); {
		case x == 0:
			return &n
		case x == 1 && len(n.E) > 0:
			n.E = n.E[:r.Intn(len(n.E))]
		case x == 2:
			n.E = append(n.E, genOrd(r, 0))
		case len(n.E) > 0:
			i := r.Intn(len(n.E))
			n.E[i] = nearOrd(r, n.E[i])
		}
		return &n
	case gen.KStr:
		switch r.Intn(4) {
		case 0:
			return gen.Str(v.S + "\x00")
		case 1:
			return gen.Str(strings.ToUpper(v.S))
		case 2:
			return gen.Str(gen.Strs[r.Intn(len(gen.Strs))])
		}
		return &n
	case gen.KBin:
		n.Bin = append([]byte{}, v.Bin...)
		if len(n.Bin) > 0 && r.Intn(2) == 0 {
			n.Bin[r.Intn(len(n.Bin))] ^= 0x80
		} else {
			n.Bin = append(n.Bin, 0)
		}
		return &n
	case gen.KInt:
		switch r.Intn(5) {
		case 0:
			n.I++
		case 1:
			return gen.Float(float64(v.I))
		case 2:
			return gen.Float(float64(v.I) + 0.5)
		case 3:
			n.I = ordInts[r.Intn(len(ordInts))]
		}
		return &n
	case gen.KFloat:
		switch r.Intn(4) {
		case 0:
			n.F = math.Nextafter(v.F, math.Inf(1))
		case 1:
			if math.Abs(v.F) < 1<<62 {
				return gen.Int(int64(v.F))
			}
		case 2:
			n.F = ordFloats[r.Intn(len(ordFloats))]
		}
		return &n
	}
	return genOrd(r, 1)
}

func cmpValues(c *mon.Ctx, r *rand.Rand, a, b *gen.V) {
	x, y := a.Build(r, r.Intn(2) == 0), b.Build(r, r.Intn(2) == 0)
	d := fmt.Sprintf("%s and %s", a, b)
	ca, okx := x.(dgo.Comparable)
	cb, oky := y.(dgo.Comparable)
	if okx != comparableKind(a.K) || oky != comparableKind(b.K) {
		c.Fail(`comparable kinds`, `%s: %v %v`, d, okx, oky)
	}
	e, eok := refCompare(a, b)
	c.Seen(d)
	sig := kindNames[a.K] + ` with ` + kindNames[b.K]
	if okx {
		g, gok := ca.CompareTo(y)
		c.Count(`comparisons`, 1)
		if gok != eok || gok && sign(g) != e {
			c.Fail(`compare `+sig, "%s: expected %d %v, got %d %v", d, e, eok, g, gok)
		}
		if !gok {
			c.Count(`incomparable`, 1)
		} else if (a.K == b.K) && !hasIncomparable(a) && noMixed(a, b) {
			if (g == 0) != x.Equals(y) {
				c.Fail(`compare disagrees with equality: `+sig, "%s: compare %d, equals %v", d, g, x.Equals(y))
			}
		}
		if g2, gok2 := ca.CompareTo(b.GoArg(r)); g2 != g || gok2 != gok {
			c.Fail(`compare with the go form: `+sig, "%s: value %d %v, go form %d %v", d, g, gok, g2, gok2)
		}
		if g3, ok3 := ca.CompareTo(x); hasIncomparable(a) == false && (!ok3 || g3 != 0) {
			c.Fail(`compare with itself: `+sig, "%s: %d %v", d, g3, ok3)
		}
		if oky {
			h, hok := cb.CompareTo(x)
			if hok != gok || sign(h) != -sign(g) {
				c.Fail(`compare is not antisymmetric: `+sig, "%s: %d %v, reversed %d %v", d, g, gok, h, hok)
			}
		}
	}
}

// noMixed returns true unless an integer is compared with a float somewhere
func noMixed(a, b *gen.V) bool {
	if a.K != b.K {
		return false
	}
	if a.K == gen.KArr {
		for i := 0; i < len(a.E) && i < len(b.E); i++ {
			if !noMixed(a.E[i], b.E[i]) {
				return false
			}
		}
	}
	return true
}

func exactFloat(v *gen.V) bool {
	if v.K == gen.KInt {
		return v.I >= -(1<<53) && v.I <= 1<<53
	}
	for _, e := range v.E {
		if !exactFloat(e) {
			return false
		}
	}
	return true
}

func runC07(c *mon.Ctx) {
	c.Run(`pairs`, c.N(150000, 4000000), func(r *rand.Rand, i int) {
		a := genOrd(r, i%3)
		b := nearOrd(r, a)
		cmpValues(c, r, a, b)
		cmpValues(c, r, b, a)
		cmpValues(c, r, a, genOrd(r, 1))
		if i%5 == 0 { // values of all kinds
			cmpValues(c, r, gen.Arr(a, gen.Gen(r, &gen.Cfg{Depth: 1, MaxLen: 2})), gen.Arr(b, gen.Gen(r, &gen.Cfg{Depth: 1, MaxLen: 2})))
			cmpValues(c, r, a, gen.Gen(r, &gen.Cfg{Depth: 1, MaxLen: 2}))
		}
		if i < 3 {
			c.Sample(a.String() + ` <=> ` + b.String())
		}
	})
	c.Run(`triples`, c.N(50000, 2000000), func(r *rand.Rand, i int) {
		a := genOrd(r, i%3)
		b := nearOrd(r, a)
		d := nearOrd(r, b)
		if !exactFloat(a) || !exactFloat(b) || !exactFloat(d) {
			return
		}
		x, y, z := a.Build(r, false).(dgo.Comparable), b.Build(r, false).(dgo.Comparable), d.Build(r, false).(dgo.Comparable)
		c1, ok1 := x.CompareTo(y)
		c2, ok2 := y.CompareTo(z)
		c3, ok3 := x.CompareTo(z)
		c.Seen(a.String() + b.String() + d.String())
		if ok1 && ok2 && ok3 && c1 <= 0 && c2 <= 0 {
			c.Count(`ordered triples`, 1)
			if c3 > 0 || c3 == 0 && (c1 < 0 || c2 < 0) {
				c.Fail(`compare is not transitive`, "%s, %s, %s: %d %d %d", a, b, d, c1, c2, c3)
			}
		}
	})
	c.Run(`sort`, c.N(50000, 1500000), func(r *rand.Rand, i int) {
		n := r.Intn(14)
		if i%10 == 0 {
			n = 20 + r.Intn(60)
		}
		kind := i % 7
		var vs []*gen.V
		for len(vs) < n {
			v := genOrd(r, 0)
			switch kind {
			case 0: // numbers
				if v.K != gen.KInt && v.K != gen.KFloat || !exactFloat(v) {
					continue
				}
			case 1:
				if v.K != gen.KStr && v.K != gen.KNil {
					continue
				}
			case 2: // integers of full range
				if v.K != gen.KInt {
					continue
				}
			case 3: // arrays of one kind of elements
				a := &gen.V{K: gen.KArr}
				for k := r.Intn(4); k > 0; k-- {
					a.E = append(a.E, gen.Int(int64(r.Intn(3))))
				}
				v = a
			case 4:
				if v.K != gen.KBin && v.K != gen.KNil {
					continue
				}
			case 5:
				if v.K != gen.KBool && v.K != gen.KFloat || math.IsInf(v.F, 0) {
					continue
				}
			default: // everything that is comparable
				if !exactFloat(v) {
					continue
				}
			}
			vs = append(vs, v)
		}
		m := gen.Arr(vs...)
		x := m.Build(r, r.Intn(2) == 0).(dgo.Array)
		s := x.Sort()
		d := fmt.Sprintf("%s sorted to %s", m, canonOf(s))
		c.Seen(m.String())
		if got := gen.Observe(x); got.Canon(false) != m.Canon(false) {
			c.Fail(`sort changes its receiver`, "%s, now %s", d, got)
		}
		o := gen.Observe(s)
		if len(o.E) != n {
			c.Fail(`sort is no permutation`, `%s`, d)
		}
		// the reference: a stable sort by the reference order where kinds that are not comparable form groups
		groups := map[gen.Kind][]*gen.V{}
		group := func(k gen.Kind) gen.Kind {
			if k == gen.KFloat {
				return gen.KInt
			}
			return k
		}
		for _, v := range vs {
			groups[group(v.K)] = append(groups[group(v.K)], v)
		}
		got := map[gen.Kind][]*gen.V{}
		done := map[gen.Kind]bool{}
		var last gen.Kind = -1
		for k, v := range o.E {
			g := group(v.K)
			if g != last {
				if done[g] {
					c.Fail(`sort mixes kinds`, `%s`, d)
				}
				if g == gen.KNil && k > 0 {
					c.Fail(`sort: nil is not first`, `%s`, d)
				}
				done[g], last = true, g
			}
			got[g] = append(got[g], v)
		}
		for g, es := range groups {
			sort.SliceStable(es, func(i, j int) bool { k, ok := refCompare(es[i], es[j]); return ok && k < 0 })
			if gen.Arr(es...).Canon(false) != gen.Arr(got[g]...).Canon(false) {
				c.Fail(`sort: order of `+kindNames[g], "%s\nexpected %s\ngot %s", d, gen.Arr(es...), gen.Arr(got[g]...))
			}
		}
		c.Count(`sorted arrays`, 1)
		c.Count(`sorted elements`, n)
		if s.Frozen() != x.Frozen() {
			c.Fail(`sort changes the frozen status`, `%s`, d)
		}
		if !s.Sort().Equals(s) {
			c.Fail(`sort is not idempotent`, `%s`, d)
		}
	})
	// values without an order: either refused or permuted, never lost
	c.Run(`incomparable`, c.N(5000, 100000), func(r *rand.Rand, _ int) {
		m := gen.GenArr(r, &gen.Cfg{Depth: 2, MaxLen: 8})
		x := m.Build(r, r.Intn(2) == 0).(dgo.Array)
		var s dgo.Array
		e := mon.Catch(func() { s = x.Sort() })
		if e != nil {
			if isRuntimeError(e) {
				c.Fail(`sort of values without an order fails with a runtime error`, "%s: %v", m, e)
			}
			return
		}
		c.Seen(m.String())
		a, b := []string{}, []string{}
		for _, v := range m.E {
			a = append(a, v.Canon(false))
		}
		for _, v := range gen.Observe(s).E {
			b = append(b, v.Canon(false))
		}
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, ` `) != strings.Join(b, ` `) || gen.Observe(x).Canon(false) != m.Canon(false) {
			c.Fail(`sort of values without an order is no permutation`, "%s to %s, receiver now %s", m, s, x)
		}
	})
	_ = vf.Nil
}
