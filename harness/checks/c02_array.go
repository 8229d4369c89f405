package checks

import (
	"fmt"
	"math/rand"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C02`, Scale: 6, Run: runC02,
		Rule: `random histories of array operations over a pool of live arrays (derived arrays, native and dgo arguments, frozen and mutable receivers, positions at and beyond the ends) are compared, after every operation and for every live array, with a plain Go slice of model values; distinct = (operation, receiver length, frozen, position/argument class, outcome) situations together with distinct final contents`})
}

type aslot struct {
	a      dgo.Array
	mod    *gen.V // KArr
	frozen bool
}

type arrHist struct {
	c    *mon.Ctx
	r    *rand.Rand
	l    *log
	ss   []*aslot
	pool []*gen.V
	cfg  *gen.Cfg

	large int // the number of elements of new arrays, when it isn't small
}

func runC02(c *mon.Ctx) {
	c.Run(`history`, c.N(8000, 200000), func(r *rand.Rand, i int) {
		h := &arrHist{c: c, r: r, l: &log{}, cfg: &gen.Cfg{Depth: 1, MaxLen: 3}}
		np := 2 + r.Intn(6)
		n := 20 + r.Intn(60)
		if r.Intn(25) == 0 {
			// few operations on arrays with many elements
			h.large = 20 + r.Intn(100)
			np, n = 2+r.Intn(60), 8+r.Intn(16)
		}
		for len(h.pool) < np {
			h.pool = append(h.pool, gen.Gen(r, h.cfg))
		}
		h.ss = append(h.ss, h.fresh())
		for k := 0; k < n; k++ {
			h.step()
			h.verify()
		}
		c.Count(`operations`, n)
		for _, s := range h.ss {
			c.Seen(s.mod.Canon(false))
		}
		if len(h.ss) > 3 {
			c.Sample(h.l.String())
		}
	})
	c.Run(`construct`, c.N(3000, 60000), func(r *rand.Rand, i int) { arrConstruct(c, r) })
	c.Run(`unique`, c.N(200, 2000), func(r *rand.Rand, i int) { arrLarge(c, r) })
}

func (h *arrHist) val() *gen.V {
	if h.r.Intn(3) == 0 {
		return gen.Gen(h.r, h.cfg)
	}
	return h.pool[h.r.Intn(len(h.pool))]
}

func (h *arrHist) fresh() *aslot {
	m := &gen.V{K: gen.KArr}
	n := h.r.Intn(6)
	if h.large > 0 && h.r.Intn(3) > 0 {
		n = h.large
	}
	for i := n; i > 0; i-- {
		m.E = append(m.E, h.val())
	}
	if h.r.Intn(3) == 0 {
		h.l.add("a%d = frozen %s", len(h.ss), m)
		return &aslot{a: m.Build(h.r, false).(dgo.Array), mod: m, frozen: true}
	}
	h.l.add("a%d = mutable %s", len(h.ss), m)
	vs := make([]dgo.Value, len(m.E), len(m.E)+h.r.Intn(5))
	for i := range m.E {
		vs[i] = m.E[i].Build(h.r, false)
	}
	return &aslot{a: vf.WrapSlice(vs), mod: m}
}

func (h *arrHist) verify() {
	for i, s := range h.ss {
		e := s.mod.Canon(false)
		g := gen.Observe(s.a).Canon(false)
		if e != g {
			h.c.Fail(`content differs from model`, "a%d is %s, expected %s\n%s", i, g, e, h.l)
		}
		if s.a.Frozen() != s.frozen {
			h.c.Fail(`Frozen differs from model`, "a%d.Frozen() = %v, expected %v\n%s", i, s.a.Frozen(), s.frozen, h.l)
		}
	}
}

func (h *arrHist) add(a dgo.Array, mod *gen.V, frozen bool, op string) {
	for _, s := range h.ss {
		if s.a == a {
			if s.mod.Canon(false) != mod.Canon(false) {
				h.c.Fail(op+` returned an array with other content`, "%s returned an array that is %s, expected %s\n%s", op, s.mod, mod, h.l)
			}
			return
		}
	}
	want(h.c, h.l, op+` result`, mod, a)
	if a.Frozen() != frozen {
		h.c.Fail(op+` result frozen state`, "%s returned an array with Frozen() = %v\n%s", op, a.Frozen(), h.l)
	}
	s := &aslot{a: a, mod: mod, frozen: frozen}
	if len(h.ss) < 6 {
		h.ss = append(h.ss, s)
	} else {
		h.ss[h.r.Intn(len(h.ss))] = s
	}
}

func cat(a *gen.V, es ...*gen.V) *gen.V {
	return &gen.V{K: gen.KArr, E: append(append([]*gen.V{}, a.E...), es...)}
}

func cut(a *gen.V, i, j int) *gen.V {
	return &gen.V{K: gen.KArr, E: append([]*gen.V{}, a.E[i:j]...)}
}

// asIterable presents the model as something that implements dgo.Iterable
func (h *arrHist) iterable() (*gen.V, dgo.Iterable) {
	if h.r.Intn(2) == 0 {
		s := h.ss[h.r.Intn(len(h.ss))]
		return s.mod, s.a
	}
	m := &gen.V{K: gen.KArr}
	for i := h.r.Intn(4); i > 0; i-- {
		m.E = append(m.E, h.val())
	}
	return m, m.Build(h.r, h.r.Intn(2) == 0).(dgo.Array)
}

func multisetContains(a, b *gen.V) bool {
	used := make([]bool, len(a.E))
next:
	for _, e := range b.E {
		for i := range a.E {
			if !used[i] && gen.Eq(a.E[i], e) {
				used[i] = true
				continue next
			}
		}
		return false
	}
	return true
}

func flattenModel(a *gen.V) []*gen.V {
	var es []*gen.V
	for _, e := range a.E {
		if e.K == gen.KArr {
			es = append(es, flattenModel(e)...)
		} else {
			es = append(es, e)
		}
	}
	return es
}

func uniqueModel(a *gen.V) *gen.V {
	u := &gen.V{K: gen.KArr}
	for _, e := range a.E {
		if u.Index(e) < 0 {
			u.E = append(u.E, e)
		}
	}
	return u
}

func (h *arrHist) step() {
	r, c, l := h.r, h.c, h.l
	si := r.Intn(len(h.ss))
	s := h.ss[si]
	a := s.a
	n := len(s.mod.E)
	mutate := func(op string, f func()) bool {
		if s.frozen {
			mustPanic(c, l, op+` on frozen array`, f)
			return false
		}
		return true
	}
	situation := func(op string, extra ...interface{}) {
		c.Seen(fmt.Sprint(`sit:`, op, `/`, n, s.frozen, extra))
	}
	switch op := r.Intn(40); op {
	case 0, 1:
		v := h.val()
		l.add("a%d.Add(%s)", si, v)
		situation(`Add`)
		arg := v.GoArg(r)
		if mutate(`Add`, func() { a.Add(arg) }) {
			a.Add(arg)
			s.mod = cat(s.mod, v)
		}
	case 2:
		vs, args := h.vals()
		l.add("a%d.AddValues(%v)", si, vs)
		situation(`AddValues`, len(vs))
		if mutate(`AddValues`, func() { a.AddValues(args...) }) {
			a.AddValues(args...)
			s.mod = cat(s.mod, vs...)
		}
	case 3:
		m, it := h.iterable()
		l.add("a%d.AddAll(%v)", si, m)
		situation(`AddAll`, len(m.E))
		if mutate(`AddAll`, func() { a.AddAll(it) }) {
			a.AddAll(it)
			s.mod = cat(s.mod, m.E...)
		}
	case 4, 5:
		p := r.Intn(n + 1)
		v := h.val()
		if r.Intn(12) == 0 {
			p = n + 1 + r.Intn(3)
			if r.Intn(2) == 0 {
				p = -1
			}
		}
		l.add("a%d.Insert(%d, %s)", si, p, v)
		situation(`Insert`, p)
		arg := v.GoArg(r)
		if mutate(`Insert`, func() { a.Insert(p, arg) }) {
			if p < 0 || p > n {
				if mon.Catch(func() { a.Insert(p, arg) }) == nil && p < 0 {
					c.Fail(`Insert at negative position`, "no panic\n%s", l)
				} else if p > n {
					h.drop(si) // what an insert beyond the end does isn't specified
				}
				return
			}
			a.Insert(p, arg)
			s.mod = cat(cat(cut(s.mod, 0, p), v), s.mod.E[p:]...)
		}
	case 6, 7:
		p := r.Intn(n+4) - 2
		l.add("a%d.Remove(%d)", si, p)
		situation(`Remove`, p)
		if mutate(`Remove`, func() { a.Remove(p) }) {
			if p < 0 || p >= n {
				var res dgo.Value
				if mon.Catch(func() { res = a.Remove(p) }) == nil && res != nil {
					c.Fail(`Remove outside of the array`, "returned %v\n%s", res, l)
				}
				return
			}
			want(c, l, `Remove return value`, s.mod.E[p], a.Remove(p))
			s.mod = cat(cut(s.mod, 0, p), s.mod.E[p+1:]...)
		}
	case 8:
		v := h.val()
		i := s.mod.Index(v)
		l.add("a%d.RemoveValue(%s)", si, v)
		situation(`RemoveValue`, i)
		arg := v.GoArg(r)
		if mutate(`RemoveValue`, func() { a.RemoveValue(arg) }) {
			wantBool(c, l, `RemoveValue return value`, i >= 0, a.RemoveValue(arg))
			if i >= 0 {
				s.mod = cat(cut(s.mod, 0, i), s.mod.E[i+1:]...)
			}
		}
	case 9:
		l.add("a%d.Pop()", si)
		situation(`Pop`)
		if mutate(`Pop`, func() { a.Pop() }) {
			v, ok := a.Pop()
			wantBool(c, l, `Pop ok`, n > 0, ok)
			if ok {
				want(c, l, `Pop value`, s.mod.E[n-1], v)
				s.mod = cut(s.mod, 0, n-1)
			}
		}
	case 10, 11:
		p := r.Intn(n+2) - 1
		v := h.val()
		l.add("a%d.Set(%d, %s)", si, p, v)
		situation(`Set`, p)
		arg := v.GoArg(r)
		if mutate(`Set`, func() { a.Set(p, arg) }) {
			if p < 0 || p >= n {
				if mon.Catch(func() { a.Set(p, arg) }) == nil {
					c.Fail(`Set outside of the array`, "no panic\n%s", l)
				}
				return
			}
			want(c, l, `Set return value`, s.mod.E[p], a.Set(p, arg))
			s.mod = cut(s.mod, 0, n)
			s.mod.E[p] = v
		}
	case 12, 13:
		v := h.val()
		l.add("a%d = a%d.With(%s)", len(h.ss), si, v)
		situation(`With`)
		h.add(a.With(v.GoArg(r)), cat(s.mod, v), s.frozen, `With`)
	case 14:
		vs, args := h.vals()
		l.add("a%d = a%d.WithValues(%v)", len(h.ss), si, vs)
		situation(`WithValues`, len(vs))
		h.add(a.WithValues(args...), cat(s.mod, vs...), s.frozen, `WithValues`)
	case 15:
		m, it := h.iterable()
		l.add("a%d = a%d.WithAll(%v)", len(h.ss), si, m)
		situation(`WithAll`, len(m.E))
		h.add(a.WithAll(it), cat(s.mod, m.E...), s.frozen, `WithAll`)
	case 16:
		if n == 0 {
			return
		}
		// from and with a map, which also is an Iterable
		mm := vf.MutableMap(`x`, 1, `y`, 2)
		var x dgo.Array
		l.add("a%d.WithAll(map)", si)
		x = a.WithAll(mm)
		wantInt(c, l, `WithAll map: Len`, n+2, x.Len())
		want(c, l, `WithAll map: start`, s.mod, x.Slice(0, n))
		for i, k := range []string{`x`, `y`} {
			e, ok := x.Get(n + i).(dgo.MapEntry)
			if !ok || !e.Key().Equals(k) || !e.Value().Equals(i+1) {
				c.Fail(`WithAll map: entry`, "%v\n%s", x, l)
			}
		}
	case 17, 18:
		i := r.Intn(n + 1)
		j := i + r.Intn(n-i+1)
		l.add("a%d = a%d.Slice(%d, %d)", len(h.ss), si, i, j)
		situation(`Slice`, i, j)
		h.add(a.Slice(i, j), cut(s.mod, i, j), s.frozen, `Slice`)
	case 19:
		i, j := r.Intn(n+6)-3, r.Intn(n+6)-3
		if i >= 0 && i <= j && j <= n {
			return
		}
		l.add("a%d.Slice(%d, %d)", si, i, j)
		situation(`Slice`, i, j)
		if mon.Catch(func() { a.Slice(i, j) }) == nil {
			c.Fail(`Slice outside of the array`, "no panic\n%s", l)
		}
		i = n + r.Intn(3)
		if r.Intn(2) == 0 {
			i = -1 - r.Intn(3)
		}
		if mon.Catch(func() { a.Get(i) }) == nil {
			c.Fail(`Get outside of the array`, "no panic for %d\n%s", i, l)
		}
	case 20:
		f := r.Intn(2) == 0
		l.add("a%d = a%d.Copy(%v)", len(h.ss), si, f)
		situation(`Copy`, f)
		cp := a.Copy(f)
		if cp == a != (f && s.frozen) {
			c.Fail(`Copy identity`, "a%d.Copy(%v)\n%s", si, f, l)
		}
		h.add(cp, s.mod, f, `Copy`)
	case 21:
		switch r.Intn(5) {
		case 0:
			l.add("a%d.Freeze()", si)
			a.Freeze()
			s.frozen = true
		case 1, 2:
			l.add("a%d = a%d.FrozenCopy()", len(h.ss), si)
			h.add(a.FrozenCopy().(dgo.Array), s.mod, true, `FrozenCopy`)
		default:
			l.add("a%d = a%d.ThawedCopy()", len(h.ss), si)
			h.add(a.ThawedCopy().(dgo.Array), s.mod, false, `ThawedCopy`)
		}
	case 22:
		l.add("a%d = a%d.Map(f)", len(h.ss), si)
		situation(`Map`)
		m := &gen.V{K: gen.KArr}
		for _, e := range s.mod.E {
			m.E = append(m.E, gen.Arr(e, gen.Int(1)))
		}
		h.add(a.Map(func(e dgo.Value) interface{} { return []interface{}{e, 1} }), m, s.frozen, `Map`)
		m = &gen.V{K: gen.KArr}
		for range s.mod.E {
			m.E = append(m.E, gen.Nil())
		}
		want(c, l, `Map to nil`, m, a.Map(func(e dgo.Value) interface{} { return nil }))
	case 23:
		l.add("a%d = a%d.Flatten()", len(h.ss), si)
		situation(`Flatten`)
		h.add(a.Flatten(), gen.Arr(flattenModel(s.mod)...), s.frozen, `Flatten`)
	case 24:
		l.add("a%d = a%d.Unique()", len(h.ss), si)
		u := uniqueModel(s.mod)
		situation(`Unique`, len(u.E))
		h.add(a.Unique(), u, s.frozen, `Unique`)
	case 25, 26:
		mask := r.Intn(1 << 10)
		sel, rej := &gen.V{K: gen.KArr}, &gen.V{K: gen.KArr}
		for i, e := range s.mod.E {
			if mask>>uint(i%10)&1 == 1 {
				sel.E = append(sel.E, e)
			} else {
				rej.E = append(rej.E, e)
			}
		}
		i := -1
		p := func(dgo.Value) bool { i++; return mask>>uint(i%10)&1 == 1 }
		if op == 25 {
			l.add("a%d = a%d.Select(%b)", len(h.ss), si, mask)
			h.add(a.Select(p), sel, s.frozen, `Select`)
		} else {
			l.add("a%d = a%d.Reject(%b)", len(h.ss), si, mask)
			h.add(a.Reject(p), rej, s.frozen, `Reject`)
		}
		i = -1
		wantBool(c, l, `One`, len(sel.E) == 1, a.One(p))
		i = -1
		wantBool(c, l, `Any`, len(sel.E) > 0, a.Any(p))
		i = -1
		wantBool(c, l, `All`, len(rej.E) == 0, a.All(p))
		situation(`Predicates`, len(sel.E), len(rej.E))
	case 27:
		v := h.val()
		l.add("a%d.IndexOf(%s)", si, v)
		situation(`IndexOf`, s.mod.Index(v))
		wantInt(c, l, `IndexOf`, s.mod.Index(v), a.IndexOf(v.GoArg(r)))
	case 28, 29:
		m, it := h.iterable()
		if r.Intn(3) == 0 { // a permutation
			m = &gen.V{K: gen.KArr}
			for _, i := range r.Perm(n) {
				m.E = append(m.E, s.mod.E[i])
			}
			if n > 1 && r.Intn(3) == 0 {
				m.E[0] = m.E[1]
			}
			it = m.Build(r, false).(dgo.Array)
		}
		l.add("a%d.ContainsAll(%s)", si, m)
		e := multisetContains(s.mod, m)
		situation(`ContainsAll`, e, len(m.E))
		wantBool(c, l, `ContainsAll`, e, a.ContainsAll(it))
		wantBool(c, l, `SameValues`, e && len(m.E) == n, a.SameValues(it))
	case 30:
		oi := r.Intn(len(h.ss))
		o := h.ss[oi]
		l.add("a%d.Equals(a%d)", si, oi)
		eq := gen.Eq(s.mod, o.mod)
		situation(`Equals`, eq)
		wantBool(c, l, `Equals`, eq, a.Equals(o.a))
		if eq {
			wantInt(c, l, `HashCode of equal arrays`, a.HashCode(), o.a.HashCode())
		}
		x := s.mod.Build(r, r.Intn(2) == 0)
		wantBool(c, l, `Equals with rebuilt`, true, a.Equals(x) && x.Equals(a))
		wantInt(c, l, `HashCode of rebuilt`, a.HashCode(), x.HashCode())
	case 31, 32:
		var seen []*gen.V
		l.add("a%d iteration", si)
		switch r.Intn(4) {
		case 0:
			a.Each(func(e dgo.Value) { seen = append(seen, gen.Observe(e)) })
		case 1:
			a.EachWithIndex(func(e dgo.Value, i int) {
				if i != len(seen) {
					c.Fail(`EachWithIndex index`, "%d\n%s", i, l)
				}
				seen = append(seen, gen.Observe(e))
			})
		case 2:
			for _, e := range a.AppendToSlice([]dgo.Value{vf.True})[1:] {
				seen = append(seen, gen.Observe(e))
			}
		default:
			for _, e := range a.InterfaceSlice() {
				seen = append(seen, gen.Observe(e.(dgo.Value)))
			}
		}
		if gen.Arr(seen...).Canon(false) != s.mod.Canon(false) {
			c.Fail(`iteration`, "saw %v\n%s", seen, l)
		}
	case 33:
		l.add("a%d.Reduce", si)
		red := a.Reduce([]interface{}{}, func(memo, e dgo.Value) interface{} { return memo.(dgo.Array).With(e) })
		want(c, l, `Reduce`, s.mod, red)
		want(c, l, `Reduce count`, gen.Int(int64(n)), a.Reduce(0, func(memo, e dgo.Value) interface{} { return memo.(dgo.Integer).GoInt() + 1 }))
	case 34:
		stop := r.Intn(n + 2)
		i := 0
		l.add("a%d.Find stop=%d", si, stop)
		f := a.Find(func(e dgo.Value) interface{} {
			i++
			if i > stop {
				return e
			}
			return nil
		})
		if stop >= n {
			if f != nil {
				c.Fail(`Find result`, "%v\n%s", f, l)
			}
		} else {
			want(c, l, `Find result`, s.mod.E[stop], f.(dgo.Value))
			wantInt(c, l, `Find evaluations`, stop+1, i)
		}
	case 35:
		l.add("a%d.GoSlice()", si)
		gs := a.GoSlice()
		wantInt(c, l, `GoSlice length`, n, len(gs))
		for i := range gs {
			want(c, l, `GoSlice element`, s.mod.E[i], gs[i])
		}
		if s.frozen && n > 0 {
			gs[r.Intn(n)] = vf.String(`overwritten`) // a copy
		}
	case 36:
		if n > 8 {
			return
		}
		l.add("a%d.Sort()", si)
		c.Seen(fmt.Sprint(`sort`, n))
		so := a.Sort()
		wantBool(c, l, `Sort is a permutation`, true, so.SameValues(a) && multisetContains(gen.Observe(so), s.mod) && so.Len() == n)
		if so != a {
			wantBool(c, l, `Sort frozen`, s.frozen, so.Frozen())
		}
	default:
		if len(h.ss) < 5 {
			h.ss = append(h.ss, h.fresh())
		} else if r.Intn(2) == 0 {
			h.ss[si] = h.fresh()
		}
	}
}

func (h *arrHist) drop(si int) { h.ss[si] = h.fresh() }

func (h *arrHist) vals() (vs []*gen.V, args []interface{}) {
	for i := h.r.Intn(4); i > 0; i-- {
		v := h.val()
		vs = append(vs, v)
		args = append(args, v.GoArg(h.r))
	}
	return
}

// arrConstruct checks the ways to construct an array
func arrConstruct(c *mon.Ctx, r *rand.Rand) {
	l := &log{}
	m := gen.GenArr(r, &gen.Cfg{Depth: 2, MaxLen: 6})
	l.add("array %s", m)
	args := make([]interface{}, len(m.E))
	vs := make([]dgo.Value, len(m.E))
	for i := range m.E {
		args[i] = m.E[i].GoArg(r)
		vs[i] = m.E[i].Build(r, true)
		if m.E[i].K == gen.KNil && r.Intn(2) == 0 {
			vs[i] = nil // an unset position
		}
	}
	cp := func() []dgo.Value { return append([]dgo.Value{}, vs...) }
	tryOne := func(what string, frozen bool, f func() dgo.Value) {
		x := f()
		a, ok := x.(dgo.Array)
		if !ok {
			c.Fail(what+` is not an array`, "%T\n%s", x, l)
		}
		want(c, l, what, m, a)
		wantBool(c, l, what+`: frozen`, frozen, a.Frozen())
		if frozen {
			mustPanic(c, l, what+`: Add`, func() { a.Add(1) })
			if e := notDeepFrozen(a); e != `` {
				c.Fail(what+`: content is not frozen`, "%s\n%s", e, l)
			}
		}
		c.Count(`constructions`, 1)
	}
	tryOne(`vf.Values`, true, func() dgo.Value { return vf.Values(args...) })
	tryOne(`vf.MutableValues`, false, func() dgo.Value { return vf.MutableValues(args...) })
	tryOne(`vf.Array([]interface{})`, true, func() dgo.Value { return vf.Array(args) })
	tryOne(`vf.Array([]Value)`, true, func() dgo.Value { return vf.Array(cp()) })
	tryOne(`vf.Value([]interface{})`, true, func() dgo.Value { return vf.Value(args) })
	tryOne(`vf.Value([]Value)`, true, func() dgo.Value { return vf.Value(cp()) })
	tryOne(`vf.WrapSlice`, false, func() dgo.Value { return vf.WrapSlice(cp()) })
	tryOne(`vf.Array(Array)`, true, func() dgo.Value { return vf.Array(vf.Values(args...)) })
	type named []interface{}
	if args != nil {
		tryOne(`vf.Value(named slice)`, true, func() dgo.Value { return vf.Value(named(args)) })
	}
	orig := cp()
	fz := vf.Array(orig)
	for i := range orig {
		if f, ok := vs[i].(dgo.Freezable); ok && f.Frozen() && orig[i] != nil {
			if _, isErr := vs[i].(error); !isErr && m.E[i].K != gen.KSens {
				c.Fail(`vf.Array froze the given value`, "%s\n%s", vs[i], l)
			}
		}
		orig[i] = vf.String(`overwritten`)
	}
	want(c, l, `vf.Array is independent of the given slice`, m, fz)
	is := make([]int, r.Intn(6))
	im := &gen.V{K: gen.KArr}
	ss := make([]string, r.Intn(6))
	sm := &gen.V{K: gen.KArr}
	for i := range is {
		is[i] = int(gen.Ints[r.Intn(len(gen.Ints))])
		im.E = append(im.E, gen.Int(int64(is[i])))
	}
	for i := range ss {
		ss[i] = gen.Strs[r.Intn(len(gen.Strs))]
		sm.E = append(sm.E, gen.Str(ss[i]))
	}
	want(c, l, `vf.Integers`, im, vf.Integers(is...))
	want(c, l, `vf.Strings`, sm, vf.Strings(ss...))
	want(c, l, `vf.Value([]int)`, im, vf.Value(is))
	want(c, l, `vf.Value([]string)`, sm, vf.Value(ss))
	want(c, l, `vf.Array([]string)`, sm, vf.Array(ss))
	c.Seen(m.Canon(false))
}

// notDeepFrozen returns a description of a mutable part of the given value or an empty string
func notDeepFrozen(v dgo.Value) string {
	if f, ok := v.(dgo.Freezable); ok {
		if _, isErr := v.(error); !isErr && !f.Frozen() {
			return fmt.Sprintf(`%T %s`, v, canonOf(v))
		}
	}
	s := ``
	switch d := v.(type) {
	case dgo.Array:
		d.Each(func(e dgo.Value) {
			if s == `` {
				s = notDeepFrozen(e)
			}
		})
	case dgo.Map:
		d.EachEntry(func(e dgo.MapEntry) {
			if s == `` {
				if !e.Frozen() {
					s = fmt.Sprintf(`entry %s`, canonOf(e.Key()))
				} else if s = notDeepFrozen(e.Key()); s == `` {
					s = notDeepFrozen(e.Value())
				}
			}
		})
	case dgo.Sensitive:
		s = notDeepFrozen(d.Unwrap())
	}
	return s
}

// arrLarge checks Unique, IndexOf, and ContainsAll on larger arrays with many duplicates and colliding hash codes
func arrLarge(c *mon.Ctx, r *rand.Rand) {
	l := &log{}
	n := 20 + r.Intn(300)
	d := 1 + r.Intn(n)
	a := vf.ArrayWithCapacity(r.Intn(n))
	var order []int64
	seen := map[int64]int{}
	for i := 0; i < n; i++ {
		k := int64(r.Intn(d)) << uint(r.Intn(2)*28)
		a.Add(k)
		if _, ok := seen[k]; !ok {
			order = append(order, k)
			seen[k] = i
		}
	}
	u := a.Unique()
	wantInt(c, l, `large: Unique length`, len(order), u.Len())
	for i, k := range order {
		if !u.Get(i).Equals(k) {
			c.Fail(`large: Unique order`, "%s of %s", u, a)
		}
		wantInt(c, l, `large: IndexOf`, seen[k], a.IndexOf(k))
	}
	wantBool(c, l, `large: ContainsAll`, true, a.ContainsAll(u))
	// the entries of a map
	em := vf.MutableMap()
	ea := vf.MutableValues()
	for i := 0; i < 1+n%9; i++ {
		em.Put(i, order[i%len(order)])
		ea.Insert(r.Intn(ea.Len()+1), vf.MapEntry(i, order[i%len(order)]))
	}
	wantBool(c, l, `ContainsAll of the entries of a map`, true, ea.ContainsAll(em))
	em.Put(r.Intn(em.Len()), `changed`)
	wantBool(c, l, `ContainsAll of other entries of a map`, false, ea.ContainsAll(em))
	wantBool(c, l, `ContainsAll of more entries`, false, ea.Slice(0, ea.Len()-1).ContainsAll(em))
	wantBool(c, l, `large: SameValues`, true, a.SameValues(a.Sort()))
	s := a.Sort()
	for i := 1; i < n; i++ {
		if s.Get(i-1).(dgo.Integer).GoInt() > s.Get(i).(dgo.Integer).GoInt() {
			c.Fail(`large: Sort order`, "%s", s)
		}
	}
	c.Seen(fmt.Sprint(`large`, n, len(order)))
}
