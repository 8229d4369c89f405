package checks

import (
	"fmt"
	"math/rand"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C01`, Scale: 3, Run: runC01,
		Rule: `random histories of map operations over a shared pool of maps (colliding hash codes, derived maps, native and dgo keys, resizes) are compared, after every operation and for every live map, with an insertion ordered association list; distinct = (operation, entries before, frozen, key present, outcome) situations together with distinct final contents`})
}

type mslot struct {
	m      dgo.Map
	mod    *gen.V // KMap
	frozen bool
}

type mapHist struct {
	c    *mon.Ctx
	r    *rand.Rand
	l    *log
	ss   []*mslot
	pool []*gen.V // keys
	cfg  *gen.Cfg
	ops  int
}

func runC01(c *mon.Ctx) {
	c.Run(`history`, c.N(6000, 120000), func(r *rand.Rand, i int) {
		h := &mapHist{c: c, r: r, l: &log{}, cfg: &gen.Cfg{Depth: 1, MaxLen: 3}}
		h.run(20 + r.Intn(60))
	})
	c.Run(`large`, c.N(64, 640), func(r *rand.Rand, i int) { mapLarge(c, r) })
	c.Run(`construct`, c.N(4000, 60000), func(r *rand.Rand, i int) { mapConstruct(c, r) })
	c.Run(`growth`, c.N(16, 64), func(r *rand.Rand, i int) { mapGrowth(c, r, i) })
}

func (h *mapHist) run(n int) {
	r := h.r
	np := 3 + r.Intn(10)
	if r.Intn(25) == 0 {
		// few operations on maps with many entries
		np, n = 20+r.Intn(80), 8+r.Intn(16)
	}
	for len(h.pool) < np {
		k := gen.GenKey(r, h.cfg)
		if np > 20 && r.Intn(3) > 0 {
			k = gen.Int(int64(r.Intn(300)))
			if r.Intn(2) == 0 {
				k = gen.Str(fmt.Sprintf("k%d", r.Intn(300)))
			}
		}
		dup := false
		for _, p := range h.pool {
			dup = dup || gen.Eq(p, k)
		}
		if !dup {
			h.pool = append(h.pool, k)
		}
	}
	h.ss = append(h.ss, h.fresh())
	for i := 0; i < n; i++ {
		h.step()
		h.ops++
		h.verify()
	}
	h.c.Count(`operations`, h.ops)
	h.c.Count(`maps`, len(h.ss))
	for _, s := range h.ss {
		h.c.Seen(s.mod.Canon(false))
	}
	if len(h.ss) > 3 {
		h.c.Sample(h.l.String())
	}
}

func (h *mapHist) genMap() *gen.V {
	m := &gen.V{K: gen.KMap}
	n := h.r.Intn(len(h.pool) + 1)
	for _, i := range h.r.Perm(len(h.pool))[:n] {
		m.Keys = append(m.Keys, h.pool[i])
		m.E = append(m.E, h.val())
	}
	return m
}

func (h *mapHist) val() *gen.V { return gen.Gen(h.r, h.cfg) }
func (h *mapHist) key() *gen.V {
	if h.r.Intn(12) == 0 {
		return gen.GenKey(h.r, h.cfg)
	}
	return h.pool[h.r.Intn(len(h.pool))]
}

func (h *mapHist) fresh() *mslot {
	m := h.genMap()
	if h.r.Intn(3) == 0 {
		h.l.add("m%d = frozen %s", len(h.ss), m)
		return &mslot{m: m.Build(h.r, false).(dgo.Map), mod: m, frozen: true}
	}
	h.l.add("m%d = mutable %s", len(h.ss), m)
	// The values are frozen here, only the map itself is mutable
	dm := vf.MapWithCapacity(h.r.Intn(12))
	for i := range m.Keys {
		dm.Put(m.Keys[i].GoArg(h.r), m.E[i].Build(h.r, false))
	}
	return &mslot{m: dm, mod: m}
}

// verify compares every live map with its model
func (h *mapHist) verify() {
	for i, s := range h.ss {
		e := s.mod.Canon(false)
		g := gen.Observe(s.m).Canon(false)
		if e != g {
			h.c.Fail(`content differs from model`, "m%d is %s, expected %s\n%s", i, g, e, h.l)
		}
		if s.m.Len() != len(s.mod.Keys) {
			h.c.Fail(`Len differs from model`, "m%d.Len() = %d, expected %d\n%s", i, s.m.Len(), len(s.mod.Keys), h.l)
		}
		if s.m.Frozen() != s.frozen {
			h.c.Fail(`Frozen differs from model`, "m%d.Frozen() = %v, expected %v\n%s", i, s.m.Frozen(), s.frozen, h.l)
		}
	}
	s := h.ss[h.r.Intn(len(h.ss))]
	for _, k := range h.pool {
		var ev *gen.V
		if j := s.mod.Find(k); j >= 0 {
			ev = s.mod.E[j]
		}
		want(h.c, h.l, `Get of every known key`, ev, s.m.Get(k.Build(h.r, false)))
	}
}

// add registers a derived map. A derived map that is identical to a live one is an alias of it; that is legal only
// when nothing was supposed to change.
func (h *mapHist) add(m dgo.Map, mod *gen.V, frozen bool, op string) {
	for _, s := range h.ss {
		if s.m == m {
			if s.mod.Canon(false) != mod.Canon(false) {
				h.c.Fail(op+` returned a map with other content`, "%s returned a map that is %s, expected %s\n%s", op, s.mod, mod, h.l)
			}
			return
		}
	}
	e := mod.Canon(false)
	g := gen.Observe(m).Canon(false)
	if e != g {
		h.c.Fail(op+` result differs from model`, "%s returned %s, expected %s\n%s", op, g, e, h.l)
	}
	if m.Frozen() != frozen {
		h.c.Fail(op+` result frozen state`, "%s returned a map with Frozen() = %v\n%s", op, m.Frozen(), h.l)
	}
	s := &mslot{m: m, mod: mod, frozen: frozen}
	if len(h.ss) < 6 {
		h.ss = append(h.ss, s)
	} else {
		h.ss[h.r.Intn(len(h.ss))] = s
	}
}

func cloneMap(m *gen.V) *gen.V {
	return &gen.V{K: gen.KMap, Keys: append([]*gen.V(nil), m.Keys...), E: append([]*gen.V(nil), m.E...)}
}

func modPut(m *gen.V, k, v *gen.V) (nm *gen.V, old *gen.V) {
	nm = cloneMap(m)
	if i := nm.Find(k); i >= 0 {
		old = nm.E[i]
		nm.E[i] = v
	} else {
		nm.Keys = append(nm.Keys, k)
		nm.E = append(nm.E, v)
	}
	return
}

func modRemove(m *gen.V, k *gen.V) (nm *gen.V, old *gen.V) {
	i := m.Find(k)
	if i < 0 {
		return m, nil
	}
	nm = &gen.V{K: gen.KMap}
	for j := range m.Keys {
		if j != i {
			nm.Keys = append(nm.Keys, m.Keys[j])
			nm.E = append(nm.E, m.E[j])
		}
	}
	return nm, m.E[i]
}

func modMerge(m, o *gen.V) *gen.V {
	for i := range o.Keys {
		m, _ = modPut(m, o.Keys[i], o.E[i])
	}
	return m
}

func (h *mapHist) keys() (*gen.V, dgo.Array) {
	n := h.r.Intn(4)
	ka := &gen.V{K: gen.KArr}
	for i := 0; i < n; i++ {
		ka.E = append(ka.E, h.key())
	}
	if h.r.Intn(8) == 0 {
		// all keys, or most of them
		p := h.r.Perm(len(h.pool))
		for _, i := range p[h.r.Intn(2)*h.r.Intn(len(p)):] {
			ka.E = append(ka.E, h.pool[i])
		}
	}
	return ka, ka.Build(h.r, h.r.Intn(2) == 0).(dgo.Array)
}

func (h *mapHist) step() {
	r, c, l := h.r, h.c, h.l
	si := r.Intn(len(h.ss))
	s := h.ss[si]
	m := s.m
	mutate := func(op string, f func()) bool {
		if s.frozen {
			mustPanic(c, l, op+` on frozen map`, f)
			return false
		}
		return true
	}
	situation := func(op string, extra ...interface{}) {
		c.Seen(fmt.Sprint(`sit:`, op, `/`, len(s.mod.Keys), s.frozen, extra))
	}
	switch op := r.Intn(30); op {
	case 0, 1, 2:
		k, v := h.key(), h.val()
		l.add("m%d.Put(%s, %s)", si, k, v)
		situation(`Put`, s.mod.Find(k))
		ka, va := k.GoArg(r), v.Build(r, false)
		if !mutate(`Put`, func() { m.Put(ka, va) }) {
			return
		}
		nm, old := modPut(s.mod, k, v)
		want(c, l, `Put return value`, old, m.Put(ka, va))
		s.mod = nm
	case 3, 4:
		k := h.key()
		l.add("m%d.Remove(%s)", si, k)
		situation(`Remove`, s.mod.Find(k))
		ka := k.GoArg(r)
		if !mutate(`Remove`, func() { m.Remove(ka) }) {
			return
		}
		nm, old := modRemove(s.mod, k)
		want(c, l, `Remove return value`, old, m.Remove(ka))
		s.mod = nm
	case 5:
		oi := r.Intn(len(h.ss))
		o := h.ss[oi]
		l.add("m%d.PutAll(m%d)", si, oi)
		situation(`PutAll`, len(o.mod.Keys))
		if s.frozen && len(o.mod.Keys) == 0 {
			return // a no-op which may or may not panic
		}
		if !mutate(`PutAll`, func() { m.PutAll(o.m) }) {
			return
		}
		nm := modMerge(s.mod, o.mod)
		m.PutAll(o.m)
		s.mod = nm
	case 6:
		ka, da := h.keys()
		l.add("m%d.RemoveAll(%s)", si, ka)
		situation(`RemoveAll`, len(ka.E))
		if s.frozen && (len(ka.E) == 0 || len(s.mod.Keys) == 0) {
			return
		}
		if !mutate(`RemoveAll`, func() { m.RemoveAll(da) }) {
			return
		}
		nm := s.mod
		for _, k := range ka.E {
			nm, _ = modRemove(nm, k)
		}
		m.RemoveAll(da)
		s.mod = nm
	case 7, 8:
		k, v := h.key(), h.val()
		if i := s.mod.Find(k); i >= 0 && r.Intn(4) == 0 {
			v = s.mod.E[i]
		}
		l.add("m%d = m%d.With(%s, %s)", len(h.ss), si, k, v)
		situation(`With`, s.mod.Find(k))
		nm, _ := modPut(s.mod, k, v)
		h.add(m.With(k.GoArg(r), v.Build(r, false)), nm, s.frozen, `With`)
	case 9:
		k := h.key()
		l.add("m%d = m%d.Without(%s)", len(h.ss), si, k)
		situation(`Without`, s.mod.Find(k))
		nm, _ := modRemove(s.mod, k)
		h.add(m.Without(k.GoArg(r)), nm, s.frozen, `Without`)
	case 10:
		ka, da := h.keys()
		l.add("m%d = m%d.WithoutAll(%s)", len(h.ss), si, ka)
		situation(`WithoutAll`, len(ka.E))
		nm := s.mod
		for _, k := range ka.E {
			nm, _ = modRemove(nm, k)
		}
		h.add(m.WithoutAll(da), nm, s.frozen, `WithoutAll`)
	case 11, 12:
		oi := r.Intn(len(h.ss))
		o := h.ss[oi]
		l.add("m%d = m%d.Merge(m%d)", len(h.ss), si, oi)
		situation(`Merge`, len(o.mod.Keys), o.frozen)
		h.add(m.Merge(o.m), modMerge(s.mod, o.mod), s.frozen, `Merge`)
	case 13:
		f := r.Intn(2) == 0
		l.add("m%d = m%d.Copy(%v)", len(h.ss), si, f)
		situation(`Copy`, f)
		cp := m.Copy(f)
		if cp == m && !(f && s.frozen) {
			c.Fail(`Copy returned the receiver`, "m%d.Copy(%v)\n%s", si, f, l)
		}
		h.add(cp, s.mod, f, `Copy`)
	case 14:
		if r.Intn(4) == 0 {
			l.add("m%d.Freeze()", si)
			m.Freeze()
			s.frozen = true
		} else if r.Intn(2) == 0 {
			l.add("m%d = m%d.FrozenCopy()", len(h.ss), si)
			h.add(m.FrozenCopy().(dgo.Map), s.mod, true, `FrozenCopy`)
		} else {
			l.add("m%d = m%d.ThawedCopy()", len(h.ss), si)
			h.add(m.ThawedCopy().(dgo.Map), s.mod, false, `ThawedCopy`)
		}
	case 15:
		l.add("m%d = m%d.Map(f)", len(h.ss), si)
		situation(`Map`)
		nm := cloneMap(s.mod)
		for i := range nm.E {
			nm.E[i] = gen.Arr(nm.Keys[i], nm.E[i])
		}
		h.add(m.Map(func(e dgo.MapEntry) interface{} { return vf.Values(e.Key(), e.Value()) }), nm, s.frozen, `Map`)
	case 16:
		l.add("m%d.Keys()", si)
		ks := m.Keys()
		want(c, l, `Keys`, gen.Arr(s.mod.Keys...), ks)
		wantBool(c, l, `Keys must be frozen`, true, ks.Frozen())
	case 17:
		l.add("m%d.Values()", si)
		vs := m.Values()
		want(c, l, `Values`, gen.Arr(s.mod.E...), vs)
		if !vs.Frozen() {
			vs.Add(`x`) // a snapshot, must not affect the map
			if vs.Len() > 1 {
				vs.Set(0, `changed`)
			}
		}
	case 18:
		k := h.key()
		l.add("m%d.Get/ContainsKey(%s)", si, k)
		i := s.mod.Find(k)
		situation(`Get`, i)
		var ev *gen.V
		if i >= 0 {
			ev = s.mod.E[i]
		}
		want(c, l, `Get`, ev, m.Get(k.GoArg(r)))
		wantBool(c, l, `ContainsKey`, i >= 0, m.ContainsKey(k.GoArg(r)))
	case 19, 20, 21:
		h.iterate(si)
	case 22:
		l.add("m%d.Find", si)
		stop := r.Intn(len(s.mod.Keys) + 2)
		n := 0
		e := m.Find(func(e dgo.MapEntry) bool { n++; return n > stop })
		if stop < len(s.mod.Keys) {
			if e == nil {
				c.Fail(`Find result`, "Find returned nil\n%s", l)
			}
			want(c, l, `Find key`, s.mod.Keys[stop], e.Key())
			want(c, l, `Find value`, s.mod.E[stop], e.Value())
			wantInt(c, l, `Find evaluations`, stop+1, n)
		} else if e != nil {
			c.Fail(`Find result`, "Find returned %s\n%s", e, l)
		}
	case 23:
		l.add("m%d.StringKeys()", si)
		e := true
		for _, k := range s.mod.Keys {
			e = e && k.K == gen.KStr
		}
		wantBool(c, l, `StringKeys`, e, m.StringKeys())
	case 24, 25:
		oi := r.Intn(len(h.ss))
		o := h.ss[oi]
		l.add("m%d.Equals(m%d)", si, oi)
		eq := gen.Eq(s.mod, o.mod)
		situation(`Equals`, eq)
		wantBool(c, l, `Equals`, eq, m.Equals(o.m))
		if eq {
			wantInt(c, l, `HashCode of equal maps`, m.HashCode(), o.m.HashCode())
		}
		// An equal map built in another order
		p := r.Perm(len(s.mod.Keys))
		x := vf.MutableMap()
		for _, i := range p {
			x.Put(s.mod.Keys[i].GoArg(r), s.mod.E[i].Build(r, false))
		}
		wantBool(c, l, `Equals with reordered`, true, m.Equals(x) && x.Equals(m))
		wantInt(c, l, `HashCode of reordered`, m.HashCode(), x.HashCode())
	case 26:
		// Maps as arguments of array operations: to an array of entries, and back
		l.add("m%d = entries of m%d as map", len(h.ss), si)
		es := vf.ArrayWithCapacity(m.Len())
		m.Each(func(e dgo.Value) { es.Add(e) })
		if r.Intn(2) == 0 {
			es = es.Copy(true)
		}
		x, ok := es.ToMapFromEntries()
		wantBool(c, l, `ToMapFromEntries`, true, ok)
		if x == m {
			c.Fail(`ToMapFromEntries returned the map itself`, "%s", l)
		}
		h.add(x, s.mod, es.Frozen(), `ToMapFromEntries`)
	case 27:
		l.add("m%d = m%d as flat array to map", len(h.ss), si)
		flat := vf.ArrayWithCapacity(0)
		m.EachEntry(func(e dgo.MapEntry) { flat.AddValues(e.Key(), e.Value()) })
		if r.Intn(2) == 0 {
			flat.Freeze()
		}
		h.add(flat.ToMap(), s.mod, flat.Frozen(), `ToMap`)
	default:
		if len(h.ss) < 5 {
			h.ss = append(h.ss, h.fresh())
		}
	}
}

func (h *mapHist) iterate(si int) {
	r, c, l := h.r, h.c, h.l
	s := h.ss[si]
	m := s.m
	n := len(s.mod.Keys)
	stop := r.Intn(n + 2) // the predicate changes its mind at this position
	var keys, vals []*gen.V
	see := func(k, v dgo.Value) int {
		if k != nil {
			keys = append(keys, gen.Observe(k))
		}
		if v != nil {
			vals = append(vals, gen.Observe(v))
		}
		if len(keys) > len(vals) {
			return len(keys)
		}
		return len(vals)
	}
	check := func(op string, ks, vs bool, cnt int) {
		if cnt > n {
			cnt = n
		}
		if ks && gen.Arr(keys...).Canon(false) != gen.Arr(s.mod.Keys[:cnt]...).Canon(false) {
			c.Fail(op+` keys`, "%s saw keys %v\n%s", op, keys, l)
		}
		if vs && gen.Arr(vals...).Canon(false) != gen.Arr(s.mod.E[:cnt]...).Canon(false) {
			c.Fail(op+` values`, "%s saw values %v\n%s", op, vals, l)
		}
	}
	switch r.Intn(10) {
	case 0:
		l.add("m%d.EachEntry", si)
		m.EachEntry(func(e dgo.MapEntry) { see(e.Key(), e.Value()) })
		check(`EachEntry`, true, true, n)
	case 1:
		l.add("m%d.EachKey", si)
		m.EachKey(func(k dgo.Value) { see(k, nil) })
		check(`EachKey`, true, false, n)
	case 2:
		l.add("m%d.EachValue", si)
		m.EachValue(func(v dgo.Value) { see(nil, v) })
		check(`EachValue`, false, true, n)
	case 3:
		l.add("m%d.Each", si)
		m.Each(func(v dgo.Value) { e := v.(dgo.MapEntry); see(e.Key(), e.Value()) })
		check(`Each`, true, true, n)
	case 4:
		l.add("m%d.All stop=%d", si, stop)
		g := m.All(func(e dgo.MapEntry) bool { return see(e.Key(), e.Value()) <= stop })
		wantBool(c, l, `All result`, stop >= n, g)
		check(`All`, true, true, stop+1)
	case 5:
		l.add("m%d.AllKeys stop=%d", si, stop)
		g := m.AllKeys(func(k dgo.Value) bool { return see(k, nil) <= stop })
		wantBool(c, l, `AllKeys result`, stop >= n, g)
		check(`AllKeys`, true, false, stop+1)
	case 6:
		l.add("m%d.AllValues stop=%d", si, stop)
		g := m.AllValues(func(v dgo.Value) bool { return see(nil, v) <= stop })
		wantBool(c, l, `AllValues result`, stop >= n, g)
		check(`AllValues`, false, true, stop+1)
	case 7:
		l.add("m%d.Any stop=%d", si, stop)
		g := m.Any(func(e dgo.MapEntry) bool { return see(e.Key(), e.Value()) > stop })
		wantBool(c, l, `Any result`, stop < n, g)
		check(`Any`, true, true, stop+1)
	case 8:
		l.add("m%d.AnyKey stop=%d", si, stop)
		g := m.AnyKey(func(k dgo.Value) bool { return see(k, nil) > stop })
		wantBool(c, l, `AnyKey result`, stop < n, g)
		check(`AnyKey`, true, false, stop+1)
	case 9:
		l.add("m%d.AnyValue stop=%d", si, stop)
		g := m.AnyValue(func(v dgo.Value) bool { return see(nil, v) > stop })
		wantBool(c, l, `AnyValue result`, stop < n, g)
		check(`AnyValue`, false, true, stop+1)
	}
}

// mapLarge exercises a map that is resized many times and shrunk again
func mapLarge(c *mon.Ctx, r *rand.Rand) {
	l := &log{}
	m := vf.MapWithCapacity(r.Intn(3))
	n := 100 + r.Intn(1500)
	order := make([]int64, 0, n)
	val := map[int64]int64{}
	stride := int64(1) << uint(r.Intn(20))
	key := func() int64 { return int64(r.Intn(n)) * stride }
	ops := 4 * n
	for i := 0; i < ops; i++ {
		k := key()
		switch r.Intn(4) {
		case 0, 1:
			old := m.Put(k, int64(i))
			ov, had := val[k]
			if had != (old != nil) || had && !old.Equals(ov) {
				c.Fail(`large: Put return value`, "Put(%d) returned %v, expected %v %v", k, old, ov, had)
			}
			if !had {
				order = append(order, k)
			}
			val[k] = int64(i)
		case 2:
			old := m.Remove(k)
			ov, had := val[k]
			if had != (old != nil) || had && !old.Equals(ov) {
				c.Fail(`large: Remove return value`, "Remove(%d) returned %v, expected %v %v", k, old, ov, had)
			}
			if had {
				delete(val, k)
				for j, x := range order {
					if x == k {
						order = append(order[:j], order[j+1:]...)
						break
					}
				}
			}
		case 3:
			g := m.Get(k)
			ov, had := val[k]
			if had != (g != nil) || had && !g.Equals(ov) {
				c.Fail(`large: Get`, "Get(%d) returned %v, expected %v %v", k, g, ov, had)
			}
		}
	}
	wantInt(c, l, `large: Len`, len(order), m.Len())
	i := 0
	m.EachEntry(func(e dgo.MapEntry) {
		if i >= len(order) || !e.Key().Equals(order[i]) || !e.Value().Equals(val[order[i]]) {
			c.Fail(`large: order`, "entry %d is %s", i, e)
		}
		i++
	})
	wantInt(c, l, `large: iterated`, len(order), i)
	// and by the copies
	for _, x := range []dgo.Map{m.Copy(true), m.Copy(false), m.Merge(vf.Map(`x`, 1)).Without(`x`)} {
		for _, k := range order {
			if g := x.Get(k); g == nil || !g.Equals(val[k]) {
				c.Fail(`large: Get on copy`, "Get(%d) returned %v", k, g)
			}
		}
		wantBool(c, l, `large: copy equals`, true, x.Equals(m) && m.Equals(x))
	}
	c.Count(`large.operations`, ops)
	c.Count(`max.entries`, len(order))
	c.Seen(fmt.Sprint(`large`, stride, len(order)))
}

// mapConstruct checks all ways to construct a map, also from content with duplicate keys
func mapConstruct(c *mon.Ctx, r *rand.Rand) {
	l := &log{}
	cfg := &gen.Cfg{Depth: 1, MaxLen: 3}
	n := r.Intn(7)
	mod := &gen.V{K: gen.KMap}
	var ks, vs []*gen.V
	for i := 0; i < n; i++ {
		k := gen.GenKey(r, cfg)
		if i > 0 && r.Intn(4) == 0 {
			k = ks[r.Intn(i)]
		}
		v := gen.Gen(r, cfg)
		ks, vs = append(ks, k), append(vs, v)
		mod, _ = modPut(mod, k, v)
	}
	flat := make([]interface{}, 0, 2*n)
	pairs := make([]interface{}, 0, n)
	entries := make([]interface{}, 0, n)
	for i := range ks {
		flat = append(flat, ks[i].GoArg(r), vs[i].GoArg(r))
		pairs = append(pairs, vf.Values(ks[i].GoArg(r), vs[i].GoArg(r)))
		entries = append(entries, vf.MapEntry(ks[i].Build(r, false), vs[i].Build(r, false)))
	}
	l.add("pairs %v %v", ks, vs)
	dup := len(mod.Keys) != n
	tryOne := func(what string, frozen bool, f func() dgo.Map) {
		m := f()
		sig := `construct by ` + what
		if dup {
			sig += ` with duplicate keys`
		}
		want(c, l, sig, mod, m)
		wantInt(c, l, sig+`: Len`, len(mod.Keys), m.Len())
		wantBool(c, l, sig+`: Frozen`, frozen, m.Frozen())
		for i := range mod.Keys {
			want(c, l, sig+`: Get`, mod.E[i], m.Get(mod.Keys[i].GoArg(r)))
		}
		other := gen.GenKey(r, cfg)
		if mod.Find(other) < 0 {
			want(c, l, sig+`: Get missing`, nil, m.Get(other.GoArg(r)))
		}
		// an operation on the constructed map
		if !frozen {
			k, v := gen.GenKey(r, cfg), gen.Gen(r, cfg)
			nm, old := modPut(mod, k, v)
			want(c, l, sig+`: Put return value`, old, m.Put(k.GoArg(r), v.Build(r, false)))
			want(c, l, sig+`: after Put`, nm, m)
			if len(mod.Keys) > 0 {
				k = mod.Keys[r.Intn(len(mod.Keys))]
				nm, old = modRemove(nm, k)
				want(c, l, sig+`: Remove return value`, old, m.Remove(k.GoArg(r)))
				want(c, l, sig+`: after Remove`, nm, m)
				want(c, l, sig+`: Get after Remove`, nil, m.Get(k.GoArg(r)))
			}
		}
		c.Count(`constructions`, 1)
	}
	tryOne(`vf.Map`, true, func() dgo.Map { return vf.Map(flat...) })
	tryOne(`vf.MutableMap`, false, func() dgo.Map { return vf.MutableMap(flat...) })
	tryOne(`vf.Map from array`, true, func() dgo.Map { return vf.Map(vf.Values(flat...)) })
	tryOne(`vf.MutableMap from array`, false, func() dgo.Map { return vf.MutableMap(vf.Values(flat...)) })
	tryOne(`ToMap of frozen`, true, func() dgo.Map { return vf.Values(flat...).ToMap() })
	tryOne(`ToMap of mutable`, false, func() dgo.Map { return vf.MutableValues(flat...).ToMap() })
	fe := func(a dgo.Array) func() dgo.Map {
		return func() dgo.Map {
			m, ok := a.ToMapFromEntries()
			if !ok {
				c.Fail(`ToMapFromEntries refused`, "ToMapFromEntries refused %s\n%s", a, l)
			}
			return m
		}
	}
	tryOne(`ToMapFromEntries of pairs`, true, fe(vf.Values(pairs...)))
	tryOne(`ToMapFromEntries of pairs (mutable)`, false, fe(vf.MutableValues(pairs...)))
	tryOne(`ToMapFromEntries of entries`, true, fe(vf.Values(entries...)))
	tryOne(`ToMapFromEntries of entries (mutable)`, false, fe(vf.MutableValues(entries...)))
	if n > 0 {
		odd := append(append([]interface{}{}, flat...), `odd key`)
		om, _ := modPut(mod, gen.Str(`odd key`), gen.Nil())
		want(c, l, `ToMap of uneven array`, om, vf.Values(odd...).ToMap())
		bad := append(append([]interface{}{}, pairs...), vf.Values(1, 2, 3))
		if _, ok := vf.Values(bad...).ToMapFromEntries(); ok {
			c.Fail(`ToMapFromEntries accepts a non entry`, "%s", l)
		}
	}
	// From a go map: sorted by the natural order of the keys
	gm := map[string]int{}
	for i := 0; i < r.Intn(12); i++ {
		gm[gen.Strs[r.Intn(len(gen.Strs))]] = i
	}
	for _, m := range []dgo.Map{vf.Map(gm), vf.MutableMap(gm), vf.Value(gm).(dgo.Map)} {
		wantInt(c, l, `from go map: Len`, len(gm), m.Len())
		prev := ``
		first := true
		m.EachEntry(func(e dgo.MapEntry) {
			k := e.Key().(dgo.String).GoString()
			if !first && k <= prev {
				c.Fail(`from go map: order`, "%s", m)
			}
			first, prev = false, k
			if x, ok := gm[k]; !ok || !e.Value().Equals(x) {
				c.Fail(`from go map: content`, "%s", m)
			}
			if !m.Get(k).Equals(gm[k]) {
				c.Fail(`from go map: Get`, "%s %s", m, k)
			}
		})
	}
	gi := map[int]string{}
	for i := 0; i < r.Intn(12); i++ {
		gi[int(gen.Ints[r.Intn(len(gen.Ints))])] = `v`
	}
	im := vf.Map(gi)
	prev, first := int64(0), true
	im.EachKey(func(k dgo.Value) {
		i := k.(dgo.Integer).GoInt()
		if !first && i <= prev {
			c.Fail(`from go int map: order`, "%s", im)
		}
		first, prev = false, i
	})
	wantInt(c, l, `from go int map: Len`, len(gi), im.Len())
	c.Seen(mod.Canon(false))
}

// mapGrowth builds maps by long chains of incremental operations. The memory watchdog observes that the size stays
// within reason of the number of entries.
func mapGrowth(c *mon.Ctx, r *rand.Rand, i int) {
	l := &log{}
	const n = 64
	var m dgo.Map
	switch i % 8 {
	case 0:
		m = vf.Map()
		for k := 0; k < n; k++ {
			m = m.With(k, k)
		}
	case 1:
		m = vf.MutableMap()
		for k := 0; k < n; k++ {
			m.PutAll(vf.Map(k, k))
		}
	case 2:
		m = vf.Map()
		for k := 0; k < n; k++ {
			m = m.Merge(vf.Map(k, k))
		}
	case 3:
		m = vf.MutableMap()
		for k := 0; k < n; k++ {
			m.Put(k, k)
			m = m.Copy(k%2 == 0).Copy(false)
		}
	case 4:
		m = vf.Map()
		for k := 0; k < n; k++ {
			m = m.With(k, k).With(`x`, k).Without(`x`)
		}
	case 5:
		m = vf.MutableMap(`a`, 1)
		for k := 0; k < 200; k++ {
			m.Put(`a`, k)
			m.Put(k, 1)
			m.Remove(k)
			m = m.With(`a`, k+1000)
		}
		m.Remove(`a`)
		for k := 0; k < n; k++ {
			m.Put(k, k)
		}
	case 6:
		m = vf.MutableMap()
		for k := 0; k < n; k++ {
			m.Put(k, k)
			m = m.Map(func(e dgo.MapEntry) interface{} { return e.Value() })
		}
	case 7:
		m = vf.Map()
		for k := 0; k < n; k++ {
			m = m.With(k, -k)
			m = m.With(k, k)
		}
	}
	wantInt(c, l, `growth: Len`, n, m.Len())
	for k := 0; k < n; k++ {
		if g := m.Get(k); g == nil || !g.Equals(k) {
			c.Fail(`growth: Get`, "Get(%d) = %v", k, g)
		}
	}
	c.Count(`growth.chains`, 1)
	c.Seen(fmt.Sprint(`growth`, i%8))
}
