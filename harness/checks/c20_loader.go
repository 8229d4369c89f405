package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/anishathalye/porcupine"
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C20`, Scale: 3, Race: true, Rule: `a history of concurrent loader operations; distinct by the operations, their answers and their observed order`, Run: runC20})
}

// A name is <class><level>.<n> where level is the lowest level of the hierarchy with a finder that finds it. A finder at a
// higher level finds it too, but must be shadowed. Classes:
//
//	n  no level finds it
//	c  each call of the finder gives a distinct but equal mutable value
//	u  each call of the finder gives another value
//	m  the finder gives several entries, distinct but equal for each call
//	r  the finder looks up other names using the loader that it is called with
//	g  the finder gives Go data
//	p  the finder panics now and then
//	e  a predefined entry of the loader
type lName struct {
	class byte
	level int
	n     int
}

func parseName(s string) lName {
	p := strings.IndexByte(s, '.')
	l, _ := strconv.Atoi(s[1:p])
	n, _ := strconv.Atoi(s[p+1:])
	return lName{s[0], l, n}
}

// lOp is one recorded operation
type lOp struct {
	g         int // goroutine
	h         int // hierarchy level of the loader that was used
	kind      string
	path      string // the path of the namespace from the root to the name
	name      string
	call, ret int64
	v         dgo.Value
	text      string
	e         interface{}
}

type lFind struct {
	slot string
	at   int64
}

type lWorld struct {
	c       *mon.Ctx
	levels  int
	ns      []bool // the levels that have namespaces
	roots   []dgo.Loader
	ids     int64
	record  bool
	mu      sync.Mutex
	finds   []lFind
	badArgs []string
}

func (w *lWorld) slot(level int, path, name string) string {
	return fmt.Sprintf("%d:%s:%s", level, path, name)
}

type finderPanic struct{ slot string }

func (f finderPanic) Error() string { return `finder panic ` + f.slot }

func (w *lWorld) finder(level int, path string) dgo.Finder {
	return func(l dgo.Loader, name string) interface{} {
		n := parseName(name)
		if w.record {
			at := nanos()
			w.mu.Lock()
			w.finds = append(w.finds, lFind{w.slot(level, path, name), at})
			if l.AbsoluteName() != `/`+path {
				w.badArgs = append(w.badArgs, fmt.Sprintf("finder of /%s called with loader %s", path, l.AbsoluteName()))
			}
			w.mu.Unlock()
		}
		if n.class == 'n' || n.class == 'e' || n.level > level {
			dither(n.n + level)
			return nil
		}
		dither(rand.Intn(100))
		v := w.value(l, level, path, name, n)
		dither(rand.Intn(100))
		return v
	}
}

func (w *lWorld) value(l dgo.Loader, level int, path, name string, n lName) interface{} {
	switch n.class {
	case 'u':
		return vf.MutableValues(level, path, name, atomic.AddInt64(&w.ids, 1))
	case 'm':
		m := vf.MutableMap()
		g := n.n / 3 * 3
		for i := g; i < g+3; i++ {
			k := fmt.Sprintf("m%d.%d", n.level, i)
			m.Put(k, vf.MutableValues(level, path, k, 0))
		}
		return loader.Multiple(m)
	case 'r':
		x := l.Get(fmt.Sprintf("c%d.%d", n.level, n.n))
		if n.n > 0 {
			x = l.Load(fmt.Sprintf("r%d.%d", n.level, n.n-1))
		}
		if x == nil {
			panic(fmt.Errorf(`name not found by reentrant finder`))
		}
		if ns := l.Namespace(`n1`); ns != nil && strings.Count(path, `/`) < 2 {
			x = ns.Get(fmt.Sprintf("c%d.%d", n.level, n.n))
			if x == nil {
				panic(fmt.Errorf(`name in namespace not found by reentrant finder`))
			}
		}
		return vf.MutableValues(level, path, name, 0)
	case 'g':
		return []interface{}{level, path, name, 0}
	case 'p':
		if rand.Intn(2) == 0 {
			panic(finderPanic{w.slot(level, path, name)})
		}
	}
	return vf.MutableValues(level, path, name, 0)
}

func (w *lWorld) creator(level int, path string) dgo.NsCreator {
	if !w.ns[level] {
		return nil
	}
	return func(l dgo.Loader, name string) dgo.Loader {
		dither(rand.Intn(100))
		if name[0] != 'n' {
			return nil
		}
		p := name
		if path != `` {
			p = path + `/` + name
		}
		ns := loader.New(l, name, w.entries(level, p), w.finder(level, p), w.creator(level, p))
		dither(rand.Intn(100))
		return ns
	}
}

func (w *lWorld) entries(level int, path string) dgo.Map {
	m := vf.MutableMap()
	for i := 0; i < 3; i++ {
		k := fmt.Sprintf("e%d.%d", level, i)
		m.Put(k, vf.Values(level, path, k, 0))
	}
	return m
}

func newLWorld(c *mon.Ctx, r *rand.Rand) *lWorld {
	w := &lWorld{c: c, levels: 1 + r.Intn(3), record: r.Intn(2) == 0}
	w.ns = make([]bool, w.levels)
	for i := range w.ns {
		w.ns[i] = r.Intn(4) > 0
	}
	w.roots = make([]dgo.Loader, w.levels)
	w.roots[0] = loader.New(nil, ``, w.entries(0, ``), w.finder(0, ``), w.creator(0, ``))
	for i := 1; i < w.levels; i++ {
		w.roots[i] = w.roots[i-1].NewChild(w.finder(i, ``), w.creator(i, ``))
	}
	return w
}

// owner returns the level at which a name is found, or -1 if it isn't found
func (w *lWorld) owner(h int, path, name string) int {
	n := parseName(name)
	for i := 0; i <= h; i++ {
		if path != `` && !w.ns[i] {
			continue
		}
		switch {
		case n.class == 'n':
		case n.class == 'e':
			if i == n.level && (i == 0 || path != ``) {
				return i
			}
		case i >= n.level:
			return i
		}
	}
	return -1
}

func (w *lWorld) nsExists(h int, path string) bool {
	if path == `` {
		return true
	}
	for _, s := range strings.Split(path, `/`) {
		if s[0] != 'n' {
			return false
		}
	}
	for i := 0; i <= h; i++ {
		if w.ns[i] {
			return true
		}
	}
	return false
}

func (o *lOp) String() string {
	a := o.text
	if o.e != nil {
		a = fmt.Sprintf("panic %v", o.e)
	} else if o.text == `` && o.v != nil {
		a = o.v.String()
	}
	return fmt.Sprintf("%10d-%10d g%d level %d %s /%s %s -> %s", o.call, o.ret, o.g, o.h, o.kind, o.path, o.name, a)
}

func runC20(c *mon.Ctx) {
	c.Run(`history`, c.N(4000, 100000), func(r *rand.Rand, i int) { c20History(c, r) })
	c.Run(`sequential`, c.N(3000, 60000), func(r *rand.Rand, i int) { c20Sequential(c, r) })
	c.Run(`namespaces`, c.N(2000, 40000), func(r *rand.Rand, i int) { c20Namespaces(c, r) })
	c.Run(`duplicates`, c.N(2000, 40000), func(r *rand.Rand, i int) { c20Duplicates(c, r) })
}

func c20History(c *mon.Ctx, r *rand.Rand) {
	w := newLWorld(c, r)
	names := []string{}
	classes := `ncumrgpe`
	for k := 2 + r.Intn(5); k > 0; k-- {
		names = append(names, fmt.Sprintf("%c%d.%d", classes[r.Intn(len(classes))], r.Intn(w.levels), r.Intn(3)))
	}
	paths := []string{``}
	for k := r.Intn(3); k > 0; k-- {
		p := paths[r.Intn(len(paths))]
		s := []string{`n0`, `n1`, `n2`, `x`}[r.Intn(4)]
		if p != `` {
			s = p + `/` + s
		}
		paths = append(paths, s)
	}
	ng := 2 + r.Intn(7)
	rec := make([][]*lOp, ng)
	fs := make([]func(), ng)
	nops := 5 + r.Intn(25)
	for g := 0; g < ng; g++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		g := g
		fs[g] = func() {
			for k := 0; k < nops; k++ {
				rec[g] = append(rec[g], w.step(gr, g, names, paths))
			}
		}
	}
	for _, e := range together(c, procs(r), `loader`, fs...) {
		if e != nil {
			c.Fail(`unexpected panic outside of an operation`, "%v", e)
		}
	}
	all := []*lOp{}
	for _, o := range rec {
		all = append(all, o...)
	}
	// later lookups, when everything has ended
	for h := range w.roots {
		for _, p := range paths {
			for _, n := range names {
				all = append(all, w.get(-1, h, p, n, `Load`))
			}
		}
	}
	w.verify(all)
}

func (w *lWorld) nsOf(h int, path string) dgo.Loader {
	l := w.roots[h]
	if path != `` {
		for _, s := range strings.Split(path, `/`) {
			if l = l.Namespace(s); l == nil {
				return nil
			}
		}
	}
	return l
}

func (w *lWorld) get(g, h int, path, name, kind string) *lOp {
	o := &lOp{g: g, h: h, kind: kind, path: path, name: name}
	full := name
	if path != `` {
		full = path + `/` + name
	}
	o.call = nanos()
	o.e = mon.Catch(func() {
		switch kind {
		case `Load`:
			o.v = w.roots[h].Load(full)
		case `/Load`:
			o.v = w.roots[h].Load(`/` + full)
		case `Get`:
			if ns := w.nsOf(h, path); ns != nil {
				o.v = ns.Get(name)
			}
		case `Get String`:
			if ns := w.nsOf(h, path); ns != nil {
				o.v = ns.Get(vf.String(name))
			}
		case `child Load`:
			// a child without names of its own
			o.v = w.roots[h].NewChild(func(dgo.Loader, string) interface{} { return nil }, nil).Load(full)
		}
	})
	o.ret = nanos()
	return o
}

func (w *lWorld) step(r *rand.Rand, g int, names, paths []string) *lOp {
	h, path, name := r.Intn(w.levels), paths[r.Intn(len(paths))], names[r.Intn(len(names))]
	switch k := r.Intn(20); k {
	case 0, 1, 2, 3:
		o := &lOp{g: g, h: h, kind: `look`, path: path}
		o.call = nanos()
		o.e = mon.Catch(func() {
			ns := w.nsOf(h, path)
			if ns == nil {
				o.text = `no namespace`
				return
			}
			switch k {
			case 0:
				o.text = ns.AbsoluteName() + ns.Name() + fmt.Sprint(ns.ParentNamespace() != nil)
				if ns.AbsoluteName() != `/`+path {
					panic(fmt.Errorf(`absolute name is %s`, ns.AbsoluteName()))
				}
			case 1:
				o.text = fmt.Sprint(ns.HashCode())
			case 2:
				o.text = fmt.Sprint(ns.Equals(w.nsOf(r.Intn(w.levels), path)), ns.Type().Equals(ns.Type()))
				if !ns.Equals(ns) {
					panic(fmt.Errorf(`a loader is not equal to itself`))
				}
			case 3:
				o.text = ns.String()
			}
		})
		o.ret = nanos()
		if o.text == `` {
			o.text = ` `
		}
		return o
	case 4, 5:
		// the entries of the loader of one level
		o := &lOp{g: g, h: 0, kind: `entries`, path: path}
		o.call = nanos()
		o.e = mon.Catch(func() {
			ns := w.nsOf(0, path)
			if ns == nil {
				return
			}
			if nt, ok := ns.Type().(dgo.NamedType); ok {
				if m, ok := nt.ExtractInitArg(ns).(dgo.Map); ok {
					o.v = m.Get(`entries`)
				}
			}
		})
		o.ret = nanos()
		return o
	}
	return w.get(g, h, path, name, []string{`Load`, `/Load`, `Get`, `Get String`, `child Load`}[r.Intn(5)])
}

func payload(v dgo.Value) (level int, path, name string, id int64, ok bool) {
	a, isA := v.(dgo.Array)
	if !isA || a.Len() != 4 {
		return
	}
	l, ok1 := a.Get(0).(dgo.Integer)
	id2, ok2 := a.Get(3).(dgo.Integer)
	if ok1 && ok2 {
		return int(l.GoInt()), a.Get(1).(dgo.String).GoString(), a.Get(2).(dgo.String).GoString(), id2.GoInt(), true
	}
	return
}

func (w *lWorld) verify(all []*lOp) {
	sort.SliceStable(all, func(i, j int) bool { return all[i].call < all[j].call })
	c := w.c
	dump := func() string {
		sb := &strings.Builder{}
		fmt.Fprintf(sb, "levels %d, namespaces %v\n", w.levels, w.ns)
		for i, o := range all {
			if i > 200 {
				break
			}
			sb.WriteString(o.String() + "\n")
		}
		return sb.String()
	}
	bound := map[string]dgo.Value{}
	first := map[string]int64{} // completion of the first successful lookup of the slot
	reg := map[string][]porcupine.Operation{}
	sb := &strings.Builder{}
	maxConc := 0
	for i, o := range all {
		fmt.Fprintf(sb, "%d %d %s %s %s %T;", o.g, o.h, o.kind, o.path, o.name, o.e)
		conc := 0
		for _, p := range all[:i] {
			if p.ret > o.call {
				conc++
			}
		}
		if conc > maxConc {
			maxConc = conc
		}
		if o.kind == `look` || o.kind == `entries` {
			if o.e != nil {
				c.Fail(`a `+o.kind+` operation panics: `+mon.PanicClass(o.e), "%s\n%v\n%s", o, o.e, dump())
			}
			continue
		}
		ow := -1
		if w.nsExists(o.h, o.path) {
			ow = w.owner(o.h, o.path, o.name)
		}
		n := parseName(o.name)
		if o.e != nil {
			switch {
			case n.class == 'p':
				if fp, ok := o.e.(finderPanic); ok && fp.slot == w.slot(ow, o.path, o.name) {
					c.Count(`panics of finders`, 1)
					continue
				}
			case n.class == 'u':
				if err, ok := o.e.(error); ok && err.Error() == fmt.Sprintf("attempt to override entry %q", o.name) {
					c.Count(`refused attempts to override`, 1)
					s := w.slot(ow, o.path, o.name)
					reg[s] = append(reg[s], porcupine.Operation{ClientId: o.g + 1, Input: s, Call: o.call, Output: ``, Return: o.ret})
					continue
				}
			}
			c.Fail(`a lookup panics: `+mon.PanicClass(o.e), "%s\n%v\n%s", o, o.e, dump())
		}
		if ow < 0 {
			if o.v != nil {
				c.Fail(`a name that does not exist is found`, "%s\n%s", o, dump())
			}
			c.Count(`lookups of unknown names`, 1)
			continue
		}
		s := w.slot(ow, o.path, o.name)
		if o.v == nil {
			c.Fail(`a name that exists is not found`, "%s\n%s", o, dump())
		}
		l, p, nm, id, ok := payload(o.v)
		if !ok || l != ow || p != o.path || nm != o.name {
			c.Fail(`a lookup gives the value of another name or loader`, "expected the value of %s\n%s\n%s", s, o, dump())
		}
		if b := bound[s]; b == nil {
			bound[s] = o.v
		} else if b != o.v {
			c.Fail(`two lookups of a name give different values`, "%s: %s and %s\n%s", s, b, o.v, dump())
		}
		if t, ok := first[s]; !ok || o.ret < t {
			first[s] = o.ret
		}
		if n.class == 'u' {
			reg[s] = append(reg[s], porcupine.Operation{ClientId: o.g + 1, Input: s, Call: o.call, Output: fmt.Sprint(id), Return: o.ret})
		}
		c.Count(`lookups`, 1)
	}
	c.Seen(sb.String())
	if maxConc > 0 {
		c.Count(`histories with concurrent operations`, 1)
	}
	for _, o := range all {
		if o.kind != `entries` || o.v == nil {
			continue
		}
		m := o.v.(dgo.Map)
		m.EachEntry(func(e dgo.MapEntry) {
			if b := bound[w.slot(0, o.path, e.Key().(dgo.String).GoString())]; b != nil && e.Value() != b {
				c.Fail(`an entry differs from what the lookups give`, "%s is %s, lookups give %s\n%s", e.Key(), e.Value(), b, dump())
			}
		})
		for s, t := range first {
			pfx := w.slot(0, o.path, ``)
			if strings.HasPrefix(s, pfx) && t < o.call && m.Get(s[len(pfx):]) == nil {
				c.Fail(`a name that was found has disappeared`, "%s is not among the entries\n%s\n%s", s, o, dump())
			}
		}
		c.Count(`snapshots of entries`, 1)
	}
	for _, f := range w.finds {
		if t, ok := first[f.slot]; ok && f.at > t {
			// legal when it is called by a lookup that began before the other one ended
			legal := false
			for _, o := range all {
				legal = legal || o.call <= t && o.ret >= f.at
			}
			if legal {
				continue
			}
			c.Fail(`a finder is called for a name that was already found`, "%s, found at %d, finder called at %d\n%s", f.slot, t, f.at, dump())
		}
	}
	if len(w.badArgs) > 0 {
		c.Fail(`a finder is called with another loader`, "%s\n%s", strings.Join(w.badArgs, "\n"), dump())
	}
	c.Count(`finder calls recorded`, len(w.finds))
	for s, ops := range reg {
		if !linearizable(c, registerModel, ops) {
			c.Fail(`the lookups of a name are not linearizable`, "%s\n%s", s, dump())
		}
	}
	if maxConc > 2 {
		c.Sample(dump())
	}
}

// registerModel is a register that is bound once. An empty output is a refused attempt to bind it.
var registerModel = porcupine.Model{
	Init: func() interface{} { return `` },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, o := st.(string), out.(string)
		if o == `` {
			return s != ``, s
		}
		return s == `` || s == o, o
	},
}

// c20Namespaces checks that concurrently created namespaces are one, also when they are used at once
func c20Namespaces(c *mon.Ctx, r *rand.Rand) {
	var l dgo.Loader
	var created int64
	child := r.Intn(3) == 0
	mutable := r.Intn(2) == 0
	var creator dgo.NsCreator
	creator = func(p dgo.Loader, name string) dgo.Loader {
		dither(rand.Intn(100))
		atomic.AddInt64(&created, 1)
		if name == `none` {
			return nil
		}
		var n dgo.Loader
		if mutable {
			n = loader.New(p, name, vf.Map(`id`, name), func(_ dgo.Loader, k string) interface{} {
				dither(rand.Intn(100))
				return vf.MutableValues(name, k)
			}, creator)
		} else {
			n = loader.New(p, name, vf.Map(`id`, name), nil, nil)
		}
		if child {
			n = n.NewChild(func(_ dgo.Loader, k string) interface{} { return vf.MutableValues(name, k) }, nil)
		}
		return n
	}
	l = loader.New(nil, ``, nil, nil, creator)
	ng := 2 + r.Intn(7)
	got := make([]dgo.Loader, ng)
	vals := make([][]dgo.Value, ng)
	fs := make([]func(), ng)
	name := []string{`a`, `b`, `none`}[r.Intn(3)]
	other := r.Intn(2) == 0
	for g := range fs {
		g := g
		gr := rand.New(rand.NewSource(r.Int63()))
		fs[g] = func() {
			if other && g%2 == 0 {
				l.Namespace(fmt.Sprintf("other%d", gr.Intn(3)))
			}
			got[g] = l.Namespace(name)
			if n := got[g]; n != nil {
				vals[g] = append(vals[g], n.Get(`id`))
				if mutable || child {
					for k := 0; k < 3; k++ {
						vals[g] = append(vals[g], n.Get(fmt.Sprintf("k%d", k)))
					}
				}
				if gr.Intn(4) == 0 {
					_ = l.String()
				}
				if gr.Intn(4) == 0 {
					_ = l.HashCode()
				}
				if gr.Intn(4) == 0 {
					_ = l.Equals(n)
				}
				if mutable && !child {
					vals[g] = append(vals[g], l.Load(name+`/a/k1`))
				}
			}
		}
	}
	for _, e := range together(c, procs(r), `namespace`, fs...) {
		if e != nil {
			c.Fail(`using a namespace panics: `+mon.PanicClass(e), "%v\nname %s, mutable %v, child %v, %d goroutines", e, name, mutable, child, ng)
		}
	}
	c.Count(`concurrent uses of a namespace`, ng)
	c.Count(`namespaces created`, int(created))
	last := l.Namespace(name)
	for g, n := range got {
		if n != last {
			c.Fail(`a name resolves to different namespaces`, "goroutine %d got %v, later %v", g, n, last)
		}
		for i, v := range vals[g] {
			if v != vals[0][i] || v == nil {
				c.Fail(`two lookups in a namespace give different values`, "value %d: %v and %v", i, vals[0][i], v)
			}
		}
	}
	if (name == `none`) != (last == nil) {
		c.Fail(`a namespace is not what the creator returns`, "%s is %v", name, last)
	}
	if last != nil && (last.AbsoluteName() != `/`+name || last.ParentNamespace() != l) {
		c.Fail(`a namespace has another parent or name`, "%s", last.AbsoluteName())
	}
	c.Seen(fmt.Sprint(name, mutable, child, ng, created, other))
}

// sampleLoaders returns one loader of each kind
func sampleLoaders() []dgo.Loader {
	find := func(dgo.Loader, string) interface{} { return nil }
	a := loader.New(nil, `a`, vf.Map(`a`, 1), nil, nil)
	b := loader.New(nil, `b`, vf.Map(`a`, 1), find, nil)
	return []dgo.Loader{a, b, a.NewChild(find, nil), b.NewChild(find, nil)}
}
