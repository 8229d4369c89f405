package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/anishathalye/porcupine"
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C21`, Scale: 4, Race: true, Rule: `a history of concurrent operations on the registry of named types or on an alias map; distinct by the operations, their answers and their observed order`, Run: runC21})
}

// rOp is one recorded operation on a register. The registers are the names.
type rOp struct {
	g         int
	kind      string
	name      string
	call, ret int64
	arg, res  interface{}
	e         interface{}
}

func (o *rOp) String() string {
	if o.e != nil {
		return fmt.Sprintf("%10d-%10d g%d %s %s(%v) -> panic %v", o.call, o.ret, o.g, o.kind, o.name, o.arg, o.e)
	}
	return fmt.Sprintf("%10d-%10d g%d %s %s(%v) -> %v", o.call, o.ret, o.g, o.kind, o.name, o.arg, o.res)
}

type rStep struct {
	kind string
	arg  interface{}
	res  interface{}
}

func timed(o *rOp, f func()) *rOp {
	o.call = nanos()
	o.e = mon.Catch(f)
	o.ret = nanos()
	return o
}

// checkRegisters checks that the operations on each name are linearizable
func checkRegisters(c *mon.Ctx, what string, all []*rOp, m func(name string) porcupine.Model) {
	sort.SliceStable(all, func(i, j int) bool { return all[i].call < all[j].call })
	by := map[string][]porcupine.Operation{}
	sb := &strings.Builder{}
	overlap := 0
	for i, o := range all {
		if o.name == `` {
			continue
		}
		by[o.name] = append(by[o.name], porcupine.Operation{ClientId: o.g + 1, Input: rStep{o.kind, o.arg, o.res}, Call: o.call, Output: nil, Return: o.ret})
		fmt.Fprintf(sb, "%d %s %s %T;", o.g, o.kind, o.name, o.res)
		if i > 0 && all[i-1].ret > o.call {
			overlap++
		}
		c.Count(what+`: `+o.kind, 1)
	}
	c.Count(what+`: overlapping operations`, overlap)
	c.Seen(what + sb.String())
	for n, ops := range by {
		if !linearizable(c, m(n), ops) {
			d := &strings.Builder{}
			for _, o := range all {
				if o.name == n {
					d.WriteString(o.String() + "\n")
				}
			}
			c.Fail(what+`: the operations on a name are not linearizable`, "%s\n%s", n, d)
		}
	}
}

func runC21(c *mon.Ctx) {
	c.Run(`named`, c.N(2500, 60000), func(r *rand.Rand, i int) { c21Named(c, r, i) })
	c.Run(`aliases`, c.N(2500, 60000), func(r *rand.Rand, i int) { c21Aliases(c, r, i, false) })
	c.Run(`default aliases`, c.N(1500, 30000), func(r *rand.Rand, i int) { c21Aliases(c, r, i, true) })
	c.Run(`shared types`, c.N(800, 16000), func(r *rand.Rand, i int) { c21SharedTypes(c, r, i) })
	c.Run(`growth`, c.N(16, 64), func(r *rand.Rand, i int) { c21Growth(c, r) })
	c.Run(`reflected`, 1, func(r *rand.Rand, i int) { c21Reflected(c) })
}

func c21Named(c *mon.Ctx, r *rand.Rand, ci int) {
	names := []string{}
	rts := map[string]reflect.Type{}
	for k := 1 + r.Intn(3); k > 0; k-- {
		n := fmt.Sprintf("c21n%dx%d", ci, k)
		names = append(names, n)
		rts[n] = reflect.ArrayOf(ci*4+k, reflect.TypeOf(uint16(0)))
	}
	defer func() {
		for _, n := range names {
			tf.RemoveNamed(n)
		}
	}()
	ng := 2 + r.Intn(6)
	nops := 4 + r.Intn(14)
	rec := make([][]*rOp, ng)
	fs := make([]func(), ng)
	remove := r.Intn(3) > 0
	for g := range fs {
		g := g
		gr := rand.New(rand.NewSource(r.Int63()))
		fs[g] = func() {
			for k := 0; k < nops; k++ {
				n := names[gr.Intn(len(names))]
				o := &rOp{g: g, name: n}
				var t dgo.Value
				set := func(x dgo.NamedType) {
					if x != nil && !reflect.ValueOf(x).IsNil() {
						t = x
					}
				}
				var f func()
				switch gr.Intn(8) {
				case 0, 1, 2:
					o.kind = `new`
					f = func() {
						set(tf.NewNamed(n, func(a dgo.Value) dgo.Value { return a }, nil, rts[n], nil, nil))
					}
				case 3:
					if remove {
						o.kind = `remove`
						f = func() { tf.RemoveNamed(n) }
						break
					}
					fallthrough
				case 4, 5:
					o.kind = `get`
					f = func() { set(tf.Named(n)) }
				case 6:
					o.kind = `get`
					f = func() { set(tf.NamedFromReflected(rts[n])) }
				default:
					o.kind = `get`
					f = func() {
						if e := mon.Catch(func() { t = tf.ParseType(n) }); e != nil {
							if err, ok := e.(error); !ok || !strings.Contains(err.Error(), `reference to unresolved type '`+n+`'`) {
								panic(e)
							}
							t = nil
						}
					}
				}
				timed(o, f)
				if t != nil {
					// a type that was obtained can be used
					nt, ok := t.(dgo.NamedType)
					if !ok || nt.Name() != n || nt.String() != n || nt.ReflectType() != rts[n] {
						o.e = fmt.Sprintf("the type is %T %v", t, t)
					} else {
						o.res = t
					}
				}
				rec[g] = append(rec[g], o)
			}
		}
	}
	together(c, procs(r), `named types`, fs...)
	all := []*rOp{}
	for _, os := range rec {
		all = append(all, os...)
	}
	for _, n := range names {
		o := &rOp{g: -1, name: n, kind: `get`}
		timed(o, func() {
			if nt := tf.Named(n); nt != nil {
				o.res = dgo.Value(nt)
			}
		})
		all = append(all, o)
	}
	for _, o := range all {
		if o.e == nil {
			continue
		}
		if err, ok := o.e.(error); o.kind == `new` && ok && err.Error() == fmt.Sprintf("attempt to redefine named type '%s'", o.name) {
			o.kind, o.e = `refused new`, nil
			continue
		}
		c.Fail(`named types: an operation panics: `+mon.PanicClass(o.e), "%s", o)
	}
	checkRegisters(c, `named types`, all, func(string) porcupine.Model {
		return porcupine.Model{
			Init: func() interface{} { return nil },
			Step: func(st, in, _ interface{}) (bool, interface{}) {
				s := in.(rStep)
				switch s.kind {
				case `new`:
					return st == nil, s.res
				case `refused new`:
					return st != nil, st
				case `remove`:
					return true, nil
				}
				return st == s.res, st
			},
		}
	})
}

// aliasSize returns the size that identifies the type that an alias denotes, 0 if there's no such type
func aliasSize(t dgo.Type) int {
	if at, ok := t.(dgo.ArrayType); ok && at != nil {
		t = at.ElementType()
	}
	if st, ok := t.(dgo.StringType); ok && st.Min() == st.Max() {
		return st.Min()
	}
	return -1
}

var poolNames = []string{`c21pa`, `c21pb`, `c21pc`, `c21pd`}

func c21Aliases(c *mon.Ctx, r *rand.Rand, ci int, def bool) {
	what := `aliases`
	names := []string{`aa`, `bb`, `cc`}[:1+r.Intn(3)]
	m := tf.BuiltInAliases()
	lock := sync.Mutex{}
	add := func(f func(dgo.AliasAdder)) { tf.AddAliases(&m, &lock, f) }
	get := func() dgo.AliasMap {
		lock.Lock()
		defer lock.Unlock()
		return m
	}
	if def {
		what = `default aliases`
		names = poolNames[:1+r.Intn(4)]
		add = tf.AddDefaultAliases
		get = tf.DefaultAliases
	}
	sz := int64(1000 + ci*1000)
	init := map[string]int{}
	for _, n := range names {
		if t := get().GetType(vf.String(n)); t != nil {
			init[n] = aliasSize(t)
		}
	}
	pair := len(names) > 1 && r.Intn(2) == 0 // the first two names are always added together
	form := func(k int, array bool) dgo.Type {
		if array {
			return tf.Array(tf.String(k, k))
		}
		return tf.String(k, k)
	}
	arrays := r.Intn(2) == 0
	ng := 2 + r.Intn(6)
	nops := 3 + r.Intn(10)
	rec := make([][]*rOp, ng)
	fs := make([]func(), ng)
	for g := range fs {
		g := g
		gr := rand.New(rand.NewSource(r.Int63()))
		var mine []int
		fs[g] = func() {
			for k := 0; k < nops; k++ {
				ni := gr.Intn(len(names))
				n := names[ni]
				o := &rOp{g: g, name: n}
				switch q := gr.Intn(12); {
				case q < 4:
					v := int(atomic.AddInt64(&sz, 1))
					mine = append(mine, v)
					o.kind, o.arg = `add`, v
					if pair && ni < 2 {
						o.name = names[0]
						timed(o, func() {
							add(func(a dgo.AliasAdder) {
								a.Add(form(v, arrays), vf.String(names[0]))
								dither(gr.Intn(100))
								a.Add(form(v, !arrays), vf.String(names[1]))
							})
						})
						o2 := *o
						o2.name = names[1]
						rec[g] = append(rec[g], &o2)
						break
					}
					timed(o, func() {
						add(func(a dgo.AliasAdder) {
							dither(gr.Intn(100))
							a.Add(form(v, arrays), vf.String(n))
							dither(gr.Intn(100))
						})
					})
				case q == 4 && !(pair && ni < 2):
					// a declaration in an expression
					v := int(atomic.AddInt64(&sz, 1))
					mine = append(mine, v)
					o.kind, o.arg = `add`, v
					x := fmt.Sprintf(`%s=string[%d,%d]`, n, v, v)
					if arrays {
						x = fmt.Sprintf(`%s=[]string[%d,%d]`, n, v, v)
					}
					timed(o, func() {
						var e interface{}
						if def && gr.Intn(2) == 0 {
							e = mon.Catch(func() { tf.ParseType(x) })
						} else {
							add(func(a dgo.AliasAdder) { e = mon.Catch(func() { tf.ParseFile(a, ``, x) }) })
						}
						if e != nil {
							if err, ok := e.(error); !ok || !strings.Contains(err.Error(), `attempt to redeclare identifier '`+n) {
								panic(e)
							}
							o.kind = `refused declaration`
						}
					})
				case q == 5:
					// nothing is added
					o.kind = `nothing`
					timed(o, func() { add(func(a dgo.AliasAdder) { dither(gr.Intn(100)) }) })
				case q < 8 && len(mine) > 0:
					v := mine[gr.Intn(len(mine))]
					o.kind, o.arg = `name of`, v
					arr := arrays
					if pair && ni < 2 {
						arr = arrays == (ni == 0)
					}
					t := form(v, arr)
					timed(o, func() {
						if def && gr.Intn(2) == 0 {
							o.res = t.String() == n
						} else {
							o.res = vf.String(n).Equals(get().GetName(t))
						}
					})
				case q == 8 && pair:
					o.name = ``
					o.kind = `pair`
					timed(o, func() {
						mp := get()
						a, b := mp.GetType(vf.String(names[0])), mp.GetType(vf.String(names[1]))
						if a != nil && aliasSize(a) != init[names[0]] || b != nil && aliasSize(b) != init[names[1]] {
							if a == nil || b == nil || aliasSize(a) != aliasSize(b) {
								panic(fmt.Errorf(`two names added together are %v and %v`, a, b))
							}
						}
					})
				case def && q < 11:
					o.kind = `get`
					timed(o, func() {
						var t dgo.Type
						e := mon.Catch(func() {
							switch q {
							case 9:
								t = tf.ParseType(`map[string]` + n).(dgo.MapType).ValueType()
							default:
								t = pcore.Parse(`Array[C` + n[1:] + `]`).(dgo.ArrayType).ElementType()
							}
						})
						if e != nil {
							if err, ok := e.(error); !ok || !strings.Contains(err.Error(), `reference to unresolved type '`+n+`'`) {
								panic(e)
							}
							o.res = 0
							return
						}
						o.res = aliasSize(t)
					})
				default:
					o.kind = `get`
					timed(o, func() {
						if t := get().GetType(vf.String(n)); t != nil {
							o.res = aliasSize(t)
						} else {
							o.res = 0
						}
					})
				}
				rec[g] = append(rec[g], o)
			}
		}
	}
	for _, e := range together(c, procs(r), what, fs...) {
		if e != nil {
			c.Fail(what+`: unexpected panic: `+mon.PanicClass(e), "%v", e)
		}
	}
	all := []*rOp{}
	for _, os := range rec {
		all = append(all, os...)
	}
	for _, n := range names {
		o := &rOp{g: -1, name: n, kind: `get`, res: 0}
		timed(o, func() {
			if t := get().GetType(vf.String(n)); t != nil {
				o.res = aliasSize(t)
			}
		})
		all = append(all, o)
	}
	for _, o := range all {
		if o.e != nil {
			c.Fail(what+`: an operation panics: `+mon.PanicClass(o.e), "%s", o)
		}
	}
	checkRegisters(c, what, all, func(name string) porcupine.Model {
		return porcupine.Model{
			Init: func() interface{} { return init[name] },
			Step: func(st, in, _ interface{}) (bool, interface{}) {
				s := in.(rStep)
				switch s.kind {
				case `add`:
					return true, s.arg
				case `refused declaration`:
					return st != 0, st
				case `name of`:
					return (st == s.arg) == s.res.(bool), st
				case `get`:
					return st == s.res, st
				}
				return true, st
			},
		}
	})
	if bi := tf.BuiltInAliases(); bi.GetType(vf.String(names[0])) != nil {
		c.Fail(what+`: the built in aliases have been modified`, "%s", names[0])
	}
	if ci < 2 {
		sb := &strings.Builder{}
		for _, o := range all {
			sb.WriteString(o.String() + "\n")
		}
		c.Sample(sb.String())
	}
}

// c21SharedTypes adds types that are in use under several names, and parses expressions that refer to them
func c21SharedTypes(c *mon.Ctx, r *rand.Rand, ci int) {
	n := fmt.Sprintf("c21s%d", ci%20)
	texts := []string{`map[string](int|%s)`, `[](string|%s)`, `{"a":int,"b"?:%s}`, `{string,[]%s}|nil`, `map[string][]%s|!int`, `func(%s) %s`, `type|sensitive[%s]|int`, `[1,3]%s|string`}
	x := texts[r.Intn(len(texts))]
	x = strings.Replace(x, `%s`, n, -1)
	var shared dgo.Type
	am := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { tf.ParseFile(a, ``, n+`=`+x) })
	shared = am.GetType(vf.String(n))
	str, hash := shared.String(), shared.HashCode()
	v := []dgo.Value{vf.Value(`a`), vf.Map(`a`, 1, `b`, nil), vf.Values(`a`, vf.Values()), vf.Value(3), vf.Map(`a`, vf.Values()), vf.Nil, vf.Values(`x`, vf.Values(`y`))}
	inst := make([]bool, len(v))
	for i := range v {
		inst[i] = shared.Instance(v[i])
	}
	m := am
	lock := sync.Mutex{}
	fs := make([]func(), 3+r.Intn(4))
	for g := range fs {
		g := g
		gr := rand.New(rand.NewSource(r.Int63()))
		fs[g] = func() {
			for k := 0; k < 4; k++ {
				switch (g + k) % 4 {
				case 0:
					tf.AddAliases(&m, &lock, func(a dgo.AliasAdder) { a.Add(shared, vf.String(fmt.Sprintf("other%d", gr.Intn(3)))) })
				case 1:
					tf.AddAliases(&m, &lock, func(a dgo.AliasAdder) {
						t := tf.ParseFile(a, ``, fmt.Sprintf(`more%dx%d=[](%s|bool)`, g, k, n)).(dgo.ArrayType)
						if !t.Instance(vf.Values(true)) {
							panic(fmt.Errorf(`%s does not accept {true}`, t))
						}
					})
				case 2:
					if shared.String() != str || shared.HashCode() != hash || !shared.Equals(shared) || !typ.Generic(shared).Assignable(shared) {
						panic(fmt.Errorf(`%s has changed to %s`, str, shared))
					}
				default:
					for i := range v {
						if shared.Instance(v[i]) != inst[i] {
							panic(fmt.Errorf(`%s instance of %s: not %v`, v[i], str, inst[i]))
						}
					}
				}
			}
		}
	}
	for _, e := range together(c, procs(r), `shared types`, fs...) {
		if e != nil {
			c.Fail(`shared types: unexpected panic: `+mon.PanicClass(e), "%s=%s: %v", n, x, e)
		}
	}
	if m.GetType(vf.String(n)) != shared {
		c.Fail(`shared types: a type has been replaced`, "%s", n)
	}
	c.Count(`uses of shared types`, 4*len(fs))
	c.Seen(`shared` + x + fmt.Sprint(len(fs)))
}

// c21Growth checks that the memory that is used is proportional to the number of aliases
func c21Growth(c *mon.Ctx, r *rand.Rand) {
	m := tf.BuiltInAliases()
	lock := sync.Mutex{}
	var b, a runtime.MemStats
	runtime.ReadMemStats(&b)
	n := 18 + r.Intn(5)
	for i := 0; i < n; i++ {
		tf.AddAliases(&m, &lock, func(a dgo.AliasAdder) { a.Add(tf.String(i, i), vf.String(fmt.Sprint(`g`, i))) })
	}
	runtime.ReadMemStats(&a)
	c.Count(`aliases added one by one`, n)
	if a.TotalAlloc-b.TotalAlloc > 2<<20 {
		c.Fail(`aliases: memory is not proportional to the number of aliases`, "adding %d aliases allocates %d bytes", n, a.TotalAlloc-b.TotalAlloc)
	}
	for i := 0; i < n; i++ {
		if s := aliasSize(m.GetType(vf.String(fmt.Sprint(`g`, i)))); s != i {
			c.Fail(`aliases: an alias is lost`, "g%d is %d", i, s)
		}
	}
}

// c21Reflected checks that the type of each value of a registered type is found by its implementation type
func c21Reflected(c *mon.Ctx) {
	for _, v := range sampleLoaders() {
		nt := v.Type().(dgo.NamedType)
		g := typ.Generic(nt)
		f := tf.NamedFromReflected(reflect.TypeOf(v))
		if f == nil || !g.Equals(f) {
			c.Fail(`the implementation type of a named type denotes another type`, "%T is %v, expected %v", v, f, g)
		}
		c.Count(`implementation types`, 1)
	}
}
