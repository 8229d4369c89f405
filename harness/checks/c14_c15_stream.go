package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C14`, Scale: 30, Rule: `a value that was encoded and decoded; distinct by its content`, Run: runC14})
	mon.Register(&mon.Prop{ID: `C15`, Scale: 25, Rule: `a recorded event trace; distinct by its events and the options`, Run: runC15})
}

// dialectNames are the names that are used by a dialect. They are written down here, independent of the code.
type dialectNames struct {
	d                                        streamer.Dialect
	name                                     string
	typeKey, valueKey, refKey                string
	aliasT, binaryT, mapT, sensitiveT, timeT string
}

var dialects = []*dialectNames{
	{streamer.DgoDialect(), `dgo`, `__type`, `__value`, `__ref`, `alias`, `binary`, `map`, `sensitive`, `time`},
	{pcore.Dialect(), `pcore`, `__ptype`, `__pvalue`, `__pref`, `Alias`, `Binary`, `Hash`, `Sensitive`, `Timestamp`},
}

// ev is a recorded stream event
type ev struct {
	k    byte // v=value, r=reference, a=array, m=map
	v    *gen.V
	n    int // index of the referenced event
	kids []*ev
	done bool
}

func (e *ev) size() int {
	n := 1
	for _, k := range e.kids {
		n += k.size()
	}
	return n
}

func (e *ev) write(sb *strings.Builder) {
	switch e.k {
	case 'v':
		sb.WriteString(e.v.Canon(false))
	case 'r':
		fmt.Fprintf(sb, `@%d`, e.n)
	default:
		sb.WriteByte(e.k)
		sb.WriteByte('(')
		for i, k := range e.kids {
			if i > 0 {
				sb.WriteByte(' ')
			}
			k.write(sb)
		}
		sb.WriteByte(')')
	}
}

func (e *ev) String() string {
	sb := &strings.Builder{}
	e.write(sb)
	return sb.String()
}

type badTrace struct{ msg string }

func bad(f string, args ...interface{}) { panic(badTrace{fmt.Sprintf(f, args...)}) }

// recorder is a Consumer that records events and checks that each event is permitted
type recorder struct {
	bin, tm, ck bool
	threshold   int
	dedup       streamer.DedupLevel // effective level
	all         []*ev
	stack       []*ev
	root        *ev
	inKey       int
	refs        int
}

func (c *recorder) CanDoBinary() bool         { return c.bin }
func (c *recorder) CanDoTime() bool           { return c.tm }
func (c *recorder) CanDoComplexKeys() bool    { return c.ck }
func (c *recorder) StringDedupThreshold() int { return c.threshold }

func (c *recorder) atKey() bool {
	n := len(c.stack)
	return n > 0 && c.stack[n-1].k == 'm' && len(c.stack[n-1].kids)%2 == 0
}

func (c *recorder) place(e *ev) {
	n := len(c.stack)
	if c.atKey() && !c.ck && !(e.k == 'v' && e.v.K == gen.KStr) {
		bad(`the key %s is sent to a consumer which only accepts strings as keys`, e)
	}
	if n == 0 {
		if c.root != nil {
			bad(`more than one value is sent`)
		}
		c.root = e
	} else {
		p := c.stack[n-1]
		p.kids = append(p.kids, e)
	}
}

func (c *recorder) collection(k byte, doer dgo.Doer) {
	e := &ev{k: k}
	key := c.atKey()
	c.place(e)
	c.all = append(c.all, e)
	c.stack = append(c.stack, e)
	if key {
		c.inKey++
	}
	doer()
	if key {
		c.inKey--
	}
	if c.stack[len(c.stack)-1] != e {
		bad(`unbalanced events`)
	}
	c.stack = c.stack[:len(c.stack)-1]
	if k == 'm' && len(e.kids)%2 != 0 {
		bad(`a map has a key without value: %s`, e)
	}
	e.done = true
}

func (c *recorder) AddArray(_ int, doer dgo.Doer) { c.collection('a', doer) }
func (c *recorder) AddMap(_ int, doer dgo.Doer)   { c.collection('m', doer) }

func (c *recorder) Add(v dgo.Value) {
	e := &ev{k: 'v', v: gen.Observe(v), done: true}
	switch e.v.K {
	case gen.KNil, gen.KBool, gen.KInt, gen.KFloat, gen.KStr:
	case gen.KBin:
		if !c.bin {
			bad(`a binary is sent to a consumer that does not accept it`)
		}
	case gen.KTime:
		if !c.tm {
			bad(`a time is sent to a consumer that does not accept it`)
		}
	default:
		bad(`a value of type %T is sent`, v)
	}
	c.place(e)
	c.all = append(c.all, e)
}

func (c *recorder) AddRef(n int) {
	e := &ev{k: 'r', n: n, done: true}
	if n < 0 || n >= len(c.all) {
		bad(`reference to value %d after %d values`, n, len(c.all))
	}
	if c.dedup == streamer.NoDedup {
		bad(`a reference is sent without deduplication`)
	}
	if c.dedup == streamer.NoKeyDedup && (c.inKey > 0 || c.atKey()) {
		bad(`a reference is sent in a key although keys are not deduplicated`)
	}
	if t := c.all[n]; t.k == 'v' {
		switch t.v.K {
		case gen.KStr:
			if len(t.v.S) < c.threshold {
				bad(`a reference to the short string %q`, t.v.S)
			}
		case gen.KBin, gen.KTime:
		default:
			bad(`a reference to %s`, t)
		}
	}
	c.refs++
	c.place(e)
}

// denote interprets a trace
func denote(all []*ev, e *ev, d *dialectNames, rich *int) *gen.V {
	switch e.k {
	case 'v':
		return e.v
	case 'r':
		if !all[e.n].done {
			bad(`cyclic reference`)
		}
		return denote(all, all[e.n], d, rich)
	case 'a':
		v := gen.Arr()
		for _, k := range e.kids {
			v.E = append(v.E, denote(all, k, d, rich))
		}
		return v
	}
	m := gen.Map(nil, nil)
	for i := 0; i < len(e.kids); i += 2 {
		k := denote(all, e.kids[i], d, rich)
		if m.Find(k) >= 0 {
			bad(`the key %s is repeated`, k)
		}
		m.Keys = append(m.Keys, k)
		m.E = append(m.E, denote(all, e.kids[i+1], d, rich))
	}
	ti := m.Find(gen.Str(d.typeKey))
	if ti < 0 || m.E[ti].K != gen.KStr {
		return m
	}
	*rich++
	name := m.E[ti].S
	if len(m.E) == 1 {
		return gen.Type(name)
	}
	vi := m.Find(gen.Str(d.valueKey))
	if ti != 0 || vi != 1 || len(m.E) != 2 {
		bad(`rich value with unexpected keys: %s`, m)
	}
	arg := m.E[vi]
	str := func() string {
		if arg.K != gen.KStr {
			bad(`%s is not represented by a string but %s`, name, arg)
		}
		return arg.S
	}
	switch name {
	case d.sensitiveT:
		return gen.Sens(arg)
	case d.binaryT:
		bs, err := base64.StdEncoding.DecodeString(str())
		if err != nil {
			bad(`binary: %v`, err)
		}
		return gen.Bin(bs)
	case d.timeT:
		t, err := time.Parse(time.RFC3339Nano, str())
		if err != nil {
			bad(`time: %v`, err)
		}
		return gen.Time(t)
	case d.mapT:
		if arg.K != gen.KArr || len(arg.E)%2 != 0 {
			bad(`map is represented by %s`, arg)
		}
		r := gen.Map(nil, nil)
		for i := 0; i < len(arg.E); i += 2 {
			if r.Find(arg.E[i]) >= 0 {
				bad(`the key %s is repeated`, arg.E[i])
			}
			r.Keys = append(r.Keys, arg.E[i])
			r.E = append(r.E, arg.E[i+1])
		}
		return r
	case d.aliasT:
		if arg.K != gen.KArr || len(arg.E) != 2 || arg.E[0].K != gen.KStr || arg.E[1].K != gen.KStr {
			bad(`alias is represented by %s`, arg)
		}
		return gen.Type(arg.E[1].S)
	}
	bad(`unknown type %q`, name)
	return nil
}

// readJSON reads a JSON document, with the reader of the Go library, into a trace
func readJSON(b []byte, d *dialectNames) (all []*ev, root *ev) {
	jd := json.NewDecoder(bytes.NewReader(b))
	jd.UseNumber()
	var value func(t json.Token) *ev
	next := func() json.Token {
		t, err := jd.Token()
		if err != nil {
			bad(`JSON: %v`, err)
		}
		return t
	}
	value = func(t json.Token) *ev {
		e := &ev{k: 'v'}
		switch t := t.(type) {
		case json.Delim:
			at := len(all)
			all = append(all, e)
			if t == '[' {
				e.k = 'a'
				for jd.More() {
					e.kids = append(e.kids, value(next()))
				}
				next()
				e.done = true
				return e
			}
			e.k = 'm'
			for jd.More() {
				e.kids = append(e.kids, value(next()))
			}
			next()
			e.done = true
			if len(e.kids) == 2 && e.kids[0].v.S == d.refKey && e.kids[1].k == 'v' && e.kids[1].v.K == gen.KInt {
				all = all[:at]
				e.k, e.n, e.kids = 'r', int(e.kids[1].v.I), nil
				if e.n < 0 || e.n >= len(all) {
					bad(`reference to value %d after %d values`, e.n, len(all))
				}
			}
			return e
		case nil:
			e.v = gen.Nil()
		case bool:
			e.v = gen.Bool(t)
		case string:
			e.v = gen.Str(t)
		case json.Number:
			if i, err := t.Int64(); err == nil {
				e.v = gen.Int(i)
			} else {
				f, err := t.Float64()
				if err != nil {
					bad(`number %s`, t)
				}
				e.v = gen.Float(f)
			}
		}
		e.done = true
		all = append(all, e)
		return e
	}
	root = value(next())
	if _, err := jd.Token(); err != io.EOF {
		bad(`JSON: data after the value`)
	}
	return
}

// streamable changes a generated value so that it can be serialized: no maps that are, or look like, the
// representation of something else in one of the dialects, valid unicode, and types with a syntax.
func streamable(r *rand.Rand, v *gen.V, js bool) *gen.V {
	n := *v
	n.E = append([]*gen.V(nil), v.E...)
	n.Keys = append([]*gen.V(nil), v.Keys...)
	for i := range n.E {
		n.E[i] = streamable(r, n.E[i], js)
	}
	for i := range n.Keys {
		n.Keys[i] = streamable(r, n.Keys[i], js)
	}
	switch n.K {
	case gen.KStr:
		if !utf8.ValidString(n.S) {
			n.S = strings.ToValidUTF8(n.S, `?`)
		}
	case gen.KType:
		switch n.S {
		case `time`, `regexp`, `error`, `native`:
			n.S = `int`
		}
	case gen.KRegexp, gen.KErr:
		return gen.Str(n.S)
	case gen.KMap:
		for i, k := range n.Keys {
			for j := 0; j < i; j++ {
				if gen.Eq(n.Keys[j], k) { // made equal by the changes
					return gen.Nil()
				}
			}
			if k.K != gen.KStr {
				continue
			}
			for _, d := range dialects {
				if k.S == d.typeKey && n.E[i].K == gen.KStr {
					n.E[i] = gen.Int(int64(len(n.E[i].S)))
				}
				if k.S == d.refKey && (len(n.Keys) == 1 && n.E[i].K == gen.KInt || js && i == 0) {
					return gen.Nil()
				}
			}
		}
	}
	return &n
}

var streamStrs = []string{`__ptype`, `__pvalue`, `__pref`, `__ref`, `__type`, `__value`, `sensitive`, `map`, `Hash`, `binary`, `alias`, `</script>&`, "\u2028", "\ufffd", "\x7f", "a string that is longer than twenty", "another string that is longer than twenty"}

// genStreamable generates a value in which parts are repeated
func genStreamable(r *rand.Rand, cfg *gen.Cfg, js bool) *gen.V {
	pool := make([]*gen.V, 0, 6)
	for i := 0; i < 3; i++ {
		c := *cfg
		c.Depth = r.Intn(2)
		pool = append(pool, gen.Gen(r, &c))
	}
	for i := 0; i < 3; i++ {
		if r.Intn(3) == 0 {
			pool = append(pool, gen.Str(hostileString(r, false)))
		} else {
			pool = append(pool, gen.Str(streamStrs[r.Intn(len(streamStrs))]))
		}
	}
	if r.Intn(8) == 0 {
		// long values that differ in their last, first, or middle part only
		p := strings.Repeat(`lengthy `, 1+r.Intn(60))
		n := 3
		if cfg.Data {
			n = 2
		}
		switch r.Intn(n) {
		case 0:
			pool = append(pool, gen.Str(p+`a`), gen.Str(p+`b`), gen.Str(p))
		case 1:
			pool = append(pool, gen.Str(`a`+p), gen.Str(`b`+p), gen.Str(p+`ab`+p), gen.Str(p+`Ab`+p))
		default:
			pool = append(pool, gen.Bin([]byte(p+`a`)), gen.Bin([]byte(p+`b`)), gen.Sens(gen.Str(p)), gen.Sens(gen.Str(p+`a`)))
		}
	}
	if r.Intn(2500) == 0 {
		// so many values that the references become large numbers
		v := gen.Arr()
		for n := 1000 + r.Intn(1500); n > 0; n-- {
			switch r.Intn(4) {
			case 0:
				v.E = append(v.E, pool[r.Intn(len(pool))])
			case 1:
				v.E = append(v.E, gen.Int(int64(n)))
			default:
				v.E = append(v.E, gen.Str(fmt.Sprintf(`a string with the number %d`, r.Intn(1500))))
			}
		}
		return streamable(r, v, js)
	}
	var subst func(v *gen.V) *gen.V
	subst = func(v *gen.V) *gen.V {
		n := *v
		n.E = append([]*gen.V(nil), v.E...)
		n.Keys = append([]*gen.V(nil), v.Keys...)
		for i := range n.E {
			if r.Intn(3) == 0 {
				n.E[i] = pool[r.Intn(len(pool))]
			} else {
				n.E[i] = subst(n.E[i])
			}
		}
		for i := range n.Keys {
			if r.Intn(4) == 0 {
				k := pool[r.Intn(len(pool))]
				if (!cfg.StrKeys || k.K == gen.KStr) && n.Find(k) < 0 {
					n.Keys[i] = k
				}
			}
		}
		return &n
	}
	return streamable(r, subst(gen.Gen(r, cfg)), js)
}

// buildShared builds a dgo value in which equal parts are often the same instance
func buildShared(r *rand.Rand, v *gen.V, pool map[string]dgo.Value) dgo.Value {
	key := v.Canon(false)
	if x, ok := pool[key]; ok && r.Intn(4) != 0 {
		return x
	}
	var x dgo.Value
	switch v.K {
	case gen.KArr:
		a := vf.ArrayWithCapacity(len(v.E))
		for _, e := range v.E {
			a.Add(buildShared(r, e, pool))
		}
		x = a
	case gen.KMap:
		m := vf.MapWithCapacity(len(v.E))
		for i, e := range v.E {
			m.Put(buildShared(r, v.Keys[i], pool), buildShared(r, e, pool))
		}
		x = m
	case gen.KSens:
		x = vf.Sensitive(buildShared(r, v.E[0], pool))
	default:
		x = v.BuildScalar()
	}
	if r.Intn(6) == 0 {
		if f, ok := x.(dgo.Freezable); ok {
			x = f.FrozenCopy()
		}
	}
	pool[key] = x
	return x
}

func anyPart(v *gen.V, f func(*gen.V) bool) bool {
	if f(v) {
		return true
	}
	for _, e := range v.E {
		if anyPart(e, f) {
			return true
		}
	}
	for _, e := range v.Keys {
		if anyPart(e, f) {
			return true
		}
	}
	return false
}

func hasType(v *gen.V) bool { return anyPart(v, func(x *gen.V) bool { return x.K == gen.KType }) }

// guard runs f and reports violations of the stream grammar
func guard(c *mon.Ctx, sig string, d func() string, f func()) {
	e := mon.Catch(f)
	if e == nil {
		return
	}
	if b, ok := e.(badTrace); ok {
		c.Fail(sig+`: `+classOf(b.msg), "%s\n%s", b.msg, d())
	}
	c.Fail(sig+`: unexpected panic`, "%v\n%s", e, d())
}

// classOf removes the specifics of a message
func classOf(s string) string {
	if i := strings.IndexAny(s, `0123456789"[{(@`); i > 0 {
		s = s[:i]
	}
	if i := strings.Index(s, ` is sent to a consumer which`); i > 0 {
		return `a key that is no string`
	}
	return strings.TrimRight(s, ` :`)
}

func runC14(c *mon.Ctx) {
	c.Run(`listed`, 1, func(r *rand.Rand, i int) {
		b := streamer.MarshalJSON(tf.ParseType(`map[string]int`), pcore.Dialect())
		var y dgo.Value
		e := mon.Catch(func() { y = streamer.UnmarshalJSON(b, pcore.Dialect()) })
		if e != nil || !tf.ParseType(`map[string]int`).Equals(y) {
			c.Fail(`types are written in dgo syntax when the dialect is pcore`, "%s decoded as %v, error %v", b, y, e)
		}
	})
	c.Run(`rich`, c.N(20000, 600000), func(r *rand.Rand, i int) {
		dn := dialects[r.Intn(2)]
		v := genStreamable(r, &gen.Cfg{Depth: 1 + r.Intn(4), NoType: dn.name == `pcore`}, true)
		pool := map[string]dgo.Value{}
		x := buildShared(r, v, pool)
		if r.Intn(2) == 0 {
			x = v.Build(r, r.Intn(2) == 0)
		}
		roundTripJSON(c, r, `value`, v, x, dn)
		if i < 3 {
			c.Sample(string(streamer.MarshalJSON(x, dn.d)))
		}
	})
	c.Run(`numbers`, c.N(6000, 200000), func(r *rand.Rand, i int) {
		v := gen.Arr(gen.Int(anyInt(r)), gen.Float(anyFloat(r)), gen.Float(float64(anyInt(r))), gen.Float(math.Trunc(anyFloat(r))))
		roundTripJSON(c, r, `numbers`, v, v.Build(r, false), dialects[0])
	})
	c.Run(`strings`, c.N(6000, 200000), func(r *rand.Rand, i int) {
		v := gen.MapKV(gen.Str(`k`+hostileString(r, false)), gen.Str(hostileString(r, false)), gen.Str(`l`+hostileString(r, false)), gen.Str(strings.Repeat(hostileString(r, false), 5)))
		roundTripJSON(c, r, `strings`, v, v.Build(r, false), dialects[r.Intn(2)])
	})
	c.Run(`malformed`, c.N(6000, 150000), func(r *rand.Rand, i int) { c14Malformed(c, r) })
	c.Run(`plain`, c.N(8000, 300000), func(r *rand.Rand, i int) {
		v := genStreamable(r, &gen.Cfg{Depth: 1 + r.Intn(3), Data: true, StrKeys: true}, true)
		if anyPart(v, func(x *gen.V) bool {
			for _, k := range x.Keys {
				if k.S == `__ref` || k.S == `__pref` {
					return true // the Go encoder sorts the keys so that this may become the first one
				}
			}
			return false
		}) {
			return
		}
		x := v.Build(r, false)
		g := goData(v)
		o := streamer.DefaultOptions()
		o.DedupLevel = streamer.NoDedup
		o.RichData = r.Intn(2) == 0
		b := bytes.Buffer{}
		streamer.New(nil, o).Stream(x, streamer.JSON(&b))
		gb, err := json.Marshal(g)
		if err != nil {
			return
		}
		c.Seen(b.String())
		if !sameJSON(decodeAny(b.Bytes()), decodeAny(gb)) {
			c.Fail(`plain data: the document differs from that of the Go encoder`, "dgo %s\nGo  %s", b.String(), gb)
		}
		// decode what the Go encoder writes, with and without indentation
		if r.Intn(2) == 0 {
			gb, _ = json.MarshalIndent(g, " ", "\t")
		}
		y := gen.Observe(streamer.UnmarshalJSON(gb, nil))
		c.Count(`documents of the Go encoder decoded`, 1)
		if !sameJSON(decodeAny(gb), goNumbers(y)) {
			c.Fail(`plain data: a document of the Go encoder is decoded as another value`, "%s\ndecoded %s", gb, y)
		}
	})
}

func roundTripJSON(c *mon.Ctx, r *rand.Rand, what string, v *gen.V, x dgo.Value, dn *dialectNames) {
	canon := v.Canon(false)
	var b []byte
	d := func() string { return fmt.Sprintf("dialect %s\nvalue    %s\nencoded  %s", dn.name, v, b) }
	guard(c, what+`: encode`, d, func() { b = streamer.MarshalJSON(x, dn.d) })
	c.Seen(canon)
	if gen.Observe(x).Canon(false) != canon {
		c.Fail(what+`: encoding alters the value`, "altered  %s\n%s", gen.Observe(x), d())
	}
	if !json.Valid(b) {
		c.Fail(what+`: the encoding is not valid JSON`, "%s", d())
	}
	guard(c, what+`: encoding`, d, func() {
		all, root := readJSON(b, dn)
		n := 0
		m := denote(all, root, dn, &n)
		if m.Canon(false) != canon {
			c.Fail(what+`: the encoding denotes another value`, "denotes  %s\n%s", m, d())
		}
		c.Count(`rich values encoded`, n)
		for _, e := range all {
			if e.k != 'r' {
				for _, k := range e.kids {
					if k.k == 'r' {
						c.Count(`references encoded`, 1)
					}
				}
			}
		}
	})
	var y dgo.Value
	guard(c, what+`: decode`, d, func() { y = streamer.UnmarshalJSON(b, dn.d) })
	if gen.Observe(y).Canon(false) != canon {
		c.Fail(what+`: decoded as another value`, "decoded  %s\n%s", gen.Observe(y), d())
	}
	if !y.Equals(x) || !x.Equals(y) {
		c.Fail(what+`: the decoded value is not equal to the original`, "%s", d())
	}
	if dn.name == `dgo` && r.Intn(2) == 0 {
		// the JSON consumer with all levels of deduplication
		level := streamer.NoDedup + streamer.DedupLevel(r.Intn(3))
		bo := bytes.Buffer{}
		d := func() string { return fmt.Sprintf("level %d\nvalue    %s\nencoded  %s", level, v, bo.String()) }
		guard(c, what+`: encode with options`, d, func() {
			streamer.New(nil, &streamer.Options{DedupLevel: level, Dialect: dn.d, RichData: true}).Stream(x, streamer.JSON(&bo))
		})
		if !json.Valid(bo.Bytes()) {
			c.Fail(what+`: with options: the encoding is not valid JSON`, "%s", d())
		}
		guard(c, what+`: with options: encoding`, d, func() {
			all, root := readJSON(bo.Bytes(), dn)
			n := 0
			if m := denote(all, root, dn, &n); m.Canon(false) != canon {
				c.Fail(what+`: with options: the encoding denotes another value`, "denotes  %s\n%s", m, d())
			}
			if y := streamer.UnmarshalJSON(bo.Bytes(), dn.d); gen.Observe(y).Canon(false) != canon || !y.Equals(x) {
				c.Fail(what+`: with options: decoded as another value`, "decoded  %s\n%s", gen.Observe(y), d())
			}
		})
		c.Count(fmt.Sprintf(`encoded with level %d`, level), 1)
	}
	if r.Intn(4) == 0 {
		bi := bytes.Buffer{}
		if json.Indent(&bi, b, ` `, "\t") == nil {
			if y := streamer.UnmarshalJSON(bi.Bytes(), dn.d); gen.Observe(y).Canon(false) != canon {
				c.Fail(what+`: decoded as another value when indented`, "decoded  %s\n%s", gen.Observe(y), d())
			}
		}
	}
}

// goData returns the Go data that corresponds to a model
func goData(v *gen.V) interface{} {
	switch v.K {
	case gen.KBool:
		return v.B
	case gen.KInt:
		return v.I
	case gen.KFloat:
		return v.F
	case gen.KStr:
		return v.S
	case gen.KArr:
		a := make([]interface{}, len(v.E))
		for i := range a {
			a[i] = goData(v.E[i])
		}
		return a
	case gen.KMap:
		m := make(map[string]interface{}, len(v.E))
		for i := range v.E {
			m[v.Keys[i].S] = goData(v.E[i])
		}
		return m
	}
	return nil
}

func goNumbers(v *gen.V) interface{} {
	switch v.K {
	case gen.KInt:
		return json.Number(fmt.Sprint(v.I))
	case gen.KFloat:
		b, _ := json.Marshal(v.F)
		return json.Number(b)
	case gen.KArr:
		a := make([]interface{}, len(v.E))
		for i := range a {
			a[i] = goNumbers(v.E[i])
		}
		return a
	case gen.KMap:
		m := make(map[string]interface{}, len(v.E))
		for i := range v.E {
			m[v.Keys[i].S] = goNumbers(v.E[i])
		}
		return m
	}
	return goData(v)
}

func decodeAny(b []byte) (x interface{}) {
	jd := json.NewDecoder(bytes.NewReader(b))
	jd.UseNumber()
	if err := jd.Decode(&x); err != nil {
		return err
	}
	return x
}

func sameJSON(a, b interface{}) bool {
	switch a := a.(type) {
	case json.Number:
		bn, ok := b.(json.Number)
		if !ok {
			return false
		}
		x, ok1 := new(big.Rat).SetString(string(a))
		y, ok2 := new(big.Rat).SetString(string(bn))
		return ok1 && ok2 && x.Cmp(y) == 0
	case []interface{}:
		ba, ok := b.([]interface{})
		if !ok || len(a) != len(ba) {
			return false
		}
		for i := range a {
			if !sameJSON(a[i], ba[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		bm, ok := b.(map[string]interface{})
		if !ok || len(a) != len(bm) {
			return false
		}
		for k := range a {
			x, ok := bm[k]
			if !ok || !sameJSON(a[k], x) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// needsRich returns true if the value can only be sent when rich data is enabled
func needsRich(v *gen.V, rec *recorder) bool {
	return anyPart(v, func(x *gen.V) bool {
		switch x.K {
		case gen.KSens, gen.KType:
			return true
		case gen.KBin:
			return !rec.bin
		case gen.KTime:
			return !rec.tm
		case gen.KMap:
			if !rec.ck {
				for _, k := range x.Keys {
					if k.K != gen.KStr {
						return true
					}
				}
			}
		}
		return false
	})
}

func runC15(c *mon.Ctx) {
	aliases := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) {
		a.Add(tf.ParseType(`string[1,5]`), vf.String(`limited`))
		a.Add(tf.ParseType(`map[string]int`), vf.String(`counters`))
	})
	c.Run(`options`, c.N(20000, 600000), func(r *rand.Rand, i int) {
		dn := dialects[r.Intn(2)]
		cfg := &gen.Cfg{Depth: 1 + r.Intn(4), NoType: dn.name == `pcore`}
		if r.Intn(3) == 0 {
			cfg.StrKeys = true
		}
		if r.Intn(4) == 0 {
			cfg.Data = true
		}
		v := genStreamable(r, cfg, false)
		canon := v.Canon(false)
		var x dgo.Value
		if r.Intn(4) == 0 {
			x = v.Build(r, r.Intn(2) == 0)
		} else {
			x = buildShared(r, v, map[string]dgo.Value{})
		}
		var am dgo.AliasMap
		if r.Intn(2) == 0 {
			am = aliases
		}
		caps := r.Intn(8)
		threshold := []int{0, 1, 5, 20, 1000}[r.Intn(5)]
		richData := r.Intn(4) != 0
		prev := -1
		for level := streamer.NoDedup; level <= streamer.MaxDedup; level++ {
			rec := &recorder{bin: caps&1 != 0, tm: caps&2 != 0, ck: caps&4 != 0, threshold: threshold, dedup: level}
			if level == streamer.MaxDedup && !rec.ck {
				rec.dedup = streamer.NoKeyDedup
			}
			opts := fmt.Sprintf(`dialect %s, level %d, rich %v, binary %v, time %v, complex keys %v, threshold %d, aliases %v`, dn.name, level, richData, rec.bin, rec.tm, rec.ck, threshold, am != nil)
			d := func() string { return fmt.Sprintf("%s\nvalue   %s\ntrace   %v", opts, v, rec.root) }
			s := streamer.New(am, &streamer.Options{DedupLevel: level, Dialect: dn.d, RichData: richData})
			if r.Intn(8) == 0 {
				// a streamer is re-entrant, an earlier use has no effect
				_ = mon.Catch(func() { s.Stream(x, &recorder{bin: true, tm: true, ck: true, dedup: level}) })
			}
			e := mon.Catch(func() { s.Stream(x, rec) })
			c.Count(`streams`, 1)
			if b, ok := e.(badTrace); ok {
				c.Fail(`stream: `+classOf(b.msg), "%s\n%s", b.msg, d())
			}
			if gen.Observe(x).Canon(false) != canon {
				c.Fail(`stream: streaming alters the value`, "altered %s\n%s", gen.Observe(x), d())
			}
			if !richData && needsRich(v, rec) {
				if err, ok := e.(error); !ok || !strings.Contains(err.Error(), `unable to serialize`) {
					c.Fail(`stream: a rich value is not refused although rich data is disabled`, "panic %v\n%s", e, d())
				}
				c.Count(`rich values refused`, 1)
				continue
			}
			if e != nil {
				c.Fail(`stream: unexpected panic`, "%v\n%s", e, d())
			}
			if rec.root == nil || len(rec.stack) != 0 {
				c.Fail(`stream: nothing is sent`, "%s", d())
			}
			text := rec.root.String()
			c.Seen(opts + text)
			c.Count(`events`, len(rec.all)+rec.refs)
			c.Count(`references`, rec.refs)
			guard(c, `stream`, d, func() {
				rich := 0
				m := denote(rec.all, rec.root, dn, &rich)
				if m.Canon(false) != canon {
					c.Fail(`stream: the events denote another value`, "denotes %s\n%s", m, d())
				}
				c.Count(`rich values`, rich)
			})
			if rec.dedup != streamer.NoDedup {
				repeated(c, rec, dn, d)
			}
			n := len(rec.all)
			if prev >= 0 && n > prev {
				c.Fail(`stream: a higher deduplication level sends more values`, "%d values, before %d\n%s", n, prev, d())
			}
			prev = n
			rebuild(c, r, v, x, rec, s, dn, d)
			if i < 2 && level == streamer.MaxDedup {
				c.Sample(text)
			}
		}
	})
	c.Run(`cycles`, c.N(2000, 40000), func(r *rand.Rand, i int) { streamCycles(c, r) })
	c.Run(`named`, c.N(3000, 60000), func(r *rand.Rand, i int) { streamNamed(c, r) })
	c.Run(`writers`, c.N(3000, 60000), func(r *rand.Rand, i int) { c15Writers(c, r) })
	c.Run(`unknown`, 40, func(r *rand.Rand, i int) {
		x := []interface{}{gen.Regexp(`a`).BuildScalar(), gen.Err(`a`).BuildScalar(), vf.Value(make(chan int)), vf.Value(func() {}), vf.Value(struct{ A int }{1})}[i%5]
		if i%2 == 0 {
			x = vf.MutableValues(1, x)
		}
		e := mon.Catch(func() {
			streamer.New(nil, &streamer.Options{Dialect: dialects[i%2].d, RichData: i%4 < 2}).Stream(vf.Value(x), &recorder{})
		})
		if err, ok := e.(error); !ok || !strings.Contains(err.Error(), `unable to serialize`) {
			c.Fail(`a value that cannot be serialized is not refused`, "%v panic %v", x, e)
		}
	})
}

// repeated checks that no long string that is subject to deduplication is sent twice
func repeated(c *mon.Ctx, rec *recorder, dn *dialectNames, d func() string) {
	seen := map[string]bool{}
	var walk func(e *ev, key, name bool)
	walk = func(e *ev, key, name bool) {
		if e.k == 'v' && e.v.K == gen.KStr && !key && !name && len(e.v.S) >= rec.threshold {
			if seen[e.v.S] {
				c.Fail(`stream: a long string is sent twice`, "%q\n%s", e.v.S, d())
			}
			seen[e.v.S] = true
		}
		rich := false
		if e.k == 'm' && len(e.kids) > 0 && e.kids[0].k == 'v' && e.kids[0].v.K == gen.KStr && e.kids[0].v.S == dn.typeKey {
			t := e.kids[1]
			rich = t.k == 'v' && t.v.K == gen.KStr
		}
		for i, k := range e.kids {
			if rich {
				if i != 3 {
					continue
				}
				if e.kids[1].v.S == dn.mapT {
					for j, me := range k.kids {
						walk(me, key || j%2 == 0, false)
					}
					continue
				}
				walk(k, key, false)
				continue
			}
			walk(k, key || e.k == 'm' && i%2 == 0 && rec.dedup == streamer.NoKeyDedup, false)
		}
	}
	walk(rec.root, false, false)
}

// play sends a recorded trace to another consumer
func play(e *ev, to streamer.Consumer) {
	switch e.k {
	case 'v':
		to.Add(e.v.BuildScalar())
	case 'r':
		to.AddRef(e.n)
	default:
		doer := func() {
			for _, k := range e.kids {
				play(k, to)
			}
		}
		if e.k == 'a' {
			to.AddArray(len(e.kids), doer)
		} else {
			to.AddMap(len(e.kids)/2, doer)
		}
	}
}

// rebuild checks that decoders rebuild the value
func rebuild(c *mon.Ctx, r *rand.Rand, v *gen.V, x dgo.Value, rec *recorder, s streamer.Streamer, dn *dialectNames, d func() string) {
	canon := v.Canon(false)
	check := func(how string, f func() dgo.Value) {
		guard(c, how, d, func() {
			y := f()
			c.Count(`values rebuilt`, 1)
			if o := gen.Observe(y); o.Canon(false) != canon {
				c.Fail(how+`: another value is rebuilt`, "rebuilt %s\n%s", o, d())
			}
			if !y.Equals(x) || !x.Equals(y) {
				c.Fail(how+`: the rebuilt value is not equal to the original`, "%s", d())
			}
		})
	}
	check(`recorded events sent to the data decoder`, func() dgo.Value {
		dd := streamer.DataDecoder(nil, dn.d)
		play(rec.root, dd)
		return dd.Value()
	})
	check(`data decoder`, func() (y dgo.Value) {
		got := tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) {
			dd := streamer.DataDecoder(aa, dn.d)
			s.Stream(x, dd)
			y = dd.Value()
		})
		for _, e := range rec.all {
			if e.k == 'v' && e.v.K == gen.KStr && e.v.S == `limited` && got.GetName(tf.ParseType(`string[1,5]`)) == nil {
				c.Fail(`data decoder: the name of an alias is lost`, "%s", d())
			}
		}
		return
	})
	if !anyPart(v, func(x *gen.V) bool { return x.K == gen.KSens || x.K == gen.KType }) {
		check(`collector`, func() dgo.Value {
			cc := streamer.NewCollector()
			s.Stream(x, cc)
			return cc.Value()
		})
	}
	// to plain data and back
	check(`data collector and data decoder`, func() dgo.Value {
		cc := streamer.DataCollector()
		play(rec.root, cc)
		dd := streamer.DataDecoder(nil, dn.d)
		streamer.New(nil, &streamer.Options{DedupLevel: streamer.DedupLevel(r.Intn(3)), Dialect: dn.d, RichData: true}).Stream(cc.Value(), dd)
		return dd.Value()
	})
}

// streamCycles checks that the identity structure of cyclic values is rebuilt
func streamCycles(c *mon.Ctx, r *rand.Rand) {
	dn := dialects[r.Intn(2)]
	n := 1 + r.Intn(6)
	var nodes []dgo.Value
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			nodes = append(nodes, vf.MutableValues())
		} else {
			nodes = append(nodes, vf.MutableMap())
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		nodes = append(nodes, vf.Sensitive(nodes[r.Intn(len(nodes))]))
	}
	anyKeys := r.Intn(2) == 0
	leaf := func() dgo.Value {
		if r.Intn(3) == 0 {
			return gen.GenScalar(r, &gen.Cfg{Data: true}).BuildScalar()
		}
		return nodes[r.Intn(len(nodes))]
	}
	for i := 0; i < n; i++ {
		for j := r.Intn(4); j > 0; j-- {
			switch x := nodes[i].(type) {
			case dgo.Array:
				x.Add(leaf())
			case dgo.Map:
				if anyKeys && r.Intn(2) == 0 {
					x.Put(r.Intn(100), leaf())
				} else {
					x.Put(fmt.Sprintf(`k%d`, r.Intn(100)), leaf())
				}
			}
		}
	}
	root := nodes[r.Intn(len(nodes))]
	desc := describeGraph(root)
	c.Seen(desc)
	var js []byte
	for how := 0; how < 3; how++ {
		var y dgo.Value
		name := []string{`JSON`, `data decoder`, `data collector and data decoder`}[how]
		e := mon.Catch(func() {
			s := streamer.New(nil, &streamer.Options{DedupLevel: streamer.NoKeyDedup, Dialect: dn.d, RichData: true})
			switch how {
			case 0:
				js = streamer.MarshalJSON(root, dn.d)
				y = streamer.UnmarshalJSON(js, dn.d)
			case 1:
				dd := streamer.DataDecoder(nil, dn.d)
				s.Stream(root, dd)
				y = dd.Value()
			default:
				cc := streamer.DataCollector()
				s.Stream(root, cc)
				dd := streamer.DataDecoder(nil, dn.d)
				s.Stream(cc.Value(), dd)
				y = dd.Value()
			}
		})
		if e != nil {
			c.Fail(`cyclic value: `+name+`: panic`, "%v\n%s\n%s", e, desc, js)
		}
		c.Count(`cyclic values rebuilt`, 1)
		if got := describeGraph(y); got != desc {
			c.Fail(`cyclic value: `+name+`: another graph is rebuilt`, "rebuilt  %s\noriginal %s\n%s", got, desc, js)
		}
	}
}

// describeGraph describes the structure of a graph of collections and sensitives, including their identity
func describeGraph(v dgo.Value) string {
	ids := map[dgo.Value]int{}
	sb := &strings.Builder{}
	var walk func(v dgo.Value)
	walk = func(v dgo.Value) {
		switch x := v.(type) {
		case dgo.Array, dgo.Map, dgo.Sensitive:
			if id, ok := ids[v]; ok {
				fmt.Fprintf(sb, `@%d`, id)
				return
			}
			ids[v] = len(ids)
			fmt.Fprintf(sb, `#%d`, ids[v])
			switch x := x.(type) {
			case dgo.Array:
				sb.WriteByte('[')
				for i := 0; i < x.Len(); i++ {
					walk(x.Get(i))
					sb.WriteByte(' ')
				}
				sb.WriteByte(']')
			case dgo.Map:
				sb.WriteByte('{')
				x.EachEntry(func(e dgo.MapEntry) {
					walk(e.Key())
					sb.WriteByte(':')
					walk(e.Value())
					sb.WriteByte(' ')
				})
				sb.WriteByte('}')
			case dgo.Sensitive:
				sb.WriteByte('<')
				walk(x.Unwrap())
				sb.WriteByte('>')
			}
		default:
			sb.WriteString(gen.Observe(v).Canon(false))
		}
	}
	walk(v)
	return sb.String()
}

type (
	namedBag  struct{ m dgo.Map }
	namedList []int64
	namedText string
)

var namedOnce sync.Once

func (v *namedBag) String() string { return `bag` + v.m.String() }
func (v *namedBag) Type() dgo.Type { return tf.ExactNamed(tf.Named(`dgoverif.bag`), v) }
func (v *namedBag) HashCode() int  { return v.m.HashCode() }
func (v *namedBag) Equals(o interface{}) bool {
	ob, ok := o.(*namedBag)
	return ok && v.m.Equals(ob.m)
}

func (v namedList) String() string { return fmt.Sprint([]int64(v)) }
func (v namedList) Type() dgo.Type { return tf.ExactNamed(tf.Named(`dgoverif.list`), v) }
func (v namedList) HashCode() int  { return len(v) }
func (v namedList) Equals(o interface{}) bool {
	ol, ok := o.(namedList)
	return ok && reflect.DeepEqual(v, ol)
}

func (v namedText) String() string { return string(v) }
func (v namedText) Type() dgo.Type { return tf.ExactNamed(tf.Named(`dgoverif.text`), v) }
func (v namedText) HashCode() int  { return len(v) }
func (v namedText) Equals(o interface{}) bool {
	ot, ok := o.(namedText)
	return ok && v == ot
}

// describeNamed returns a text that identifies a value that may contain values of the named types
func describeNamed(v dgo.Value) string {
	sb := &strings.Builder{}
	switch x := v.(type) {
	case *namedBag:
		sb.WriteString(`bag` + describeNamed(x.m))
	case namedList:
		fmt.Fprintf(sb, `list%v`, []int64(x))
	case namedText:
		fmt.Fprintf(sb, `text%q`, string(x))
	case dgo.Array:
		for i := 0; i < x.Len(); i++ {
			sb.WriteString([]string{`[`, `,`}[b2i(i > 0)] + describeNamed(x.Get(i)))
		}
		sb.WriteString(`]`)
	case dgo.Map:
		sb.WriteString(`{`)
		x.EachEntry(func(e dgo.MapEntry) {
			sb.WriteString(describeNamed(e.Key()) + `:` + describeNamed(e.Value()) + `,`)
		})
		sb.WriteString(`}`)
	case dgo.Sensitive:
		sb.WriteString(`<` + describeNamed(x.Unwrap()) + `>`)
	default:
		sb.WriteString(gen.Observe(v).Canon(false))
	}
	return sb.String()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ctorArg checks the argument of a constructor
func ctorArg(t dgo.Type, a dgo.Value) dgo.Value {
	if !t.Instance(a) {
		panic(tf.IllegalAssignment(t, a))
	}
	return a
}

func registerNamed() {
	namedOnce.Do(func() {
		tf.NewNamed(`dgoverif.bag`, func(a dgo.Value) dgo.Value { return &namedBag{ctorArg(typ.Map, a).(dgo.Map)} },
			func(v dgo.Value) dgo.Value { return v.(*namedBag).m }, reflect.TypeOf(&namedBag{}), nil, nil)
		tf.NewNamed(`dgoverif.list`, func(a dgo.Value) dgo.Value {
			l := namedList{}
			ctorArg(typ.Array, a).(dgo.Array).Each(func(e dgo.Value) { l = append(l, ctorArg(typ.Integer, e).(dgo.Integer).GoInt()) })
			return l
		}, func(v dgo.Value) dgo.Value { return vf.Array(reflect.ValueOf([]int64(v.(namedList)))) }, reflect.TypeOf(namedList{}), nil, nil)
		tf.NewNamed(`dgoverif.text`, func(a dgo.Value) dgo.Value { return namedText(ctorArg(typ.String, a).(dgo.String).GoString()) },
			func(v dgo.Value) dgo.Value { return vf.String(string(v.(namedText))) }, reflect.TypeOf(namedText(``)), nil, nil)
	})
}

// longKeys are keys that exceed all thresholds for deduplication
var longKeys = []string{`a key that is long enough to be replaced by a reference`, strings.Repeat(`long key`, 20)}

// streamNamed checks that named values are rebuilt
func streamNamed(c *mon.Ctx, r *rand.Rand) {
	registerNamed()
	dn := dialects[r.Intn(2)]
	var one func(depth int) dgo.Value
	one = func(depth int) dgo.Value {
		switch r.Intn(5) {
		case 0:
			l := namedList{}
			for i := r.Intn(4); i > 0; i-- {
				l = append(l, anyInt(r))
			}
			return l
		case 1:
			return namedText(gen.Strs[r.Intn(len(gen.Strs))])
		case 2:
			return vf.Sensitive(gen.GenScalar(r, &gen.Cfg{Data: true}).BuildScalar())
		default:
			m := vf.MutableMap()
			for i := r.Intn(4); i > 0; i-- {
				k := gen.Strs[r.Intn(len(gen.Strs))]
				switch r.Intn(6) {
				case 0:
					k = streamStrs[r.Intn(6)]
				case 1, 2:
					k = longKeys[r.Intn(len(longKeys))]
				}
				var x dgo.Value = gen.GenScalar(r, &gen.Cfg{Data: true}).BuildScalar()
				if depth > 0 && r.Intn(2) == 0 {
					x = one(depth - 1)
				}
				switch k {
				case `__type`, `__ptype`, `__ref`, `__pref`:
					x = vf.Float(1.5)
				}
				if r.Intn(5) == 0 {
					m.Put(r.Intn(10), x)
				} else {
					m.Put(k, x)
				}
			}
			if first := m.Keys(); first.Len() > 0 && (first.Get(0).Equals(`__ref`) || first.Get(0).Equals(`__pref`)) {
				m = vf.MutableMap()
			}
			return &namedBag{m}
		}
	}
	pool := []dgo.Value{one(1), one(2), one(0)}
	a := vf.MutableValues()
	if r.Intn(2) == 0 {
		a.Add(longKeys[r.Intn(len(longKeys))])
	}
	for i := 1 + r.Intn(5); i > 0; i-- {
		x := pool[r.Intn(3)]
		switch r.Intn(4) {
		case 0:
			a.Add(vf.Values(x))
		case 1:
			a.Add(vf.Map(`x`, x))
		default:
			a.Add(x)
		}
	}
	desc := fmt.Sprintf("dialect %s\nvalue %s", dn.name, a)
	c.Seen(desc)
	for how := 0; how < 3; how++ {
		var y dgo.Value
		var js []byte
		name := []string{`JSON`, `data decoder`, `data collector and data decoder`}[how]
		e := mon.Catch(func() {
			s := streamer.New(nil, &streamer.Options{DedupLevel: streamer.DedupLevel(r.Intn(3)), Dialect: dn.d, RichData: true})
			switch how {
			case 0:
				js = streamer.MarshalJSON(a, dn.d)
				y = streamer.UnmarshalJSON(js, dn.d)
			case 1:
				dd := streamer.DataDecoder(nil, dn.d)
				s.Stream(a, dd)
				y = dd.Value()
			default:
				cc := streamer.DataCollector()
				s.Stream(a, cc)
				dd := streamer.DataDecoder(nil, dn.d)
				s.Stream(cc.Value(), dd)
				y = dd.Value()
			}
		})
		if e != nil {
			c.Fail(`named value: `+name+`: panic`, "%v\n%s\n%s", e, desc, js)
		}
		c.Count(`named values rebuilt`, a.Len())
		if describeNamed(a) != describeNamed(y) {
			c.Fail(`named value: `+name+`: another value is rebuilt`, "rebuilt %s\n%s\n%s", y, desc, js)
		}
	}
	if e := mon.Catch(func() {
		streamer.New(nil, &streamer.Options{Dialect: dn.d}).Stream(&namedBag{vf.Map()}, &recorder{})
	}); e == nil {
		c.Fail(`a named value is not refused although rich data is disabled`, "%s", desc)
	}
}
