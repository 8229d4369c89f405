package checks

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"testing/iotest"
	"time"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C25`, Scale: 15, Rule: `a text encoding, decoding or indentation whose outcome was compared with the reference; distinct by input and operation`, Run: runC25})
}

func anyBytes(r *rand.Rand) []byte {
	n := r.Intn(12)
	if r.Intn(12) == 0 {
		n = r.Intn(3000)
	}
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		for i := range b {
			b[i] = []byte{0, 255, 0x3e, 0x3f, 0xfb, 0xff}[r.Intn(6)]
		}
	case 1:
		for i := range b {
			b[i] = byte(32 + r.Intn(95))
		}
	default:
		r.Read(b)
	}
	return b
}

var encRefs = map[string]func(s string) ([]byte, error){
	`%b`: base64.StdEncoding.DecodeString,
	`%u`: base64.URLEncoding.DecodeString,
	`%B`: base64.StdEncoding.Strict().DecodeString,
	`%r`: func(s string) ([]byte, error) { return []byte(s), nil },
	`%s`: func(s string) ([]byte, error) {
		if !utf8.ValidString(s) {
			return nil, errors.New(`invalid UTF-8`)
		}
		return []byte(s), nil
	},
}

var encNames = []string{`%b`, `%u`, `%B`, `%r`, `%s`}

func mutateText(r *rand.Rand, s string, alphabet string) string {
	b := []byte(s)
	for n := r.Intn(3); n > 0; n-- {
		x := alphabet[r.Intn(len(alphabet))]
		p := r.Intn(len(b) + 1)
		switch r.Intn(4) {
		case 0:
			b = append(b[:p:p], append([]byte{x}, b[p:]...)...)
		case 1:
			if p < len(b) {
				b = append(b[:p:p], b[p+1:]...)
			}
		case 2:
			if p < len(b) {
				b[p] = x
			}
		default:
			b = b[:p]
		}
	}
	return string(b)
}

func c25Binary(c *mon.Ctx, r *rand.Rand) {
	bs := anyBytes(r)
	b := vf.Binary(bs, r.Intn(2) == 0)
	want := base64.StdEncoding.EncodeToString(bs)
	d := func() string { return fmt.Sprintf("bytes %x", bs) }
	if g := b.Encode(); g != want {
		c.Fail(`Encode`, "got %q, expected %q\n%s", g, want, d())
	}
	if g := b.String(); g != want {
		c.Fail(`String of a binary`, "got %q, expected %q\n%s", g, want, d())
	}
	if !bytes.Equal(b.GoBytes(), bs) {
		c.Fail(`GoBytes`, "got %x\n%s", b.GoBytes(), d())
	}
	// decode
	enc := encNames[r.Intn(len(encNames))]
	text := want
	switch {
	case enc == `%u`:
		text = base64.URLEncoding.EncodeToString(bs)
	case enc == `%r` || enc == `%s`:
		text = string(bs)
		if r.Intn(3) == 0 {
			text = hostileString(r, r.Intn(2) == 0)
		}
	}
	if r.Intn(3) > 0 {
		text = mutateText(r, text, "AQZg+/-_=\n\r \x00\xff")
	}
	ref, rerr := encRefs[enc](text)
	c.Seen(enc + text)
	for way := 0; way < 3; way++ {
		if way == 2 && enc != `%B` {
			break
		}
		var g dgo.Binary
		e := mon.Catch(func() {
			switch way {
			case 0:
				g = vf.BinaryFromEncoded(text, enc)
			case 1:
				g = vf.New(typ.Binary, vf.Arguments(text, enc)).(dgo.Binary)
			default:
				g = vf.New(typ.Binary, vf.String(text)).(dgo.Binary)
			}
		})
		what := fmt.Sprintf(`decode %s (%d)`, enc, way)
		if (e != nil) != (rerr != nil) {
			c.Fail(what+`: acceptance`, "text %q: got %v, reference %v", text, e, rerr)
		}
		if e != nil {
			if _, ok := e.(error); !ok || isRuntimeError(e) {
				c.Fail(what+`: not an error`, "text %q: %v", text, e)
			}
			c.Count(`invalid texts refused`, 1)
			continue
		}
		if !bytes.Equal(g.GoBytes(), ref) || !g.Frozen() {
			c.Fail(what+`: content`, "text %q: got %x, expected %x", text, g.GoBytes(), ref)
		}
		c.Count(`texts decoded`, 1)
	}
	// an encoding that doesn't exist
	bad := []string{``, `%`, `B`, `%x`, `%bb`, `%b `, `%U`, `%S`, `%R`, `b`, `%%`}[r.Intn(11)]
	for way := 0; way < 2; way++ {
		e := mon.Catch(func() {
			if way == 0 {
				vf.BinaryFromEncoded(text, bad)
			} else {
				vf.New(typ.Binary, vf.Arguments(text, bad))
			}
		})
		if _, ok := e.(error); !ok || isRuntimeError(e) {
			c.Fail(`unknown encoding`, "encoding %q text %q: %v", bad, text, e)
		}
	}
	// size limits
	min, max := r.Intn(6), r.Intn(12)
	bt := tf.Binary(min, max)
	lo, hi := min, max
	if hi < lo {
		lo, hi = hi, lo
	}
	ok := lo <= len(bs) && len(bs) <= hi
	if bt.Instance(b) != ok || bt.IsInstance(bs) != ok || bt.Min() != lo || bt.Max() != hi {
		c.Fail(`size limits`, "%s: Instance %v, IsInstance %v, Min %d, Max %d\n%s", bt, bt.Instance(b), bt.IsInstance(bs), bt.Min(), bt.Max(), d())
	}
	is := make([]interface{}, len(bs))
	for i := range bs {
		is[i] = int(bs[i])
	}
	var g dgo.Value
	for way, arg := range []interface{}{b, want, vf.Values(is...), vf.Arguments(vf.Values(is...)), vf.Arguments(want), vf.Arguments(string(bs), `%r`)} {
		e := mon.Catch(func() { g = vf.New(bt, vf.Value(arg)) })
		if (e == nil) != ok {
			c.Fail(fmt.Sprintf(`New of a sized binary %d`, way), "%s: %v\n%s", bt, e, d())
		}
		if e == nil && !bytes.Equal(g.(dgo.Binary).GoBytes(), bs) {
			c.Fail(fmt.Sprintf(`content of New of a sized binary %d`, way), "%s: %s\n%s", bt, g, d())
		}
	}
	if len(is) > 0 {
		p := r.Intn(len(is))
		is[p] = []interface{}{256, -1, math.MinInt64, math.MaxInt64, 1.0, `1`, nil, true, 300}[r.Intn(9)]
		e := mon.Catch(func() { g = vf.New(typ.Binary, vf.Values(is...)) })
		if _, ok := e.(error); !ok || isRuntimeError(e) {
			c.Fail(`New from something that is not a byte`, "element %v: %v %v", is[p], e, g)
		}
	}
	// readers
	var rd io.Reader = bytes.NewReader(bs)
	fail := false
	switch r.Intn(6) {
	case 0:
		rd = iotest.OneByteReader(rd)
	case 1:
		rd = iotest.HalfReader(rd)
	case 2:
		rd = iotest.DataErrReader(rd)
	case 3:
		rd, fail = io.MultiReader(rd, iotest.ErrReader(errors.New(`broken`))), true
	case 4:
		rd, fail = io.MultiReader(rd, iotest.ErrReader(io.ErrUnexpectedEOF)), true
	}
	var rb dgo.Binary
	e := mon.Catch(func() { rb = vf.BinaryFromData(rd) })
	if (e != nil) != fail {
		c.Fail(`BinaryFromData`, "error %v, expected failure %v\n%s", e, fail, d())
	}
	if e == nil && (!rb.Equals(b) || !rb.Frozen()) {
		c.Fail(`BinaryFromData: content`, "got %s\n%s", rb, d())
	}
	c.Count(`binaries`, 1)
}

func anyTime(r *rand.Rand) time.Time {
	sec := r.Int63n(253402300800+62135596800) - 62135596800 // years 1 - 9999
	switch r.Intn(4) {
	case 0:
		sec = r.Int63n(4e9)
	case 1:
		sec = []int64{0, -1, 1, 1 << 31, 1<<31 - 1, -1 << 31, 951782400, 951868799, 253402300799, -62135596800}[r.Intn(10)]
	}
	nano := int64(0)
	switch r.Intn(4) {
	case 0:
		nano = r.Int63n(1e9)
	case 1:
		nano = r.Int63n(1000) * 1e6
	case 2:
		nano = []int64{1, 999999999, 100000000, 10, 1000}[r.Intn(5)]
	}
	t := time.Unix(sec, nano)
	switch r.Intn(4) {
	case 0:
		t = t.UTC()
	case 1:
		t = t.In(time.FixedZone(``, (r.Intn(48*4)-96)*900/2))
	case 2:
		t = t.In(time.FixedZone([]string{`X`, `UTC`, `CET`}[r.Intn(3)], r.Intn(86000)-43000))
	}
	if y := t.Year(); y < 1 || y > 9999 {
		t = t.UTC()
	}
	return t
}

func c25Time(c *mon.Ctx, r *rand.Rand) {
	t := anyTime(r)
	v := vf.Time(t)
	s := v.String()
	c.Seen(`time ` + s)
	c.Count(`times`, 1)
	d := func() string { return fmt.Sprintf("time %s (%d.%09d), text %q", t, t.Unix(), t.Nanosecond(), s) }
	ref, err := time.Parse(time.RFC3339Nano, s)
	if err != nil || !ref.Equal(t) {
		c.Fail(`text of a time is not its RFC3339 text`, "%v %s\n%s", err, ref, d())
	}
	for way := 0; way < 3; way++ {
		var b dgo.Value
		e := mon.Catch(func() {
			switch way {
			case 0:
				b = vf.TimeFromString(s)
			case 1:
				b = vf.New(typ.Time, vf.String(s))
			default:
				b = vf.New(typ.Time, vf.Arguments(s))
			}
		})
		if e != nil || !b.Equals(v) || !v.Equals(b) || b.HashCode() != v.HashCode() || b.String() != s {
			c.Fail(`time from its text`, "%v %s\n%s", e, b, d())
		}
	}
	// the number of seconds
	exact := float64(t.Unix()) + float64(t.Nanosecond())/1e9
	if g := v.SecondsWithFraction(); math.Abs(g-exact) > 1e-6+math.Abs(exact)*1e-15 {
		c.Fail(`SecondsWithFraction`, "got %v, expected %v\n%s", g, exact, d())
	}
	fb := vf.New(typ.Time, vf.Float(v.SecondsWithFraction())).(dgo.Time)
	if diff := fb.GoTime().Sub(t); diff > 100*time.Microsecond || diff < -100*time.Microsecond {
		c.Fail(`time from a float`, "got %s, off by %s\n%s", fb, diff, d())
	}
	if ib := vf.New(typ.Time, vf.Integer(t.Unix())).(dgo.Time); !ib.GoTime().Equal(time.Unix(t.Unix(), 0)) {
		c.Fail(`time from an integer`, "got %s\n%s", ib, d())
	}
	// what is not a time
	m := mutateText(r, s, "0159-:TZ.+ \x00t")
	ref, err = time.Parse(time.RFC3339Nano, m)
	var b dgo.Time
	e := mon.Catch(func() { b = vf.TimeFromString(m) })
	if (e == nil) != (err == nil) || e != nil && isRuntimeError(e) {
		c.Fail(`acceptance of a time text`, "text %q: %v, reference %v", m, e, err)
	}
	if e == nil {
		c.Count(`time texts accepted`, 1)
		if !b.GoTime().Equal(ref) {
			c.Fail(`time from text`, "text %q: %s, reference %s", m, b, ref)
		}
	} else {
		c.Count(`time texts refused`, 1)
	}
}

func c25Number(c *mon.Ctx, r *rand.Rand) {
	i := anyInt(r)
	iv := vf.Integer(i)
	d := func() string { return fmt.Sprintf("integer %d", i) }
	c.Seen(d())
	c.Count(`numbers`, 2)
	if s := iv.String(); s != strconv.FormatInt(i, 10) || util.ToString(vf.Values(i)) != `{`+s+`}` {
		c.Fail(`text of an integer`, "got %q\n%s", s, d())
	}
	if b := vf.New(typ.Integer, vf.String(iv.String())); !b.Equals(iv) {
		c.Fail(`integer from its text`, "got %s\n%s", b, d())
	}
	if b := tf.Parse(iv.String()); !vf.Value(b).Equals(iv) {
		c.Fail(`integer parsed from its text`, "got %s\n%s", b, d())
	}
	for _, radix := range []int{2, 8, 10, 16} {
		rx := radix
		s := ``
		s += strconv.FormatUint(absU(i), rx)
		if i < 0 {
			s = `-` + s
		}
		if r.Intn(3) == 0 {
			s = strings.ToUpper(s)
		}
		if r.Intn(3) == 0 {
			s = mutateText(r, s, `01789afgAFG-+_xX .`)
		}
		ref, err := strconv.ParseInt(s, radix, 64)
		var b dgo.Value
		e := mon.Catch(func() { b = vf.New(typ.Integer, vf.Arguments(s, radix)) })
		if (e == nil) != (err == nil) || e != nil && isRuntimeError(e) {
			c.Fail(fmt.Sprintf(`acceptance of an integer text in radix %d`, radix), "text %q: %v, reference %v", s, e, err)
		}
		if e == nil && (!b.Equals(ref) || !vf.Integer(ref).Equals(b)) {
			c.Fail(fmt.Sprintf(`integer from a text in radix %d`, radix), "text %q: %s, reference %d", s, b, ref)
		}
		if radix == 10 {
			e2 := mon.Catch(func() { b = vf.New(typ.Integer, vf.String(s)) })
			if (e2 == nil) != (err == nil) || e2 == nil && !b.Equals(ref) {
				c.Fail(`integer from a text`, "text %q: %v %v, reference %d %v", s, b, e2, ref, err)
			}
		}
	}
	if e := mon.Catch(func() { vf.New(typ.Integer, vf.Arguments(`1`, []int{0, 1, 3, 37, -1, 64, 17}[r.Intn(7)])) }); e == nil || isRuntimeError(e) {
		c.Fail(`unknown radix`, "%v", e)
	}
	f := anyFloat(r)
	fv := vf.Float(f)
	d = func() string { return fmt.Sprintf("float %v (%x)", f, math.Float64bits(f)) }
	c.Seen(d())
	s := fv.String()
	ref, err := strconv.ParseFloat(s, 64)
	if err != nil || ref != f || math.Signbit(ref) != math.Signbit(f) || !strings.ContainsAny(s, `.E`) {
		c.Fail(`text of a float`, "got %q = %v %v\n%s", s, ref, err, d())
	}
	if b := vf.New(typ.Float, vf.String(s)); !b.Equals(fv) || !fv.Equals(b) {
		c.Fail(`float from its text`, "got %s from %q\n%s", b, s, d())
	}
	if b := vf.Value(tf.Parse(s)); !b.Equals(fv) || !fv.Equals(b) {
		c.Fail(`float parsed from its text`, "got %s from %q\n%s", b, s, d())
	}
	if t := util.ToString(vf.Values(f)); t != `{`+s+`}` {
		c.Fail(`text of a float in an array`, "got %q\n%s", t, d())
	}
	m := mutateText(r, s, `0129.eE+-_xpN fi`)
	ref, err = strconv.ParseFloat(m, 64)
	var b dgo.Value
	e := mon.Catch(func() { b = vf.New(typ.Float, vf.String(m)) })
	if (e == nil) != (err == nil) || e != nil && isRuntimeError(e) {
		c.Fail(`acceptance of a float text`, "text %q: %v, reference %v", m, e, err)
	}
	if e == nil && !math.IsNaN(ref) && !b.Equals(ref) {
		c.Fail(`float from a text`, "text %q: %s, reference %v", m, b, ref)
	}
}

func absU(i int64) uint64 {
	if i < 0 {
		return uint64(-(i + 1)) + 1
	}
	return uint64(i)
}

func c25String(c *mon.Ctx, r *rand.Rand) {
	s := hostileString(r, false)
	if r.Intn(4) == 0 {
		s = hostileString(r, true)
	}
	v := vf.String(s)
	d := func() string { return fmt.Sprintf("string %q", s) }
	c.Seen(d())
	c.Count(`strings`, 1)
	if v.String() != s || v.GoString() != s || fmt.Sprint(v) != s {
		c.Fail(`text of a string`, "got %q\n%s", v.String(), d())
	}
	if b := vf.New(typ.String, v); !b.Equals(v) {
		c.Fail(`string from its text`, "got %q\n%s", b, d())
	}
	t := util.ToString(vf.Values(s))
	q, err := strconv.Unquote(strings.TrimSuffix(strings.TrimPrefix(t, `{`), `}`))
	if err != nil || q != s {
		c.Fail(`text of a string in an array`, "got %q: %q %v\n%s", t, q, err, d())
	}
	if vf.Values(s).String() != t || util.ToIndentedString(vf.Values(s)) != "{\n  "+t[1:len(t)-1]+"\n}" {
		c.Fail(`texts of an array with a string`, "got %q and %q\n%s", t, util.ToIndentedString(vf.Values(s)), d())
	}
	if utf8.ValidString(s) {
		var b dgo.Value
		if e := mon.Catch(func() { b = tf.ParseType(t) }); e != nil {
			c.Fail(`text of an array is refused`, "%s: %v\n%s", t, e, d())
		}
		if !b.Equals(vf.Values(s).Type()) {
			c.Fail(`text of an array parses to another value`, "%s: %s\n%s", t, b, d())
		}
	}
	// regular expressions
	p := hostilePattern(r)
	rx := regexp.MustCompile(p)
	rv := vf.Regexp(rx)
	c.Seen(`regexp ` + p)
	if rv.String() != p {
		c.Fail(`text of a regexp`, "got %q, expected %q", rv.String(), p)
	}
	if b := vf.Value(regexp.MustCompile(rv.String())); !b.Equals(rv) || !rv.Equals(b) || b.HashCode() != rv.HashCode() {
		c.Fail(`regexp from its text`, "got %q, expected %q", b, p)
	}
	for i := 0; i < 3; i++ {
		x := hostileString(r, false)
		if g := rv.GoRegexp().MatchString(x); g != rx.MatchString(x) {
			c.Fail(`regexp matches something else`, "%q %q", p, x)
		}
	}
}

// textOf is the reference for the text of plain data
func textOf(v *gen.V, indent string, level int, sb *strings.Builder) {
	nl := func(l int) {
		if indent != `` {
			sb.WriteByte('\n')
			for ; l > 0; l-- {
				sb.WriteString(indent)
			}
		}
	}
	switch v.K {
	case gen.KNil:
		sb.WriteString(`nil`)
	case gen.KBool:
		fmt.Fprint(sb, v.B)
	case gen.KInt:
		fmt.Fprint(sb, v.I)
	case gen.KFloat:
		s := strconv.FormatFloat(v.F, 'G', -1, 64)
		if !strings.ContainsAny(s, `.E`) {
			s += `.0`
		}
		sb.WriteString(s)
	case gen.KStr:
		sb.WriteString(strconv.Quote(v.S))
	default:
		sb.WriteByte('{')
		for i, e := range v.E {
			if i > 0 {
				sb.WriteByte(',')
			}
			nl(level + 1)
			if v.K == gen.KMap {
				textOf(v.Keys[i], indent, level+1, sb)
				sb.WriteByte(':')
				if indent != `` {
					sb.WriteByte(' ')
				}
			}
			textOf(e, indent, level+1, sb)
		}
		nl(level)
		sb.WriteByte('}')
	}
}

func plainData(v *gen.V) bool {
	switch v.K {
	case gen.KNil, gen.KBool, gen.KInt, gen.KFloat, gen.KStr:
		return true
	case gen.KArr, gen.KMap:
		for _, k := range v.Keys {
			if !plainData(k) {
				return false
			}
		}
		for _, e := range v.E {
			if !plainData(e) {
				return false
			}
		}
		return true
	}
	return false
}

func c25Collection(c *mon.Ctx, r *rand.Rand, i int) {
	v := gen.Gen(r, &gen.Cfg{Depth: 1 + i%4, MaxLen: 5, NoSens: true, NoType: true})
	if v.K != gen.KArr && v.K != gen.KMap {
		v = gen.Arr(v, v)
	}
	if i%3 > 0 {
		for !plainData(v) {
			v = gen.Arr(gen.Gen(r, &gen.Cfg{Depth: 1 + i%4, MaxLen: 4, NoSens: true, NoType: true}))
		}
	}
	x := v.Build(r, r.Intn(2) == 0)
	indent := []string{`  `, ` `, `    `, "\t", `--`}[r.Intn(5)]
	ia, ok := x.(dgo.Indentable)
	if !ok {
		c.Fail(`collection is not indentable`, "%T", x)
	}
	text := func(in string) string {
		i := util.NewIndenter(in)
		if r.Intn(2) == 0 {
			i = util.NewERPIndenter(in)
		}
		if r.Intn(2) == 0 {
			i.AppendValue(x)
		} else {
			ia.AppendTo(i)
		}
		return i.String()
	}
	c.Seen(`text ` + v.Canon(false))
	c.Count(`collections`, 1)
	compact, indented := text(``), text(indent)
	if g := x.String(); g != compact || util.ToString(ia) != compact || util.ToStringERP(ia) != compact || fmt.Sprint(x) != compact {
		c.Fail(`texts of a collection differ`, "String %q\nToString %q\nAppendTo %q", g, util.ToString(ia), compact)
	}
	if g := util.ToIndentedString(ia); g != text(`  `) || util.ToIndentedStringERP(ia) != g {
		c.Fail(`indented texts of a collection differ`, "%q\n%q\n%q", g, text(`  `), util.ToIndentedStringERP(ia))
	}
	if !plainData(v) {
		return
	}
	for _, in := range []string{``, indent} {
		sb := &strings.Builder{}
		textOf(v, in, 0, sb)
		g := compact
		if in != `` {
			g = indented
		}
		if e := sb.String(); e != g {
			c.Fail(fmt.Sprintf(`text of a collection (indented %v)`, in != ``), "got      %q\nexpected %q", g, e)
		}
	}
	if i < 3 {
		c.Sample(indented)
	}
}

// c25Indenter compares an indenter with a model which is just a list of lines
func c25Indenter(c *mon.Ctx, r *rand.Rand) {
	indent := []string{``, ``, `  `, ` `, "\t", `ab`, ` x `}[r.Intn(7)]
	i := util.NewIndenter(indent)
	if r.Intn(4) == 0 {
		i = util.NewERPIndenter(indent)
	}
	is := []dgo.Indenter{i}
	raw := ``
	l := &log{}
	l.add(`indent %q`, indent)
	trim := func(s string) string {
		ls := strings.Split(s, "\n")
		for i := range ls {
			ls[i] = strings.TrimRight(ls[i], " \t")
		}
		return strings.Join(ls, "\n")
	}
	words := []string{`a`, ` `, "\t", `é`, "\xff", "x \n", "\n", "\n\n", ` b `, `"q"`, ``, `%d`, `日本`}
	word := func() string {
		s := ``
		for n := r.Intn(4); n > 0; n-- {
			s += words[r.Intn(len(words))]
		}
		return s
	}
	for n := 5 + r.Intn(30); n > 0; n-- {
		lv := r.Intn(len(is))
		w := is[lv]
		nl := ``
		if indent != `` {
			nl = "\n" + strings.Repeat(indent, lv)
		}
		switch r.Intn(13) {
		case 0:
			s := word()
			l.add(`%d Append %q`, lv, s)
			w.Append(s)
			raw += s
		case 1:
			x := []rune{'a', ' ', '\n', 'é', '日', '\t', 0x10FFFF, 0}[r.Intn(8)]
			l.add(`%d AppendRune %q`, lv, x)
			w.AppendRune(x)
			raw += string(x)
		case 2:
			s := word()
			l.add(`%d AppendIndented %q`, lv, s)
			w.AppendIndented(s)
			raw += strings.ReplaceAll(s, "\n", nl)
		case 3:
			b := r.Intn(2) == 0
			l.add(`%d AppendBool %v`, lv, b)
			w.AppendBool(b)
			raw += strconv.FormatBool(b)
		case 4:
			x := int(anyInt(r))
			l.add(`%d AppendInt %d`, lv, x)
			w.AppendInt(x)
			raw += strconv.Itoa(x)
		case 5:
			l.add(`%d NewLine`, lv)
			w.NewLine()
			raw += nl
		case 6:
			s := word()
			l.add(`%d Printf %q`, lv, s)
			w.Printf(`%s-%d`, s, lv)
			raw += s + `-` + strconv.Itoa(lv)
		case 7:
			s := word()
			l.add(`%d Write %q`, lv, s)
			if n, err := w.Write([]byte(s)); n != len(s) || err != nil {
				c.Fail(`Write`, "%d %v\n%s", n, err, l)
			}
			if n, err := w.WriteString(s); n != len(s) || err != nil {
				c.Fail(`WriteString`, "%d %v\n%s", n, err, l)
			}
			raw += s + s
		case 8:
			if len(is) < 6 {
				last := is[len(is)-1]
				is = append(is, last.Indent())
				l.add(`Indent`)
			}
		case 9:
			if r.Intn(6) == 0 {
				l.add(`%d Reset`, lv)
				w.Reset()
				raw = ``
			}
		case 10:
			v := gen.Gen(r, &gen.Cfg{Depth: 2, MaxLen: 3, NoSens: true, NoType: true})
			if plainData(v) {
				l.add(`%d AppendValue %s`, lv, v)
				w.AppendValue(v.Build(r, true))
				sb := &strings.Builder{}
				textOf(v, indent, lv, sb)
				if v.K == gen.KStr {
					raw += strconv.Quote(v.S)
				} else {
					raw += sb.String()
				}
			}
		case 11:
			if w.Level() != lv || w.Indenting() != (indent != ``) || w.Len() != len(raw) {
				c.Fail(`Level, Indenting or Len`, "level %d/%d, indenting %v, length %d/%d\n%s", w.Level(), lv, w.Indenting(), w.Len(), len(raw), l)
			}
		case 12:
			// the trailing whitespace of the last line is deleted too
			if g, e := w.String(), trim(raw); g != e {
				c.Fail(`String of an indenter`, "got %q, expected %q\n%s", g, e, l)
			}
		}
	}
	for k := 0; k < 2; k++ {
		if g, e := i.String(), trim(raw); g != e {
			c.Fail(`String of an indenter`, "got %q, expected %q\n%s", g, e, l)
		}
	}
	c.Seen(`indenter ` + raw)
	c.Count(`indenter histories`, 1)
}

func runC25(c *mon.Ctx) {
	c.Run(`binary`, c.N(30000, 900000), func(r *rand.Rand, i int) { c25Binary(c, r) })
	c.Run(`time`, c.N(30000, 900000), func(r *rand.Rand, i int) { c25Time(c, r) })
	c.Run(`number`, c.N(30000, 900000), func(r *rand.Rand, i int) { c25Number(c, r) })
	c.Run(`string`, c.N(30000, 900000), func(r *rand.Rand, i int) { c25String(c, r) })
	c.Run(`collection`, c.N(20000, 600000), func(r *rand.Rand, i int) { c25Collection(c, r, i) })
	c.Run(`indenter`, c.N(20000, 600000), func(r *rand.Rand, i int) { c25Indenter(c, r) })
}
