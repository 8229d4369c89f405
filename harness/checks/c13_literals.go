package checks

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"

	"dgoverif/mon"
)

// piece is a part of the text of a literal with what it denotes
type piece struct {
	src, val string
	bad      bool
}

func c13Literals(c *mon.Ctx) {
	c.Run(`string literals`, c.N(8000, 200000), func(r *rand.Rand, i int) { c13String(c, r) })
	c.Run(`regexp literals`, c.N(4000, 60000), func(r *rand.Rand, i int) { c13Regexp(c, r) })
	c.Run(`number literals`, c.N(8000, 200000), func(r *rand.Rand, i int) { c13Number(c, r) })
}

// parseLiteral parses the text of a literal, alone or as an element
func parseLiteral(r *rand.Rand, isPcore bool, s string) (dgo.Value, interface{}) {
	p := tf.Parse
	if isPcore {
		p = func(s string) dgo.Value {
			v := pcore.Parse(s)
			if t, ok := v.(dgo.ExactType); ok {
				v = t.ExactValue()
			}
			return v
		}
	}
	var v dgo.Value
	how := r.Intn(3)
	e := mon.Catch(func() {
		switch {
		case how == 0 && !isPcore:
			v = p(`{` + s + `}`)
			if a, ok := v.(dgo.Array); ok && a.Len() == 1 {
				v = a.Get(0)
			} else if t, ok := v.(dgo.TupleType); ok && t.Len() == 1 {
				v = t.Element(0)
			} else {
				v = nil
			}
		case how == 0:
			v = p(`[1,` + s + `]`)
			if a, ok := v.(dgo.Array); ok && a.Len() == 2 {
				v = a.Get(1)
			} else {
				v = nil
			}
		case how == 1:
			v = p(" \n\t" + s + "\n ")
		default:
			v = p(s)
		}
		if t, ok := v.(dgo.ExactType); ok {
			v = t.ExactValue()
		}
	})
	return v, e
}

func hexOf(r *rand.Rand, n uint32, w int) string {
	s := fmt.Sprintf(`%0*x`, w, n)
	if chance(r, 50) {
		s = strings.ToUpper(s)
	}
	return s
}

func stringPiece(r *rand.Rand, end string) piece {
	plain := func(s string) piece { return piece{s, s, false} }
	switch r.Intn(12) {
	case 0:
		e := r.Intn(9)
		return piece{`\` + `abfnrtv\`[min(e, 7):min(e, 7)+1], "\a\b\f\n\r\t\v\\"[min(e, 7) : min(e, 7)+1], false}
	case 1:
		return piece{`\` + end, end, false}
	case 2:
		b := byte(r.Intn(256))
		return piece{`\x` + hexOf(r, uint32(b), 2), string([]byte{b}), false}
	case 3:
		u := []uint32{0, 0x41, 0xd7ff, 0xe000, 0xfffd, 0xffff, uint32(r.Intn(0xd800))}[r.Intn(7)]
		return piece{`\u` + hexOf(r, u, 4), string(rune(u)), false}
	case 4:
		u := []uint32{0, 0x41, 0x10000, 0x10ffff, 0xfffe, uint32(r.Intn(0xd800)), uint32(0xe000 + r.Intn(0x102000))}[r.Intn(7)]
		return piece{`\U` + hexOf(r, u, 8), string(rune(u)), false}
	case 5:
		return plain([]string{`é`, `☃`, "\U0001f600", "\ufffd", "\u2028", "\u0080", "\u07ff", "\t", "\r", "\x01", "\x7f"}[r.Intn(11)])
	case 6:
		if end == `'` {
			return plain(`"`)
		}
		return plain(`'`)
	case 7:
		if chance(r, 75) {
			return plain("`/#$%{}[]"[r.Intn(9):][:1])
		}
		// what is not permitted
		return piece{[]string{`\c`, `\0`, `\ `, `\é`, `\x`, `\xg0`, `\x0`, `\u12`, `\u123g`, `\U0011000`, `\UFFFFFFFF`, `\U00110000`, `\U7fffffff`, `\ud800`, `\udfff`, `\U0000D800`, `\U0000dfff`,
			`\u-123`, `\x+1`, "\n", "\\\n", `\x 1`, `\u 041`, "\xff", "\x00", "\\\x00", "\xc3("}[r.Intn(27)], ``, true}
	}
	return plain(string("abcxyzuUX019 "[r.Intn(13)]))
}

// c13String parses strings of pieces, some of which are no legal part of a string
func c13String(c *mon.Ctx, r *rand.Rand) {
	isPcore := chance(r, 50)
	end := `"`
	if isPcore && chance(r, 50) {
		end = `'`
	}
	sb, vb := strings.Builder{}, strings.Builder{}
	sb.WriteString(end)
	bad := ``
	for n := r.Intn(7); n > 0; n-- {
		p := stringPiece(r, end)
		sb.WriteString(p.src)
		if p.bad {
			bad = p.src
			// nothing after it may complete it
			sb.WriteString([]string{``, `zz`, `zz`, `-`}[r.Intn(4)])
			break
		}
		vb.WriteString(p.val)
	}
	if bad == `` && chance(r, 8) {
		bad = `no end`
	} else {
		sb.WriteString(end)
	}
	s, want := sb.String(), vb.String()
	v, e := parseLiteral(r, isPcore, s)
	c.Seen(s)
	if bad != `` {
		if e == nil {
			c.Fail(`an illegal string literal is accepted`, "%q (%q, pcore %t) became %T %q", s, bad, isPcore, v, v)
		}
		if _, ok := e.(error); !ok || isRuntimeError(e) {
			c.Fail(`an illegal string literal is not refused with an error`, "%q (%q, pcore %t): %T %v", s, bad, isPcore, e, e)
		}
		c.Count(`refused literals`, 1)
		return
	}
	if e != nil {
		c.Fail(`a string literal is refused`, "%q (pcore %t): %v", s, isPcore, e)
	}
	if x, ok := v.(dgo.String); !ok || x.GoString() != want {
		c.Fail(`a string literal denotes another string`, "%q (pcore %t): %T %q, expected %q", s, isPcore, v, v, want)
	}
	c.Count(`string literals`, 1)
}

// c13Regexp parses regular expressions
func c13Regexp(c *mon.Ctx, r *rand.Rand) {
	isPcore := chance(r, 50)
	sb, vb := strings.Builder{}, strings.Builder{}
	bad := ``
	sb.WriteByte('/')
	for n := 1 + r.Intn(6); n > 0; n-- {
		switch k := r.Intn(12); {
		case k < 3:
			sb.WriteString(`\/`)
			vb.WriteString(`/`)
		case k < 6:
			p := []string{`\\`, `\d`, `\.`, `\pL`, `[^a-z]`, `(?:x)`, `\x{41}`, `\"`}[r.Intn(8)]
			if chance(r, 40) {
				p = `\` + string("!#$%&'()*+,-.:;<=>?@[]^_`{|}~\"abfnrtvdDsSwWAzB"[r.Intn(46)])
			}
			sb.WriteString(p)
			vb.WriteString(p)
		case k == 6 && chance(r, 20):
			bad = []string{"\n", "(", "[a", `\`, "\x00", "\xff", `\pX`, `\8`}[r.Intn(8)]
			sb.WriteString(bad)
		default:
			p := []string{`a`, `é`, `☃`, `"`, `'`, ` `, `.`, `b*`, "\t", "`"}[r.Intn(10)]
			sb.WriteString(p)
			vb.WriteString(p)
		}
		if bad != `` {
			break
		}
	}
	sb.WriteByte('/')
	if bad == `` && chance(r, 6) {
		bad = `text after the end`
		sb.WriteString(`/`)
	}
	s, want := sb.String(), vb.String()
	v, e := parseLiteral(r, isPcore, s)
	c.Seen(s)
	if bad != `` {
		if e == nil {
			c.Fail(`an illegal regexp literal is accepted`, "%q (%q, pcore %t) became %T %v", s, bad, isPcore, v, v)
		}
		if _, ok := e.(error); !ok || isRuntimeError(e) {
			c.Fail(`an illegal regexp literal is not refused with an error`, "%q (%q, pcore %t): %T %v", s, bad, isPcore, e, e)
		}
		c.Count(`refused literals`, 1)
		return
	}
	if e != nil {
		c.Fail(`a regexp literal is refused`, "%q (pcore %t): %v", s, isPcore, e)
	}
	if x, ok := v.(dgo.Regexp); ok {
		if x.GoRegexp().String() != want {
			c.Fail(`a regexp literal denotes another regexp`, "%q (pcore %t): %v, expected %s", s, isPcore, v, want)
		}
	} else if t, ok := v.(dgo.Type); !ok || t.TypeIdentifier() != dgo.TiStringPattern || !t.Equals(tf.Pattern(regexp.MustCompile(want))) {
		c.Fail(`a regexp literal denotes another regexp`, "%q (pcore %t): %T %v, expected %s", s, isPcore, v, v, want)
	}
	c.Count(`regexp literals`, 1)
}

var intText = regexp.MustCompile(`\A[+-]?(0[xX][0-9a-fA-F]+|[0-9]+)\z`)
var floatText = regexp.MustCompile(`\A[+-]?[0-9]+((\.[0-9]+)([eE][+-]?[0-9]+)?|[eE][+-]?[0-9]+)\z`)

// c13Number parses numbers, and texts that differ from numbers in a character
func c13Number(c *mon.Ctx, r *rand.Rand) {
	isPcore := chance(r, 50)
	var s string
	switch r.Intn(6) {
	case 0:
		s = strconv.FormatInt(int64(r.Uint64()>>uint(r.Intn(64))), 10)
	case 1:
		s = `0x` + strconv.FormatUint(r.Uint64()>>uint(r.Intn(64)), 16)
	case 2:
		s = strconv.FormatFloat(math.Float64frombits(r.Uint64()), "efg"[r.Intn(3)], -1, 64)
	case 3:
		s = strconv.FormatFloat(float64(r.Intn(2000)-1000)/8, 'f', -1, 64)
	case 4:
		s = `0` + strconv.FormatInt(int64(r.Intn(100)), 8)
	default:
		s = []string{`0`, `-0`, `+0`, `00`, `0e0`, `1e400`, `-1e400`, `1e-400`, `9223372036854775807`, `9223372036854775808`, `-9223372036854775808`, `-9223372036854775809`, `0x7fffffffffffffff`,
			`0x8000000000000000`, `-0x8000000000000000`, `1.5e+3`, `1E5`, `0X1F`, `089`, `0x`, `1.`, `1e`, `1e+`, `+`, `-`, `1.5.2`, `1e5.2`, `1.2x3`, `1x1`, `0x1.5`, `+-1`, `--1`, `0b1`, `0o7`, `1_000`, `5a`}[r.Intn(36)]
	}
	if chance(r, 20) && s[0] != '-' && s[0] != '+' {
		s = string("+-"[r.Intn(2)]) + s
	}
	if chance(r, 35) {
		b := []byte(s)
		i := r.Intn(len(b) + 1)
		x := "0123456789.eExXafAF+-_"[r.Intn(22)]
		if i < len(b) && chance(r, 50) {
			b[i] = x
		} else {
			b = append(b[:i:i], append([]byte{x}, b[i:]...)...)
		}
		s = string(b)
	}
	if strings.Contains(s, `..`) || strings.Trim(s, `+-.`) == `` || strings.ContainsAny(s[:1], `aefxAEFX_NI.`) {
		return // ranges and identifiers
	}
	var want interface{}
	switch {
	case intText.MatchString(s):
		if n, err := strconv.ParseInt(s, 0, 64); err == nil {
			want = n
		}
	case floatText.MatchString(s):
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			want = f
		}
	}
	v, e := parseLiteral(r, isPcore, s)
	c.Seen(s)
	if want == nil {
		if e == nil {
			c.Fail(`an illegal number literal is accepted`, "%q (pcore %t) became %T %v", s, isPcore, v, v)
		}
		if _, ok := e.(error); !ok || isRuntimeError(e) {
			c.Fail(`an illegal number literal is not refused with an error`, "%q (pcore %t): %T %v", s, isPcore, e, e)
		}
		c.Count(`refused literals`, 1)
		return
	}
	if e != nil {
		c.Fail(`a number literal is refused`, "%q (pcore %t): %v", s, isPcore, e)
	}
	switch w := want.(type) {
	case int64:
		if n, ok := v.(dgo.Integer); !ok || n.GoInt() != w {
			c.Fail(`a number literal denotes another number`, "%q (pcore %t): %T %v, expected %v", s, isPcore, v, v, w)
		}
	case float64:
		if f, ok := v.(dgo.Float); !ok || f.GoFloat() != w {
			c.Fail(`a number literal denotes another number`, "%q (pcore %t): %T %v, expected %v", s, isPcore, v, v, w)
		}
	}
	c.Count(`number literals`, 1)
}
