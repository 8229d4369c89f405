package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C27`, Scale: 20, Rule: `a text that was read, a syntax error whose position was compared, or a sequence of writes; distinct by text and operations`, Run: runC27})
}

func runC27(c *mon.Ctx) {
	c.Run(`reader`, c.N(4000, 60000), func(r *rand.Rand, i int) { c27Reader(c, r) })
	c.Run(`positions`, c.N(6000, 100000), func(r *rand.Rand, i int) { c27Positions(c, r) })
	c.Run(`writers`, c.N(3000, 40000), func(r *rand.Rand, i int) { c27Writers(c, r) })
	c.Run(`helpers`, c.N(2000, 20000), func(r *rand.Rand, i int) { c27Helpers(c, r) })
}

var readerPieces = []string{`a`, `b`, `c`, ` `, "\n", "\n", "\t", "\r\n", `é`, `☃`, "\U0001f600", "\u2028", "\ufffd", `(`, `"`, `x9`, "\u0080", "\u07ff", "\u0800", "\U00010000", "\x7f"}
var badPieces = []string{"\x80", "\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\x00"}

func c27Reader(c *mon.Ctx, r *rand.Rand) {
	sb := strings.Builder{}
	for n := r.Intn(12); n > 0; n-- {
		if chance(r, 4) {
			sb.WriteString(badPieces[r.Intn(len(badPieces))])
		} else {
			sb.WriteString(readerPieces[r.Intn(len(readerPieces))])
		}
	}
	s := sb.String()
	sr := util.NewStringReader(s)
	p, line, col := 0, 1, 1
	l := &log{}
	l.add("text %q", s)
	// at gives the rune at a position, 0 at the end and -1 where there is none, and its size
	at := func(p int) (rune, int) {
		if p >= len(s) {
			return 0, 0
		}
		x, n := utf8.DecodeRuneInString(s[p:])
		if x == utf8.RuneError && n == 1 {
			return -1, 1
		}
		return x, n
	}
	ended := false
	for n := 1 + r.Intn(30); n > 0; n-- {
		switch k := r.Intn(10); k {
		case 0, 1, 2, 3, 4:
			e, n := at(p)
			var g rune
			l.add("Next")
			pe := mon.Catch(func() { g = sr.Next() })
			if e == -1 || e == 0 && p < len(s) {
				c.Count(`unreadable bytes`, 1)
				if pe == nil {
					c.Fail(`a reader reads what is no rune`, "got %q\n%s", g, l)
				}
				if isRuntimeError(pe) {
					c.Fail(`a reader panics with a runtime error`, "%v\n%s", pe, l)
				}
				if sr.Pos() != p {
					c.Fail(`a reader moves past what it can't read`, "%d\n%s", sr.Pos(), l)
				}
				c.Seen(s)
				return
			}
			if pe != nil || g != e {
				c.Fail(`a reader reads another rune`, "expected %q got %q %v\n%s", e, g, pe, l)
			}
			c.Count(`runes read`, 1)
			if p >= len(s) {
				ended = true
			}
			p += n
			if e == '\n' {
				line, col = line+1, 1
			} else {
				col++
			}
		case 5, 6:
			e, _ := at(p)
			var g rune
			l.add("Peek")
			pe := mon.Catch(func() { g = sr.Peek() })
			if (e == -1) != (pe != nil) || pe == nil && g != e || isRuntimeError(pe) {
				c.Fail(`Peek gives another rune than the next one`, "expected %q got %q %v\n%s", e, g, pe, l)
			}
		case 7, 8:
			e, n := at(p)
			if e != -1 {
				e, _ = at(p + n)
				if p >= len(s) {
					e = 0
				}
			}
			var g rune
			l.add("Peek2")
			pe := mon.Catch(func() { g = sr.Peek2() })
			if (e == -1) != (pe != nil) || pe == nil && g != e || isRuntimeError(pe) {
				c.Fail(`Peek2 gives another rune than the second next one`, "expected %q got %q %v\n%s", e, g, pe, l)
			}
		case 9:
			if chance(r, 30) {
				l.add("Rewind")
				sr.Rewind()
				p, line, col, ended = 0, 1, 1, false
				c.Count(`rewinds`, 1)
			}
		}
		if !ended {
			if sr.Pos() != p || sr.Line() != line || sr.Column() != col {
				c.Fail(`a reader is at another position`, "expected %d line %d column %d, got %d line %d column %d\n%s", p, line, col, sr.Pos(), sr.Line(), sr.Column(), l)
			}
		} else if sr.Line() != line || sr.Pos() < len(s) || sr.Pos() > len(s)+1 {
			c.Fail(`a reader is not at the end`, "%d line %d\n%s", sr.Pos(), sr.Line(), l)
		}
	}
	c.Seen(l.String())
}

func c27Positions(c *mon.Ctx, r *rand.Rand) {
	pc := chance(r, 40)
	ws := func(must bool) string {
		s := ``
		for n := r.Intn(4); n > 0 || must && s == ``; n-- {
			s += []string{` `, ` `, "\t", "\n", "\n"}[r.Intn(5)]
			if pc && chance(r, 20) {
				s += "# é ☃\n"
			}
		}
		return s
	}
	tok := func() string {
		if pc {
			return []string{`1`, `23`, `-4`, `Integer`, `String`, `2.5`, `'é'`, `"x y"`, `Array[Integer]`, `true`}[r.Intn(10)]
		}
		return []string{`1`, `23`, `-4`, `int`, `string`, `2.5`, `"é"`, `"x y"`, "`é☃`", `[]int`, `true`, `(1|2)`, `map[string]int`, `/é/`}[r.Intn(14)]
	}
	s := ws(false)
	open, shut := `[`, `]`
	if !pc {
		open, shut = `{`, `}`
	}
	s += open
	for n := r.Intn(5); n > 0; n-- {
		s += ws(false) + tok() + ws(false) + `,`
	}
	s += ws(false) + tok() + ws(true)
	bad := []string{`3`, `foo`, `1234`, `0`, `true`, `;`, `=`, `:`, `)`}[r.Intn(9)]
	what := bad
	if !pc && (bad == `;` || bad == `=`) {
		bad = `nil`
	}
	if bad == `:` || bad == `;` || bad == `=` || bad == `)` {
		bad, what = `)`, `')'`
	} else {
		what = bad
	}
	before := s
	s += bad + ws(bad != `)`) + `9` + shut
	line := 1 + strings.Count(before, "\n")
	col := 1 + utf8.RuneCountInString(before[strings.LastIndexByte(before, '\n')+1:])
	file := []string{``, `foo.dgo`, `dir/é.pp`}[r.Intn(3)]
	parse := parser.ParseFile
	if pc {
		parse = pcore.ParseFile
	}
	e := mon.Catch(func() {
		tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { parse(a, file, s) })
	})
	err, ok := e.(error)
	if !ok || isRuntimeError(e) {
		c.Fail(`a syntax error is not reported by an error`, "%q: %v", s, e)
	}
	pos := fmt.Sprintf("column: %d)", col)
	if file != `` || line > 1 {
		pos = fmt.Sprintf("line: %d, ", line) + pos
	}
	if file != `` {
		pos = `file: ` + file + `, ` + pos
	}
	pos = `(` + pos
	if m := err.Error(); !strings.HasSuffix(m, `: `+pos) || !strings.Contains(m, `got `+what) {
		c.Fail(`a syntax error is not reported where it is`, "%q\nexpected got %s: %s\nerror %s", s, what, pos, m)
	}
	c.Count(`syntax errors`, 1)
	if line > 1 {
		c.Count(`syntax errors after the first line`, 1)
	}
	c.Seen(s + file)
}

// stingyWriter accepts a number of bytes and then fails
type stingyWriter struct {
	left int
	buf  bytes.Buffer
	err  error
}

func (w *stingyWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.buf.Write(p[:n])
		w.left = 0
		return n, w.err
	}
	w.left -= len(p)
	return w.buf.Write(p)
}

func c27Writers(c *mon.Ctx, r *rand.Rand) {
	w := &stingyWriter{left: 1000, err: errors.New(`no more space`)}
	if chance(r, 60) {
		w.left = r.Intn(20)
	}
	if chance(r, 20) {
		w.err = io.ErrShortWrite
	}
	all := ``
	for n := 1 + r.Intn(10); n > 0; n-- {
		var f func() int
		e := ``
		switch r.Intn(5) {
		case 0:
			e = readerPieces[r.Intn(len(readerPieces))]
			f = func() int { return util.WriteString(w, e) }
		case 1:
			x := []rune(readerPieces[r.Intn(len(readerPieces))])[0]
			e = string(x)
			f = func() int { return util.WriteRune(w, x) }
		case 2:
			b := byte(r.Intn(256))
			e = string([]byte{b})
			f = func() int { util.WriteByte(w, b); return 1 }
		case 3:
			e = fmt.Sprintf("%d-%s", n, `é`)
			f = func() int { return util.Fprintf(w, "%d-%s", n, `é`) }
		case 4:
			e = fmt.Sprintln(`é`, n)
			f = func() int { return util.Fprintln(w, `é`, n) }
		}
		fits := len(e) <= w.left
		g := 0
		pe := mon.Catch(func() { g = f() })
		if fits {
			all += e
			if pe != nil || g != len(e) || w.buf.String() != all {
				c.Fail(`a write does not write everything`, "%q: %d %v, written %q", e, g, pe, w.buf.String())
			}
			c.Count(`writes`, 1)
			continue
		}
		if pe != w.err {
			c.Fail(`the error of a writer is lost`, "%q: %d %v", e, g, pe)
		}
		c.Count(`failed writes`, 1)
		break
	}
	c.Seen(all)
}

type oddPanic struct{ n int }

func c27Helpers(c *mon.Ctx, r *rand.Rand) {
	// Catch gives errors and strings, and nothing else
	err := errors.New(`an error`)
	switch r.Intn(5) {
	case 0:
		if g := util.Catch(func() { panic(err) }); g != err {
			c.Fail(`Catch gives another error`, "%v", g)
		}
	case 1:
		s := readerPieces[r.Intn(len(readerPieces))]
		if g := util.Catch(func() { panic(s) }); g == nil || g.Error() != s {
			c.Fail(`Catch gives another error for a string`, "%v", g)
		}
	case 2:
		ran := false
		if g := util.Catch(func() { ran = true }); g != nil || !ran {
			c.Fail(`Catch gives an error without panic`, "%v", g)
		}
	case 3:
		o := oddPanic{r.Intn(100)}
		var g error
		if pe := mon.Catch(func() { g = util.Catch(func() { panic(o) }) }); pe != o || g != nil {
			c.Fail(`Catch swallows a panic that is no error`, "%v %v", g, pe)
		}
	case 4:
		if g := util.Catch(func() { var m map[string]int; m[`x`] = 1 }); !isRuntimeError(g) {
			c.Fail(`Catch loses a runtime error`, "%v", g)
		}
	}
	ss := []string{}
	for n := r.Intn(5); n > 0; n-- {
		ss = append(ss, readerPieces[r.Intn(len(readerPieces))])
	}
	x := readerPieces[r.Intn(len(readerPieces))]
	e := false
	for _, s := range ss {
		e = e || s == x
	}
	if util.ContainsString(ss, x) != e {
		c.Fail(`ContainsString gives another answer`, "%q in %q", x, ss)
	}
	vs := []dgo.Value{vf.Integer(1), vf.MutableValues(1), vf.MutableMap(), vf.MutableValues(1)}[:r.Intn(5)]
	y := dgo.Value(vf.MutableValues(1))
	e = len(vs) > 1 && chance(r, 50)
	if e {
		y = vs[r.Intn(len(vs))]
	}
	if util.RecursionHit(vs, y) != e {
		c.Fail(`RecursionHit is not identity`, "%v in %v", y, vs)
	}
	cp := util.SliceCopy(vs)
	if len(cp) != len(vs) {
		c.Fail(`SliceCopy gives another slice`, "%v %v", cp, vs)
	}
	for i := range cp {
		if cp[i] != vs[i] {
			c.Fail(`SliceCopy gives another slice`, "%v %v", cp, vs)
		}
		cp[i] = nil
		if vs[i] == nil {
			c.Fail(`SliceCopy shares its elements`, "%v", vs)
		}
	}
	c.Count(`helper calls`, 4)
	c.Seen(fmt.Sprint(ss, x, len(vs), e))
}
