// Package checks contains one monitor per property.
package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/lyraproj/dgo/dgo"

	"dgoverif/gen"
	"dgoverif/mon"
)

// log is the history of a case
type log struct{ ls []string }

func (l *log) add(f string, args ...interface{}) { l.ls = append(l.ls, fmt.Sprintf(f, args...)) }

func (l *log) String() string {
	ls := l.ls
	if len(ls) > 60 {
		ls = append([]string{fmt.Sprintf("… %d earlier operations", len(ls)-60)}, ls[len(ls)-60:]...)
	}
	return strings.Join(ls, "\n")
}

func canonOf(v dgo.Value) string {
	if v == nil {
		return `<nil>`
	}
	return gen.Observe(v).Canon(false)
}

// want checks that the returned value is the value of the model. A nil model means that a nil interface is expected
func want(c *mon.Ctx, l *log, sig string, m *gen.V, got dgo.Value) {
	e := `<nil>`
	if m != nil {
		e = m.Canon(false)
	}
	g := canonOf(got)
	if e != g {
		c.Fail(sig, "expected %s, got %s\n%s", e, g, l)
	}
}

func wantBool(c *mon.Ctx, l *log, sig string, e, g bool) {
	if e != g {
		c.Fail(sig, "expected %v, got %v\n%s", e, g, l)
	}
}

func wantInt(c *mon.Ctx, l *log, sig string, e, g int) {
	if e != g {
		c.Fail(sig, "expected %v, got %v\n%s", e, g, l)
	}
}

// mustPanic checks that f panics with an error (never with a Go runtime error)
func mustPanic(c *mon.Ctx, l *log, sig string, f func()) {
	e := mon.Catch(f)
	if e == nil {
		c.Fail(sig, "expected a panic\n%s", l)
	}
	if isRuntimeError(e) {
		c.Fail(sig+` (runtime error)`, "panic is a runtime error: %v\n%s", e, l)
	}
}

func isRuntimeError(e interface{}) bool {
	_, ok := e.(interface{ RuntimeError() })
	return ok
}

func chance(r *rand.Rand, pct int) bool { return r.Intn(100) < pct }
