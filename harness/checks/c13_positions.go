package checks

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"dgoverif/mon"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
)

// aliasPositions are expressions with positions, @, where the name of a type can be used
var aliasPositions = []string{
	`@`, `[]@`, `[2,7]@`, `[][]@`, `{@}`, `{@,...@}`, `{int,@,string}`, `{"a",@}`, `{@,[]@}`,
	`map[@]int`, `map[string]@`, `map[@,1,3]@`, `map[string]map[string]@`, `map[string]{@}`,
	`{a:@}`, `{a?:@}`, `{a:@,...}`, `{a:@,b:@,c?:[]@}`, `{a:{b:{c:@}}}`, `{a:1,b:@}`, `{"x y":@}`,
	`@|int`, `int|@`, `nil|@`, `@&string`, `string&@`, `@^int`, `int^@`, `!@`, `(@|int)`, `[](@|nil)`, `!(@|nil)`,
	`type[@]`, `type[[]@]`, `sensitive[@]`, `func(@)`, `func() @`, `func(@,int) string`, `func(...@)`, `func(int) @`, `func(string,...int) (@,@)`, `[]func(@) {a:@}`,
	`{a:@,b:func(@) type[@]}`, `map[@|int]{@,sensitive[@]}`,
}

// aliasTargets are the types that the names stand for
var aliasTargets = []string{
	`int`, `string`, `string[3,9]`, `1..7`, `1.5..`, `/^a+$/`, `"lit"`, `42`, `true`, `nil`, `~"Ci"`, `any`, `binary`, `[]int`, `{int,string}`, `{1,"two"}`, `{a:int}`, `{a:1,b:"x"}`,
	`map[string]int`, `int|string`, `/^a/&/b$/`, `/^a/^/b$/`, `!int`, `type[int]`, `func(int) string`, `sensitive[int]`, `[1,4]{a?:string}`,
}

// c13Positions checks that a name stands for its type wherever a type can be used, no matter if the name is declared
// before, after, or where it is used
func c13Positions(c *mon.Ctx, r *rand.Rand, i int) {
	pos := aliasPositions[i%len(aliasPositions)]
	tgt := aliasTargets[(i/len(aliasPositions))%len(aliasTargets)]
	if r.Intn(3) == 0 && pos != `@` {
		// a name in a name
		pos = strings.Replace(pos, `@`, `(`+aliasPositions[1+r.Intn(len(aliasPositions)-1)]+`)`, 1)
	}
	if strings.Contains(pos, `sensitive[@]`) && looseAlias(tgt) {
		tgt = `int` // a literal isn't accepted there
	}
	direct := strings.ReplaceAll(pos, `@`, `(`+tgt+`)`)
	uses := strings.ReplaceAll(pos, `@`, `tgt`)
	var want dgo.Value
	if e := mon.Catch(func() { want = tf.ParseType(direct) }); e != nil {
		c.Fail(`positions: a type in parentheses is not accepted`, "%s\n%v", direct, e)
	}
	eq := func(how, text string, got dgo.Value) {
		if got == nil || !want.Equals(got) || !got.Equals(want) || got.HashCode() != want.HashCode() || got.String() != want.String() {
			// the parts of a type can be known to be exact or unconstrained only when they are declared before they are used
			if got != nil && how != `declared before` && how != `two declarations` && how != `added` && looseAlias(tgt) {
				c.Count(`types that can't be simplified`, 1)
				return
			}
			c.Fail(`positions: `+how+`: not the type that the name stands for`, "%s\ngot  %v\nwant %v", text, got, want)
		}
	}
	c.Seen(direct)
	fail := func(how, text string, e interface{}) {
		if e != nil {
			c.Fail(`positions: `+how+`: not accepted`, "%s\n%v", text, e)
		}
	}
	parse := func(text string) dgo.Value {
		var v dgo.Value
		am := tf.BuiltInAliases()
		tf.AddAliases(&am, &sync.Mutex{}, func(a dgo.AliasAdder) { v = tf.ParseFile(a, ``, text) })
		return v
	}
	part := func(v dgo.Value, n int) dgo.Value {
		switch v := v.(type) {
		case dgo.TupleType:
			return v.Element(n)
		case dgo.ExactType:
			if a, ok := v.ExactValue().(dgo.Array); ok {
				return typeOfPart(a.Get(n))
			}
		case dgo.Array:
			return typeOfPart(v.Get(n))
		}
		return nil
	}
	// in one expression
	var v dgo.Value
	text := fmt.Sprintf(`{tgt=%s,%s}`, tgt, uses)
	fail(`declared before`, text, mon.Catch(func() { v = parse(text) }))
	eq(`declared before`, text, part(v, 1))
	text = fmt.Sprintf(`{%s,tgt=%s}`, uses, tgt)
	fail(`declared after`, text, mon.Catch(func() { v = parse(text) }))
	eq(`declared after`, text, part(v, 0))
	if n := strings.Count(pos, `@`); n > 0 {
		text = strings.Replace(uses, `tgt`, `(tgt=`+tgt+`)`, 1)
		if e := mon.Catch(func() { v = parse(text) }); e == nil {
			eq(`declared where it is used`, text, v)
			c.Count(`declared where it is used`, 1)
		}
	}
	// as the names of an alias map
	for n := 0; n < 2; n++ {
		am := tf.BuiltInAliases()
		// a name must be declared before it is used in another declaration unless both are in the same expression
		decl := []string{fmt.Sprintf(`tgt=%s`, tgt), fmt.Sprintf(`usr=%s`, uses)}
		how := `two declarations`
		if n == 1 {
			decl = []string{fmt.Sprintf(`{usr=%s,tgt=%s}`, uses, tgt)}
			how = `two declarations in one expression, the use first`
		}
		text = strings.Join(decl, `; `)
		fail(how, text, mon.Catch(func() {
			tf.AddAliases(&am, &sync.Mutex{}, func(a dgo.AliasAdder) {
				for _, x := range decl {
					tf.ParseFile(a, ``, x)
				}
			})
		}))
		u, t := am.GetType(vf.String(`usr`)), am.GetType(vf.String(`tgt`))
		if t == nil || u == nil {
			c.Fail(`positions: `+how+`: a declared name is missing`, "%s: %v %v", text, u, t)
		}
		eq(how, text, u)
		if wt := tf.ParseType(tgt); !wt.Equals(t) {
			c.Fail(`positions: `+how+`: the name stands for another type`, "%s: %v", text, t)
		}
		if nm := am.GetName(t); nm == nil {
			c.Fail(`positions: `+how+`: the type has no name`, "%s", text)
		}
	}
	// the type of an expression made by adding types
	am := tf.BuiltInAliases()
	tf.AddAliases(&am, &sync.Mutex{}, func(a dgo.AliasAdder) { a.Add(tf.ParseType(tgt), vf.String(`tgt`)) })
	var u dgo.Value
	fail(`added`, uses, mon.Catch(func() {
		tf.AddAliases(&am, &sync.Mutex{}, func(a dgo.AliasAdder) { u = tf.ParseFile(a, ``, uses) })
	}))
	eq(`added`, uses, u)
	c.Count(`names used`, strings.Count(pos, `@`)*6)
}

// looseAlias is true for types that are simplified when they become a part of another type
func looseAlias(s string) bool {
	t := tf.ParseType(s)
	_, not := t.(dgo.UnaryType)
	return dgo.IsExact(t) || not || s == `any`
}

func typeOfPart(v dgo.Value) dgo.Value {
	if t, ok := v.(dgo.Type); ok {
		return t
	}
	return v.Type()
}
