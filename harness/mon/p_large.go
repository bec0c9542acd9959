package mon

// C09, C10: results of calls on large objects, each spoiled by its receiver

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

func largeSize(c *Ctx, max int) int {
	if c.chance(1, 2) {
		l := sizesUpTo(max)
		return 2 + l[c.Intn(len(l))]
	}
	return 2 + c.Intn(1<<(4+c.Intn(14)))%max
}

func sameNames(a, b map[int]string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d names, expected %d", len(a), len(b))
	}
	for k, v := range b {
		if w, ok := a[k]; !ok || w != v {
			return fmt.Sprintf("type %d named %q (present %v), expected %q", k, w, ok, v)
		}
	}
	return ""
}

// manyNames: a names map of any size, parsers made from it, names maps returned
// and changed by those who got them
func manyNames(c *Ctx) {
	n := largeSize(c, 1<<17)
	step := 1
	if c.chance(1, 3) {
		step = 1 + c.Intn(1<<20)
	}
	given, want := map[int]string{}, map[int]string{}
	for i := 0; i < n; i++ {
		given[i*step] = fmt.Sprint("row", i)
		want[i*step] = given[i*step]
	}
	plain := map[int]string{}
	for k, v := range want {
		plain[k] = v
	}
	want[-1], want[-2] = "_literal", "_nothing"
	t := table{0: {'a': {parser.OpTerminal("a"), parser.OpNonTerminal(0)}, 0: {}}}
	var ps []parser.LL1Parser
	for k := 1 + c.Intn(3); k > 0; k-- {
		ps = append(ps, parser.NewLL1Parser(t, given))
	}
	type kept struct {
		got  *map[int]string
		want map[int]string
	}
	var all []kept
	for k := 0; k < 8; k++ {
		p := ps[c.Intn(len(ps))]
		if c.chance(1, 5) {
			if _, m, err := p.Parse("ab"); err == nil || m != nil {
				c.Fail("Parse of \"ab\": names %v, error %v", m != nil, err)
			}
			continue
		}
		tr, m, err := p.Parse(strings.Repeat("a", c.Intn(4)))
		if err != nil || tr == nil || m == nil {
			c.Fail("names map of %d: tree %v, names %v, error %v", n, tr != nil,
				m != nil, err)
		}
		if d := sameNames(*m, want); d != "" {
			c.Fail("names map of %d, parse %d: %s", n, k, d)
		}
		c.Count("large results compared", 1)
		w := map[int]string{}
		for i, v := range want {
			w[i] = v
		}
		// the caller's now
		switch c.Intn(5) {
		case 0:
			for i := range *m {
				delete(*m, i)
			}
			w = map[int]string{}
		case 1:
			i := c.Intn(n) * step
			delete(*m, i)
			delete(w, i)
		case 2, 3:
			i := c.Intn(n) * step
			(*m)[i], w[i] = "changed", "changed"
		case 4:
			(*m)[-9-k], w[-9-k] = "new", "new"
		}
		all = append(all, kept{m, w})
	}
	for k, x := range all {
		if d := sameNames(*x.got, x.want); d != "" {
			c.Fail("names map of %d: the map returned by parse %d is not as its "+
				"caller left it: %s", n, k, d)
		}
	}
	if d := sameNames(given, plain); d != "" {
		c.Fail("names map of %d given: %s", n, d)
	}
	c.Max("names", n)
	c.Eval(n > 2, "names", uint64(n), uint64(step))
}

// largeTables: tables of large grammars, one spoiled
func largeTables(c *Ctx) {
	var g bnf.Grammar
	n := largeSize(c, 1500)
	alts := 1 + c.Intn(3)
	if c.chance(1, 3) {
		n, alts = 2+c.Intn(60), 1+c.Intn(200)
	}
	for i := 0; i < n; i++ {
		ru := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: fmt.Sprint("r", i)}}
		for k := 0; k < alts; k++ {
			q := bnf.Sequence{Symbols: []bnf.Symbol{bnf.SymbolTerminal{
				Name: string([]byte{byte(1 + k), byte(i)})}}}
			if i+1 < n && k == 0 {
				q.Symbols = append(q.Symbols, bnf.SymbolNonTerminal{
					Name: fmt.Sprint("r", i+1)})
			}
			ru.Tail.Sequences = append(ru.Tail.Sequences, q)
		}
		g.Rules = append(g.Rules, ru)
	}
	check := func(t *map[int]map[byte][]parser.ParserOp, names *map[int]string,
		what string) {
		if len(*t) != n || len(*names) != n {
			c.Fail("%d rules of %d alternatives, %s: %d rows, %d names", n, alts, what,
				len(*t), len(*names))
		}
		for i := 0; i < n; i++ {
			row := (*t)[i]
			if len(row) != alts || (*names)[i] != fmt.Sprint("r", i) {
				c.Fail("%d rules of %d alternatives, %s: row %d has %d cells, name %q",
					n, alts, what, i, len(row), (*names)[i])
			}
			for k := 0; k < alts; k++ {
				ops := row[byte(1+k)]
				want := []parser.ParserOp{parser.OpTerminal(string([]byte{
					byte(1 + k), byte(i)}))}
				if i+1 < n && k == 0 {
					want = append(want, parser.OpNonTerminal(i+1))
				}
				if fmt.Sprint(ops) != fmt.Sprint(want) {
					c.Fail("%d rules of %d alternatives, %s: row %d, cell %d: %v, "+
						"expected %v", n, alts, what, i, 1+k, ops, want)
				}
			}
		}
		c.Count("large results compared", 1)
	}
	type res struct {
		t *map[int]map[byte][]parser.ParserOp
		n *map[int]string
	}
	var rs []res
	gen := func() res {
		t, names, err := tablegen.FromGrammar(g)
		if err != nil {
			c.Fail("%d rules: %v", n, err)
		}
		return res{t, names}
	}
	rs = append(rs, gen(), gen())
	check(rs[0].t, rs[0].n, "first")
	i := c.Intn(n)
	switch c.Intn(4) {
	case 0:
		delete(*rs[0].t, i)
		delete(*rs[0].n, i)
	case 1:
		(*rs[0].t)[i][byte(1+c.Intn(alts))] = nil
		(*rs[0].n)[i] = "changed"
	case 2:
		(*rs[0].t)[i][byte(1+c.Intn(alts))][0] = parser.OpTerminal("changed")
		(*rs[0].n)[n] = "new"
	case 3:
		for k := range *rs[0].t {
			delete(*rs[0].t, k)
			delete(*rs[0].n, k)
		}
	}
	check(rs[1].t, rs[1].n, "the other one spoiled")
	r := gen()
	check(r.t, r.n, "after one was spoiled")
	c.Max("rules", n)
	c.Eval(n > 1, "tables", uint64(n), uint64(alts))
}

// largeASTs: grammars read from large trees, one spoiled; bindings spoiled
func largeASTs(c *Ctx) {
	n := largeSize(c, 6000)
	syms := 1 + c.Intn(4)
	if c.chance(1, 3) {
		n, syms = 2+c.Intn(10), 1+c.Intn(800)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "<r%d> ::= ", i)
		for k := 0; k < syms; k++ {
			fmt.Fprintf(&sb, "<s%d> \"t%d\" ", k, i)
		}
		sb.WriteString("| 'x'\n")
	}
	text := sb.String()
	_, _, p, err := mk(bnf.SelfGrammar())
	if err != nil {
		c.Fail("self grammar: %v", err)
	}
	tr, _, err := p.Parse(text)
	if err != nil {
		c.Fail("%d rules of %d symbols not read: %v", n, syms, err)
	}
	check := func(g *bnf.Grammar, what string) {
		if len(g.Rules) != n {
			c.Fail("%d rules, %s: %d rules", n, what, len(g.Rules))
		}
		for i, ru := range g.Rules {
			bad := ru.Head.Name != fmt.Sprint("r", i) || len(ru.Tail.Sequences) != 2 ||
				len(ru.Tail.Sequences[0].Symbols) != 2*syms ||
				len(ru.Tail.Sequences[1].Symbols) != 1
			for k := 0; !bad && k < syms; k++ {
				q := ru.Tail.Sequences[0].Symbols
				bad = q[2*k] != bnf.Symbol(bnf.SymbolNonTerminal{Name: fmt.Sprint("s", k)}) ||
					q[2*k+1] != bnf.Symbol(bnf.SymbolTerminal{Name: fmt.Sprint("t", i)})
			}
			if bad {
				c.Fail("%d rules of %d symbols, %s: rule %d is %s", n, syms, what, i,
					clip(fmt.Sprintf("%v", ru)))
			}
		}
		c.Count("large results compared", 1)
	}
	read := func() *bnf.Grammar {
		g, err := fromcst.SelfCSTtoASTBindings().ToAST(tr, text)
		if err != nil || g == nil {
			c.Fail("%d rules of %d symbols: ToAST: %v", n, syms, err)
		}
		return g
	}
	a, b := read(), read()
	check(a, "first")
	i := c.Intn(n)
	switch c.Intn(3) {
	case 0:
		a.Rules[i] = bnf.Rule{}
	case 1:
		a.Rules[i].Tail.Sequences[0].Symbols[c.Intn(2*syms)] = nil
	case 2:
		_ = append(a.Rules[i].Tail.Sequences[0].Symbols, nil)
		_ = append(a.Rules[i].Tail.Sequences[:1], bnf.Sequence{})
		_ = append(a.Rules[:i], bnf.Rule{})
	}
	check(b, "the other one spoiled")
	check(read(), "after one was spoiled")
	c.Max("rules", n)
	c.Eval(n > 1, "asts", uint64(n), uint64(syms))
}

func largeApart(c *Ctx) {
	switch c.Idx % 4 {
	case 0:
		largeTables(c)
	case 1:
		largeASTs(c)
	default:
		manyNames(c)
	}
}

// largeConc: few concurrent calls, on large objects (C08)
func largeConc(c *Ctx) {
	n := largeSize(c, 1<<14)
	if c.chance(1, 10) {
		n = largeSize(c, 1<<17)
	}
	gor, per := 2+c.Intn(5), 1+c.Intn(3)
	if n > 1<<14 {
		gor, per = 2+c.Intn(2), 1
	}
	// a call and the same call on other objects; texts are made afterwards
	type call struct{ conc, alone func() func() string }
	var calls []call
	what := ""
	parse := func(p parser.LL1Parser, in string, src, brk int) func() func() string {
		return func() func() string {
			var s any = in
			switch src {
			case 0:
				s = []byte(in)
			case 1:
				s = bytes.NewBufferString(in)
			case 2:
				s = strings.NewReader(in)
			}
			t, names, err := p.Parse(s)
			l, x := -1, ""
			if names != nil {
				l, x = len(*names), (*names)[0]
				switch brk {
				case 1:
					(*names)[0] = "changed"
				case 2:
					for k := range *names {
						delete(*names, k)
					}
				}
			}
			return func() string {
				return fmt.Sprint(outcomeOf(t, nil, err), " ", l, " ", x)
			}
		}
	}
	switch c.Idx % 5 {
	case 0, 1:
		g, f := growthCase(c.R, c.Intn(14))
		t, names, p, err := mk(g.toBNF())
		if err != nil {
			c.Fail("no table: %v", err)
		}
		what = "Parse: " + g.Kind
		if c.chance(1, 3) { // many names
			for k := c.Intn(5000); k > 0; k-- {
				names[100+k] = "x"
			}
			p = parser.NewLL1Parser(t, names)
		}
		other := map[int]string{}
		for k, v := range names {
			other[k] = v
		}
		q := parser.NewLL1Parser(cloneTable(t), other)
		for k := 0; k < gor*per; k++ {
			m := n
			if c.chance(1, 3) {
				m = 1 + c.Intn(n)
			}
			in := f(m)
			if c.chance(1, 4) {
				in += "\x01"
			}
			src, brk := c.Intn(4), c.Intn(4)
			calls = append(calls, call{parse(p, in, src, brk), parse(q, in, src, 0)})
		}
	case 2:
		rules := 2 + n%200
		mkg := func() bnf.Grammar {
			var b bnf.Grammar
			for i := 0; i < rules; i++ {
				ru := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: fmt.Sprint("r", i)}}
				for k := 0; k < 1+n%7; k++ {
					q := bnf.Sequence{Symbols: []bnf.Symbol{bnf.SymbolTerminal{
						Name: string([]byte{byte(1 + k)})}}}
					for j := 0; j < n%5; j++ {
						q.Symbols = append(q.Symbols, bnf.SymbolNonTerminal{
							Name: fmt.Sprint("r", (i*7+k*3+j)%rules)})
					}
					ru.Tail.Sequences = append(ru.Tail.Sequences, q)
				}
				b.Rules = append(b.Rules, ru)
			}
			return b
		}
		what = fmt.Sprintf("FromGrammar and String of %d rules", rules)
		gen := func(b bnf.Grammar) func() func() string {
			return func() func() string {
				t, names, err := tablegen.FromGrammar(b)
				if err == nil && c.Idx%2 == 0 {
					x := fmt.Sprint(*t, *names)
					(*t)[0] = nil
					(*names)[0] = "changed"
					return func() string { return x }
				}
				return func() string { return fmt.Sprint(t != nil, names != nil, err) }
			}
		}
		str := func(b bnf.Grammar) func() func() string {
			return func() func() string {
				s := b.String()
				return func() string { return s }
			}
		}
		a, b := mkg(), mkg()
		for k := 0; k < gor*per; k++ {
			if c.chance(1, 3) {
				calls = append(calls, call{str(a), str(b)})
			} else {
				calls = append(calls, call{gen(a), gen(b)})
			}
		}
	case 3:
		var sb strings.Builder
		n = 2 + n%5000
		for i := 0; i <= n/8; i++ {
			fmt.Fprintf(&sb, "<r%d> ::= <r%d>  \"t\\\\\\n\" '' | 'long%s'\n", i, i*7,
				strings.Repeat("x", i%50))
		}
		text := sb.String()
		what = fmt.Sprintf("reading %d bytes of grammar", len(text))
		_, _, p, err := mk(bnf.SelfGrammar())
		if err != nil {
			c.Fail("self grammar: %v", err)
		}
		// one of the rules' alternatives ends in '': no matter to ToAST
		tr, _, err := p.Parse(text)
		if err != nil {
			c.Fail("%d rules not read: %v", n/8, err)
		}
		tr2, _, err := p.Parse(text)
		if err != nil {
			c.Fail("%d rules not read: %v", n/8, err)
		}
		bind, bind2 := fromcst.SelfCSTtoASTBindings(), fromcst.SelfCSTtoASTBindings()
		for k := c.Intn(1 << c.Intn(12)); k > 0; k-- {
			bind.IgnoreNodeTypes = append(bind.IgnoreNodeTypes, 30+c.Intn(1<<20))
		}
		bind2.IgnoreNodeTypes = append([]int{}, bind.IgnoreNodeTypes...)
		ast := func(b fromcst.BNFCSTtoASTBindings, tr cst.Node) func() func() string {
			return func() func() string {
				g, err := b.ToAST(tr, text)
				return func() string {
					if g == nil {
						return fmt.Sprint(err)
					}
					return g.String()
				}
			}
		}
		for k := 0; k < gor*per; k++ {
			calls = append(calls, call{ast(bind, tr), ast(bind2, tr2)})
		}
	case 4:
		mkt := func() cst.Node {
			var ch []cst.Node
			for i := 0; i < n; i++ {
				ch = append(ch, cst.NewNode(i, i, i+1, []cst.Node{
					cst.NewNode(-2, i, i, nil)}))
			}
			return cst.NewNode(0, 0, n, ch)
		}
		what = fmt.Sprintf("Walk over %d nodes", 2*n+1)
		a, b := mkt(), mkt()
		walk := func(t cst.Node) func() func() string {
			return func() func() string {
				k, s := 0, 0
				cst.Walk(countVisitor{&k, 0, &s}, t)
				return func() string { return fmt.Sprint(k, s) }
			}
		}
		for k := 0; k < gor*per; k++ {
			calls = append(calls, call{walk(a), walk(b)})
		}
	}
	late := make([]func() string, len(calls))
	var wg sync.WaitGroup
	for k := 0; k < gor; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for j := 0; j < per; j++ {
				func() {
					defer func() {
						if v := recover(); v != nil {
							late[k*per+j] = func() string { return fmt.Sprint("panic: ", v) }
						}
					}()
					late[k*per+j] = calls[k*per+j].conc()
				}()
			}
		}(k)
	}
	wg.Wait()
	for k, x := range late {
		if a, b := x(), calls[k].alone()(); a != b {
			c.Fail("%s, %d goroutines: call %d gives %s, alone %s", what, gor, k,
				clip(a), clip(b))
		}
	}
	c.Count("concurrent calls on large objects", len(calls))
	c.Max("size", n)
	c.Eval(true, what, uint64(gor), uint64(per))
}
