package mon

// C09: arguments which lie side by side in arrays of the caller, and calls
// broken off by a panic of the caller's code or made within other calls

import (
	"fmt"
	"sort"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// packBNF: the same grammar with all slices of a kind in one array, each followed
// by the next
func packBNF(b bnf.Grammar) bnf.Grammar {
	var syms []bnf.Symbol
	var seqs []bnf.Sequence
	for _, r := range b.Rules {
		seqs = append(seqs, r.Tail.Sequences...)
		for _, q := range r.Tail.Sequences {
			syms = append(syms, q.Symbols...)
		}
	}
	syms = append(syms, bnf.SymbolTerminal{Name: "the caller's"})
	seqs = append(seqs, bnf.Sequence{Symbols: syms[len(syms)-1:]})
	rules := make([]bnf.Rule, 0, len(b.Rules)+1)
	k, l := 0, 0
	for _, r := range b.Rules {
		n := len(r.Tail.Sequences)
		for i := k; i < k+n; i++ {
			m := len(seqs[i].Symbols)
			seqs[i].Symbols = syms[l : l+m]
			l += m
		}
		r.Tail.Sequences = seqs[k : k+n]
		k += n
		rules = append(rules, r)
	}
	rules = append(rules, bnf.Rule{Head: bnf.SymbolNonTerminal{Name: "the caller's"},
		Tail: bnf.Substitution{Sequences: seqs[len(seqs)-1:]}})
	return bnf.Grammar{Rules: rules[:len(b.Rules)]}
}

func packTable(t table) table {
	var all []parser.ParserOp
	for _, r := range t {
		for _, o := range r {
			all = append(all, o...)
		}
	}
	all = make([]parser.ParserOp, 0, len(all)+1)
	n := table{}
	var rows []int
	for i := range t {
		rows = append(rows, i)
	}
	sort.Ints(rows)
	for _, i := range rows {
		if t[i] == nil {
			n[i] = nil
			continue
		}
		n[i] = map[byte][]parser.ParserOp{}
		for c := 0; c < 256; c++ {
			if o, ok := t[i][byte(c)]; ok {
				k := len(all)
				all = append(all, o...)
				n[i][byte(c)] = all[k:]
				if o == nil {
					n[i][byte(c)] = nil
				}
			}
		}
	}
	_ = append(all, parser.OpTerminal("the caller's"))
	return n
}

// packTree: the same tree of NewNode nodes, the lists of children in one array
func packTree(n cst.Node) (cst.Node, []cst.Node) {
	type job struct {
		n  cst.Node
		at int // of its children
	}
	jobs := []job{{n, 0}}
	var all []cst.Node
	for i := 0; i < len(jobs); i++ {
		jobs[i].at = len(jobs) - 1
		for _, c := range jobs[i].n.Childs() {
			jobs = append(jobs, job{c, 0})
		}
	}
	all = make([]cst.Node, len(jobs)) // jobs[k+1] is all[k], a spare one at the end
	all[len(all)-1] = cst.NewNode(7, 7, 7, nil)
	var root cst.Node
	for i := len(jobs) - 1; i >= 0; i-- {
		x := jobs[i].n
		var ch []cst.Node
		if l := len(x.Childs()); l > 0 {
			ch = all[jobs[i].at : jobs[i].at+l]
		}
		y := cst.NewNode(x.Type(), x.Pos(), x.End(), ch)
		if i == 0 {
			root = y
		} else {
			all[i-1] = y
		}
	}
	return root, all
}

var sideTexts = []string{
	"<a> ::= 'x' <b> | \"\\t\\n\"\n\n<b> ::= \"\" | '\"'",
	" <q>::=\"\\\"\"<q>|''",
	"<r> ::= <s> <t> <s> | 'a' 'b' '\\\\c'\n<s> ::= 'd' | 'e' | \"\"\n<t> ::= 'f' <r>",
	"<only> ::= ''",
}

func sideBySide(c *Ctx) {
	ws := makeWorlds(c.R)
	for _, w := range ws {
		if w.fresh(); w.gen != "" {
			continue
		}
		w.open()
		b := packBNF(w.b0)
		for k := 0; k < 2; k++ {
			if x, y := b.String(), w.b0.String(); x != y {
				c.Fail("a grammar with its slices side by side prints as %s, its copy as %s",
					clip(x), clip(y))
			}
			t, n, err := tablegen.FromGrammar(b)
			if err != nil {
				c.Fail("FromGrammar of a grammar with its slices side by side: %v\n%s", err,
					clipG(w.g))
			}
			if d := tableDiff(*t, w.gt0); d != "" || namesKey(*n) != w.gn0 {
				c.Fail("FromGrammar of a grammar with its slices side by side: %s, names %s\n%s",
					d, namesKey(*n), clipG(w.g))
			}
			all := b
			all.Rules = b.Rules[:len(b.Rules)+1]
			want := w.b0
			want.Rules = append(append([]bnf.Rule{}, w.b0.Rules...), bnf.Rule{
				Head: bnf.SymbolNonTerminal{Name: "the caller's"},
				Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{
					bnf.SymbolTerminal{Name: "the caller's"}}}}}})
			if d := sameGrammar(all, want); d != "" {
				c.Fail("String or FromGrammar changed arrays of the caller in which the "+
					"slices of its grammar lie side by side: %s\n%s", d, clipG(w.g))
			}
		}
		t := packTable(w.t0)
		p := parser.NewLL1Parser(t, w.n)
		for i, in := range w.ins {
			if got := outcomeOf(p.Parse(in)); got != w.want[i] {
				c.Fail("cells side by side: Parse of %s: %s\nby fresh objects: %s\n%s",
					clip(in), got, w.want[i], clipG(w.g))
			}
			if d := tableDiff(t, w.t0); d != "" {
				c.Fail("cells side by side: Parse of %s changed the table: %s\n%s",
					clip(in), d, clipG(w.g))
			}
			c.Eval(in != "", w.g.String(), in, "side by side")
		}
		c.Count("tables and grammars with slices side by side", 1)
	}

	// lists of operations
	ops := []parser.ParserOp{parser.OpTerminal("a"), parser.OpNonTerminal(1),
		parser.OpTerminal("b"), parser.OpNonTerminal(-2), parser.OpTerminal("c")}
	ops0 := append([]parser.ParserOp{}, ops...)
	i := c.Intn(len(ops) + 1)
	j := i + c.Intn(len(ops)+1-i)
	l := parser.NewParserOpList(ops[i:j]...)
	if !sameOps(l, ops0[i:j]) || !sameOps(ops, ops0) {
		c.Fail("NewParserOpList of operations %d to %d of %v: %v, leaving %v", i, j, ops0, l,
			ops)
	}
	l = append(l, parser.OpTerminal("d"))
	if !sameOps(ops, ops0) {
		c.Fail("appending to a result of NewParserOpList changed the caller's operations")
	}

	// bytes
	bs := make([]byte, 8)
	c.Read(bs)
	was := string(bs)
	i = c.Intn(9)
	j = i + c.Intn(9-i)
	s := byteset.New(bs[i:j]...)
	for _, x := range bs[i:j] {
		if !s.Contains(x) {
			c.Fail("New(% x) lacks %x", bs[i:j], x)
		}
	}
	if string(bs) != was {
		c.Fail("New of bytes %d to %d of % x left % x", i, j, was, bs)
	}

	// trees and bindings
	text := sideTexts[c.Intn(len(sideTexts))]
	want, ok := refReadBNF(text)
	if !ok {
		panic("text of the harness")
	}
	t0, _, err := mustMk(c, bnf.SelfGrammar()).Parse(text)
	if err != nil {
		c.Fail("%s not parsed: %v", clip(text), err)
	}
	tree, all := packTree(t0)
	dg, spare := digest(t0), digest(all[len(all)-1])
	k := 0
	cst.Walk(dropVisitor{&k}, tree)
	if k != len(all) {
		c.Fail("Walk over a tree of %d nodes, children side by side: %d visits", len(all), k)
	}
	b := fromcst.SelfCSTtoASTBindings()
	ints := []int{900, 25, 800, 11, 12, 700, 600}
	ints0 := append([]int{}, ints...)
	lo, hi := c.Intn(2), 2+c.Intn(2)
	b.IgnoreNodeTypes, b.SymbolTerminalTypes = ints[lo:hi], ints[3:5]
	if hi == 2 && c.chance(1, 2) {
		b.SymbolTerminalTypes = ints[2:5]
	}
	for k := 0; k < 2; k++ {
		a, err := b.ToAST(tree, text)
		if err != nil {
			c.Fail("ToAST with bindings and tree side by side: %v", err)
		}
		if d := sameGrammar(*a, want); d != "" {
			c.Fail("ToAST of %s with bindings and tree side by side: %s", clip(text), d)
		}
		if fmt.Sprint(ints) != fmt.Sprint(ints0) {
			c.Fail("ToAST changed the caller's array of node types from %v to %v", ints0, ints)
		}
		if digest(tree) != dg || digest(all[len(all)-1]) != spare {
			c.Fail("ToAST changed a tree whose children lie side by side")
		}
		// the grammar returned: appending to one list must not change another
		for i := range a.Rules {
			qs := a.Rules[i].Tail.Sequences
			for j := range qs {
				_ = append(qs[j].Symbols, bnf.SymbolTerminal{Name: "appended"})
			}
			_ = append(qs, bnf.Sequence{})
		}
		if d := sameGrammar(*a, want); d != "" {
			c.Fail("appending to lists of the grammar ToAST returned changed it: %s", d)
		}
	}
	g := bnf.SelfGrammar()
	for i := range g.Rules {
		qs := g.Rules[i].Tail.Sequences
		for j := range qs {
			_ = append(qs[j].Symbols, bnf.SymbolTerminal{Name: "appended"})
		}
		_ = append(qs, bnf.Sequence{})
	}
	if d := sameGrammar(g, bnf.SelfGrammar()); d != "" {
		c.Fail("appending to lists of a SelfGrammar changed it: %s", d)
	}
	c.Count("trees, bindings and lists side by side", 1)
	c.Eval(true, "lists", text, uint64(lo*100+hi), uint64(c.Idx))
}

// hookNode runs a hook when asked the k-th time, counting over the whole tree
type hookNode struct {
	n cst.Node
	h *hook
}

type hook struct {
	at   int
	f    func()
	over bool // the call it was given to has ended
	late *int
}

func (h *hook) tick() {
	if h.over {
		*h.late++
		return
	}
	if h.at--; h.at == 0 && h.f != nil {
		h.f()
	}
}

func (n hookNode) Type() int { n.h.tick(); return n.n.Type() }
func (n hookNode) Pos() int  { n.h.tick(); return n.n.Pos() }
func (n hookNode) End() int  { n.h.tick(); return n.n.End() }
func (n hookNode) Childs() []cst.Node {
	n.h.tick()
	ch := n.n.Childs()
	res := make([]cst.Node, len(ch))
	for i, x := range ch {
		res[i] = hookNode{x, n.h}
	}
	return res
}

// hookVisitor logs what it sees, and runs a hook at the k-th visit
type hookVisitor struct {
	log *[]string
	h   *hook
}

func (v hookVisitor) Visit(n cst.Node) cst.Visitor {
	*v.log = append(*v.log, fmt.Sprint(n.Type(), n.Pos(), n.End()))
	v.h.tick()
	return v
}

// hookSymbol is a symbol of the caller's own
type hookSymbol struct {
	s bnf.Symbol
	h *hook
}

func (s hookSymbol) Type() int      { return s.s.Type() }
func (s hookSymbol) String() string { s.h.tick(); return s.s.String() }

func preorder(n cst.Node) []string {
	res := []string{fmt.Sprint(n.Type(), n.Pos(), n.End())}
	for _, x := range n.Childs() {
		res = append(res, preorder(x)...)
	}
	return res
}

func brokenOff(c *Ctx) {
	type doc struct {
		text string
		g    bnf.Grammar
		str  string
		tree cst.Node
		pre  string
	}
	self := mustMk(c, bnf.SelfGrammar())
	var docs []doc
	for _, text := range sideTexts {
		g, ok := refReadBNF(text)
		if !ok {
			panic("text of the harness")
		}
		t, _, err := self.Parse(text)
		if err != nil {
			c.Fail("%s not parsed: %v", clip(text), err)
		}
		docs = append(docs, doc{text, g, g.String(), t, fmt.Sprint(preorder(t))})
	}
	pick := func() doc { return docs[c.Intn(len(docs))] }
	bind := fromcst.SelfCSTtoASTBindings()
	what := ""
	var trace []string
	note := func(s string) { what = s; trace = append(trace, s) }
	fail := func(f string, a ...any) {
		c.Fail("%s\ncalls: %q", fmt.Sprintf(f, a...), trace[max(0, len(trace)-8):])
	}
	// the calls, each with a hook in the caller's code
	walk := func(d doc, h *hook) {
		var log []string
		cst.Walk(hookVisitor{&log, h}, d.tree)
		if s := fmt.Sprint(log); s != d.pre {
			fail("%s: Walk visited %s, expected %s", what, clip(s), clip(d.pre))
		}
	}
	walkNodes := func(d doc, h *hook) {
		var log []string
		cst.Walk(hookVisitor{&log, &hook{}}, hookNode{d.tree, h})
		if s := fmt.Sprint(log); s != d.pre {
			fail("%s: Walk visited %s, expected %s", what, clip(s), clip(d.pre))
		}
	}
	toAST := func(d doc, h *hook) {
		a, err := bind.ToAST(hookNode{d.tree, h}, d.text)
		if err != nil {
			fail("%s: ToAST of %s: %v", what, clip(d.text), err)
		}
		if x := sameGrammar(*a, d.g); x != "" {
			fail("%s: ToAST of %s: %s", what, clip(d.text), x)
		}
	}
	print := func(d doc, h *hook) {
		g := cloneBNF(d.g)
		for i := range g.Rules {
			for _, q := range g.Rules[i].Tail.Sequences {
				for k := range q.Symbols {
					q.Symbols[k] = hookSymbol{q.Symbols[k], h}
				}
			}
		}
		if s := g.String(); s != d.str {
			fail("%s: String: %s, expected %s", what, clip(s), clip(d.str))
		}
	}
	parse := func(d doc, h *hook) {
		k := c.Intn(len(d.text) + 1)
		t, _, err := self.Parse(&hookReader{r: randReader(c.R, d.text), at: k,
			hook: func() { h.at = 1; h.tick() }})
		if err != nil {
			fail("%s: Parse of %s: %v", what, clip(d.text), err)
		}
		if digest(t) != digest(d.tree) {
			fail("%s: Parse of %s: another tree", what, clip(d.text))
		}
	}
	calls := []struct {
		name string
		f    func(doc, *hook)
		max  int
	}{{"Walk, Visit", walk, 80}, {"Walk, Childs", walkNodes, 200}, {"ToAST", toAST, 2000},
		{"String", print, 12}, {"Parse", parse, 1}}
	// run: nothing given to a call is asked anything once it has ended
	late := 0
	run := func(f func(doc, *hook), d doc, h *hook) {
		h.late = &late
		defer func() { h.over = true }()
		f(d, h)
		if late > 0 {
			fail("%s: visitors, nodes or symbols of a call before were asked again", what)
		}
	}
	for s := 0; s < 60; s++ {
		x, y := calls[c.Intn(len(calls))], calls[c.Intn(len(calls))]
		d, e := pick(), pick()
		at := 1 + c.Intn(x.max)
		if c.chance(1, 2) {
			at = 1 + at/10
		}
		switch c.Intn(3) {
		case 0: // broken off
			note(x.name + " broken off by a panic")
			func() {
				defer func() {
					if p := recover(); p != nil && p != "the caller's" {
						panic(p)
					}
				}()
				run(x.f, d, &hook{at: at, f: func() {
					c.Count("calls broken off by a panic of the caller's code", 1)
					panic("the caller's")
				}})
			}()
		case 1: // one call within another
			note(x.name + " with " + y.name + " in it")
			run(x.f, d, &hook{at: at, f: func() {
				c.Count("calls within calls", 1)
				run(y.f, e, &hook{})
			}})
		case 2:
			note(x.name)
			run(x.f, d, &hook{})
		}
	}
	for _, d := range docs {
		for _, x := range calls {
			note(x.name + " at the end")
			run(x.f, d, &hook{})
		}
	}
	c.Eval(true, "broken off", uint64(c.Idx))
}
