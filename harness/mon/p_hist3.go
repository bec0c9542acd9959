package mon

// C09: arguments changed in place by the caller between one call and the next

import (
	"fmt"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// editInPlace changes one thing in the arrays of b and says what
func editInPlace(r R, b *bnf.Grammar) string {
	for k := 0; k < 30; k++ {
		ri := r.Intn(len(b.Rules))
		ru := &b.Rules[ri]
		if len(ru.Tail.Sequences) == 0 {
			continue
		}
		qi := r.Intn(len(ru.Tail.Sequences))
		q := &ru.Tail.Sequences[qi]
		if len(q.Symbols) == 0 {
			continue
		}
		si := r.Intn(len(q.Symbols))
		switch r.Intn(12) {
		case 0, 1, 2: // a terminal's text
			if t, ok := q.Symbols[si].(bnf.SymbolTerminal); ok && t.Name != "" {
				x := []byte(t.Name)
				i := r.Intn(len(x))
				x[i] = r.pick("abcxyz019+")
				if string(x) == t.Name {
					x = append(x, 'w')
				}
				q.Symbols[si] = bnf.SymbolTerminal{Name: string(x)}
				return "another text of a terminal"
			}
		case 3: // a non terminal becomes another
			if _, ok := q.Symbols[si].(bnf.SymbolNonTerminal); ok && len(b.Rules) > 1 {
				q.Symbols[si] = b.Rules[r.Intn(len(b.Rules))].Head
				return "another non terminal"
			}
		case 4: // two rules change places
			rj := r.Intn(len(b.Rules))
			if rj != ri {
				b.Rules[ri], b.Rules[rj] = b.Rules[rj], b.Rules[ri]
				return "two rules change places"
			}
		case 5: // two alternatives
			qj := r.Intn(len(ru.Tail.Sequences))
			if qj != qi {
				s := ru.Tail.Sequences
				s[qi], s[qj] = s[qj], s[qi]
				return "two alternatives change places"
			}
		case 6: // two symbols
			sj := r.Intn(len(q.Symbols))
			if sj != si {
				q.Symbols[si], q.Symbols[sj] = q.Symbols[sj], q.Symbols[si]
				return "two symbols change places"
			}
		case 7: // a head, with all its uses
			old := ru.Head.Name
			ru.Head.Name = old + "2"
			for i := range b.Rules {
				for _, q := range b.Rules[i].Tail.Sequences {
					for j := range q.Symbols {
						if n, ok := q.Symbols[j].(bnf.SymbolNonTerminal); ok &&
							n.Name == old {
							q.Symbols[j] = ru.Head
						}
					}
				}
			}
			return "a rule renamed"
		case 8: // malformed
			switch r.Intn(5) {
			case 0:
				q.Symbols[si] = bnf.SymbolNonTerminal{Name: "no such rule"}
			case 1:
				q.Symbols[si] = bnf.SymbolTerminal{}
			case 2:
				q.Symbols[si] = bnf.SymbolTerminal{Name: "\x00"}
			case 3:
				ru.Head.Name += "?"
			case 4:
				if len(b.Rules) < 2 {
					continue
				}
				b.Rules[(ri+1)%len(b.Rules)].Head.Name = ru.Head.Name
			}
			return "a defect"
		case 9: // shorter
			if len(q.Symbols) > 1 {
				q.Symbols = q.Symbols[:len(q.Symbols)-1]
				return "a symbol less"
			}
		case 10:
			if len(ru.Tail.Sequences) > 1 {
				ru.Tail.Sequences = ru.Tail.Sequences[:len(ru.Tail.Sequences)-1]
				return "an alternative less"
			}
		case 11:
			if len(q.Symbols) == 1 {
				if _, ok := q.Symbols[0].(bnf.SymbolNothing); ok {
					q.Symbols[0] = bnf.SymbolTerminal{Name: "q"}
				} else {
					q.Symbols[0] = bnf.SymbolNothing{}
				}
				return "nothing for something"
			}
		}
	}
	return ""
}

// editTable changes one thing in the maps and slices of t; parsing with it ends
// if it did before
func editTable(r R, t table, n map[int]string) string {
	var rows []int
	for i := 0; i < 1000; i++ {
		if _, ok := t[i]; ok {
			rows = append(rows, i)
		}
	}
	if len(rows) == 0 {
		return ""
	}
	row := rows[r.Intn(len(rows))]
	var cells []byte
	for i := 0; i < 256; i++ {
		if _, ok := t[row][byte(i)]; ok {
			cells = append(cells, byte(i))
		}
	}
	switch r.Intn(7) {
	case 0:
		delete(t, row)
		return fmt.Sprintf("row %d deleted", row)
	case 1:
		delete(t, 0)
		return "row 0 deleted"
	case 2, 3:
		if len(cells) > 0 {
			b := cells[r.Intn(len(cells))]
			delete(t[row], b)
			return fmt.Sprintf("cell %d %d deleted", row, b)
		}
	case 4:
		if len(cells) > 0 {
			b := cells[r.Intn(len(cells))]
			for i := range t[row][b] {
				t[row][b][i] = parser.OpTerminal(string([]byte{b, 'z'}[:1+r.Intn(2)]))
			}
			return fmt.Sprintf("cell %d %d overwritten", row, b)
		}
	case 5:
		if n != nil {
			n[row] = "renamed"
			return fmt.Sprintf("name of row %d", row)
		}
	case 6:
		if n != nil {
			delete(n, row)
			return fmt.Sprintf("no name of row %d", row)
		}
	}
	return ""
}

// editNode: a node the caller may change
type editNode struct {
	typ, pos, end int
	kids          []cst.Node
}

func (n *editNode) Type() int          { return n.typ }
func (n *editNode) Pos() int           { return n.pos }
func (n *editNode) End() int           { return n.end }
func (n *editNode) Childs() []cst.Node { return n.kids }

func editable(n cst.Node, all *[]*editNode) *editNode {
	e := &editNode{typ: n.Type(), pos: n.Pos(), end: n.End()}
	*all = append(*all, e)
	for _, k := range n.Childs() {
		e.kids = append(e.kids, editable(k, all))
	}
	return e
}

func changedInPlace(c *Ctx) {
	switch c.Idx % 4 {
	case 0, 1:
		// grammars
		var g *Gram
		switch c.Intn(3) {
		case 0:
			gs := realGrams()
			g = gs[c.Intn(len(gs))]
		case 1:
			g = tweak(c.R, randLL1(c.R))
		default:
			g = randLL1(c.R)
		}
		b := cloneBNF(g.toBNF())
		_ = b.String()
		tablegen.FromGrammar(b)
		did := "nothing"
		for k := 0; k < 6; k++ {
			if did = editInPlace(c.R, &b); did == "" {
				return
			}
			if c.chance(1, 2) { // every other time one of them comes first
				got, want := b.String(), cloneBNF(b).String()
				if got != want {
					c.Fail("String of a grammar printed before, changed in place "+
						"since then (%s): %s\nits copy: %s", did, clip(got), clip(want))
				}
			}
			t, n, err := tablegen.FromGrammar(b)
			t2, n2, err2 := tablegen.FromGrammar(cloneBNF(b))
			if (err == nil) != (err2 == nil) {
				c.Fail("FromGrammar of a grammar passed before, changed in place since "+
					"then (%s): error %v, for its copy %v\n%s", did, err, err2, clipB(b))
			}
			if err == nil {
				if d := tableDiff(*t, *t2); d != "" || namesKey(*n) != namesKey(*n2) {
					c.Fail("FromGrammar of a grammar passed before, changed in place "+
						"since then (%s): %s, names %s, of its copy %s\n%s", did, d,
						namesKey(*n), namesKey(*n2), clipB(b))
				}
			} else if t != nil || n != nil {
				c.Fail("FromGrammar of a changed grammar: error %v, table %v, names %v",
					err, t != nil, n != nil)
			}
			got, want := b.String(), cloneBNF(b).String()
			if got != want {
				c.Fail("String of a grammar passed before, changed in place since then "+
					"(%s): %s\nits copy: %s", did, clip(got), clip(want))
			}
			i := c.Intn(len(b.Rules))
			if x, y := b.Rules[i].String(), cloneBNF(b).Rules[i].String(); x != y {
				c.Fail("String of a rule changed in place (%s): %s, of its copy %s", did,
					clip(x), clip(y))
			}
			c.Count("calls with arguments changed in place", 4)
			c.Eval(true, g.String(), did, uint64(k))
		}
	case 2:
		// tables and names, under a new parser each time
		g := randLL1(c.R)
		t, n, _, err := mk(g.toBNF())
		if err != nil {
			return
		}
		ins := inputs(c.R, g, newDeriver(g), 4, 3, 1, 40)
		for k := 0; k < 6; k++ {
			in := ins[c.Intn(len(ins))].s
			did := ""
			if k > 0 {
				did = editTable(c.R, t, n)
			}
			var src any = in
			if c.chance(1, 3) {
				src = []byte(in)
			}
			got := outcomeOf(parser.NewLL1Parser(t, n).Parse(src))
			n2 := map[int]string{}
			for i, s := range n {
				n2[i] = s
			}
			want := outcomeOf(parser.NewLL1Parser(cloneTable(t), n2).Parse(in))
			if got != want {
				c.Fail("Parse of %s by a new parser over a table changed in place (%s): "+
					"%s\nover copies: %s\n%s", clip(in), did, got, want, clipG(g))
			}
			c.Count("calls with arguments changed in place", 1)
			c.Eval(in != "", g.String(), in, did)
		}
	case 3:
		// trees and bindings
		text := bnf.SelfGrammar().String()
		if c.chance(2, 3) {
			text = renderBNF(c.R, writableBNF(c.R))
		}
		p := mustMk(c, bnf.SelfGrammar())
		t, _, err := p.Parse(text)
		if err != nil {
			c.Fail("%s not parsed: %v", clip(text), err)
		}
		var all []*editNode
		root := editable(t, &all)
		b := fromcst.SelfCSTtoASTBindings()
		b.IgnoreNodeTypes = append(b.IgnoreNodeTypes, 1000)
		b.ToAST(root, text)
		for k := 0; k < 6; k++ {
			did := ""
			switch c.Intn(8) {
			case 0:
				for i, m := range all {
					if m.typ == 4 && c.chance(1, 2) { // a rule
						m.typ = 999
						did = fmt.Sprintf("type of node %d", i)
						break
					}
				}
			case 1, 2:
				for try := 0; try < 50; try++ {
					m := all[c.Intn(len(all))]
					if len(m.kids) > 1 {
						i, j := c.Intn(len(m.kids)), c.Intn(len(m.kids))
						m.kids[i], m.kids[j] = m.kids[j], m.kids[i]
						did = "children change places"
						break
					}
				}
			case 3:
				for try := 0; try < 50; try++ {
					m := all[c.Intn(len(all))]
					if len(m.kids) > 0 && m != root {
						m.kids = m.kids[:len(m.kids)-1]
						did = "a child less"
						break
					}
				}
			case 4:
				b.EscapeMapping["t"] = []string{"T", "", "\t", "\\"}[c.Intn(4)]
				did = "another mapping"
			case 5:
				delete(b.EscapeMapping, "n")
				did = "an escape less"
			case 6:
				i := c.Intn(len(b.IgnoreNodeTypes))
				b.IgnoreNodeTypes[i] = []int{25, 1000, 7, 9, 999}[c.Intn(5)]
				did = "another type ignored"
			case 7:
				x := b.SymbolTerminalTypes
				x[0], x[1] = x[1], x[0]
				if c.chance(1, 3) {
					x[c.Intn(2)] = 18
				}
				did = "terminal types changed"
			}
			got, err := b.ToAST(root, text)
			b2 := b
			b2.IgnoreNodeTypes = append([]int{}, b.IgnoreNodeTypes...)
			b2.SymbolTerminalTypes = append([]int{}, b.SymbolTerminalTypes...)
			b2.EscapeMapping = map[string]string{}
			for x, y := range b.EscapeMapping {
				b2.EscapeMapping[x] = y
			}
			var rest []*editNode
			want, err2 := b2.ToAST(editable(root, &rest), text)
			if (err == nil) != (err2 == nil) || (got == nil) != (want == nil) {
				c.Fail("ToAST after a change in place (%s): error %v, of copies %v\n%s",
					did, err, err2, clip(text))
			}
			if err == nil {
				if d := sameGrammar(*got, *want); d != "" {
					c.Fail("ToAST after a change in place (%s), against that of copies: "+
						"%s\n%s", did, d, clip(text))
				}
			}
			a, z := 0, 0
			cst.Walk(dropVisitor{&a}, root)
			cst.Walk(dropVisitor{&z}, editable(root, &rest))
			if a != z {
				c.Fail("Walk visits %d nodes of a changed tree, %d of its copy", a, z)
			}
			c.Count("calls with arguments changed in place", 2)
			c.Eval(true, text, did, uint64(k))
		}
	}
}
