package mon

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

type table = map[int]map[byte][]parser.ParserOp

const (
	tLiteral = -1
	tNothing = -2
)

// mk: table and parser of a grammar through the code under test
func mk(b bnf.Grammar) (table, map[int]string, parser.LL1Parser, error) {
	t, n, err := tablegen.FromGrammar(b)
	if err != nil {
		return nil, nil, nil, err
	}
	return *t, *n, parser.NewLL1Parser(*t, *n), nil
}

// mustMk: for self grammar and the like; the failure is that of the property
func mustMk(c *Ctx, b bnf.Grammar) parser.LL1Parser {
	_, _, p, err := mk(b)
	if err != nil {
		c.Fail("no table for a grammar which is LL(1): %v\n%s", err, b.String())
	}
	return p
}

// fromText: BNF text to AST through the whole front end
func frontEnd() (func(text string) (*bnf.Grammar, error), error) {
	_, _, p, err := mk(bnf.SelfGrammar())
	if err != nil {
		return nil, err
	}
	bind := fromcst.SelfCSTtoASTBindings()
	return func(text string) (*bnf.Grammar, error) {
		t, _, err := p.Parse(text)
		if err != nil {
			return nil, err
		}
		return bind.ToAST(t, text)
	}, nil
}

// validTree: is root the derivation tree of in, by the rules of g alone.
// A rule node with an empty span holds a single _nothing node.
func validTree(g *Gram, ref *Ref, in string, root cst.Node) (int, error) {
	nodes := 0
	if root == nil {
		return 0, fmt.Errorf("no tree")
	}
	if root.Type() != 0 || root.Pos() != 0 || root.End() != len(in) {
		return 0, fmt.Errorf("root is type %d span %d..%d, input has %d bytes",
			root.Type(), root.Pos(), root.End(), len(in))
	}
	st := []cst.Node{root}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		nodes++
		t := n.Type()
		ch := n.Childs()
		id := fmt.Sprintf("node type %d span %d..%d", t, n.Pos(), n.End())
		if t < 0 || t >= len(g.Rules) {
			return nodes, fmt.Errorf("%s: not a rule", id)
		}
		if n.Pos() == n.End() {
			nodes++
			if !ref.nullable[t] {
				return nodes, fmt.Errorf("%s: empty, rule can not be", id)
			}
			if len(ch) != 1 || ch[0].Type() != tNothing ||
				ch[0].Pos() != n.Pos() || ch[0].End() != n.Pos() ||
				len(ch[0].Childs()) != 0 {
				return nodes, fmt.Errorf("%s: empty node without its single "+
					"_nothing child: %d children", id, len(ch))
			}
			continue
		}
		if len(ch) == 0 || ch[0] == nil {
			return nodes, fmt.Errorf("%s: no children", id)
		}
		at := n.Pos()
		for i, k := range ch {
			if k == nil {
				return nodes, fmt.Errorf("%s: child %d is nil", id, i)
			}
			if k.Pos() != at || k.End() < at || k.End() > len(in) {
				return nodes, fmt.Errorf("%s: child %d (type %d) span %d..%d, "+
					"expected to begin at %d", id, i, k.Type(), k.Pos(), k.End(), at)
			}
			at = k.End()
		}
		if at != n.End() {
			return nodes, fmt.Errorf("%s: children end at %d", id, at)
		}
		match := false
		for _, a := range g.Rules[t].Alts {
			if len(a) != len(ch) {
				continue
			}
			ok := true
			for i, s := range a {
				if s.T {
					ok = ch[i].Type() == tLiteral && len(ch[i].Childs()) == 0 &&
						in[ch[i].Pos():ch[i].End()] == s.S
				} else {
					ok = ch[i].Type() == s.N
				}
				if !ok {
					break
				}
			}
			if ok {
				match = true
				for i := len(a) - 1; i >= 0; i-- {
					if a[i].T {
						nodes++
					} else {
						st = append(st, ch[i])
					}
				}
				break
			}
		}
		if !match {
			ts := []int{}
			for i, k := range ch {
				if i > 12 {
					break
				}
				ts = append(ts, k.Type())
			}
			return nodes, fmt.Errorf("%s: children of types %v are no "+
				"alternative of the rule", id, ts)
		}
	}
	return nodes, nil
}

// digest: everything observable about a tree
func digest(root cst.Node) uint64 {
	h := fnv.New64a()
	var b [32]byte
	put := func(k int, v int) {
		for i := 0; i < 8; i++ {
			b[k*8+i] = byte(uint64(v) >> (8 * uint(i)))
		}
	}
	st := []cst.Node{root}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if n == nil {
			h.Write([]byte{0xff})
			continue
		}
		ch := n.Childs()
		put(0, n.Type())
		put(1, n.Pos())
		put(2, n.End())
		put(3, len(ch))
		h.Write(b[:])
		for i := len(ch) - 1; i >= 0; i-- {
			st = append(st, ch[i])
		}
	}
	return h.Sum64()
}

// outcome of a Parse call as one comparable value
type outcome struct {
	ok    bool
	tree  uint64
	names string
	err   string
}

func namesKey(m map[int]string) string {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%d:%q,", k, m[k])
	}
	return s
}

func outcomeOf(t cst.Node, n *map[int]string, err error) outcome {
	o := outcome{ok: err == nil}
	if err != nil {
		o.err = err.Error()
	}
	if t != nil {
		o.tree = digest(t)
	}
	if n != nil {
		o.names = namesKey(*n)
	} else {
		o.names = "nil"
	}
	return o
}

func (o outcome) String() string {
	if len(o.names) > 200 {
		o.names = o.names[:200] + "..."
	}
	return fmt.Sprintf("{ok %v tree %x names %s err %q}", o.ok, o.tree, o.names,
		o.err)
}

// opsOf: what a cell of the table should hold for an alternative
func opsOf(a Alt) []parser.ParserOp {
	res := []parser.ParserOp{}
	for _, s := range a {
		if s.T {
			res = append(res, parser.OpTerminal(s.S))
		} else {
			res = append(res, parser.OpNonTerminal(s.N))
		}
	}
	return res
}

// refTable: the textbook table as the generator should produce it
func (r *Ref) table() table {
	t := table{}
	for i := range r.cells {
		row := map[byte][]parser.ParserOp{}
		for ai, a := range r.g.Rules[i].Alts {
			f, nu := r.altFirst(a)
			for c := 1; c < 256; c++ {
				if f.has(c) {
					row[byte(c)] = opsOf(a)
				}
			}
			if nu {
				for c := 1; c <= eosCol; c++ {
					if r.follow[i].has(c) {
						row[byte(c)] = []parser.ParserOp{} // eosCol is byte 0
					}
				}
			}
			_ = ai
		}
		t[i] = row
	}
	return t
}

func sameOps(a, b []parser.ParserOp) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

func tableDiff(got, want table) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d rows, expected %d", len(got), len(want))
	}
	for i, w := range want {
		g, ok := got[i]
		if !ok {
			return fmt.Sprintf("no row %d", i)
		}
		for c := 0; c < 256; c++ {
			x, okx := g[byte(c)]
			y, oky := w[byte(c)]
			if okx != oky {
				return fmt.Sprintf("row %d column %d: present %v, expected %v",
					i, c, okx, oky)
			}
			if !sameOps(x, y) {
				return fmt.Sprintf("row %d column %d: %v, expected %v", i, c, x, y)
			}
		}
	}
	return ""
}

func cloneTable(t table) table {
	if t == nil {
		return nil
	}
	n := table{}
	for i, r := range t {
		m := map[byte][]parser.ParserOp{}
		for c, o := range r {
			m[c] = append([]parser.ParserOp{}, o...)
		}
		n[i] = m
	}
	return n
}

func sameGrammar(a, b bnf.Grammar) string {
	if len(a.Rules) != len(b.Rules) {
		return fmt.Sprintf("%d rules and %d", len(a.Rules), len(b.Rules))
	}
	for i := range a.Rules {
		x, y := a.Rules[i], b.Rules[i]
		if x.Head != y.Head {
			return fmt.Sprintf("rule %d head %q and %q", i, x.Head.Name, y.Head.Name)
		}
		if len(x.Tail.Sequences) != len(y.Tail.Sequences) {
			return fmt.Sprintf("rule %d has %d alternatives and %d", i,
				len(x.Tail.Sequences), len(y.Tail.Sequences))
		}
		for j := range x.Tail.Sequences {
			p, q := x.Tail.Sequences[j].Symbols, y.Tail.Sequences[j].Symbols
			if len(p) != len(q) {
				return fmt.Sprintf("rule %d alternative %d has %d symbols and %d",
					i, j, len(p), len(q))
			}
			for k := range p {
				if p[k] != q[k] {
					return fmt.Sprintf("rule %d alternative %d symbol %d: %T%+q "+
						"and %T%+q", i, j, k, p[k], p[k], q[k], q[k])
				}
			}
		}
	}
	return ""
}

func cloneBNF(b bnf.Grammar) bnf.Grammar {
	var n bnf.Grammar
	for _, r := range b.Rules {
		x := bnf.Rule{Head: r.Head}
		for _, s := range r.Tail.Sequences {
			x.Tail.Sequences = append(x.Tail.Sequences,
				bnf.Sequence{Symbols: append([]bnf.Symbol(nil), s.Symbols...)})
		}
		n.Rules = append(n.Rules, x)
	}
	return n
}
