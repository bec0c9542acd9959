package mon

// C09 history independence and ownership

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// world: a grammar with inputs and what fresh objects make of them
type world struct {
	g    *Gram
	ins  []string
	want []outcome
	gen  string // error of generation, "" for none
	b    bnf.Grammar
	b0   bnf.Grammar
	t    table
	t0   table
	n    map[int]string
	n0   string
	gn0  string // the names as generated
	gt0  table  // the table as generated
	p    parser.LL1Parser
	h    *hand        // the parser's table is made by hand
	drop map[int]bool // names the parser is not given
	noNm bool         // nor any
	bi   []string     // names of the built in types it is given
}

// make: table, names and parser of objects of their own
func (w *world) make(b bnf.Grammar) (table, map[int]string, parser.LL1Parser, error) {
	tp, np, err := tablegen.FromGrammar(b)
	if err != nil {
		return nil, nil, nil, err
	}
	t, n := *tp, *np
	w.gt0, w.gn0 = cloneTable(t), namesKey(n)
	if w.h != nil {
		t = w.h.table()
	}
	for i := range w.drop {
		delete(n, i)
	}
	for i, s := range w.bi {
		n[-1-i] = s
	}
	if w.noNm {
		n = nil
	}
	return t, n, parser.NewLL1Parser(t, n), nil
}

// makeWorlds: uses the generator of the harness only
func makeWorlds(r R) []*world {
	var ws []*world
	for k := 2 + r.Intn(3); k > 0; k-- {
		var g *Gram
		switch r.Intn(5) {
		case 0:
			gs := realGrams()
			g = gs[r.Intn(len(gs))]
		case 1:
			g = tweak(r, randLL1(r))
		default:
			g = randLL1(r)
		}
		if r.chance(1, 3) && len(ws) > 0 {
			// alike: same names, other rules
			o := ws[len(ws)-1].g
			g = g.clone()
			for i := range g.Rules {
				g.Rules[i].Name = fmt.Sprintf("r%d", i)
			}
			o2 := o.clone()
			for i := range o2.Rules {
				o2.Rules[i].Name = fmt.Sprintf("r%d", i)
			}
			ws[len(ws)-1].g = o2
		}
		w := &world{g: g}
		for _, in := range inputs(r, g, newDeriver(g), 3, 3, 1, 40) {
			w.ins = append(w.ins, in.s)
		}
		if r.chance(1, 4) {
			h := randTable(r)
			var ins []string
			for k := 0; k < 40 && len(ins) < 5; k++ {
				if in := h.input(r); !h.run(in, nil).runaway {
					ins = append(ins, in)
				}
			}
			if len(ins) > 0 {
				w.h, w.ins = h, ins
			}
		}
		w.drop = map[int]bool{}
		for i := range g.Rules {
			if r.chance(1, 6) {
				w.drop[i] = true
			}
		}
		if r.chance(1, 2) {
			w.drop = nil
		}
		w.noNm = r.chance(1, 15)
		switch r.Intn(6) {
		case 0:
			w.bi = []string{"_literal", "_nothing"} // as Parse returns them
		case 1:
			w.bi = []string{"mine", "_nothing"}
		}
		ws = append(ws, w)
	}
	// the inputs of one world are inputs of the others too
	for i, w := range ws {
		o := ws[(i+1)%len(ws)]
		in := o.ins[r.Intn(len(o.ins))]
		if w.h == nil || !w.h.run(in, nil).runaway {
			w.ins = append(w.ins, in)
		}
	}
	return ws
}

// fresh: outcomes through objects made for this call
func (w *world) fresh() {
	w.want = nil
	w.gen = ""
	for _, in := range w.ins {
		_, _, p, err := w.make(w.g.toBNF())
		if err != nil {
			w.gen = err.Error()
			return
		}
		w.want = append(w.want, outcomeOf(p.Parse(in)))
	}
}

func (w *world) open() {
	w.b = w.g.toBNF()
	w.b0 = cloneBNF(w.b)
	w.t, w.n, w.p, _ = w.make(w.b)
	w.t0 = cloneTable(w.t)
	w.n0 = namesKey(w.n)
}

type kept struct {
	what string
	same func() string
}

func quiet() string {
	for _, f := range []*os.File{os.Stdout, os.Stderr} {
		fi, err := f.Stat()
		if err == nil && fi.Mode().IsRegular() && fi.Size() > 0 {
			b, _ := os.ReadFile("/proc/self/fd/1")
			if f == os.Stderr {
				b, _ = os.ReadFile("/proc/self/fd/2")
			}
			return fmt.Sprintf("%s holds %s", f.Name(), clip(string(b)))
		}
	}
	return ""
}

// hookReader runs the hook once, in the first Read after at bytes
type hookReader struct {
	r    io.Reader
	at   int
	n    int
	hook func()
}

func (h *hookReader) Read(p []byte) (int, error) {
	if h.n >= h.at && h.hook != nil {
		f := h.hook
		h.hook = nil
		f()
	}
	n, err := h.r.Read(p)
	h.n += n
	return n, err
}

// lookalike makes b malformed so that it prints as before, or nearly so
func lookalike(r R, b *bnf.Grammar) string {
	ri := r.Intn(len(b.Rules))
	switch r.Intn(3) {
	case 0:
		for i := range b.Rules {
			for _, q := range b.Rules[(i+ri)%len(b.Rules)].Tail.Sequences {
				if _, ok := q.Symbols[0].(bnf.SymbolNothing); ok {
					q.Symbols[0] = bnf.SymbolTerminal{}
					return "an empty terminal for the empty string"
				}
			}
		}
	case 1:
		for i := range b.Rules {
			l := b.Rules[(i+ri)%len(b.Rules)].Tail.Sequences
			for j, q := range l {
				for k := 1; k < len(q.Symbols); k++ {
					x, ok := q.Symbols[k-1].(bnf.SymbolNonTerminal)
					y, ok2 := q.Symbols[k].(bnf.SymbolNonTerminal)
					if !ok || !ok2 {
						continue
					}
					x.Name += "> <" + y.Name
					var n []bnf.Symbol
					n = append(n, q.Symbols[:k-1]...)
					n = append(n, x)
					l[j].Symbols = append(n, q.Symbols[k+1:]...)
					return "two non terminals written as one"
				}
			}
		}
	case 2:
		b.Rules = append(b.Rules, b.Rules[ri])
		return "a rule twice"
	}
	return ""
}

type dropVisitor struct{ n *int }

func (d dropVisitor) Visit(cst.Node) cst.Visitor { *d.n++; return d }

// history: random calls and caller mutations; every result against the fresh one
func history(c *Ctx, ws []*world, steps int) {
	var keep []kept
	var trace []string
	note := func(f string, a ...any) {
		trace = append(trace, fmt.Sprintf(f, a...))
	}
	fail := func(f string, a ...any) {
		tr := trace
		if len(tr) > 14 {
			tr = tr[len(tr)-14:]
		}
		c.Fail("%s\nlast calls:\n  %s\ngrammars:\n%s", fmt.Sprintf(f, a...),
			strings.Join(tr, "\n  "), func() string {
				s := ""
				for _, w := range ws {
					s += clipG(w.g)
				}
				return s
			}())
	}
	self := bnf.SelfGrammar()
	selfText := self.String()
	selfBind := fromcst.SelfCSTtoASTBindings()
	_, _, selfP, err := mk(bnf.SelfGrammar())
	if err != nil {
		c.Fail("no table for the self grammar: %v", err)
	}
	texts := []string{selfText, "<a> ::= 'x' <b> | \"\\t\\n\"\n\n<b> ::= \"\" | '\"'",
		" <q>::=\"\\\"\"<q>|''"}
	for _, w := range ws {
		if w.gen == "" {
			w.open()
		}
	}
	pick := func() *world {
		for k := 0; k < 8; k++ {
			if w := ws[c.Intn(len(ws))]; w.gen == "" {
				return w
			}
		}
		return nil
	}
	checkArgs := func(w *world, after string) {
		if d := tableDiff(w.t, w.t0); d != "" {
			fail("%s changed the table given to the parser: %s", after, d)
		}
		if s := namesKey(w.n); s != w.n0 {
			fail("%s changed the names given to the parser: %s, were %s", after, s,
				w.n0)
		}
		if d := sameGrammar(w.b, w.b0); d != "" {
			fail("%s changed the grammar: %s", after, d)
		}
	}
	room := make([]byte, 256)
	roomBuf, roomRd := &bytes.Buffer{}, &bytes.Reader{}
	var roomG bnf.Grammar
	roomBind := fromcst.SelfCSTtoASTBindings()
	for s := 0; s < steps; s++ {
		w := pick()
		op := c.Intn(23)
		if w == nil {
			op = 11 + c.Intn(4)
		}
		switch op {
		case 0, 1, 2, 3, 4, 5: // parse
			i := c.Intn(len(w.ins))
			in := w.ins[i]
			var src any = in
			switch c.Intn(8) {
			case 0:
				src = []byte(in)
			case 1:
				src = bytes.NewBufferString(in)
			case 2:
				src = randReader(c.R, in)
			case 3: // the caller's objects of the calls before, refilled
				if len(in) <= len(room) {
					src = room[:copy(room, in)]
				}
			case 4:
				roomBuf.Reset()
				roomBuf.WriteString(in)
				src = roomBuf
			case 5:
				roomRd.Reset([]byte(in))
				src = roomRd
			}
			note("Parse(%T %s) on %p", src, clip(in), w)
			t, n, err := w.p.Parse(src)
			if got := outcomeOf(t, n, err); got != w.want[i] {
				fail("Parse of %s: %s\nby fresh objects: %s", clip(in), got, w.want[i])
			}
			if b, ok := src.([]byte); ok {
				if string(b) != in {
					fail("Parse changed its source %s to %s", clip(in), clip(string(b)))
				}
				if c.chance(1, 2) { // the caller reuses its slice
					for k := range b {
						b[k] = 'Z'
					}
				}
			}
			checkArgs(w, "Parse")
			want := w.want[i]
			names := ""
			if n != nil {
				if c.chance(1, 2) {
					note("caller changes the names returned")
					for k := range *n {
						switch c.Intn(3) {
						case 0:
							delete(*n, k)
						case 1:
							(*n)[k] = "changed"
						}
					}
					(*n)[-5] = "added"
				}
				names = namesKey(*n)
			}
			keep = append(keep, kept{"result of Parse of " + clip(in), func() string {
				if t != nil && digest(t) != want.tree {
					return "tree changed"
				}
				if n != nil && namesKey(*n) != names {
					return "names changed to " + namesKey(*n) + " from " + names
				}
				if err != nil && err.Error() != want.err {
					return "error changed to " + err.Error()
				}
				return ""
			}})
			c.Count("parses", 1)
			if err != nil {
				c.Count("failed parses", 1)
			}
			c.Eval(len(in) > 0, w.g.String(), in, uint64(s))
		case 6: // failing sources
			note("Parse of a failing source on %p", w)
			var src any
			if c.chance(1, 2) {
				_, src = unsupportedKinds[c.Intn(len(unsupportedKinds))]()
			} else {
				in := w.ins[c.Intn(len(w.ins))]
				rd := randReader(c.R, in)
				rd.failAt, rd.err = c.Intn(len(in)+1), &myErr{"read error"}
				src = rd
			}
			if _, _, err := w.p.Parse(src); err == nil {
				fail("no error from a failing source")
			}
			checkArgs(w, "Parse of a failing source")
			c.Count("failing sources", 1)
		case 7: // generate again, spoil the result
			note("FromGrammar of the grammar of %p, result spoiled", w)
			t, n, err := tablegen.FromGrammar(w.b)
			if err != nil {
				fail("FromGrammar: %v, worked before", err)
			}
			if d := tableDiff(*t, w.gt0); d != "" {
				fail("FromGrammar again: %s", d)
			}
			if namesKey(*n) != w.gn0 {
				fail("FromGrammar again: names %s, were %s", namesKey(*n), w.gn0)
			}
			checkArgs(w, "FromGrammar")
			for i, row := range *t {
				for b, ops := range row {
					for k := range ops {
						ops[k] = parser.OpTerminal("spoiled")
					}
					if c.chance(1, 2) {
						delete(row, b)
					}
				}
				if c.chance(1, 2) {
					delete(*t, i)
				}
			}
			for k := range *n {
				(*n)[k] = "spoiled"
			}
			checkArgs(w, "spoiling another generation's result")
			c.Count("generations", 1)
		case 8: // generate from a copy, then spoil the grammar
			note("FromGrammar of a copy of %p's grammar, copy spoiled", w)
			b := cloneBNF(w.b0)
			t, n, err := tablegen.FromGrammar(b)
			if err != nil {
				fail("FromGrammar: %v, worked before", err)
			}
			for i := range b.Rules {
				b.Rules[i].Head.Name += "spoiled"
				for _, sq := range b.Rules[i].Tail.Sequences {
					for k := range sq.Symbols {
						sq.Symbols[k] = bnf.SymbolTerminal{Name: "spoiled"}
					}
				}
			}
			if d := tableDiff(*t, w.gt0); d != "" {
				fail("changing the grammar after generation changed the table: %s", d)
			}
			i := c.Intn(len(w.ins))
			if w.h != nil {
				*t = w.h.table()
			}
			for i := range w.drop {
				delete(*n, i)
			}
			if w.noNm {
				*n = nil
			}
			got := outcomeOf(parser.NewLL1Parser(*t, *n).Parse(w.ins[i]))
			if got != w.want[i] {
				fail("Parse of %s with a table whose grammar was changed later: %s\n"+
					"expected %s", clip(w.ins[i]), got, w.want[i])
			}
			c.Count("generations", 1)
		case 9: // a second parser over the same maps
			note("second parser over the table of %p", w)
			p := parser.NewLL1Parser(w.t, w.n)
			i := c.Intn(len(w.ins))
			if got := outcomeOf(p.Parse(w.ins[i])); got != w.want[i] {
				fail("Parse of %s by a second parser: %s\nexpected %s",
					clip(w.ins[i]), got, w.want[i])
			}
			if c.chance(1, 2) {
				w.p = p
			}
			checkArgs(w, "a second parser")
		case 10: // printing
			note("String of the grammar of %p", w)
			x := w.b.String()
			y := w.b0.String()
			if x != y {
				fail("the grammar prints as %s, its copy as %s", clip(x), clip(y))
			}
			checkArgs(w, "String")
		case 11: // generation which fails
			note("FromGrammar of a broken grammar")
			var b bnf.Grammar
			switch c.Intn(3) {
			case 0:
				b = randGram(c.R, 4, 3, 3).toBNF()
			case 1:
				b = bnf.SelfGrammar()
				b.Rules = b.Rules[:c.Intn(len(b.Rules))]
			case 2:
				b = ws[c.Intn(len(ws))].g.toBNF()
				b.Rules[0].Tail.Sequences[0].Symbols = []bnf.Symbol{
					bnf.SymbolNonTerminal{Name: "no such rule"}}
			}
			b0 := cloneBNF(b)
			tablegen.FromGrammar(b)
			if d := sameGrammar(b, b0); d != "" {
				fail("FromGrammar changed its grammar: %s", d)
			}
			c.Count("generations", 1)
		case 12: // self grammar, spoiled by the caller
			note("SelfGrammar, spoiled")
			x := bnf.SelfGrammar()
			if d := sameGrammar(x, self); d != "" {
				fail("SelfGrammar differs from the one before: %s", d)
			}
			for i := range x.Rules {
				x.Rules[i].Head.Name = "spoiled"
				for j := range x.Rules[i].Tail.Sequences {
					sq := &x.Rules[i].Tail.Sequences[j]
					for k := range sq.Symbols {
						sq.Symbols[k] = bnf.SymbolNothing{}
					}
					sq.Symbols = append(sq.Symbols[:0], sq.Symbols...)
				}
				x.Rules[i].Tail.Sequences = x.Rules[i].Tail.Sequences[:1]
			}
			if d := sameGrammar(bnf.SelfGrammar(), self); d != "" ||
				self.String() != selfText {
				fail("changing one SelfGrammar value changed another: %s", d)
			}
			c.Count("self grammars spoiled", 1)
		case 13: // bindings
			note("bindings, spoiled")
			x := fromcst.SelfCSTtoASTBindings()
			if !reflect.DeepEqual(x, selfBind) {
				fail("bindings %v, were %v", x, selfBind)
			}
			for i := range x.IgnoreNodeTypes {
				x.IgnoreNodeTypes[i] = -1
			}
			for i := range x.SymbolTerminalTypes {
				x.SymbolTerminalTypes[i] = 99
			}
			for k := range x.EscapeMapping {
				x.EscapeMapping[k] = "spoiled"
			}
			x.EscapeMapping["q"] = "Q"
			if y := fromcst.SelfCSTtoASTBindings(); !reflect.DeepEqual(y, selfBind) {
				fail("changing one bindings value changed another: %v, were %v", y,
					selfBind)
			}
			c.Count("bindings spoiled", 1)
		case 14, 15: // front end
			text := texts[c.Intn(len(texts))]
			note("ToAST of %s", clip(text))
			want, ok := refReadBNF(text)
			if !ok {
				panic("text of the harness")
			}
			t, _, err := selfP.Parse(text)
			if err != nil {
				fail("%s no longer parsed: %v", clip(text), err)
			}
			dg := digest(t)
			b := fromcst.SelfCSTtoASTBindings()
			for k := c.Intn(6); k > 0; k-- {
				b.IgnoreNodeTypes = append(b.IgnoreNodeTypes, 26+c.Intn(2000))
			}
			c.Shuffle(len(b.IgnoreNodeTypes), func(i, j int) {
				l := b.IgnoreNodeTypes
				l[i], l[j] = l[j], l[i]
			})
			b0 := fromcst.SelfCSTtoASTBindings()
			b0.IgnoreNodeTypes = append([]int{}, b.IgnoreNodeTypes...)
			a1, err := b.ToAST(t, text)
			if err != nil {
				fail("ToAST of %s: %v", clip(text), err)
			}
			if !reflect.DeepEqual(b, b0) {
				fail("ToAST changed its bindings: %v, were %v", b, b0)
			}
			if digest(t) != dg {
				fail("ToAST changed its tree")
			}
			if d := sameGrammar(*a1, want); d != "" {
				fail("ToAST of %s: %s", clip(text), d)
			}
			a1c := cloneBNF(*a1)
			// a failing one in between
			if c.chance(1, 3) {
				b2 := fromcst.SelfCSTtoASTBindings()
				b2.EscapeMapping = map[string]string{}
				b2.ToAST(t, text)
			}
			a2, err := b.ToAST(t, text)
			if err != nil {
				fail("second ToAST of the same tree: %v", err)
			}
			for i := range a2.Rules {
				a2.Rules[i].Head.Name = "spoiled"
				for _, sq := range a2.Rules[i].Tail.Sequences {
					for k := range sq.Symbols {
						sq.Symbols[k] = nil
					}
				}
			}
			if d := sameGrammar(*a1, a1c); d != "" {
				fail("changing one AST changed another: %s", d)
			}
			keep = append(keep, kept{"AST of " + clip(text), func() string {
				if d := sameGrammar(*a1, a1c); d != "" {
					return d
				}
				if digest(t) != dg {
					return "tree changed"
				}
				return ""
			}})
			c.Count("ASTs", 1)
		case 17: // a grammar changed in place by the caller
			// the same slices and arrays, other content
			note("FromGrammar and String of a grammar value refilled from %p", w)
			src := cloneBNF(w.b0)
			for len(roomG.Rules) < len(src.Rules) {
				roomG.Rules = append(roomG.Rules, bnf.Rule{})
			}
			roomG.Rules = roomG.Rules[:len(src.Rules)]
			for i, r := range src.Rules {
				d := &roomG.Rules[i]
				d.Head = r.Head
				d.Tail.Sequences = d.Tail.Sequences[:0]
				for j, q := range r.Tail.Sequences {
					if j < cap(d.Tail.Sequences) {
						d.Tail.Sequences = d.Tail.Sequences[:j+1]
						d.Tail.Sequences[j].Symbols = append(
							d.Tail.Sequences[j].Symbols[:0], q.Symbols...)
					} else {
						d.Tail.Sequences = append(d.Tail.Sequences, q)
					}
				}
			}
			if d := sameGrammar(roomG, w.b0); d != "" {
				panic(d)
			}
			if c.chance(1, 2) {
				if x, y := roomG.String(), w.b0.String(); x != y {
					fail("refilled grammar value prints as %s, its copy as %s", clip(x),
						clip(y))
				}
			}
			t, n, err := tablegen.FromGrammar(roomG)
			if err != nil {
				fail("FromGrammar of a refilled grammar value: %v", err)
			}
			if d := tableDiff(*t, w.gt0); d != "" {
				fail("FromGrammar of a refilled grammar value: %s", d)
			}
			if namesKey(*n) != w.gn0 {
				fail("FromGrammar of a refilled grammar value: names %s, expected %s",
					namesKey(*n), w.gn0)
			}
			if d := sameGrammar(roomG, w.b0); d != "" {
				fail("FromGrammar changed its grammar: %s", d)
			}
			c.Count("refilled grammars", 1)
		case 18: // the same tree and bindings, another text or mapping
			text := texts[c.Intn(len(texts))]
			b := []byte(text)
			for i := range b { // letters stay letters, but for the escapes
				if isLetter(b[i]) && b[i-1] != '\\' {
					b[i] = c.pick(letters)
				}
			}
			text2 := string(b)
			note("ToAST of one tree with %s and %s", clip(text), clip(text2))
			t, _, err := selfP.Parse(text)
			if err != nil {
				fail("%s no longer parsed: %v", clip(text), err)
			}
			for k := 0; k < 3; k++ {
				x := text
				if k == 1 {
					x = text2
				}
				tab := []string{"\t", "<tab>", ""}[c.Intn(3)]
				roomBind.EscapeMapping["t"] = tab
				a, err := roomBind.ToAST(t, x)
				if err != nil {
					fail("ToAST: %v", err)
				}
				want, ok := refReadBNF(x)
				if !ok {
					panic("text of the harness " + x)
				}
				for i := range want.Rules {
					for _, q := range want.Rules[i].Tail.Sequences {
						for y := range q.Symbols {
							if m, ok := q.Symbols[y].(bnf.SymbolTerminal); ok {
								m.Name = strings.ReplaceAll(m.Name, "\t", tab)
								q.Symbols[y] = m
								if m.Name == "" {
									q.Symbols[y] = bnf.SymbolNothing{}
								}
							}
						}
					}
				}
				if d := sameGrammar(*a, want); d != "" {
					fail("ToAST with text %s and %q for \\t: %s", clip(x), tab, d)
				}
			}
			c.Count("ASTs of one tree with other arguments", 3)
		case 21: // a grammar which looks like another, but is malformed
			b := cloneBNF(w.b0)
			what := lookalike(c.R, &b)
			if what == "" {
				continue
			}
			note("FromGrammar of the grammar of %p with %s", w, what)
			if t, n, err := tablegen.FromGrammar(b); err == nil || t != nil || n != nil {
				fail("FromGrammar of a grammar with %s: error %v\n%s", what, err, clipB(b))
			}
			c.Count("malformed grammars looking like another", 1)
		case 22: // lists of operations
			l := []parser.ParserOp{parser.OpTerminal("ab"), parser.OpNonTerminal(1),
				parser.OpTerminal("c")}
			l = l[:1+c.Intn(3)]
			a := parser.NewParserOpList(l...)
			t := table{0: {'a': a, 'c': {}}, 1: {'d': {parser.OpTerminal("d")}}}
			in := "abdc"[:1+len(l)]
			fr := outcomeOf(parser.NewLL1Parser(t, nil).Parse(in))
			if !fr.ok {
				fail("%s not parsed by a table of lists: %s", in, fr)
			}
			note("the caller changes the operations given to NewParserOpList")
			for i := range l {
				l[i] = parser.OpTerminal("spoiled")
			}
			if got := outcomeOf(parser.NewLL1Parser(t, nil).Parse(in)); got != fr {
				fail("changing the operations given to NewParserOpList changed the "+
					"list made of them: %s, was %s", got, fr)
			}
			c.Count("lists of operations", 1)
		case 19: // a source which panics, the caller recovers
			in := w.ins[c.Intn(len(w.ins))]
			k := c.Intn(len(in) + 1)
			note("Parse of a reader of %s on %p which panics after %d", clip(in), w, k)
			func() {
				defer func() { recover() }()
				w.p.Parse(&hookReader{r: randReader(c.R, in), at: k,
					hook: func() { panic("reader") }})
			}()
			checkArgs(w, "Parse of a reader which panics")
			c.Count("readers which panic", 1)
		case 20: // a source which itself parses
			i, k := c.Intn(len(w.ins)), c.Intn(len(w.ins))
			in := w.ins[i]
			at := c.Intn(len(in) + 1)
			note("Parse of a reader of %s on %p which parses %s after %d", clip(in), w,
				clip(w.ins[k]), at)
			var inner outcome
			done := false
			t, n, err := w.p.Parse(&hookReader{r: randReader(c.R, in), at: at,
				hook: func() {
					inner = outcomeOf(w.p.Parse(w.ins[k]))
					done = true
				}})
			if got := outcomeOf(t, n, err); got != w.want[i] {
				fail("Parse of a reader of %s which parses %s after %d: %s\n"+
					"by fresh objects: %s", clip(in), clip(w.ins[k]), at, got, w.want[i])
			}
			if done && inner != w.want[k] {
				fail("Parse of %s within a Read: %s\nby fresh objects: %s",
					clip(w.ins[k]), inner, w.want[k])
			}
			checkArgs(w, "Parse of a reader which parses")
			c.Count("parses within a Read", 1)
		case 16: // walk
			i := c.Intn(len(w.ins))
			t, _, _ := w.p.Parse(w.ins[i])
			if t != nil {
				note("Walk")
				k := 0
				cst.Walk(dropVisitor{&k}, t)
				if digest(t) != w.want[i].tree {
					fail("Walk changed the tree")
				}
			}
		}
		if c.chance(1, 12) && len(keep) > 0 {
			k := keep[c.Intn(len(keep))]
			if d := k.same(); d != "" {
				fail("%s: %s", k.what, d)
			}
		}
	}
	for _, k := range keep {
		if d := k.same(); d != "" {
			fail("%s: %s", k.what, d)
		}
		c.Count("kept results unchanged at the end", 1)
	}
	if s := quiet(); s != "" {
		fail("output written: %s", s)
	}
	c.Count("calls in histories", steps)
	c.Sample("%d calls, the last: %s", steps,
		strings.Join(trace[max(0, len(trace)-5):], "; "))
}

// coldOutcomes: what another process, which does nothing else, answers
func coldOutcomes(c *Ctx, k int) ([]string, error) {
	self, _ := os.Executable()
	cmd := exec.Command(self, "cold", "-prop", "C09", "-index", fmt.Sprint(c.Idx),
		"-seed", fmt.Sprint(c.Seed), "-k", fmt.Sprint(k))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%v %s", err, se.String())
	}
	var res []string
	err := json.Unmarshal(so.Bytes(), &res)
	return res, err
}

func fullOutcomes(w *world) []string {
	// quoted: JSON would replace what is not UTF-8
	res := []string{fmt.Sprintf("generation: %q", w.gen)}
	for _, o := range w.want {
		res = append(res, fmt.Sprintf("%v %x %q %q", o.ok, o.tree, o.names, o.err))
	}
	return res
}

func coldMain(seed int64, idx, k int) {
	r := newR(caseSeed(seed, "C09", "cold", idx))
	ws := makeWorlds(r)
	ws[k].fresh()
	b, _ := json.Marshal(fullOutcomes(ws[k]))
	os.Stdout.Write(b)
}

func init() {
	register(&Prop{ID: "C09", Level: "exploration",
		Rule: "A case is a random history of calls on several grammars, parsers, " +
			"tables, bindings and trees, with failing calls and with the caller " +
			"changing what was returned to it or passed in earlier. An " +
			"evaluation compares one result with that of fresh objects; " +
			"arguments are compared with snapshots, kept results again at the " +
			"end, and outcomes with those of a new process that does nothing " +
			"else. Non-trivial: a Parse of a non-empty input; distinct by " +
			"grammar, input and position in the history.",
		Need: map[string]int64{"parses": 20000, "failed parses": 2000,
			"failing sources": 1000, "generations": 2000, "ASTs": 1000,
			"kept results unchanged at the end":  20000,
			"worlds compared with a new process": 100, "refilled grammars": 1000,
			"tables and grammars with slices side by side":     500,
			"trees, bindings and lists side by side":           500,
			"calls broken off by a panic of the caller's code": 1000,
			"calls within calls":                               1000,
			"calls with arguments changed in place":            5000,
			"ASTs of one tree with other arguments":            1000},
		Families: []Family{
			{Name: "histories", Quick: 2500, Thorough: 60000, Run: func(c *Ctx) {
				ws := makeWorlds(c.R)
				for _, w := range ws {
					w.fresh()
				}
				history(c, ws, 20+c.Intn(100))
			}},
			{Name: "cold", Quick: 240, Thorough: 2000, Run: func(c *Ctx) {
				ws := makeWorlds(c.R)
				for _, w := range ws {
					w.fresh()
				}
				for k, w := range ws {
					cold, err := coldOutcomes(c, k)
					if err != nil {
						panic(err)
					}
					here := fullOutcomes(w)
					if len(here) != len(cold) {
						c.Fail("%d outcomes, %d in a new process\n%s", len(here),
							len(cold), clipG(w.g))
					}
					for i := range here {
						if here[i] != cold[i] {
							in := ""
							if i > 0 {
								in = w.ins[i-1]
							}
							c.Fail("input %s: %s\nin a new process: %s\n%s", clip(in),
								here[i], cold[i], clipG(w.g))
						}
						c.Eval(i > 0 && w.ins[i-1] != "", w.g.String(), "cold",
							uint64(i))
					}
					c.Count("worlds compared with a new process", 1)
				}
			}},
			{Name: "arrays", Quick: 800, Thorough: 20000, Run: sideBySide},
			{Name: "broken", Quick: 400, Thorough: 10000, Run: brokenOff},
			{Name: "large", Quick: 240, Thorough: 4000, Run: largeApart},
			{Name: "changed", Quick: 4000, Thorough: 100000, Run: changedInPlace},
			{Name: "many", Quick: 8, Thorough: 32, Run: func(c *Ctx) {
				// as many calls as counters of 16 bits do not count
				n := 1<<16 + 2000
				if c.Tier == "thorough" {
					n *= 4
				}
				switch c.Idx % 4 {
				case 0, 1:
					var w *world
					for w == nil || w.gen != "" || len(w.ins) < 3 {
						for _, w = range makeWorlds(c.R) {
							if w.fresh(); w.gen == "" && len(w.ins) >= 3 {
								break
							}
						}
					}
					w.open()
					var ks []int
					for k := range w.ins {
						if len(w.ins[k]) < 60 {
							ks = append(ks, k)
						}
					}
					if len(ks) == 0 {
						return
					}
					for i := 0; i < n; i++ {
						k := ks[i%len(ks)]
						if i > n/2 {
							k = ks[c.Intn(len(ks))]
						}
						if got := outcomeOf(w.p.Parse(w.ins[k])); got != w.want[k] {
							c.Fail("call %d, input %s: %s\nthe first time: %s\n%s", i,
								clip(w.ins[k]), got, w.want[k], clipG(w.g))
						}
					}
				case 2:
					g := digitsGram()
					b := g.toBNF()
					want, names, _, err := mk(b)
					if err != nil {
						c.Fail("no table: %v", err)
					}
					for i := 0; i < n; i++ {
						t, nm, err := tablegen.FromGrammar(b)
						if err != nil {
							c.Fail("call %d of FromGrammar: %v", i, err)
						}
						if d := tableDiff(*t, want); d != "" || namesKey(*nm) != namesKey(names) {
							c.Fail("call %d of FromGrammar: %s", i, d)
						}
					}
				case 3:
					text := "<a> ::= 'x\\t' <b> | \"\"\n<b> ::= \"c\\\"\""
					t, _, err := mustMk(c, bnf.SelfGrammar()).Parse(text)
					if err != nil {
						c.Fail("%v", err)
					}
					want, ok := refReadBNF(text)
					if !ok {
						panic("text of the harness")
					}
					bind := fromcst.SelfCSTtoASTBindings()
					str := want.String()
					for i := 0; i < n; i++ {
						a, err := bind.ToAST(t, text)
						if err != nil {
							c.Fail("call %d of ToAST: %v", i, err)
						}
						if d := sameGrammar(*a, want); d != "" {
							c.Fail("call %d of ToAST: %s", i, d)
						}
						if s := a.String(); s != str {
							c.Fail("call %d of String: %q, the first time %q", i, s, str)
						}
						k := 0
						cst.Walk(dropVisitor{&k}, t)
						if k < 10 {
							c.Fail("call %d of Walk: %d nodes", i, k)
						}
					}
				}
				c.Count("calls in long runs of one kind", n)
				c.Eval(true, "many", uint64(c.Idx))
			}},
			{Name: "long", Quick: 24, Thorough: 200, Run: func(c *Ctx) {
				ws := makeWorlds(c.R)
				for _, w := range ws {
					w.fresh()
				}
				history(c, ws, 6000)
			}},
		}})
}
