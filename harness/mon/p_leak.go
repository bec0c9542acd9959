package mon

// C20 finished calls hold on to nothing: live memory and goroutines over many
// calls, each with arguments of its own

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

func liveHeap() int64 {
	// pools are emptied by the second collection, finalizers run before the next
	for k := 0; k < 4; k++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func goroutines(most int) int {
	n := runtime.NumGoroutine()
	for k := 0; k < 300 && n > most; k++ {
		time.Sleep(10 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

const leakPhases = 5

// leaks runs call n times per phase, with numbers which do not come again, and
// judges what stays in use between the phases
func leaks(c *Ctx, what string, n int, call func(i int)) {
	var heap [leakPhases]int64
	var fds [leakPhases]int
	gor := 0
	dir, err := os.MkdirTemp(os.Getenv("LLV_TMP"), "leak")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", dir)
	defer os.Setenv("TMPDIR", old)
	i := 0
	for ph := 0; ph < leakPhases; ph++ {
		for k := 0; k < n; k++ {
			if i%16 == 5 {
				// by goroutines of their own as well
				done := make(chan any)
				go func() {
					defer func() { done <- recover() }()
					call(i)
				}()
				if x := <-done; x != nil {
					panic(x)
				}
			} else {
				call(i)
			}
			i++
		}
		if ph == 0 {
			// whatever is kept for good has been made by now
			time.Sleep(20 * time.Millisecond)
			gor = runtime.NumGoroutine()
		} else if g := goroutines(gor); g > gor {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.Fail("%s: %d goroutines after %d calls, %d after %d\n%s", what, g, i,
				gor, n, codeFrames(string(buf)))
		}
		heap[ph] = liveHeap()
		if l, err := os.ReadDir("/proc/self/fd"); err == nil {
			fds[ph] = len(l)
		}
	}
	last := leakPhases - 1
	per := int64(4)
	all := heap[last] - heap[0]
	end := heap[last] - heap[last-2]
	if all > per*int64(last*n)+50000 && end > per*int64(2*n) {
		c.Fail("%s: memory in use after each %d calls, all results dropped: %v "+
			"bytes, %d bytes per call", what, n, heap, all/int64(last*n))
	}
	if fds[last] > fds[1] && fds[last] > fds[last-1] && fds[last] > fds[0]+3 {
		c.Fail("%s: open files after each %d calls: %v", what, n, fds)
	}
	if l, _ := os.ReadDir(dir); len(l) > leakPhases {
		c.Fail("%s: %d files left in the directory for temporary files after %d calls, "+
			"%s among them", what, len(l), i, l[0].Name())
	}
	c.Max("open files", fds[last])
	c.Count("calls", i)
	c.Count("measurements of memory in use", leakPhases)
	c.Max("bytes in use", int(heap[last]))
	c.Eval(true, what, uint64(c.Idx))
	c.Sample("%s, %d calls: bytes in use %v, %d goroutines", what, i, heap, gor)
}

// panicReader panics once it has delivered its bytes
type panicReader struct {
	left int
	what string
}

func (r *panicReader) Read(p []byte) (int, error) {
	if r.left == 0 {
		panic(r.what)
	}
	r.left--
	p[0] = '['
	return 1, nil
}

// digitsGram: decimal numbers between brackets
func digitsGram() *Gram {
	g := &Gram{Kind: "digits", Rules: []Rule{{Name: "list"}, {Name: "more"},
		{Name: "digit"}}}
	g.Rules[0].Alts = []Alt{{tm("["), nt(2), nt(1), tm("]")}}
	g.Rules[1].Alts = []Alt{{nt(2), nt(1)}, {}}
	for d := '0'; d <= '9'; d++ {
		g.Rules[2].Alts = append(g.Rules[2].Alts, Alt{tm(string(d))})
	}
	return g
}

func init() {
	parse := func(c *Ctx) {
		g := digitsGram()
		t, names, p, err := mk(g.toBNF())
		if err != nil {
			c.Fail("no table: %v", err)
		}
		want := func(i int, src any, ok bool) {
			tr, n, err := p.Parse(src)
			if s := contract(tr, n, err); s != "" || (err == nil) != ok {
				c.Fail("call %d: %s, error %v", i, s, err)
			}
		}
		text := func(i int) string { return fmt.Sprintf("[%d]", 1000000+i) }
		n := 40000
		if c.Tier == "thorough" {
			n = 200000
		}
		switch c.Idx % 15 {
		case 0:
			leaks(c, "Parse of sentences", n, func(i int) { want(i, text(i), true) })
		case 1:
			leaks(c, "Parse of other texts", n, func(i int) {
				want(i, text(i)[:3+i%5], false)
				want(i, fmt.Sprintf("%dx", i), false)
			})
		case 2:
			leaks(c, "Parse of byte slices", n, func(i int) {
				want(i, []byte(text(i)), true)
			})
		case 3:
			leaks(c, "Parse of buffers", n, func(i int) {
				want(i, bytes.NewBufferString(text(i)), true)
			})
		case 4:
			leaks(c, "Parse of readers", n, func(i int) {
				want(i, strings.NewReader(text(i)), true)
				want(i, readerValue{strings.NewReader(text(i))}, true)
			})
		case 5:
			leaks(c, "Parse of failing readers", n, func(i int) {
				s := text(i)
				want(i, &farReader{left: i % 9, b: '[',
					err: &myErr{s}}, false)
				want(i, io.MultiReader(strings.NewReader(s[:i%len(s)]),
					&farReader{err: io.ErrUnexpectedEOF}), false)
			})
		case 6:
			leaks(c, "Parse with readers which panic", n, func(i int) {
				func() {
					defer func() { recover() }()
					p.Parse(&panicReader{left: i % 5, what: text(i)})
				}()
			})
		case 7:
			leaks(c, "Parse by a parser for each call", n, func(i int) {
				p = parser.NewLL1Parser(t, names)
				want(i, text(i), true)
			})
		case 8:
			leaks(c, "Parse by tables and names for each call", n/4, func(i int) {
				m := map[int]string{}
				for k, v := range names {
					m[k] = v + fmt.Sprint(i)
				}
				u := cloneTable(t)
				lit := fmt.Sprintf("!%d", i)
				u[2]['!'] = parser.NewParserOpList(parser.OpTerminal(lit))
				u[1]['!'] = u[1]['1']
				p = parser.NewLL1Parser(u, m)
				want(i, text(i)[:3]+lit+"]", true)
				want(i, text(i)+lit, false)
				want(i, text(i)[:3]+"!+]", false)
			})
		case 9:
			leaks(c, "Parse of sources it does not take", n, func(i int) {
				want(i, i, false)
				want(i, &i, false)
				want(i, fmt.Errorf("%d", i), false)
				want(i, nil, false)
			})
		case 10:
			leaks(c, "Parse of long sentences", n/40, func(i int) {
				want(i, "["+strings.Repeat(fmt.Sprint(i), 200)+"]", true)
			})
		case 13:
			leaks(c, "Parse of very long sources", 5, func(i int) {
				s := "[" + strings.Repeat(fmt.Sprint(1000+i), 20000) + "]"
				want(i, s, true)
				want(i, []byte(s[1:]), false)
				want(i, strings.NewReader(s[:len(s)-1]), false)
				want(i, bytes.NewBufferString(s+"]"), false)
				want(i, strings.NewReader(s), true)
				want(i, &farReader{left: 200000, b: '[', err: io.ErrClosedPipe}, false)
			})
		case 14:
			deep := mustMk(c, realGrams()[5].toBNF())
			d := newDeriver(realGrams()[5])
			leaks(c, "Parse of nested sentences", n/20, func(i int) {
				s, _ := d.sentence(c.R, 40+i%200)
				want(i, text(i), true)
				if _, _, err := deep.Parse(s); err != nil {
					c.Fail("%s: %v", s, err)
				}
				if _, _, err := deep.Parse(s + fmt.Sprint(i)); err == nil {
					c.Fail("%s: no error", s+fmt.Sprint(i))
				}
			})
		case 12:
			leaks(c, "Parse of texts damaged at other places", n/80, func(i int) {
				s := "[" + strings.Repeat("7", i+1)
				want(i, s+"x", false)
				want(i, s, false)
				want(i, s+"]]", false)
			})
		case 11:
			empty := parser.NewLL1Parser(nil, nil)
			other := parser.NewLL1Parser(table{0: {
				'[':  {parser.OpTerminal("["), parser.OpNonTerminal(7)},
				'e':  {parser.OpTerminal("e"), parser.OpNonTerminal(-2), parser.OpNonTerminal(3)},
				'u':  {parser.OpTerminal("u"), parser.OpNonTerminal(-3)},
				'r':  {parser.OpTerminal("r"), parser.OpNonTerminal(3)},
				'x':  {parser.OpTerminal("x1")},
				'y':  {},
				'\r': {parser.OpNonTerminal(-2)}}, 3: {}},
				map[int]string{3: "three"})
			noStart := parser.NewLL1Parser(table{1: {}}, names)
			leaks(c, "Parse by tables with holes", n/4, func(i int) {
				if _, _, err := empty.Parse(text(i)); err == nil {
					c.Fail("an empty table parses")
				}
				if _, _, err := noStart.Parse(text(i)); err == nil {
					c.Fail("a table without start parses")
				}
				for _, pre := range []string{"[", "e", "e\n", "e\r", "e\r\n", "u", "r",
					"x", "x1", "y", "\r", "\r\n"} {
					if _, _, err := other.Parse(pre + text(i)); err == nil {
						c.Fail("a table with holes parses %q", pre+text(i))
					}
				}
			})
		}
	}
	gen := func(c *Ctx) {
		n := 6000
		if c.Tier == "thorough" {
			n = 30000
		}
		g := digitsGram()
		named := func(i int) bnf.Grammar {
			b := g.toBNF()
			for k := range b.Rules {
				nm := fmt.Sprintf("%s-%d", b.Rules[k].Head.Name, i)
				for _, r := range b.Rules {
					for _, s := range r.Tail.Sequences {
						for j, x := range s.Symbols {
							if x == (bnf.SymbolNonTerminal{Name: b.Rules[k].Head.Name}) {
								s.Symbols[j] = bnf.SymbolNonTerminal{Name: nm}
							}
						}
					}
				}
				b.Rules[k].Head.Name = nm
			}
			for _, q := range b.Rules[2].Tail.Sequences {
				q.Symbols[0] = bnf.SymbolTerminal{
					Name: q.Symbols[0].(bnf.SymbolTerminal).Name + fmt.Sprint(i, "\"")}
			}
			return b
		}
		switch c.Idx % 6 {
		case 0:
			leaks(c, "FromGrammar", n, func(i int) {
				if _, _, err := tablegen.FromGrammar(named(i)); err != nil {
					c.Fail("no table: %v", err)
				}
			})
		case 1:
			one := g.toBNF()
			leaks(c, "FromGrammar of the same grammar", n, func(i int) {
				if _, _, err := tablegen.FromGrammar(one); err != nil {
					c.Fail("no table: %v", err)
				}
			})
		case 2:
			leaks(c, "FromGrammar of grammars without a table", n, func(i int) {
				b := named(i)
				s := &b.Rules[2].Tail.Sequences
				more := func(x ...bnf.Symbol) {
					*s = append(*s, bnf.Sequence{Symbols: x})
				}
				other := bnf.SymbolTerminal{Name: fmt.Sprint("z", i)}
				switch i % 11 {
				case 0:
					b.Rules = append(b.Rules, b.Rules[0])
				case 1:
					*s = append(*s, (*s)[0])
				case 2:
					more(other, bnf.SymbolNonTerminal{Name: fmt.Sprint("not there ", i)})
				case 3:
					more(other, bnf.SymbolTerminal{})
				case 4:
					more(other, bnf.SymbolNothing{})
				case 5:
					more(other, bnf.SymbolTerminal{Name: fmt.Sprint("\x00", i)})
				case 6:
					more()
				case 7:
					more(other, nil)
				case 8:
					more(b.Rules[2].Head)
				case 9: // conflicts by what follows
					b.Rules[1].Tail.Sequences = append(b.Rules[1].Tail.Sequences,
						bnf.Sequence{Symbols: []bnf.Symbol{bnf.SymbolNothing{}}})
				case 10:
					b.Rules[1].Tail.Sequences = append([]bnf.Sequence{{Symbols: []bnf.Symbol{
						bnf.SymbolTerminal{Name: "]"}}}}, b.Rules[1].Tail.Sequences...)
				}
				if _, _, err := tablegen.FromGrammar(b); err == nil {
					c.Fail("a table")
				}
			})
		case 3:
			leaks(c, "String of grammars", n, func(i int) {
				b := named(i)
				if b.String() == "" || b.Rules[0].String() == "" {
					c.Fail("no text")
				}
			})
		case 4:
			leaks(c, "the self grammar and its bindings", n, func(i int) {
				b := bnf.SelfGrammar()
				b.Rules[i%len(b.Rules)].Head.Name = "mine"
				x := fromcst.SelfCSTtoASTBindings()
				x.EscapeMapping[fmt.Sprint(i)] = "mine"
			})
		case 5:
			leaks(c, "sets of bytes", 2*n, func(i int) {
				s := byteset.New(byte(i), byte(i>>8), byte(i*7), byte(i/3))
				s.Add(byte(i >> 16))
				u := s.Union(byteset.New(byte(i%255), byte(i%253), byte(i%251)))
				u.Remove(byte(i))
				if _ = u.String() + s.String() + string(u.Bytes()); s.Len() == 0 {
					c.Fail("an empty set")
				}
			})
		}
	}
	front := func(c *Ctx) {
		n := 4000
		if c.Tier == "thorough" {
			n = 20000
		}
		p := mustMk(c, bnf.SelfGrammar())
		bind := fromcst.SelfCSTtoASTBindings()
		text := func(i int) string {
			return fmt.Sprintf("<a> ::= \"t%d\" <b-%d> | ''\n<b-%d> ::= '\\t%d' | \"\\\\n\"",
				i, i, i, i)
		}
		switch c.Idx % 4 {
		case 0:
			leaks(c, "the front end", n, func(i int) {
				t, _, err := p.Parse(text(i))
				if err != nil {
					c.Fail("%v", err)
				}
				if _, err = bind.ToAST(t, text(i)); err != nil {
					c.Fail("%v", err)
				}
			})
		case 1:
			t, _, err := p.Parse(text(0))
			if err != nil {
				c.Fail("%v", err)
			}
			leaks(c, "ToAST of the same tree", n, func(i int) {
				if _, err = bind.ToAST(t, text(0)); err != nil {
					c.Fail("%v", err)
				}
			})
		case 2:
			leaks(c, "ToAST by bindings for each call, failing", n, func(i int) {
				t, _, err := p.Parse(text(i))
				if err != nil {
					c.Fail("%v", err)
				}
				b := fromcst.SelfCSTtoASTBindings()
				b.IgnoreNodeTypes = append(b.IgnoreNodeTypes, 1000+i)
				delete(b.EscapeMapping, "t")
				if _, err = b.ToAST(t, text(i)); err == nil {
					c.Fail("an escape without mapping is taken")
				}
				b = fromcst.SelfCSTtoASTBindings()
				b.RuleTailType = 1000 + i
				if _, err = b.ToAST(t, text(i)); err == nil {
					c.Fail("rules without tails are taken")
				}
				b = fromcst.SelfCSTtoASTBindings()
				b.SymbolNonTerminalType, b.SymbolTerminalTypes = -5-i, []int{-6 - i}
				b.RuleHeadType = 18
				if _, err = b.ToAST(t, text(i)); err == nil {
					c.Fail("symbols without types are taken")
				}
				b.RuleHeadType = 1000 + i
				if _, err = b.ToAST(t, text(i)); err == nil {
					c.Fail("rules without heads are taken")
				}
			})
		case 3:
			t, _, err := p.Parse(text(0))
			if err != nil {
				c.Fail("%v", err)
			}
			leaks(c, "Walk and NewNode", 8*n, func(i int) {
				x := cst.NewNode(i, i, i+1, []cst.Node{t, cst.NewNode(-1, i, i, nil)})
				k, s := 0, 0
				cst.Walk(countVisitor{&k, 0, &s}, x)
				if k < 3 {
					c.Fail("%d nodes visited", k)
				}
			})
		}
	}
	register(&Prop{ID: "C20", Level: "exploration",
		Rule: "An evaluation is a long run of calls of one kind, each with " +
			"arguments that differ from all others, whose results are dropped: " +
			"live memory (after collections), goroutines, open files and temporary " +
			"files are measured five times, " +
			"after as many calls each. All are non-trivial; distinct by kind and case.",
		Need: map[string]int64{"calls": 2000000, "measurements of memory in use": 100},
		Families: []Family{
			{Name: "parse", Quick: 15, Thorough: 60, Run: parse},
			{Name: "generate", Quick: 6, Thorough: 24, Run: gen},
			{Name: "front", Quick: 4, Thorough: 16, Run: front},
		}})
}
