package mon

// C21 printing, AST building and walking: resources linear in the size

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/cst"
)

// job: something to be done of a size, made ready before it is metered. It gives
// a function which says what is wrong with the result
type job func() func() string

type growJob struct {
	what string
	make func(c *Ctx, n int) job
}

func grammarOf(rules, alts, syms, name, term int, esc string) bnf.Grammar {
	var g bnf.Grammar
	head := func(i int) bnf.SymbolNonTerminal {
		s := fmt.Sprintf("r%d", i)
		return bnf.SymbolNonTerminal{Name: s + strings.Repeat("n", max(0, name-len(s)))}
	}
	tail := strings.Repeat(esc, term/len(esc))
	for i := 0; i < rules; i++ {
		r := bnf.Rule{Head: head(i)}
		for j := 0; j < alts; j++ {
			var q bnf.Sequence
			for k := 0; k < syms; k++ {
				if k%2 == 0 {
					q.Symbols = append(q.Symbols, bnf.SymbolTerminal{
						Name: fmt.Sprint("t", j) + tail})
				} else {
					q.Symbols = append(q.Symbols, head((i+k)%rules))
				}
			}
			r.Tail.Sequences = append(r.Tail.Sequences, q)
		}
		g.Rules = append(g.Rules, r)
	}
	return g
}

// growGrammars: grammars which grow in one direction each
var growGrammars = []struct {
	what string
	make func(n int) bnf.Grammar
}{
	{"rules", func(n int) bnf.Grammar { return grammarOf(n, 1, 2, 3, 1, "x") }},
	{"alternatives", func(n int) bnf.Grammar { return grammarOf(1, n, 1, 3, 1, "x") }},
	{"symbols", func(n int) bnf.Grammar { return grammarOf(1, 1, n, 3, 1, "x") }},
	{"bytes in a name", func(n int) bnf.Grammar { return grammarOf(1, 2, 3, 20*n, 1, "x") }},
	{"bytes in a terminal", func(n int) bnf.Grammar { return grammarOf(1, 1, 1, 3, 5*n, "x") }},
	{"escapes in a terminal", func(n int) bnf.Grammar {
		return grammarOf(1, 1, 1, 3, 2*n, "\t\"\\'")
	}},
	{"alternatives of rules", func(n int) bnf.Grammar {
		return grammarOf(n/20+1, 5, 4, 6, 4, "\"x")
	}},
}

// growTexts: texts of the notation likewise
var growTexts = []struct {
	what string
	make func(n int) string
}{
	{"blanks", func(n int) string {
		return "<a> ::= \"x\"" + strings.Repeat(" ", 4*n) + "| <a>"
	}},
	{"blank lines", func(n int) string {
		return "<a> ::= \"x\"\n" + strings.Repeat("\n", 4*n) + "<b> ::= \"x\""
	}},
	{"blank lines at the end", func(n int) string {
		return "<a> ::= \"x\"" + strings.Repeat("  \r\n", n) + "  "
	}},
}

func growJobs() []growJob {
	var res []growJob
	for _, k := range growGrammars {
		k := k
		res = append(res, growJob{"String of grammars with many " + k.what,
			func(c *Ctx, n int) job {
				g := k.make(n)
				size := 0
				for _, r := range g.Rules {
					size += len(r.Head.Name) + 6
				}
				return func() func() string {
					s := g.String()
					return func() string {
						if back, ok := refReadBNF(s); !ok || len(s) < size {
							return fmt.Sprintf("text of %d bytes, %s", len(s), clip(s))
						} else {
							return sameGrammar(back, g)
						}
					}
				}
			}})
	}
	toAST := func(c *Ctx, text string, want bnf.Grammar) job {
		t, _, err := mustMk(c, bnf.SelfGrammar()).Parse(text)
		if err != nil {
			c.Fail("text of %d bytes, %s: %v", len(text), clip(text), err)
		}
		bind := fromcst.SelfCSTtoASTBindings()
		return func() func() string {
			a, err := bind.ToAST(t, text)
			return func() string {
				if err != nil {
					return err.Error()
				}
				return sameGrammar(*a, want)
			}
		}
	}
	for _, k := range growGrammars {
		k := k
		res = append(res, growJob{"ToAST of grammars with many " + k.what,
			func(c *Ctx, n int) job {
				g := k.make(n)
				return toAST(c, renderBNF(c.R, g), g)
			}})
	}
	for _, k := range growTexts {
		k := k
		res = append(res, growJob{"ToAST of texts with many " + k.what,
			func(c *Ctx, n int) job {
				text := k.make(n)
				g, ok := refReadBNF(text)
				if !ok {
					panic("text of the harness: " + clip(text))
				}
				return toAST(c, text, g)
			}})
	}
	walk := func(t cst.Node, nodes int) job {
		return func() func() string {
			k := 0
			cst.Walk(dropVisitor{&k}, t)
			return func() string {
				if k != nodes {
					return fmt.Sprintf("%d of %d nodes visited", k, nodes)
				}
				return ""
			}
		}
	}
	leaf := cst.NewNode(1, 0, 0, nil)
	return append(res,
		growJob{"Walk of wide trees", func(c *Ctx, n int) job {
			ch := make([]cst.Node, 20*n)
			for i := range ch {
				ch[i] = cst.NewNode(1, i, i+1, nil)
			}
			return walk(cst.NewNode(0, 0, 20*n, ch), 20*n+1)
		}},
		growJob{"Walk of deep trees", func(c *Ctx, n int) job {
			t := leaf
			for i := 0; i < 5*n; i++ {
				t = cst.NewNode(i, 0, 0, []cst.Node{leaf, t, leaf})
			}
			return walk(t, 15*n+1)
		}},
		growJob{"Walk of lists", func(c *Ctx, n int) job {
			t := leaf
			for i := 0; i < 8*n; i++ {
				t = cst.NewNode(0, 0, 0, []cst.Node{leaf, t})
			}
			return walk(t, 16*n+1)
		}},
		growJob{"Walk of full trees", func(c *Ctx, n int) job {
			level := []cst.Node{}
			for i := 0; i < 10*n; i++ {
				level = append(level, leaf)
			}
			nodes := len(level)
			for len(level) > 1 {
				var up []cst.Node
				for i := 0; i < len(level); i += 3 {
					up = append(up, cst.NewNode(0, 0, 0, level[i:min(i+3, len(level))]))
				}
				level = up
				nodes += len(level)
			}
			return walk(level[0], nodes)
		}})
}

func init() {
	jobs := growJobs()
	get := func(c *Ctx, n int) (growJob, job, job) {
		k := jobs[c.Idx%len(jobs)]
		return k, k.make(c, n), k.make(c, 16*n)
	}
	register(&Prop{ID: "C21", Level: "exploration",
		Rule: "An evaluation compares the bytes allocated, or the processor time " +
			"of the thread used, by printing a grammar, building an AST or walking a " +
			"tree with those for one 16 times as large, grown in one direction " +
			"(rules, alternatives, symbols, bytes, escapes, blanks, depth, " +
			"width). Results are compared as well. All are non-trivial; distinct by " +
			"kind and size.",
		Need: map[string]int64{"allocation ratios": 60, "time ratios": 21},
		Families: []Family{
			{Name: "allocation", Quick: 4 * len(jobs), Thorough: 40 * len(jobs),
				Run: func(c *Ctx) {
					n := 600 + c.Intn(600)
					k, small, big := get(c, n)
					meas := func(f job) uint64 {
						var m0, m1 runtime.MemStats
						runtime.ReadMemStats(&m0)
						check := f()
						runtime.ReadMemStats(&m1)
						if s := check(); s != "" {
							c.Fail("%s, size %d: %s", k.what, n, s)
						}
						return m1.TotalAlloc - m0.TotalAlloc
					}
					a := meas(small)
					b := meas(big)
					if b > 3*17*a+(1<<20) {
						c.Fail("%s: size %d allocates %d bytes, size %d allocates %d", k.what,
							n, a, 16*n, b)
					}
					c.Count("allocation ratios", 1)
					c.Max("allocation growth x100 for 16x size", int(b*100/max(a, 1)))
					c.Max("size", 16*n)
					c.Eval(true, k.what, uint64(n))
					c.Sample("%s: size %d allocates %d bytes, 16 times it %d", k.what, n,
						a, b)
				}},
			{Name: "time", Quick: len(jobs), Thorough: 4 * len(jobs), Serial: true,
				Run: func(c *Ctx) {
					n := 1200
					k, small, big := get(c, n)
					runtime.LockOSThread()
					defer runtime.UnlockOSThread()
					meas := func(f job) int64 {
						runtime.GC()
						t := threadCPU()
						check := f()
						t = threadCPU() - t
						if s := check(); s != "" {
							c.Fail("%s: %s", k.what, s)
						}
						return t
					}
					a, b := int64(1<<62), int64(1<<62)
					for i := 0; i < 12; i++ {
						a = min(a, meas(small), meas(small))
						b = min(b, meas(big))
						if b < 90*a+int64(20*time.Millisecond) {
							c.Count("time ratios", 1)
							c.Max("time growth x100 for 16x size", int(b*100/max(a, 1)))
							c.Eval(true, k.what, "time")
							c.Sample("%s: %d us, 16 times as large %d us", k.what, a/1000,
								b/1000)
							return
						}
					}
					c.Fail("%s: size %d takes %d us of processor time, size %d takes %d us, "+
						"at best of 12 runs", k.what, n, a/1000, 16*n, b/1000)
				}},
		}})
}
