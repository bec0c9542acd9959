package mon

// C11 round trip, C12 front end, C18 bindings, C19 end to end

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

func clipB(b bnf.Grammar) string {
	s := ""
	for _, r := range b.Rules {
		s += fmt.Sprintf("<%s> ::=", r.Head.Name)
		for j, q := range r.Tail.Sequences {
			if j > 0 {
				s += " |"
			}
			for _, y := range q.Symbols {
				s += fmt.Sprintf(" %T%+q", y, y)
			}
		}
		s += "\n"
		if len(s) > 1500 {
			return s[:1500] + "..."
		}
	}
	return strings.ReplaceAll(s, "bnf.Symbol", "")
}

var sharedFE func(string) (*bnf.Grammar, error)

func fe(c *Ctx) func(string) (*bnf.Grammar, error) {
	if sharedFE == nil {
		f, err := frontEnd()
		if err != nil {
			c.Fail("no table for the self grammar: %v", err)
		}
		sharedFE = f
	}
	return sharedFE
}

func init() {
	// ---------------------------------------------------------------- C11
	trip := func(c *Ctx, b bnf.Grammar) {
		orig := cloneBNF(b)
		text := b.String()
		if n := strings.Count(text, "\n") + 1; n != len(b.Rules) {
			c.Fail("%d rules printed on %d lines: %s\n%s", len(b.Rules), n,
				clip(text), clipB(orig))
		}
		// a rule printed alone is its line
		ls := strings.Split(text, "\n")
		if i := c.Intn(len(ls)); b.Rules[i].String() != ls[i] {
			c.Fail("rule %d prints alone as %s, in the grammar as %s", i,
				clip(b.Rules[i].String()), clip(ls[i]))
		}
		want, ok := refReadBNF(text)
		if !ok {
			c.Fail("printed text is not in the notation: %s\n%s", clip(text),
				clipB(orig))
		}
		if d := sameGrammar(want, orig); d != "" {
			c.Fail("printed text denotes another grammar: %s\ntext %s\n%s", d,
				clip(text), clipB(orig))
		}
		got, err := fe(c)(text)
		if err != nil || got == nil {
			c.Fail("printed text not read back: %v\ntext %s\n%s", err, clip(text),
				clipB(orig))
		}
		if d := sameGrammar(*got, orig); d != "" {
			c.Fail("read back: %s\ntext %s\n%s", d, clip(text), clipB(orig))
		}
		if again := got.String(); again != text {
			c.Fail("printed again: %s\nfirst %s", clip(again), clip(text))
		}
		c.Count("grammars", 1)
		for _, r := range b.Rules {
			for _, sq := range r.Tail.Sequences {
				for _, s := range sq.Symbols {
					if t, ok := s.(bnf.SymbolTerminal); ok {
						c.Count("terminals", 1)
						d, q := strings.Contains(t.Name, "\""),
							strings.Contains(t.Name, "'")
						switch {
						case d && q:
							c.Count("terminals with both quotes", 1)
						case d:
							c.Count("terminals with double quotes", 1)
						case q:
							c.Count("terminals with single quotes", 1)
						}
						if strings.ContainsAny(t.Name, "\\\t\r\n") {
							c.Count("terminals to be escaped", 1)
						}
					}
				}
			}
		}
		c.Max("bytes of text", len(text))
		c.Eval(len(text) > 10, text)
		c.Sample("%s", clip(text))
	}
	sized := func(c *Ctx, kind, n int) {
		var b bnf.Grammar
		rule := func(syms ...bnf.Symbol) {
			b.Rules = append(b.Rules, bnf.Rule{
				Head: bnf.SymbolNonTerminal{Name: bnfName(c.R, 1+c.Intn(5))},
				Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: syms}}}})
		}
		switch kind {
		case 0: // one long terminal
			t := make([]byte, n)
			for i := range t {
				t[i] = c.pick("a\\\"'\n")
			}
			rule(bnf.SymbolTerminal{Name: string(t)})
		case 1: // many rules
			for i := 0; i < n; i++ {
				rule(bnf.SymbolTerminal{Name: c.bnfTerminal()})
			}
		case 2: // many symbols
			var sy []bnf.Symbol
			for i := 0; i < n; i++ {
				sy = append(sy, bnf.SymbolTerminal{Name: c.bnfTerminal()})
			}
			rule(sy...)
		case 3: // long name, many alternatives
			rule(bnf.SymbolNonTerminal{Name: bnfName(c.R, n)})
			t := &b.Rules[0].Tail
			for i := 0; i < n && i*n < 1<<21; i++ {
				t.Sequences = append(t.Sequences, t.Sequences[0])
			}
		}
		trip(c, b)
	}
	register(&Prop{ID: "C11", Level: "exploration",
		Rule: "A case is a grammar writable in the notation with terminals rich " +
			"in quotes, backslashes and control characters (all terminals of one " +
			"and two characters, and all short ones over the troublesome " +
			"characters, are enumerated). An evaluation prints it, reads the text " +
			"with the harness's reader and with the code's front end, compares " +
			"both with the original and prints again. Non-trivial: more than ten " +
			"bytes of text; distinct by text.",
		Need: map[string]int64{"grammars": 5000, "terminals with both quotes": 1000,
			"terminals with double quotes": 500, "terminals to be escaped": 1000,
			"example runs": 1},
		Families: []Family{
			{Name: "random", Quick: 40000, Thorough: 500000, Run: func(c *Ctx) {
				trip(c, writableBNF(c.R))
			}},
			{Name: "terminals", Quick: 150, Thorough: 150, Run: func(c *Ctx) {
				// all terminals of 1 and 2 characters of the notation, and all of
				// up to 5 over the troublesome ones, spread over the cases
				var chars []byte
				for b := byte(' '); b <= '~'; b++ {
					chars = append(chars, b)
				}
				chars = append(chars, '\t', '\n', '\r')
				hard := []byte("\"'\\tn\t\n\r")
				k := 0
				var g bnf.Grammar
				put := func(s string) {
					if k++; k%150 != c.Idx {
						return
					}
					if len(g.Rules) == 0 || len(g.Rules[len(g.Rules)-1].Tail.Sequences) > 20 {
						g.Rules = append(g.Rules, bnf.Rule{
							Head: bnf.SymbolNonTerminal{Name: "t"}})
					}
					t := &g.Rules[len(g.Rules)-1].Tail
					t.Sequences = append(t.Sequences, bnf.Sequence{
						Symbols: []bnf.Symbol{bnf.SymbolTerminal{Name: s}}})
				}
				for _, a := range chars {
					put(string([]byte{a}))
					for _, b := range chars {
						put(string([]byte{a, b}))
					}
				}
				var rec func(s string)
				rec = func(s string) {
					if len(s) > 2 {
						put(s)
					}
					if len(s) < 5 {
						for _, b := range hard {
							rec(s + string([]byte{b}))
						}
					}
				}
				rec("")
				trip(c, g)
			}},
			{Name: "ll1", Quick: 3000, Thorough: 60000, Run: func(c *Ctx) {
				if g := writable(c.R, randLL1(c.R)); g != nil {
					trip(c, g.toBNF())
				}
			}},
			{Name: "self", Quick: 40, Thorough: 200, Run: func(c *Ctx) {
				b := bnf.SelfGrammar()
				if c.Idx > 0 {
					c.Shuffle(len(b.Rules), func(i, j int) {
						b.Rules[i], b.Rules[j] = b.Rules[j], b.Rules[i]
					})
				}
				trip(c, b)
			}},
			{Name: "huge", Quick: 16, Thorough: 160, Run: func(c *Ctx) {
				hs := hugeSizes(c.Tier, 140000, 1<<20+1)
				kind := c.Idx % 4
				if kind == 1 || kind == 2 {
					hs = hugeSizes(c.Tier, 9000, 20000)
				}
				sized(c, kind, hs[(c.Idx/4)%len(hs)])
			}},
			{Name: "sizes", Quick: 60, Thorough: 400, Run: func(c *Ctx) {
				sz := sizesUpTo(3000)
				n := sz[len(sz)-1-c.Idx%len(sz)]
				if n == 0 {
					n = 1
				}
				sized(c, c.Intn(4), n)
			}},
			{Name: "example", Quick: 1, Thorough: 1, Serial: true, Run: func(c *Ctx) {
				bin := filepath.Join(os.Getenv("LLV_BIN"), "parseownsyntax")
				dir, err := os.MkdirTemp(os.Getenv("LLV_TMP"), "ex")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				cmd := exec.Command(bin)
				cmd.Dir = dir
				out, err := cmd.CombinedOutput()
				if _, ok := err.(*exec.ExitError); err != nil && !ok {
					panic(err)
				}
				if err != nil || !strings.Contains(string(out), "equal to initial") {
					c.Fail("examples/parseownsyntax: %v, output %s", err,
						clip(string(out)))
				}
				c.Count("example runs", 1)
				c.Eval(true, "example")
			}},
		}})

	// ---------------------------------------------------------------- C12
	read := func(c *Ctx, text string) {
		want, ok := refReadBNF(text)
		got, err := fe(c)(text)
		if (err == nil) != ok {
			c.Fail("text %s: error %v, in the notation %v", clip(text), err, ok)
		}
		if ok {
			if got == nil {
				c.Fail("text %s: no grammar, no error", clip(text))
			}
			if d := sameGrammar(*got, want); d != "" {
				c.Fail("text %s: grammar read: %s (expected second)\nread %s\nexpected %s",
					clip(text), d, clipB(*got), clipB(want))
			}
			c.Count("texts read", 1)
		} else {
			if got != nil {
				c.Fail("text %s: error %v and a grammar", clip(text), err)
			}
			c.Count("texts rejected", 1)
		}
		c.Max("bytes of text", len(text))
		c.Eval(len(text) > 8, text)
		c.Sample("%s -> in the notation %v", clip(text), ok)
	}
	const frag = "<>:=|\"'\\ \n\rabAZ09-tnr#_~!"
	repeated := func(c *Ctx, n int) {
		rep := strings.Repeat
		head, tail := "<a> ::= 'x'", "\n<b> ::= <a> | \"\"\n"
		text := ""
		switch c.Idx % 12 {
		case 0:
			text = rep(" ", n) + head + tail
		case 1:
			text = "<a>" + rep(" ", n) + "::=" + rep(" ", n/2) + "'x'" + tail
		case 2:
			text = head + rep("\n", n) + tail
		case 3:
			text = head + rep("\r\n", n) + rep("\n  ", n%7) + tail
		case 4:
			text = head + rep("|''", n) + tail
		case 5:
			text = head + rep(" <a>", n) + tail
		case 6:
			text = "<a" + rep("b", n) + "> ::= 'x'" + tail
		case 7:
			text = "<a> ::= '" + rep("y", n) + "'" + tail
		case 8:
			text = "<a> ::= \"" + rep("\\\\", n) + "\"" + tail
		case 9:
			text = "<a> ::= '" + rep("\\t\"", n) + "' <b-" + rep("-", n) + ">" + tail
		case 10:
			text = head + rep("\n<c> ::= <b>", n)
		case 11:
			text = head + rep("\"\"", n) + rep(" ", n) + tail
		}
		read(c, text)
		if len(text) < 20000 {
			read(c, mutate(c.R, text, []byte(frag)))
		}
		read(c, text[:len(text)-1-c.Intn(len(tail)+3)])
	}
	register(&Prop{ID: "C12", Level: "exploration",
		Rule: "A case is a text: a grammar written in a random layout (spaces, " +
			"line ends, blank lines, quotes, optional escapes), such a text with " +
			"small damage, token noise, one byte of a small text replaced by " +
			"every other byte, or a text large in one way. An evaluation compares acceptance and the grammar " +
			"read with the harness's reader. Non-trivial: more than eight bytes; " +
			"distinct by text.",
		Need: map[string]int64{"texts read": 5000, "texts rejected": 5000},
		Families: []Family{
			{Name: "layout", Quick: 24000, Thorough: 300000, Run: func(c *Ctx) {
				text := renderBNF(c.R, writableBNF(c.R))
				read(c, text)
				for k := 0; k < 3; k++ {
					read(c, mutate(c.R, text, []byte(frag)))
				}
			}},
			{Name: "tokens", Quick: 50000, Thorough: 500000, Run: func(c *Ctx) {
				toks := []string{"<a>", "<b-1>", "::=", "|", "\"x\"", "'y'", "\"\"",
					"''", " ", "  ", "\n", "\r\n", "\"\\t\"", "'\\\"'", "\"'\"", "'\"'",
					"\"\\\\\"", "<a> ::= ", "<", ">", "\r", "\t", "'\\''", "\"\\x\"",
					"\"<\"", "\"|\"", "\"::=\"", "<A>", "<1>", "<->", "<a->", "< a>",
					"\"é\"", "\"\x00\"", ":", "="}
				s := "<s> ::= "
				if c.chance(1, 5) {
					s = ""
				}
				for k := c.Intn(9); k >= 0; k-- {
					s += toks[c.Intn(len(toks))]
				}
				read(c, s)
			}},
			{Name: "everybyte", Quick: 40, Thorough: 400, Run: func(c *Ctx) {
				base := []string{"<a> ::= \"x\"", "<a>::='q'<b>|\"\\n\"\n<b>::=\"\"",
					" <a-1> ::= \"\\\\\" | '\"' \r\n \n<B>::=\"'\" <a-1> "}
				s := base[c.Idx%3]
				if c.Idx > 2 {
					s = renderBNF(c.R, bnf.Grammar{Rules: writableBNF(c.R).Rules[:1]})
					if len(s) > 60 {
						s = s[:60]
					}
				}
				for i := 0; i <= len(s); i++ {
					for b := 0; b < 256; b++ {
						x := string([]byte{byte(b)})
						if i < len(s) {
							read(c, s[:i]+x+s[i+1:])
						}
						if c.Idx < 3 || b%7 == c.Idx%7 {
							read(c, s[:i]+x+s[i:])
						}
					}
					if i < len(s) {
						read(c, s[:i]+s[i+1:])
						read(c, s[:i])
						read(c, s[i:])
					}
				}
			}},
			{Name: "huge", Quick: 48, Thorough: 400, Run: func(c *Ctx) {
				hs := hugeSizes(c.Tier, 140000, 1<<20+1)
				repeated(c, hs[(c.Idx/12)%len(hs)])
			}},
			{Name: "sizes", Quick: 300, Thorough: 3000, Run: func(c *Ctx) {
				// one piece of a text repeated n times
				sz := sizesUpTo(5000)
				n := sz[len(sz)-1-(c.Idx/12)%len(sz)]
				if c.chance(1, 12) {
					hs := hugeSizes(c.Tier, 140000, 1<<20+1)
					n = hs[c.Intn(len(hs))]
				}
				repeated(c, n)
			}},
			{Name: "real", Quick: 200, Thorough: 3000, Run: func(c *Ctx) {
				var text string
				if c.chance(1, 2) {
					b, err := os.ReadFile(filepath.Join(repoDir(), "examples/json/json.bnf"))
					if err != nil {
						panic(err)
					}
					text = string(b)
				} else {
					text = renderBNF(c.R, bnf.SelfGrammar())
				}
				if g, ok := refReadBNF(text); ok && c.chance(1, 2) {
					text = renderBNF(c.R, g)
				}
				read(c, text)
				read(c, mutate(c.R, text, []byte(frag)))
			}},
		}})

	// ---------------------------------------------------------------- C19
	pipe := func(c *Ctx, g *Gram, budget int) bool {
		if g = writable(c.R, g); g == nil {
			return false
		}
		ref := analyse(g)
		text := renderBNF(c.R, g.toBNF())
		ast, err := fe(c)(text)
		if err != nil {
			c.Fail("grammar text %s not read: %v", clip(text), err)
		}
		t, n, err := tablegen.FromGrammar(*ast)
		if ref.conflict != "" {
			if err == nil {
				c.Fail("grammar text %s: not LL(1) (%s) but a table", clip(text),
					ref.conflict)
			}
			c.Count("grammars refused as not LL(1)", 1)
			return true
		}
		if err != nil {
			c.Fail("grammar text %s: no table: %v", clip(text), err)
		}
		p := parser.NewLL1Parser(*t, *n)
		c.Count("pipelines", 1)
		c.Max("rules", len(g.Rules))
		c.Max("bytes of grammar text", len(text))
		for _, r := range g.Rules {
			c.Max("bytes of a name", len(r.Name))
		}
		for _, in := range inputs(c.R, g, newDeriver(g), 4, 5, 3, budget) {
			want := in.derived
			if !want {
				if len(in.s) <= 60 && len(g.Rules) <= 40 {
					want, _ = g.earley(in.s)
				} else {
					want, _, _ = ref.predictive(in.s)
				}
			}
			tr, nm, err := p.Parse(in.s)
			if (err == nil) != want {
				c.Fail("grammar text %s\ninput %s: error %v, in the language %v",
					clip(text), clip(in.s), err, want)
			}
			c.Eval(in.s != "", text, in.s)
			if !want {
				c.Count("rejected", 1)
				continue
			}
			c.Count("accepted", 1)
			if _, e := validTree(g, ref, in.s, tr); e != nil {
				c.Fail("grammar text %s\ninput %s: %v", clip(text), clip(in.s), e)
			}
			if nm == nil {
				c.Fail("no names")
			}
			for i, r := range g.Rules {
				if (*nm)[i] != r.Name {
					c.Fail("grammar text %s: rule %d is named %q", clip(text), i,
						(*nm)[i])
				}
			}
		}
		c.Sample("%s: pipeline agrees", clip(text))
		return true
	}
	register(&Prop{ID: "C19", Level: "exploration",
		Rule: "A case is a grammar of the notation (LL(1), edited, random) written " +
			"as text in a random layout and taken through reader, generator and " +
			"parser. An evaluation judges one input: acceptance by Earley or " +
			"derivation, the tree by the written grammar, the names. " +
			"Non-trivial: the input is not empty; distinct by text and input.",
		Need: map[string]int64{"accepted": 3000, "rejected": 3000,
			"grammars refused as not LL(1)": 300, "pipelines": 2000},
		Families: []Family{
			{Name: "pipeline", Quick: 8000, Thorough: 200000, Run: func(c *Ctx) {
				var g *Gram
				switch c.Intn(6) {
				case 0:
					g = tweak(c.R, randLL1(c.R))
				case 1:
					g = randGram(c.R, 4, 3, 3)
				case 2:
					gs := realGrams()
					g = gs[c.Intn(len(gs))]
				default:
					g = randLL1(c.R)
				}
				pipe(c, g, 40)
			}},
			{Name: "large", Quick: 400, Thorough: 6000, Run: func(c *Ctx) {
				// many rules, long alternatives and terminals, long names
				fam := c.Idx % 9
				sz := sizesUpTo([]int{300, 300, 90, 90, 60, 97, 700, 700, 90}[fam])
				n := sz[len(sz)-1-(c.Idx/9)%len(sz)]
				for !pipe(c, structured(c.R, fam, n), 100) && n > 0 {
					n = n * 2 / 3
				}
			}},
			{Name: "huge", Quick: 40, Thorough: 200, Run: func(c *Ctx) {
				for {
					g, _ := hugeCase(c)
					n := 0
					for _, r := range g.Rules {
						n += len(r.Name)
						for _, a := range r.Alts {
							for _, s := range a {
								n += 4 + len(s.S)
							}
						}
					}
					if n < 400000 {
						if pipe(c, g, 100) || c.chance(1, 4) {
							return
						}
						continue
					}
					c.Idx += hugeShapes // the next smaller size
				}
			}},
			{Name: "json", Quick: 64, Thorough: 1000, Run: func(c *Ctx) {
				// the shipped JSON grammar, by its own text
				b, err := os.ReadFile(filepath.Join(repoDir(), "examples/json/json.bnf"))
				if err != nil {
					panic(err)
				}
				w, ok := refReadBNF(string(b))
				if !ok {
					c.Count("json.bnf not in the notation", 1)
					return
				}
				g := fromBNF(w)
				ref := analyse(g)
				if ref.conflict != "" {
					return
				}
				ast, err := fe(c)(string(b))
				if err != nil {
					c.Fail("json.bnf: %v", err)
				}
				_, _, p, err := mk(*ast)
				if err != nil {
					c.Fail("json.bnf: %v", err)
				}
				for _, in := range inputs(c.R, g, newDeriver(g), 5, 5, 2, 200) {
					want, _, _ := ref.predictive(in.s)
					tr, _, err := p.Parse(in.s)
					if (err == nil) != want {
						c.Fail("json.bnf: input %s: error %v, in the language %v",
							clip(in.s), err, want)
					}
					if want {
						if _, e := validTree(g, ref, in.s, tr); e != nil {
							c.Fail("json.bnf: input %s: %v", clip(in.s), e)
						}
					}
					c.Eval(in.s != "", "json", in.s)
				}
			}},
		}})

	// ---------------------------------------------------------------- C18
	register(&Prop{ID: "C18", Level: "exploration",
		Rule: "A case is a notation grammar - the self grammar or a dialect of the " +
			"harness (other delimiters, quotes, escape character, comments, " +
			"wrapper rules) - with its rules renumbered, bindings to match, an " +
			"escape mapping and an ignore list in random order; and a grammar " +
			"written in it. An evaluation compares the AST with that grammar, or " +
			"expects an error where the bindings do not cover the text. " +
			"Non-trivial: more than eight bytes of text; distinct by bindings and " +
			"text.",
		Need: map[string]int64{"ASTs as written": 3000, "escapes replaced": 1000,
			"commented out rules ignored": 200, "errors for unmapped escapes": 200,
			"errors for missing head or tail": 200},
		Families: []Family{
			{Name: "dialects", Quick: 30000, Thorough: 200000, Run: func(c *Ctx) {
				dialectCase(c, randDialect(c.R))
			}},
			{Name: "renumbered", Quick: 6000, Thorough: 40000, Run: func(c *Ctx) {
				renumbered(c)
			}},
			{Name: "large", Quick: 400, Thorough: 4000, Run: largeWithDefect},
		}})
}

// largeWithDefect: of many rules, alternatives, symbols or escapes one is not
// covered by the bindings
func largeWithDefect(c *Ctx) {
	dim := [4]int{1 + c.Intn(3), 1 + c.Intn(3), 1 + c.Intn(3), 1 + c.Intn(3)}
	sz := sizesUpTo(3000)
	wide := c.Intn(5)
	if wide > 3 {
		wide = 0
	}
	dim[wide] = 1 + sz[c.Intn(len(sz))]
	at := [4]int{}
	for i := range at {
		at[i] = c.Intn(dim[i])
		if c.chance(1, 4) {
			at[i] = dim[i] - 1
		}
	}
	var g bnf.Grammar
	for i := 0; i < dim[0]; i++ {
		ru := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: fmt.Sprintf("r%d", i)}}
		for j := 0; j < dim[1]; j++ {
			var q bnf.Sequence
			for k := 0; k < dim[2]; k++ {
				here := i == at[0] && j == at[1] && k == at[2]
				if !here && c.chance(1, 2) {
					q.Symbols = append(q.Symbols, bnf.SymbolNonTerminal{Name: "r0"})
					continue
				}
				t := ""
				for l := 0; l < dim[3]; l++ {
					x := []string{"a", "\t", "\n", "b\"", "'"}[c.Intn(5)]
					if here && l == at[3] {
						x = "\r"
					}
					t += x
				}
				q.Symbols = append(q.Symbols, bnf.SymbolTerminal{Name: t})
			}
			ru.Tail.Sequences = append(ru.Tail.Sequences, q)
		}
		g.Rules = append(g.Rules, ru)
	}
	text := renderBNF(c.R, g)
	p := mustMk(c, bnf.SelfGrammar())
	t, _, err := p.Parse(text)
	if err != nil {
		c.Fail("text of %v rules, alternatives, symbols, characters not parsed: %v", dim,
			err)
	}
	b := fromcst.SelfCSTtoASTBindings()
	got, err := b.ToAST(t, text)
	if err != nil {
		c.Fail("ToAST of %v rules, alternatives, symbols, characters: %v", dim, err)
	}
	if d := sameGrammar(*got, g); d != "" {
		c.Fail("ToAST of %v rules, alternatives, symbols, characters: %s", dim, d)
	}
	c.Count("ASTs as written", 1)
	delete(b.EscapeMapping, "r")
	if a, err := b.ToAST(t, text); err == nil || a != nil {
		c.Fail("\\r is not mapped, but is the escape at %v of %v rules, alternatives, "+
			"symbols, characters: grammar %v, error %v", at, dim, a != nil, err)
	}
	c.Count("errors for unmapped escapes", 1)
	c.Eval(true, "escape", fmt.Sprint(dim, at), text)
	// one rule without head or tail
	b = fromcst.SelfCSTtoASTBindings()
	var all []*editNode
	root := editable(t, &all)
	var rules []*editNode
	for _, n := range all {
		if n.typ == b.RuleType {
			rules = append(rules, n)
		}
	}
	if len(rules) != dim[0] {
		c.Count("rule nodes of another number", 1)
		return
	}
	what, typ := "head", b.RuleHeadType
	if c.chance(1, 2) {
		what, typ = "tail", b.RuleTailType
	}
	var spoil func(n *editNode)
	spoil = func(n *editNode) {
		if n.typ == typ {
			n.typ = 1000
		}
		for _, k := range n.kids {
			spoil(k.(*editNode))
		}
	}
	spoil(rules[at[0]])
	if a, err := b.ToAST(root, text); err == nil || a != nil {
		c.Fail("rule %d of %d has no %s: grammar %v, error %v", at[0], dim[0], what,
			a != nil, err)
	}
	c.Count("errors for missing head or tail", 1)
	c.Max("rules, alternatives, symbols or characters", dim[wide])
	c.Eval(true, what, fmt.Sprint(dim, at), text)
}

// renumbered: the self grammar with its rules in another order
func renumbered(c *Ctx) {
	b := bnf.SelfGrammar()
	if len(b.Rules) != 26 {
		c.Count("self grammar of another size", 1)
		return
	}
	p := c.Perm(25)
	perm := make([]int, 26)
	x := bnf.Grammar{Rules: make([]bnf.Rule, 26)}
	for i := range perm {
		if i > 0 {
			perm[i] = p[i-1] + 1
		}
		x.Rules[perm[i]] = b.Rules[i]
	}
	_, _, ps, err := mk(x)
	if err != nil {
		c.Fail("no table for the renumbered self grammar: %v\norder %v", err, perm)
	}
	// "as documented": the roles of the self grammar's rules
	bind := fromcst.SelfCSTtoASTBindings()
	mv := func(l []int) []int {
		var res []int
		for _, v := range l {
			if v >= 0 && v < len(perm) {
				v = perm[v]
			}
			res = append(res, v)
		}
		return res
	}
	bind.IgnoreNodeTypes = mv(bind.IgnoreNodeTypes)
	for k := c.Intn(6); k > 0; k-- { // types which do not occur
		bind.IgnoreNodeTypes = append(bind.IgnoreNodeTypes, 100+c.Intn(100))
	}
	c.Shuffle(len(bind.IgnoreNodeTypes), func(i, j int) {
		l := bind.IgnoreNodeTypes
		l[i], l[j] = l[j], l[i]
	})
	bind.SymbolTerminalTypes = mv(bind.SymbolTerminalTypes)
	if c.chance(1, 2) {
		l := bind.SymbolTerminalTypes
		l[0], l[len(l)-1] = l[len(l)-1], l[0]
	}
	for _, f := range []*int{&bind.RuleType, &bind.RuleHeadType, &bind.RuleTailType,
		&bind.ExpressionSequencesType, &bind.SequencesSymbolType,
		&bind.SymbolNonTerminalType, &bind.EscapeCharacterType} {
		*f = perm[*f]
	}
	want := writableBNF(c.R)
	text := renderBNF(c.R, want)
	t, _, err := ps.Parse(text)
	if err != nil {
		c.Fail("text %s not parsed under order %v: %v", clip(text), perm, err)
	}
	got, err := bind.ToAST(t, text)
	if err != nil {
		c.Fail("ToAST of %s under bindings %+v: %v", clip(text), bind, err)
	}
	if d := sameGrammar(*got, want); d != "" {
		c.Fail("ToAST of %s under bindings %+v: %s (expected second)", clip(text), bind, d)
	}
	c.Count("ASTs as written", 1)
	c.Eval(len(text) > 8, fmt.Sprint(perm), text)
	c.Sample("order %v text %s", perm, clip(text))
}

// ---- dialects

type dialect struct {
	g        *Gram // the notation, own rules
	bind     fromcst.BNFCSTtoASTBindings
	assign   string
	alt      string
	open     string
	close    string
	quotes   []string // one or two
	esc      byte
	escapes  map[string]string
	escKeys  []string
	escEnd   string // what closes an escape
	comments string // "" none
	space    bool
	wrapped  bool
}

func randDialect(r R) *dialect {
	for {
		d := tryDialect(r)
		if analyse(d.g).conflict == "" {
			return d
		}
	}
}

func tryDialect(r R) *dialect {
	d := &dialect{}
	d.assign = []string{"::=", "=", "->", ":", ":=", "is"}[r.Intn(6)]
	d.alt = []string{"|", "/", ";", "||", "or "}[r.Intn(5)]
	k := r.Intn(6)
	d.open = []string{"<", "(", "[", "{", "$", "<:"}[k]
	d.close = []string{">", ")", "]", "}", "", ":>"}[k]
	d.quotes = [][]string{{"\"", "'"}, {"\""}, {"'"}, {"`", "\""}, {"'", "`"}}[r.Intn(5)]
	d.esc = r.pick("\\%^~@")
	d.space = true
	if r.chance(1, 2) {
		d.comments = []string{"#", "--", "!"}[r.Intn(3)]
	}
	d.wrapped = r.chance(1, 2)
	d.escapes = map[string]string{}
	var cand []string
	scheme := r.Intn(5)
	switch scheme {
	case 0: // words
		cand = []string{"tab", "nl", "r", "quote", "Q", "'", "0", "1a", "\"\"", "-", "xyz",
			"bb", "é", "<a>"}
	case 1: // two digits
		for i := 0; i < 256; i++ {
			cand = append(cand, fmt.Sprintf("%02x", i))
		}
	default:
		for _, b := range []byte("tnrabefx0159\"'\\qQ-") {
			cand = append(cand, string([]byte{b}))
		}
	}
	if r.chance(1, 4) {
		d.escEnd = []string{";", "}", "."}[r.Intn(3)]
	}
	for m := 1 + r.Intn(8); m > 0; m-- {
		k := cand[r.Intn(len(cand))]
		v := []string{"\t", "\n", "\\", "\"", "'", "ab", "\x00", "\xff\xfe", "é", "<",
			"long replacement", k, ""}[r.Intn(13)]
		if _, ok := d.escapes[k]; !ok {
			d.escapes[k] = v
			d.escKeys = append(d.escKeys, k)
		}
	}
	// rules by role
	ix := map[string]int{}
	var rules []Rule
	def := func(name string) int {
		if i, ok := ix[name]; ok {
			return i
		}
		ix[name] = len(rules)
		rules = append(rules, Rule{Name: name})
		return ix[name]
	}
	set := func(name string, alts ...Alt) {
		rules[def(name)].Alts = alts
	}
	N := func(name string) Sym { return nt(def(name)) }
	def("syntax") // the start rule comes first
	set("syntax", Alt{N("line"), N("more")})
	set("more", Alt{}, Alt{N("eol"), N("line"), N("more")})
	set("eol", Alt{tm("\n")}, Alt{tm("\r\n")})
	line := []Alt{{}, {N("rule")}}
	if d.comments != "" {
		line = append(line, Alt{N("comment")})
		// a comment may hold a whole rule
		set("comment", Alt{tm(d.comments), N("ctail")})
		set("ctail", Alt{}, Alt{N("rule")})
	}
	body := Alt{N("ws"), N("lbody")}
	set("line", body)
	set("lbody", line...)
	set("ws", Alt{}, Alt{tm(" "), N("ws")})
	head := Alt{N("name")}
	if d.wrapped {
		set("headw", Alt{N("name")})
		head = Alt{N("headw")}
	}
	ru := Alt{tm(d.open)}
	ru = append(ru, head...)
	if d.close != "" {
		ru = append(ru, tm(d.close))
	}
	ru = append(ru, N("ws"), tm(d.assign), N("ws"), N("expr"))
	set("rule", ru)
	set("expr", Alt{N("seq"), N("exprtail")})
	set("exprtail", Alt{}, Alt{tm(d.alt), N("ws"), N("seq"), N("exprtail")})
	set("seq", Alt{N("term"), N("ws"), N("seqtail")})
	set("seqtail", Alt{}, Alt{N("term"), N("ws"), N("seqtail")})
	ref := Alt{tm(d.open), N("name")}
	if d.close != "" {
		ref = append(ref, tm(d.close))
	}
	if r.chance(1, 3) {
		// the name of a symbol is not of the type of a rule's name
		ref[1] = N("refname")
		set("refname", Alt{N("name")})
	}
	set("term", Alt{N("literal")}, ref)
	var lits []Alt
	for i, q := range d.quotes {
		lits = append(lits, Alt{tm(q), N(fmt.Sprint("text", i)), tm(q)})
	}
	set("literal", lits...)
	escRule := "escape"
	for i, q := range d.quotes {
		tx, ch := fmt.Sprint("text", i), fmt.Sprint("char", i)
		set(tx, Alt{}, Alt{N(ch), N(tx)})
		var alts []Alt
		for b := byte(' '); b <= '~'; b++ {
			if isLetter(b) || string([]byte{b}) == q || b == d.esc {
				continue
			}
			alts = append(alts, Alt{tm(string([]byte{b}))})
		}
		alts = append(alts, Alt{N("letter")}, Alt{N(escRule)})
		set(ch, alts...)
	}
	er := Alt{tm(string([]byte{d.esc})), N("escaped")}
	if d.escEnd != "" {
		er = append(er, tm(d.escEnd))
	}
	set(escRule, er)
	var ea []Alt
	if scheme == 1 {
		for _, k := range []byte("0123456789abcdef") {
			ea = append(ea, Alt{tm(string([]byte{k}))})
		}
		set("hex", ea...)
		set("escaped", Alt{N("hex"), N("hex")})
	} else {
		for _, k := range append(cand, "z") {
			ea = append(ea, Alt{tm(k)})
		}
		set("escaped", ea...)
	}
	set("name", Alt{N("letter"), N("nametail")})
	set("nametail", Alt{}, Alt{N("letter"), N("nametail")}, Alt{tm("_"), N("nametail")})
	var ls []Alt
	for i := 0; i < len(letters); i++ {
		ls = append(ls, Alt{tm(letters[i : i+1])})
	}
	set("letter", ls...)
	d.g = &Gram{Rules: rules, Kind: "dialect"}
	// another numbering, the first rule stays
	n := len(rules)
	perm := make([]int, n)
	for i, v := range r.Perm(n - 1) {
		perm[i+1] = v + 1
	}
	d.g = permute(d.g, perm)
	at := func(s string) int { return perm[ix[s]] }
	d.bind = fromcst.BNFCSTtoASTBindings{
		RuleType: at("rule"), RuleHeadType: at("name"), RuleTailType: at("expr"),
		ExpressionSequencesType: at("seq"), SequencesSymbolType: at("term"),
		SymbolNonTerminalType: at("name"), EscapeCharacterType: at("escaped"),
		EscapeMapping: d.escapes}
	if d.wrapped {
		d.bind.RuleHeadType = at("headw")
	}
	if i, ok := ix["refname"]; ok {
		d.bind.SymbolNonTerminalType = perm[i]
	}
	for i := range d.quotes {
		d.bind.SymbolTerminalTypes = append(d.bind.SymbolTerminalTypes,
			at(fmt.Sprint("text", i)))
	}
	for r.chance(1, 4) { // types which do not occur
		d.bind.SymbolTerminalTypes = append(d.bind.SymbolTerminalTypes, 500+r.Intn(500))
	}
	r.Shuffle(len(d.bind.SymbolTerminalTypes), func(i, j int) {
		l := d.bind.SymbolTerminalTypes
		l[i], l[j] = l[j], l[i]
	})
	ign := []int{}
	if d.comments != "" {
		ign = append(ign, at("comment"))
	}
	if r.chance(1, 2) {
		ign = append(ign, at("ws"), at("eol"))
	}
	for k := r.Intn(7); k > 0; k-- {
		ign = append(ign, 500+r.Intn(500))
	}
	r.Shuffle(len(ign), func(i, j int) { ign[i], ign[j] = ign[j], ign[i] })
	d.bind.IgnoreNodeTypes = ign
	return d
}

// write: a random grammar and its text in d
func (d *dialect) write(r R) (want bnf.Grammar, text string, escapes, comments int,
	used map[string]bool) {
	used = map[string]bool{}
	l := &layout{r: r, tight: r.chance(1, 3), crlf: r.Intn(3)}
	name := func() string {
		b := []byte{r.pick(letters)}
		for r.chance(1, 2) {
			b = append(b, r.pick(letters+"_"))
		}
		return string(b)
	}
	lit := func() (string, string) {
		q := d.quotes[r.Intn(len(d.quotes))]
		val, tx := "", q
		for m := r.Intn(5); m > 0; m-- {
			if r.chance(1, 3) {
				k := d.escKeys[r.Intn(len(d.escKeys))]
				used[k] = true
				escapes++
				val += d.escapes[k]
				tx += string([]byte{d.esc}) + k + d.escEnd
				continue
			}
			b := byte(' ' + r.Intn(95))
			if b == q[0] || b == d.esc {
				b = 'x'
			}
			val += string([]byte{b})
			tx += string([]byte{b})
		}
		return val, tx + q
	}
	rule := func() (bnf.Rule, string) {
		n := name()
		ru := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: n}}
		// a letter after an unclosed name would continue it
		gap := d.close == ""
		tx := d.open + n + d.close + l.sp(gap) + d.assign + l.sp(true)
		for k := 1 + r.Intn(3); k > 0; k-- {
			var sq bnf.Sequence
			for m := 1 + r.Intn(3); m > 0; m-- {
				if r.chance(1, 2) {
					n := name()
					sq.Symbols = append(sq.Symbols, bnf.SymbolNonTerminal{Name: n})
					tx += d.open + n + d.close + l.sp(gap)
				} else {
					v, s := lit()
					if v == "" {
						sq.Symbols = append(sq.Symbols, bnf.SymbolNothing{})
					} else {
						sq.Symbols = append(sq.Symbols, bnf.SymbolTerminal{Name: v})
					}
					tx += s + l.sp(false)
				}
			}
			ru.Tail.Sequences = append(ru.Tail.Sequences, sq)
			if k > 1 {
				tx += d.alt + l.sp(false)
			}
		}
		return ru, tx
	}
	var sb strings.Builder
	for k := 1 + r.Intn(4); k > 0; k-- {
		sb.WriteString(l.sp(false))
		switch {
		case d.comments != "" && r.chance(1, 3):
			comments++
			sb.WriteString(d.comments)
			if r.chance(3, 4) {
				_, s := rule()
				sb.WriteString(s)
			}
		case r.chance(1, 8):
		default:
			ru, s := rule()
			want.Rules = append(want.Rules, ru)
			sb.WriteString(s)
		}
		if k > 1 {
			sb.WriteString(l.eol())
		}
	}
	return want, sb.String(), escapes, comments, used
}

func dialectCase(c *Ctx, d *dialect) {
	_, _, p, err := mk(d.g.toBNF())
	if err != nil {
		c.Fail("no table for a dialect which is LL(1): %v\n%s", err, clipG(d.g))
	}
	for k := 0; k < 6; k++ {
		want, text, esc, com, used := d.write(c.R)
		t, _, err := p.Parse(text)
		if err != nil {
			if ok, _, _ := analyse(d.g).predictive(text); !ok {
				panic("dialect text of the harness: " + text + "\n" + d.g.String())
			}
			c.Fail("text %s not parsed: %v\n%s", clip(text), err, clipG(d.g))
		}
		show := func() string {
			return fmt.Sprintf("text %s\nbindings %+v\n%s", clip(text), d.bind,
				clipG(d.g))
		}
		got, err := d.bind.ToAST(t, text)
		if err != nil || got == nil {
			c.Fail("ToAST: %v\n%s", err, show())
		}
		if x := sameGrammar(*got, want); x != "" {
			c.Fail("ToAST: %s (expected second)\n%s", x, show())
		}
		c.Count("ASTs as written", 1)
		c.Count("escapes replaced", esc)
		c.Count("commented out rules ignored", com)
		c.Eval(len(text) > 8, fmt.Sprintf("%+v", d.bind), text)
		c.Sample("text %s bindings %+v", clip(text), d.bind)
		// an escape which is not mapped
		inRules := map[string]bool{}
		if com == 0 {
			inRules = used
		}
		for k := range inRules {
			b := d.bind
			b.EscapeMapping = map[string]string{}
			for x, y := range d.escapes {
				if x != k {
					b.EscapeMapping[x] = y
				}
			}
			if c.chance(1, 6) {
				b.EscapeMapping = nil
			} else if c.chance(1, 2) {
				// keys near the one missing do not stand in for it
				for _, x := range []string{"", k + k, "\\" + k, " " + k, k + "\x00",
					strings.ToUpper(k), strings.ToLower(k), "*", "default"} {
					if x != k && c.chance(1, 2) {
						if _, ok := d.escapes[x]; !ok {
							b.EscapeMapping[x] = "decoy"
						}
					}
				}
			}
			got, err := b.ToAST(t, text)
			if err == nil || got != nil {
				c.Fail("ToAST without a mapping for %q: grammar %v, error %v\n%s", k,
					got != nil, err, show())
			}
			c.Count("errors for unmapped escapes", 1)
			break
		}
		if len(want.Rules) > 0 {
			b := d.bind
			if c.chance(1, 2) {
				b.RuleHeadType = 2000
			} else {
				b.RuleTailType = 2000
			}
			got, err := b.ToAST(t, text)
			if err == nil || got != nil {
				c.Fail("ToAST with head type %d, tail type %d: grammar %v, error %v\n%s",
					b.RuleHeadType, b.RuleTailType, got != nil, err, show())
			}
			c.Count("errors for missing head or tail", 1)
		}
		if c.chance(1, 3) {
			viewed(c, d, t, text, want, show)
		}
		if d.comments != "" && com > 0 && c.chance(1, 3) {
			// comments not ignored: their rules count
			b := d.bind
			b.IgnoreNodeTypes = nil
			g2, err := b.ToAST(t, text)
			if err != nil {
				c.Fail("ToAST without ignore list: %v\n%s", err, show())
			}
			if len(g2.Rules) < len(want.Rules) {
				c.Fail("ToAST without ignore list: %d rules of at least %d\n%s",
					len(g2.Rules), len(want.Rules), show())
			}
			c.Count("comments read without ignoring", 1)
		}
	}
}

// viewNode: a tree with other node types, over a part of a longer text
type viewNode struct {
	n     cst.Node
	types map[int]int
	shift int
	wrap  map[int]int // the children of this type are those of a node between
	is    int         // such a node: its type
}

func (v *viewNode) Type() int {
	if v.is != 0 {
		return v.is
	}
	if t, ok := v.types[v.n.Type()]; ok {
		return t
	}
	return v.n.Type()
}
func (v *viewNode) Pos() int { return v.n.Pos() + v.shift }
func (v *viewNode) End() int { return v.n.End() + v.shift }
func (v *viewNode) Childs() []cst.Node {
	if w, ok := v.wrap[v.n.Type()]; ok && v.is == 0 {
		u := *v
		u.is = w
		return []cst.Node{&u}
	}
	var res []cst.Node
	for _, x := range v.n.Childs() {
		res = append(res, &viewNode{n: x, types: v.types, shift: v.shift,
			wrap: v.wrap})
	}
	return res
}

// viewed: the AST through a user's own nodes with any types, and of parts of
// the tree
func viewed(c *Ctx, d *dialect, t cst.Node, text string, want bnf.Grammar,
	show func() string) {
	types := map[int]int{}
	used := map[int]bool{}
	fresh := func() int {
		for {
			v := c.Intn([]int{60, 300, 70000, 1 << 33}[c.Intn(4)])
			if c.chance(1, 6) {
				v = -3 - v
			}
			if !used[v] {
				used[v] = true
				return v
			}
		}
	}
	for i := range d.g.Rules {
		types[i] = fresh()
	}
	mv := func(v int) int {
		if w, ok := types[v]; ok {
			return w
		}
		return fresh()
	}
	mvl := func(l []int) []int {
		var res []int
		for _, v := range l {
			res = append(res, mv(v))
		}
		return res
	}
	b := d.bind
	b.RuleType, b.RuleHeadType = mv(b.RuleType), mv(b.RuleHeadType)
	b.RuleTailType = mv(b.RuleTailType)
	b.ExpressionSequencesType = mv(b.ExpressionSequencesType)
	b.SequencesSymbolType = mv(b.SequencesSymbolType)
	b.SymbolNonTerminalType = mv(b.SymbolNonTerminalType)
	b.EscapeCharacterType = mv(b.EscapeCharacterType)
	b.IgnoreNodeTypes = mvl(b.IgnoreNodeTypes)
	b.SymbolTerminalTypes = mvl(b.SymbolTerminalTypes)
	shift := c.Intn(20)
	text2 := strings.Repeat("#", shift) + text + strings.Repeat("#", c.Intn(3))
	v := &viewNode{n: t, types: types, shift: shift, wrap: map[int]int{}}
	for i, ru := range d.g.Rules {
		esc := false
		for _, a := range ru.Alts {
			for _, s := range a {
				esc = esc || !s.T && s.N == d.bind.EscapeCharacterType
			}
		}
		// an escape sequence is the parent of its escape character
		if !esc && c.chance(1, 6) {
			v.wrap[i] = fresh()
			if v.wrap[i] == 0 {
				delete(v.wrap, i)
			}
		}
	}
	got, err := b.ToAST(v, text2)
	if err != nil {
		c.Fail("ToAST of a tree of a user's nodes, types %v: %v\n%s", types, err, show())
	}
	if x := sameGrammar(*got, want); x != "" {
		c.Fail("ToAST of a tree of a user's nodes, types %v: %s (expected second)\n%s",
			types, x, show())
	}
	c.Count("ASTs of retyped trees", 1)
	// each rule by itself
	var rules []cst.Node
	ign := map[int]bool{}
	for _, x := range b.IgnoreNodeTypes {
		ign[x] = true
	}
	var find func(n cst.Node)
	find = func(n cst.Node) {
		switch {
		case ign[n.Type()]:
		case n.Type() == b.RuleType:
			rules = append(rules, n)
		default:
			for _, x := range n.Childs() {
				find(x)
			}
		}
	}
	find(v)
	if len(rules) != len(want.Rules) {
		panic("rules of the harness")
	}
	for i, n := range rules {
		got, err := b.ToAST(n, text2)
		one := bnf.Grammar{Rules: want.Rules[i : i+1]}
		if err != nil {
			c.Fail("ToAST of the node of rule %d: %v\n%s", i, err, show())
		}
		if x := sameGrammar(*got, one); x != "" {
			c.Fail("ToAST of the node of rule %d: %s (expected second)\n%s", i, x, show())
		}
		c.Count("ASTs of single rules", 1)
	}
}
