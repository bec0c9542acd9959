package mon

// C01 language, C02 tree, C03 LL(1) verdict, C04 malformed grammars, C05 table,
// C06 rejection message, C17 termination

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"testing/iotest"
	"time"
	"unsafe"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

type input struct {
	s       string
	derived bool // a sentence by construction
}

// inputs: sentences, damaged sentences and noise for g
func inputs(r R, g *Gram, d *deriver, sent, mut, noise, budget int) []input {
	al := g.alphabet()
	var res []input
	var base []string
	for i := 0; i < sent; i++ {
		b := r.Intn(12)
		if i%3 == 2 {
			b = r.Intn(budget + 1)
		}
		if s, ok := d.sentence(r, b); ok {
			res = append(res, input{s, true})
			base = append(base, s)
		}
	}
	for i := 0; i < mut && len(base) > 0; i++ {
		res = append(res, input{mutate(r, base[r.Intn(len(base))], al), false})
	}
	for i := 0; i < noise; i++ {
		res = append(res, input{randBytes(r, r.Intn(7), al), false})
	}
	res = append(res, input{"", false})
	return res
}

// tweak: a random edit of the grammar; may or may not keep it LL(1)
func tweak(r R, g *Gram) *Gram {
	g = g.clone()
	g.Kind += "+tweak"
	n := len(g.Rules)
	i := r.Intn(n)
	ru := &g.Rules[i]
	if len(ru.Alts) == 0 {
		return g
	}
	k := r.Intn(len(ru.Alts))
	firstByte := func() string {
		// a byte starting some terminal
		for t := 0; t < 20; t++ {
			q := g.Rules[r.Intn(n)]
			a := q.Alts[r.Intn(len(q.Alts))]
			if len(a) > 0 {
				s := a[r.Intn(len(a))]
				if s.T {
					return s.S[:1]
				}
			}
		}
		return "a"
	}
	sym := func() Sym {
		if r.chance(1, 2) {
			return nt(r.Intn(n))
		}
		return tm(firstByte())
	}
	ins := func(a Alt, p int, s Sym) Alt {
		b := append(Alt{}, a[:p]...)
		b = append(b, s)
		return append(b, a[p:]...)
	}
	place := func(a Alt) {
		p := r.Intn(len(ru.Alts) + 1)
		b := append([]Alt{}, ru.Alts[:p]...)
		b = append(b, a)
		ru.Alts = append(b, ru.Alts[p:]...)
	}
	switch r.Intn(9) {
	case 0:
		place(append(Alt{}, ru.Alts[k]...))
	case 1:
		place(Alt{})
	case 2:
		ru.Alts[k] = ins(ru.Alts[k], r.Intn(len(ru.Alts[k])+1), sym())
	case 3:
		if len(ru.Alts[k]) > 0 {
			p := r.Intn(len(ru.Alts[k]))
			ru.Alts[k] = append(ru.Alts[k][:p:p], ru.Alts[k][p+1:]...)
		}
	case 4:
		place(Alt{tm(firstByte()), sym()})
	case 5:
		place(Alt{nt(r.Intn(n))})
	case 6:
		if len(ru.Alts) > 1 {
			ru.Alts = append(ru.Alts[:k:k], ru.Alts[k+1:]...)
		}
	case 7:
		for p, s := range ru.Alts[k] {
			if s.T {
				ru.Alts[k][p].S = firstByte() + s.S[1:]
				break
			}
		}
	case 8:
		ru.Alts[k] = ins(ru.Alts[k], 0, nt(r.Intn(n)))
	}
	return g
}

// hollow: sometimes a rule without any alternative
func hollow(r R, g *Gram) *Gram {
	if r.chance(1, 15) {
		g.Rules[r.Intn(len(g.Rules))].Alts = nil
	}
	return g
}

// structured size for case idx
func structCase(c *Ctx) *Gram {
	fam := c.Idx % 9
	max := []int{130, 130, 200, 250, 100, 255, 700, 900, 9000}[fam]
	if c.Tier == "thorough" {
		max = []int{260, 260, 200, 250, 100, 255, 1500, 20000, 300000}[fam]
	}
	sz := sizesUpTo(max)
	k := (c.Idx / 9) % len(sz)
	return structured(c.R, fam, sz[len(sz)-1-k])
}

func famCount(per int) int { return 9 * per }

// bigCase: simple recursive grammars with inputs of n bytes
var bigKinds = []string{"list", "nested", "lisp", "arith", "hi"}

func bigSizes(tier string) []int {
	s := []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097,
		9999, 10000, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131073,
		200000}
	if tier == "thorough" {
		s = append(s, 1<<18+1, 1<<19+1, 1<<20+1, 3000000)
	}
	for _, v := range dict.Ints {
		if v > 64 && v <= 300000 {
			s = append(s, v-1, v, v+1)
		}
	}
	sort.Ints(s)
	return s
}

func bigCase(c *Ctx) (g *Gram, in string, ok bool) {
	var r = c.R
	kind := bigKinds[c.Idx%len(bigKinds)]
	sz := bigSizes(c.Tier)
	k := (c.Idx / len(bigKinds)) % len(sz)
	n := sz[len(sz)-1-k] // large ones first
	for _, x := range realGrams() {
		if x.Kind == kind {
			g = x
		}
	}
	var sb strings.Builder
	ok = true
	switch kind {
	case "list":
		sb.WriteString(strings.Repeat("a", n))
	case "nested":
		// deep: n/2 open, n/2 close
		o := make([]byte, n/2)
		for i := range o {
			o[i] = "[(<"[r.Intn(3)]
		}
		sb.Write(o)
		for i := len(o) - 1; i >= 0; i-- {
			sb.WriteByte(map[byte]byte{'[': ']', '(': ')', '<': '>'}[o[i]])
		}
	case "lisp":
		for sb.Len() < n {
			sb.WriteString([]string{"(a b) ", "'c\n", "abc ", "((+ a b)c)"}[r.Intn(4)])
		}
	case "arith":
		sb.WriteString("1")
		for sb.Len() < n {
			sb.WriteString([]string{"+2", "*(34-5)", "/6", "-7", "*-88"}[r.Intn(5)])
		}
	case "hi":
		// left half nested, right half closings
		k := n / 4
		sb.WriteString(strings.Repeat("\x80", k))
		sb.WriteString("\xff" + strings.Repeat("\xfe", n/4))
		for i := 0; i < k; i++ {
			sb.WriteString([]string{"\xc3\xa9", "\xbf"}[r.Intn(2)])
		}
	}
	in = sb.String()
	if r.chance(1, 4) { // one defect late in the input
		b := []byte(in)
		switch r.Intn(3) {
		case 0:
			b = append(b, '!')
		case 1:
			b[len(b)-1-r.Intn(len(b)/8+1)] = '!'
		case 2:
			b = append(b, 0)
		}
		in = string(b)
		ok = false
	}
	return
}

// hugeCase: sizes past the width of any counter one would pick
// up to max, and up to far for sizes the code under test names itself
func hugeSizes(tier string, max, far int) []int {
	m := map[int]bool{}
	for _, v := range []int{200, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024,
		2047, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 50000, 65535,
		65536, 65537, 100000, 131071, 131072, 131073, 1<<18 + 1, 1 << 20} {
		m[v] = true
	}
	for v := range m {
		if v > max {
			delete(m, v)
		}
	}
	for _, v := range dict.Ints {
		if v > 200 {
			for d := -1; d <= 1; d++ {
				if v+d <= far {
					m[v+d] = true
				}
			}
		}
	}
	var res []int
	for v := range m {
		res = append(res, v)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(res)))
	return res
}

const hugeShapes = 5

func hugeCase(c *Ctx) (*Gram, []input) {
	r := c.R
	shape := c.Idx % hugeShapes
	max := []int{1<<18 + 1, 131073, 4097, 131073, 70000}[shape]
	far := []int{1<<22 + 1, 1<<18 + 1, 5001, 1<<22 + 1, 1<<20 + 1}[shape]
	if c.Tier == "thorough" {
		max = []int{1 << 21, 1 << 19, 5000, 1 << 20, 300000}[shape]
	}
	sz := hugeSizes(c.Tier, max, far)
	n := sz[(c.Idx/hugeShapes)%len(sz)]
	var g *Gram
	var ins []input
	add := func(ok bool, s ...string) {
		for _, x := range s {
			ins = append(ins, input{x, ok})
		}
	}
	// defects of s: at the end, around the boundaries
	spoil := func(s string) {
		for _, p := range []int{len(s) - 1, len(s) / 2, len(s) - 2, n % 256,
			n % 65536, 255, 256, 65535, 65536} {
			if p > 0 && p < len(s) {
				b := []byte(s)
				b[p] = '!'
				add(false, string(b))
				if p%3 == 0 {
					add(false, s[:p])
				}
			}
		}
		add(false, s[:len(s)-1], s+"!", s+"\x00", s+s, s[1:])
	}
	switch shape {
	case 0: // a terminal of n bytes
		b := make([]byte, n)
		plain := r.chance(1, 2)
		for i := range b {
			b[i] = byte(1 + r.Intn(255))
			if plain {
				b[i] = r.pick(letters)
			}
			if b[i] == '!' {
				b[i] = 'a'
			}
		}
		b[0] = 'L'
		l := string(b)
		g = miniGram("hugeterm", "S = T R\nR = | ',' T R\nT = 'L' | 'k' | ';'\n")
		g.Rules[2].Alts[0][0].S = l
		add(true, l, l+","+l, "k,"+l+",k", "k")
		spoil("k," + l)
		add(false, "k,"+l+"k", l+l)
	case 1: // an alternative of n symbols
		g = miniGram("hugealt", "S = 'a' | 'b' S\nD = '1' | '2' D | '3'\n")
		a := Alt{}
		var sb strings.Builder
		for i := 0; i < n; i++ {
			switch {
			case i%7 == 3:
				a = append(a, nt(1))
				sb.WriteString([]string{"1", "21", "3"}[r.Intn(3)])
			default:
				x := one('a' + r.Intn(26))
				a = append(a, tm(x))
				sb.WriteString(x)
			}
		}
		a[0] = tm("x")
		s := "x" + sb.String()[1:]
		g.Rules[0].Alts = append(g.Rules[0].Alts, a)
		add(true, s, "b"+s)
		spoil(s)
	case 2: // n rules
		g = manyGram(r, n)
		if n > 1100 { // generation takes time square in the rules and passes
			ins = inputs(r, g, newDeriver(g), 6, 6, 2, 100)
			break
		}
		g = reorder(r, g, r.Intn(3))
		if r.chance(1, 2) {
			nm := r.names(n)
			for i := range g.Rules {
				g.Rules[i].Name = nm[i]
			}
		}
		ins = inputs(r, g, newDeriver(g), 6, 6, 2, 100)
	case 3: // an input whose root has n descendants in a row, a long terminal first
		g = miniGram("hugelist", "S = 'begin' L 'end'\nL = | 'x' L | 'y' N\nN = L\n")
		var sb strings.Builder
		sb.WriteString("begin")
		for i := 0; i < n; i++ {
			sb.WriteByte("xy"[r.Intn(2)])
		}
		s := sb.String() + "end"
		add(true, s)
		spoil(s)
	case 4: // names of n bytes
		g = miniGram("hugename", "S = 'a' T | 'b'\nT = 'c' S | 'd' U\nU = | 'e' U\n")
		nm := strings.Repeat("n", n)
		g.Rules[0].Name = nm + "a"
		g.Rules[1].Name = nm + "b"
		g.Rules[2].Name = "b" + nm
		ins = inputs(r, g, newDeriver(g), 4, 6, 3, 30)
	}
	g.Kind = fmt.Sprintf("%s(%d)", g.Kind, n)
	c.Max("size of a huge case", n)
	return g, ins
}

// farCase: inputs of 2^24 bytes and more, in long terminals, so that positions
// are far apart but nodes few
func farCase(c *Ctx, bits int) (*Gram, []input) {
	r := c.R
	g := miniGram("far", "S = T M\nM = | ',' T M | ';' M\nT = 'a' | 'b'\n")
	if c.Tier == "thorough" {
		bits += c.Idx % 3
	} else {
		bits += c.Idx % 2
	}
	total := 1<<bits + []int{0, 1, r.Intn(100), r.Intn(1 << 16)}[r.Intn(4)]
	var ls []string
	for k := 0; k < 2; k++ {
		n := 1<<(15+r.Intn(3)) + []int{-1, 0, 1, r.Intn(1000)}[r.Intn(4)]
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a' + byte(k) + byte(2*r.Intn(13))
		}
		b[0] = 'a' + byte(k)
		g.Rules[2].Alts[k][0].S = string(b)
		ls = append(ls, string(b))
	}
	sb := []byte(ls[r.Intn(2)])
	for len(sb) < total {
		switch r.Intn(8) {
		case 0:
			sb = append(sb, ';')
		default:
			sb = append(sb, ',')
			sb = append(sb, ls[r.Intn(2)]...)
		}
	}
	s := string(sb)
	sb[len(sb)-1-r.Intn(1000)] ^= 1
	c.Max("bytes of a far input", len(s))
	return g, []input{{s, true}, {string(sb), false}}
}

func init() {
	// ---------------------------------------------------------------- C01
	lang := func(c *Ctx, g *Gram, ins []input) {
		b := g.toBNF()
		_, _, p, err := mk(b)
		if err != nil {
			c.Count("grammars rejected by generation", 1)
			return
		}
		c.Count("grammars", 1)
		c.Max("rules", len(g.Rules))
		var ref *Ref
		for _, in := range ins {
			want, how := false, "earley"
			switch {
			case in.derived:
				want, how = true, "derivation"
			case len(in.s) <= 60 && len(g.Rules) <= 40:
				want, _ = g.earley(in.s)
			default:
				if ref == nil {
					ref = analyse(g)
				}
				if ref.conflict != "" {
					continue
				}
				want, _, _ = ref.predictive(in.s)
				how = "reference parser"
			}
			t, _, err := p.Parse(in.s)
			got := err == nil && t != nil
			if got != want {
				c.Fail("input %s: accepted %v, in the language %v (by %s), "+
					"error %v\ngrammar %s\n%s", clip(in.s), got, want, how, err,
					g.Kind, clipG(g))
			}
			c.Count("inputs decided by "+how, 1)
			if want {
				c.Count("accepted", 1)
			} else {
				c.Count("rejected", 1)
			}
			c.Max("input bytes", len(in.s))
			c.Eval(in.s != "", g.String(), in.s)
		}
		if len(ins) > 1 {
			c.Sample("%s(%d inputs such as %s)", clipG(g), len(ins), clip(ins[0].s))
		}
	}
	register(&Prop{ID: "C01", Level: "exploration",
		Rule: "A case is a grammar (random LL(1), unrestricted random, edited " +
			"LL(1), realistic, of a structured family at a boundary size, or " +
			"huge: terminals, alternatives, lists, names, rule counts) " +
			"and inputs: sentences derived from it, damaged sentences, noise, " +
			"all short strings. An evaluation compares one Parse verdict with " +
			"an Earley recogniser (short inputs), the derivation itself, or an " +
			"independent LL(1) parser (long ones). Non-trivial: the input is " +
			"not empty; distinct by grammar and input.",
		Need: map[string]int64{"accepted": 2000, "rejected": 2000, "grammars": 500},
		Assume: []string{"grammars the generator refuses are not judged here (C03)",
			"the harness's Earley recogniser and LL(1) analysis"},
		Families: []Family{
			{Name: "ll1", Quick: 40000, Thorough: 600000, Run: func(c *Ctx) {
				g := randLL1(c.R)
				lang(c, g, inputs(c.R, g, newDeriver(g), 6, 10, 5, 60))
			}},
			{Name: "any", Quick: 80000, Thorough: 1200000, Run: func(c *Ctx) {
				g := hollow(c.R, randGram(c.R, 5, 3, 3))
				lang(c, g, inputs(c.R, g, newDeriver(g), 5, 5, 6, 20))
			}},
			{Name: "edited", Quick: 40000, Thorough: 600000, Run: func(c *Ctx) {
				g := tweak(c.R, randLL1(c.R))
				lang(c, g, inputs(c.R, g, newDeriver(g), 6, 6, 3, 30))
			}},
			{Name: "exhaustive", Quick: 2000, Thorough: 40000, Run: func(c *Ctx) {
				g := randLL1(c.R)
				for len(g.alphabet()) > 5 {
					g = randLL1(c.R)
				}
				al := g.alphabet()
				if c.chance(1, 3) {
					al = append(al, 0)
				}
				var ins []input
				max := 4
				if len(al) <= 3 {
					max = 5
				}
				var rec func(s string)
				rec = func(s string) {
					ins = append(ins, input{s, false})
					if len(s) < max {
						for _, b := range al {
							rec(s + string([]byte{b}))
						}
					}
				}
				rec("")
				lang(c, g, ins)
			}},
			{Name: "real", Quick: 600, Thorough: 8000, Run: func(c *Ctx) {
				gs := realGrams()
				g := gs[c.Idx%len(gs)]
				if c.chance(1, 2) {
					g = reorder(c.R, shuffleAlts(c.R, g), 2)
				}
				lang(c, g, inputs(c.R, g, newDeriver(g), 10, 20, 10,
					[]int{50, 300, 3000}[c.Intn(3)]))
			}},
			{Name: "structured", Quick: famCount(45), Thorough: famCount(120),
				Run: func(c *Ctx) {
					g := structCase(c)
					lang(c, g, inputs(c.R, g, newDeriver(g), 4, 6, 3, 100))
				}},
			{Name: "big", Quick: 130, Thorough: 200, Run: func(c *Ctx) {
				g, in, ok := bigCase(c)
				lang(c, g, []input{{in, ok}})
			}},
			{Name: "huge", Quick: 150, Thorough: 400, Run: func(c *Ctx) {
				g, ins := hugeCase(c)
				lang(c, g, ins)
			}},
			{Name: "far", Quick: 2, Thorough: 16, Run: func(c *Ctx) {
				g, ins := farCase(c, 23)
				lang(c, g, ins)
			}},
		}})

	// ---------------------------------------------------------------- C02
	tree := func(c *Ctx, g *Gram, ins []input) {
		_, names, p, err := mk(g.toBNF())
		_ = names
		if err != nil {
			c.Count("grammars rejected by generation", 1)
			return
		}
		ref := analyse(g)
		for _, in := range ins {
			t, _, err := p.Parse(in.s)
			if err != nil {
				c.Count("inputs rejected", 1)
				continue
			}
			n, e := validTree(g, ref, in.s, t)
			if e != nil {
				c.Fail("input %s: %v\ngrammar %s\n%s", clip(in.s), e, g.Kind,
					clipG(g))
			}
			c.Count("trees", 1)
			c.Count("nodes", n)
			c.Max("nodes in a tree", n)
			c.Eval(n > 3, g.String(), in.s)
			if n > 5 && n < 30 {
				c.Sample("%sinput %s: %d nodes valid", clipG(g), clip(in.s), n)
			}
		}
	}
	register(&Prop{ID: "C02", Level: "exploration",
		Rule: "Grammars and inputs as for C01. An evaluation walks one tree " +
			"returned by Parse and checks every node against the rules of the " +
			"grammar and the bytes of the input (unambiguous grammars: the " +
			"valid tree is unique). Non-trivial: more than three nodes; " +
			"distinct by grammar and input.",
		Need:   map[string]int64{"trees": 5000, "nodes": 50000},
		Assume: []string{"rejected inputs are judged by C01"},
		Families: []Family{
			{Name: "ll1", Quick: 60000, Thorough: 1000000, Run: func(c *Ctx) {
				g := randLL1(c.R)
				tree(c, g, inputs(c.R, g, newDeriver(g), 8, 4, 0, 150))
			}},
			{Name: "any", Quick: 10000, Thorough: 200000, Run: func(c *Ctx) {
				g := randGram(c.R, 5, 3, 3)
				tree(c, g, inputs(c.R, g, newDeriver(g), 6, 2, 2, 40))
			}},
			{Name: "real", Quick: 600, Thorough: 8000, Run: func(c *Ctx) {
				gs := realGrams()
				g := gs[c.Idx%len(gs)]
				if c.chance(1, 2) {
					g = reorder(c.R, shuffleAlts(c.R, g), 2)
				}
				tree(c, g, inputs(c.R, g, newDeriver(g), 10, 5, 0,
					[]int{50, 300, 3000}[c.Intn(3)]))
			}},
			{Name: "structured", Quick: famCount(45), Thorough: famCount(120),
				Run: func(c *Ctx) {
					g := structCase(c)
					tree(c, g, inputs(c.R, g, newDeriver(g), 5, 0, 0, 200))
				}},
			{Name: "big", Quick: 130, Thorough: 200, Run: func(c *Ctx) {
				g, in, ok := bigCase(c)
				tree(c, g, []input{{in, ok}})
			}},
			{Name: "huge", Quick: 150, Thorough: 400, Run: func(c *Ctx) {
				g, ins := hugeCase(c)
				tree(c, g, ins)
			}},
			{Name: "far", Quick: 2, Thorough: 16, Run: func(c *Ctx) {
				g, ins := farCase(c, 24)
				tree(c, g, ins[:1])
			}},
		}})

	// ---------------------------------------------------------------- C03
	verdict := func(c *Ctx, g *Gram) {
		ref := analyse(g)
		b := g.toBNF()
		t, n, err := tablegen.FromGrammar(b)
		want := ref.conflict == ""
		got := err == nil
		if got != want {
			c.Fail("generation succeeded %v (error %v), LL(1) %v (%s)\n"+
				"grammar %s\n%s", got, err, want, ref.conflict, g.Kind, clipG(g))
		}
		if (t != nil) != got || (n != nil) != got {
			c.Fail("error %v but table %v names %v\n%s", err, t != nil, n != nil,
				clipG(g))
		}
		if want {
			c.Count("LL(1) grammars", 1)
		} else {
			c.Count("conflicting grammars", 1)
			k := ref.conflict
			if strings.Contains(k, "(follow)") {
				c.Count("conflicts first seen at a FOLLOW symbol", 1)
			}
		}
		c.Max("rules", len(g.Rules))
		c.Eval(len(g.Rules) > 1, g.String())
		c.Sample("%s-> %v", clipG(g), err)
	}
	register(&Prop{ID: "C03", Level: "exploration",
		Rule: "A case is a well-formed grammar: unrestricted random, LL(1) by " +
			"construction, an LL(1) one with one or two random edits, or a " +
			"structured family at boundary sizes and rule orders, plain and " +
			"edited. An evaluation compares whether FromGrammar succeeds with a " +
			"textbook LL(1) analysis. Non-trivial: more than one rule; distinct " +
			"by grammar.",
		Need: map[string]int64{"LL(1) grammars": 5000, "conflicting grammars": 5000,
			"conflicts first seen at a FOLLOW symbol": 300},
		Assume: []string{"FIRST and FOLLOW are the textbook fixpoints over all " +
			"rules, reachable or not"},
		Families: []Family{
			{Name: "any", Quick: 150000, Thorough: 3000000, Run: func(c *Ctx) {
				verdict(c, hollow(c.R, randGram(c.R, 6, 3, 4)))
			}},
			{Name: "ll1", Quick: 25000, Thorough: 500000, Run: func(c *Ctx) {
				verdict(c, randLL1(c.R))
			}},
			{Name: "edited", Quick: 40000, Thorough: 800000, Run: func(c *Ctx) {
				g := tweak(c.R, randLL1(c.R))
				if c.chance(1, 3) {
					g = tweak(c.R, g)
				}
				verdict(c, g)
			}},
			{Name: "structured", Quick: famCount(45), Thorough: famCount(120),
				Run: func(c *Ctx) { verdict(c, structCase(c)) }},
			{Name: "huge", Quick: 100, Thorough: 400, Run: func(c *Ctx) {
				g, _ := hugeCase(c)
				verdict(c, g)
				verdict(c, farConflict(c.R, g))
			}},
			{Name: "structured-edited", Quick: famCount(45),
				Thorough: famCount(200), Run: func(c *Ctx) {
					g := structCase(c)
					verdict(c, farConflict(c.R, g))
				}},
			{Name: "real", Quick: 3000, Thorough: 30000, Run: func(c *Ctx) {
				gs := realGrams()
				g := gs[c.Idx%len(gs)]
				if c.chance(1, 5) {
					g = fromBNF(bnf.SelfGrammar())
				}
				if c.chance(1, 2) {
					g = reorder(c.R, shuffleAlts(c.R, g), 2)
				}
				for k := c.Intn(3); k > 0; k-- {
					g = tweak(c.R, g)
				}
				verdict(c, g)
			}},
		}})

	// ---------------------------------------------------------------- C04
	register(&Prop{ID: "C04", Level: "exploration",
		Rule: "A case is a well-formed grammar (random, LL(1), structured) into " +
			"which one defect (or several) is put at random places: no rules, undefined or " +
			"twice defined non terminal, empty terminal, terminal starting with " +
			"a zero byte, empty string beside other symbols, empty sequence, nil " +
			"or foreign symbol. An evaluation checks that FromGrammar returns an " +
			"error, no table, no names, and does not panic. Non-trivial: more " +
			"than one rule; distinct by defect and grammar.",
		Need: map[string]int64{"malformed grammars": 5000},
		Families: []Family{
			{Name: "large", Quick: famCount(60), Thorough: famCount(400),
				Run: func(c *Ctx) { malformed(c, structCase(c)) }},
			{Name: "huge", Quick: 80, Thorough: 600, Run: func(c *Ctx) {
				g, _ := hugeCase(c)
				malformed(c, g)
			}},
			{Name: "defect", Quick: 800000, Thorough: 4000000, Run: func(c *Ctx) {
				var g *Gram
				switch c.Intn(6) {
				case 0:
					g = randGram(c.R, 6, 3, 4)
				case 1:
					g = structured(c.R, c.Intn(9), 1+c.Intn(12))
				case 2:
					if c.chance(1, 10) {
						g = structured(c.R, c.Intn(9), c.size(300))
						break
					}
					g = tweak(c.R, randGram(c.R, 6, 3, 4))
				default:
					g = randLL1(c.R)
				}
				malformed(c, g)
			}},
		}})

	// ---------------------------------------------------------------- C05
	tbl := func(c *Ctx, g *Gram) {
		t, n, err := tablegen.FromGrammar(g.toBNF())
		if err != nil {
			c.Count("grammars rejected by generation", 1)
			return
		}
		ref := analyse(g)
		if ref.conflict != "" {
			c.Count("grammars accepted though conflicting", 1) // C03
			return
		}
		if d := tableDiff(*t, ref.table()); d != "" {
			c.Fail("table: %s\ngrammar %s\n%s", d, g.Kind, clipG(g))
		}
		cells := 0
		for _, r := range *t {
			cells += len(r)
		}
		if len(*n) != len(g.Rules) {
			c.Fail("%d names for %d rules\n%s", len(*n), len(g.Rules), clipG(g))
		}
		for i, r := range g.Rules {
			if v, ok := (*n)[i]; !ok || v != r.Name {
				c.Fail("row %d is named %q (present %v), rule is %q\n%s", i, v,
					ok, r.Name, clipG(g))
			}
		}
		c.Count("tables", 1)
		c.Count("cells compared", cells)
		c.Max("cells in a table", cells)
		c.Max("rows", len(*t))
		c.Eval(cells > 2, g.String())
		if cells < 40 {
			c.Sample("%s-> %d cells as expected", clipG(g), cells)
		}
	}
	register(&Prop{ID: "C05", Level: "exploration",
		Rule: "Grammars as for C03. An evaluation compares every cell of the " +
			"table and every row name with the textbook prediction of each " +
			"alternative. Non-trivial: more than two cells; distinct by grammar.",
		Need: map[string]int64{"tables": 5000, "cells compared": 50000},
		Families: []Family{
			{Name: "ll1", Quick: 40000, Thorough: 800000, Run: func(c *Ctx) {
				tbl(c, randLL1(c.R))
			}},
			{Name: "any", Quick: 60000, Thorough: 1000000, Run: func(c *Ctx) {
				tbl(c, hollow(c.R, randGram(c.R, 6, 3, 4)))
			}},
			{Name: "structured", Quick: famCount(45), Thorough: famCount(120),
				Run: func(c *Ctx) { tbl(c, structCase(c)) }},
			{Name: "real", Quick: 400, Thorough: 6000, Run: func(c *Ctx) {
				gs := realGrams()
				g := gs[c.Idx%len(gs)]
				if c.chance(1, 4) {
					g = fromBNF(bnf.SelfGrammar())
				}
				tbl(c, reorder(c.R, shuffleAlts(c.R, g), c.Intn(3)))
			}},
			{Name: "huge", Quick: 100, Thorough: 400, Run: func(c *Ctx) {
				g, _ := hugeCase(c)
				tbl(c, g)
			}},
		}})

	// ---------------------------------------------------------------- C06
	diag := func(c *Ctx, g *Gram, ins []input) {
		_, _, p, err := mk(g.toBNF())
		if err != nil {
			c.Count("grammars rejected by generation", 1)
			return
		}
		ref := analyse(g)
		if ref.conflict != "" || !g.reduced() {
			return
		}
		for _, in := range ins {
			_, _, err := p.Parse(in.s)
			if err == nil {
				continue
			}
			ok, pos, msg := ref.predictive(in.s)
			if ok {
				continue // C01
			}
			if len(in.s) <= 40 && len(g.Rules) <= 20 && c.chance(1, 4) {
				if ok, v := g.earley(in.s); ok || v != pos {
					panic(fmt.Sprintf("oracles disagree: %q viable %d and %d\n%s",
						in.s, v, pos, g))
				}
				c.Count("offending positions confirmed by earley", 1)
			}
			if err.Error() != msg {
				c.Fail("input %s rejected with %q, first offending byte at %d: %q"+
					"\ngrammar %s\n%s", clip(in.s), err.Error(), pos, msg, g.Kind,
					clipG(g))
			}
			switch {
			case strings.HasPrefix(msg, "no rules"):
				c.Count("rejected at a non terminal", 1)
			case strings.HasPrefix(msg, "expected end"):
				c.Count("rejected at the end of a sentence", 1)
			default:
				c.Count("rejected within a terminal", 1)
			}
			c.Max("offending offset", pos)
			c.Eval(pos > 0, g.String(), in.s)
			c.Sample("%sinput %s: %s", clipG(g), clip(in.s), msg)
		}
	}
	register(&Prop{ID: "C06", Level: "exploration",
		Rule: "Reduced LL(1) grammars as for C01, inputs mostly damaged " +
			"sentences. An evaluation compares the error of one rejected input " +
			"with the one due for the first byte no sentence can have there. " +
			"Non-trivial: a non-empty prefix precedes that byte; distinct by " +
			"grammar and input.",
		Need: map[string]int64{"rejected at a non terminal": 1000,
			"rejected at the end of a sentence": 500,
			"rejected within a terminal":        500},
		Families: []Family{
			{Name: "ll1", Quick: 20000, Thorough: 400000, Run: func(c *Ctx) {
				g := randLL1(c.R)
				diag(c, g, inputs(c.R, g, newDeriver(g), 6, 16, 6, 80))
			}},
			{Name: "real", Quick: 800, Thorough: 10000, Run: func(c *Ctx) {
				gs := realGrams()
				g := gs[c.Idx%len(gs)]
				diag(c, g, inputs(c.R, g, newDeriver(g), 10, 30, 10,
					[]int{50, 300, 3000}[c.Intn(3)]))
			}},
			{Name: "structured", Quick: famCount(45), Thorough: famCount(120),
				Run: func(c *Ctx) {
					g := structCase(c)
					diag(c, g, inputs(c.R, g, newDeriver(g), 3, 10, 3, 100))
				}},
			{Name: "bytes", Quick: 64, Thorough: 256, Run: func(c *Ctx) {
				// every byte as the offending one, at all three places
				g := miniGram("bytes", "S = 'mn' T\nT = | 'q' T\n")
				var ins []input
				for b := 0; b < 256; b++ {
					s := string([]byte{byte(b)})
					for _, pre := range []string{"", "m", "mn", "mnq", "mnqq"} {
						ins = append(ins, input{pre + s, false},
							input{pre + s + "q", false}, input{pre, false})
					}
				}
				g = reorder(c.R, g, 0)
				g.Rules[0].Name = c.R.names(1)[0]
				diag(c, g, ins)
			}},
			{Name: "big", Quick: 130, Thorough: 200, Run: func(c *Ctx) {
				g, in, _ := bigCase(c)
				b := []byte(in)
				b[len(b)-1-c.Intn(len(b)/2)] = '!'
				diag(c, g, []input{{string(b), false}, {in[:len(in)-1], false},
					{in + "\x00", false}})
			}},
			{Name: "huge", Quick: 150, Thorough: 400, Run: func(c *Ctx) {
				g, ins := hugeCase(c)
				diag(c, g, ins)
			}},
			{Name: "far", Quick: 2, Thorough: 16, Run: func(c *Ctx) {
				g, ins := farCase(c, 23)
				diag(c, g, ins[1:])
			}},
		}})

	// ---------------------------------------------------------------- C17
	fin := func(c *Ctx, g *Gram, ins []input) {
		_, _, p, err := mk(g.toBNF())
		c.Count("generations finished", 1)
		if err != nil {
			return
		}
		width := 1
		for _, r := range g.Rules {
			for _, a := range r.Alts {
				if len(a) > width {
					width = len(a)
				}
			}
		}
		for _, in := range ins {
			var m0, m1 runtime.MemStats
			meter := c.Idx%16 == 0
			if meter {
				runtime.ReadMemStats(&m0)
			}
			t, _, err := p.Parse(in.s)
			if meter {
				runtime.ReadMemStats(&m1)
				// generous: every byte may open every rule once, each with
				// width symbols; constants cover bookkeeping
				lim := uint64(len(in.s)+2) * uint64(len(g.Rules)+1) *
					uint64(2*width+4) * 64
				if d := m1.Mallocs - m0.Mallocs; d > lim+10000 {
					c.Fail("Parse of %d bytes made %d allocations (limit %d)\n"+
						"input %s\n%s", len(in.s), d, lim, clip(in.s), clipG(g))
				}
				c.Count("parses metered", 1)
			}
			c.Count("parses finished", 1)
			_, _ = t, err
			c.Eval(len(g.Rules) > 1, g.String(), in.s)
			c.Max("input bytes", len(in.s))
		}
		if len(ins) > 1 {
			c.Sample("%s%d parses ended", clipG(g), len(ins))
		}
	}
	register(&Prop{ID: "C17", Level: "exploration",
		Rule: "Grammars biased to left recursion, cycles, nullable and " +
			"unproductive rules, plus structured and large ones; inputs as for " +
			"C01 and up to megabytes with nesting as deep. An evaluation is one " +
			"Parse that returned within the budgets of processor time and " +
			"memory; a part is metered for allocations, and growth of allocated " +
			"bytes, and of the processor time of the thread, with input length is " +
			"compared at two sizes. Non-trivial: more " +
			"than one rule; distinct by grammar and input.",
		Need: map[string]int64{"parses finished": 5000, "growth ratios": 100,
			"time ratios": 14},
		Assume: []string{"budgets of 90 s processor time and 3 GB per case, " +
			"hundreds of times what the cases use, stand for 'does not end'"},
		Families: []Family{
			{Name: "cyclic", Quick: 60000, Thorough: 1000000, Run: func(c *Ctx) {
				g := randGram(c.R, 5, 3, 3)
				for k := c.Intn(4); k > 0; k-- { // more left recursion
					i := c.Intn(len(g.Rules))
					al := g.Rules[i].Alts
					j := c.Intn(len(al))
					al[j] = append(Alt{nt(c.Intn(len(g.Rules)))}, al[j]...)
				}
				al := g.alphabet()
				var ins []input
				for k := 0; k < 6; k++ {
					ins = append(ins, input{randBytes(c.R, c.Intn(6), al), false})
				}
				fin(c, g, append(ins, input{"", false}))
			}},
			{Name: "ll1", Quick: 6000, Thorough: 100000, Run: func(c *Ctx) {
				g := randLL1(c.R)
				fin(c, g, inputs(c.R, g, newDeriver(g), 5, 5, 3, 400))
			}},
			{Name: "structured", Quick: famCount(45), Thorough: famCount(120),
				Run: func(c *Ctx) {
					g := structCase(c)
					fin(c, g, inputs(c.R, g, newDeriver(g), 3, 3, 1, 200))
				}},
			{Name: "big", Quick: 60, Thorough: 200, Run: func(c *Ctx) {
				g, in, _ := bigCase(c)
				fin(c, g, []input{{in, false}})
			}},
			{Name: "deep", Quick: 8, Thorough: 16, Run: func(c *Ctx) {
				n := []int{100000, 300000, 500000, 700000, 1000000, 250000,
					150000, 400000}[c.Idx%8]
				if c.Tier == "thorough" {
					n *= 2
				}
				g := miniGram("deep", "S = '(' S ')' | 'x'\n")
				_, _, p, err := mk(g.toBNF())
				if err != nil {
					c.Fail("no table: %v", err)
				}
				t, _, err := p.Parse(strings.Repeat("(", n) + "x" +
					strings.Repeat(")", n))
				if err != nil || t == nil {
					c.Fail("input nested %d deep not parsed: %v", n, err)
				}
				count := 0
				for st := []cst.Node{t}; len(st) > 0; {
					x := st[len(st)-1]
					st = append(st[:len(st)-1], x.Childs()...)
					count++
				}
				if count != 3*n+2 {
					c.Fail("tree of input nested %d deep has %d nodes of %d",
						n, count, 3*n+2)
				}
				c.Max("nesting depth", n)
				c.Count("deep trees", 1)
				c.Eval(true, "deep", uint64(n))
			}},
			{Name: "growth", Quick: 240, Thorough: 2400, Run: growth},
			{Name: "source", Quick: 32, Thorough: 320, Run: growthSource},
			{Name: "huge", Quick: 60, Thorough: 300, Run: func(c *Ctx) {
				g, ins := hugeCase(c)
				if len(ins) > 4 {
					ins = ins[:4]
				}
				fin(c, g, ins)
			}},
			{Name: "time", Quick: 14, Thorough: 56, Serial: true, Run: growthTime},
		}})
}

// growthCase: a grammar and its sentences by size
func growthCase(r R, k int) (*Gram, func(n int) string) {
	loop := func(pre, body string) func(int) string {
		return func(n int) string { return pre + strings.Repeat(body, n/len(body)) }
	}
	switch k % 14 {
	case 0, 1, 2, 3, 4:
		kind := bigKinds[k%14]
		for _, x := range realGrams() {
			if x.Kind == kind {
				return x, func(n int) string { return growthInput(kind, n) }
			}
		}
	case 5: // nodes with many children
		g := miniGram("wideloop", "S = | 'a' S\nX = 'q'\n")
		a := Alt{tm("w")}
		for i := 0; i < 60; i++ {
			a = append(a, tm("b"), nt(1))
		}
		g.Rules[0].Alts[1] = append(a, nt(0))
		return g, loop("", "w"+strings.Repeat("bq", 60))
	case 6: // runs of rules deriving nothing
		return miniGram("emptyrun", "S = | A B C D 'e' S\nA = | 'a'\nB = | 'b'\n"+
			"C = | 'c'\nD = A2 B2\nA2 = | 'x'\nB2 = | 'y'\n"), loop("", "e")
	case 7: // nested, each level closed by rules deriving nothing
		return miniGram("closing", "S = '(' S R R2 ')' | 'x'\nR = | 'r'\nR2 = | 'u'\n"),
			func(n int) string {
				return strings.Repeat("(", n/2) + "x" + strings.Repeat(")", n/2)
			}
	case 8: // right recursion ending in rules deriving nothing
		return miniGram("tails", "S = 'a' S T | 'b'\nT = U\nU =\n"),
			func(n int) string { return strings.Repeat("a", n) + "b" }
	case 9: // unit chains below every item
		return miniGram("units", "S = | U S\nU = V\nV = W\nW = X\nX = Y\nY = '1' | '2'\n"),
			loop("", "12")
	case 10: // terminals of many bytes
		t := strings.Repeat("longterminal", 40)
		g := miniGram("longterms", "S = | 'l' S\n")
		g.Rules[0].Alts[1][0] = tm(t)
		return g, loop("", t)
	case 11: // sequences whose parts are lists
		return miniGram("lists", "S = '[' L ']'\nL = | I M\nM = | ',' I M\nI = 'i' | S\n"),
			func(n int) string {
				return "[" + strings.Repeat("i,[i,i],", n/8) + "i]"
			}
	case 12: // left half of the input on the stack as symbols
		return miniGram("mirror", "S = 'a' S A B | 'm'\nA = 'x'\nB = 'y' | 'z'\n"),
			func(n int) string {
				return strings.Repeat("a", n/3) + "m" + strings.Repeat("xy", n/3)
			}
	case 13: // many rules in turn
		g := manyGram(r, 200)
		d := newDeriver(g)
		s, _ := d.sentence(newR(7), 50)
		g.Rules = append(g.Rules, Rule{"loop", []Alt{{}, {tm("L"), nt(0), nt(len(g.Rules))}}})
		n := len(g.Rules)
		perm := make([]int, n)
		for i := range perm {
			perm[i] = (i + 1) % n
		}
		return permute(g, perm), loop("", "L"+s)
	}
	panic("growthCase")
}

// growth: bytes allocated at one size and at 16 times that
func growth(c *Ctx) {
	g, f := growthCase(c.R, c.Idx)
	_, _, p, err := mk(g.toBNF())
	if err != nil {
		c.Fail("no table: %v\n%s", err, clipG(g))
	}
	n := 2000 + c.Intn(3000)
	small, big := f(n), f(16*n)
	want := true
	if c.chance(1, 4) { // rejected, late
		want = false
		small += "\x01"
		big += "\x01"
	}
	kind := []string{"string", "[]byte", "*bytes.Buffer", "reader, whole",
		"reader, byte by byte", "reader, 100 bytes"}[(c.Idx/14)%6]
	meas := func(s string) uint64 {
		var src any = s
		switch kind {
		case "[]byte":
			src = []byte(s)
		case "*bytes.Buffer":
			src = bytes.NewBufferString(s)
		case "reader, whole":
			src = struct{ io.Reader }{strings.NewReader(s)}
		case "reader, byte by byte":
			src = iotest.OneByteReader(strings.NewReader(s))
		case "reader, 100 bytes":
			rd := randReader(c.R, s)
			rd.chunk = func(int) int { return 100 }
			src = rd
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		_, _, err := p.Parse(src)
		runtime.ReadMemStats(&m1)
		if (err == nil) != want {
			c.Fail("%s: %d bytes as %s: error %v, in the language %v", g.Kind,
				len(s), kind, err, want)
		}
		return m1.TotalAlloc - m0.TotalAlloc
	}
	a := meas(small)
	b := meas(big)
	// 16 times the input: 16 times the memory; doubling of slices can double
	// the ratio
	r := uint64(len(big) / len(small))
	if b > 3*(r+1)*a+(1<<20) {
		c.Fail("%s as %s: parsing %d bytes allocates %d bytes, parsing %d "+
			"allocates %d\n%s", g.Kind, kind, len(small), a, len(big), b, clipG(g))
	}
	c.Count("growth ratios", 1)
	c.Max("allocation growth x100 for 16x input", int(b*100/a))
	c.Eval(true, g.Kind, kind, uint64(n))
}

// growthSource: what reading the source costs, seen apart from the tree: inputs
// rejected at the first byte, and inputs that are one terminal
func growthSource(c *Ctx) {
	kinds := []string{"string", "[]byte", "*bytes.Buffer", "reader, whole",
		"reader, byte by byte", "reader, 100 bytes", "reader, 4096 bytes",
		"reader, data with EOF"}
	kind := kinds[c.Idx%len(kinds)]
	rejected := c.Idx/len(kinds)%2 == 0
	n := 100000 + c.Intn(150000)
	meas := func(n int) uint64 {
		s := strings.Repeat("abcdefghijklmnopqrstuvwxyz012345", n/32)
		term := s
		if rejected {
			term = "z"
		}
		g := &Gram{Kind: "one terminal", Rules: []Rule{{Name: "S",
			Alts: []Alt{{tm(term)}}}}}
		_, _, p, err := mk(g.toBNF())
		if err != nil {
			c.Fail("no table: %v", err)
		}
		var src any = s
		switch {
		case kind == "[]byte":
			src = []byte(s)
		case kind == "*bytes.Buffer":
			src = bytes.NewBufferString(s)
		case kind == "reader, whole":
			src = struct{ io.Reader }{strings.NewReader(s)}
		case kind == "reader, byte by byte":
			src = iotest.OneByteReader(strings.NewReader(s))
		case kind == "reader, data with EOF":
			src = iotest.DataErrReader(strings.NewReader(s))
		case strings.HasPrefix(kind, "reader"):
			rd := randReader(c.R, s)
			k := 100
			if strings.Contains(kind, "4096") {
				k = 4096
			}
			rd.chunk = func(int) int { return k }
			src = rd
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		_, _, err = p.Parse(src)
		runtime.ReadMemStats(&m1)
		if (err != nil) != rejected {
			c.Fail("%d bytes as %s: error %v, outside the language %v",
				len(s), kind, err, rejected)
		}
		return m1.TotalAlloc - m0.TotalAlloc
	}
	a, b := meas(n), meas(16*n)
	if b > 51*a+(1<<20) {
		c.Fail("%s, rejected at once %v: parsing %d bytes allocates %d bytes, "+
			"parsing %d allocates %d", kind, rejected, n, a, 16*n, b)
	}
	c.Count("source growth ratios", 1)
	c.Max("source allocation growth x100 for 16x input", int(b*100/max(a, 1)))
	c.Eval(true, kind, rejected, uint64(n))
}

func threadCPU() int64 {
	// CLOCK_THREAD_CPUTIME_ID; rusage counts in ticks of some milliseconds
	var ts syscall.Timespec
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3,
		uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		panic(e)
	}
	return ts.Nano()
}

// growthTime: processor time likewise. Repeated before it counts: other work on
// the machine slows single runs down
func growthTime(c *Ctx) {
	g, f := growthCase(c.R, c.Idx)
	_, _, p, err := mk(g.toBNF())
	if err != nil {
		c.Fail("no table: %v\n%s", err, clipG(g))
	}
	small, big := f(16000), f(256000)
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	meas := func(s string) int64 {
		runtime.GC()
		t := threadCPU()
		_, _, err := p.Parse(s)
		t = threadCPU() - t
		if err != nil {
			c.Fail("%s: sentence of %d bytes rejected: %v", g.Kind, len(s), err)
		}
		return t
	}
	a, b := int64(1<<62), int64(1<<62)
	for k := 0; k < 12; k++ {
		a = min(a, meas(small), meas(small))
		b = min(b, meas(big))
		// linear: 16 times, more with a cold cache; quadratic: 256 times
		if b < 90*a+int64(60*time.Millisecond) {
			c.Count("time ratios", 1)
			c.Max("time growth x100 for 16x input", int(b*100/max(a, 1)))
			c.Eval(true, g.Kind, "time")
			return
		}
	}
	c.Fail("%s: parsing %d bytes takes %d us of processor time, parsing %d takes "+
		"%d us, at best of 12 runs\n%s", g.Kind, len(small), a/1000, len(big), b/1000,
		clipG(g))
}

func growthInput(kind string, n int) string {
	switch kind {
	case "list":
		return strings.Repeat("a", n)
	case "nested":
		return strings.Repeat("[", n/2) + strings.Repeat("]", n/2)
	case "lisp":
		return strings.Repeat("(a b) ", n/6)
	case "arith":
		return "1" + strings.Repeat("+(2*3)", n/6)
	}
	return strings.Repeat("\x80", n/3) + "\xff" + strings.Repeat("\xc3\xa9", n/3)
}

// farConflict: put a conflict where a structured grammar is far from its start
func farConflict(r R, g *Gram) *Gram {
	g = g.clone()
	g.Kind += "+far"
	ref := analyse(g)
	// rules with a FOLLOW byte not in their FIRST: give them an alternative on it
	var cand []int
	for i := range g.Rules {
		if ref.nullable[i] {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 || r.chance(1, 3) {
		return tweak(r, g)
	}
	i := cand[r.Intn(len(cand))]
	var fs []int
	for c := 1; c < 256; c++ {
		if ref.follow[i].has(c) && !ref.first[i].has(c) {
			fs = append(fs, c)
		}
	}
	if len(fs) == 0 {
		return tweak(r, g)
	}
	a := Alt{tm(one(fs[r.Intn(len(fs))]))}
	al := g.Rules[i].Alts
	p := r.Intn(len(al) + 1)
	b := append([]Alt{}, al[:p]...)
	b = append(b, a)
	g.Rules[i].Alts = append(b, al[p:]...)
	return g
}

type foreignSymbol int

func (f foreignSymbol) Type() int    { return int(f) }
func (foreignSymbol) String() string { return "?" }

// not the symbols of the package, though they have all their methods
type wrappedTerminal struct{ bnf.SymbolTerminal }
type wrappedNonTerminal struct{ bnf.SymbolNonTerminal }

func malformed(c *Ctx, g *Gram) {
	b := g.toBNF()
	n := len(b.Rules)
	if c.chance(1, 6) { // rules without alternatives
		for i := range b.Rules {
			if c.chance(1, 3) {
				b.Rules[i].Tail.Sequences = nil
			}
		}
	}
	seq := func() (*bnf.Sequence, int) {
		i := c.Intn(n)
		if c.chance(1, 3) {
			i = n - 1
		}
		s := b.Rules[i].Tail.Sequences
		if len(s) == 0 {
			// one which will hold the defect
			b.Rules[i].Tail.Sequences = []bnf.Sequence{{
				Symbols: []bnf.Symbol{bnf.SymbolTerminal{Name: "s"}}}}
			s = b.Rules[i].Tail.Sequences
		}
		return &s[c.Intn(len(s))], i
	}
	isEmpty := func(s *bnf.Sequence) bool {
		if len(s.Symbols) == 0 {
			return false
		}
		_, ok := s.Symbols[0].(bnf.SymbolNothing)
		return ok
	}
	insert := func(s *bnf.Sequence, x bnf.Symbol) {
		if isEmpty(s) {
			s.Symbols = []bnf.Symbol{x}
			return
		}
		p := c.Intn(len(s.Symbols) + 1)
		if c.chance(1, 4) {
			p = len(s.Symbols)
		}
		y := append([]bnf.Symbol{}, s.Symbols[:p]...)
		y = append(y, x)
		s.Symbols = append(y, s.Symbols[p:]...)
	}
	kind := ""
	nd := 1
	if c.chance(1, 6) {
		nd = 2 + c.Intn(2) // several defects are one too
	}
	for ; nd > 0 && len(b.Rules) > 0; nd-- {
		n = min(n, len(b.Rules))
		switch c.Intn(11) {
		case 0:
			kind = "no rules"
			b = bnf.Grammar{}
			if c.chance(1, 2) {
				b.Rules = []bnf.Rule{}
			}
		case 1, 2:
			kind = "undefined non terminal"
			name := g.Rules[c.Intn(n)].Name
			switch c.Intn(10) {
			case 0:
				name = ""
			case 1:
				name = strings.ToUpper(name)
			case 2:
				name = strings.ToLower(name)
			case 3:
				name = name[:len(name)/2]
			case 4:
				name += " "
			case 5:
				name = "<" + name + ">"
			case 6:
				name = strings.TrimSpace(name)
			case 7: // of a hash equal to that of one which is defined
				p := colliding[c.Intn(len(colliding))]
				x := c.Intn(2)
				if rename(b, name, p[x]) {
					name = p[1-x]
				}
			default:
				name += "?"
			}
			for k := 0; ; k++ {
				clash := false
				for _, r := range b.Rules {
					clash = clash || r.Head.Name == name
				}
				if !clash {
					break
				}
				name += "x"
			}
			s, _ := seq()
			insert(s, bnf.SymbolNonTerminal{Name: name})
		case 3:
			kind = "defined twice"
			d := cloneBNF(b).Rules[c.Intn(n)]
			if c.chance(1, 2) {
				d.Tail = bnf.Substitution{Sequences: []bnf.Sequence{{
					Symbols: []bnf.Symbol{bnf.SymbolTerminal{Name: "zz"}}}}}
			} else if c.chance(1, 3) {
				d.Tail.Sequences = nil
			}
			p := c.Intn(n + 1)
			x := append([]bnf.Rule{}, b.Rules[:p]...)
			x = append(x, d)
			b.Rules = append(x, b.Rules[p:]...)
		case 4, 5:
			kind = "empty terminal"
			s, _ := seq()
			insert(s, bnf.SymbolTerminal{})
		case 6, 7:
			kind = "empty string among symbols"
			s, _ := seq()
			if len(s.Symbols) == 0 {
				s.Symbols = []bnf.Symbol{bnf.SymbolNothing{}}
			}
			if isEmpty(s) {
				s.Symbols = append(s.Symbols, bnf.SymbolNothing{})
				if c.chance(1, 2) {
					s.Symbols[1] = bnf.SymbolTerminal{Name: "t"}
				}
			} else {
				insert(s, bnf.SymbolNothing{})
			}
		case 8:
			kind = "empty sequence"
			s, _ := seq()
			s.Symbols = nil
			if c.chance(1, 2) {
				s.Symbols = []bnf.Symbol{}
			}
		case 9:
			kind = "terminal starting with a zero byte"
			s, _ := seq()
			insert(s, bnf.SymbolTerminal{Name: "\x00" + []string{"", "a", "\x00"}[c.Intn(3)]})
		case 10:
			kind = "unknown symbol"
			s, _ := seq()
			nm := g.Rules[c.Intn(n)].Name
			switch c.Intn(10) {
			case 0, 1, 2:
				insert(s, nil)
			case 3:
				insert(s, &bnf.SymbolTerminal{Name: "t"})
			case 4:
				insert(s, &bnf.SymbolNonTerminal{Name: nm})
			case 5:
				insert(s, []bnf.Symbol{(*bnf.SymbolTerminal)(nil),
					(*bnf.SymbolNonTerminal)(nil), (*bnf.SymbolNothing)(nil),
					&bnf.SymbolNothing{}}[c.Intn(4)])
			case 6:
				insert(s, []bnf.Symbol{wrappedTerminal{bnf.SymbolTerminal{Name: "t"}},
					wrappedNonTerminal{bnf.SymbolNonTerminal{Name: nm}}}[c.Intn(2)])
			default:
				insert(s, foreignSymbol([]int{bnf.TypeNonTerminal, bnf.TypeTerminal,
					bnf.TypeNothing, 3, 7, -1}[c.Intn(6)]))
			}
		}
	}
	t, names, err := func() (t *map[int]map[byte][]parser.ParserOp,
		n *map[int]string, err error) {
		return tablegen.FromGrammar(b)
	}()
	if err == nil || t != nil || names != nil {
		c.Fail("%s: error %v, table %v, names %v\nmade from\n%s", kind, err,
			t != nil, names != nil, clipG(g))
	}
	if err.Error() == "" {
		c.Fail("%s: error without text", kind)
	}
	c.Count("malformed grammars", 1)
	c.Count(kind, 1)
	c.Eval(n > 1, kind, fmt.Sprintf("%v", b))
	c.Sample("%s: %v", kind, err)
}

// rename a rule and its uses, unless there is one of that name
func rename(b bnf.Grammar, from, to string) bool {
	for _, r := range b.Rules {
		if r.Head.Name == to {
			return false
		}
	}
	for i := range b.Rules {
		if b.Rules[i].Head.Name == from {
			b.Rules[i].Head.Name = to
		}
		for _, q := range b.Rules[i].Tail.Sequences {
			for j := range q.Symbols {
				if n, ok := q.Symbols[j].(bnf.SymbolNonTerminal); ok && n.Name == from {
					q.Symbols[j] = bnf.SymbolNonTerminal{Name: to}
				}
			}
		}
	}
	return true
}
