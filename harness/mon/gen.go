package mon

import (
	"bytes"
	"fmt"
	"math/rand"
)

type R struct{ *rand.Rand }

func (r R) chance(num, den int) bool { return r.Intn(den) < num }
func (r R) pick(s string) byte       { return s[r.Intn(len(s))] }

// size: mostly small, sometimes a boundary or a literal of the code
func (r R) size(max int) int {
	switch r.Intn(10) {
	case 0:
		s := sizesUpTo(max)
		return s[r.Intn(len(s))]
	case 1:
		return r.Intn(max + 1)
	}
	k := 8
	if k > max {
		k = max
	}
	return r.Intn(k + 1)
}

// ---- names

func (r R) names(n int) []string {
	res := make([]string, n)
	used := map[string]bool{}
	mode := r.Intn(8)
	var pairs []string
	for _, k := range r.Perm(len(colliding)) {
		pairs = append(pairs, colliding[k][:]...)
	}
	for i := range res {
		for {
			var s string
			switch mode {
			case 6:
				s = r.longName()
			case 7:
				s = pairs[i%len(pairs)]
			case 0:
				s = fmt.Sprintf("r%d", i)
			case 1:
				s = bnfName(r, 1+r.Intn(6))
			case 2: // arbitrary bytes: names are just strings
				b := make([]byte, r.Intn(5))
				for j := range b {
					b[j] = byte(r.Intn(256))
				}
				s = string(b)
			case 3: // names alike: shared prefixes, case
				s = "aaaaaaaaaaaaaaaa"[:r.Intn(9)] + string("aAbB-"[r.Intn(5)]) +
					"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"[:r.Intn(20)]
			case 4:
				s = dict.Strs[r.Intn(len(dict.Strs))]
				if r.chance(1, 2) {
					s += fmt.Sprint(r.Intn(30))
				}
			case 5:
				s = []string{"Unknown_0", "Unknown_1", "_literal", "_nothing",
					"", " ", "<", ">", "EOL", "EOS", "\x00", "$", "letter",
					"symbol", "syntax", "é", "日本", "a\nb", "\""}[r.Intn(19)]
				if r.chance(1, 3) {
					s += fmt.Sprint(r.Intn(100))
				}
			}
			if used[s] {
				s += fmt.Sprintf("-%d", r.Intn(10*n+10))
			}
			if !used[s] {
				used[s] = true
				res[i] = s
				break
			}
		}
	}
	return res
}

// colliding: pairs of names of equal hash, for the hashes in common use
var colliding = [][2]string{
	{"Aa", "BB"}, {"ab", "ba"}, {"a1b", "b1a"},
	{"lqrnqydqaet", "dplgoaqdmpa"}, // 131
	{"vubpryfzutv", "pgxrbsvycjw"}, // 131
	{"dlmvpptcmbb", "yefzapcrkqq"}, // 31
	{"yzncswqpsei", "vrtoxwwjokc"}, // 31
	{"ayigweudxjt", "qlrljmhzrwx"}, // 33
	{"bbnokbcitxc", "gydvhdyoupv"}, // 33
	{"eplqronydvk", "mvapadbdsih"}, // 33x
	{"towxgsfmiuv", "wcoxgfddqyk"}, // 33x
	{"okhembjlxyp", "szfxjvxjmxa"}, // 65599
	{"tssaeocgtab", "uqetwyiatlw"}, // 65599
	{"ousadqbvpjx", "pvcildqwver"}, // adler
	{"qrlomitkxcs", "cuewuoyvneg"}, // adler
	{"alzkjgicnxp", "koxplwrrgnk"}, // crc32
	{"lnrwruuudre", "qvpqjafrqpk"}, // crc32
	{"gsxczqgiwbm", "ezqcybkyokc"}, // crc32c
	{"iqtujmhlole", "zmvbbqbslcl"}, // crc32c
	{"adcyevwbxii", "xpepknwiuff"}, // crc32k
	{"bmjvcjcbekd", "ouidfffmtal"}, // crc32k
	{"mipjhzscqem", "dbmufciylhb"}, // fnv1
	{"mqfiisdcnhc", "vumlfohdccb"}, // fnv1
	{"wfyjoxhefjh", "snlwzuvysxm"}, // fnv1a
	{"xndzjwntjwa", "utuyodnmulk"}, // fnv1a
	{"cnwnnuuovpl", "eypltidtlme"}, // fnv1a64l
	{"hdkctwcprcn", "egvgxzeawfg"}, // fnv1a64l
	{"fpbeqvdgzxs", "qldizvetvut"}, // fnv1a64x
	{"zxxhasuohqo", "bzdcounqtgw"}, // fnv1a64x
	{"aiyngwgvktf", "qqbtodlpmtl"}, // jenkins
	{"qwxjiikfwuq", "qnjhvrgnudy"}, // jenkins
}

// longName: long, alike at both ends
func (r R) longName() string {
	n := 10 + r.Intn(40)
	if r.chance(1, 4) {
		sz := sizesUpTo(600)
		n = 8 + sz[r.Intn(len(sz))]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = 'n'
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		b[1+r.Intn(n-1)] = r.pick("abAB-09")
	}
	return string(b)
}

const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
const digits = "0123456789"

func bnfName(r R, n int) string {
	b := []byte{r.pick(letters)}
	for len(b) < n {
		b = append(b, r.pick(letters+digits+"-"))
	}
	return string(b)
}

// ---- alphabets

func (r R) alpha() []byte {
	switch r.Intn(6) {
	case 0:
		return []byte("ab")
	case 1:
		return []byte("abcd")
	case 2:
		return []byte("abcdefghijklmnop0123456789+-*/()[]{}<>,;:=\"'\\ \t\r\n|")
	case 3: // high half
		var b []byte
		for i := 120; i < 256; i++ {
			b = append(b, byte(i))
		}
		return b
	case 4: // word boundaries of bit sets
		return []byte{1, 2, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192,
			193, 253, 254, 255}
	}
	var b []byte
	for i := 1; i < 256; i++ {
		b = append(b, byte(i))
	}
	return b
}

func (r R) terminal(al []byte) string {
	n := 1
	switch r.Intn(12) {
	case 0, 1:
		n = 2
	case 2:
		n = 3
	case 3:
		n = 1 + r.Intn(12)
	case 4:
		if r.chance(1, 6) {
			n = 1 + r.size(700)
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.Intn(len(al))]
		if i > 0 && r.chance(1, 40) {
			b[i] = 0
		}
	}
	if r.chance(1, 60) {
		if f := r.special(); f[0] != 0 {
			return f + string(b[1:])
		}
	}
	return string(b)
}

// special: pieces which text handling likes to treat apart
func (r R) special() string {
	switch r.Intn(3) {
	case 0:
		return specials[r.Intn(len(specials))]
	case 1:
		if len(dict.Strs) > 0 {
			return dict.Strs[r.Intn(len(dict.Strs))]
		}
	}
	for k := 0; k < 20 && len(dict.Ints) > 0; k++ {
		if v := dict.Ints[r.Intn(len(dict.Ints))]; v < 256 {
			return string([]byte{byte(v)})
		}
	}
	return "\x03"
}

var specials = []string{"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\x00", "\x1a",
	"\x04", "\n", "\r\n", "\r", " ", "\t", "\v", "\f", "\u0085", "\u00a0", "\u2028",
	"\u200b", "\xc0\x80", "\xed\xa0\x80", "#", "//", "/*", "--", ";", "%", "\\", "\"",
	"'", "`", "$", "#!", "\x1b[0m", "\x7f", "\b", "\x80", "\xff", "\xef\xbf\xbd"}

// randGram: no promise of being LL(1), productive or reachable
func randGram(r R, maxRules, maxAlts, maxSyms int) *Gram {
	n := 1 + r.Intn(maxRules)
	g := &Gram{Kind: "random"}
	al := r.alpha()
	pT := 2 + r.Intn(6) // share of terminals of 10
	pE := r.Intn(4)     // share of empty alternatives of 10
	names := r.names(n)
	for i := 0; i < n; i++ {
		ru := Rule{Name: names[i]}
		na := 1 + r.Intn(maxAlts)
		for k := 0; k < na; k++ {
			a := Alt{}
			if !r.chance(pE, 10) {
				for m := 1 + r.Intn(maxSyms); m > 0; m-- {
					if r.chance(pT, 10) {
						a = append(a, tm(r.terminal(al)))
					} else {
						a = append(a, nt(r.Intn(n)))
					}
				}
			}
			ru.Alts = append(ru.Alts, a)
		}
		g.Rules = append(g.Rules, ru)
	}
	return g
}

// freshByte: a byte starting no terminal of g, 0 if none left
func freshByte(r R, g *Gram, al []byte) byte {
	var used [256]bool
	used[0] = true
	for _, ru := range g.Rules {
		for _, a := range ru.Alts {
			for _, s := range a {
				if s.T {
					used[s.S[0]] = true
				}
			}
		}
	}
	for k := 0; k < 4 && len(al) > 0; k++ {
		b := al[r.Intn(len(al))]
		if !used[b] {
			return b
		}
	}
	o := r.Intn(256)
	for k := 0; k < 256; k++ {
		b := byte(o + k)
		if !used[b] {
			return b
		}
	}
	return 0
}

// repair g until LL(1): prefix or drop an alternative of a conflict
func repair(r R, g *Gram) *Gram {
	al := r.alpha()
	for step := 0; step < 60; step++ {
		ref := analyse(g)
		if ref.conflict == "" {
			return g
		}
		var ri, a, b int
		fmt.Sscanf(ref.conflict, "rule %d,", &ri)
		// find the conflicting pair again
		var seen [257]int
		a = -1
		for ai, x := range g.Rules[ri].Alts {
			f, nu := ref.altFirst(x)
			if nu {
				f.merge(&ref.follow[ri])
			}
			for c := 0; c <= eosCol && a < 0; c++ {
				if f.has(c) {
					if seen[c] != 0 {
						a, b = seen[c]-1, ai
					}
					seen[c] = ai + 1
				}
			}
			if a >= 0 {
				break
			}
		}
		if a < 0 {
			return nil
		}
		k := a
		if r.chance(1, 2) {
			k = b
		}
		alts := g.Rules[ri].Alts
		if r.chance(1, 3) && len(alts) > 1 {
			g.Rules[ri].Alts = append(alts[:k:k], alts[k+1:]...)
			continue
		}
		fb := freshByte(r, g, al)
		if fb == 0 {
			return nil
		}
		alts[k] = append(Alt{tm(string([]byte{fb}))}, alts[k]...)
	}
	return nil
}

// trim: keep reachable productive rules only (nil when the first is not)
func trim(g *Gram) *Gram {
	m := g.minLens()
	n := &Gram{Kind: g.Kind}
	for i := range g.Rules {
		var alts []Alt
		for _, a := range g.Rules[i].Alts {
			if altLen(a, m) >= 0 {
				alts = append(alts, a)
			}
		}
		n.Rules = append(n.Rules, Rule{g.Rules[i].Name, alts})
	}
	if len(g.Rules) == 0 || m[0] < 0 {
		return nil
	}
	seen := n.reach()
	ix := make([]int, len(n.Rules))
	res := &Gram{Kind: g.Kind}
	for i, r := range n.Rules {
		if seen[i] {
			ix[i] = len(res.Rules)
			res.Rules = append(res.Rules, r)
		}
	}
	for i := range res.Rules {
		for j := range res.Rules[i].Alts {
			a := append(Alt{}, res.Rules[i].Alts[j]...)
			for k := range a {
				if !a[k].T {
					a[k].N = ix[a[k].N]
				}
			}
			res.Rules[i].Alts[j] = a
		}
	}
	return res
}

// randLL1: random reduced LL(1) grammar
func randLL1(r R) *Gram {
	for {
		var g *Gram
		switch r.Intn(6) {
		case 0:
			g = randGram(r, 2, 2, 3)
		case 1:
			g = randGram(r, 14, 4, 5)
		case 2:
			g = nullableHeavy(r)
		default:
			g = randGram(r, 6, 3, 4)
		}
		kind := g.Kind
		// a first rule alone is rarely of interest: link all rules to it
		if r.chance(1, 2) {
			for i := 1; i < len(g.Rules); i++ {
				p := r.Intn(i)
				al := g.Rules[p].Alts
				k := r.Intn(len(al))
				pos := r.Intn(len(al[k]) + 1)
				a := append(Alt{}, al[k][:pos]...)
				a = append(a, nt(i))
				a = append(a, al[k][pos:]...)
				al[k] = a
			}
		}
		if g = repair(r, g); g == nil {
			continue
		}
		if g = trim(g); g == nil {
			continue
		}
		g.Kind = kind
		if r.chance(1, 6) {
			widen(r, g)
		}
		if analyse(g).conflict == "" {
			return g
		}
	}
}

// widen gives one rule of g a number of further alternatives, each with a first
// byte of its own; a rule above it may come to begin with it
func widen(r R, g *Gram) {
	i := r.Intn(len(g.Rules))
	n := 2 + r.Intn(16)
	if r.chance(1, 12) {
		n = 30 + r.Intn(60)
	}
	al := r.alpha()
	for ; n > 0; n-- {
		fb := freshByte(r, g, al)
		if fb == 0 {
			return
		}
		a := Alt{tm(one(int(fb)))}
		for m := r.Intn(5); m > 2; m-- {
			if r.chance(1, 2) {
				a = append(a, nt(r.Intn(len(g.Rules))))
			} else {
				a = append(a, tm(r.terminal(al)))
			}
		}
		al0 := g.Rules[i].Alts
		k := r.Intn(len(al0) + 1)
		g.Rules[i].Alts = append(al0[:k:k], append([]Alt{a}, al0[k:]...)...)
	}
	if i == 0 && r.chance(1, 2) {
		// the wide rule behind rules of one alternative that begin with it
		for k := range g.Rules {
			for _, a := range g.Rules[k].Alts {
				for x := range a {
					if !a[x].T {
						a[x].N++
					}
				}
			}
		}
		head := Rule{Name: g.Rules[0].Name + "-of", Alts: []Alt{{nt(1)}}}
		for k := r.Intn(3); k > 0; k-- {
			head.Alts[0] = append(head.Alts[0], tm(r.terminal(al)))
		}
		taken := map[string]bool{}
		for _, ru := range g.Rules {
			taken[ru.Name] = true
		}
		for taken[head.Name] {
			head.Name += "-of"
		}
		g.Rules = append([]Rule{head}, g.Rules...)
	}
}

// nullableHeavy: most rules can be empty, sequences of non terminals
func nullableHeavy(r R) *Gram {
	n := 2 + r.Intn(7)
	g := &Gram{Kind: "nullable"}
	names := r.names(n)
	al := r.alpha()
	for i := 0; i < n; i++ {
		ru := Rule{Name: names[i]}
		if i > 0 && r.chance(3, 4) {
			ru.Alts = append(ru.Alts, Alt{})
		}
		for k := 1 + r.Intn(2); k > 0; k-- {
			a := Alt{}
			if r.chance(1, 2) {
				a = append(a, tm(r.terminal(al)))
			}
			for m := r.Intn(4); m > 0; m-- {
				if i+1 < n && r.chance(3, 4) {
					a = append(a, nt(i+1+r.Intn(n-i-1)))
				} else {
					a = append(a, nt(r.Intn(n)))
				}
			}
			if r.chance(1, 3) || len(a) == 0 {
				a = append(a, tm(r.terminal(al)))
			}
			ru.Alts = append(ru.Alts, a)
		}
		r.Shuffle(len(ru.Alts), func(x, y int) {
			ru.Alts[x], ru.Alts[y] = ru.Alts[y], ru.Alts[x]
		})
		g.Rules = append(g.Rules, ru)
	}
	return g
}

// ---- structured families; every one is LL(1) by construction

func one(b int) string { return string([]byte{byte(b)}) }

// order of rules other than the first: 0 as is, 1 reversed, 2 shuffled
func reorder(r R, g *Gram, mode int) *Gram {
	n := len(g.Rules)
	perm := make([]int, n) // new index of old
	for i := range perm {
		perm[i] = i
	}
	switch mode {
	case 1:
		for i := 1; i < n; i++ {
			perm[i] = n - i
		}
	case 2:
		p := r.Perm(n - 1)
		for i := 1; i < n; i++ {
			perm[i] = p[i-1] + 1
		}
	}
	return permute(g, perm)
}

func permute(g *Gram, perm []int) *Gram {
	res := &Gram{Kind: g.Kind, Rules: make([]Rule, len(g.Rules))}
	for i, ru := range g.Rules {
		n := Rule{Name: ru.Name}
		for _, a := range ru.Alts {
			b := append(Alt{}, a...)
			for k := range b {
				if !b[k].T {
					b[k].N = perm[b[k].N]
				}
			}
			n.Alts = append(n.Alts, b)
		}
		res.Rules[perm[i]] = n
	}
	return res
}

func shuffleAlts(r R, g *Gram) *Gram {
	for i := range g.Rules {
		al := g.Rules[i].Alts
		r.Shuffle(len(al), func(x, y int) { al[x], al[y] = al[y], al[x] })
	}
	return g
}

// chainGram: n rules, information has to travel the whole chain.
// kind 0: FOLLOW down a unit chain to a nullable rule
// kind 1: FIRST up a unit chain
// kind 2: nullability up a chain of alternatives
// kind 3: FOLLOW across a run of n nullable symbols
// kind 4: FOLLOW down a chain whose links end in a nullable symbol
func chainGram(r R, n, kind int) *Gram {
	if n < 1 {
		n = 1
	}
	g := &Gram{Kind: fmt.Sprintf("chain%d(%d)", kind, n)}
	add := func(alts ...Alt) {
		g.Rules = append(g.Rules,
			Rule{Name: fmt.Sprintf("c%d", len(g.Rules)), Alts: alts})
	}
	b := func(i int) string { return one(1 + i%254) }
	switch kind {
	case 0:
		add(Alt{nt(1), tm("\xfe")})
		for i := 1; i < n; i++ {
			add(Alt{nt(i + 1)})
		}
		add(Alt{}, Alt{tm("a")})
	case 1:
		add(Alt{nt(1), tm("\xff")}, Alt{tm("z")})
		for i := 1; i < n; i++ {
			add(Alt{nt(i + 1)})
		}
		add(Alt{tm("\x80")}, Alt{tm("\x7f"), nt(n)})
	case 2:
		add(Alt{nt(1), tm(";")})
		if n > 200 {
			n = 200
		}
		for i := 1; i < n; i++ {
			c := i
			if c == ';' {
				c = 251
			}
			add(Alt{tm(one(c))}, Alt{nt(i + 1)})
		}
		add(Alt{}, Alt{tm("\xfa")})
	case 3:
		if n > 250 {
			n = 250
		}
		a := Alt{}
		for i := 0; i < n; i++ {
			a = append(a, nt(i+1))
		}
		if r.chance(2, 3) {
			a = append(a, tm("\xff"))
		}
		add(a)
		for i := 0; i < n; i++ {
			if r.chance(1, 2) {
				add(Alt{}, Alt{tm(b(i))})
			} else {
				add(Alt{tm(b(i)), nt(i + 1)}, Alt{})
			}
		}
	case 4:
		if n > 100 {
			n = 100
		}
		// rule i (0..n): c_i ::= x_i c_{i+1} o_i ; o_i nullable
		for i := 0; i < n; i++ {
			add(Alt{tm(one(128 + i%120)), nt(i + 1), nt(n + 1 + i)})
		}
		add(Alt{}, Alt{tm("q")})
		for i := 0; i < n; i++ {
			add(Alt{}, Alt{tm(one(1 + i%100))})
		}
	}
	return g
}

// wideGram: one rule with n alternatives, each its own first byte
func wideGram(r R, n int) *Gram {
	if n < 1 {
		n = 1
	}
	if n > 255 {
		n = 255
	}
	g := &Gram{Kind: fmt.Sprintf("wide(%d)", n)}
	p := r.Perm(255)
	ru := Rule{Name: "w"}
	for i := 0; i < n; i++ {
		a := Alt{tm(one(p[i] + 1))}
		switch r.Intn(4) {
		case 0:
			a = append(a, nt(1))
		case 1:
			a = append(a, tm(r.terminal([]byte("xyz"))))
		}
		ru.Alts = append(ru.Alts, a)
	}
	tail := Rule{Name: "t", Alts: []Alt{{}}}
	if n < 255 {
		tail.Alts = append(tail.Alts, Alt{tm(one(p[n] + 1)), nt(1)})
	}
	g.Rules = []Rule{ru, tail}
	if !g.allReachable() {
		g.Rules = g.Rules[:1]
	}
	return g
}

// manyGram: n rules, a tree of choices over two bytes per level
func manyGram(r R, n int) *Gram {
	if n < 1 {
		n = 1
	}
	g := &Gram{Kind: fmt.Sprintf("many(%d)", n)}
	for i := 0; i < n; i++ {
		ru := Rule{Name: fmt.Sprintf("m%d", i)}
		l, rr := 2*i+1, 2*i+2
		if l < n {
			ru.Alts = append(ru.Alts, Alt{tm("0"), nt(l)})
		} else {
			ru.Alts = append(ru.Alts, Alt{tm(fmt.Sprintf("x%d", i))})
		}
		if rr < n {
			ru.Alts = append(ru.Alts, Alt{tm("1"), nt(rr)})
		} else {
			ru.Alts = append(ru.Alts, Alt{})
		}
		g.Rules = append(g.Rules, ru)
	}
	return g
}

// longGram: one alternative of n symbols
func longGram(r R, n int) *Gram {
	g := &Gram{Kind: fmt.Sprintf("long(%d)", n)}
	a := Alt{}
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0:
			a = append(a, nt(1))
		default:
			a = append(a, tm(r.terminal([]byte("abc"))))
		}
	}
	if len(a) == 0 {
		a = append(a, tm("a"))
	}
	g.Rules = []Rule{{"l", []Alt{a}},
		{"d", []Alt{{tm("1")}, {tm("2"), nt(1)}}}}
	if !g.allReachable() {
		g.Rules = g.Rules[:1]
	}
	return g
}

// longTerm: terminals of n bytes
func longTerm(r R, n int) *Gram {
	if n < 1 {
		n = 1
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + r.Intn(255))
	}
	b[0] = 'L'
	return &Gram{Kind: fmt.Sprintf("term(%d)", n), Rules: []Rule{
		{"s", []Alt{{nt(1), nt(1)}, {tm("!")}}},
		{"t", []Alt{{tm(string(b))}, {tm("k")}}}}}
}

// realistic grammars
func parseMini(kind string, text string) *Gram { return miniGram(kind, text) }

func realGrams() []*Gram {
	return []*Gram{
		parseMini("arith", `
E = T E2
E2 = | '+' T E2 | '-' T E2
T = F T2
T2 = | '*' F T2 | '/' F T2
F = '(' E ')' | N | '-' F
N = D N2
N2 = | D N2
D = '0'|'1'|'2'|'3'|'4'|'5'|'6'|'7'|'8'|'9'
`),
		parseMini("lisp", `
P = W L
L = | X W L
X = '(' W L ')' | C | '\'' X
C = 'a'|'b'|'c'|'+'|'*'
W = | ' ' W | '\n' W
`),
		parseMini("nullrun", `
S = A B C D 'e'
A = | 'a' A
B = | 'b'
C = | 'c' B 'x'
D = | 'd' D
`),
		parseMini("config", `
F = I M
M = | '\n' I M | '\r\n' I M
I = | '[' K ']' | K O '=' O V O | ';' Q
K = 'k' K2
K2 = | 'k' K2 | '-' K2
O = | ' ' O
V = '"' Q '"' | 'true' | 'false' | 'null' | G
G = '0' | '1' G | '-' G
Q = | 'q' Q | ' ' Q
`),
		parseMini("stmt", `
B = '{' S '}'
S = | T S
T = 'if' C T L 'fi' | 'while' C T | B | 'x' ':=' E ';' | ';'
L = | 'else' T
C = '(' E ')'
E = 'x' R | '0' R
R = | '+' E | '<' E | '==' E
`),
		parseMini("nested", `
S = '[' S ']' S | '(' S ')' S | '<' S '>' S |
`),
		parseMini("list", `
S = | 'a' S
`),
		parseMini("hi", "S = '\xff' T | '\x80' S U\nT = | '\xfe' T\nU = '\xc3\xa9' | '\xbf'\n"),
		parseMini("follow-split", `
S = A B 'c' | 'p' B A
A = | 'a'
B = | 'b'
`),
		parseMini("tailnull", `
S = X Y Z
X = | 'x' X
Y = | 'y' W
Z = | 'z'
W = | 'w' W
`),
	}
}

// miniGram: tiny notation, single letter(+digits) non terminals, 'x' terminals
func miniGram(kind, text string) *Gram {
	g := &Gram{Kind: kind}
	ix := map[string]int{}
	type tok struct {
		k byte
		s string
	}
	var lines [][]tok
	i := 0
	var cur []tok
	for i < len(text) {
		c := text[i]
		switch {
		case c == '\n':
			if len(cur) > 0 {
				lines = append(lines, cur)
			}
			cur = nil
			i++
		case c == ' ':
			i++
		case c == '=' || c == '|':
			cur = append(cur, tok{c, ""})
			i++
		case c == '\'':
			var b []byte
			i++
			for text[i] != '\'' {
				if text[i] == '\\' {
					i++
					switch text[i] {
					case 'n':
						b = append(b, '\n')
					case 'r':
						b = append(b, '\r')
					default:
						b = append(b, text[i])
					}
				} else {
					b = append(b, text[i])
				}
				i++
			}
			i++
			cur = append(cur, tok{'t', string(b)})
		default:
			j := i
			for j < len(text) && (text[j] >= 'A' && text[j] <= 'Z' ||
				text[j] >= '0' && text[j] <= '9') {
				j++
			}
			if j == i {
				panic("miniGram: " + text[i:])
			}
			cur = append(cur, tok{'n', text[i:j]})
			i = j
		}
	}
	if len(cur) > 0 {
		lines = append(lines, cur)
	}
	for k, l := range lines {
		ix[l[0].s] = k
	}
	for _, l := range lines {
		ru := Rule{Name: l[0].s}
		a := Alt{}
		for _, t := range l[2:] {
			switch t.k {
			case '|':
				ru.Alts = append(ru.Alts, a)
				a = Alt{}
			case 't':
				a = append(a, tm(t.s))
			case 'n':
				k, ok := ix[t.s]
				if !ok {
					panic("miniGram: undefined " + t.s)
				}
				a = append(a, nt(k))
			}
		}
		ru.Alts = append(ru.Alts, a)
		g.Rules = append(g.Rules, ru)
	}
	return g
}

// structured: one of the structured families at size n
func structured(r R, fam, n int) *Gram {
	var g *Gram
	switch fam % 9 {
	case 0, 1, 2, 3, 4:
		g = chainGram(r, n, fam%9)
	case 5:
		g = wideGram(r, n)
	case 6:
		g = manyGram(r, n)
	case 7:
		g = longGram(r, n)
	case 8:
		g = longTerm(r, n)
	}
	if r.chance(1, 2) {
		g = shuffleAlts(r, g)
	}
	if r.chance(1, 2) {
		for i, s := range r.names(len(g.Rules)) {
			g.Rules[i].Name = s
		}
	}
	return reorder(r, g, r.Intn(3))
}

// ---- sentences

type deriver struct {
	g     *Gram
	min   []int
	depth []int // shortest derivation height, bounds recursion
}

func newDeriver(g *Gram) *deriver {
	d := &deriver{g: g, min: g.minLens()}
	n := len(g.Rules)
	d.depth = make([]int, n)
	for i := range d.depth {
		d.depth[i] = -1
	}
	for ch := true; ch; {
		ch = false
		for k := 0; k < 2*n; k++ {
			i := k
			if k >= n {
				i = 2*n - 1 - k
			}
			for _, a := range g.Rules[i].Alts {
				h := d.altDepth(a)
				if h >= 0 && (d.depth[i] < 0 || h+1 < d.depth[i]) {
					d.depth[i] = h + 1
					ch = true
				}
			}
		}
	}
	return d
}

func (d *deriver) altDepth(a Alt) int {
	h := 0
	for _, s := range a {
		if s.T {
			continue
		}
		if d.depth[s.N] < 0 {
			return -1
		}
		if d.depth[s.N] > h {
			h = d.depth[s.N]
		}
	}
	return h
}

// sentence: random sentence of about budget bytes (shortest height after that)
func (d *deriver) sentence(r R, budget int) (string, bool) {
	if d.depth[0] < 0 || d.min[0] > 1<<21 {
		return "", false
	}
	var out []byte
	type fr struct{ n int }
	st := []Sym{nt(0)}
	steps := 0
	for len(st) > 0 {
		s := st[len(st)-1]
		st = st[:len(st)-1]
		if s.T {
			out = append(out, s.S...)
			if len(out) > 1<<24 {
				return "", false
			}
			continue
		}
		steps++
		alts := d.g.Rules[s.N].Alts
		var a Alt
		if len(out)+len(st) < budget && steps < 4*budget+1000 {
			// any productive alternative, recursive ones preferred
			for try := 0; ; try++ {
				a = alts[r.Intn(len(alts))]
				if d.altDepth(a) < 0 {
					continue
				}
				if len(a) == 0 && try < 2 {
					continue
				}
				break
			}
		} else {
			best := -1
			for _, x := range alts {
				h := d.altDepth(x)
				if h >= 0 && (best < 0 || h < best) {
					best, a = h, x
				}
			}
		}
		for i := len(a) - 1; i >= 0; i-- {
			st = append(st, a[i])
		}
	}
	return string(out), true
}

// mutate: small damage
func mutate(r R, s string, al []byte) string {
	b := []byte(s)
	for k := 1 + r.Intn(2); k > 0; k-- {
		rb := byte(r.Intn(256))
		if len(al) > 0 && r.chance(3, 4) {
			rb = al[r.Intn(len(al))]
		}
		if r.chance(1, 12) {
			rb = 0
		}
		p := 0
		if len(b) > 0 {
			p = r.Intn(len(b))
			if r.chance(1, 4) {
				p = len(b) - 1
			}
		}
		switch r.Intn(11) {
		case 8: // a special piece, mostly at the ends
			f := r.special()
			switch r.Intn(3) {
			case 0:
				b = append([]byte(f), b...)
			case 1:
				b = append(b, f...)
			case 2:
				b = append(b[:p:p], append([]byte(f), b[p:]...)...)
			}
		case 9: // other case, bit flips
			if len(b) > 0 {
				b[p] ^= []byte{0x20, 0x80, 1, 0x40}[r.Intn(4)]
			}
		case 10: // other line ends or nothing for a line end
			if r.chance(1, 2) && bytes.Contains(b, []byte("\r\n")) {
				b = bytes.Replace(b, []byte("\r\n"), []byte(
					[]string{"\n", "\r", "\n\r"}[r.Intn(3)]), 1+r.Intn(2))
			} else if i := bytes.IndexByte(b, '\n'); i >= 0 {
				b = append(b[:i:i], append([]byte(
					[]string{"\r\n", "\r", ""}[r.Intn(3)]), b[i+1:]...)...)
			} else {
				b = append(b, '\n')
			}
		case 0: // insert
			b = append(b[:p:p], append([]byte{rb}, b[p:]...)...)
		case 1: // delete
			if len(b) > 0 {
				b = append(b[:p:p], b[p+1:]...)
			}
		case 2: // replace
			if len(b) > 0 {
				b[p] = rb
			}
		case 3: // truncate
			b = b[:p]
		case 4: // append
			b = append(b, rb)
		case 5: // repeat a piece
			if len(b) > 0 {
				q := p + 1 + r.Intn(len(b)-p)
				b = append(b[:q:q], b[p:]...)
			}
		case 6: // swap
			if len(b) > 1 {
				q := r.Intn(len(b))
				b[p], b[q] = b[q], b[p]
			}
		case 7: // append zero byte and garbage
			b = append(b, 0)
			if r.chance(1, 2) {
				b = append(b, s...)
			}
		}
	}
	return string(b)
}

func randBytes(r R, n int, al []byte) string {
	b := make([]byte, n)
	for i := range b {
		if len(al) > 0 {
			b[i] = al[r.Intn(len(al))]
		} else {
			b[i] = byte(r.Intn(256))
		}
	}
	return string(b)
}
