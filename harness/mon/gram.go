package mon

// Grammar model of the harness and textbook LL(1) analysis of it. Nothing here
// uses the code under test except toBNF, which converts to its input type.

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
)

type Sym struct {
	T bool   // terminal
	S string // terminal text
	N int    // rule index of a non terminal
}

type Alt []Sym // empty: the empty string

type Rule struct {
	Name string
	Alts []Alt
}

type Gram struct {
	Rules []Rule
	Kind  string // how it was made
}

func tm(s string) Sym { return Sym{T: true, S: s} }
func nt(n int) Sym    { return Sym{N: n} }

func (g *Gram) toBNF() bnf.Grammar {
	var res bnf.Grammar
	for _, r := range g.Rules {
		br := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: r.Name}}
		for _, a := range r.Alts {
			var sq bnf.Sequence
			for _, s := range a {
				if s.T {
					sq.Symbols = append(sq.Symbols, bnf.SymbolTerminal{Name: s.S})
				} else {
					sq.Symbols = append(sq.Symbols,
						bnf.SymbolNonTerminal{Name: g.Rules[s.N].Name})
				}
			}
			if len(a) == 0 {
				sq.Symbols = []bnf.Symbol{bnf.SymbolNothing{}}
			}
			br.Tail.Sequences = append(br.Tail.Sequences, sq)
		}
		res.Rules = append(res.Rules, br)
	}
	return res
}

// fromBNF: inverse of toBNF for well formed grammars
func fromBNF(b bnf.Grammar) *Gram {
	g := &Gram{Kind: "fromBNF"}
	ix := map[string]int{}
	for i, r := range b.Rules {
		ix[r.Head.Name] = i
	}
	for _, r := range b.Rules {
		rr := Rule{Name: r.Head.Name}
		for _, sq := range r.Tail.Sequences {
			a := Alt{}
			for _, s := range sq.Symbols {
				switch v := s.(type) {
				case bnf.SymbolTerminal:
					a = append(a, tm(v.Name))
				case bnf.SymbolNonTerminal:
					a = append(a, nt(ix[v.Name]))
				}
			}
			rr.Alts = append(rr.Alts, a)
		}
		g.Rules = append(g.Rules, rr)
	}
	return g
}

func (g *Gram) String() string {
	var sb strings.Builder
	for i, r := range g.Rules {
		fmt.Fprintf(&sb, "%d:<%q> ::=", i, r.Name)
		for j, a := range r.Alts {
			if j > 0 {
				sb.WriteString(" |")
			}
			if len(a) == 0 {
				sb.WriteString(" \"\"")
			}
			for _, s := range a {
				if s.T {
					fmt.Fprintf(&sb, " %q", s.S)
				} else {
					fmt.Fprintf(&sb, " <%d>", s.N)
				}
			}
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func (g *Gram) clone() *Gram {
	n := &Gram{Kind: g.Kind, Rules: make([]Rule, len(g.Rules))}
	for i, r := range g.Rules {
		n.Rules[i].Name = r.Name
		for _, a := range r.Alts {
			n.Rules[i].Alts = append(n.Rules[i].Alts, append(Alt{}, a...))
		}
	}
	return n
}

// alphabet: bytes occurring in terminals
func (g *Gram) alphabet() []byte {
	var seen [256]bool
	for _, r := range g.Rules {
		for _, a := range r.Alts {
			for _, s := range a {
				for i := 0; i < len(s.S); i++ {
					seen[s.S[i]] = true
				}
			}
		}
	}
	var res []byte
	for i, b := range seen {
		if b {
			res = append(res, byte(i))
		}
	}
	return res
}

// ---- textbook sets. Set of 257 symbols: bytes and end of input (eosCol)

const eosCol = 256

type set struct{ w [5]uint64 }

func (s *set) add(i int)      { s.w[i>>6] |= 1 << (uint(i) & 63) }
func (s *set) has(i int) bool { return s.w[i>>6]>>(uint(i)&63)&1 == 1 }
func (s *set) merge(o *set) bool {
	ch := false
	for i := range s.w {
		n := s.w[i] | o.w[i]
		if n != s.w[i] {
			s.w[i] = n
			ch = true
		}
	}
	return ch
}

type Ref struct {
	g        *Gram
	nullable []bool
	first    []set
	follow   []set
	// cells[rule][symbol 0..256] = alternative index + 1; 0 none
	cells    [][257]int32
	conflict string // description of the first conflict, "" when LL(1)
}

func (r *Ref) altFirst(a Alt) (set, bool) {
	var res set
	for _, s := range a {
		if s.T {
			res.add(int(s.S[0]))
			return res, false
		}
		res.merge(&r.first[s.N])
		if !r.nullable[s.N] {
			return res, false
		}
	}
	return res, true
}

func analyse(g *Gram) *Ref {
	n := len(g.Rules)
	r := &Ref{g: g, nullable: make([]bool, n), first: make([]set, n),
		follow: make([]set, n), cells: make([][257]int32, n)}
	for ch := true; ch; {
		ch = false
		for dir := 0; dir < 2; dir++ {
			for k := 0; k < n; k++ {
				i := k
				if dir == 1 {
					i = n - 1 - k
				}
				for _, a := range g.Rules[i].Alts {
					f, nu := r.altFirst(a)
					if r.first[i].merge(&f) {
						ch = true
					}
					if nu && !r.nullable[i] {
						r.nullable[i] = true
						ch = true
					}
				}
			}
		}
	}
	if n > 0 {
		r.follow[0].add(eosCol)
	}
	for ch := true; ch; {
		ch = false
		for dir := 0; dir < 2; dir++ {
			for k := 0; k < n; k++ {
				i := k
				if dir == 1 {
					i = n - 1 - k
				}
				for _, a := range g.Rules[i].Alts {
					tail := r.follow[i] // what may follow position j
					for j := len(a) - 1; j >= 0; j-- {
						s := a[j]
						if s.T {
							tail = set{}
							tail.add(int(s.S[0]))
							continue
						}
						if r.follow[s.N].merge(&tail) {
							ch = true
						}
						if r.nullable[s.N] {
							tail.merge(&r.first[s.N])
						} else {
							tail = r.first[s.N]
						}
					}
				}
			}
		}
	}
	for i := range g.Rules {
		for ai, a := range g.Rules[i].Alts {
			f, nu := r.altFirst(a)
			put := func(c int, why string) {
				if r.cells[i][c] != 0 && r.conflict == "" {
					r.conflict = fmt.Sprintf("rule %d, column %d (%s): "+
						"alternatives %d and %d", i, c, why, r.cells[i][c]-1, ai)
				}
				r.cells[i][c] = int32(ai + 1)
			}
			for c := 0; c < 256; c++ {
				if f.has(c) {
					put(c, "first")
				}
			}
			if nu {
				for c := 0; c <= eosCol; c++ {
					if r.follow[i].has(c) {
						put(c, "follow")
					}
				}
			}
		}
	}
	return r
}

// lens: length in bytes of the shortest sentence per rule, -1 if none
func (g *Gram) minLens() []int {
	n := len(g.Rules)
	m := make([]int, n)
	for i := range m {
		m[i] = -1
	}
	for ch := true; ch; {
		ch = false
		for k := 0; k < 2*n; k++ {
			i := k
			if k >= n {
				i = 2*n - 1 - k
			}
			for _, a := range g.Rules[i].Alts {
				l := altLen(a, m)
				if l >= 0 && (m[i] < 0 || l < m[i]) {
					m[i] = l
					ch = true
				}
			}
		}
	}
	return m
}

const lenCap = 1 << 40

func altLen(a Alt, m []int) int {
	l := 0
	for _, s := range a {
		if s.T {
			l += len(s.S)
		} else if m[s.N] < 0 {
			return -1
		} else {
			l += m[s.N]
		}
		if l > lenCap {
			l = lenCap
		}
	}
	return l
}

// reduced: every rule reachable from the first and productive
func (g *Gram) reduced() bool {
	for _, l := range g.minLens() {
		if l < 0 {
			return false
		}
	}
	return g.allReachable()
}

func (g *Gram) allReachable() bool {
	seen := g.reach()
	for _, b := range seen {
		if !b {
			return false
		}
	}
	return true
}

func (g *Gram) reach() []bool {
	seen := make([]bool, len(g.Rules))
	if len(g.Rules) == 0 {
		return seen
	}
	st := []int{0}
	seen[0] = true
	for len(st) > 0 {
		i := st[len(st)-1]
		st = st[:len(st)-1]
		for _, a := range g.Rules[i].Alts {
			for _, s := range a {
				if !s.T && !seen[s.N] {
					seen[s.N] = true
					st = append(st, s.N)
				}
			}
		}
	}
	return seen
}

// ---- recognisers

// earley: is in a sentence; viable = length of the longest prefix some
// derivation can still match (bytes matched before the first offending one)
func (g *Gram) earley(in string) (ok bool, viable int) {
	type item struct{ rule, alt, dot, off, org int }
	nullable := make([]bool, len(g.Rules))
	for ch := true; ch; {
		ch = false
		for i, r := range g.Rules {
			for _, a := range r.Alts {
				nu := true
				for _, s := range a {
					if s.T || !nullable[s.N] {
						nu = false
						break
					}
				}
				if nu && !nullable[i] {
					nullable[i] = true
					ch = true
				}
			}
		}
	}
	n := len(in)
	sets := make([][]item, n+1)
	seen := make([]map[item]bool, n+1)
	for i := range seen {
		seen[i] = map[item]bool{}
	}
	add := func(k int, it item) {
		if !seen[k][it] {
			seen[k][it] = true
			sets[k] = append(sets[k], it)
		}
	}
	predict := func(k, r int) {
		for ai := range g.Rules[r].Alts {
			add(k, item{r, ai, 0, 0, k})
		}
	}
	predict(0, 0)
	for k := 0; k <= n; k++ {
		if len(sets[k]) == 0 {
			return false, viable
		}
		viable = k
		for q := 0; q < len(sets[k]); q++ {
			it := sets[k][q]
			a := g.Rules[it.rule].Alts[it.alt]
			if it.dot == len(a) {
				for _, w := range sets[it.org] {
					wa := g.Rules[w.rule].Alts[w.alt]
					if w.dot < len(wa) && !wa[w.dot].T && wa[w.dot].N == it.rule {
						add(k, item{w.rule, w.alt, w.dot + 1, 0, w.org})
					}
				}
				continue
			}
			s := a[it.dot]
			if s.T {
				if k < n && in[k] == s.S[it.off] {
					nx := it
					nx.off++
					if nx.off == len(s.S) {
						nx.off = 0
						nx.dot++
					}
					add(k+1, nx)
				}
				continue
			}
			predict(k, s.N)
			if nullable[s.N] {
				add(k, item{it.rule, it.alt, it.dot + 1, 0, it.org})
			}
		}
	}
	for it := range seen[n] {
		if it.rule == 0 && it.org == 0 &&
			it.dot == len(g.Rules[0].Alts[it.alt]) {
			return true, n
		}
	}
	return false, viable
}

// TN: tree of the harness
type TN struct {
	Type, Pos, End int
	Ch             []*TN
}

func chr(b byte) string { return fmt.Sprintf("'%c' (%d)", b, b) }

// predictive: reference LL(1) parse over the textbook table
func (r *Ref) predictive(in string) (ok bool, errPos int, msg string) {
	g := r.g
	type op struct {
		k int // 0 nonterminal 1 byte
		v int
	}
	st := []op{{0, 0}}
	pos := 0
	peek := func() byte {
		if pos < len(in) {
			return in[pos]
		}
		return 0
	}
	for len(st) > 0 {
		o := st[len(st)-1]
		st = st[:len(st)-1]
		if o.k == 1 {
			if pos >= len(in) || in[pos] != byte(o.v) {
				return false, pos, fmt.Sprintf("expected char %s, got %s",
					chr(byte(o.v)), chr(peek()))
			}
			pos++
			continue
		}
		col := eosCol
		if pos < len(in) && in[pos] != 0 {
			col = int(in[pos])
		}
		// zero byte in the input: no sentence continues with it here, but the
		// implementation looks the end-of-input column up for it
		ai := r.cells[o.v][col]
		if ai == 0 {
			return false, pos, fmt.Sprintf(
				"no rules for %s and non terminal op <%s>", chr(peek()),
				g.Rules[o.v].Name)
		}
		a := g.Rules[o.v].Alts[ai-1]
		for i := len(a) - 1; i >= 0; i-- {
			if a[i].T {
				for j := len(a[i].S) - 1; j >= 0; j-- {
					st = append(st, op{1, int(a[i].S[j])})
				}
			} else {
				st = append(st, op{0, a[i].N})
			}
		}
	}
	if pos < len(in) {
		return false, pos, "expected end of input got " + chr(in[pos])
	}
	return true, pos, ""
}
