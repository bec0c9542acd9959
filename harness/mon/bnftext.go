package mon

// The BNF text notation: an independent reader, a writer with random layout,
// and generators of grammars which can be written in it.

import (
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
)

type bnfReader struct {
	s string
	i int
}

func (p *bnfReader) spaces() {
	for p.i < len(p.s) && p.s[p.i] == ' ' {
		p.i++
	}
}

func (p *bnfReader) lit(x string) bool {
	if strings.HasPrefix(p.s[p.i:], x) {
		p.i += len(x)
		return true
	}
	return false
}

func isLetter(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
func isDigit(b byte) bool  { return b >= '0' && b <= '9' }

// name in angle brackets
func (p *bnfReader) name() (string, bool) {
	if !p.lit("<") {
		return "", false
	}
	j := p.i
	for p.i < len(p.s) && (isLetter(p.s[p.i]) ||
		p.i > j && (isDigit(p.s[p.i]) || p.s[p.i] == '-')) {
		p.i++
	}
	n := p.s[j:p.i]
	return n, n != "" && p.lit(">")
}

func (p *bnfReader) terminal() (string, bool) {
	q := p.s[p.i]
	p.i++
	var b []byte
	for p.i < len(p.s) {
		ch := p.s[p.i]
		p.i++
		switch {
		case ch == q:
			return string(b), true
		case ch == '\\':
			if p.i >= len(p.s) {
				return "", false
			}
			switch p.s[p.i] {
			case 't':
				b = append(b, '\t')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case '"', '\\':
				b = append(b, p.s[p.i])
			default:
				return "", false
			}
			p.i++
		case ch >= ' ' && ch <= '~':
			b = append(b, ch)
		default:
			return "", false
		}
	}
	return "", false
}

// refReadBNF: the grammar written in s, false when s is not in the notation
func refReadBNF(s string) (bnf.Grammar, bool) {
	var g bnf.Grammar
	p := &bnfReader{s: s}
	for first := true; ; first = false {
		p.spaces()
		if p.i < len(s) && s[p.i] == '<' {
			var r bnf.Rule
			n, ok := p.name()
			if !ok {
				return g, false
			}
			r.Head.Name = n
			p.spaces()
			if !p.lit("::=") {
				return g, false
			}
			for {
				p.spaces()
				var sq bnf.Sequence
				for p.i < len(s) && strings.IndexByte("<\"'", s[p.i]) >= 0 {
					if s[p.i] == '<' {
						n, ok := p.name()
						if !ok {
							return g, false
						}
						sq.Symbols = append(sq.Symbols, bnf.SymbolNonTerminal{Name: n})
					} else {
						t, ok := p.terminal()
						if !ok {
							return g, false
						}
						if t == "" {
							sq.Symbols = append(sq.Symbols, bnf.SymbolNothing{})
						} else {
							sq.Symbols = append(sq.Symbols, bnf.SymbolTerminal{Name: t})
						}
					}
					p.spaces()
				}
				if len(sq.Symbols) == 0 {
					return g, false
				}
				r.Tail.Sequences = append(r.Tail.Sequences, sq)
				if !p.lit("|") {
					break
				}
			}
			g.Rules = append(g.Rules, r)
		} else if first {
			return g, false
		}
		if p.i == len(s) {
			return g, true
		}
		if !p.lit("\n") && !p.lit("\r\n") {
			return g, false
		}
	}
}

// ---- writing with random layout

type layout struct {
	r     R
	tight bool // no optional spaces
	crlf  int  // 0 LF 1 CRLF 2 mixed
}

func (l *layout) sp(must bool) string {
	if l.tight && !must {
		return ""
	}
	n := l.r.Intn(3)
	if l.r.chance(1, 30) {
		n = l.r.Intn(40)
	}
	if must && n == 0 {
		n = 1
	}
	return strings.Repeat(" ", n)
}

func (l *layout) eol() string {
	if l.crlf == 1 || l.crlf == 2 && l.r.chance(1, 2) {
		return "\r\n"
	}
	return "\n"
}

func (l *layout) quote(s string) string {
	q := byte('"')
	if !strings.Contains(s, "'") && l.r.chance(1, 2) {
		q = '\''
	}
	b := []byte{q}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\t':
			b = append(b, `\t`...)
		case '\n':
			b = append(b, `\n`...)
		case '\r':
			b = append(b, `\r`...)
		case '\\':
			b = append(b, `\\`...)
		case '"':
			if q == '"' || l.r.chance(1, 2) {
				b = append(b, '\\')
			}
			b = append(b, '"')
		default:
			b = append(b, s[i])
		}
	}
	return string(append(b, q))
}

// renderBNF: g (rules of it) as text in a random layout
func renderBNF(r R, g bnf.Grammar) string {
	l := &layout{r: r, tight: r.chance(1, 4), crlf: r.Intn(3)}
	var sb strings.Builder
	for i, ru := range g.Rules {
		if i > 0 {
			sb.WriteString(l.eol())
			for r.chance(1, 5) {
				sb.WriteString(l.sp(false) + l.eol())
			}
		}
		sb.WriteString(l.sp(false) + "<" + ru.Head.Name + ">" + l.sp(false) + "::=" +
			l.sp(false))
		for k, sq := range ru.Tail.Sequences {
			if k > 0 {
				sb.WriteString("|" + l.sp(false))
			}
			for _, s := range sq.Symbols {
				switch v := s.(type) {
				case bnf.SymbolNonTerminal:
					sb.WriteString("<" + v.Name + ">")
				case bnf.SymbolTerminal:
					sb.WriteString(l.quote(v.Name))
				case bnf.SymbolNothing:
					sb.WriteString(l.quote(""))
				}
				sb.WriteString(l.sp(false))
			}
		}
	}
	for r.chance(1, 3) {
		sb.WriteString(l.eol() + l.sp(false))
	}
	return sb.String()
}

// ---- grammars which can be written

func (r R) bnfTerminal() string {
	n := 1 + r.Intn(4)
	if r.chance(1, 20) {
		n = 1 + r.size(300)
	}
	b := make([]byte, n)
	mode := r.Intn(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = r.pick("\"'\\\t\n\r")
		case 1:
			b[i] = r.pick("\"'\\tnr \t\n\r<>|:=")
		case 2:
			b[i] = byte(' ' + r.Intn(95))
		default:
			b[i] = r.pick(letters + digits)
		}
	}
	return string(b)
}

// writableBNF: any rules in the notation; names may be used without a rule,
// defined twice, the empty string may stand anywhere
func writableBNF(r R) bnf.Grammar {
	var g bnf.Grammar
	n := 1 + r.Intn(5)
	if r.chance(1, 10) {
		n = 1 + r.size(70)
	}
	var names []string
	for i := 0; i < n+1; i++ {
		k := 1 + r.Intn(6)
		if r.chance(1, 20) {
			k = 1 + r.size(300)
		}
		names = append(names, bnfName(r, k))
	}
	for i := 0; i < n; i++ {
		ru := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: names[i]}}
		na := 1 + r.Intn(3)
		if r.chance(1, 20) {
			na = 1 + r.size(70)
		}
		for k := 0; k < na; k++ {
			var sq bnf.Sequence
			m := 1 + r.Intn(4)
			if r.chance(1, 30) {
				m = 1 + r.size(130)
			}
			for ; m > 0; m-- {
				switch r.Intn(7) {
				case 0:
					sq.Symbols = append(sq.Symbols, bnf.SymbolNothing{})
				case 1, 2, 3:
					sq.Symbols = append(sq.Symbols,
						bnf.SymbolTerminal{Name: r.bnfTerminal()})
				default:
					sq.Symbols = append(sq.Symbols,
						bnf.SymbolNonTerminal{Name: names[r.Intn(len(names))]})
				}
			}
			ru.Tail.Sequences = append(ru.Tail.Sequences, sq)
		}
		g.Rules = append(g.Rules, ru)
	}
	if r.chance(1, 15) { // written twice, or the same alternatives for another
		i := r.Intn(len(g.Rules))
		x := g.Rules[i]
		if r.chance(1, 3) {
			x.Head.Name = names[n]
		}
		p := i + 1
		if r.chance(1, 3) {
			p = r.Intn(len(g.Rules) + 1)
		}
		g.Rules = append(g.Rules[:p:p], append([]bnf.Rule{x}, g.Rules[p:]...)...)
	}
	return g
}

func isName(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isLetter(s[i]) && (i == 0 || !isDigit(s[i]) && s[i] != '-') {
			return false
		}
	}
	return s != ""
}

// writable: g with names and terminals the notation has; nil when the bytes do
// not fit
func writable(r R, g *Gram) *Gram {
	g = g.clone()
	used := map[string]bool{}
	mode := r.Intn(4)
	keep := mode < 2
	for _, ru := range g.Rules {
		keep = keep && isName(ru.Name)
	}
	for i := range g.Rules {
		if keep {
			break
		}
		for try := 0; ; try++ {
			n := bnfName(r, 1+r.Intn(8)+try/4)
			if mode == 0 {
				n = r.longName()
			}
			if !used[n] {
				used[n] = true
				g.Rules[i].Name = n
				break
			}
		}
	}
	// injective map of bytes into the notation's
	al := g.alphabet()
	var chars []byte
	for b := byte(' '); b <= '~'; b++ {
		chars = append(chars, b)
	}
	chars = append(chars, '\t', '\n', '\r')
	if len(al) > len(chars) {
		return nil
	}
	var mp [256]byte
	p := r.Perm(len(chars))
	if r.chance(1, 3) {
		// the troublesome ones first
		hard := "\"'\\\t\n\r"
		for i := 0; i < len(hard); i++ {
			for k := range p {
				if chars[p[k]] == hard[i] {
					p[i], p[k] = p[k], p[i]
					break
				}
			}
		}
	}
	for i, b := range al {
		mp[b] = chars[p[i]]
	}
	for i := range g.Rules {
		for j := range g.Rules[i].Alts {
			for k, s := range g.Rules[i].Alts[j] {
				if s.T {
					b := []byte(s.S)
					for x := range b {
						b[x] = mp[b[x]]
					}
					g.Rules[i].Alts[j][k].S = string(b)
				}
			}
		}
	}
	return g
}
