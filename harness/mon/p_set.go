package mon

// C14 ByteSet against a set of bytes

import (
	"bytes"
	"fmt"

	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
)

type mset [256]bool

func setOf(b byte) (m mset) {
	m[b] = true
	return m
}

func (m *mset) bytes() []byte {
	res := []byte{}
	for i := 0; i < 256; i++ {
		if m[i] {
			res = append(res, byte(i))
		}
	}
	return res
}

func (m *mset) str() string {
	s := "["
	for i := 0; i < 256; i++ {
		if m[i] {
			if len(s) > 1 {
				s += " "
			}
			s += fmt.Sprintf("%02X", i)
		}
	}
	return s + "]"
}

func (m *mset) subset(o *mset) bool {
	for i := range m {
		if m[i] && !o[i] {
			return false
		}
	}
	return true
}

func init() {
	register(&Prop{
		ID:    "C14",
		Level: "monitored histories against a model set; exhaustive for sets of at most two bytes and complements",
		Rule: "one evaluation is one set state on which every query was compared with the model; nontrivial: " +
			"not the empty set; distinct by set and history step",
		Need: map[string]int64{"states compared": 60000, "pairs of sets compared": 100000,
			"steps": 60000, "full sets": 10},
		Families: []Family{
			{Name: "exhaustive", Quick: 256, Thorough: 256, Run: setExhaustive},
			{Name: "triples", Quick: 32, Thorough: 256, Run: setTriples},
			{Name: "history", Quick: 9000, Thorough: 60000, Run: setHistory},
			{Name: "runs", Quick: 2000, Thorough: 8000, Run: setRuns},
		},
	})
}

func judgeSet(c *Ctx, s byteset.ByteSet, m *mset, how string) {
	n := 0
	for i := 0; i < 256; i++ {
		if m[i] {
			n++
		}
		if s.Contains(byte(i)) != m[i] {
			c.Fail("%s: Contains(%02X) is %v, the set is %s", how, i, !m[i], m.str())
		}
	}
	if s.Len() != n {
		c.Fail("%s: Len is %d, want %d, the set is %s", how, s.Len(), n, m.str())
	}
	if b := s.Bytes(); !bytes.Equal(b, m.bytes()) {
		c.Fail("%s: Bytes is %X, want %X", how, b, m.bytes())
	}
	if g := s.String(); g != m.str() {
		c.Fail("%s: String is %s, want %s", how, g, m.str())
	}
	c.Count("states compared", 1)
	if n == 256 {
		c.Count("full sets", 1)
	}
}

func judgePair(c *Ctx, a, b byteset.ByteSet, x, y *mset, how string) {
	eq, sub, sup := *x == *y, x.subset(y), y.subset(x)
	if a.Equal(b) != eq || b.Equal(a) != eq {
		c.Fail("%s: Equal is not %v for %s and %s", how, eq, x.str(), y.str())
	}
	if a.IsSubSet(b) != sub || b.IsSuperSet(a) != sub {
		c.Fail("%s: IsSubSet %v, IsSuperSet %v, want %v: %s of %s", how,
			a.IsSubSet(b), b.IsSuperSet(a), sub, x.str(), y.str())
	}
	if b.IsSubSet(a) != sup || a.IsSuperSet(b) != sup {
		c.Fail("%s: IsSubSet %v, IsSuperSet %v, want %v: %s of %s", how,
			b.IsSubSet(a), a.IsSuperSet(b), sup, y.str(), x.str())
	}
	c.Count("pairs of sets compared", 1)
}

// every set of one and two bytes and the complements
func setExhaustive(c *Ctx) {
	i := byte(c.Idx)
	one, mi := byteset.New(i), setOf(i)
	judgeSet(c, one, &mi, fmt.Sprintf("New(%02X)", i))
	var zero byteset.ByteSet
	var mz mset
	judgeSet(c, zero, &mz, "zero value")
	judgeSet(c, byteset.New(), &mz, "New()")
	judgePair(c, zero, one, &mz, &mi, "empty and one")
	var all []byte
	var full mset
	for k := 0; k < 256; k++ {
		all = append(all, byte(k))
		full[k] = true
	}
	fs := byteset.New(all...)
	if c.Idx%16 == 0 {
		judgeSet(c, fs, &full, "New(all)")
	}
	for j := int(i); j < 256; j++ {
		b := byte(j)
		m := setOf(i)
		m[b] = true
		s := byteset.New(i, b)
		judgeSet(c, s, &m, fmt.Sprintf("New(%02X, %02X)", i, b))
		t := byteset.New(b)
		mt := setOf(b)
		judgePair(c, s, t, &m, &mt, "pair and member")
		judgePair(c, one, t, &mi, &mt, "singles")
		u := one.Union(t)
		judgePair(c, u, s, &m, &m, "union of singles")
		if !u.Equal(t.Union(one)) {
			c.Fail("union of %02X and %02X depends on the order", i, b)
		}
		// removal brings the rest
		s.Remove(i)
		mm := m
		mm[i] = false
		judgeSet(c, s, &mm, fmt.Sprintf("New(%02X, %02X) less %02X", i, b, i))
		f := fs
		f.Remove(i)
		f.Remove(b)
		mf := full
		mf[i], mf[b] = false, false
		judgePair(c, f, u, &mf, &m, "complement and pair")
		judgePair(c, f, fs, &mf, &full, "complement and full")
		if (j+c.Idx)%8 == 0 || j == c.Idx {
			judgeSet(c, f, &mf, fmt.Sprintf("full less %02X, %02X", i, b))
			v := f.Union(u)
			judgeSet(c, v, &full, "complement and pair united")
		}
		c.Eval(true, "pair", int(i), j)
	}
}

// three bytes, one of them fixed by the case
func setTriples(c *Ctx) {
	i := byte(c.Idx * 37)
	for a := 0; a < 256; a += 1 + c.Intn(3) {
		for b := a + 1; b < 256; b += 1 + c.Intn(9) {
			m := setOf(i)
			m[a], m[b] = true, true
			s := byteset.New(byte(b), i, byte(a))
			judgeSet(c, s, &m, fmt.Sprintf("New(%02X, %02X, %02X)", b, i, a))
			c.Eval(true, "triple", int(i), a, b)
		}
	}
}

// long histories over several sets; a set not operated on never changes
func setHistory(c *Ctx) {
	k := 2 + c.Intn(4)
	sets := make([]byteset.ByteSet, k)
	ms := make([]mset, k)
	span := 256
	if c.chance(1, 3) {
		span = 1 + c.Intn(80)
	}
	base := c.Intn(256)
	pick := func() byte {
		if c.chance(1, 6) {
			return []byte{0, 1, 62, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255}[c.Intn(14)]
		}
		return byte(base + c.Intn(span))
	}
	type kept struct{ got, want []byte }
	var slices []kept
	how := ""
	for step := 0; step < 40+c.Intn(80); step++ {
		i, j, d := c.Intn(k), c.Intn(k), c.Intn(k)
		switch op := c.Intn(12); op {
		case 0, 1, 2:
			b := pick()
			sets[i].Add(b)
			ms[i][b] = true
			how = fmt.Sprintf("Add(%02X)", b)
		case 3, 4:
			b := pick()
			sets[i].Remove(b)
			ms[i][b] = false
			how = fmt.Sprintf("Remove(%02X)", b)
		case 5:
			sets[d] = sets[i].Union(sets[j])
			var u mset
			for q := range u {
				u[q] = ms[i][q] || ms[j][q]
			}
			ms[d] = u
			how = "Union"
		case 6: // a copy, then the copy changes
			sets[d], ms[d] = sets[i], ms[i]
			b := pick()
			sets[d].Add(b)
			ms[d][b] = true
			how = "copy and Add"
		case 7:
			var vals []byte
			var m mset
			for q := c.size(300); q > 0; q-- {
				b := pick()
				vals = append(vals, b)
				m[b] = true
			}
			sets[i], ms[i] = byteset.New(vals...), m
			for q := range vals {
				vals[q] ^= 0x55 // the arguments are not kept
			}
			how = "New"
		case 8: // slices handed out stay as they are
			b := sets[i].Bytes()
			slices = append(slices, kept{b, append([]byte(nil), b...)})
			b2 := sets[i].Bytes()
			for q := range b2 {
				b2[q]++
			}
			_ = append(b2, 1, 2, 3)
			how = "Bytes"
		case 9: // fill a word or all
			lo := c.Intn(4) * 64
			hi := lo + 64
			if c.chance(1, 3) {
				lo, hi = 0, 256
			}
			for q := lo; q < hi; q++ {
				sets[i].Add(byte(q))
				ms[i][q] = true
			}
			how = fmt.Sprintf("Add(%02X to %02X)", lo, hi-1)
		case 10: // empty it
			for q := 0; q < 256; q++ {
				if ms[i][q] || c.chance(1, 3) {
					sets[i].Remove(byte(q))
					ms[i][q] = false
				}
			}
			how = "Remove of all"
		default: // queries only
			sets[i].Len()
			_ = sets[i].String()
			sets[i].IsSubSet(sets[j])
			how = "queries"
		}
		for q := range sets {
			judgeSet(c, sets[q], &ms[q], fmt.Sprintf("set %d after %s on %d (%d, %d), step %d", q, how, i,
				j, d, step))
			judgePair(c, sets[q], sets[(q+1)%k], &ms[q], &ms[(q+1)%k], "after "+how)
		}
		for _, s := range slices {
			if !bytes.Equal(s.got, s.want) {
				c.Fail("a slice from Bytes changed later: %X was %X", s.got, s.want)
			}
		}
		c.Count("steps", 1)
		c.Eval(ms[i] != mset{}, ms[i].str(), how)
	}
	if c.Idx < 2 {
		c.Sample("%d sets, last %s on %s", k, how, ms[0].str())
	}
}

// runs of bytes over the borders of words, and random dense sets
func setRuns(c *Ctx) {
	var m mset
	var s byteset.ByteSet
	for k := 1 + c.Intn(4); k > 0; k-- {
		lo := c.Intn(256)
		n := 1 + c.Intn(256-lo)
		for i := lo; i < lo+n; i++ {
			if c.chance(7, 8) {
				s.Add(byte(i))
				m[i] = true
			}
		}
	}
	judgeSet(c, s, &m, "runs")
	// one byte more or less, everywhere
	for i := 0; i < 256; i++ {
		t, mt := s, m
		if m[i] {
			t.Remove(byte(i))
			mt[i] = false
		} else {
			t.Add(byte(i))
			mt[i] = true
		}
		judgePair(c, s, t, &m, &mt, "one byte apart")
		if i%16 == c.Idx%16 {
			judgeSet(c, t, &mt, "one byte apart")
			judgeSet(c, s, &m, "after a change of its copy")
		}
	}
	c.Eval(m != mset{}, m.str())
}
