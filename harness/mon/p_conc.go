package mon

// C08 concurrency: built with the race detector. The results of concurrent
// calls are compared with those of the same calls made alone afterwards, on
// objects of their own: nothing is warmed up before the goroutines start.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// meet: readers wait (for a bounded number of yields) until others read too
type meet struct {
	in   atomic.Int32
	want int32
	max  atomic.Int32
}

func (m *meet) enter() {
	n := m.in.Add(1)
	for {
		o := m.max.Load()
		if n <= o || m.max.CompareAndSwap(o, n) {
			break
		}
	}
	for k := 0; k < 300 && m.in.Load() < m.want; k++ {
		runtime.Gosched()
	}
	m.in.Add(-1)
}

type meetReader struct {
	io.Reader
	m    *meet
	once bool
}

func (r *meetReader) Read(p []byte) (int, error) {
	if !r.once {
		r.once = true
		r.m.enter()
	}
	return r.Reader.Read(p)
}

type concOp struct {
	kind int
	w    int // world
	i    int // input
	src  int
	brk  int // mutate the names returned
}

type concWorld struct {
	g    *Gram
	b    bnf.Grammar
	ins  []string
	all  []byte // all inputs, one after another
	at   []int
	t    table
	n    map[int]string
	p    parser.LL1Parser
	ok   bool
	tree cst.Node // shared tree of tin
	tin  string
	h    *hand // the table is made by hand
	n0   map[int]string
}

// fresh: a parser like the shared one, of objects of its own
func (w *concWorld) fresh() (parser.LL1Parser, error) {
	if w.h != nil {
		return parser.NewLL1Parser(w.h.table(), w.n0), nil
	}
	t, _, err := tablegen.FromGrammar(w.g.toBNF())
	if err != nil {
		return nil, err
	}
	return parser.NewLL1Parser(*t, w.n0), nil
}

const (
	opParse = iota
	opGen
	opString
	opSelf
	opBind
	opToAST
	opWalk
	opBytes
	opNew
	opFront
	opBad
	opKinds
)

var opNames = []string{"Parse", "FromGrammar", "String", "SelfGrammar",
	"bindings", "ToAST", "Walk", "ByteSet", "NewLL1Parser", "front end",
	"failing call"}

func foldTree(n cst.Node) uint64 { return digest(n) }

type countVisitor struct {
	n    *int
	deep int
	sum  *int
}

func (v countVisitor) Visit(n cst.Node) cst.Visitor {
	*v.n++
	*v.sum += v.deep*31 + n.Type() + n.Pos()*3 + n.End()*7
	v.deep++
	return v
}

func init() {
	run := func(c *Ctx, gor, per int) {
		// grammars of the harness only: nothing of the code has run yet
		var ws []*concWorld
		for k := 1 + c.Intn(3); k > 0; k-- {
			g := randLL1(c.R)
			if c.chance(1, 3) {
				gs := realGrams()
				g = gs[c.Intn(len(gs))]
			}
			w := &concWorld{g: g, b: g.toBNF()}
			for _, in := range inputs(c.R, g, newDeriver(g), 4, 2, 1, 60) {
				w.ins = append(w.ins, in.s)
			}
			ws = append(ws, w)
		}
		text := renderBNF(c.R, writableBNF(c.R))
		coldFront := c.chance(1, 2)
		for _, w := range ws {
			// tables come from the code; the parsers stay unused
			t, n, err := tablegen.FromGrammar(w.b)
			if err != nil {
				continue
			}
			w.ok = true
			w.t, w.n = *t, *n
			if c.chance(1, 3) {
				w.h = randTable(c.R)
				w.t, w.ins = w.h.table(), nil
				for k := 0; k < 60 && len(w.ins) < 5; k++ {
					if in := w.h.input(c.R); !w.h.run(in, nil).runaway {
						w.ins = append(w.ins, in)
					}
				}
				if len(w.ins) == 0 {
					w.h, w.t = nil, *t
					w.ins = []string{"", "a"}
				}
			}
			if c.chance(1, 3) { // names missing
				for i := range w.n {
					if c.chance(1, 2) {
						delete(w.n, i)
					}
				}
			}
			if c.chance(1, 4) { // as Parse returns them
				w.n[-1], w.n[-2] = "_literal", "_nothing"
			}
			if c.chance(1, 12) {
				w.n = nil
			}
			w.n0 = map[int]string{}
			for k, v := range w.n {
				w.n0[k] = v
			}
			for _, in := range w.ins {
				w.at = append(w.at, len(w.all))
				w.all = append(w.all, in...)
			}
			w.p = parser.NewLL1Parser(w.t, w.n)
			if !coldFront || c.chance(1, 2) {
				// a tree of another parser to walk
				w.tin = w.ins[0]
				w.tree, _, _ = parser.NewLL1Parser(cloneTable(w.t),
					map[int]string{}).Parse(w.tin)
			}
		}
		selfB := bnf.SelfGrammar()
		st, sn, err := tablegen.FromGrammar(selfB)
		if err != nil {
			c.Fail("no table for the self grammar: %v", err)
		}
		selfP := parser.NewLL1Parser(*st, *sn)
		bind := fromcst.SelfCSTtoASTBindings()
		more := c.Intn(6)
		if c.chance(1, 5) {
			more = c.Intn(400)
		}
		for k := more; k > 0; k-- {
			bind.IgnoreNodeTypes = append(bind.IgnoreNodeTypes, 26+c.Intn(1000))
		}
		c.Shuffle(len(bind.IgnoreNodeTypes), func(i, j int) {
			l := bind.IgnoreNodeTypes
			l[i], l[j] = l[j], l[i]
		})
		bindWas := fmt.Sprint(bind)
		bind0 := fromcst.SelfCSTtoASTBindings()
		bind0.EscapeMapping = nil
		if c.chance(1, 2) {
			bind0.RuleTailType = 900
		}
		bad := randLL1(c.R).toBNF()
		switch c.Intn(5) {
		case 0:
			bad = randGram(c.R, 4, 3, 3).toBNF()
		case 1:
			bad.Rules = append(bad.Rules, bad.Rules[0])
		case 2:
			bad.Rules = nil
		default:
			l := bad.Rules[len(bad.Rules)-1].Tail.Sequences
			l[len(l)-1].Symbols = []bnf.Symbol{[]bnf.Symbol{nil,
				bnf.SymbolNonTerminal{Name: "no such rule"},
				bnf.SymbolTerminal{}}[c.Intn(3)]}
		}
		empty := parser.NewLL1Parser(nil, nil)
		selfTree, _, err := parser.NewLL1Parser(cloneTable(*st),
			map[int]string{}).Parse(text)
		if err != nil {
			c.Fail("%s not parsed: %v", clip(text), err)
		}
		set := byteset.New([]byte(randBytes(c.R, c.Intn(200), nil))...)
		set2 := byteset.New([]byte(randBytes(c.R, c.Intn(20), nil))...)

		var usable []int
		for i, w := range ws {
			if w.ok {
				usable = append(usable, i)
			}
		}
		if len(usable) == 0 {
			return
		}
		focus := -1 // all goroutines on one kind of call
		if c.chance(2, 3) {
			focus = []int{opParse, opParse, opParse, opGen, opToAST, opString,
				opFront, opWalk, opBad}[c.Intn(9)]
		}
		prog := make([][]concOp, gor)
		for k := range prog {
			for j := 0; j < per; j++ {
				o := concOp{kind: c.Intn(opKinds), w: usable[c.Intn(len(usable))],
					src: c.Intn(5), brk: c.Intn(3)}
				if c.chance(1, 3) {
					o.kind = opParse
				}
				if focus >= 0 && c.chance(4, 5) {
					o.kind = focus
				}
				if j == 0 && focus >= 0 {
					o.w = usable[0]
				}
				o.i = c.Intn(len(ws[o.w].ins))
				prog[k] = append(prog[k], o)
			}
		}
		m := &meet{want: int32(gor)}
		meeting := c.chance(1, 2)
		// the texts of results are made later: nothing of the harness or of
		// fmt orders the goroutines between their calls
		do := func(o concOp, conc bool) func() string {
			w := ws[o.w]
			switch o.kind {
			case opParse, opNew:
				p := w.p
				if o.kind == opNew {
					p = parser.NewLL1Parser(w.t, w.n)
				}
				in := w.ins[o.i]
				var src any = in
				switch o.src {
				case 0:
					src = []byte(in)
				case 1:
					src = bytes.NewBufferString(in)
				case 4:
					// side by side with the sources of others
					src = w.all[w.at[o.i] : w.at[o.i]+len(in)]
				case 2:
					src = strings.NewReader(in)
					if conc && meeting {
						src = &meetReader{Reader: strings.NewReader(in), m: m}
					}
				}
				t, n, err := p.Parse(src)
				var n2 map[int]string
				if n != nil {
					n2 = map[int]string{}
					for k, v := range *n {
						n2[k] = v
					}
				}
				if n != nil && o.brk > 0 {
					// the caller owns what it was given
					(*n)[-100] = "mine"
					for k := range *n {
						if o.brk == 2 {
							delete(*n, k)
						} else {
							(*n)[k] += "x"
						}
					}
				}
				return func() string {
					pn := &n2
					if n == nil {
						pn = nil
					}
					return outcomeOf(t, pn, err).String()
				}
			case opGen:
				t, n, err := tablegen.FromGrammar(w.b)
				if err != nil {
					return func() string { return "error " + err.Error() }
				}
				t2, n2 := cloneTable(*t), map[int]string{}
				for k, v := range *n {
					n2[k] = v
				}
				delete(*n, 0)
				for _, row := range *t {
					for b := range row {
						delete(row, b)
					}
				}
				delete(*t, 0)
				return func() string { return tableKey(t2) + namesKey(n2) }
			case opString:
				s := w.b.String()
				return func() string { return s }
			case opSelf:
				g := bnf.SelfGrammar()
				s := g.String()
				g.Rules[o.i%26].Head.Name = "mine"
				g.Rules[o.i%26].Tail.Sequences[0].Symbols[0] = bnf.SymbolNothing{}
				return func() string { return s }
			case opBind:
				b := fromcst.SelfCSTtoASTBindings()
				l1 := append([]int{}, b.IgnoreNodeTypes...)
				l2 := append([]int{}, b.SymbolTerminalTypes...)
				n, tab := len(b.EscapeMapping), b.EscapeMapping["t"]
				b.EscapeMapping["t"] = "mine"
				b.IgnoreNodeTypes[0] = 5
				b.SymbolTerminalTypes[0] = 5
				return func() string { return fmt.Sprint(l1, l2, n, tab) }
			case opToAST:
				a, err := bind.ToAST(selfTree, text)
				if err != nil {
					return func() string { return "error " + err.Error() }
				}
				s := a.String()
				a.Rules[0].Head.Name = "mine"
				return func() string { return s }
			case opWalk:
				if w.tree == nil {
					return func() string { return "" }
				}
				n, s := 0, 0
				cst.Walk(countVisitor{&n, 0, &s}, w.tree)
				d := foldTree(w.tree)
				return func() string { return fmt.Sprint(n, s, d) }
			case opBytes:
				u := set.Union(set2)
				u.Add(byte(o.i))
				u.Remove(byte(o.w))
				b, l, s1, s2 := set.Bytes(), set.Len(), set.String(), u.String()
				x, y, z := set.IsSubSet(u), set.Equal(set2), set.Contains(byte(o.i))
				return func() string { return fmt.Sprint(b, l, s1, s2, x, y, z) }
			case opFront:
				var src any = text
				if conc && o.src == 2 && meeting {
					src = &meetReader{Reader: strings.NewReader(text), m: m}
				}
				t, _, err := selfP.Parse(src)
				if err != nil {
					return func() string { return "error " + err.Error() }
				}
				a, err := bind.ToAST(t, text)
				if err != nil {
					return func() string { return "error " + err.Error() }
				}
				s := a.String()
				return func() string { return s }
			case opBad: // calls which fail
				var err error
				switch o.i % 6 {
				case 0:
					_, _, err = tablegen.FromGrammar(bad)
				case 1:
					_, err = bind0.ToAST(selfTree, text)
				case 2:
					_, _, err = w.p.Parse(nil)
				case 3:
					_, _, err = w.p.Parse(&w.ins[0])
				case 4:
					_, _, err = empty.Parse(w.ins[0])
				case 5:
					_, _, err = selfP.Parse(text + "\x01")
				}
				return func() string { return fmt.Sprint(err) }
			}
			panic("kind of call")
		}
		type done struct {
			g, j       int
			start, end time.Duration
			res        func() string
		}
		results := make([][]done, gor)
		start := make(chan struct{})
		var wg sync.WaitGroup
		pans := make([]string, gor)
		t0 := time.Now()
		for k := 0; k < gor; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						buf := make([]byte, 1<<14)
						buf = buf[:runtime.Stack(buf, false)]
						pans[k] = fmt.Sprintf("panic in a concurrent "+
							"call: %v\n%s", e, codeFrames(string(buf)))
					}
				}()
				<-start
				for j, o := range prog[k] {
					s := time.Since(t0)
					r := do(o, true)
					results[k] = append(results[k], done{k, j, s, time.Since(t0), r})
				}
			}(k)
		}
		close(start)
		wg.Wait()
		for _, s := range pans {
			if s != "" {
				c.Fail("%s", s)
			}
		}
		// calls in flight, from the times
		var edges []time.Duration
		for _, l := range results {
			for _, d := range l {
				edges = append(edges, d.start<<1|1, d.end<<1)
			}
		}
		sort.Slice(edges, func(i, j int) bool { return edges[i] < edges[j] })
		inFlight, maxFlight := 0, 0
		for _, e := range edges {
			if e&1 == 1 {
				inFlight++
				maxFlight = max(maxFlight, inFlight)
			} else {
				inFlight--
			}
		}
		// the same calls alone; on the shared objects, and parses on fresh ones
		var order []done
		for k := range prog {
			for j, o := range prog[k] {
				want := do(o, false)()
				got := results[k][j].res()
				if got != want {
					c.Fail("%s (%d goroutines, %d in flight): %s\nalone: %s\n%s",
						opNames[o.kind], gor, maxFlight, clip(got), clip(want),
						clipG(ws[o.w].g))
				}
				if o.kind == opParse {
					p, err := ws[o.w].fresh()
					if err != nil {
						c.Fail("generation failed alone: %v", err)
					}
					fr := outcomeOf(p.Parse(ws[o.w].ins[o.i])).String()
					if fr != got {
						c.Fail("Parse of %s (%d goroutines): %s\nby fresh objects: %s\n%s",
							clip(ws[o.w].ins[o.i]), gor, clip(got), clip(fr),
							clipG(ws[o.w].g))
					}
				}
				order = append(order, results[k][j])
				c.Count("concurrent "+opNames[o.kind], 1)
			}
		}
		for _, w := range ws {
			if w.ok {
				if d := sameGrammar(w.b, w.g.toBNF()); d != "" {
					c.Fail("a shared grammar changed: %s", d)
				}
				if a, b := namesKey(w.n), namesKey(w.n0); a != b {
					c.Fail("shared names changed: %s, were %s", a, b)
				}
			}
		}
		if fmt.Sprint(bind) != bindWas {
			c.Fail("shared bindings changed: %v, were %s", bind, bindWas)
		}
		sort.Slice(order, func(i, j int) bool { return order[i].end < order[j].end })
		var key []byte
		switches := 0
		for i, d := range order {
			key = append(key, byte(d.g))
			if i > 0 && order[i-1].g != d.g {
				switches++
			}
		}
		c.Max("calls in flight", maxFlight)
		c.Max("parses meeting in their sources", int(m.max.Load()))
		c.Count("goroutine switches between completed calls", switches)
		c.Eval(switches >= gor, uint64(c.Idx), key)
		c.Sample("%d goroutines x %d calls, %d in flight, completion order %v...",
			gor, per, maxFlight, key[:min(len(key), 24)])
	}
	register(&Prop{ID: "C08", Level: "exploration", Race: true,
		Rule: "A case starts 2..16 goroutines at a barrier on shared, never used " +
			"objects; each makes a random sequence of calls, readers wait inside " +
			"Parse for the others, callers change the names they get. The race " +
			"detector watches all accesses; an evaluation is one schedule whose " +
			"results all equal those of the calls made alone. Non-trivial: the " +
			"completion order switches goroutines at least once per goroutine; " +
			"distinct by case and completion order.",
		Need: map[string]int64{"concurrent Parse": 5000, "concurrent FromGrammar": 500,
			"concurrent ToAST":                           500,
			"goroutine switches between completed calls": 3000},
		Assume: []string{"the race detector reports races of executed accesses only"},
		Families: []Family{
			{Name: "first", Quick: 400, Thorough: 2000, Run: func(c *Ctx) {
				self, _ := os.Executable()
				cmd := exec.Command(self, "first", "-index", fmt.Sprint(c.Idx),
					"-seed", fmt.Sprint(c.Seed))
				var so, se bytes.Buffer
				cmd.Stdout, cmd.Stderr = &so, &se
				err := cmd.Run()
				rep := se.String()
				if err != nil && strings.Contains(rep, "TooManySugar/ll1parser/") &&
					!strings.Contains(rep, "HARNESS") {
					if len(rep) > 3000 {
						rep = rep[:3000]
					}
					c.Fail("concurrent first calls of a process:\n%s", rep)
				}
				if err != nil {
					panic(fmt.Sprint(err, rep))
				}
				if s := so.String(); !strings.HasPrefix(s, "ok ") {
					c.Fail("concurrent first calls of a process: %s", s)
				}
				c.Count("processes whose first calls were concurrent", 1)
				c.Eval(true, "first", uint64(c.Idx))
			}},
			{Name: "small", Quick: 3000, Thorough: 30000, Run: func(c *Ctx) {
				run(c, 2+c.Intn(4), 1+c.Intn(6))
			}},
			{Name: "large", Quick: 200, Thorough: 3000, Run: largeConc},
			{Name: "wide", Quick: 600, Thorough: 6000, Run: func(c *Ctx) {
				run(c, 8+c.Intn(9), 2+c.Intn(20))
			}},
		}})
}

// firstMain: the first calls this process makes are concurrent
func firstMain(seed int64, idx int) {
	r := newR(caseSeed(seed, "C08", "first", idx))
	g := randLL1(r)
	b := g.toBNF()
	ins := inputs(r, g, newDeriver(g), 4, 2, 1, 60)
	wb := writableBNF(r)
	text := renderBNF(r, wb)
	bad := randGram(r, 4, 3, 3).toBNF()
	al := g.alphabet()
	h := randTable(r)
	hin := ""
	for k := 0; k < 50; k++ {
		hin = h.input(r)
		if !h.run(hin, nil).runaway {
			break
		}
		hin = "\xfe"
	}
	ht := h.table()
	gor := 2 + r.Intn(11)
	mode := r.Intn(7) // 6: mixed
	do := func(k int) string {
		if mode < 6 {
			k = mode
		}
		switch k % 6 {
		case 0:
			_, _, p, err := mk(b)
			if err != nil {
				return err.Error()
			}
			s := ""
			for _, in := range ins {
				s += outcomeOf(p.Parse(in.s)).String()
			}
			return s
		case 1:
			p := parser.NewLL1Parser(ht, nil)
			return outcomeOf(p.Parse(hin)).String() + outcomeOf(p.Parse("\xfe")).String() +
				outcomeOf(p.Parse(strings.NewReader(hin))).String() +
				outcomeOf(p.Parse(nil)).String()
		case 2:
			fe, err := frontEnd()
			if err != nil {
				return err.Error()
			}
			a, err := fe(text)
			if err != nil {
				return err.Error()
			}
			return a.String()
		case 3:
			s := b.String() + wb.String() + bnf.SelfGrammar().String()
			return s + fmt.Sprint(fromcst.SelfCSTtoASTBindings())
		case 4:
			s := byteset.New(al...)
			n, sum := 0, 0
			cst.Walk(countVisitor{&n, 0, &sum}, cst.NewNode(1, 2, 3,
				[]cst.Node{cst.NewNode(4, 5, 6, nil)}))
			return s.String() + fmt.Sprint(s.Len(), s.Bytes(), n, sum)
		}
		_, _, err := tablegen.FromGrammar(bad)
		was := fmt.Sprint(err)
		t, n, err := tablegen.FromGrammar(b)
		if err != nil {
			return err.Error()
		}
		return was + tableKey(*t) + namesKey(*n)
	}
	res := make([]string, gor)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < gor; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			res[k] = do(k)
		}(k)
	}
	close(start)
	wg.Wait()
	for k := range res {
		if w := do(k); w != res[k] {
			fmt.Printf("call %d of %d: %s, alone: %s\n%s", k, gor, clip(res[k]),
				clip(w), clipG(g))
			return
		}
	}
	fmt.Printf("ok %d", gor)
}

func tableKey(t table) string {
	var ids []int
	for i := range t {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d:", i)
		for b := 0; b < 256; b++ {
			if ops, ok := t[i][byte(b)]; ok {
				fmt.Fprintf(&sb, "%d=%v,", b, ops)
			}
		}
	}
	return sb.String()
}
