package mon

// C13 order and control of cst.Walk

import (
	"fmt"
	"sync"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/cst"
)

func init() {
	register(&Prop{
		ID:    "C13",
		Level: "monitored traces of Visit calls on generated trees and visitors",
		Rule: "one evaluation is one Walk whose trace of (visitor, node) calls was compared with the " +
			"trace the specification gives for that tree and visitor behaviour; nontrivial: the trace has " +
			"more than one call; distinct by trace",
		Assume: []string{"the specification trace is computed by an explicit stack over the harness's own tree"},
		Need: map[string]int64{"visit calls": 200000, "subtrees pruned": 5000,
			"visitor changes": 5000, "nested walks": 100, "nodes compared": 5000},
		Families: []Family{
			{Name: "random", Quick: 900000, Thorough: 6000000, Run: walkRandom},
			{Name: "shapes", Quick: 160, Thorough: 400, Run: walkShapes},
			{Name: "small", Quick: 1, Thorough: 1, Run: walkSmall, Serial: true},
			{Name: "lazy", Quick: 2000, Thorough: 6000, Run: walkLazy},
			{Name: "growing", Quick: 20000, Thorough: 60000, Run: walkGrowing},
			{Name: "nilvisitor", Quick: 20000, Thorough: 60000, Run: walkNilVisitor},
			{Name: "parsed", Quick: 1500, Thorough: 8000, Run: walkParsed},
			{Name: "parallel", Quick: 300, Thorough: 1500, Run: walkParallel},
			{Name: "accessors", Quick: 20000, Thorough: 60000, Run: nodeAccessors},
		},
	})
}

// wtree: the harness's tree; node of node i as built is nodes[i]
type wtree struct {
	kids [][]int
	kind []byte
	// not nil: node i has type typ[i] and the empty span i, i
	typ []int
}

func (t *wtree) id(n cst.Node) int {
	if t.typ != nil {
		return n.Pos()
	}
	return n.Type()
}

// three ways to be a node besides cst.NewNode
type ptrNode struct {
	id   int
	kids []cst.Node
	pos  int
}

func (n *ptrNode) Type() int          { return n.id }
func (n *ptrNode) Pos() int           { return n.pos }
func (n *ptrNode) End() int           { return n.pos }
func (n *ptrNode) Childs() []cst.Node { return n.kids }

// not comparable
type valNode struct {
	id   int
	kids []cst.Node
}

func (n valNode) Type() int          { return n.id }
func (n valNode) Pos() int           { return n.id }
func (n valNode) End() int           { return -n.id }
func (n valNode) Childs() []cst.Node { return n.kids }

// a new slice at every call
type copyNode struct {
	id   int
	kids []cst.Node
}

func (n *copyNode) Type() int { return n.id }
func (n *copyNode) Pos() int  { return 7 }
func (n *copyNode) End() int  { return 7 }
func (n *copyNode) Childs() []cst.Node {
	return append([]cst.Node(nil), n.kids...)
}

func (t *wtree) build() cst.Node {
	made := make([]cst.Node, len(t.kids))
	// children have larger numbers than their parents
	for i := len(t.kids) - 1; i >= 0; i-- {
		var ks []cst.Node
		for _, k := range t.kids[i] {
			ks = append(ks, made[k])
		}
		if t.typ != nil {
			switch t.kind[i] % 2 {
			case 0:
				made[i] = cst.NewNode(t.typ[i], i, i, ks)
			default:
				made[i] = &ptrNode{t.typ[i], ks, i}
			}
			continue
		}
		switch t.kind[i] {
		case 0:
			made[i] = cst.NewNode(i, i%7, i%7+3, ks)
		case 1:
			made[i] = &ptrNode{i, ks, 0}
		case 2:
			made[i] = valNode{i, ks}
		default:
			made[i] = &copyNode{i, ks}
		}
	}
	return made[0]
}

func randTree(r R, n int) *wtree {
	t := &wtree{kids: make([][]int, n), kind: make([]byte, n)}
	mode := r.Intn(5)
	for i := 1; i < n; i++ {
		p := 0
		switch mode {
		case 0:
			p = r.Intn(i)
		case 1: // deep
			p = i - 1 - r.Intn(min(i, 3))
		case 2: // wide
			p = r.Intn(min(i, 4))
		case 3:
			p = r.Intn(i)/2 + r.Intn(i-i/2)
			p = min(p, i-1)
		default:
			p = (i - 1) / 2
		}
		t.kids[p] = append(t.kids[p], i)
	}
	for i := range t.kids {
		k := t.kids[i]
		r.Shuffle(len(k), func(a, b int) { k[a], k[b] = k[b], k[a] })
	}
	k := byte(r.Intn(5))
	for i := range t.kind {
		t.kind[i] = k
		if k == 4 {
			t.kind[i] = byte(r.Intn(4))
		}
	}
	if r.chance(1, 4) { // few types, empty spans
		few := 1 + r.Intn(3)
		t.typ = make([]int, n)
		for i := range t.typ {
			t.typ[i] = r.Intn(few) - 2*r.Intn(2)
		}
	}
	if r.chance(1, 5) { // a node which is a child more than once
		for d := 1 + r.Intn(4); d > 0 && n > 1; d-- {
			p := r.Intn(n)
			if k := t.kids[p]; len(k) > 0 {
				again := k[r.Intn(len(k))]
				at := r.Intn(len(k) + 1)
				if r.chance(1, 2) {
					again = k[min(at, len(k)-1)]
				}
				k = append(k[:at:at], append([]int{again}, k[at:]...)...)
				t.kids[p] = k
			}
		}
	}
	return t
}

// policy: what visitor v does at a node of type t on the c-th call of the walk;
// -1 for nil
type policy func(v, t, c int) int

type call struct{ v, n int }

// want: the trace of the specification
func (t *wtree) want(p policy, v0, limit int) []call {
	var tr []call
	st := []call{{v0, 0}}
	for len(st) > 0 && len(tr) < limit {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		w := p(x.v, x.n, len(tr))
		tr = append(tr, x)
		if w < 0 {
			continue
		}
		k := t.kids[x.n]
		for i := len(k) - 1; i >= 0; i-- {
			st = append(st, call{w, k[i]})
		}
	}
	return tr
}

type walkLog struct {
	tr   []call
	p    policy
	kind int
	ptrs map[int]cst.Visitor
	// a Walk from within Visit
	inner func(n cst.Node)
	id    func(n cst.Node) int
}

func (l *walkLog) visit(v int, n cst.Node) cst.Visitor {
	c := len(l.tr)
	t := -1 << 40
	if n != nil {
		t = n.Type()
		if l.id != nil {
			t = l.id(n)
		}
	}
	l.tr = append(l.tr, call{v, t})
	if n == nil {
		return nil
	}
	if l.inner != nil {
		l.inner(n)
	}
	w := l.p(v, t, c)
	if w < 0 {
		return nil
	}
	return l.visitor(w)
}

// visitors of several dynamic types, some not comparable
type ptrVis struct {
	l *walkLog
	v int
}

func (x *ptrVis) Visit(n cst.Node) cst.Visitor { return x.l.visit(x.v, n) }

type funcVis func(n cst.Node) cst.Visitor

func (f funcVis) Visit(n cst.Node) cst.Visitor { return f(n) }

type sliceVis struct {
	l *walkLog
	v []int
}

func (x sliceVis) Visit(n cst.Node) cst.Visitor { return x.l.visit(x.v[0], n) }

func (l *walkLog) visitor(v int) cst.Visitor {
	k := l.kind
	if k == 3 {
		k = v % 3
	}
	switch k {
	case 0:
		if l.ptrs == nil {
			l.ptrs = map[int]cst.Visitor{}
		}
		if l.ptrs[v] == nil {
			l.ptrs[v] = &ptrVis{l, v}
		}
		return l.ptrs[v]
	case 1:
		return funcVis(func(n cst.Node) cst.Visitor { return l.visit(v, n) })
	default:
		return sliceVis{l, []int{v}}
	}
}

func randPolicy(r R, n int) policy {
	m := r.Intn(7)
	salt := uint64(r.Int63())
	rate := uint64(2 + r.Intn(12))
	h := func(a, b int) uint64 {
		x := salt ^ uint64(a)*0x9e3779b97f4a7c15 ^ uint64(b)*0xc2b2ae3d27d4eb4f
		x ^= x >> 29
		x *= 0xbf58476d1ce4e5b9
		return x ^ x>>32
	}
	stop := r.Intn(n + 1)
	switch m {
	case 0: // the same everywhere
		return func(v, t, c int) int { return v }
	case 1: // another at every level
		return func(v, t, c int) int { return v + 1 }
	case 2: // prunes by node
		return func(v, t, c int) int {
			if h(t, 0)%rate == 0 {
				return -1
			}
			return v
		}
	case 3: // by node and visitor
		return func(v, t, c int) int {
			x := h(t, v)
			if x%rate == 0 {
				return -1
			}
			return int(x>>40) % 5
		}
	case 4: // by time
		return func(v, t, c int) int {
			if h(c, 1)%rate == 0 {
				return -1
			}
			return c
		}
	case 5: // stops everything from one call on
		return func(v, t, c int) int {
			if c >= stop {
				return -1
			}
			return v
		}
	default: // changes at one node
		return func(v, t, c int) int {
			if t == stop {
				return v + 100
			}
			return v
		}
	}
}

func judgeWalk(c *Ctx, t *wtree, p policy, kind int, what string) {
	want := t.want(p, 3, 1<<30)
	l := &walkLog{p: p, kind: kind, id: t.id}
	cst.Walk(l.visitor(3), t.build())
	compareTrace(c, l.tr, want, t, what)
	pr, ch := 0, 0
	for i, x := range want {
		switch w := p(x.v, x.n, i); {
		case w < 0 && len(t.kids[x.n]) > 0:
			pr++
		case w >= 0 && w != x.v && len(t.kids[x.n]) > 0:
			ch++
		}
	}
	c.Count("visit calls", len(l.tr))
	c.Count("subtrees pruned", pr)
	c.Count("visitor changes", ch)
	c.Max("calls in a walk", len(l.tr))
	h := uint64(14695981039346656037)
	for _, x := range l.tr {
		h = (h ^ uint64(x.v)) * 1099511628211
		h = (h ^ uint64(x.n)) * 1099511628211
	}
	c.Eval(len(l.tr) > 1, h)
}

func compareTrace(c *Ctx, got, want []call, t *wtree, what string) {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			c.Fail("%s: Walk ended after %d calls, call %d should be visitor %d at node %d%s",
				what, len(got), i, want[i].v, want[i].n, clipT(t))
		case i >= len(want):
			c.Fail("%s: call %d is one too many: visitor %d at node %d%s", what, i,
				got[i].v, got[i].n, clipT(t))
		case got[i] != want[i]:
			c.Fail("%s: call %d is visitor %d at node %d, should be visitor %d at node %d%s",
				what, i, got[i].v, got[i].n, want[i].v, want[i].n, clipT(t))
		}
	}
}

func clipT(t *wtree) string {
	if t == nil {
		return ""
	}
	s := fmt.Sprint(t.kids)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return "\nchildren by node: " + s
}

func walkRandom(c *Ctx) {
	n := 1 + c.size(60)
	t := randTree(c.R, n)
	p := randPolicy(c.R, n)
	judgeWalk(c, t, p, c.Intn(4), "random tree")
	if c.Idx < 3 {
		c.Sample("tree of %d nodes, trace %v", n, t.want(p, 3, 12))
	}
}

func walkShapes(c *Ctx) {
	n := []int{30000, 200000, 65535, 65537, 1000, 257, 256, 255, 128, 33, 17, 9, 5}[c.Intn(13)]
	if c.Idx < 2 {
		n = 200000
		if c.Tier == "thorough" {
			n = 1000000
		}
	}
	t := &wtree{kids: make([][]int, n), kind: make([]byte, n)}
	what := ""
	switch s := c.Idx % 4; s {
	case 0: // a chain
		what = fmt.Sprint("chain of ", n)
		for i := 1; i < n; i++ {
			t.kids[i-1] = []int{i}
		}
		c.Max("deepest", n)
	case 1: // a star
		what = fmt.Sprint("star of ", n)
		for i := 1; i < n; i++ {
			t.kids[0] = append(t.kids[0], i)
		}
		c.Max("widest", n)
	case 2: // a comb: every chain node has a leaf before and behind
		what = fmt.Sprint("comb of ", n)
		at := 0
		for i := 1; i+2 < n; i += 3 {
			t.kids[at] = []int{i, i + 1, i + 2}
			at = i + 1
		}
	default: // a star of chains
		what = fmt.Sprint("star of chains, ", n)
		last := 0
		for i := 1; i < n; i++ {
			if i%50 == 1 {
				last = 0
			}
			t.kids[last] = append(t.kids[last], i)
			last = i
		}
	}
	k := byte(c.Intn(4))
	if n > 5000 {
		// no node type with costly Childs: how often it is called is free
		k = byte(c.Intn(3))
	}
	for i := range t.kind {
		t.kind[i] = k
	}
	judgeWalk(c, t, func(v, t, c int) int { return v }, c.Intn(3), what)
	judgeWalk(c, t, randPolicy(c.R, n), c.Intn(3), what)
}

// every tree of up to six nodes, every assignment of prune, keep and change
func walkSmall(c *Ctx) {
	var gen func(n int, parents []int, f func([]int))
	gen = func(n int, ps []int, f func([]int)) {
		if len(ps) == n {
			f(ps)
			return
		}
		for p := 0; p < len(ps); p++ {
			gen(n, append(ps[:len(ps):len(ps)], p), f)
		}
	}
	for n := 1; n <= 5; n++ {
		gen(n, []int{0}, func(ps []int) {
			t := &wtree{kids: make([][]int, n), kind: make([]byte, n)}
			for i := 1; i < n; i++ {
				t.kids[ps[i]] = append(t.kids[ps[i]], i)
				t.kind[i] = byte((i + len(ps)) % 4)
			}
			total := 1
			for i := 0; i < n; i++ {
				total *= 3
			}
			for code := 0; code < total; code++ {
				act := make([]int, n)
				for i, x := 0, code; i < n; i, x = i+1, x/3 {
					act[i] = x % 3
				}
				judgeWalk(c, t, func(v, t, _ int) int {
					switch act[t] {
					case 0:
						return -1
					case 1:
						return v
					}
					return v + 1
				}, code%3, "small tree")
			}
		})
	}
}

// endless trees, made as they are asked for: pruning has to stop the walk
type lazyNode struct{ id, depth, width int }

func (n lazyNode) Type() int { return n.id }
func (n lazyNode) Pos() int  { return n.depth }
func (n lazyNode) End() int  { return n.depth }
func (n lazyNode) Childs() []cst.Node {
	var ks []cst.Node
	for i := 0; i < n.width; i++ {
		ks = append(ks, lazyNode{n.id*n.width + i + 1, n.depth + 1, n.width})
	}
	return ks
}

func walkLazy(c *Ctx) {
	width := 1 + c.Intn(4)
	depth := []int{12, 7, 5, 4}[width-1]
	salt := c.Intn(5) + 2
	var got, want []call
	var vis func(v int) cst.Visitor
	vis = func(v int) cst.Visitor {
		return funcVis(func(n cst.Node) cst.Visitor {
			got = append(got, call{v, n.Type()})
			if n.Pos() >= depth || n.Pos() > 1 && n.Type()%salt == 0 {
				return nil
			}
			return vis(v*3 + n.Type()%2)
		})
	}
	cst.Walk(vis(1), lazyNode{0, 0, width})
	var spec func(v, id, d int)
	spec = func(v, id, d int) {
		want = append(want, call{v, id})
		if d >= depth || d > 1 && id%salt == 0 {
			return
		}
		for i := 0; i < width; i++ {
			spec(v*3+id%2, id*width+i+1, d+1)
		}
	}
	spec(1, 0, 0)
	compareTrace(c, got, want, nil, "endless tree")
	c.Count("visit calls", len(got))
	c.Eval(len(got) > 1, fmt.Sprint(width, depth, salt))
}

// children which Visit itself gives the node: below it, so walked
func walkGrowing(c *Ctx) {
	n := 2 + c.size(40)
	t := randTree(c.R, n)
	nodes := make([]*ptrNode, n)
	for i := range nodes {
		nodes[i] = &ptrNode{id: i}
	}
	early := c.Intn(3) // 0: none made before the walk
	kids := func(i int) (ks []cst.Node) {
		for _, k := range t.kids[i] {
			ks = append(ks, nodes[k])
		}
		return
	}
	for i := range nodes {
		if early > 0 && c.chance(early, 3) {
			nodes[i].kids = kids(i)
		} else if c.chance(1, 3) {
			nodes[i].kids = []cst.Node{&ptrNode{id: 1000000}}
		}
	}
	p := randPolicy(c.R, n)
	l := &walkLog{p: p, kind: c.Intn(4)}
	l.inner = func(n cst.Node) {
		if x := n.(*ptrNode); x.id < len(nodes) {
			x.kids = kids(x.id)
		}
	}
	want := t.want(p, 3, 1<<30)
	cst.Walk(l.visitor(3), nodes[0])
	compareTrace(c, l.tr, want, t, "tree growing under Visit")
	c.Count("visit calls", len(l.tr))
	c.Count("nodes given their children by Visit", len(l.tr))
	c.Eval(len(l.tr) > 1, fmt.Sprint(l.tr))
}

// a nil pointer in a Visitor is a visitor like any other
type nilVis struct{}

var nilVisLog *walkLog

func (x *nilVis) Visit(n cst.Node) cst.Visitor {
	l := nilVisLog
	c := len(l.tr)
	l.tr = append(l.tr, call{3, l.id(n)})
	if l.p(3, l.id(n), c) < 0 {
		return nil
	}
	return x
}

func walkNilVisitor(c *Ctx) {
	n := 1 + c.size(40)
	t := randTree(c.R, n)
	rate := 2 + c.Intn(9)
	p := func(v, t, c int) int {
		if (t*7+c)%rate == 1 {
			return -1
		}
		return 3
	}
	want := t.want(p, 3, 1<<30)
	l := &walkLog{p: p, id: t.id}
	nilVisLog = l
	cst.Walk((*nilVis)(nil), t.build())
	compareTrace(c, l.tr, want, t, "visitor which is a nil pointer")
	c.Count("visit calls", len(l.tr))
	c.Eval(len(l.tr) > 1, fmt.Sprint(l.tr))
}

// trees made by Parse, and walks started by Visit
func walkParsed(c *Ctx) {
	g := randLL1(c.R)
	if c.chance(1, 3) {
		gs := realGrams()
		g = gs[c.Intn(len(gs))]
	}
	p := mustMk(c, g.toBNF())
	for _, in := range inputs(c.R, g, newDeriver(g), 3, 0, 0, 80) {
		root, _, err := p.Parse(in.s)
		if err != nil {
			continue
		}
		walkReal(c, root)
	}
	if c.Idx == 0 {
		p := mustMk(c, bnf.SelfGrammar())
		root, _, err := p.Parse("<a> ::= 'b' | <c>\n<c> ::= \"\"\n")
		if err != nil {
			c.Fail("own grammar rejects its text: %v", err)
		}
		walkReal(c, root)
	}
}

func walkReal(c *Ctx, root cst.Node) {
	id := func(n cst.Node) int {
		return (n.Type()+2)*1000003 + n.Pos()*1009 + n.End() + len(n.Childs())*7
	}
	var got, want, inner, innerWant []int
	skip := c.Intn(9) - 2
	nest := c.Intn(4)
	pruned := 0
	var v funcVis
	v = func(n cst.Node) cst.Visitor {
		got = append(got, id(n))
		if n.Type() == nest {
			cst.Walk(funcVis(func(k cst.Node) cst.Visitor {
				inner = append(inner, id(k))
				return nil
			}), n)
			for _, k := range n.Childs() {
				cst.Walk(funcVis(func(k cst.Node) cst.Visitor {
					inner = append(inner, id(k))
					return nil
				}), k)
			}
		}
		if n.Type() == skip {
			pruned++
			return nil
		}
		return v
	}
	cst.Walk(v, root)
	st := []cst.Node{root}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		want = append(want, id(n))
		if n.Type() == nest {
			innerWant = append(innerWant, id(n))
			for _, k := range n.Childs() {
				innerWant = append(innerWant, id(k))
			}
			c.Count("nested walks", 1+len(n.Childs()))
		}
		if n.Type() == skip {
			continue
		}
		ch := n.Childs()
		for i := len(ch) - 1; i >= 0; i-- {
			st = append(st, ch[i])
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fail("walk of a parse tree visited %d nodes, want %d, or in another order; "+
			"pruning type %d\ngot  %s\nwant %s", len(got), len(want), skip,
			clip(fmt.Sprint(got)), clip(fmt.Sprint(want)))
	}
	if fmt.Sprint(inner) != fmt.Sprint(innerWant) {
		c.Fail("walks started within Visit saw %s, want %s", clip(fmt.Sprint(inner)),
			clip(fmt.Sprint(innerWant)))
	}
	c.Count("visit calls", len(got)+len(inner))
	c.Count("subtrees pruned", pruned)
	c.Eval(len(got) > 1, fmt.Sprint(got), skip)
}

// one tree, several walks at the same time
func walkParallel(c *Ctx) {
	n := 50 + c.Intn(400)
	t := randTree(c.R, n)
	root := t.build()
	k := 8
	logs := make([]*walkLog, k)
	wants := make([][]call, k)
	for i := range logs {
		p := randPolicy(c.R, n)
		logs[i] = &walkLog{p: p, kind: c.Intn(4), id: t.id}
		wants[i] = t.want(p, 3, 1<<30)
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, l := range logs {
		wg.Add(1)
		go func(l *walkLog) {
			defer wg.Done()
			<-start
			cst.Walk(l.visitor(3), root)
		}(l)
	}
	close(start)
	wg.Wait()
	for i, l := range logs {
		compareTrace(c, l.tr, wants[i], t, "concurrent walk")
		c.Count("visit calls", len(l.tr))
		c.Eval(len(l.tr) > 1, fmt.Sprint(l.tr))
	}
	c.Count("concurrent walks", k)
}

func nodeAccessors(c *Ctx) {
	vals := []int{0, 1, -1, -2, 2, 16, 255, 256, 65535, 65536, 1 << 31, -1 << 31, 1<<31 - 1,
		1 << 40, 1<<63 - 1, -1 << 63}
	val := func() int {
		if c.chance(1, 2) {
			return vals[c.Intn(len(vals))]
		}
		return c.Intn(1 << uint(1+c.Intn(40)))
	}
	var kids []cst.Node
	if c.chance(3, 4) {
		kids = []cst.Node{}
	}
	for k := c.size(20); k > 0; k-- {
		kids = append(kids, &ptrNode{id: k})
	}
	if c.chance(1, 20) {
		for k := 0; k < 5000; k++ {
			kids = append(kids, &ptrNode{id: k})
		}
	}
	for k := c.Intn(8) - 5; k > 0 && len(kids) > 0; k-- {
		at := c.Intn(len(kids))
		if k == 1 {
			at = len(kids) - 1
		}
		kids[at] = nil
		if c.chance(1, 2) && at > 0 {
			kids[at] = kids[at-1] // twice the same
		}
	}
	t, s, e := val(), val(), val()
	n := cst.NewNode(t, s, e, kids)
	for round := 0; round < 2; round++ {
		if n.Type() != t || n.Pos() != s || n.End() != e {
			c.Fail("NewNode(%d, %d, %d) reports type %d, position %d, end %d", t, s, e,
				n.Type(), n.Pos(), n.End())
		}
		ch := n.Childs()
		if len(ch) != len(kids) {
			c.Fail("NewNode with %d children reports %d", len(kids), len(ch))
		}
		for i := range ch {
			if ch[i] != kids[i] {
				c.Fail("child %d of %d is not the one given", i, len(kids))
			}
		}
		// other nodes made in between change nothing
		cst.NewNode(val(), val(), val(), []cst.Node{n})
	}
	c.Count("nodes compared", 1+len(kids))
	c.Eval(true, t, s, e, len(kids))
}
