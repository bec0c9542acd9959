package mon

// C15 the JSON example

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/TooManySugar/ll1parser/pkg/parser"
)

const jsonBNF = "/repo/examples/json/json.bnf"

func init() {
	register(&Prop{
		ID: "C15",
		Level: "differential monitoring against encoding/json; all token strings up to a length, " +
			"otherwise generated documents",
		Rule: "one evaluation is one document whose outcome (accepted or not; for the program: printed keys " +
			"and exit status) was compared with the oracle; nontrivial: more than one byte; distinct by document",
		Assume: []string{"json.Valid of the Go library decides what JSON is",
			"documents needing tabs, lone CR or non-ASCII are judged for soundness only"},
		Need: map[string]int64{"valid documents accepted": 5000, "non-JSON rejected": 20000,
			"program runs, valid": 100, "program runs, rejected": 40, "keys printed": 500},
		Families: []Family{
			{Name: "tokens", Quick: 15, Thorough: 15, Run: jsonTokens},
			{Name: "strings", Quick: 16, Thorough: 16, Run: jsonStrings},
			{Name: "numbers", Quick: 13, Thorough: 13, Run: jsonNumbers},
			{Name: "random", Quick: 12000, Thorough: 250000, Run: jsonRandom},
			{Name: "deep", Quick: 8, Thorough: 40, Run: jsonDeep},
			{Name: "findings", Quick: 1, Thorough: 1, Run: jsonFindings, Serial: true},
			{Name: "program", Quick: 480, Thorough: 12000, Run: jsonProgram},
		},
	})
}

var jsonOnce sync.Once
var jsonP parser.LL1Parser
var jsonErr string

// jsonParser: the parser of the shipped grammar, through the whole front end
func jsonParser(c *Ctx) parser.LL1Parser {
	jsonOnce.Do(func() {
		b, err := os.ReadFile(jsonBNF)
		if err != nil {
			panic(err)
		}
		f, err := frontEnd()
		if err != nil {
			jsonErr = "no parser for BNF: " + err.Error()
			return
		}
		g, err := f(string(b))
		if err != nil {
			jsonErr = "the shipped json.bnf can not be read: " + err.Error()
			return
		}
		_, _, p, err := mk(*g)
		if err != nil {
			jsonErr = "no table for the shipped json.bnf: " + err.Error()
			return
		}
		jsonP = p
	})
	if jsonP == nil {
		c.Fail("%s", jsonErr)
	}
	return jsonP
}

// inSubset: for valid JSON, does it keep to the documented subset
func inSubset(doc string) bool {
	for i := 0; i < len(doc); i++ {
		b := doc[i]
		switch {
		case b == '\r' && i+1 < len(doc) && doc[i+1] == '\n':
		case b == '\n', b >= ' ' && b <= '~':
		default:
			return false
		}
	}
	return true
}

// fourHex: every \u followed by three hex digits and something else gets a zero
func fourHex(doc string) (string, bool) {
	var b strings.Builder
	changed := false
	hex := func(i int) bool {
		return i < len(doc) && strings.IndexByte("0123456789abcdefABCDEF", doc[i]) >= 0
	}
	for i := 0; i < len(doc); i++ {
		if doc[i] != '\\' || i+1 >= len(doc) {
			b.WriteByte(doc[i])
			continue
		}
		b.WriteByte('\\')
		b.WriteByte(doc[i+1])
		if doc[i+1] == 'u' && hex(i+2) && hex(i+3) && hex(i+4) && !hex(i+5) {
			b.WriteByte('0')
			changed = true
		}
		i++
	}
	return b.String(), changed
}

// noBlankArrays: "[ ]" becomes "[]", outside strings
func noBlankArrays(doc string) (string, bool) {
	var b strings.Builder
	changed := false
	for i := 0; i < len(doc); i++ {
		switch doc[i] {
		case '"':
			j := i + 1
			for j < len(doc) && doc[j] != '"' {
				if doc[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(doc) {
				j = len(doc) - 1
			}
			b.WriteString(doc[i : j+1])
			i = j
		case '[':
			j := i + 1
			for j < len(doc) && strings.IndexByte(" \r\n", doc[j]) >= 0 {
				j++
			}
			b.WriteByte('[')
			if j > i+1 && j < len(doc) && doc[j] == ']' {
				changed = true
				i = j - 1
			}
		default:
			b.WriteByte(doc[i])
		}
	}
	return b.String(), changed
}

// wantJSON: 1 has to be accepted, 0 rejected, -1 not judged;
// a key names the finding the document belongs to
func wantJSON(doc string) (want int, key string) {
	if !json.Valid([]byte(doc)) {
		if n, ok := fourHex(doc); ok && json.Valid([]byte(n)) && inSubset(doc) {
			return 0, "short-u-escape"
		}
		return 0, ""
	}
	if !inSubset(doc) {
		return -1, ""
	}
	if _, ok := noBlankArrays(doc); ok {
		return 1, "blank-array"
	}
	return 1, ""
}

func judgeJSON(c *Ctx, doc string) {
	p := jsonParser(c)
	root, _, err := p.Parse(doc)
	want, key := wantJSON(doc)
	c.Eval(len(doc) > 1, doc)
	if (err == nil) == (root == nil) {
		c.Fail("Parse gave tree %v and error %v for %s", root != nil, err, clip(doc))
	}
	switch {
	case want < 0:
		c.Count("outside the subset, not judged", 1)
	case want == 1 && err != nil:
		if key != "" {
			c.Known(key, "JSON rejected: %s: %v", clip(doc), err)
			return
		}
		c.Fail("JSON rejected: %s\n%v", clip(doc), err)
	case want == 0 && err == nil:
		if key != "" {
			c.Known(key, "not JSON but accepted: %s", clip(doc))
			return
		}
		c.Fail("not JSON but accepted: %s", clip(doc))
	case want == 1:
		c.Count("valid documents accepted", 1)
		c.Max("longest document accepted", len(doc))
	default:
		c.Count("non-JSON rejected", 1)
	}
}

var jsonToks = []string{"{", "}", "[", "]", ":", ",", "\"a\"", "1", "-0", "null", "true", "false", " ",
	"\r\n", "2e5"}

// every string of at most four tokens (five in thorough)
func jsonTokens(c *Ctx) {
	if c.Idx == 0 {
		judgeJSON(c, "")
	}
	n := 4
	if c.Tier == "thorough" {
		n = 5
	}
	var gen func(s string, k int)
	gen = func(s string, k int) {
		judgeJSON(c, s)
		if k == n {
			return
		}
		for _, t := range jsonToks {
			gen(s+t, k+1)
		}
	}
	gen(jsonToks[c.Idx], 1)
}

// every byte and every pair of bytes within a string, every escape
func jsonStrings(c *Ctx) {
	for a := c.Idx * 16; a < c.Idx*16+16; a++ {
		x := string([]byte{byte(a)})
		for _, f := range []string{"\"%s\"", "[\"a%s\"]", "{\"%sb\":1}", "\"\\%s\"", "{\"a\":\"\\%s\"}",
			"%s", "1%s", "%s1", "[1%s]", "[1%s,2]", "{%s}", "{\"a\"%s:1}", "{\"a\":%s2}", "\"\\u%s\"",
			"\"\\u%s000\"", "\"\\u0%s00\"", "\"\\u00%s0\"", "\"\\u000%s\"", "\"\\u00aF%sq\"",
			"\"\\u12%sq\"", "tru%s", "t%sue", "nul%s", "fals%s"} {
			judgeJSON(c, fmt.Sprintf(f, x))
		}
		for b := 0; b < 256; b++ {
			if b%2 == 1 && c.Tier != "thorough" && b > 127 {
				continue
			}
			y := string([]byte{byte(a), byte(b)})
			judgeJSON(c, "\""+y+"\"")
			judgeJSON(c, "[\"\\"+y+"\"]")
			judgeJSON(c, y)
		}
	}
}

// every string of up to five characters of numbers
func jsonNumbers(c *Ctx) {
	al := "019-+.eE5 ,x7"
	n := 4
	if c.Tier == "thorough" {
		n = 6
	}
	var gen func(s string)
	gen = func(s string) {
		judgeJSON(c, s)
		if len(s)%2 == 0 {
			judgeJSON(c, "["+s+"]")
		}
		if len(s) == n {
			return
		}
		for i := range al {
			gen(s + al[i:i+1])
		}
	}
	gen(al[c.Idx : c.Idx+1])
}

type jgen struct {
	R
	b     strings.Builder
	left  int
	ws    int
	n     int
	keys  int
	long  bool // keys no other text contains
	seen  []string
	depth int
	// expected output of the program
	out strings.Builder
}

func (g *jgen) sp() {
	if g.ws == 0 {
		return
	}
	for g.chance(g.ws, 8) {
		g.b.WriteString([]string{" ", "\n", "\r\n", "  "}[g.Intn(4)])
	}
}

func (g *jgen) str() string {
	var s strings.Builder
	for k := g.size(14); k > 0; k-- {
		switch g.Intn(8) {
		case 0:
			s.WriteByte('\\')
			s.WriteByte(g.pick("\"\\/bfnrt"))
		case 1:
			s.WriteString("\\u")
			for i := 0; i < 4; i++ {
				s.WriteByte(g.pick("0123456789abcdefABCDEF"))
			}
		default:
			b := byte(' ' + g.Intn(95))
			if b == '"' || b == '\\' {
				b = g.pick("{}[]:,")
			}
			s.WriteByte(b)
		}
	}
	return s.String()
}

func (g *jgen) num() string {
	s := ""
	if g.chance(1, 3) {
		s = "-"
	}
	digits := func() string {
		d := ""
		for k := 1 + g.size(6); k > 0; k-- {
			d += string(g.pick("0123456789"))
		}
		return d
	}
	if g.chance(1, 3) {
		s += "0"
	} else {
		s += string(g.pick("123456789"))
		if g.chance(1, 2) {
			s += digits()
		}
	}
	if g.chance(1, 3) {
		s += "." + digits()
	}
	if g.chance(1, 3) {
		s += string(g.pick("eE")) + []string{"", "+", "-"}[g.Intn(3)] + digits()
	}
	return s
}

func (g *jgen) value(depth int) {
	g.left--
	if depth > g.depth {
		g.depth = depth
	}
	k := g.Intn(9)
	if g.left <= 0 && k < 5 {
		k += 4
	}
	switch {
	case k < 3:
		g.b.WriteByte('{')
		g.sp()
		n := g.size(6)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.b.WriteByte(',')
				g.sp()
			}
			key := g.str()
			if g.long {
				switch {
				case g.chance(1, 8): // empty, short or again
					key = []string{"", key, fmt.Sprintf("key~%d~", g.n-1)}[g.Intn(3)]
				case g.chance(1, 40):
					m := []int{255, 256, 1023, 1025, 4097, 65537}[g.Intn(6)]
					key = strings.Repeat("k", m)
				default:
					key = fmt.Sprintf("key~%d~%s", g.n, key)
					g.n++
					g.seen = append(g.seen, key)
				}
			}
			g.out.WriteString(strings.Repeat("  ", depth+1) + key + "\n")
			g.keys++
			g.b.WriteString("\"" + key + "\"")
			g.sp()
			g.b.WriteByte(':')
			g.sp()
			g.value(depth + 1)
			g.sp()
		}
		g.b.WriteByte('}')
	case k < 5:
		g.b.WriteByte('[')
		n := g.size(6)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.b.WriteByte(',')
			}
			g.sp()
			g.value(depth + 1)
			g.sp()
		}
		g.b.WriteByte(']')
	case k == 5:
		g.b.WriteString("\"" + g.str() + "\"")
	case k == 6:
		g.b.WriteString(g.num())
	default:
		g.b.WriteString([]string{"true", "false", "null"}[g.Intn(3)])
	}
}

func jsonDoc(r R, budget int, long bool) *jgen {
	g := &jgen{R: r, left: budget, ws: []int{0, 1, 3}[r.Intn(3)], long: long}
	g.sp()
	g.value(0)
	g.sp()
	return g
}

var jsonAl = []byte("{}[]:,\"\\ \n\r\t0123456789aeEfu.+-truefalsn/'\x00\x7f\x80\xc3\xa9")

func damage(r R, s string) string {
	if r.chance(1, 4) && len(s) > 0 {
		// a structural character elsewhere
		i := r.Intn(len(s))
		t := jsonToks[r.Intn(len(jsonToks))]
		switch r.Intn(3) {
		case 0:
			return s[:i] + t + s[i:]
		case 1:
			return s[:i] + t + s[i+1:]
		default:
			return s + t
		}
	}
	return mutate(r, s, jsonAl)
}

func jsonRandom(c *Ctx) {
	g := jsonDoc(c.R, 1+c.size(40), false)
	doc := g.b.String()
	if !json.Valid([]byte(doc)) {
		panic("generated document is no JSON: " + doc)
	}
	if c.Idx < 3 {
		c.Sample("%q", doc)
	}
	judgeJSON(c, doc)
	for k := 0; k < 6; k++ {
		d := damage(c.R, doc)
		if c.chance(1, 4) {
			d = damage(c.R, d)
		}
		judgeJSON(c, d)
	}
	for k := 0; k < 2; k++ {
		// pieces around the whole document
		f := c.special()
		judgeJSON(c, f+doc)
		judgeJSON(c, doc+f)
	}
	if len(doc) > 0 {
		judgeJSON(c, doc[:c.Intn(len(doc))])
		judgeJSON(c, doc[c.Intn(len(doc)):])
	}
}

func jsonDeep(c *Ctx) {
	p := jsonParser(c)
	n := []int{50, 1000, 9000, 20000}[c.Idx%4]
	doc := ""
	switch c.Idx / 4 % 2 {
	case 0:
		doc = strings.Repeat("[", n) + strings.Repeat("]", n)
	default:
		doc = strings.Repeat("{\"a\" : [1, ", n) + "0" + strings.Repeat(" ] }\r\n", n)
	}
	if _, _, err := p.Parse(doc); err != nil {
		c.Fail("JSON nested %d deep rejected: %v", n, err)
	}
	for _, bad := range []string{doc[:len(doc)-1] + "x", doc + "]", doc[1:]} {
		if _, _, err := p.Parse(bad); err == nil {
			c.Fail("JSON nested %d deep, damaged, accepted", n)
		}
		c.Count("non-JSON rejected", 1)
		c.Eval(true, bad)
	}
	// lists as long, and one long string
	items := make([]string, n)
	for i := range items {
		items[i] = []string{"1", "\"x\"", "[]", "{\"k\":2}"}[c.Intn(4)]
	}
	for _, d := range []string{"[" + strings.Join(items, ", ") + "]",
		"\"" + strings.Repeat("q\\n", n) + "\"", strings.Repeat("7", n)} {
		judgeJSON(c, d)
		judgeJSON(c, d[:len(d)-1]+",")
	}
	c.Count("valid documents accepted", 1)
	c.Max("deepest document", n)
	c.Eval(true, doc)
}

// the documents of the known findings; quiet once they are repaired
func jsonFindings(c *Ctx) {
	for _, d := range []string{"\"\\u123\"", "{\"\\uabc \": 1}", "[ ]", "[\n]", "{\"a\": [ ]}"} {
		judgeJSON(c, d)
	}
}

func runJSON(c *Ctx, doc string) (stdout, stderr string, code int) {
	dir, err := os.MkdirTemp(os.Getenv("LLV_TMP"), "js")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	b, err := os.ReadFile(jsonBNF)
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(dir, "json.bnf"), b, 0o644)
	os.WriteFile(filepath.Join(dir, "test.json"), []byte(doc), 0o644)
	cmd := exec.Command(filepath.Join(os.Getenv("LLV_BIN"), "json"))
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	code = 0
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		code = x.ExitCode()
	}
	return so.String(), se.String(), code
}

var jsonHead struct {
	sync.Once
	text string
}

func jsonProgram(c *Ctx) {
	// what it prints for a document without keys
	jsonHead.Do(func() {
		so, _, code := runJSON(c, "1")
		if code != 0 {
			return
		}
		jsonHead.text = so
	})
	budget := 1 + c.size(60)
	if c.Idx == 1 || c.Idx%997 == 5 {
		budget = 8000
	}
	g := jsonDoc(c.R, budget, true)
	doc := g.b.String()
	if c.Idx%97 == 3 { // deep
		n := 300 + c.Intn(300)
		g = &jgen{R: c.R, long: true}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("key~%d~", i)
			g.seen = append(g.seen, k)
			g.out.WriteString(strings.Repeat("  ", 2*i+1) + k + "\n")
			g.keys++
		}
		for i := 0; i < n; i++ {
			g.b.WriteString("{\"" + g.seen[i] + "\":[")
		}
		g.b.WriteString("null" + strings.Repeat("]}", n))
		doc = g.b.String()
	}
	so, se, code := runJSON(c, doc)
	if code != 0 {
		c.Fail("the program exits with %d for %s\n%s", code, clip(doc), clip(se))
	}
	if !strings.HasPrefix(so, jsonHead.text) || so[len(jsonHead.text):] != g.out.String() {
		at := 0
		got := strings.TrimPrefix(so, jsonHead.text)
		w := g.out.String()
		for at < len(got) && at < len(w) && got[at] == w[at] {
			at++
		}
		lo := max(0, at-80)
		c.Fail("keys printed differ at byte %d: got %q want %q\ndocument %s", at,
			clip(got[lo:]), clip(w[lo:]), clip(doc))
	}
	c.Count("program runs, valid", 1)
	c.Count("keys printed", g.keys)
	c.Max("keys of a document", g.keys)
	c.Max("nesting of a document", g.depth)
	c.Eval(true, "program", doc)
	if c.Idx%2 == 0 {
		return
	}
	bad := damage(c.R, doc)
	if c.chance(1, 4) {
		bad = c.special() + doc
		if c.chance(1, 2) {
			bad = doc + c.special()
		}
	}
	if w, _ := wantJSON(bad); w != 0 {
		bad = doc[:len(doc)*3/4]
	}
	if w, key := wantJSON(bad); w != 0 || key != "" {
		return
	}
	so, se, code = runJSON(c, bad)
	if code == 0 || code == 2 && strings.Contains(se, "goroutine ") {
		c.Fail("the program exits with %d for what is not JSON: %s\n%s", code, clip(bad), clip(se))
	}
	for _, k := range g.seen {
		if strings.Contains(so, k) {
			c.Fail("the program prints key %s of a rejected document %s", k, clip(bad))
		}
	}
	c.Count("program runs, rejected", 1)
	c.Eval(true, "program", bad)
}
