package mon

// C07 sources, C10 outcome contract, C16 hand-written tables

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// ---- instrumented reader

// schedReader delivers data by a fixed schedule and records what was asked
type schedReader struct {
	data   []byte
	pos    int
	chunk  func(left int) int // bytes of the next read, may be 0
	zeros  int                // consecutive empty reads so far
	failAt int                // error once this many bytes are delivered, -1 no
	err    error
	idle   int  // so many empty reads at most in a row
	once   bool // the error comes once, further reads go on after it
	withN  bool // error or EOF together with the last bytes
	dirty  bool // use the whole of p as scratch space
	calls  int
	ended  bool
	after  int // reads after the end
}

func (s *schedReader) Read(p []byte) (int, error) {
	s.calls++
	if s.ended {
		s.after++
	}
	end := len(s.data)
	fin := io.EOF
	if s.failAt >= 0 {
		end, fin = s.failAt, s.err
	}
	if s.pos >= end {
		s.ended = true
		if s.once {
			s.failAt = -1
		}
		return 0, fin
	}
	n := s.chunk(end - s.pos)
	if n == 0 && s.zeros >= s.idle {
		n = 1
	}
	if n == 0 || len(p) == 0 {
		s.zeros++
		return 0, nil
	}
	s.zeros = 0
	if n > len(p) {
		n = len(p)
	}
	if n > end-s.pos {
		n = end - s.pos
	}
	if s.dirty {
		for i := range p {
			p[i] = 0xa5
		}
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == end && s.withN {
		s.ended = true
		if s.once {
			s.failAt = -1
		}
		return n, fin
	}
	return n, nil
}

func randReader(r R, data string) *schedReader {
	s := &schedReader{data: []byte(data), failAt: -1, withN: r.chance(1, 2),
		dirty: r.chance(1, 2), idle: 3}
	mode := r.Intn(5)
	if r.chance(1, 8) {
		// long runs of empty reads
		s.idle = 1 + r.Intn(90)
		s.chunk = func(int) int { return 0 }
		return s
	}
	k := 1 + r.Intn(9)
	s.chunk = func(left int) int {
		switch mode {
		case 0:
			return 1
		case 1:
			return left
		case 2:
			return r.Intn(4)
		case 3:
			return k
		}
		if r.chance(1, 3) {
			return 0
		}
		return 1 + r.Intn(left)
	}
	return s
}

type readerValue struct{ r io.Reader } // a reader which is not a pointer

func (v readerValue) Read(p []byte) (int, error) { return v.r.Read(p) }

// richReader has methods of other interfaces, none of them to be trusted
type richReader struct {
	*schedReader
	closed int
}

// what was not opened by Parse is not for it to close
func (r *richReader) Close() error { r.closed++; return nil }

func (*richReader) String() string                    { return "not the content" }
func (*richReader) Len() int                          { return 3 }
func (*richReader) Size() int64                       { return 3 }
func (*richReader) Bytes() []byte                     { return []byte("xyz") }
func (*richReader) Name() string                      { return "/dev/null" }
func (*richReader) Error() string                     { return "not an error" }
func (*richReader) Cap() int                          { return 1 }
func (*richReader) UnreadByte() error                 { return errors.New("no") }
func (*richReader) ReadString(b byte) (string, error) { return "", io.EOF }

// partlyRead: a reader of the library from which pre has been read before
func partlyRead(r R, pre, in string) (string, io.Reader) {
	skip := func(rd io.Reader) io.Reader {
		if _, err := io.CopyN(io.Discard, rd, int64(len(pre))); err != nil {
			panic(err)
		}
		return rd
	}
	switch r.Intn(9) {
	case 0:
		return "strings.Reader", skip(strings.NewReader(pre + in))
	case 1:
		return "bytes.Reader", skip(bytes.NewReader([]byte(pre + in)))
	case 2:
		s := strings.NewReader(pre + in)
		s.Seek(int64(len(pre)), io.SeekStart)
		return "strings.Reader (by seek)", s
	case 3:
		s := bytes.NewReader([]byte(pre + in))
		s.Seek(int64(-len(in)), io.SeekEnd)
		return "bytes.Reader (by seek)", s
	case 4:
		s := bytes.NewReader([]byte(pre + in))
		for k := 0; k < len(pre); k++ {
			s.ReadByte()
		}
		return "bytes.Reader (by bytes)", s
	case 5:
		return "bufio.Reader", skip(bufio.NewReaderSize(
			strings.NewReader(pre+in), 16+r.Intn(100)))
	case 6:
		return "io.SectionReader", skip(io.NewSectionReader(
			strings.NewReader("x"+pre+in+"tail"), 1, int64(len(pre)+len(in))))
	case 7:
		return "io.TeeReader", io.TeeReader(skip(strings.NewReader(pre+in)), io.Discard)
	}
	return "bufio.ReadWriter", bufio.NewReadWriter(bufio.NewReader(
		skip(bytes.NewReader([]byte(pre+in)))), bufio.NewWriter(io.Discard))
}

// slowReader waits once, before the read at an offset
type slowReader struct {
	*schedReader
	at   int
	wait time.Duration
	done bool
}

func (s *slowReader) Read(p []byte) (int, error) {
	if s.pos >= s.at && !s.done {
		s.done = true
		time.Sleep(s.wait)
	}
	return s.schedReader.Read(p)
}

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

// farReader delivers left bytes b and fails
type farReader struct {
	left int
	b    byte
	err  error
}

func (f *farReader) Read(p []byte) (int, error) {
	if f.left == 0 {
		return 0, f.err
	}
	n := len(p)
	if n > f.left {
		n = f.left
	}
	for i := range p[:n] {
		p[i] = f.b
	}
	f.left -= n
	return n, nil
}

// errors other than io.EOF, some of them often taken for less than an error
var readErrors = []error{&myErr{"broken pipe 7281"}, io.ErrUnexpectedEOF,
	io.ErrClosedPipe, os.ErrDeadlineExceeded, io.ErrNoProgress, io.ErrShortBuffer,
	fmt.Errorf("connection lost: %w", io.EOF), syscall.EINTR, syscall.EAGAIN,
	&fs.PathError{Op: "read", Path: "x", Err: syscall.EIO}, os.ErrClosed,
	context.Canceled, &myErr{"EOF"}, &myErr{""}}

func reduceOutcome(f func() (cst.Node, *map[int]string, error)) outcome {
	return outcomeOf(f())
}

// contract: the shape every result has
func contract(t cst.Node, n *map[int]string, err error) string {
	if err != nil {
		if t != nil || n != nil {
			return fmt.Sprintf("error %q with tree %v and names %v", err.Error(),
				t != nil, n != nil)
		}
		return ""
	}
	if t == nil || n == nil || *n == nil {
		return fmt.Sprintf("no error, tree %v, names %v", t != nil, n != nil)
	}
	return ""
}

// not readers, and not the types Parse names
type myString string
type myBytes []byte
type onlyBytes struct{ r *strings.Reader }
type onlyWriterTo struct{ r *strings.Reader }
type onlyAt struct{ r *strings.Reader }
type onlyContent struct{}

func (o onlyBytes) ReadByte() (byte, error)               { return o.r.ReadByte() }
func (o onlyBytes) ReadRune() (rune, int, error)          { return o.r.ReadRune() }
func (o onlyWriterTo) WriteTo(w io.Writer) (int64, error) { return o.r.WriteTo(w) }
func (o onlyAt) ReadAt(p []byte, off int64) (int, error)  { return o.r.ReadAt(p, off) }
func (onlyContent) Bytes() []byte                         { return []byte("a") }
func (onlyContent) String() string                        { return "a" }
func (onlyContent) MarshalText() ([]byte, error)          { return []byte("a"), nil }

var unsupportedKinds = []func() (string, any){
	func() (string, any) { return "nil", nil },
	func() (string, any) { return "int", 5 },
	func() (string, any) { return "byte", byte('a') },
	func() (string, any) { return "rune", 'a' },
	func() (string, any) { return "bool", true },
	func() (string, any) { return "float", 1.5 },
	func() (string, any) { return "struct", struct{ a string }{"a"} },
	func() (string, any) { return "map", map[string]string{"a": "b"} },
	func() (string, any) { return "nil map", map[int]int(nil) },
	func() (string, any) { return "chan", make(chan byte) },
	func() (string, any) { return "func", func() string { return "a" } },
	func() (string, any) { s := "a"; return "*string", &s },
	func() (string, any) { return "nil *string", (*string)(nil) },
	func() (string, any) { s := []byte("a"); return "*[]byte", &s },
	func() (string, any) { return "[]string", []string{"a"} },
	func() (string, any) { return "named string", myString("a") },
	func() (string, any) { return "named []byte", myBytes("a") },
	func() (string, any) { return "json.RawMessage", json.RawMessage("a") },
	func() (string, any) { return "json.Number", json.Number("a") },
	func() (string, any) { return "byte reader", onlyBytes{strings.NewReader("a")} },
	func() (string, any) { return "io.WriterTo", onlyWriterTo{strings.NewReader("a")} },
	func() (string, any) { return "io.ReaderAt", onlyAt{strings.NewReader("a")} },
	func() (string, any) { return "method Bytes", onlyContent{} },
	func() (string, any) { return "nil io.Reader in a struct", struct{ r io.Reader }{} },
	func() (string, any) { return "func of a reader", func(p []byte) (int, error) { return 0, io.EOF } },
	func() (string, any) { return "time.Duration", time.Second },
	func() (string, any) { return "[]rune", []rune("a") },
	func() (string, any) { return "[]int", []int{1} },
	func() (string, any) { return "[1]byte", [1]byte{'a'} },
	func() (string, any) { return "[]any", []any{"a"} },
	func() (string, any) { return "error", errors.New("a") },
	func() (string, any) { return "bytes.Buffer", *bytes.NewBufferString("a") },
	func() (string, any) { return "nil *bytes.Buffer", (*bytes.Buffer)(nil) },
	func() (string, any) {
		b := bytes.NewBufferString("a")
		return "**bytes.Buffer", &b
	},
	func() (string, any) { return "io.Writer", io.Discard.(any) },
	func() (string, any) { return "*io.Reader", new(io.Reader) },
	func() (string, any) { return "cst.Node", cst.NewNode(0, 0, 0, nil) },
	func() (string, any) { return "fmt.Stringer", &strings.Builder{} },
}

func init() {
	// ---------------------------------------------------------------- C07
	srcs := func(c *Ctx, p parser.LL1Parser, g *Gram, in string) {
		want := outcomeOf(p.Parse(in))
		same := func(kind string, src any) {
			got := outcomeOf(p.Parse(src))
			if got != want {
				c.Fail("input %s as %s: %s\nas string: %s\ngrammar %s\n%s", clip(in),
					kind, got, want, g.Kind, clipG(g))
			}
			c.Count("compared: "+kind, 1)
			c.Eval(len(in) > 1, g.String(), in, kind)
		}
		// []byte inside a larger array
		room := []byte("\xa5\xa5" + in + "\xa5\xa5\xa5")
		sub := room[2 : 2+len(in)]
		if c.chance(1, 2) {
			sub = room[2 : 2+len(in) : 2+len(in)]
		}
		same("[]byte", sub)
		if string(room) != "\xa5\xa5"+in+"\xa5\xa5\xa5" {
			c.Fail("[]byte source or its surroundings modified: %s became %s",
				clip(in), clip(string(room)))
		}
		if in == "" {
			same("[]byte", []byte(nil))
		}
		// *bytes.Buffer, fresh or partly read
		var buf *bytes.Buffer
		kind := "*bytes.Buffer"
		around := ""
		switch c.Intn(5) {
		case 0:
			buf = bytes.NewBufferString(in)
		case 1:
			pre := randBytes(c.R, 1+c.Intn(40), g.alphabet())
			buf = bytes.NewBufferString(pre + in)
			io.CopyN(io.Discard, buf, int64(len(pre)))
			kind = "partly read *bytes.Buffer"
		case 2:
			buf = &bytes.Buffer{}
			for i := 0; i < len(in); i += 1 + c.Intn(5) {
				// written in pieces
				e := i + 1 + c.Intn(5)
				if e > len(in) {
					e = len(in)
				}
				if buf.Len() < e {
					buf.WriteString(in[buf.Len():e])
				}
			}
			buf.WriteString(in[buf.Len():])
		case 4:
			// over a part of the caller's array
			buf = bytes.NewBuffer(room[:2+len(in)])
			buf.Next(2)
			around = string(room)
			kind = "partly read *bytes.Buffer"
		case 3:
			pre := randBytes(c.R, 1+c.Intn(9), g.alphabet())
			buf = bytes.NewBufferString(pre)
			buf.Next(len(pre))
			buf.WriteString(in)
			kind = "partly read *bytes.Buffer"
		}
		same(kind, buf)
		if buf.Len() != len(in) || buf.String() != in {
			c.Fail("bytes.Buffer holds %s after Parse, held %s", clip(buf.String()),
				clip(in))
		}
		if around != "" && around != string(room) {
			c.Fail("array around the content of a bytes.Buffer modified: %s became %s",
				clip(around), clip(string(room)))
		}
		if c.chance(1, 3) {
			same(kind+" again", buf)
		}
		// readers
		for k := 0; k < 3; k++ {
			rd := randReader(c.R, in)
			switch c.Intn(12) {
			case 0:
				same("strings.Reader", strings.NewReader(in))
			case 1:
				same("bytes.Reader", bytes.NewReader([]byte(in)))
			case 8, 9, 10:
				pre := randBytes(c.R, 1+c.Intn(20), g.alphabet())
				if c.chance(1, 3) {
					pre = in
				}
				if len(pre) == 0 {
					pre = "a"
				}
				kind, src := partlyRead(c.R, pre, in)
				same("partly read "+kind, src)
				c.Count("partly read readers", 1)
			case 11:
				// more methods than Read, which lie about the content
				rr := &richReader{schedReader: rd}
				same("reader with other methods", rr)
				if rr.closed > 0 {
					c.Fail("Parse closed the reader it was given: %s", clip(in))
				}
				same("embedded *bytes.Buffer", struct{ *bytes.Buffer }{
					bytes.NewBufferString(in)})
			case 2:
				same("bufio.Reader", bufio.NewReaderSize(rd, 16))
			case 3:
				same("io.MultiReader", io.MultiReader(strings.NewReader(in[:len(in)/2]),
					strings.NewReader(""), rd2(c.R, in[len(in)/2:])))
			case 4:
				same("reader value", readerValue{rd})
			case 5:
				same("io.LimitReader", io.LimitReader(
					strings.NewReader(in+"trailing"), int64(len(in))))
			default:
				same("scheduled reader", rd)
				if rd.pos != len(in) {
					c.Fail("reader left at %d of %d bytes", rd.pos, len(in))
				}
				c.Count("reads", rd.calls)
			}
		}
		// the same source objects with other content, and back
		if len(in) > 0 {
			alt := []byte(in)
			switch c.Intn(3) {
			case 0:
				alt[c.Intn(len(alt))] ^= byte(1 + c.Intn(255))
			case 1:
				alt = alt[1:]
			case 2:
				alt = []byte(randBytes(c.R, len(in), g.alphabet()))
			}
			wantAlt := outcomeOf(p.Parse(string(alt)))
			arr := make([]byte, len(in)+8)
			sl := arr[:copy(arr, in)]
			rb := bytes.NewBufferString(in)
			rr := bytes.NewReader([]byte(in))
			first := c.chance(1, 2)
			same("[]byte", sl)
			if first {
				same("*bytes.Buffer", rb)
				same("bytes.Reader", rr)
			}
			sl = arr[:copy(arr, alt)]
			rb.Reset()
			rb.Write(alt)
			rr.Reset(alt)
			in0, want0 := in, want
			in, want = string(alt), wantAlt
			same("refilled []byte", sl)
			same("refilled *bytes.Buffer", rb)
			same("refilled bytes.Reader", rr)
			in, want = in0, want0
			copy(arr, in)
			same("refilled []byte", arr[:len(in)])
		}
		// a failing reader
		for k := 0; k < 2; k++ {
			rd := randReader(c.R, in)
			rd.failAt = c.Intn(len(in) + 1)
			if c.chance(1, 3) {
				rd.failAt = len(in)
			}
			rd.once = c.chance(1, 2)
			rd.err = readErrors[c.Intn(len(readErrors))]
			at := rd.failAt
			t, n, err := p.Parse(rd)
			if s := contract(t, n, err); s != "" {
				c.Fail("reader failing after %d bytes: %s", at, s)
			}
			if err == nil || !errors.Is(err, rd.err) {
				c.Fail("reader failing after %d of %d bytes with %q (together with "+
					"the last bytes: %v): Parse returned %v\ninput %s\n%s", at,
					len(in), rd.err, rd.withN, err, clip(in), clipG(g))
			}
			c.Count("read errors", 1)
			if at == len(in) {
				c.Count("read errors after complete input", 1)
			}
			c.Eval(at > 0, g.String(), in, "error", uint64(at))
		}
		c.Max("input bytes", len(in))
		if len(in) > 3 {
			c.Sample("%sinput %s: same outcome %s from all sources", clipG(g),
				clip(in), want)
		}
	}
	register(&Prop{ID: "C07", Level: "exploration",
		Rule: "A case is a grammar and an input (sentence, damaged, empty, " +
			"binary, sizes around buffer boundaries). An evaluation compares " +
			"Parse of the string with Parse of the same bytes as another kind of " +
			"source, with a random read schedule, or of a reader failing at a " +
			"random offset, or of an unsupported kind. Non-trivial: more than " +
			"one byte; distinct by grammar, input and kind or error offset.",
		Need: map[string]int64{"compared: []byte": 2000,
			"compared: scheduled reader": 2000, "read errors": 2000,
			"compared: partly read *bytes.Buffer": 500, "unsupported kinds": 500,
			"partly read readers": 2000, "slow readers": 30, "compared: refilled []byte": 5000},
		Families: []Family{
			{Name: "ll1", Quick: 12000, Thorough: 300000, Run: func(c *Ctx) {
				g := randLL1(c.R)
				_, _, p, err := mk(g.toBNF())
				if err != nil {
					return
				}
				for _, in := range inputs(c.R, g, newDeriver(g), 3, 2, 1, 60) {
					srcs(c, p, g, in.s)
				}
			}},
			{Name: "sizes", Quick: 400, Thorough: 4000, Run: func(c *Ctx) {
				gs := realGrams()
				g := gs[6] // list
				if c.chance(1, 2) {
					g = gs[5] // nested
				}
				_, _, p, err := mk(g.toBNF())
				if err != nil {
					c.Fail("no table: %v", err)
				}
				max := 5000
				if c.chance(1, 5) {
					max = 140000
				}
				sz := sizesUpTo(max)
				n := sz[c.Intn(len(sz))]
				if c.chance(1, 2) {
					n = sz[len(sz)-1-c.Intn((len(sz)+1)/2)]
				}
				var in string
				if g.Kind == "list" {
					in = strings.Repeat("a", n)
				} else {
					in = strings.Repeat("[", n/2) + strings.Repeat("]", n/2)
				}
				if c.chance(1, 3) {
					in += string([]byte{"]b\x00"[c.Intn(3)]})
				}
				srcs(c, p, g, in)
			}},
			{Name: "huge", Quick: 60, Thorough: 300, Run: func(c *Ctx) {
				g, ins := hugeCase(c)
				_, _, p, err := mk(g.toBNF())
				if err != nil {
					return
				}
				for k := 0; k < 2; k++ {
					srcs(c, p, g, ins[c.Intn(len(ins))].s)
				}
			}},
			{Name: "far", Quick: 40, Thorough: 200, Run: func(c *Ctx) {
				// an error which comes after megabytes, in a grammar which has
				// an error of its own to report by then
				gs := realGrams()
				g := gs[c.Intn(len(gs))]
				_, _, p, err := mk(g.toBNF())
				if err != nil {
					c.Fail("no table: %v", err)
				}
				max := 1 << 25
				if c.Tier == "thorough" {
					max = 1 << 27
				}
				sz := sizesUpTo(max)
				n := sz[len(sz)-1-c.Intn((len(sz)+1)/2)]
				if c.chance(1, 4) {
					n = max + c.Intn(max/4)
				}
				rd := &farReader{left: n, b: g.alphabet()[0],
					err: readErrors[c.Intn(len(readErrors))]}
				t, names, err := p.Parse(rd)
				if s := contract(t, names, err); s != "" {
					c.Fail("reader failing after %d bytes: %s", n, s)
				}
				if err == nil || !errors.Is(err, rd.err) {
					c.Fail("reader failing after %d bytes with %q: Parse returned %v",
						n, rd.err, err)
				}
				c.Max("bytes before a read error", n)
				c.Eval(true, "far", uint64(n), rd.err.Error())
			}},
			{Name: "slow", Quick: 8, Thorough: 16, Run: func(c *Ctx) {
				// readers which take their time, of whose result nothing may be lost
				g := realGrams()[5+c.Intn(2)]
				p := mustMk(c, g.toBNF())
				in := ""
				for len(in) < 5 {
					in, _ = newDeriver(g).sentence(c.R, 60)
				}
				wait := time.Duration([]int{20, 150, 600, 1200, 2300, 3500, 5500,
					11000}[c.Idx%8]) * time.Millisecond
				if c.Idx >= 8 {
					wait = 3 * wait
				}
				want := outcomeOf(p.Parse(in))
				wantErr := &myErr{"late"}
				var wg sync.WaitGroup
				bad := make([]string, 5)
				for k := range bad {
					rd := &schedReader{data: []byte(in), failAt: -1, withN: k%2 == 0,
						idle: 3}
					at := []int{0, 1, len(in) / 2, len(in), len(in)}[k]
					if k == 4 {
						rd.failAt, rd.err = len(in), wantErr
					}
					rd.chunk = func(left int) int {
						if n := at - rd.pos; n > 0 {
							return n
						}
						return left
					}
					src := &slowReader{schedReader: rd, at: at, wait: wait}
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						t, n, err := p.Parse(src)
						if k == 4 {
							if s := contract(t, n, err); s != "" || err == nil ||
								!strings.Contains(err.Error(), "late") {
								bad[k] = fmt.Sprint("a late error: ", err, s)
							}
						} else if got := outcomeOf(t, n, err); got != want {
							bad[k] = fmt.Sprintf("%s, as string: %s", got, want)
						}
					}(k)
				}
				wg.Wait()
				for k, s := range bad {
					if s != "" {
						c.Fail("reader which waits %v (kind %d), input %s: %s\n%s", wait,
							k, clip(in), s, clipG(g))
					}
					c.Count("slow readers", 1)
					c.Eval(true, g.String(), in, "slow", uint64(k))
				}
				c.Max("milliseconds a reader waited", int(wait/time.Millisecond))
			}},
			{Name: "file", Quick: 60, Thorough: 400, Run: func(c *Ctx) {
				// descriptors: files, pipes
				gs := realGrams()
				g := gs[c.Intn(len(gs))]
				_, _, p, err := mk(g.toBNF())
				if err != nil {
					c.Fail("no table: %v", err)
				}
				in, _ := newDeriver(g).sentence(c.R, c.Intn(3000))
				if c.chance(1, 3) {
					in = mutate(c.R, in, g.alphabet())
				}
				want := outcomeOf(p.Parse(in))
				r, w, err := os.Pipe()
				if err != nil {
					panic(err)
				}
				go func() {
					io.WriteString(w, in)
					w.Close()
				}()
				got := outcomeOf(p.Parse(r))
				r.Close()
				if got != want {
					c.Fail("input %s from a pipe: %s\nas string: %s", clip(in), got, want)
				}
				pr, pw := io.Pipe()
				go func() {
					for i := 0; i < len(in); {
						e := i + 1 + len(in)/7
						if e > len(in) {
							e = len(in)
						}
						if _, err := pw.Write([]byte(in[i:e])); err != nil {
							return
						}
						i = e
					}
					pw.CloseWithError(io.EOF)
				}()
				got = outcomeOf(p.Parse(pr))
				pr.Close()
				if got != want {
					c.Fail("input %s from io.Pipe: %s\nas string: %s", clip(in), got,
						want)
				}
				f, err := os.CreateTemp(os.Getenv("LLV_TMP"), "src")
				if err != nil {
					panic(err)
				}
				defer os.Remove(f.Name())
				defer f.Close()
				f.WriteString("skip" + in)
				f.Seek(4, 0)
				if got = outcomeOf(p.Parse(f)); got != want {
					c.Fail("input %s from a file: %s\nas string: %s", clip(in), got, want)
				}
				// closed file: the read error
				f.Close()
				t, n, err := p.Parse(f)
				if err == nil || contract(t, n, err) != "" {
					c.Fail("Parse of a closed file: tree %v, names %v, error %v",
						t != nil, n != nil, err)
				}
				c.Count("descriptor sources", 3)
				c.Eval(in != "", g.Kind, in, "files")
			}},
			{Name: "unsupported", Quick: 600, Thorough: 2000, Run: func(c *Ctx) {
				g := randLL1(c.R)
				_, _, p, err := mk(g.toBNF())
				if err != nil {
					return
				}
				for _, f := range unsupportedKinds {
					k, v := f()
					t, n, err := p.Parse(v)
					if err == nil {
						c.Fail("source of kind %s accepted\n%s", k, clipG(g))
					}
					if s := contract(t, n, err); s != "" {
						c.Fail("source of kind %s: %s", k, s)
					}
					c.Count("unsupported kinds", 1)
					c.Eval(true, g.String(), k)
				}
			}},
		}})

	// ---------------------------------------------------------------- C10
	namesVariant := func(r R, n map[int]string, rows int) (map[int]string, string) {
		switch r.Intn(7) {
		case 5, 6:
			m := map[int]string{-1: "_literal", -2: "_nothing"}
			if r.chance(1, 3) {
				m = map[int]string{-1 - r.Intn(2): "mine"}
			}
			for k, v := range n {
				m[k] = v
			}
			return m, "with built in types"
		case 0:
			return nil, "nil"
		case 1:
			return map[int]string{}, "empty"
		case 2:
			m := map[int]string{}
			for k, v := range n {
				if r.chance(1, 2) {
					m[k] = v
				}
			}
			return m, "partial"
		case 3:
			m := map[int]string{rows + 3: "extra", -7: "negative", 1 << 40: "far"}
			for k, v := range n {
				m[k] = v
			}
			return m, "extended"
		}
		return n, "generated"
	}
	judge := func(c *Ctx, p parser.LL1Parser, given map[int]string, kind string,
		src any, what string, generated bool) {
		t, n, err := p.Parse(src)
		if s := contract(t, n, err); s != "" {
			c.Fail("Parse of %s, names %s: %s", what, kind, s)
		}
		if err != nil {
			if err.Error() == "" {
				c.Fail("Parse of %s: error without text", what)
			}
			c.Count("errors", 1)
			return
		}
		c.Count("trees", 1)
		want := map[int]string{}
		for k, v := range given {
			want[k] = v
		}
		want[-1], want[-2] = "_literal", "_nothing"
		if a, b := namesKey(*n), namesKey(want); a != b {
			c.Fail("Parse of %s, names %s: returned names %s, expected %s", what,
				kind, a, b)
		}
		(*n)[1<<50] = "the caller's"
		if _, ok := given[1<<50]; ok {
			c.Fail("Parse of %s, names %s: the map returned is the one given", what,
				kind)
		}
		if generated && kind == "generated" {
			for st := []cst.Node{t}; len(st) > 0; {
				x := st[len(st)-1]
				st = append(st[:len(st)-1], x.Childs()...)
				if _, ok := (*n)[x.Type()]; !ok {
					c.Fail("Parse of %s: node type %d has no name", what, x.Type())
				}
				c.Count("node types looked up", 1)
			}
		}
	}
	register(&Prop{ID: "C10", Level: "exploration",
		Rule: "A case is a generated table (or a damaged or random hand-made one, " +
			"on inputs where its interpretation ends) with a names map - " +
			"generated, nil, empty, partial, extended - and sources of every " +
			"kind, valid and not. An evaluation judges the three results of one " +
			"Parse call. Non-trivial: the source holds a byte; distinct by table, " +
			"names kind and source.",
		Need: map[string]int64{"trees": 5000, "errors": 5000,
			"hand-made tables": 1000},
		Families: []Family{
			{Name: "generated", Quick: 60000, Thorough: 500000, Run: func(c *Ctx) {
				g := randLL1(c.R)
				t, n, _, err := mk(g.toBNF())
				if err != nil {
					return
				}
				for _, in := range inputs(c.R, g, newDeriver(g), 4, 4, 3, 60) {
					m, kind := namesVariant(c.R, n, len(t))
					p := parser.NewLL1Parser(t, m)
					var src any = in.s
					switch c.Intn(4) {
					case 0:
						src = []byte(in.s)
					case 1:
						src = bytes.NewBufferString(in.s)
					case 2:
						rd := randReader(c.R, in.s)
						if c.chance(1, 4) {
							rd.failAt = c.Intn(len(in.s) + 1)
							rd.err = &myErr{"read failed"}
						}
						src = rd
					}
					judge(c, p, m, kind, src, fmt.Sprintf("%s (as %T)\n%s", clip(in.s),
						src, clipG(g)), true)
					c.Eval(in.s != "", g.String(), kind, in.s)
				}
				if c.chance(1, 8) {
					m, kind := namesVariant(c.R, n, len(t))
					k, v := unsupportedKinds[c.Intn(len(unsupportedKinds))]()
					judge(c, parser.NewLL1Parser(t, m), m, kind, v, "a "+k, true)
				}
				c.Sample("%s: contract held", clipG(g))
			}},
			{Name: "bytes", Quick: 512, Thorough: 4096, Run: func(c *Ctx) {
				// every single byte and pairs as input
				g := randLL1(c.R)
				t, n, _, err := mk(g.toBNF())
				if err != nil {
					return
				}
				m, kind := namesVariant(c.R, n, len(t))
				p := parser.NewLL1Parser(t, m)
				for b := 0; b < 256; b++ {
					s := string([]byte{byte(b)})
					judge(c, p, m, kind, s, clip(s)+"\n"+clipG(g), true)
					s += randBytes(c.R, 1, nil)
					judge(c, p, m, kind, s, clip(s)+"\n"+clipG(g), true)
					c.Eval(true, g.String(), kind, s)
				}
			}},
			{Name: "hand", Quick: 90000, Thorough: 600000, Run: func(c *Ctx) {
				h := randTable(c.R)
				t := h.table()
				n := map[int]string{}
				for i := range t {
					n[i] = fmt.Sprint("row", i)
				}
				m, kind := namesVariant(c.R, n, len(t))
				p := parser.NewLL1Parser(t, m)
				for k := 0; k < 6; k++ {
					in := h.input(c.R)
					if r := h.run(in, m); r.runaway {
						continue
					}
					judge(c, p, m, kind, in, fmt.Sprintf("%s\n%s", clip(in), h), false)
					c.Count("hand-made tables", 1)
					c.Eval(in != "", h.String(), kind, in)
				}
			}},
			{Name: "many-names", Quick: 160, Thorough: 2000, Run: manyNames},
			{Name: "no-table", Quick: 200, Thorough: 200, Run: func(c *Ctx) {
				for _, t := range []table{nil, {}, {1: {'a': nil}},
					{-2: {}}, {0: nil}, {0: {}}} {
					for _, src := range []any{"", "a", []byte("a"), nil, 5,
						bytes.NewBufferString("x"), strings.NewReader("")} {
						m, kind := namesVariant(c.R, map[int]string{0: "a"}, 1)
						t0, n, err := parser.NewLL1Parser(t, m).Parse(src)
						if err == nil || contract(t0, n, err) != "" {
							c.Fail("table %v names %s source %v: tree %v names %v error %v",
								t, kind, src, t0 != nil, n != nil, err)
						}
						c.Count("errors", 1)
						c.Eval(true, fmt.Sprint(t), kind, fmt.Sprintf("%T", src))
					}
				}
			}},
		}})

	// ---------------------------------------------------------------- C16
	register(&Prop{ID: "C16", Level: "exploration",
		Rule: "A case is a random table over terminal, non terminal and built-in " +
			"operations - complete, with missing rows, cells and names - and " +
			"inputs, most derived by running the table. An evaluation compares " +
			"Parse with a reference interpreter: acceptance, the whole tree, and " +
			"on rejection the row name and byte reported. Non-trivial: the input " +
			"holds a byte; distinct by table and input.",
		Need: map[string]int64{"accepted": 2000, "rejected": 2000,
			"EOL nodes": 500, "missing rows reported": 200,
			"unnamed rows reported": 200, "unknown built-ins reported": 100},
		Assume: []string{"tables on which the reference interpreter exceeds its " +
			"step budget are skipped"},
		Families: []Family{
			{Name: "sizes", Quick: 160, Thorough: 1600, Run: func(c *Ctx) {
				n := []int{60, 70000, 254, 510, 1022, 4094, 32766, 65534}[c.Idx%8] +
					c.Intn(5)
				if c.chance(1, 8) {
					l := sizesUpTo(1 << 17)
					n = 2 + l[c.Intn(len(l))]
				}
				h := &hand{rows: map[int]map[byte][]hop{}, al: []byte("ab\n\r"),
					steps: 12*n + 3000}
				in := ""
				switch c.Idx / 8 % 5 {
				case 0: // a cell of many operations
					h.ids = []int{0, 1}
					var ops []hop
					for k := 0; k < n; k++ {
						switch c.Intn(4) {
						case 0:
							ops = append(ops, hop{n: -2})
							in += []string{"\n", "\r\n"}[c.Intn(2)]
						case 1:
							ops = append(ops, hop{t: true, s: "ba"})
							in += "ba"
						case 2:
							ops = append(ops, hop{n: 1})
							in += "a"
						case 3:
							ops = append(ops, hop{n: 1})
							if k == 0 {
								in += "a"
							}
						}
						if in == "" || len(ops) > 0 && in[len(in)-1] == 'a' && c.chance(1, 9) {
							ops = append(ops, hop{t: true, s: "b"})
							in += "b"
						}
					}
					row := map[byte][]hop{}
					for _, b := range []byte{0, 'a', 'b', '\n', '\r'} {
						row[b] = ops
					}
					h.rows[0] = row
					h.rows[1] = map[byte][]hop{0: {}, 'a': {{t: true, s: "a"}}, 'b': {},
						'\n': {}, '\r': {}}
				case 1: // a long terminal
					s := "a" + randBytes(c.R, n-1, h.al)
					h.ids = []int{0}
					h.rows[0] = map[byte][]hop{'a': {{t: true, s: s}, {n: -2}, {n: 0}}, 0: {}}
					in = s + "\r\n" + s + "\n"
				case 2: // many rows in turn
					for k := 0; k < n; k++ {
						h.ids = append(h.ids, k)
						b := h.al[c.Intn(4)]
						h.rows[k] = map[byte][]hop{b: {{t: true, s: string(b)}, {n: k + 1}}}
						in += string(b)
					}
					h.ids = append(h.ids, n)
					h.rows[n] = map[byte][]hop{0: {}, 'a': {}}
				case 3: // deep
					h.ids = []int{0}
					h.rows[0] = map[byte][]hop{'a': {{t: true, s: "a"}, {n: 0}, {n: -2}},
						'b': {{t: true, s: "b"}}}
					in = strings.Repeat("a", n) + "b"
					for k := 0; k < n; k++ {
						in += []string{"\n", "\r\n"}[c.Intn(2)]
					}
				case 4: // a list
					h.ids = []int{0}
					h.rows[0] = map[byte][]hop{'a': {{t: true, s: "a"}, {n: 0}},
						'\n': {{n: -2}, {n: 0}}, '\r': {{n: -2}, {n: 0}}, 0: {}}
					for k := 0; k < n; k++ {
						in += []string{"\n", "\r\n", "a"}[c.Intn(3)]
					}
				}
				t := h.table()
				p := parser.NewLL1Parser(t, map[int]string{0: "start"})
				for _, x := range []string{in, in + "a", in[:len(in)-1],
					mutate(c.R, in, h.al)} {
					w := h.run(x, map[int]string{0: "start"})
					if w.runaway {
						panic("steps")
					}
					got, _, err := p.Parse(x)
					if (err == nil) != (w.err == "") {
						c.Fail("table of size %d (kind %d), input %s: error %v, reference %q",
							n, c.Idx/8%5, clip(x), err, w.err)
					}
					if err == nil {
						if d := sameTree(got, w.tree); d != "" {
							c.Fail("table of size %d (kind %d), input %s: %s", n, c.Idx/8%5,
								clip(x), d)
						}
						c.Count("accepted, large", 1)
					} else {
						for _, s := range w.mentions {
							if !strings.Contains(err.Error(), s) {
								c.Fail("table of size %d (kind %d), input %s: error %q does not "+
									"mention %q (reference: %s)", n, c.Idx/8%5, clip(x), err, s,
									w.err)
							}
						}
					}
					c.Eval(true, "sizes", uint64(n), uint64(c.Idx), x)
				}
				c.Max("size", n)
			}},
			{Name: "random", Quick: 120000, Thorough: 2500000, Run: func(c *Ctx) {
				h := randTable(c.R)
				t := h.table()
				before := cloneTable(t)
				names := map[int]string{}
				for i := range t {
					if c.chance(2, 3) {
						names[i] = c.R.names(1)[0]
					}
				}
				var nm map[int]string = names
				if c.chance(1, 10) {
					nm = nil
					names = nil
				}
				p := parser.NewLL1Parser(t, nm)
				for k := 0; k < 8; k++ {
					in := h.input(c.R)
					w := h.run(in, names)
					if w.runaway {
						c.Count("skipped: interpretation does not end", 1)
						continue
					}
					got, _, err := p.Parse(in)
					if (err == nil) != (w.err == "") {
						c.Fail("input %s: error %v, reference %q\n%s", clip(in), err,
							w.err, h)
					}
					if err != nil {
						for _, s := range w.mentions {
							if !strings.Contains(err.Error(), s) {
								c.Fail("input %s: error %q does not mention %q (reference: "+
									"%s)\n%s", clip(in), err, s, w.err, h)
							}
						}
						c.Count("rejected", 1)
						if w.kind != "" {
							c.Count(w.kind+" reported", 1)
						}
						if w.unnamed {
							c.Count("unnamed rows reported", 1)
						}
					} else {
						if d := sameTree(got, w.tree); d != "" {
							c.Fail("input %s: %s\n%s", clip(in), d, h)
						}
						c.Count("accepted", 1)
						c.Count("EOL nodes", w.eols)
					}
					c.Eval(in != "", h.String(), in)
					if len(in) > 2 && err == nil {
						c.Sample("%sinput %s: tree as the reference", h, clip(in))
					}
				}
				if d := tableDiff(t, before); d != "" {
					c.Fail("Parse changed the table: %s", d)
				}
			}},
		}})
}

func rd2(r R, s string) io.Reader { return randReader(r, s) }

// ---- hand-made tables

type hop struct {
	t bool
	s string
	n int
}

type hand struct {
	rows  map[int]map[byte][]hop
	ids   []int
	al    []byte
	nils  bool // nil instead of empty lists and rows
	steps int  // of the interpreter, at most
}

func (h *hand) String() string {
	s := "table "
	for _, i := range h.ids {
		row, ok := h.rows[i]
		if !ok {
			continue
		}
		s += fmt.Sprintf("row %d: ", i)
		for b := 0; b < 256; b++ {
			if ops, ok := row[byte(b)]; ok {
				s += fmt.Sprintf("%d=[", b)
				for _, o := range ops {
					if o.t {
						s += fmt.Sprintf("%q ", o.s)
					} else {
						s += fmt.Sprintf("<%d> ", o.n)
					}
				}
				s += "] "
			}
		}
		s += "\n"
	}
	return s
}

func (h *hand) table() table {
	t := table{}
	for i, r := range h.rows {
		m := map[byte][]parser.ParserOp{}
		for b, ops := range r {
			var l []parser.ParserOp
			for _, o := range ops {
				if o.t {
					l = append(l, parser.OpTerminal(o.s))
				} else {
					l = append(l, parser.OpNonTerminal(o.n))
				}
			}
			m[b] = parser.NewParserOpList(l...)
			if len(l) == 0 && h.nils {
				m[b] = nil // present, without operations, as an empty list
			}
		}
		if len(m) == 0 && h.nils {
			m = nil
		}
		t[i] = m
	}
	return t
}

func randTable(r R) *hand {
	h := &hand{rows: map[int]map[byte][]hop{}, nils: r.chance(1, 3)}
	n := 1 + r.Intn(5)
	h.ids = []int{0}
	neg := r.chance(1, 5)
	for i := 1; i < n; i++ {
		id := i
		if r.chance(1, 5) {
			id = []int{r.Intn(1 << 30), 1<<62 + r.Intn(9), 255 + r.Intn(3),
				65535 + r.Intn(3), 1<<31 - 1 + r.Intn(3)}[r.Intn(5)]
		}
		if neg && r.chance(1, 2) {
			// no operation can name such a row: negative ones are built in
			id = []int{-1, -2, -3, -4, -7, -1 << 40}[r.Intn(6)]
		}
		h.ids = append(h.ids, id)
	}
	h.al = []byte("ab\n\r")
	if r.chance(1, 3) {
		h.al = append(h.al, 0, 255, 'c')
	}
	pBad := 0
	if r.chance(1, 4) {
		pBad = 1 + r.Intn(3)
	}
	for k, id := range h.ids {
		if k > 0 && r.chance(pBad, 12) {
			continue // a missing row
		}
		row := map[byte][]hop{}
		cols := append([]byte{0}, h.al...)
		for _, b := range cols {
			if r.chance(3, 10) {
				continue
			}
			ops := []hop{}
			if b != 0 && r.chance(3, 4) {
				// a cell which makes progress
				s := string([]byte{b})
				if b == '\r' && r.chance(2, 3) || b == '\n' && r.chance(1, 2) {
					ops = append(ops, hop{n: -2})
				} else {
					if r.chance(1, 4) {
						s += randBytes(r, 1+r.Intn(3), h.al)
					}
					ops = append(ops, hop{t: true, s: s})
				}
			}
			for m := r.Intn(4); m > 0; m-- {
				switch r.Intn(12) {
				case 0, 1, 2:
					ops = append(ops, hop{t: true,
						s: randBytes(r, 1+r.Intn(2), h.al)})
				case 3, 4:
					ops = append(ops, hop{n: -2})
				case 5:
					if pBad > 0 {
						ops = append(ops, hop{n: []int{-1, -3, -4, -100, -1 << 40}[r.Intn(5)]})
					}
				case 6:
					if r.chance(1, 4) {
						ops = append(ops, hop{t: true})
					}
				default:
					ops = append(ops, hop{n: h.ids[r.Intn(len(h.ids))]})
				}
			}
			row[b] = ops
		}
		if k > 0 && pBad > 0 && r.chance(1, 8) {
			row = map[byte][]hop{}
		}
		h.rows[id] = row
	}
	return h
}

// input: follow the table to build an accepted input when it goes well
func (h *hand) input(r R) string {
	if r.chance(1, 5) {
		return randBytes(r, r.Intn(6), h.al)
	}
	var out []byte
	st := []hop{{n: 0}}
	for steps := 0; len(st) > 0 && steps < 200 && len(out) < 60; steps++ {
		o := st[len(st)-1]
		st = st[:len(st)-1]
		switch {
		case o.t:
			out = append(out, o.s...)
		case o.n == -2:
			out = append(out, []string{"\n", "\r\n"}[r.Intn(2)]...)
		case o.n < 0:
		default:
			row := h.rows[o.n]
			var ks []byte
			for b := 0; b < 256; b++ {
				if _, ok := row[byte(b)]; ok {
					ks = append(ks, byte(b))
				}
			}
			if len(ks) == 0 {
				continue
			}
			k := ks[r.Intn(len(ks))]
			if steps > 30 {
				k = ks[0]
			}
			ops := row[k]
			for i := len(ops) - 1; i >= 0; i-- {
				st = append(st, ops[i])
			}
		}
	}
	s := string(out)
	if r.chance(1, 3) {
		s = mutate(r, s, h.al)
	}
	return s
}

type handRun struct {
	tree     *TN
	err      string
	mentions []string
	kind     string
	unnamed  bool
	runaway  bool
	eols     int
}

// run: reference interpreter
func (h *hand) run(in string, names map[int]string) (res handRun) {
	type fr struct {
		op     hop
		parent *TN
		close  *TN // end of this node's children
	}
	name := func(n int) string {
		if v, ok := names[n]; ok {
			return v
		}
		res.unnamed = true
		return fmt.Sprintf("Unknown_%d", n)
	}
	pos := 0
	peek := func() byte {
		if pos < len(in) {
			return in[pos]
		}
		return 0
	}
	top := &TN{}
	st := []fr{{op: hop{n: 0}, parent: top}}
	match := func(s string) bool {
		for i := 0; i < len(s); i++ {
			if pos >= len(in) || in[pos] != s[i] {
				res.err = fmt.Sprintf("expected %q at %d", s[i], pos)
				res.mentions = []string{fmt.Sprintf("(%d)", s[i]),
					fmt.Sprintf("(%d)", peek())}
				return false
			}
			pos++
		}
		return true
	}
	for steps := 0; len(st) > 0; steps++ {
		if steps > max(3000, h.steps) {
			res.runaway = true
			return
		}
		f := st[len(st)-1]
		st = st[:len(st)-1]
		if f.close != nil {
			f.close.End = pos
			continue
		}
		o := f.op
		nd := &TN{Type: o.n, Pos: pos}
		f.parent.Ch = append(f.parent.Ch, nd)
		switch {
		case o.t:
			nd.Type = tLiteral
			if !match(o.s) {
				return
			}
			nd.End = pos
		case o.n == -2:
			res.eols++
			if peek() != '\n' && peek() != '\r' {
				res.err = "EOL"
				res.kind = "missing line ends"
				res.mentions = []string{fmt.Sprintf("(%d)", peek())}
				return
			}
			if peek() == '\r' {
				nd.Ch = append(nd.Ch, &TN{Type: tLiteral, Pos: pos, End: pos + 1})
				pos++
			}
			nd.Ch = append(nd.Ch, &TN{Type: tLiteral, Pos: pos, End: pos + 1})
			if !match("\n") {
				return
			}
			nd.End = pos
		case o.n < 0:
			res.err = "unknown built-in"
			res.kind = "unknown built-ins"
			res.mentions = []string{fmt.Sprint(o.n)}
			return
		default:
			row, ok := h.rows[o.n]
			if !ok {
				res.err = "no row"
				res.kind = "missing rows"
				res.mentions = []string{name(o.n)}
				return
			}
			ops, ok := row[peek()]
			if !ok {
				res.err = "no cell"
				res.kind = "missing cells"
				res.mentions = []string{name(o.n), fmt.Sprintf("(%d)", peek())}
				return
			}
			if len(ops) == 0 {
				nd.End = pos
				nd.Ch = []*TN{{Type: tNothing, Pos: pos, End: pos}}
				continue
			}
			st = append(st, fr{close: nd})
			for i := len(ops) - 1; i >= 0; i-- {
				st = append(st, fr{op: ops[i], parent: nd})
			}
		}
	}
	if pos < len(in) {
		res.err = "input left"
		res.mentions = []string{fmt.Sprintf("(%d)", peek())}
		return
	}
	res.tree = top.Ch[0]
	return
}

func sameTree(n cst.Node, w *TN) string {
	type pair struct {
		n cst.Node
		w *TN
	}
	st := []pair{{n, w}}
	for len(st) > 0 {
		p := st[len(st)-1]
		st = st[:len(st)-1]
		if p.n == nil {
			return fmt.Sprintf("nil node, expected type %d at %d..%d", p.w.Type,
				p.w.Pos, p.w.End)
		}
		ch := p.n.Childs()
		if p.n.Type() != p.w.Type || p.n.Pos() != p.w.Pos || p.n.End() != p.w.End {
			return fmt.Sprintf("node type %d at %d..%d, expected type %d at %d..%d",
				p.n.Type(), p.n.Pos(), p.n.End(), p.w.Type, p.w.Pos, p.w.End)
		}
		if p.w.Type == tLiteral && p.w.Pos == p.w.End && len(ch) == 1 &&
			ch[0] != nil && ch[0].Type() == tNothing && len(ch[0].Childs()) == 0 {
			continue // an empty terminal: how it looks is not laid down
		}
		if len(ch) != len(p.w.Ch) {
			return fmt.Sprintf("node type %d at %d..%d has %d children, expected %d",
				p.n.Type(), p.n.Pos(), p.n.End(), len(ch), len(p.w.Ch))
		}
		for i := range ch {
			st = append(st, pair{ch[i], p.w.Ch[i]})
		}
	}
	return ""
}
