package mon

// Runner: a property is a list of case families; a case is determined by
// (seed, property, family, index) alone. The driver starts one process per
// shard, merges what they observed and writes the evidence file.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Family struct {
	Name string
	// number of cases: quick, thorough
	Quick, Thorough int
	Run             func(c *Ctx)
	Serial          bool // all cases in shard 0
}

type Prop struct {
	ID    string
	Rule  string
	Level string
	Race  bool
	// counters which have to be at least this much for a verdict
	Need     map[string]int64
	Assume   []string
	Families []Family
	Shards   int // 0: one per core
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type Failure struct {
	Property string `json:"property"`
	Family   string `json:"family"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	What     string `json:"what"`
}

type Stats struct {
	Evals    int64            `json:"evals"`
	Cases    map[string]int64 `json:"cases"`
	Counts   map[string]int64 `json:"counts"`
	Max      map[string]int64 `json:"max"`
	Samples  []string         `json:"samples"`
	Failures []Failure        `json:"failures"`
	keys     map[uint64]struct{}
	known    map[string]bool
	mu       sync.Mutex
}

type Ctx struct {
	R
	P    *Prop
	Fam  string
	Idx  int
	Seed int64
	Tier string
	S    *Stats
}

type failed struct{ what string }

func (c *Ctx) Fail(format string, a ...any) {
	panic(failed{fmt.Sprintf(format, a...)})
}

// Known: a failure of a class the known-findings file may list. The case goes
// on; one report per class and shard.
func (c *Ctx) Known(key, format string, a ...any) {
	c.S.mu.Lock()
	defer c.S.mu.Unlock()
	c.S.Counts["seen again: "+key]++
	if c.S.known[key] {
		return
	}
	c.S.known[key] = true
	c.S.Failures = append(c.S.Failures, Failure{Property: c.P.ID,
		Family: c.Fam, Index: c.Idx, Seed: c.Seed, Tier: c.Tier,
		What: "[" + key + "] " + fmt.Sprintf(format, a...)})
}

func (c *Ctx) Count(name string, n int) {
	c.S.mu.Lock()
	c.S.Counts[name] += int64(n)
	c.S.mu.Unlock()
}

func (c *Ctx) Max(name string, n int) {
	c.S.mu.Lock()
	if int64(n) > c.S.Max[name] {
		c.S.Max[name] = int64(n)
	}
	c.S.mu.Unlock()
}

// Eval: one judged execution; parts identify it
func (c *Ctx) Eval(nontrivial bool, parts ...any) {
	c.S.mu.Lock()
	defer c.S.mu.Unlock()
	c.S.Evals++
	if nontrivial {
		h := fnv.New64a()
		for _, p := range parts {
			switch v := p.(type) {
			case string:
				h.Write([]byte(v))
			case []byte:
				h.Write(v)
			case uint64:
				var b [8]byte
				binary.LittleEndian.PutUint64(b[:], v)
				h.Write(b[:])
			default:
				fmt.Fprint(h, v)
			}
			h.Write([]byte{0xfe, 0})
		}
		c.S.keys[h.Sum64()] = struct{}{}
	}
}

func (c *Ctx) Sample(format string, a ...any) {
	c.S.mu.Lock()
	defer c.S.mu.Unlock()
	if len(c.S.Samples) < 4 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 900 {
			s = s[:900] + "..."
		}
		c.S.Samples = append(c.S.Samples, c.Fam+": "+s)
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func clipG(g *Gram) string {
	s := g.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func caseSeed(seed int64, prop, fam string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, fam, idx)
	return int64(h.Sum64() >> 1)
}

func newR(seed int64) R { return R{rand.New(rand.NewSource(seed))} }

// ---- watchdog: processor time and heap of one case, not wall clock

type watch struct {
	cur   atomic.Pointer[Failure]
	start atomic.Int64 // cpu ns when the case began
	limit atomic.Int64
}

var wd watch

func cpuNow() int64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return u.Utime.Nano() + u.Stime.Nano()
}

func heapNow() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/total:bytes"},
		{Name: "/memory/classes/heap/released:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64() - s[1].Value.Uint64()
}

const (
	cpuLimit  = 90 * time.Second
	heapLimit = 3 << 30
)

func (w *watch) run(report func(f Failure)) {
	idle := 0
	var last *Failure
	lastCPU := int64(0)
	for {
		time.Sleep(100 * time.Millisecond)
		f := w.cur.Load()
		if f == nil {
			continue
		}
		// a deadlock uses no processor time; the stacks decide, not the clock
		if now := cpuNow(); f == last && now-lastCPU < int64(20*time.Millisecond) {
			idle++
		} else {
			idle = 0
		}
		last, lastCPU = f, cpuNow()
		if idle >= 50 {
			idle = 0
			buf := make([]byte, 1<<20)
			dump := string(buf[:runtime.Stack(buf, true)])
			if stuck(dump) && w.cur.Load() == f {
				g := *f
				g.What = "blocked for ever\n" + codeFrames(dump)
				report(g)
			}
		}
		used := cpuNow() - w.start.Load()
		lim := w.limit.Load()
		if w.cur.Load() == f && used > lim {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			g := *f
			g.What = fmt.Sprintf("no result after %.0f s of processor time\n%s",
				float64(used)/1e9, codeFrames(string(buf)))
			report(g)
		}
		if h := heapNow(); w.cur.Load() == f && h > heapLimit {
			g := *f
			g.What = fmt.Sprintf("no result when memory reached %d MB", h>>20)
			report(g)
		}
	}
}

// stuck: every goroutine but the caller is blocked for good, one of them in the
// code under test
func stuck(dump string) bool {
	inCode := false
	for i, g := range strings.Split(dump, "\n\n") {
		if i == 0 || !strings.HasPrefix(g, "goroutine ") {
			continue // the watchdog itself comes first
		}
		if strings.Contains(g, "created by llverif/mon.runShard") {
			continue // writes what was seen from time to time
		}
		a, b := strings.Index(g, "["), strings.Index(g, "]")
		if a < 0 || b < a {
			return false
		}
		state := strings.Split(g[a+1:b], ",")[0]
		switch {
		case strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "semacquire"),
			strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"):
		default:
			return false
		}
		if codeFrames(g) != "" {
			inCode = true
		}
	}
	return inCode
}

func codeFrames(st string) string {
	var res []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "TooManySugar/ll1parser/") {
			res = append(res, strings.TrimSpace(l))
			if len(res) > 8 {
				break
			}
		}
	}
	return strings.Join(res, "\n")
}

func runShard(p *Prop, tier string, seed int64, shard, shards int, out string) {
	dict = loadDict()
	// the watchdog has to see memory grow before the collector is starved
	debug.SetGCPercent(100)
	st := &Stats{Cases: map[string]int64{}, Counts: map[string]int64{},
		Max: map[string]int64{}, keys: map[uint64]struct{}{}, known: map[string]bool{}}
	write := func() {
		st.mu.Lock()
		defer st.mu.Unlock()
		b, _ := json.Marshal(st)
		os.WriteFile(out+".json.tmp", b, 0o644)
		kb := make([]byte, 0, 8*len(st.keys))
		for k := range st.keys {
			kb = binary.LittleEndian.AppendUint64(kb, k)
		}
		os.WriteFile(out+".keys", kb, 0o644)
		os.Rename(out+".json.tmp", out+".json")
	}
	progress, _ := os.Create(out + ".at")
	wd.limit.Store(int64(cpuLimit))
	go wd.run(func(f Failure) {
		st.mu.Lock()
		st.Failures = append(st.Failures, f)
		st.mu.Unlock()
		write()
		os.Exit(0)
	})
	// the driver asks for an end once a violation is known
	var stop atomic.Bool
	go func() {
		for !stop.Load() {
			time.Sleep(500 * time.Millisecond)
			if _, err := os.Stat(filepath.Join(filepath.Dir(out), "stop")); err == nil {
				stop.Store(true)
			}
		}
	}()
	bad := 0
	for fi := range p.Families {
		fam := &p.Families[fi]
		n := fam.Quick
		if tier == "thorough" {
			n = fam.Thorough
		}
		for idx := 0; idx < n; idx++ {
			if fam.Serial && shard != 0 || !fam.Serial && idx%shards != shard {
				continue
			}
			if stop.Load() {
				write()
				return
			}
			progress.WriteAt([]byte(fmt.Sprintf("%-40s %-12d", fam.Name, idx)), 0)
			if f := runCase(p, fam, tier, seed, idx, st); f != nil {
				st.Failures = append(st.Failures, *f)
				if bad++; bad == 1 || bad >= 3 {
					write()
				}
				if bad >= 3 {
					return
				}
			}
			st.Cases[fam.Name]++
		}
	}
	write()
}

func runCase(p *Prop, fam *Family, tier string, seed int64, idx int,
	st *Stats) (f *Failure) {
	fl := Failure{Property: p.ID, Family: fam.Name, Index: idx, Seed: seed,
		Tier: tier}
	c := &Ctx{R: newR(caseSeed(seed, p.ID, fam.Name, idx)),
		P: p, Fam: fam.Name, Idx: idx, Seed: seed, Tier: tier, S: st}
	wd.start.Store(cpuNow())
	wd.cur.Store(&fl)
	defer wd.cur.Store(nil)
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(failed); ok {
				fl.What = x.what
				f = &fl
				return
			}
			s := string(debug.Stack())
			if fr := codeFrames(s); fr != "" {
				fl.What = fmt.Sprintf("panic: %v\n%s", e, fr)
				f = &fl
				return
			}
			fmt.Fprintf(os.Stderr, "HARNESS ERROR %s/%s/%d: %v\n%s", p.ID,
				fam.Name, idx, e, s)
			os.Exit(4)
		}
	}()
	fam.Run(c)
	return nil
}

// ---- driver

func drive(p *Prop, tier string, seed int64, verif string) int {
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "llv-"+p.ID+"-")
	if err != nil {
		fmt.Println("ERROR", err)
		return 3
	}
	defer os.RemoveAll(tmp)
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if p.Shards > 0 {
		shards = p.Shards
	}
	cov := filepath.Join(tmp, "cov")
	os.Mkdir(cov, 0o755)
	self, _ := os.Executable()
	type result struct {
		err    error
		so, se string
	}
	res := make([]result, shards)
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	known := loadKnown(verif)
	var wg sync.WaitGroup
	over := make(chan struct{})
	var cmds [64]atomic.Pointer[exec.Cmd]
	go func() {
		// a violation found: the other shards get a little longer, to be able
		// to show it at smaller cases
		var first time.Time
		for {
			select {
			case <-over:
				return
			case <-time.After(500 * time.Millisecond):
			}
			for i := 0; i < shards && first.IsZero(); i++ {
				var s Stats
				b, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprint("s", i, ".json")))
				json.Unmarshal(b, &s)
				for _, f := range s.Failures {
					if known.match(f) == "" {
						first = time.Now()
					}
				}
			}
			if first.IsZero() {
				continue
			}
			if time.Since(first) > 30*time.Second {
				os.WriteFile(filepath.Join(tmp, "stop"), nil, 0o644)
			}
			if time.Since(first) > 90*time.Second {
				for i := range cmds {
					if c := cmds[i].Load(); c != nil {
						c.Process.Kill()
					}
				}
				return
			}
		}
	}()
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			base := filepath.Join(tmp, fmt.Sprint("s", i))
			cmd := exec.Command(self, "shard", "-prop", p.ID, "-tier", tier,
				"-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(i),
				"-shards", fmt.Sprint(shards), "-out", base)
			cmd.Env = append(os.Environ(), "GOCOVERDIR="+cov,
				"LLV_TMP="+tmp, "LLV_SHARD_OUT="+base+".so",
				"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
			so, _ := os.Create(base + ".so")
			se, _ := os.Create(base + ".se")
			cmd.Stdout, cmd.Stderr = so, se
			err := cmd.Start()
			if err == nil {
				cmds[i].Store(cmd)
				tm := time.AfterFunc(limit, func() { cmd.Process.Kill() })
				err = cmd.Wait()
				tm.Stop()
			}
			so.Close()
			se.Close()
			a, _ := os.ReadFile(base + ".so")
			b, _ := os.ReadFile(base + ".se")
			res[i] = result{err, string(a), string(b)}
		}(i)
	}
	wg.Wait()
	close(over)

	tot := Stats{Cases: map[string]int64{}, Counts: map[string]int64{},
		Max: map[string]int64{}, keys: map[uint64]struct{}{}, known: map[string]bool{}}
	broken := ""
	for i := range res {
		base := filepath.Join(tmp, fmt.Sprint("s", i))
		r := res[i]
		if b, err := os.ReadFile(base + ".json"); err == nil {
			var s Stats
			json.Unmarshal(b, &s)
			tot.Evals += s.Evals
			for k, v := range s.Cases {
				tot.Cases[k] += v
			}
			for k, v := range s.Counts {
				tot.Counts[k] += v
			}
			for k, v := range s.Max {
				if v > tot.Max[k] {
					tot.Max[k] = v
				}
			}
			if i == 0 || len(tot.Samples) < 6 {
				tot.Samples = append(tot.Samples, s.Samples...)
			}
			tot.Failures = append(tot.Failures, s.Failures...)
			kb, _ := os.ReadFile(base + ".keys")
			for j := 0; j+8 <= len(kb); j += 8 {
				tot.keys[binary.LittleEndian.Uint64(kb[j:])] = struct{}{}
			}
		}
		if r.err == nil {
			continue
		}
		// the process died: a crash of the code under test is a violation,
		// anything else leaves the question open
		at, _ := os.ReadFile(base + ".at")
		var fam string
		var idx int
		fmt.Sscan(string(at), &fam, &idx)
		crash := ""
		race := false
		if k := strings.Index(r.se, "WARNING: DATA RACE"); k >= 0 {
			// also one without frames of the code: callers share nothing but what
			// the code gave to more than one of them
			crash, race = r.se[k:], true
		} else if k := strings.Index(r.se, "fatal error:"); k >= 0 {
			crash = r.se[k:]
		} else if k := strings.Index(r.se, "panic:"); k >= 0 {
			crash = r.se[k:] // a panic in a goroutine of the code
		}
		if strings.Contains(r.se, "HARNESS ERROR") {
			crash = ""
		}
		if crash != "" && (race || strings.Contains(crash, "TooManySugar/ll1parser/")) {
			if len(crash) > 3000 {
				crash = crash[:3000]
			}
			tot.Failures = append(tot.Failures, Failure{p.ID, fam, idx, seed,
				tier, crash})
			continue
		}
		se := r.se
		if len(se) > 3000 {
			se = se[:3000]
		}
		broken += fmt.Sprintf("shard %d at %s/%d: %v\n%s\n", i, fam, idx,
			r.err, se)
	}

	var viol []Failure
	seenKnown := map[string]bool{}
	for _, f := range tot.Failures {
		if k := known.match(f); k != "" {
			seenKnown[k] = true
			continue
		}
		viol = append(viol, f)
	}
	short := ""
	need := map[string]int64{}
	for k, v := range p.Need {
		need[k] = v
	}
	for k, v := range need {
		if tot.Counts[k] < v {
			short += fmt.Sprintf("observed only %d of at least %d %s; ",
				tot.Counts[k], v, k)
		}
	}
	var stmtCov any = "not measured: its counters would order the goroutines"
	if !p.Race {
		stmtCov = covPercent(cov)
	}
	coverage := map[string]any{
		"evaluations":         tot.Evals,
		"distinct_nontrivial": len(tot.keys),
		"rule":                p.Rule,
		"samples":             tot.Samples,
		"cases_per_family":    tot.Cases,
		"observed":            tot.Counts,
		"largest":             tot.Max,
		"shards":              shards,
		"race_detector":       p.Race,
		"statement_coverage":  stmtCov,
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": coverage, "assumptions": p.Assume,
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"),
		append(b, '\n'), 0o644)
	known.print(p.ID)
	if len(viol) > 0 {
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		shown := map[string]bool{}
		for i, f := range viol {
			if i >= 6 || shown[f.Family] && i >= 2 {
				continue
			}
			shown[f.Family] = true
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID,
				f.Family, f.Index))
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			what := f.What
			if len(what) > 2500 {
				what = what[:2500] + "..."
			}
			fmt.Printf("%s/%s/%d: %s\n", p.ID, f.Family, f.Index, what)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	if broken != "" || short != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s%s\n", p.ID, broken, short)
		return 3
	}
	fmt.Printf("held property=%s tier=%s seed=%d evaluations=%d distinct=%d "+
		"wall=%.1fs\n", p.ID, tier, seed, tot.Evals, len(tot.keys),
		time.Since(t0).Seconds())
	return 0
}

func covPercent(dir string) any {
	out, err := exec.Command("go", "tool", "covdata", "percent",
		"-i="+dir).Output()
	if err != nil {
		return "not available"
	}
	res := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && strings.Contains(f[0], "ll1parser/pkg/") {
			res[strings.TrimPrefix(f[0], "github.com/TooManySugar/ll1parser/")] = f[2]
		}
	}
	return res
}

// ---- known findings

type knownFile struct{ entries []knownEntry }
type knownEntry struct{ prop, key, what string }

// KNOWN_FINDINGS.txt: "known: property=<id> key=<substring of the report> <what>"
// and "fixed: ..." lines, which suppress nothing
func loadKnown(verif string) *knownFile {
	k := &knownFile{}
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") &&
			strings.HasPrefix(f[1], "key=") {
			k.entries = append(k.entries, knownEntry{f[0][9:], f[1][4:], f[2]})
		}
	}
	return k
}

func (k *knownFile) match(f Failure) string {
	for _, e := range k.entries {
		if e.prop == f.Property && e.key != "" &&
			strings.Contains(f.What, "["+e.key+"]") {
			return e.key
		}
	}
	return ""
}

func (k *knownFile) print(prop string) {
	for _, e := range k.entries {
		if e.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, e.what)
		}
	}
}

// Main: the command
func Main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vmon drive|shard|replay|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vmon", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	out := fs.String("out", "", "")
	verif := fs.String("verif", "/verif", "")
	file := fs.String("file", "", "")
	index := fs.Int("index", 0, "")
	kk := fs.Int("k", 0, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "drive":
		p := props[*prop]
		if p == nil {
			fmt.Println("unknown property", *prop)
			os.Exit(3)
		}
		os.Exit(drive(p, *tier, *seed, *verif))
	case "shard":
		runShard(props[*prop], *tier, *seed, *shard, *shards, *out)
	case "cold":
		dict = loadDict()
		coldMain(*seed, *index, *kk)
	case "first":
		dict = loadDict()
		firstMain(*seed, *index)
	case "replay":
		b, err := os.ReadFile(*file)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		var f Failure
		json.NewDecoder(bytes.NewReader(b)).Decode(&f)
		p := props[f.Property]
		dict = loadDict()
		wd.limit.Store(int64(cpuLimit))
		go wd.run(func(f Failure) {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", f.What,
				f.Property, *file)
			os.Exit(1)
		})
		st := &Stats{Cases: map[string]int64{}, Counts: map[string]int64{},
			Max: map[string]int64{}, keys: map[uint64]struct{}{}, known: map[string]bool{}}
		for i := range p.Families {
			if p.Families[i].Name == f.Family {
				r := runCase(p, &p.Families[i], f.Tier, f.Seed, f.Index, st)
				if r != nil {
					fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", r.What,
						f.Property, *file)
					os.Exit(1)
				}
				for _, k := range st.Failures {
					fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", k.What,
						f.Property, *file)
					os.Exit(1)
				}
				fmt.Println("not reproduced")
				os.Exit(0)
			}
		}
	}
}
