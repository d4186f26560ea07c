package main

import (
	"crypto/rand"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	mrand "math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
)

// Part is one family of cases of a property; case i of a part is a pure function of
// (seed, property, part, i).
type Part struct {
	Name            string
	Quick, Thorough int // number of cases
	Fn              func(c *Case)
}

// Prop is a property with its workload and the least number of observations (by counter)
// without which a run is inconclusive.
type Prop struct {
	ID    string
	Parts []Part
	Rule  string
	// Least gives, per counter, the least total over all shards of a quick run.
	Least map[string]int64
	// Bubble: cases use virtual time (bubble).
	Bubble bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type Violation struct {
	Part   string `json:"part"`
	Case   int    `json:"case"`
	Text   string `json:"text"`
	Detail string `json:"detail,omitempty"`
}

// Stats is what one shard observed.
type Stats struct {
	mtx        sync.Mutex
	Evals      int64            `json:"evals"`
	Cases      int64            `json:"cases"`
	Counters   map[string]int64 `json:"counters"`
	Distinct   map[uint64]bool  `json:"-"`
	DistinctL  []string         `json:"distinct"`
	Samples    []any            `json:"samples"`
	Violations []Violation      `json:"violations"`
}

var stats = Stats{Counters: map[string]int64{}, Distinct: map[uint64]bool{}}

// Case is one execution.
type Case struct {
	Prop  string
	Part  string
	Idx   int
	Seed  int64
	R     *mrand.Rand
	Rand  *drbg // what crypto/rand.Reader returns during the case
	Thoro bool
	held  []heldMsg // see routine

	crowdTimeout time.Duration                                // of the library's participant of a crowd
	watchCrowd   func(x *Node, k *Key, parties party.IDSlice) // called when the library's participant of a crowd is created
	forced       int                                          // number of parties of a case of a "sizes" part
}

type caseFailure struct{ text, detail string }

// Fail reports a violation of the property and ends the case.
func (c *Case) Fail(format string, a ...any) {
	panic(caseFailure{fmt.Sprintf(format, a...), ""})
}

func (c *Case) Check(ok bool, format string, a ...any) {
	if !ok {
		c.Fail(format, a...)
	}
}

// Eval counts one decision of the oracle.
func (c *Case) Eval(n int) { stats.mtx.Lock(); stats.Evals += int64(n); stats.mtx.Unlock() }

func (c *Case) Count(name string, n int) {
	stats.mtx.Lock()
	stats.Counters[name] += int64(n)
	stats.mtx.Unlock()
}

// Seen records the signature of a non-trivial execution.
func (c *Case) Seen(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, c.Part, "|")
	for _, p := range parts {
		fmt.Fprint(h, p, "|")
	}
	stats.mtx.Lock()
	if len(stats.Distinct) < 400000 {
		stats.Distinct[h.Sum64()] = true
	}
	stats.mtx.Unlock()
}

func (c *Case) Sample(v any) {
	stats.mtx.Lock()
	if len(stats.Samples) < 3 {
		stats.Samples = append(stats.Samples, map[string]any{"case": fmt.Sprintf("%s:%d", c.Part, c.Idx), "observed": v})
	}
	stats.mtx.Unlock()
}

// ---- deterministic randomness ----

type drbg struct {
	src  *mrand.ChaCha8
	Log  [][]byte // every read, when Keep is set
	Keep bool
	mtx  sync.Mutex
}

func newDRBG(seed [32]byte) *drbg { return &drbg{src: mrand.NewChaCha8(seed)} }

func (d *drbg) Read(b []byte) (int, error) {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	d.src.Read(b)
	if d.Keep {
		d.Log = append(d.Log, append([]byte{}, b...))
	}
	return len(b), nil
}

func newCase(prop, part string, idx int, seed int64, thoro bool) *Case {
	var s [32]byte
	h := fnv.New64a()
	io.WriteString(h, prop+"/"+part)
	binary.LittleEndian.PutUint64(s[0:], uint64(seed))
	binary.LittleEndian.PutUint64(s[8:], h.Sum64())
	binary.LittleEndian.PutUint64(s[16:], uint64(idx))
	c := &Case{Prop: prop, Part: part, Idx: idx, Seed: seed, Thoro: thoro}
	c.R = mrand.New(mrand.NewChaCha8(s))
	s[31] = 1
	c.Rand = newDRBG(s)
	return c
}

// Bytes returns n random bytes.
func (c *Case) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.R.Uint32())
	}
	return b
}

// ---- running ----

var progress struct {
	mtx     sync.Mutex
	part    string
	idx     int
	began   time.Time
	cpu     time.Duration
	running bool
	exempt  bool
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// libFrame returns the innermost frame of the library in a stack trace, "" if none. The
// goroutine's own frames come first.
func libFrame(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/taurusgroup/frost-ed25519/") && !strings.Contains(l, "/vharness") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

func record(v Violation) {
	stats.mtx.Lock()
	stats.Violations = append(stats.Violations, v)
	stats.mtx.Unlock()
	fmt.Fprintf(os.Stderr, "violation %s:%d: %s\n", v.Part, v.Case, v.Text)
}

func runCase(p *Prop, part Part, idx int, seed int64, thoro bool) {
	c := newCase(p.ID, part.Name, idx, seed, thoro)
	progress.mtx.Lock()
	progress.part, progress.idx, progress.began, progress.cpu, progress.running = part.Name, idx, time.Now(), cpuTime(), true
	progress.exempt = false
	progress.mtx.Unlock()
	writeCurrent(part.Name, idx)
	old := rand.Reader
	rand.Reader = c.Rand
	defer func() {
		rand.Reader = old
		progress.mtx.Lock()
		progress.running = false
		progress.mtx.Unlock()
		stats.mtx.Lock()
		stats.Cases++
		stats.mtx.Unlock()
		if e := recover(); e != nil {
			if f, ok := e.(caseFailure); ok {
				record(Violation{Part: part.Name, Case: idx, Text: f.text, Detail: f.detail})
				return
			}
			st := string(debug.Stack())
			// frames after the panic call
			if i := strings.Index(st, "\npanic("); i >= 0 {
				st = st[i+1:]
			}
			where := "the harness, on a value obtained from the library"
			if f := libFrame(st); f != "" {
				where = f
			}
			record(Violation{Part: part.Name, Case: idx, Text: fmt.Sprintf("panic: %v in %s", e, where), Detail: clip(st, 4000)})
		}
	}()
	part.Fn(c)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var currentFile *os.File

func writeCurrent(part string, idx int) {
	if currentFile != nil {
		b := fmt.Sprintf("%-60s\n", fmt.Sprintf("%s:%d", part, idx))
		currentFile.WriteAt([]byte(b), 0)
	}
}

const stallCPU = 60 * time.Second
const stallWall = 240 * time.Second

// watchdog ends the process when a case consumes far more processor time than any case of
// a correct library needs (with a library frame on the stack: non-termination), or hangs.
func watchdog(out string) {
	for {
		time.Sleep(500 * time.Millisecond)
		progress.mtx.Lock()
		run, part, idx, ex := progress.running, progress.part, progress.idx, progress.exempt
		wall, cpu := time.Since(progress.began), cpuTime()-progress.cpu
		progress.mtx.Unlock()
		if !run || ex {
			continue
		}
		if cpu < stallCPU && wall < stallWall {
			// A blocked process uses no processor time: look at who is blocked after 40 s.
			if wall < 40*time.Second || cpu > 5*time.Second {
				continue
			}
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		lib := ""
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "main.runCase") || strings.Contains(g, "main.(*Case)") || strings.Contains(g, "vharness") {
				if f := libFrame(g); f != "" {
					lib = f
				}
			}
		}
		if lib != "" {
			record(Violation{Part: part, Case: idx, Text: fmt.Sprintf("the library does not return: %s (%.0f s of processor time, %.0f s elapsed)", lib, cpu.Seconds(), wall.Seconds()), Detail: clip(string(buf), 6000)})
			flush(out)
			os.Exit(1)
		}
		if cpu >= stallCPU || wall >= stallWall {
			fmt.Fprintf(os.Stderr, "harness stall in %s:%d\n%s\n", part, idx, clip(string(buf), 6000))
			flush(out)
			os.Exit(3)
		}
	}
}

func flush(out string) {
	stats.mtx.Lock()
	defer stats.mtx.Unlock()
	stats.DistinctL = stats.DistinctL[:0]
	for k := range stats.Distinct {
		stats.DistinctL = append(stats.DistinctL, fmt.Sprintf("%x", k))
	}
	sort.Strings(stats.DistinctL)
	b, err := json.Marshal(&stats)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if out == "" || out == "-" {
		fmt.Printf("evals=%d cases=%d distinct=%d counters=%v violations=%d\n", stats.Evals, stats.Cases, len(stats.Distinct), stats.Counters, len(stats.Violations))
		for i, s := range stats.Samples {
			if i < 3 {
				j, _ := json.Marshal(s)
				fmt.Println("sample", clip(string(j), 600))
			}
		}
		for _, v := range stats.Violations {
			fmt.Println(v.Text)
			fmt.Println(v.Detail)
		}
		return
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
