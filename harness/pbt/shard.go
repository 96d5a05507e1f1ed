package pbt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	ExitHang   = 97 // a single case used more than caseCPU seconds of CPU
	ExitMemory = 98 // the process grew over maxRSS
	caseCPU    = 45.0
	maxRSS     = 2500 << 20
)

type CaseFile struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error,omitempty"`
}

type ShardResult struct {
	Evaluations int                          `json:"evaluations"`
	Executions  int                          `json:"executions"`
	NonTrivial  int                          `json:"nontrivial"`
	Skipped     int                          `json:"skipped"`
	PerFamily   map[string]int               `json:"per_family"`
	Classes     map[string]int               `json:"classes"`
	Samples     map[string][]json.RawMessage `json:"samples"`
	Hashes      []uint64                     `json:"hashes"`
	Failure     *CaseFile                    `json:"failure,omitempty"`
	Error       string                       `json:"error,omitempty"`
}

var (
	caseStart  atomic.Int64 // CPU microseconds at the beginning of the current case
	caseActive atomic.Bool
	RealStdout = os.Stdout
)

func cpuMicros() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Sec*1e6 + int64(ru.Utime.Usec) + ru.Stime.Sec*1e6 + int64(ru.Stime.Usec)
}

func rss() int64 {
	b, e := os.ReadFile("/proc/self/statm")
	if e != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// Watchdog ends the process when the current case loops or allocates without
// end. It measures CPU time, not wall time, so that a busy machine is harmless.
func Watchdog() {
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(maxRSS * 6 / 10)
	parent := os.Getppid()
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			if os.Getppid() != parent {
				os.Exit(3) // orphan
			}
			if rss() > maxRSS {
				// garbage does not count
				debug.FreeOSMemory()
				if rss() <= maxRSS {
					continue
				}
				fmt.Fprintln(os.Stderr, "watchdog: memory")
				os.Exit(ExitMemory)
			}
			if caseActive.Load() && float64(cpuMicros()-caseStart.Load()) > caseCPU*1e6 {
				fmt.Fprintln(os.Stderr, "watchdog: hang")
				os.Exit(ExitHang)
			}
		}
	}()
}

func begin() { caseStart.Store(cpuMicros()); caseActive.Store(true) }
func end()   { caseActive.Store(false) }

// Mute sends what the code under test prints to the void.
func Mute() {
	null, e := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if e != nil {
		panic(e)
	}
	os.Stdout = null
}

func hash(s ...string) uint64 {
	h := fnv.New64a()
	for _, x := range s {
		h.Write([]byte(x))
		h.Write([]byte{0})
	}
	x := h.Sum64()
	// splitmix finalizer, as rapid walks seeds linearly
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

type fakeTB struct{ failed bool }
type failNow struct{}

func (f *fakeTB) Helper()              {}
func (f *fakeTB) Name() string         { return "verif" }
func (f *fakeTB) Logf(string, ...any)  {}
func (f *fakeTB) Log(...any)           {}
func (f *fakeTB) Skipf(string, ...any) { panic("BUG in harness: skip") }
func (f *fakeTB) Skip(...any)          { panic("BUG in harness: skip") }
func (f *fakeTB) SkipNow()             { panic("BUG in harness: skip") }
func (f *fakeTB) Errorf(s string, a ...any) {
	f.failed = true
	fmt.Fprintf(os.Stderr, "rapid: "+s+"\n", a...)
}
func (f *fakeTB) Error(a ...any)            { f.failed = true; fmt.Fprintln(os.Stderr, a...) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); f.FailNow() }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); f.FailNow() }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(failNow{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

// RunShard runs the families of a property with this shard's share of cases.
// Files in dir: cur (case being checked), fail (last failing case), result.
func RunShard(p *Prop, tier string, seed int64, shard, nshards int, dir string, deadline time.Time, corpus string) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	Watchdog()
	Mute()
	testing.Init()
	flag.CommandLine.Parse([]string{})
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	os.Chdir(dir) // rapid globs testdata/rapid

	res := &ShardResult{PerFamily: map[string]int{}, Classes: map[string]int{}, Samples: map[string][]json.RawMessage{}}
	seen := map[uint64]bool{}
	cur, e := os.Create(filepath.Join(dir, "cur"))
	if e != nil {
		panic(e)
	}
	finish := func() {
		for h := range seen {
			res.Hashes = append(res.Hashes, h)
		}
		b, _ := json.Marshal(res)
		if e := os.WriteFile(filepath.Join(dir, "result"), b, 0o644); e != nil {
			panic(e)
		}
	}
	runOne := func(f Family, raw json.RawMessage, record bool) error {
		note := []byte(fmt.Sprintf("%s\n%d\n", f.Name, len(raw)))
		cur.WriteAt(append(note, raw...), 0)
		r := &R{}
		begin()
		err := Guard(f, raw, r)
		end()
		if slow := os.Getenv("VERIF_SLOW"); slow != "" {
			if used := cpuMicros() - caseStart.Load(); used > 500000 {
				os.WriteFile(fmt.Sprintf("%s/slow-%s-%s-%dms.json", slow, p.ID, f.Name, used/1000), Encode(CaseFile{p.ID, f.Name, raw, ""}), 0o644)
			}
		}
		if record {
			res.Evaluations++
			res.Executions += r.execs
			res.PerFamily[f.Name]++
			for _, c := range r.classes {
				res.Classes[f.Name+": "+c]++
			}
			if r.nontrivial {
				h := hash(f.Name, string(raw))
				if !seen[h] {
					seen[h] = true
					res.NonTrivial++
					if n := len(seen); len(raw) < 3000 && len(res.Samples[f.Name]) < 3 && (n < 3 || n%17 == 0) {
						res.Samples[f.Name] = append(res.Samples[f.Name], raw)
					}
				}
			}
		}
		if err != nil {
			res.Failure = &CaseFile{p.ID, f.Name, raw, err.Error()}
			b, _ := json.Marshal(res.Failure)
			os.WriteFile(filepath.Join(dir, "fail"), b, 0o644)
		}
		return err
	}
	// saved cases first
	if shard == 0 {
		files, _ := filepath.Glob(filepath.Join(corpus, p.ID, "*.json"))
		for _, file := range files {
			b, e := os.ReadFile(file)
			var cf CaseFile
			if e != nil || json.Unmarshal(b, &cf) != nil {
				panic("BUG in harness: unreadable " + file)
			}
			f := FindFamily(p, cf.Family)
			if f == nil {
				panic("BUG in harness: unknown family in " + file)
			}
			if runOne(*f, cf.Case, true) != nil {
				finish()
				return
			}
		}
	}
	only := os.Getenv("VERIF_ONLY")
	for _, f := range p.Families {
		if only != "" && only != f.Name {
			continue
		}
		n := f.Quick
		if tier == "thorough" {
			n = f.Thorough
		}
		if sc, e := strconv.Atoi(os.Getenv("VERIF_SCALE")); e == nil {
			n = (n*sc + 99) / 100 // percents, for development
		}
		share := n / nshards
		if shard < n%nshards {
			share++
		}
		if share == 0 {
			continue
		}
		s := hash(p.ID, f.Name, fmt.Sprint(seed), fmt.Sprint(shard), fmt.Sprint(nshards))
		if s == 0 {
			s = 1
		}
		flag.Set("rapid.checks", strconv.Itoa(share))
		flag.Set("rapid.seed", strconv.FormatUint(s, 10))
		failing := false
		tb := &fakeTB{}
		prop := func(t *rapid.T) {
			if !failing && time.Now().After(deadline) {
				res.Skipped++
				return
			}
			raw := f.Gen(t)
			if runOne(f, raw, !failing) != nil {
				failing = true
				t.Fatalf("violation")
			}
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(failNow); !ok {
						panic(p)
					}
				}
			}()
			rapid.Check(tb, prop)
		}()
		if failing {
			finish()
			return
		}
		if tb.failed {
			res.Error = "rapid failed in the generator of " + f.Name
			finish()
			return
		}
	}
	finish()
}

func FindFamily(p *Prop, name string) *Family {
	for i := range p.Families {
		if p.Families[i].Name == name {
			return &p.Families[i]
		}
	}
	return nil
}

// RunReplay runs one saved case.
func RunReplay(p *Prop, cf CaseFile) error {
	Watchdog()
	Mute()
	f := FindFamily(p, cf.Family)
	if f == nil {
		panic("BUG in harness: unknown family " + cf.Family)
	}
	begin()
	defer end()
	return Guard(*f, cf.Case, &R{})
}
