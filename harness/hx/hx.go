// Package hx runs the property checks: it drives rapid with a seed derived
// from VERIF_SEED, splits the cases over shards, counts and samples what was
// generated, and tells hangs and inconclusive runs apart from violations.
//
// The driver (check.py) reads the report this package writes to $HX_OUT.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Report is what a shard tells the driver.
type Report struct {
	Evaluations int64            `json:"evaluations"`
	NonTrivial  int64            `json:"nontrivial"`
	Hashes      []uint64         `json:"hashes"`
	Classes     map[string]int64 `json:"classes"`
	Rules       []string         `json:"rules"`
	Samples     []string         `json:"samples"`
	Notes       []string         `json:"notes"`
}

var (
	mu      sync.Mutex
	rep     = Report{Classes: map[string]int64{}}
	seen    = map[uint64]bool{}
	failing atomic.Bool // a case failed; rapid is shrinking

	Tier   = env("HX_TIER", "quick")
	seed   = envInt("HX_SEED", 1)
	Shard  = int(envInt("HX_SHARD", 0))
	Shards = int(envInt("HX_SHARDS", 1))
	Scale  = int(envInt("HX_SCALE", 1)) // of the quick budgets
	out    = os.Getenv("HX_OUT")
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

// Main is the TestMain of every check package.
func Main(m *testing.M) {
	flag.Parse()
	log.SetOutput(io.Discard) // gosip logs every message it drops
	rc := m.Run()
	flush()
	os.Exit(rc)
}

func flush() {
	if out == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	rep.Hashes = rep.Hashes[:0]
	for h := range seen {
		rep.Hashes = append(rep.Hashes, h)
	}
	b, err := json.Marshal(&rep)
	if err == nil {
		err = os.WriteFile(out+".tmp", b, 0644)
	}
	if err == nil {
		err = os.Rename(out+".tmp", out)
	}
	if err != nil {
		fmt.Println("HX-ERROR cannot write report:", err)
		os.Exit(9)
	}
}

// Budget is the number of cases of a property over all shards.
type Budget struct {
	Quick, Thorough int
	Each            int // of a property that takes its time: cases of each shard, eight times as many in the thorough tier
}

// Pauses draws how long to wait between the steps of a slow case: nine seconds
// in all, over a minute more in the thorough tier.
func Pauses(t *rapid.T) (res []time.Duration) {
	ms := []int{0, 20, 60, 150, 300, 600, 1200, 2400, 4500}
	if Tier == "thorough" {
		ms = append(ms, 10000, 20000, 40000)
	}
	for _, n := range rapid.Permutation(ms).Draw(t, "pauses") {
		res = append(res, time.Duration(n)*time.Millisecond)
	}
	return res
}

// Failer is a test that may fail.
type Failer interface {
	Fatalf(format string, args ...any)
}

// Case collects facts about one generated case.
type Case struct {
	test    string
	keys    []string
	classes []string
	sample  func() string
}

// NonTrivial says that the case is non-trivial by the rule of its property;
// the keys given tell the case from all others.
func (c *Case) NonTrivial(key string) { c.keys = append(c.keys, key) }

// Class counts the case as one of the named class.
func (c *Case) Class(names ...string) { c.classes = append(c.classes, names...) }

// Sample provides a description of the case.
func (c *Case) Sample(f func() string) { c.sample = f }

// Samplef is Sample with a constant.
func (c *Case) Samplef(format string, args ...any) {
	c.sample = func() string { return fmt.Sprintf(format, args...) }
}

func hash(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// Seed gives the seed of a test in this shard, never zero.
func Seed(name string) uint64 {
	s := hash(fmt.Sprintf("%d/%s/%d", seed, name, Shard))
	if s == 0 {
		s = 1
	}
	return s
}

// Count gives the number of cases this shard has to run.
func (b Budget) Count() int {
	if os.Getenv("HX_REPLAY") == "1" {
		return 1 // the replay file comes first
	}
	if b.Each > 0 && Tier == "thorough" {
		return b.Each * 8
	}
	if b.Each > 0 {
		return b.Each
	}
	n := b.Quick * Scale
	if Tier == "thorough" {
		n = max(n, b.Thorough)
	}
	per := n / Shards
	if Shard < n%Shards {
		per++
	}
	return per
}

var (
	caseStart atomic.Int64
	caseCPU   atomic.Int64
	watchdog  sync.Once
)

const hangLimit = 60 * time.Second

// heapLimit is far above what any case needs.
const heapLimit = 2 << 30

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// startWatchdog ends the process if a single case burns a minute of CPU or
// fills the memory: the cases of these checks take microseconds to a few
// seconds of mostly waiting, and kilobytes.
func startWatchdog() {
	watchdog.Do(func() {
		go func() {
			heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
			for {
				time.Sleep(100 * time.Millisecond)
				s := caseStart.Load()
				if s == 0 {
					continue
				}
				if metrics.Read(heap); heap[0].Value.Uint64() > heapLimit {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					fmt.Printf("HX-HANG a case has filled %d bytes of memory\n%s\n", heap[0].Value.Uint64(), buf)
					flush()
					os.Exit(7)
				}
				if time.Since(time.Unix(0, s)) < hangLimit {
					continue
				}
				if cpuTime()-time.Duration(caseCPU.Load()) < hangLimit/2 {
					continue
				}
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Printf("HX-HANG a single case has been running for over %s\n%s\n", hangLimit, buf)
				flush()
				os.Exit(7)
			}
		}()
	})
}

// Run checks a property over b cases. The rule says how cases are made and
// which of them are non-trivial.
func Run(t *testing.T, b Budget, rule string, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	n := b.Count()
	mu.Lock()
	rep.Rules = append(rep.Rules, t.Name()+": "+rule)
	mu.Unlock()
	if n == 0 {
		return
	}
	startWatchdog()
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(Seed(t.Name()), 10))
	if flag.Lookup("rapid.shrinktime").Value.String() == "30s" {
		flag.Set("rapid.shrinktime", "15s")
	}
	samples := 0
	evals := int64(0)
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{test: t.Name()}
		ok := false
		caseCPU.Store(int64(cpuTime()))
		caseStart.Store(time.Now().UnixNano())
		defer func() {
			caseStart.Store(0)
			if !ok {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			evals++
			rep.Evaluations++
			for _, cl := range c.classes {
				rep.Classes[t.Name()+"/"+cl]++
			}
			if len(c.keys) > 0 {
				rep.NonTrivial++
				h := hash(t.Name() + "\x00" + strings.Join(c.keys, "\x00"))
				if len(seen) < 400000 {
					seen[h] = true
				}
			}
			// Take a few samples, spread over the run.
			if c.sample != nil && len(c.keys) > 0 && Shard == 0 && samples < 3 &&
				evals >= int64(samples)*int64(n)/3 {
				s := c.sample()
				if len(s) > 1200 {
					s = s[:1200] + "..."
				}
				rep.Samples = append(rep.Samples, t.Name()+": "+s)
				samples++
			}
		}()
		prop(rt, c)
		ok = true
	})
	flush()
}

// Exhaustive counts cases that are enumerated rather than generated.
func Exhaustive(t *testing.T, rule string, f func(c func(key string))) {
	t.Helper()
	mu.Lock()
	rep.Rules = append(rep.Rules, t.Name()+": "+rule)
	mu.Unlock()
	if Shard != 0 {
		return
	}
	startWatchdog()
	f(func(key string) {
		mu.Lock()
		rep.Evaluations++
		if key != "" {
			rep.NonTrivial++
			seen[hash(t.Name()+"\x00"+key)] = true
		}
		mu.Unlock()
	})
	flush()
}

// Failf reports a violation found outside of a generated case.
func Failf(t *testing.T, format string, args ...any) {
	t.Helper()
	fmt.Printf("HX-VIOLATION %s: %s\n", t.Name(), fmt.Sprintf(format, args...))
	t.Fatalf(format, args...)
}

// Note adds a remark to the evidence.
func Note(format string, args ...any) {
	mu.Lock()
	rep.Notes = append(rep.Notes, fmt.Sprintf(format, args...))
	mu.Unlock()
}

// Inconclusive ends the run without a verdict.
func Inconclusive(format string, args ...any) {
	fmt.Printf("HX-INCONCLUSIVE %s\n", fmt.Sprintf(format, args...))
	flush()
	os.Exit(9)
}

var (
	trailOnce sync.Once
	trail     *os.File
	trailMu   sync.Mutex
)

// NewTrail begins the record of what a case does, which is left for the
// driver if the case takes the process down.
func NewTrail() {
	trailOnce.Do(func() {
		if out != "" {
			trail, _ = os.Create(out + ".trail")
		}
	})
	trailMu.Lock()
	defer trailMu.Unlock()
	if trail != nil {
		trail.Truncate(0)
		trail.Seek(0, io.SeekStart)
	}
}

// Trail adds a line to it.
func Trail(s string) {
	trailMu.Lock()
	defer trailMu.Unlock()
	if trail != nil {
		trail.WriteString(s + "\n")
	}
}

// OwnSocket tells if a UDP socket of this process has that port.
func OwnSocket(port int) bool {
	mine := map[string]bool{}
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fds {
		l, _ := os.Readlink("/proc/self/fd/" + f.Name())
		if i, ok := strings.CutPrefix(l, "socket:["); ok {
			mine[strings.TrimSuffix(i, "]")] = true
		}
	}
	for _, n := range []string{"/proc/self/net/udp", "/proc/self/net/udp6"} {
		b, _ := os.ReadFile(n)
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) > 9 && strings.HasSuffix(f[1], fmt.Sprintf(":%04X", port)) && mine[f[9]] {
				return true
			}
		}
	}
	return false
}
