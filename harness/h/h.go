// Package h is the shared part of the checks: case accounting, failure
// reporting, ivy sessions and the reference value model.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Stat is what one test of one shard covered. The driver merges shards.
type Stat struct {
	Property    string         `json:"property"`
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Classes     map[string]int `json:"classes"`
	Hashes      []uint64       `json:"hashes"`
	Samples     []string       `json:"samples"`
	Failed      bool           `json:"failed"`
}

// Failure is the replay record of one violation.
type Failure struct {
	Property string   `json:"property"`
	Test     string   `json:"test"`
	Message  string   `json:"message"`
	Steps    []string `json:"steps"` // what was fed to ivy, in order
	Seed     string   `json:"seed"`
}

var (
	outDir = os.Getenv("VERIF_OUT") // shard scratch directory
	scale  = envFloat("VERIF_SCALE", 1)
	// Thorough reports whether this is the thorough tier.
	Thorough = os.Getenv("VERIF_TIER") == "thorough"
)

func envFloat(name string, def float64) float64 {
	if f, err := strconv.ParseFloat(os.Getenv(name), 64); err == nil {
		return f
	}
	return def
}

// C is one running case.
type C struct {
	*rapid.T
	run   *runner
	steps []string
	key   strings.Builder
	triv  bool
}

type runner struct {
	prop, test string
	stat       *Stat
	seen       map[uint64]bool
	failed     bool
	last       *C
}

var cur struct {
	sync.Mutex
	start time.Time
	cpu   time.Duration
	c     *C
	r     *runner
}

// cpu is the CPU time this process has used.
func cpu() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

// watchdog ends the process when one case runs away: it burns CPU time far beyond
// anything a case needs (exit 77), or it sits still without using the CPU (exit 78).
// Cases take milliseconds; CPU time rather than wall time keeps a busy machine out of it.
func watchdog() {
	limit := time.Duration(envFloat("VERIF_CASE_CPU", 60)) * time.Second
	still := time.Duration(envFloat("VERIF_CASE_STILL", 100)) * time.Second
	for {
		time.Sleep(time.Second)
		cur.Lock()
		if cur.c != nil {
			used, wall := cpu()-cur.cpu, time.Since(cur.start)
			code := 0
			if used > limit {
				code = 77
			} else if wall > still && used < 2*time.Second {
				code = 78
			}
			if code != 0 {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				os.WriteFile(filepath.Join(outDir, "hang.txt"), buf[:n], 0o644)
				fmt.Fprintf(os.Stderr, "WATCHDOG: a case of %s did not end (cpu %v, wall %v)\n", cur.r.test, used, wall)
				os.Exit(code)
			}
		}
		cur.Unlock()
	}
}

var startWatch sync.Once

// Check runs f on about n generated cases (n is scaled by the tier and split
// over the shards by the driver). rule says how cases are made and what makes one
// non-trivial; a case calls c.Key(...) to declare itself non-trivial.
func Check(t *testing.T, prop string, n int, rule string, f func(c *C)) {
	t.Helper()
	startWatch.Do(func() { go watchdog() })
	n = int(float64(n) * scale)
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	r := &runner{prop: prop, test: t.Name(), seen: map[uint64]bool{}}
	r.stat = &Stat{Property: prop, Test: t.Name(), Rule: rule, Classes: map[string]int{}}
	defer func() {
		r.stat.Failed = t.Failed()
		for h := range r.seen {
			r.stat.Hashes = append(r.stat.Hashes, h)
		}
		sort.Slice(r.stat.Hashes, func(i, j int) bool { return r.stat.Hashes[i] < r.stat.Hashes[j] })
		b, _ := json.Marshal(r.stat)
		if outDir != "" {
			os.WriteFile(filepath.Join(outDir, "stat-"+t.Name()+".json"), b, 0o644)
		} else {
			t.Logf("evaluations %d distinct nontrivial %d classes %v", r.stat.Evaluations, len(r.seen), r.stat.Classes)
			for _, s := range r.stat.Samples {
				t.Logf("sample: %s", s)
			}
		}
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := &C{T: rt, run: r}
		cur.Lock()
		cur.c, cur.r, cur.start, cur.cpu = c, r, time.Now(), cpu()
		cur.Unlock()
		defer func() {
			cur.Lock()
			cur.c = nil
			cur.Unlock()
			if e := recover(); e != nil {
				if isRapid(e) {
					panic(e)
				}
				// A Go panic that escaped from the code under test (or the harness).
				c.fail(fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack())))
			}
		}()
		if !r.failed {
			r.stat.Evaluations++
		}
		f(c)
		if !r.failed && c.key.Len() > 0 {
			hh := fnv.New64a()
			hh.Write([]byte(t.Name()))
			hh.Write([]byte(c.key.String()))
			k := hh.Sum64()
			if !r.seen[k] {
				r.seen[k] = true
				if n := len(r.seen); n <= 3 || n == 50 || n == 500 {
					s := c.key.String()
					if len(s) > 600 {
						s = s[:600] + "…"
					}
					r.stat.Samples = append(r.stat.Samples, s)
				}
			}
		}
	})
}

func isRapid(e any) bool {
	s := fmt.Sprintf("%T", e)
	return strings.HasPrefix(s, "rapid.")
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/harness/") || strings.HasPrefix(l, "robpike.io") {
			keep = append(keep, l)
		}
	}
	if len(keep) > 16 {
		keep = keep[:16]
	}
	return strings.Join(keep, "\n")
}

var (
	journal    *os.File
	journalOf  *C
	journalEnd int64
)

// Step records what is about to be given to the code under test. It is written to
// the journal so that a death of the whole process can be attributed.
func (c *C) Step(s string) {
	c.steps = append(c.steps, s)
	if outDir == "" {
		return
	}
	if journal == nil {
		journal, _ = os.Create(filepath.Join(outDir, "journal.json"))
	}
	// The journal is one JSON object, rewritten from its end: each step overwrites the
	// closing brackets.
	var b []byte
	if len(c.steps) == 1 || journalOf != c {
		journalOf, journalEnd = c, 0
		b = append(b, fmt.Sprintf(`{"property":%q,"test":%q,"message":"process died while running this case","steps":[`, c.run.prop, c.run.test)...)
		for i, s := range c.steps {
			if i > 0 {
				b = append(b, ',')
			}
			j, _ := json.Marshal(s)
			b = append(b, j...)
		}
	} else {
		j, _ := json.Marshal(s)
		b = append(append(b, ','), j...)
	}
	n := len(b)
	journal.WriteAt(append(b, "]}\x00"...), journalEnd)
	journalEnd += int64(n)
}

// Key declares the case non-trivial and identifies it; calls accumulate.
func (c *C) Key(s string) {
	if c.key.Len() > 0 {
		c.key.WriteString("\n")
	}
	c.key.WriteString(s)
}

// Class counts the case in a class, for reading the distribution.
func (c *C) Class(s string) {
	if !c.run.failed {
		c.run.stat.Classes[s]++
	}
}

func (c *C) fail(msg string) {
	c.run.failed = true
	if outDir != "" {
		b, _ := json.MarshalIndent(Failure{Property: c.run.prop, Test: c.run.test, Message: msg, Steps: c.steps, Seed: os.Getenv("VERIF_SHARD_SEED")}, "", " ")
		os.WriteFile(filepath.Join(outDir, "failure-"+c.run.test+".json"), b, 0o644)
	}
	c.T.Fatalf("%s\nsteps:\n%s", msg, strings.Join(c.steps, "\n"))
}

// Fail reports a violation of the property by this case.
func (c *C) Fail(format string, args ...any) { c.fail(fmt.Sprintf(format, args...)) }

var boolGen = rapid.Bool()

// Idx draws an index below n, uniformly, shrinking towards 0.
func (c *C) Idx(n int) int {
	if n <= 1 {
		return 0
	}
	bits := 0
	for 1<<bits < n {
		bits++
	}
	for try := 0; ; try++ {
		u := 0
		for i := 0; i < bits; i++ {
			u <<= 1
			if boolGen.Draw(c.T, "b") {
				u |= 1
			}
		}
		if u < n {
			return u
		}
		if try > 30 {
			return u % n
		}
	}
}

// Range draws an integer in [lo,hi], uniformly, shrinking towards lo.
func (c *C) Range(lo, hi int) int { return lo + c.Idx(hi-lo+1) }

// Bool is a fair coin that shrinks to false.
func (c *C) Bool() bool { return boolGen.Draw(c.T, "b") }

// Prob is true with probability about k/16, shrinking to false.
func (c *C) Prob(k int) bool { return c.Idx(16) >= 16-k }

// Pick draws one of its arguments uniformly, shrinking to the first.
func Pick[T any](c *C, xs ...T) T { return xs[c.Idx(len(xs))] }

// Known runs the history of a known finding against the code under test. The
// driver excuses it only if the finding is listed in known_findings.jsonl.
func Known(t *testing.T, prop, id, what string, fails func(c *C) bool) {
	Check(t, prop, 1, "the history of a known finding", func(c *C) {
		if fails(c) {
			fmt.Printf("KNOWN-FINDING: property=%s id=%s %s\n", prop, id, what)
		}
	})
}
