// Command harness replays the properties against the real library through its exported API, each against an
// executable reference. After a failed proof obligation it searches for an input on which the code fails; it is
// also the bounded stand-in for the functions that are out of the verifier's reach. Nothing here counts as proved.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Ctx struct {
	prop, mode, tier string
	seed             int64
	deadline         time.Time
	evals            int64
	failed           int32
	mu               sync.Mutex
	seen             sync.Map
	distinct         int64
	samples          []string
}

type prop struct {
	enum   func(c *Ctx)                    // deterministic enumeration
	step   func(c *Ctx, r *rand.Rand)      // one random case
	single bool                            // the random cases change process-wide state
}

var props = map[string]*prop{}

// fail reports a counterexample and ends the process
func (c *Ctx) fail(format string, a ...interface{}) {
	if !atomic.CompareAndSwapInt32(&c.failed, 0, 1) {
		select {}
	}
	fmt.Printf("COUNTEREXAMPLE property=%s\n%s\n", c.prop, fmt.Sprintf(format, a...))
	os.Exit(1)
}

// try runs one case; a panic or a hang in it is a counterexample
func (c *Ctx) try(desc func() string, f func()) {
	n := atomic.AddInt64(&c.evals, 1)
	d := ""
	if n%4096 == 1 || n < 200 {
		d = desc()
		c.note(d)
	}
	t := time.AfterFunc(20*time.Second, func() {
		c.fail("the case does not return within 20 s: %s", desc())
	})
	defer t.Stop()
	defer func() {
		if e := recover(); e != nil {
			c.fail("panic: %v\ncase: %s\n%s", e, desc(), clip(string(debug.Stack()), 1500))
		}
	}()
	f()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *Ctx) note(d string) {
	if _, dup := c.seen.LoadOrStore(d, true); !dup {
		atomic.AddInt64(&c.distinct, 1)
		c.mu.Lock()
		if len(c.samples) < 5 {
			c.samples = append(c.samples, clip(d, 200))
		}
		c.mu.Unlock()
	}
}

func (c *Ctx) out() bool { return time.Now().After(c.deadline) }

func main() {
	if len(os.Args) < 4 {
		fmt.Println("usage: harness PROP bounded|search TIER")
		os.Exit(3)
	}
	debug.SetMaxStack(512 << 20)
	c := &Ctx{prop: os.Args[1], mode: os.Args[2], tier: os.Args[3], seed: 1}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &c.seed)
	limit := 8 * time.Second
	if c.mode == "search" {
		limit = 45 * time.Second
	}
	if c.tier == "thorough" {
		limit *= 3
	}
	p := props[c.prop]
	if p == nil {
		fmt.Println("no harness for", c.prop)
		return
	}
	t0 := time.Now()
	c.deadline = t0.Add(limit)
	if p.enum != nil {
		p.enum(c)
	}
	if p.step != nil {
		n := runtime.NumCPU()
		if n > 6 {
			n = 6
		}
		if p.single {
			n = 1
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(c.seed*1000 + int64(i)))
				for k := 0; !c.out(); k++ {
					if c.mode == "bounded" && k > 60000 {
						return
					}
					p.step(c, r)
				}
			}(i)
		}
		wg.Wait()
	}
	info := map[string]interface{}{"mode": c.mode, "evaluations": c.evals, "sampled_distinct": c.distinct, "samples": c.samples, "seconds": time.Since(t0).Seconds(),
		"rule": "random and enumerated cases of the property, each compared with an executable reference; counts are cases run"}
	b, _ := json.Marshal(info)
	fmt.Printf("HARNESS-INFO %s\n", b)
	fmt.Println("no failing input found in", atomic.LoadInt64(&c.evals), "cases")
}

func q(s string) string {
	if len(s) > 3000 {
		return fmt.Sprintf("%q...(%d bytes)", s[:3000], len(s))
	}
	return fmt.Sprintf("%q", s)
}

var _ = strings.ToLower
