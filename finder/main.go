// Command finder runs concrete inputs against the code in /repo, judged by
// executable statements of the properties. It is the bounded companion of the
// proofs: it looks for an input to show when an obligation fails.
//
//	finder -prop C01 [-seed 1] [-n 2000] [-case 17] [-trace file]
//
// Output: one JSON line with the counts, and the first violation if any.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Case is one concrete input with its oracle.
type Case struct {
	Desc string       // the input, written out
	Key  string       // identifies the input (defaults to Desc)
	Non  bool         // the case is non-trivial
	Run  func() error // nil if the property holds on the input
}

// Prop generates the cases of a property.
type Prop struct {
	N    int // cases in a quick run
	Gen  func(r *rand.Rand, i int) *Case
	Rule string
}

var props = map[string]*Prop{}

type result struct {
	Property    string   `json:"property"`
	Seed        int64    `json:"seed"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Violation   *viol    `json:"violation,omitempty"`
	Secs        float64  `json:"secs"`
}

type viol struct {
	Case     int    `json:"case"`
	Input    string `json:"input"`
	Observed string `json:"observed"`
	Replay   string `json:"replay"`
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 0, "number of cases (0: the default)")
	mul := flag.Int("mul", 1, "multiply the number of cases")
	only := flag.Int("case", -1, "run only this case")
	trace := flag.String("trace", "", "write the case about to run to this file")
	flag.Parse()
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	total := p.N * *mul
	if *n > 0 {
		total = *n
	}
	res := &result{Property: *prop, Seed: *seed, Rule: p.Rule}
	t0 := time.Now()
	var curDesc atomic.Value
	var curStart, curIx atomic.Int64
	curDesc.Store("")
	finish := func(i int, c string, obs string) {
		res.Violation = &viol{i, c, obs, fmt.Sprintf("finder -prop %s -seed %d -case %d", *prop, *seed, i)}
		res.Secs = time.Since(t0).Seconds()
		json.NewEncoder(os.Stdout).Encode(res)
		os.Exit(0)
	}
	debug.SetMaxStack(256 << 20)
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(100 * time.Millisecond)
			s := curStart.Load()
			if s == 0 {
				continue
			}
			if time.Since(time.Unix(0, s)) > 10*time.Second {
				finish(int(curIx.Load()), curDesc.Load().(string), "no result after 10 s")
			}
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				finish(int(curIx.Load()), curDesc.Load().(string), "more than 3 GB of memory used")
			}
		}
	}()
	seen := map[string]bool{}
	for i := 0; i < total; i++ {
		if *only >= 0 && i != *only {
			continue
		}
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		var c *Case
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Fprintf(os.Stderr, "generator of case %d: %v\n%s", i, e, debug.Stack())
					os.Exit(2)
				}
			}()
			c = p.Gen(r, i)
		}()
		if c == nil {
			continue
		}
		k := c.Key
		if k == "" {
			k = c.Desc
		}
		if c.Non && !seen[k] {
			seen[k] = true
		}
		if len(res.Samples) < 5 && c.Non && i%(total/5+1) >= total/10 && (len(res.Samples) == 0 || i/(total/5+1) >= len(res.Samples)) {
			res.Samples = append(res.Samples, trunc(c.Desc, 600))
		}
		if *trace != "" {
			os.WriteFile(*trace, []byte(fmt.Sprintf("%d\n%s", i, c.Desc)), 0o644)
		}
		curDesc.Store(c.Desc)
		curIx.Store(int64(i))
		curStart.Store(time.Now().UnixNano())
		err := safely(c.Run)
		curStart.Store(0)
		res.Evaluations++
		if err != nil {
			res.Distinct = len(seen)
			finish(i, c.Desc, err.Error())
		}
	}
	res.Distinct = len(seen)
	res.Secs = time.Since(t0).Seconds()
	json.NewEncoder(os.Stdout).Encode(res)
}

func safely(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			at := ""
			for _, l := range st {
				if strings.Contains(l, "/repo/") {
					at = strings.TrimSpace(l)
					break
				}
			}
			err = fmt.Errorf("panic: %v (%s)", e, at)
		}
	}()
	return f()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }
