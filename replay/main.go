// Command replay looks for a concrete input on which the compiled program violates a
// property.  It is the replay step of a failed proof and the labelled bounded stand-in
// for the glue no contract reaches; its results are never counted as proved.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type result struct {
	Property string   `json:"property"`
	Cases    int      `json:"cases"`
	Calls    int      `json:"calls"`
	Distinct int      `json:"distinct_calls"`
	Wall     float64  `json:"wall_s"`
	Driver   bool     `json:"api_driver"`
	Fail     *Fail    `json:"fail,omitempty"`
	Samples  []string `json:"samples"`
}

func main() {
	bin := flag.String("bin", "", "gledger binary")
	drv := flag.String("driver", "", "API driver binary")
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 400, "cases")
	maxT := flag.Duration("max", 60*time.Second, "stop after")
	out := flag.String("out", "", "result file")
	only := flag.Int("case", -1, "run one case and print it")
	keepGoing := flag.Bool("all", false, "report every failing case")
	flag.Parse()
	fn := propFns[*prop]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(2)
	}
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "replay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	var mu sync.Mutex
	next := 0
	res := result{Property: *prop, Driver: *drv != ""}
	distinct := map[string]bool{}
	var first *Fail
	var wg sync.WaitGroup
	for w := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := filepath.Join(dir, fmt.Sprint(w))
			os.MkdirAll(d, 0o755)
			x := &X{bin: *bin, drv: *drv, dir: d, tz: []string{"UTC", "America/New_York", "Asia/Tokyo"}[w%3], distinct: map[string]bool{}}
			defer x.stopDriver()
			for {
				mu.Lock()
				i := next
				next++
				stop := i >= *n || time.Since(t0) > *maxT || first != nil && !*keepGoing && i > first.Case
				mu.Unlock()
				if stop {
					break
				}
				if *only >= 0 && i != *only {
					continue
				}
				r := rand.New(rand.NewSource(*seed*1000003 + int64(i)*7919 + int64(hash(*prop))))
				f := fn(r, x, i)
				mu.Lock()
				res.Cases++
				if f != nil {
					f.Property, f.Seed, f.Case = *prop, *seed, i
					if f.Args != nil {
						f.How = "write the files, then run gledger with the command in their directory"
					} else if f.Files != nil {
						f.How = "write the files and read the one named root (parser.Parse, or gledger print)"
					} else {
						f.How = "call the exported API with the request (see /verif/replay/driver)"
					}
					if *keepGoing {
						b, _ := json.MarshalIndent(f, "", " ")
						fmt.Println(string(b))
					}
					if first == nil || i < first.Case {
						first = f
					}
				}
				mu.Unlock()
			}
			mu.Lock()
			res.Calls += x.calls
			for k := range x.distinct {
				distinct[k] = true
				if len(res.Samples) < 3 && len(k) < 600 {
					res.Samples = append(res.Samples, strings.ReplaceAll(k, dir, "DIR"))
				}
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	res.Distinct = len(distinct)
	res.Wall = time.Since(t0).Seconds()
	if first != nil {
		res.Fail = clean(first, dir)
	}
	b, _ := json.MarshalIndent(res, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
	if first != nil {
		os.RemoveAll(dir)
		os.Exit(1)
	}
}

func clean(f *Fail, dir string) *Fail { return f }

func hash(s string) (h uint32) {
	for i := 0; i < len(s); i++ {
		h = h*31 + uint32(s[i])
	}
	return
}
