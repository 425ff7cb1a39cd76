// Command drive replays behaviours of the TLA+ specifications (one JSON document
// per line) against the real code and compares every predicted observation.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// replayFunc replays one behaviour. It returns the amount of compared observations
// and a description of the first divergence ("" if there is none).
type replayFunc func(line []byte, rng *rng, idx int) (obs int, diverged string)

var kinds = map[string]replayFunc{}

type violation struct {
	Index    int             `json:"index"`
	Message  string          `json:"message"`
	Behavior json.RawMessage `json:"behavior"`
	Seed     int64           `json:"seed"`
	Kind     string          `json:"kind"`
}

type result struct {
	Replayed     int             `json:"replayed"`
	Observations int64           `json:"observations"`
	Violations   []violation     `json:"violations"`
	Violated     int             `json:"violated"`
	Sample       json.RawMessage `json:"sample,omitempty"`
}

var (
	outPath string
	seed    int64
	kind    string
	base    int
)

func main() {
	in := flag.String("in", "", "behaviours, one JSON per line")
	flag.StringVar(&outPath, "out", "", "result file")
	flag.StringVar(&kind, "kind", "", "kind of behaviours")
	flag.Int64Var(&seed, "seed", 1, "seed for concretisation of opaque payloads")
	workers := flag.Int("workers", runtime.NumCPU(), "amount of workers")
	record := flag.String("record", "", "record a trace of the real code instead of replaying")
	n := flag.Int("n", 0, "amount of recorded runs")
	flag.IntVar(&base, "base", 0, "index of the first behaviour (for replays)")
	hang := flag.Duration("hang", 100*time.Second, "time after which a call is taken for one which does not terminate")
	flag.Parse()

	if *record != "" {
		f := recorders[*record]
		if f == nil {
			fatal(fmt.Errorf("unknown recorder %q", *record))
		}
		if err := f(outPath, seed, *n); err != nil {
			fatal(err)
		}
		return
	}

	name, v, _ := strings.Cut(kind, ":")
	via, ownOnly = v, name == "props"
	replay := kinds[name]
	if replay == nil {
		fatal(fmt.Errorf("unknown kind %q", kind))
	}
	lines, err := readLines(*in)
	if err != nil {
		fatal(err)
	}

	// behaviours are small; a replay that needs gigabytes is stuck in a loop
	debug.SetGCPercent(200)

	var (
		next int64 = -1
		obs  int64
		mu   sync.Mutex
		res  result
		wg   sync.WaitGroup

		enough atomic.Bool // the verdict is clear
		cur    = make([]atomic.Int64, *workers)
		beg    = make([]atomic.Int64, *workers)
	)
	report := func(idx int, msg string) {
		mu.Lock()
		defer mu.Unlock()
		res.Violated++
		if res.Violated >= 1000 {
			enough.Store(true)
		}
		if len(res.Violations) < 25 {
			res.Violations = append(res.Violations, violation{
				Index: base + idx, Message: msg, Behavior: json.RawMessage(lines[idx]), Seed: seed, Kind: kind,
			})
		}
	}
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(lines) || enough.Load() {
					beg[w].Store(0)
					return
				}
				cur[w].Store(int64(i))
				beg[w].Store(time.Now().UnixNano())
				o, msg := protect(replay, lines[i], i)
				atomic.AddInt64(&obs, int64(o))
				if msg != "" {
					report(i, msg)
				}
			}
		}(w)
	}
	finish := make(chan struct{})
	go func() { wg.Wait(); close(finish) }()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	stuck := false
loop:
	for {
		select {
		case <-finish:
			break loop
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			for w := range beg {
				b := beg[w].Load()
				if b == 0 {
					continue
				}
				d := time.Since(time.Unix(0, b))
				if d > *hang || (ms.HeapAlloc > 12<<30 && d > 2*time.Second) {
					report(int(cur[w].Load()), fmt.Sprintf("no answer within %v (heap %d MB): the call does not terminate", d, ms.HeapAlloc>>20))
					stuck = true
				}
			}
			if stuck {
				break loop
			}
		}
	}
	mu.Lock()
	res.Replayed = len(lines)
	if stuck {
		res.Replayed = int(atomic.LoadInt64(&next))
	}
	res.Observations = atomic.LoadInt64(&obs)
	if len(lines) > 0 {
		res.Sample = lines[len(lines)/2]
	}
	data, err := json.Marshal(&res)
	mu.Unlock()
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(outPath, data, 0o644); err != nil {
		fatal(err)
	}
}

func protect(f replayFunc, line []byte, idx int) (obs int, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				if os.Getenv("DRIVE_LENIENT") != "" { // for development only
					msg = "HARNESS " + he.Error()
					return
				}
				fatal(fmt.Errorf("behaviour %d (%s): %w", idx, line, he.error))
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return f(line, newRNG(seed, base+idx), base+idx)
}

// harnessError is a failure of the harness itself: never a verdict.
type harnessError struct{ error }

func must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "drive:", err)
	os.Exit(3)
}

func readLines(path string) ([][]byte, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	var lines [][]byte
	for sc.Scan() {
		lines = append(lines, append([]byte(nil), sc.Bytes()...))
	}
	return lines, sc.Err()
}

// rng is a small deterministic generator: the same seed and behaviour give the same concretisation.
type rng struct{ s uint64 }

func newRNG(seed int64, idx int) *rng {
	r := &rng{s: uint64(seed)*0x9E3779B97F4A7C15 + uint64(idx+1)*0xBF58476D1CE4E5B9}
	r.next()
	r.next()
	return r
}

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *rng) intn(n int) int { return int(r.next() % uint64(n)) }

var recorders = map[string]func(out string, seed int64, n int) error{}
