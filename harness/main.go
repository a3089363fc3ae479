package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one property: a case generator with its oracle.
type Prop struct {
	id              string
	quick, thorough int // numbers of cases
	rule            string
	assumptions     []string
	run             func(c *Ctx)
	shards          int // 0: one per core
	setup           func() error
	minEvents       []string // events without which a run decides nothing
}

// Ctx is one case.
type Ctx struct {
	*Rng
	i    int
	w    *worker
	desc []string
	cut  bool
}

type Violation struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Case     int      `json:"case"`
	Message  string   `json:"message"`
	Details  []string `json:"details"`
	Replay   string   `json:"replay_cmd"`
}

type result struct {
	Evals      int
	Events     map[string]int
	Sigs       []uint64
	Samples    []string
	Violations []Violation
}

type worker struct {
	p    *Prop
	seed uint64
	tier string
	res  result
	sigs map[uint64]bool
	cur  int64
	tick int64
	stop bool // something still runs that does not end
	warm bool // not the first case of this process
}

func (c *Ctx) event(name string)         { c.w.res.Events[name]++ }
func (c *Ctx) events(name string, n int) { c.w.res.Events[name] += n }
func (c *Ctx) eval()                     { c.w.res.Evals++; atomic.AddInt64(&c.w.tick, 1) }

func (c *Ctx) merge(ev map[string]int) {
	for k, n := range ev {
		c.w.res.Events[k] += n
	}
}

// nontrivial counts a case as distinct and non-trivial by its signature.
func (c *Ctx) nontrivial(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.w.sigs[h.Sum64()] = true
}

func (c *Ctx) note(format string, args ...interface{}) {
	c.desc = append(c.desc, fmt.Sprintf(format, args...))
}

func (c *Ctx) sample(format string, args ...interface{}) {
	if len(c.w.res.Samples) < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 4000 {
			s = s[:4000] + " ..."
		}

		c.w.res.Samples = append(c.w.res.Samples, s)
	}
}

func (c *Ctx) fail(format string, args ...interface{}) {
	if len(c.w.res.Violations) < 20 {
		c.w.res.Violations = append(c.w.res.Violations, Violation{
			Property: c.w.p.id, Seed: c.w.seed, Tier: c.w.tier, Case: c.i,
			Message: fmt.Sprintf(format, args...),
			Details: append([]string{}, c.desc...),
			Replay:  fmt.Sprintf("/verif/check.sh %s replay %d %d", c.w.p.id, c.w.seed, c.i),
		})
	}

	c.cut = true
}

func runWorker(p *Prop, seed uint64, tier string, from, step, n int, out, progress string) {
	w := &worker{p: p, seed: seed, tier: tier, sigs: map[uint64]bool{}}
	w.res.Events = map[string]int{}

	pf, err := os.Create(progress)
	if err != nil {
		fatal(err)
	}

	// A case takes milliseconds. One that does not end within minutes does not
	// end: the process stops with the stacks and the parent reports the case.
	go func() {
		last, since := int64(-1), time.Now()

		for {
			time.Sleep(2 * time.Second)

			cur := atomic.LoadInt64(&w.cur)<<32 + atomic.LoadInt64(&w.tick)
			if cur != last {
				last, since = cur, time.Now()
			} else if time.Since(since) > 4*time.Minute {
				buf := make([]byte, 1<<16)
				fmt.Fprintf(os.Stderr, "NO-PROGRESS\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(97)
			}
		}
	}()

	// One that takes gigabytes does not end either: it is stopped before the
	// kernel picks a process.
	go func() {
		var s runtime.MemStats

		for {
			time.Sleep(500 * time.Millisecond)
			runtime.ReadMemStats(&s)

			if s.HeapAlloc > 2500<<20 {
				buf := make([]byte, 1<<16)
				fmt.Fprintf(os.Stderr, "NO-PROGRESS: %d bytes of live memory\n%s\n", s.HeapAlloc, buf[:runtime.Stack(buf, true)])
				os.Exit(97)
			}
		}
	}()

	var b [8]byte

	for i := from; i < n; i += step {
		atomic.StoreInt64(&w.cur, int64(i)+1)
		binary.LittleEndian.PutUint64(b[:], uint64(i))
		_, _ = pf.WriteAt(b[:], 0)

		c := &Ctx{Rng: newRng(seed, p.id, i), i: i, w: w}
		p.run(c)

		if w.stop || len(w.res.Violations) >= 20 {
			break
		}
	}

	for s := range w.sigs {
		w.res.Sigs = append(w.res.Sigs, s)
	}

	data, err := json.Marshal(w.res)
	if err != nil {
		fatal(err)
	}

	if err = ioutil.WriteFile(out, data, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "monitor:", err)
	os.Exit(2)
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        uint64                 `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	root := flag.String("root", "/verif", "where evidence and replays go")
	one := flag.Int("case", -1, "replay this case only")
	shard := flag.String("shard", "", "k/n, for worker processes")
	out := flag.String("out", "", "for worker processes")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()

	props := map[string]*Prop{}

	for _, p := range allProps() {
		props[p.id] = p
	}

	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}

		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))

		return
	}

	p := props[*prop]
	if p == nil {
		fatal(fmt.Errorf("no property %q", *prop))
	}

	n := p.quick
	if *tier == "thorough" {
		n = p.thorough
	}

	if p.setup != nil && (*shard != "" || *one >= 0) {
		if err := p.setup(); err != nil {
			fatal(err)
		}
	}

	if *shard != "" {
		var k, of int
		if _, err := fmt.Sscanf(*shard, "%d/%d", &k, &of); err != nil {
			fatal(err)
		}

		runWorker(p, *seed, *tier, k, of, n, *out, *out+".progress")

		return
	}

	if *one >= 0 {
		w := &worker{p: p, seed: *seed, tier: *tier, sigs: map[uint64]bool{}}
		w.res.Events = map[string]int{}
		c := &Ctx{Rng: newRng(*seed, p.id, *one), i: *one, w: w}
		p.run(c)

		for _, d := range c.desc {
			fmt.Println(d)
		}

		for _, v := range w.res.Violations {
			fmt.Println("FAILED:", v.Message)
		}

		if len(w.res.Violations) > 0 {
			os.Exit(1)
		}

		fmt.Println("held")

		return
	}

	os.Exit(parent(p, *seed, *tier, n, *root))
}

func parent(p *Prop, seed uint64, tier string, n int, root string) int {
	start := time.Now()

	dir, err := ioutil.TempDir("", "verif-run-")
	if err != nil {
		fatal(err)
	}

	defer os.RemoveAll(dir)

	shards := p.shards
	if shards == 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
	}

	if shards > n {
		shards = n
	}

	results := make([]result, shards)
	crashes := make([]string, shards)
	crashCase := make([]int, shards)
	hard := make([]error, shards)

	var wg sync.WaitGroup

	// more shards than that are processes one after another
	slots := make(chan bool, 8)

	for k := 0; k < shards; k++ {
		wg.Add(1)

		go func(k int) {
			defer wg.Done()

			slots <- true
			defer func() { <-slots }()

			out := filepath.Join(dir, strconv.Itoa(k))
			logName := out + ".log"
			logFile, err := os.Create(logName)

			if err != nil {
				hard[k] = err
				return
			}

			cmd := exec.Command(os.Args[0], "-prop", p.id, "-tier", tier, "-seed", fmt.Sprint(seed),
				"-shard", fmt.Sprintf("%d/%d", k, shards), "-out", out)
			cmd.Stdout, cmd.Stderr = logFile, logFile
			runErr := cmd.Run()
			logFile.Close()

			log, _ := ioutil.ReadFile(logName)
			text := string(log)

			crash := strings.Contains(text, "WARNING: DATA RACE") || strings.Contains(text, "fatal error:") ||
				strings.Contains(text, "\npanic: ") || strings.HasPrefix(text, "panic: ") ||
				strings.Contains(text, "NO-PROGRESS")

			if crash {
				if len(text) > 20000 {
					text = text[:20000]
				}

				crashes[k] = text

				if b, err := ioutil.ReadFile(out + ".progress"); err == nil && len(b) == 8 {
					crashCase[k] = int(binary.LittleEndian.Uint64(b))
				}
			}

			data, err := ioutil.ReadFile(out)
			if err == nil {
				err = json.Unmarshal(data, &results[k])
			}

			if err != nil && !crash {
				hard[k] = fmt.Errorf("worker %d: %v, %v: %s", k, runErr, err, text)
			}
		}(k)
	}

	wg.Wait()

	total := result{Events: map[string]int{}}
	sigs := map[uint64]bool{}

	for k, r := range results {
		if hard[k] != nil {
			fmt.Fprintln(os.Stderr, "monitor:", hard[k])
			return 2
		}

		total.Evals += r.Evals
		for e, c := range r.Events {
			total.Events[e] += c
		}

		for _, s := range r.Sigs {
			sigs[s] = true
		}

		if len(total.Samples) < 4 {
			total.Samples = append(total.Samples, r.Samples...)
		}

		total.Violations = append(total.Violations, r.Violations...)

		if crashes[k] != "" {
			first := "the process under test crashed"

			switch {
			case strings.Contains(crashes[k], "DATA RACE"):
				first = "data race reported by the race detector"
			case strings.Contains(crashes[k], "NO-PROGRESS"):
				first = "an operation did not end"
			}

			total.Violations = append(total.Violations, Violation{Property: p.id, Seed: seed, Tier: tier, Case: crashCase[k],
				Message: first, Details: []string{crashes[k]},
				Replay: fmt.Sprintf("/verif/check.sh %s replay %d %d", p.id, seed, crashCase[k])})
		}
	}

	sort.SliceStable(total.Violations, func(a, b int) bool { return total.Violations[a].Case < total.Violations[b].Case })

	samples := make([]interface{}, 0, len(total.Samples))
	for _, s := range total.Samples {
		samples = append(samples, s)
	}

	ev := evidence{Property: p.id, Tier: tier, Seed: seed, Level: "exploration", Assumptions: append([]string{}, p.assumptions...),
		Violations: len(total.Violations), WallS: time.Since(start).Seconds(),
		Coverage: map[string]interface{}{
			"evaluations": total.Evals, "distinct_nontrivial": len(sigs), "rule": p.rule, "samples": samples,
			"cases": n, "observed_events": total.Events, "worker_processes": shards,
		}}
	data, err := json.MarshalIndent(ev, "", " ")

	if err != nil {
		fatal(err)
	}

	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)

	if err = ioutil.WriteFile(filepath.Join(root, "evidence", p.id+".json"), append(data, '\n'), 0o644); err != nil {
		fatal(err)
	}

	if len(total.Violations) > 0 {
		_ = os.MkdirAll(filepath.Join(root, "out"), 0o755)

		for i, v := range total.Violations {
			if i == 5 {
				fmt.Printf("(%d more)\n", len(total.Violations)-5)
				break
			}

			name := filepath.Join(root, "out", fmt.Sprintf("%s-seed%d-case%d-%d.json", p.id, seed, v.Case, i))
			data, _ := json.MarshalIndent(v, "", " ")

			if err = ioutil.WriteFile(name, append(data, '\n'), 0o644); err != nil {
				fatal(err)
			}

			msg := v.Message
			if len(msg) > 600 {
				msg = msg[:600]
			}

			fmt.Println(strings.ReplaceAll(msg, "\n", " | "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, name)
		}

		return 1
	}

	for _, e := range p.minEvents {
		if total.Events[e] == 0 {
			fmt.Fprintf(os.Stderr, "monitor: inconclusive, no event %q was observed\n", e)
			return 2
		}
	}

	if !knownFindings(p.id, filepath.Join(root, "known_findings.txt")) {
		return 2
	}

	fmt.Printf("%s held: %d evaluations in %d cases, %d distinct non-trivial, %.1f s\n", p.id, total.Evals, n, len(sigs), time.Since(start).Seconds())

	return 0
}
