package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"goclj.verif/mon/gen"
)

// Check is the monitor of one property.
type Check struct {
	ID       string
	Quick    int // number of cases
	Thorough int
	Rule     string // how cases are made and what makes one non-trivial
	Assume   []string
	Level    string // evidence level; default exploration
	Workers  int    // default: number of CPUs
	Init     func(c *Ctx)
	Run      func(c *Ctx, idx int)
	Min      map[string]int64 // counters that must be reached (per quick run), or the run is inconclusive
	CLI      bool
}

var checks = map[string]*Check{}

func register(c *Check) {
	if checks[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	checks[c.ID] = c
}

type Violation struct {
	Property string `json:"property"`
	Idx      int    `json:"idx"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Msg      string `json:"message"`
	Input    string `json:"input,omitempty"`
	Opts     string `json:"options,omitempty"`
	Original string `json:"original_input,omitempty"`
}

// Result is what one worker reports.
type Result struct {
	Evaluations int64
	Counters    map[string]int64
	Samples     []string
	Violations  []Violation
	Known       map[string]string // finding id -> example
	KnownHits   map[string]int64
}

// Ctx is a worker's view of a check run.
type Ctx struct {
	Check *Check
	Seed  int64
	Tier  string
	Dir   string // scratch directory of this worker
	Tool  string // path of the cljfmt binary, for CLI checks

	idx   int
	res   Result
	seen  map[uint64]struct{}
	sets  map[string]map[string]bool
	quiet bool // shrinking: do not record
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Rand is the PRNG of a case; it depends only on the seed, the check and idx.
func (c *Ctx) Rand(idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", c.Seed, c.Check.ID, idx)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (c *Ctx) Count(name string, n int64) {
	if !c.quiet {
		c.res.Counters[name] += n
	}
}

// Case records one evaluated case; key identifies it, nontrivial says whether
// it exercised the property.
func (c *Ctx) Case(key string, nontrivial bool) {
	if c.quiet {
		return
	}
	c.res.Evaluations++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.seen[h.Sum64()] = struct{}{}
		if len(c.res.Samples) < 3 && len(key) < 2000 {
			c.res.Samples = append(c.res.Samples, key)
		}
	}
}

// set is a named set kept for the whole run of this worker.
func (c *Ctx) set(name string) map[string]bool {
	if c.sets == nil {
		c.sets = map[string]map[string]bool{}
	}
	if c.sets[name] == nil {
		c.sets[name] = map[string]bool{}
	}
	return c.sets[name]
}

func (c *Ctx) Violate(msg, input, opts string) {
	c.res.Violations = append(c.res.Violations, Violation{Property: c.Check.ID, Idx: c.idx, Seed: c.Seed, Tier: c.Tier, Msg: msg, Input: input, Opts: opts})
}

func (c *Ctx) Known(id, example string) {
	if c.quiet {
		return
	}
	if _, ok := c.res.Known[id]; !ok {
		c.res.Known[id] = example
	}
	c.res.KnownHits[id]++
}

// Protect runs f and turns a panic raised inside goclj into a message. A panic of the
// harness itself propagates.
func Protect(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			// the frames above the recovering call are those of the panic
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			lines := strings.Split(st, "\n")
			for _, l := range lines {
				if strings.HasPrefix(l, "github.com/cespare/goclj") {
					msg = fmt.Sprintf("panic in goclj: %v\n%s", e, strings.Join(lines[:min(len(lines), 14)], "\n"))
					return
				}
				if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "goclj.verif/") {
					break
				}
			}
			panic(e)
		}
	}()
	f()
	return ""
}

// Text evaluates test on src; a non-empty message is a violation, for which
// the input is minimized first.
func (c *Ctx) Text(src, opts string, test func(src string) string) bool {
	run := func(s string) (m string) {
		if p := Protect(func() { m = test(s) }); p != "" {
			return p
		}
		return m
	}
	msg := run(src)
	if msg == "" {
		return true
	}
	c.quiet = true
	small := shrink(src, func(s string) bool {
		m := run(s)
		return m != "" && msgClass(m) == msgClass(msg)
	})
	msg = run(small)
	c.quiet = false
	c.Violate(msg, small, opts)
	if small != src {
		c.res.Violations[len(c.res.Violations)-1].Original = src
	}
	return false
}

func msgClass(m string) string {
	if i := strings.IndexAny(m, ":\n"); i >= 0 {
		return m[:i]
	}
	return m
}

// shrink removes chunks while bad stays true.
func shrink(s string, bad func(string) bool) string {
	budget := 3000
	for chunk := len(s) / 2; chunk >= 1; {
		progress := false
		for i := 0; i+chunk <= len(s) && budget > 0; {
			t := s[:i] + s[i+chunk:]
			budget--
			if bad(t) {
				s = t
				progress = true
			} else {
				i += max(1, chunk/2)
			}
		}
		if budget <= 0 {
			break
		}
		if chunk > len(s) {
			chunk = len(s)
			continue
		}
		if !progress || chunk > 1 {
			if chunk == 1 {
				break
			}
			chunk /= 2
		}
	}
	return s
}

const verifDir = "/verif"

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mon run|worker|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "run":
		os.Exit(supervise(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	default:
		if f, ok := tools[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		os.Exit(2)
	}
}

// tools are auxiliary child-process entry points.
var tools = map[string]func(args []string){}

func envTier() string {
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		return t
	}
	return "quick"
}

func envSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	n := fs.Int("n", 0, "")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	dir := fs.String("dir", "", "")
	tool := fs.String("tool", "", "")
	only := fs.Int("only", -1, "")
	maxv := fs.Int("maxv", 2, "")
	fs.Parse(args[1:])
	ck := checks[args[0]]
	debug.SetMaxStack(2 << 30)
	loadDict()
	c := &Ctx{Check: ck, Seed: *seed, Tier: *tier, Dir: *dir, Tool: *tool, seen: map[uint64]struct{}{}}
	c.res.Counters = map[string]int64{}
	c.res.Known = map[string]string{}
	c.res.KnownHits = map[string]int64{}
	prog, err := os.Create(filepath.Join(*dir, "progress"))
	if err != nil {
		panic(err)
	}
	var pb [8]byte
	if ck.Init != nil {
		ck.Init(c)
	}
	runOne := func(i int) {
		c.idx = i
		binary.LittleEndian.PutUint64(pb[:], uint64(i)+1)
		prog.WriteAt(pb[:], 0)
		if m := Protect(func() { ck.Run(c, i) }); m != "" {
			c.quiet = false
			c.Violate(m, "", "")
		}
	}
	if *only >= 0 {
		runOne(*only)
	} else {
		for i := *shard; i < *n && len(c.res.Violations) < *maxv; i += *of {
			runOne(i)
		}
	}
	f, err := os.Create(filepath.Join(*dir, "hashes"))
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	for h := range c.seen {
		binary.Write(w, binary.LittleEndian, h)
	}
	w.Flush()
	f.Close()
	b, err := json.Marshal(c.res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(*dir, "result.json"), b, 0o644); err != nil {
		panic(err)
	}
}

// loadDict reads the literals of the tree this binary was built from.
func loadDict() {
	bi, ok := debug.ReadBuildInfo()
	if !ok {
		return
	}
	for _, d := range bi.Deps {
		if d.Path == "github.com/cespare/goclj" && d.Replace != nil {
			gen.LoadDict(d.Replace.Path)
		}
	}
}

type child struct {
	cmd    *exec.Cmd
	dir    string
	errBuf *tail
	done   chan struct{}
	err    error
	killed string
}

// tail keeps the first and last part of a stream.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func (ch *child) progress() int {
	b, err := os.ReadFile(filepath.Join(ch.dir, "progress"))
	if err != nil || len(b) < 8 {
		return -1
	}
	return int(binary.LittleEndian.Uint64(b)) - 1
}

// cpuAndRSS reads the CPU seconds and resident bytes of our own child.
func cpuAndRSS(pid int) (float64, int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	f := strings.Fields(s[i+1:])
	if len(f) < 22 {
		return 0, 0
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	st, _ := strconv.ParseFloat(f[12], 64)
	rss, _ := strconv.ParseInt(f[21], 10, 64)
	return (ut + st) / 100, rss * 4096
}

// Watchdog limits: three orders of magnitude above what a case needs. They
// decide only that a case made no progress at all.
const (
	maxCaseCPU  = 100.0           // CPU seconds in one case
	maxCaseWall = 8 * time.Minute // blocked without using CPU
	maxRSS      = 7 << 30
)

// startChild runs a worker and watches it.
func startChild(id string, dir string, args ...string) (*child, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	ch := &child{dir: dir, errBuf: &tail{}, done: make(chan struct{})}
	ch.cmd = exec.Command(self, append([]string{"worker", id, "-dir", dir}, args...)...)
	ch.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	ch.cmd.Stderr = ch.errBuf
	ch.cmd.Stdout = ch.errBuf
	if err := ch.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		ch.err = ch.cmd.Wait()
		close(ch.done)
	}()
	go func() {
		last, since, cpu0 := -2, time.Now(), 0.0
		for {
			select {
			case <-ch.done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			cpu, rss := cpuAndRSS(ch.cmd.Process.Pid)
			if p := ch.progress(); p != last {
				last, since, cpu0 = p, time.Now(), cpu
			}
			switch {
			case cpu-cpu0 > maxCaseCPU:
				ch.killed = fmt.Sprintf("no result after %.0f s of CPU time on one case", cpu-cpu0)
			case time.Since(since) > maxCaseWall && cpu-cpu0 < 1:
				ch.killed = "the case is blocked and uses no CPU"
			case rss > maxRSS:
				ch.killed = fmt.Sprintf("resident memory grew to %d MB on one case", rss>>20)
			default:
				continue
			}
			ch.cmd.Process.Kill()
			return
		}
	}()
	return ch, nil
}

func readHashes(path string, into map[uint64]struct{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for ; len(b) >= 8; b = b[8:] {
		into[binary.LittleEndian.Uint64(b)] = struct{}{}
	}
}

func supervise(args []string) int {
	start := time.Now()
	id := args[0]
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	replay := fs.String("replay", "", "re-run the case of a replay file")
	nFlag := fs.Int("n", 0, "override the number of cases")
	maxv := fs.Int("maxv", 2, "violations per worker before it stops")
	coverDir := fs.String("coverdir", os.Getenv("MON_COVERDIR"), "collect coverage here")
	fs.Parse(args[1:])
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	tier, seed := envTier(), envSeed()
	n := ck.Quick
	if tier == "thorough" {
		n = ck.Thorough
	}
	if *nFlag > 0 {
		n = *nFlag
	}
	base, err := os.MkdirTemp("", "mon-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(base)
	tool := ""
	if ck.CLI {
		tool = filepath.Join(base, "cljfmt")
		cmd := exec.Command("go", "build", "-o", tool, "./cljfmt")
		cmd.Dir = "/repo"
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "building cljfmt: %v\n%s", err, out)
			return 2
		}
		if err := os.Chmod(base, 0o755); err != nil {
			return 2
		}
	}
	workers := ck.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	if workers > n {
		workers = n
	}
	common := []string{"-seed", fmt.Sprint(seed), "-tier", tier, "-tool", tool, "-maxv", fmt.Sprint(*maxv)}
	var kids []*child
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		common = []string{"-seed", fmt.Sprint(v.Seed), "-tier", v.Tier, "-tool", tool}
		ch, err := startChild(id, filepath.Join(base, "w0"), append(common, "-only", fmt.Sprint(v.Idx))...)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		kids = append(kids, ch)
	} else {
		for i := 0; i < workers; i++ {
			if *coverDir != "" {
				os.Setenv("GOCOVERDIR", *coverDir)
			}
			ch, err := startChild(id, filepath.Join(base, fmt.Sprintf("w%d", i)),
				append(common, "-shard", fmt.Sprint(i), "-of", fmt.Sprint(workers), "-n", fmt.Sprint(n))...)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			kids = append(kids, ch)
		}
	}
	total := Result{Counters: map[string]int64{}, Known: map[string]string{}, KnownHits: map[string]int64{}}
	hashes := map[uint64]struct{}{}
	var harness []string
	for _, ch := range kids {
		<-ch.done
		b, rerr := os.ReadFile(filepath.Join(ch.dir, "result.json"))
		if ch.err == nil && rerr == nil {
			var r Result
			if err := json.Unmarshal(b, &r); err != nil {
				harness = append(harness, err.Error())
				continue
			}
			total.Evaluations += r.Evaluations
			for k, v := range r.Counters {
				if strings.HasPrefix(k, "max ") {
					total.Counters[k] = max(total.Counters[k], v)
				} else {
					total.Counters[k] += v
				}
			}
			total.Samples = append(total.Samples, r.Samples...)
			total.Violations = append(total.Violations, r.Violations...)
			for k, v := range r.Known {
				if _, ok := total.Known[k]; !ok {
					total.Known[k] = v
				}
			}
			for k, v := range r.KnownHits {
				total.KnownHits[k] += v
			}
			readHashes(filepath.Join(ch.dir, "hashes"), hashes)
			continue
		}
		// The worker died. Decide whether goclj did it.
		idx := ch.progress()
		out := ch.errBuf.String()
		var ee *exec.ExitError
		blame := ch.killed
		if blame == "" && errors.As(ch.err, &ee) {
			blame = blameCrash(out)
		}
		if blame == "" {
			harness = append(harness, fmt.Sprintf("worker died on case %d: %v\n%s", idx, ch.err, headTail(out, 4000)))
			continue
		}
		total.Violations = append(total.Violations, Violation{Property: id, Idx: idx, Seed: seed, Tier: tier,
			Msg: blame + "\n" + headTail(out, 3000)})
	}
	wall := time.Since(start).Seconds()
	level := ck.Level
	if level == "" {
		level = "exploration"
	}
	if len(total.Samples) > 4 {
		total.Samples = total.Samples[:4]
	}
	cov := map[string]any{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(hashes),
		"rule":                ck.Rule,
		"samples":             total.Samples,
		"observed":            total.Counters,
	}
	if len(total.KnownHits) > 0 {
		cov["known_finding_hits"] = total.KnownHits
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": ck.Assume, "wall_s": wall, "violations": len(total.Violations)}
	if ck.Assume == nil {
		delete(ev, "assumptions")
	}
	if *replay == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			harness = append(harness, err.Error())
		}
	}
	var ids []string
	for k := range total.Known {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, k := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d cases, e.g. %q)\n", id, k, knownText(id, k), total.KnownHits[k], trunc(total.Known[k], 200))
	}
	for _, h := range harness {
		fmt.Fprintln(os.Stderr, "harness error:", h)
	}
	if len(total.Violations) > 0 {
		dir := filepath.Join(verifDir, "replays", id)
		os.MkdirAll(dir, 0o755)
		for i, v := range total.Violations {
			if i >= 5 {
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("case-%d-seed-%d.json", v.Idx, v.Seed))
			b, _ := json.MarshalIndent(v, "", " ")
			if *replay == "" {
				os.WriteFile(path, append(b, '\n'), 0o644)
			} else {
				path = *replay
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  options: %s\n  input: %q\n  %s\n", v.Opts, trunc(v.Input, 600), strings.ReplaceAll(trunc(v.Msg, 2500), "\n", "\n  "))
		}
		return 1
	}
	if len(harness) > 0 {
		return 2
	}
	tight := ""
	if *replay == "" {
		best := 1e9
		for k, m := range ck.Min {
			if q := float64(total.Counters[k]) / float64(m); q < best {
				best, tight = q, fmt.Sprintf(" tightest=%.2f(%s)", q, k)
			}

			if *nFlag == 0 && total.Counters[k] < m {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: property=%s observed only %d of %q (want at least %d)\n", id, total.Counters[k], k, m)
				return 2
			}
		}
		if total.Evaluations == 0 || len(hashes) < 2 {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE: property=%s observed nothing\n", id)
			return 2
		}
	}
	fmt.Printf("ok property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs%s\n", id, tier, seed, total.Evaluations, len(hashes), wall, tight)
	var ks []string
	for k := range total.Counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  observed %s: %d\n", k, total.Counters[k])
	}
	return 0
}

// blameCrash says whether a dead worker's output shows goclj at fault: the
// runtime killed it (fatal error, unrecovered panic in another goroutine) and
// the first user frame belongs to goclj.
func blameCrash(out string) string {
	for _, marker := range []string{"fatal error: ", "panic: ", "runtime: goroutine stack exceeds", "unexpected fault", "WARNING: DATA RACE"} {
		i := strings.Index(out, marker)
		if i < 0 {
			continue
		}
		line := out[i:]
		if j := strings.IndexByte(line, '\n'); j >= 0 {
			line = line[:j]
		}
		if strings.Contains(out[i:], "github.com/cespare/goclj") {
			if strings.HasPrefix(line, "panic: ") {
				// an unrecovered panic: only blame goclj if its frame comes before any harness frame
				for _, l := range strings.Split(out[i:], "\n") {
					if strings.HasPrefix(l, "github.com/cespare/goclj") {
						return "the process died: " + line
					}
					if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "goclj.verif/") {
						return ""
					}
				}
				return ""
			}
			return "the process died: " + line
		}
	}
	return ""
}

func headTail(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
}

func trunc(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + "..."
}
