package main

// Common parts of all checks: seeds, case counting, verdicts, known findings,
// evidence and replay files.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "finding" or "fixed"
	Key      string `json:"key,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type violation struct {
	Key, Detail, Input string
	Case               int
}

type Ctx struct {
	ID       string
	Tier     string
	Seed     int64
	Thorough bool
	Root     string // /verif
	Repo     string
	only     int // replay this case only, -1: all
	shard    int // this process runs the cases i with i % shards == shard
	shards   int // 0: one process runs all
	start    time.Time

	mu       sync.Mutex
	caseID   int
	evals    int64
	nontriv  int64
	seen     map[uint64]bool
	counters map[string]int64
	samples  []string
	viol     []violation
	violKeys map[string]bool
	known    map[string]finding
	hits     map[string]int64
	rule     string
	assume   []string
	broken   string
	beat     int64 // start of the running case, unix nanoseconds; 0: none
	what     string
}

func newCtx(id string) *Ctx {
	c := &Ctx{ID: id, Tier: os.Getenv("VERIF_TIER"), Root: os.Getenv("VERIF_ROOT"), Repo: repoDir(), only: -1,
		start: time.Now(), seen: map[uint64]bool{}, counters: map[string]int64{}, violKeys: map[string]bool{},
		known: map[string]finding{}, hits: map[string]int64{}}
	if c.Root == "" {
		c.Root = "/verif"
	}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Thorough = c.Tier == "thorough"
	c.Seed = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &c.Seed)
	if b, err := os.ReadFile(filepath.Join(c.Root, "known_findings.json")); err == nil {
		var l []finding
		if err := json.Unmarshal(b, &l); err != nil {
			c.fatal("known_findings.json: %v", err)
		}
		for _, f := range l {
			if f.Property == id && f.Status == "finding" {
				c.known[f.Key] = f
			}
		}
	}
	return c
}

// forgetReplays removes what an earlier run left.
func (c *Ctx) forgetReplays() {
	old, _ := filepath.Glob(filepath.Join(c.Root, "evidence", "replay", c.ID+"-*.txt"))
	for _, f := range old {
		os.Remove(f)
	}
}

// fatal ends the check without a verdict.
func (c *Ctx) fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR %s: %s\n", c.ID, fmt.Sprintf(format, args...))
	os.Exit(3)
}

func hash(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	return h.Sum64()
}

// rng is the random source of one case; it depends on nothing else.
func (c *Ctx) rng(i int, stream string) *rand.Rand {
	return rand.New(rand.NewSource(int64(hash(c.Seed, c.ID, i, stream))))
}

// count scales the number of cases with the tier.
func (c *Ctx) count(quick int) int {
	n := int(float64(quick) * scale[c.ID])
	if c.Thorough {
		n *= 20
	}
	return int(math.Ceil(float64(n) * fraction))
}

// fraction of the cases to run; VERIF_SCALE is for trying things out, no check
// sets it.
var fraction = func() float64 {
	x := 1.0
	fmt.Sscan(os.Getenv("VERIF_SCALE"), &x)
	return x
}()

// scale adjusts the numbers of cases to the cost of the checks.
var scale = map[string]float64{"P01": 8, "P02": 8, "P03": 3, "P04": 1, "P05": 8, "P06": 12, "P07": 15, "P08": 10, "P09": 8, "P10": 4, "P11": 1, "P12": 4, "P13": 6, "P14": 20, "P15": 6, "P16": 5, "P17": 8, "P18": 6, "P19": 4, "P20": 5, "P21": 3, "P22": 4, "P23": 1, "P24": 2, "P25": 2, "P26": 3, "P27": 5, "P28": 5}

// cases runs f for n cases. A panic inside f is a violation: the code under
// test never panics, and the harness does not either on code that is right.
func (c *Ctx) cases(stream string, n int, f func(i int, r *rand.Rand)) {
	for i := 0; i < n; i++ {
		if c.only >= 0 && i != c.only || c.only < 0 && !c.mine(i) {
			continue
		}
		c.runCase(stream, i, f)
		if len(c.viol) >= 20 {
			return
		}
	}
}

// mine tells whether case i belongs to this process; the last shard is for the
// parts that run alone.
func (c *Ctx) mine(i int) bool {
	return c.shards == 0 || c.shard < c.shards-1 && i%(c.shards-1) == c.shard
}

// alone tells whether this process runs the parts that are not divided.
func (c *Ctx) alone() bool { return c.shards == 0 || c.shard == c.shards-1 }

// part is what one shard reports to the parent process.
type part struct {
	Evals    int64
	Seen     []uint64
	Counters map[string]int64
	Samples  []string
	Viol     []violation
	Hits     map[string]int64
	Rule     string
	Assume   []string
	Broken   string
}

func (c *Ctx) partFile(k int) string {
	return filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprintf("%s-part-%d.json", c.ID, k))
}

func (c *Ctx) writePart() {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := part{Evals: c.evals, Counters: c.counters, Samples: c.samples, Viol: c.viol, Hits: c.hits, Rule: c.rule, Assume: c.assume, Broken: c.broken}
	for h := range c.seen {
		p.Seen = append(p.Seen, h)
	}
	b, err := json.Marshal(p)
	if err == nil {
		err = os.WriteFile(c.partFile(c.shard), b, 0o644)
	}
	if err != nil {
		c.fatal("part: %v", err)
	}
}

func (c *Ctx) merge(k int) bool {
	b, err := os.ReadFile(c.partFile(k))
	if err != nil {
		return false
	}
	var p part
	if err := json.Unmarshal(b, &p); err != nil {
		c.fatal("part: %v", err)
	}
	c.evals += p.Evals
	for _, h := range p.Seen {
		if !c.seen[h] {
			c.seen[h] = true
			c.nontriv++
		}
	}
	for n, v := range p.Counters {
		if strings.HasPrefix(n, "max_") {
			if v > c.counters[n] {
				c.counters[n] = v
			}
			continue
		}
		c.counters[n] += v
	}
	for _, s := range p.Samples {
		if len(c.samples) < 6 {
			c.samples = append(c.samples, s)
		}
	}
	for _, v := range p.Viol {
		if !c.violKeys[v.Key] {
			c.violKeys[v.Key] = true
			c.viol = append(c.viol, v)
		}
	}
	for n, v := range p.Hits {
		c.hits[n] += v
	}
	if p.Rule != "" {
		c.rule = p.Rule
	}
	if p.Assume != nil {
		c.assume = p.Assume
	}
	if p.Broken != "" {
		c.broken = p.Broken
	}
	return true
}

func (c *Ctx) runCase(stream string, i int, f func(i int, r *rand.Rand)) {
	c.caseID = i
	atomic.StoreInt64(&c.beat, time.Now().UnixNano())
	defer atomic.StoreInt64(&c.beat, 0)
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			c.violate("panic:"+firstLine(fmt.Sprint(p)), fmt.Sprintf("panic: %v", p), st)
		}
	}()
	start := time.Now()
	f(i, c.rng(i, stream))
	if d := time.Since(start); d > slow {
		fmt.Fprintf(os.Stderr, "slow: %s %s case %d took %v\n", c.ID, stream, i, d)
	}
}

// slow is far below caseLimit: no case of the generators should come near that.
const slow = 15 * time.Second

// note remembers the input being worked on, for the report of a hang.
func (c *Ctx) note(s string) {
	c.mu.Lock()
	c.what = s
	c.mu.Unlock()
}

// watchdog reports a case that takes far too long or far too much memory: no
// case needs more than a fraction of a second.
func (c *Ctx) watchdog() {
	for {
		time.Sleep(300 * time.Millisecond)
		t := atomic.LoadInt64(&c.beat)
		why := ""
		if t != 0 && time.Since(time.Unix(0, t)) > caseLimit {
			why = fmt.Sprintf("the case did not end within %v", caseLimit)
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 6<<30 {
			why = fmt.Sprintf("%d MB of memory in use", m.HeapAlloc>>20)
		}
		if why != "" {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if len(buf) > 20000 {
				buf = buf[:20000]
			}
			c.mu.Lock()
			w := c.what
			c.mu.Unlock()
			c.violate("hang", why, w+"\n"+string(buf))
			c.finish()
			if c.shards > 0 {
				os.Exit(0)
			}
			os.Exit(1)
		}
	}
}

var caseLimit = 90 * time.Second

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

// eval counts one evaluated case; id identifies it for the distinct count.
func (c *Ctx) eval(nontrivial bool, id ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if nontrivial {
		h := hash(id...)
		if !c.seen[h] && len(c.seen) < 1<<20 { // beyond that, the count is a lower bound
			c.seen[h] = true
			c.nontriv++
		}
	}
}

func (c *Ctx) add(counter string, n int) {
	c.mu.Lock()
	c.counters[counter] += int64(n)
	c.mu.Unlock()
}

func (c *Ctx) sample(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 4 && len(s) < 1200 {
		c.samples = append(c.samples, s)
	}
}

// violate records a violation. key identifies the failing behaviour (not the
// input) and is what known findings are matched with.
func (c *Ctx) violate(key, detail, input string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[key]; ok {
		c.hits[key]++
		return
	}
	if c.violKeys[key] && len(c.viol) > 0 {
		return
	}
	c.violKeys[key] = true
	c.viol = append(c.viol, violation{key, detail, input, c.caseID})
}

func (c *Ctx) writeEvidence() {
	names := make([]string, 0, len(c.counters))
	for k := range c.counters {
		names = append(names, k)
	}
	sort.Strings(names)
	cov := map[string]interface{}{
		"evaluations":         c.evals,
		"distinct_nontrivial": c.nontriv,
		"rule":                c.rule,
		"samples":             c.samples,
	}
	for _, k := range names {
		cov["observed_"+k] = c.counters[k]
	}
	if len(c.hits) > 0 {
		cov["known_finding_hits"] = c.hits
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": levels[c.ID],
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol),
	}
	if c.assume != nil {
		ev["assumptions"] = c.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.Root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		c.fatal("evidence: %v", err)
	}
}

// finish writes the evidence and gives the verdict.
func (c *Ctx) finish() {
	if c.shards > 0 {
		c.writePart()
		return
	}
	c.writeEvidence()
	keys := make([]string, 0, len(c.known))
	for k := range c.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times in this run)\n", c.ID, c.known[k].What, c.hits[k])
	}
	if len(c.viol) > 0 {
		dir := filepath.Join(c.Root, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		for i, v := range c.viol {
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", c.ID, i))
			os.WriteFile(path, []byte(fmt.Sprintf("property %s seed %d tier %s case %d\nreplay: VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s --case %d\nkey: %s\n%s\n---- input ----\n%s\n",
				c.ID, c.Seed, c.Tier, v.Case, c.Seed, c.Tier, c.ID, v.Case, v.Key, v.Detail, v.Input)), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
			fmt.Printf("  %s\n", firstLine(v.Detail))
			if i >= 9 {
				break
			}
		}
		os.Exit(1)
	}
	if c.broken != "" {
		c.fatal("%s", c.broken)
	}
	if c.only < 0 && (c.evals == 0 || c.nontriv == 0) {
		c.fatal("nothing was observed")
	}
	fmt.Printf("%s held on %d evaluations (%d distinct non-trivial), %.1f s\n", c.ID, c.evals, c.nontriv, time.Since(c.start).Seconds())
}

// repoDir is /repo, or the scratch copy that tools/mkbug.py tests.
func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}
