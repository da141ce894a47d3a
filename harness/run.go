package main

// Runner: a check is a set of scenarios, each a fixed number of cases whose
// content depends only on (seed, property, scenario, index). Cases run in
// several child processes so that a crash, a race report or an exhausted
// resource is observed from outside and attributed to one case.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
)

type Scenario struct {
	Name            string
	Quick, Thorough int
	Run             func(c *Case)
}

type Property struct {
	ID        string
	Rule      string // how cases are made and what counts as non-trivial
	Scenarios []Scenario
	Race      bool // run under the race detector
	Serial    bool // scenarios need a process of their own per case group
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

type failure struct {
	Scen string            `json:"scen"`
	Idx  int               `json:"idx"`
	Key  string            `json:"key"`
	Msg  string            `json:"msg"`
	Art  map[string]string `json:"art,omitempty"`
}

// Case is one execution observed by the oracle of a scenario.
type Case struct {
	Scen  string
	Idx   int
	Tier  string
	R     *rand.Rand
	mu    sync.Mutex
	fails []failure
	art   map[string]string
	st    *shardStat
	seen  string
}

type shardStat struct {
	mu      sync.Mutex
	Evals   int             `json:"evals"`
	Events  map[string]int  `json:"events"`
	Keys    map[uint64]bool `json:"-"`
	KeyList []string        `json:"keys"`
	Samples []string        `json:"samples"`
	Sampled map[string]bool `json:"-"`
}

// Eval counts one comparison made by an oracle.
func (c *Case) Eval(n int) {
	c.st.mu.Lock()
	c.st.Evals += n
	c.st.mu.Unlock()
}

// Event counts an observed kind of event.
func (c *Case) Event(name string) {
	c.st.mu.Lock()
	c.st.Events[name]++
	c.st.mu.Unlock()
}

// Seen records a distinct non-trivial situation.
func (c *Case) Seen(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, c.Scen)
	for _, p := range parts {
		fmt.Fprint(h, "\x00", p)
	}
	c.st.mu.Lock()
	if len(c.seen) < 300 {
		c.seen = strings.TrimSpace(c.seen + " " + fmt.Sprintln(parts...))
	}
	c.st.Keys[h.Sum64()] = true
	c.st.mu.Unlock()
}

func (c *Case) Sample(format string, a ...any) {
	c.st.mu.Lock()
	if len(c.st.Samples) < 8 {
		s := c.Scen + "#" + strconv.Itoa(c.Idx) + ": " + fmt.Sprintf(format, a...)
		if len(s) > 1200 {
			s = s[:1200] + "..."
		}
		c.st.Samples = append(c.st.Samples, strings.ToValidUTF8(s, "?"))
	}
	c.st.mu.Unlock()
}

// Art attaches material to the replay file should this case fail.
func (c *Case) Art(name string, b any) {
	s := ""
	switch b := b.(type) {
	case []byte:
		s = string(b)
	case string:
		s = b
	default:
		s = fmt.Sprint(b)
	}
	c.mu.Lock()
	if c.art == nil {
		c.art = map[string]string{}
	}
	c.art[name] = s
	c.mu.Unlock()
}

// Fail reports a violation. key identifies what failed, for known findings.
func (c *Case) Fail(key, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.fails) >= 5 {
		return
	}
	art := map[string]string{}
	for k, v := range c.art {
		if len(v) > 60000 {
			v = v[:60000] + "...(truncated)"
		}
		art[k] = v
	}
	m := fmt.Sprintf(format, a...)
	if len(m) > 8000 {
		m = m[:8000] + "..."
	}
	c.fails = append(c.fails, failure{Scen: c.Scen, Idx: c.Idx, Key: key, Msg: m, Art: art})
}

func (c *Case) failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.fails) > 0
}

func caseSeed(seed int64, prop, scen string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, scen, idx)
	return int64(h.Sum64() >> 1)
}

func runCase(p *Property, s *Scenario, idx int, seed int64, tier string, st *shardStat) []failure {
	c := &Case{Scen: s.Name, Idx: idx, Tier: tier, st: st, R: rand.New(rand.NewSource(caseSeed(seed, p.ID, s.Name, idx)))}
	func() {
		defer func() {
			if e := recover(); e != nil {
				stack := string(debug.Stack())
				c.Art("stack", stack)
				c.Fail("panic:"+panicSite(stack), "panic: %v", e)
			}
		}()
		s.Run(c)
	}()
	if len(c.fails) == 0 && !st.Sampled[s.Name] && (c.seen != "" || len(c.art) > 0) {
		if st.Sampled == nil {
			st.Sampled = map[string]bool{}
		}
		st.Sampled[s.Name] = true
		t := c.seen
		for _, k := range sortedKeys(c.art) {
			t += "\n" + k + ": " + c.art[k]
		}
		c.Sample("%s", t)
	}
	return c.fails
}

// panicSite names the innermost library function on the stack.
func panicSite(stack string) string {
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(l, "go-xmp/") && !strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l[strings.LastIndex(l, "/")+1:]
		}
	}
	return "?"
}

// ---------------------------------------------------------------- child

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

type unit struct {
	s   *Scenario
	idx int
}

func units(p *Property, tier string) []unit {
	var us []unit
	for i := range p.Scenarios {
		s := &p.Scenarios[i]
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		for k := 0; k < n; k++ {
			us = append(us, unit{s, k})
		}
	}
	return us
}

func quiet() { xmp.SetLogLevel(xmp.LogLevelError) }

const (
	caseCPU  = 100 * time.Second // of processor time, for cases that need milliseconds
	caseWall = 400 * time.Second
	caseHeap = 5 << 30
)

func child(p *Property, tier string, seed int64, shard, shards, from int, outPath string) {
	quiet()
	f, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := bufio.NewWriterSize(f, 1<<16)
	var wmu sync.Mutex
	emit := func(tag string, v any) {
		b, _ := json.Marshal(v)
		wmu.Lock()
		fmt.Fprintf(w, "%s %s\n", tag, b)
		w.Flush()
		wmu.Unlock()
	}
	st := &shardStat{Events: map[string]int{}, Keys: map[uint64]bool{}}
	var cur atomic.Int64
	var began, beganCPU atomic.Int64
	cur.Store(-1)
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			i := cur.Load()
			if i < 0 {
				continue
			}
			cpu := time.Duration(int64(cpuTime()) - beganCPU.Load())
			wall := time.Duration(time.Now().UnixNano() - began.Load())
			why := ""
			if cpu > caseCPU {
				why = fmt.Sprintf("case does not terminate: %v of processor time", cpu.Round(time.Second))
			} else if wall > caseWall && cpu < 2*time.Second {
				why = fmt.Sprintf("case is blocked: %v without progress", wall.Round(time.Second))
			}
			var ms runtime.MemStats
			if why == "" {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > caseHeap {
					why = fmt.Sprintf("case holds %d MB of heap", ms.HeapAlloc>>20)
				}
			}
			if why != "" && cur.Load() == i {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "RESOURCE: %s\n%s\n", why, buf)
				os.Exit(67)
			}
		}
	}()
	us := units(p, tier)
	nf := 0
	for i := shard; i < len(us); i += shards {
		if i < from {
			continue
		}
		u := us[i]
		wmu.Lock()
		fmt.Fprintf(w, "S %d\n", i)
		w.Flush()
		wmu.Unlock()
		began.Store(time.Now().UnixNano())
		beganCPU.Store(int64(cpuTime()))
		cur.Store(int64(i))
		fails := runCase(p, u.s, u.idx, seed, tier, st)
		cur.Store(-1)
		for _, x := range fails {
			emit("F", x)
			nf++
		}
		if nf > 60 {
			break
		}
	}
	for k := range st.Keys {
		st.KeyList = append(st.KeyList, strconv.FormatUint(k, 36))
	}
	sort.Strings(st.KeyList)
	emit("D", st)
}

// ---------------------------------------------------------------- parent

type known struct{ prop, key, desc string }

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=P05 key=<key> <description>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return out
}

func runShard(p *Property, tier string, seed int64, shard, shards int, dir string) (fails []failure, stats []*shardStat, evals int) {
	us := units(p, tier)
	from := 0
	for attempt := 0; attempt < 25; attempt++ {
		out := filepath.Join(dir, fmt.Sprintf("out-%d-%d", shard, attempt))
		cmd := exec.Command(os.Args[0], "-child", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
			"-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards), "-from", fmt.Sprint(from), "-out", out)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4", "GOMEMLIMIT=3500MiB")
		err := cmd.Run()
		b, _ := os.ReadFile(out)
		last, done := -1, false
		for _, l := range bytes.Split(b, []byte("\n")) {
			if len(l) < 2 {
				continue
			}
			switch l[0] {
			case 'S':
				last, _ = strconv.Atoi(string(l[2:]))
			case 'F':
				var x failure
				if json.Unmarshal(l[2:], &x) == nil {
					fails = append(fails, x)
				}
			case 'D':
				var st shardStat
				if json.Unmarshal(l[2:], &st) == nil {
					stats = append(stats, &st)
					done = true
				}
			}
		}
		if done && err == nil {
			return
		}
		// the child died: attribute it to the case that was running
		x := failure{Scen: "?", Idx: -1, Key: "crash", Art: map[string]string{}}
		if last >= 0 && last < len(us) {
			x.Scen, x.Idx = us[last].s.Name, us[last].idx
		}
		es := stderr.String()
		switch {
		case strings.Contains(es, "WARNING: DATA RACE"):
			x.Key, x.Msg = "race:"+raceSite(es), "data race reported by the race detector"
		case strings.Contains(es, "RESOURCE: "):
			l := es[strings.Index(es, "RESOURCE: "):]
			x.Key, x.Msg = "resource", strings.SplitN(l, "\n", 2)[0]
		default:
			x.Msg = fmt.Sprintf("process died: %v: %s", err, strings.SplitN(es, "\n", 2)[0])
		}
		if len(es) > 30000 {
			es = es[:30000]
		}
		x.Art["stderr"] = es
		fails = append(fails, x)
		if last < 0 || attempt >= 4 {
			return
		}
		from = last + 1
	}
	return
}

func raceSite(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "go-xmp/") && strings.HasSuffix(l, "()") {
			l = strings.TrimSuffix(l[strings.LastIndex(l, "/")+1:], "()")
			out = append(out, l)
			if len(out) == 1 {
				break
			}
		}
	}
	return strings.Join(out, "|")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	isChild := flag.Bool("child", false, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	from := flag.Int("from", 0, "")
	out := flag.String("out", "", "")
	one := flag.String("case", "", "replay one case, scenario:index")
	calib := flag.Bool("calibrate", false, "")
	isRace := flag.Bool("needs-race", false, "print whether the property runs under the race detector")
	cold := flag.Int64("cold", 0, "")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *calib {
		if *prop == "tags" {
			dumpTags()
			return
		}
		calibrate()
		return
	}
	if *cold != 0 {
		coldMain(*cold)
		return
	}
	if *list {
		for _, id := range sortedKeys(properties) {
			fmt.Println(id, len(units(properties[id], *tier)))
		}
		return
	}
	p := properties[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *isRace {
		fmt.Println(p.Race)
		return
	}
	if *isChild {
		child(p, *tier, *seed, *shard, *shards, *from, *out)
		return
	}
	if *one != "" {
		i := strings.LastIndex(*one, ":")
		idx, _ := strconv.Atoi((*one)[i+1:])
		quiet()
		for k := range p.Scenarios {
			if s := &p.Scenarios[k]; s.Name == (*one)[:i] {
				st := &shardStat{Events: map[string]int{}, Keys: map[uint64]bool{}}
				fails := runCase(p, s, idx, *seed, *tier, st)
				for _, f := range fails {
					fmt.Printf("FAIL key=%s\n%s\n", f.Key, f.Msg)
					for _, a := range sortedKeys(f.Art) {
						fmt.Printf("--- %s\n%s\n", a, f.Art[a])
					}
				}
				fmt.Println("evaluations", st.Evals, "failures", len(fails), st.Events)
				if len(fails) > 0 {
					os.Exit(1)
				}
			}
		}
		return
	}
	os.Exit(parent(p, *tier, *seed))
}

func parent(p *Property, tier string, seed int64) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "xv-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if shards < 2 {
		shards = 2
	}
	shards = 8 // the split of cases over processes must not depend on the machine
	var mu sync.Mutex
	var fails []failure
	var stats []*shardStat
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			f, s, _ := runShard(p, tier, seed, i, shards, dir)
			mu.Lock()
			fails = append(fails, f...)
			stats = append(stats, s...)
			mu.Unlock()
		}(i)
	}
	wg.Wait()
	sort.Slice(fails, func(i, j int) bool {
		a, b := fails[i], fails[j]
		if a.Scen != b.Scen {
			return a.Scen < b.Scen
		}
		return a.Idx < b.Idx
	})
	evals, keys, events := 0, map[string]bool{}, map[string]int{}
	samples := []string{}
	for _, s := range stats {
		evals += s.Evals
		for _, k := range s.KeyList {
			keys[k] = true
		}
		for k, n := range s.Events {
			events[k] += n
		}
	}
	// samples from different scenarios, a few of each
	by := map[string][]string{}
	for _, s := range stats {
		for _, t := range s.Samples {
			k := t[:strings.Index(t, "#")]
			by[k] = append(by[k], t)
		}
	}
	for _, l := range by {
		sort.Strings(l)
	}
	for round := 0; round < 12 && len(samples) < 12; round++ {
		for _, k := range sortedKeys(by) {
			if round < len(by[k]) && len(samples) < 16 {
				samples = append(samples, by[k][round])
			}
		}
	}
	sort.Strings(samples)
	cases := len(units(p, tier))

	kn := readKnown(filepath.Join(verifDir(), "known_findings.txt"))
	matched := map[string]known{}
	var viol []failure
	for _, f := range fails {
		hit := false
		for _, k := range kn {
			if k.prop == p.ID && k.key == f.Key {
				matched[k.key] = k
				hit = true
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	for _, k := range sortedKeys(matched) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, matched[k].desc)
	}
	rep := filepath.Join(verifDir(), "evidence", "replays")
	os.MkdirAll(rep, 0o755)
	old, _ := filepath.Glob(filepath.Join(rep, p.ID+"-*"))
	for _, o := range old {
		os.Remove(o)
	}
	shown := map[string]bool{}
	n := 0
	for _, f := range viol {
		if shown[f.Key] && n > 3 || n >= 12 {
			continue
		}
		shown[f.Key] = true
		n++
		path := filepath.Join(rep, fmt.Sprintf("%s-%d.txt", p.ID, n))
		var b strings.Builder
		fmt.Fprintf(&b, "property: %s\nscenario: %s case %d\nkey: %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s /verif/check.sh %s -case %s:%d\n\n%s\n", p.ID, f.Scen, f.Idx, f.Key, seed, tier, p.ID, f.Scen, f.Idx, f.Msg)
		for _, a := range sortedKeys(f.Art) {
			fmt.Fprintf(&b, "\n--- %s\n%s\n", a, f.Art[a])
		}
		os.WriteFile(path, []byte(b.String()), 0o644)
		msg := strings.SplitN(f.Msg, "\n", 2)[0]
		if len(msg) > 400 {
			msg = msg[:400]
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s#%d [%s] %s\n", p.ID, path, f.Scen, f.Idx, f.Key, msg)
	}
	perScen := map[string]int{}
	for _, u := range units(p, tier) {
		perScen[u.s.Name]++
	}
	wall := time.Since(t0).Seconds()
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(keys), "rule": p.Rule, "samples": samples,
			"cases": cases, "cases_by_scenario": perScen, "events": events, "race_detector": raceBuild,
		},
		"wall_s": wall, "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d comparisons, %d distinct, %d failures (%d known findings), %.1fs\n",
		p.ID, tier, seed, cases, evals, len(keys), len(viol), len(matched), wall)
	if len(viol) > 0 {
		return 1
	}
	if evals == 0 || len(keys) == 0 {
		fmt.Fprintln(os.Stderr, "inconclusive: nothing was observed")
		return 2
	}
	return 0
}
