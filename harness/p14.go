package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
)

func mapDigest(m map[string]string) string {
	h := fnv.New64a()
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(h, "%s=%s\n", k, m[k])
	}
	return fmt.Sprintf("%d:%x", len(m), h.Sum64())
}

func listDigest(l []string) string {
	h := fnv.New64a()
	for _, k := range l {
		fmt.Fprintln(h, k)
	}
	return fmt.Sprintf("%d:%x", len(l), h.Sum64())
}

// job is a deterministic piece of work on documents of its own; what it
// observed is returned line by line.
func job(seed int64, pause func()) (out []string) {
	r := rand.New(rand.NewSource(seed))
	say := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	errs := func(err error) string {
		if err != nil {
			return "error"
		}
		return "ok"
	}
	d := genDoc(r, genOpt{unknown: r.Intn(2) == 0, maxProps: 6})
	b := writeXMP(d, randStyle(r), r)
	if r.Intn(4) == 0 {
		_, b = corpusFile(r.Intn(1 + len(corpus)))
	}
	load := func(b []byte) *xmp.Document {
		pause()
		switch r.Intn(3) {
		case 0:
			doc, err := xmp.Read(bytes.NewReader(b))
			say("read %s", errs(err))
			if err == nil {
				return doc
			}
		case 1:
			l, err := xmp.ScanPackets(bytes.NewReader(append([]byte("\x00\xffjunk<?xpacket "), b...)))
			say("scan %d %s", len(l), errs(err))
		}
		doc, err := decodeXML(b)
		say("decode %s", errs(err))
		if err != nil {
			return xmp.NewDocument()
		}
		return doc
	}
	doc := load(b)
	defer func() { doc.Close() }()
	for i, n := 0, 4+r.Intn(8); i < n; i++ {
		pause()
		switch op := r.Intn(10); op {
		case 0, 1:
			l, err := listPaths(doc)
			say("list %s %s", listDigest(l), errs(err))
			if len(l) > 0 {
				for j := 0; j < 3; j++ {
					s := l[r.Intn(len(l))]
					p := xmp.Path(s[:strings.Index(s, " = ")])
					v, err := doc.GetPath(p)
					say("get %s %q %s", p, v, errs(err))
					v = [...]string{"", v, "text", "12", "2006-01-02T15:04:05Z"}[r.Intn(5)]
					err = doc.SetPath(xmp.PathValue{Path: p, Value: v, Flags: xmp.SyncFlags(r.Intn(64))})
					say("set %s %q %s", p, v, errs(err))
				}
			}
		case 2:
			q := allPropName(r)
			err := doc.SetPath(xmp.PathValue{Path: xmp.Path(q), Value: genText(r), Flags: xmp.CREATE | xmp.REPLACE | xmp.APPEND})
			say("new %s %s", q, errs(err))
		case 3:
			x := load(b)
			err := doc.Merge(x, []xmp.SyncFlags{xmp.MERGE, xmp.EXTEND, xmp.ADD}[r.Intn(3)])
			say("merge %s", errs(err))
			x.Close()
		case 4:
			f, o, err := docFlat(doc)
			say("write %s %d %s", mapDigest(f), len(o), errs(err))
		case 5:
			j, err := json.Marshal(doc)
			if err != nil {
				say("json error")
				break
			}
			var v any
			json.Unmarshal(j, &v)
			say("json %s", listDigest([]string{jsonCanon(v)}))
			x := &xmp.Document{}
			err = json.Unmarshal(j, x)
			l, _ := listPaths(x)
			say("json back %s %s", listDigest(l), errs(err))
			x.Close()
		case 6:
			say("sync %s", errs(doc.SyncModels()))
			a, z := allPropName(r), allPropName(r)
			say("sync %s %s %s", a, z, errs(doc.Sync(xmp.Path(a), xmp.Path(z), xmp.DEFAULT, nil, strings.ToUpper)))
		case 7:
			m := sortedKeys(golden.byPfx)
			p := m[r.Intn(len(m))]
			if r.Intn(2) == 0 {
				say("remove %s %v", p, doc.RemoveNamespaceByName(p))
				break
			}
			ns, err := xmp.GetNamespace(p)
			if err != nil {
				say("namespace %s missing", p)
				break
			}
			_, err = doc.MakeModel(ns)
			say("make %s %s", p, errs(err))
		case 8:
			for _, n := range doc.Nodes() {
				if n.Model == nil {
					continue
				}
				t, err := xmp.ListNativeFields(n.Model)
				var l []string
				for _, x := range t {
					l = append(l, fmt.Sprint(x.Key, "=", x.Value))
				}
				sort.Strings(l)
				say("native %s %s %s", n.Name(), listDigest(l), errs(err))
			}
		default:
			nl := xmp.NsRegistry.Namespaces()
			var names []string
			for _, n := range nl {
				if !strings.HasPrefix(n.GetName(), "vf") {
					names = append(names, n.GetName())
				}
			}
			sort.Strings(names)
			say("namespaces %s", listDigest(names))
			f := xmp.ParseFilter("+dc,-xmpMM")
			say("filter %v", f.Apply(doc))
		}
	}
	l, err := listPaths(doc)
	say("end %s %s", listDigest(l), errs(err))
	return
}

// parallel runs jobs at the same time and gives what each observed.
func parallel(c *rand.Rand, seeds []int64) [][]string {
	res := make([][]string, len(seeds))
	var wg sync.WaitGroup
	start := make(chan bool)
	for i, s := range seeds {
		i, s := i, s
		mode, delay := c.Intn(3), c.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			pr := rand.New(rand.NewSource(delay))
			<-start
			res[i] = job(s, func() {
				switch {
				case mode == 1:
					runtime.Gosched()
				case mode == 2 && pr.Intn(3) == 0:
					time.Sleep(time.Duration(pr.Intn(200)) * time.Microsecond)
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	return res
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("step %d: alone %q, concurrently %q", i, a[i], b[i])
		}
	}
	return fmt.Sprintf("%d steps alone, %d concurrently", len(a), len(b))
}

func jobSeeds(r *rand.Rand) []int64 {
	n := 3 + r.Intn(6)
	var l []int64
	for i := 0; i < n; i++ {
		if i > 0 && r.Intn(3) == 0 {
			l = append(l, l[0]) // the same work several times
		} else {
			l = append(l, r.Int63())
		}
	}
	return l
}

// coldMain is the work of a fresh process: nothing is cached when the jobs start.
func coldMain(seed int64) {
	quiet()
	r := rand.New(rand.NewSource(seed))
	seeds := jobSeeds(r)
	res := parallel(r, seeds)
	n := 0
	for i, s := range seeds {
		a := job(s, func() {})
		n += len(a)
		if strings.Join(a, "\n") != strings.Join(res[i], "\n") {
			fmt.Printf("DIFF %s\n", firstDiff(a, res[i]))
			os.Exit(3)
		}
	}
	fmt.Printf("OK %d\n", n)
}

func init() {
	register(&Property{
		ID:   "P14",
		Race: true,
		Rule: "3-8 goroutines work on documents of their own (load, edit, merge, sync, write, JSON, native tags, filters) with injected delays, under the race detector, in a warm process and in fresh processes with cold caches; what each observes must equal what it observes alone; distinct by job",
		Scenarios: []Scenario{
			{"warm", 600, 12000, func(c *Case) {
				seeds := jobSeeds(c.R)
				res := parallel(c.R, seeds)
				for i, s := range seeds {
					a := job(s, func() {})
					c.Eval(len(a))
					for _, x := range a {
						c.Event(strings.Fields(x)[0])
					}
					c.Seen(listDigest(a))
					if strings.Join(a, "\n") != strings.Join(res[i], "\n") {
						c.Art("alone", strings.Join(a, "\n"))
						c.Art("concurrently", strings.Join(res[i], "\n"))
						c.Fail("result", "%s", firstDiff(a, res[i]))
						return
					}
				}
			}},
			{"cold", 64, 1200, func(c *Case) {
				seed := c.R.Int63()
				cmd := exec.Command(os.Args[0], "-cold", fmt.Sprint(seed))
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
				var so, se bytes.Buffer
				cmd.Stdout, cmd.Stderr = &so, &se
				err := cmd.Run()
				o := so.String()
				c.Seen("cold", o, fmt.Sprint(seed))
				switch {
				case strings.Contains(se.String(), "WARNING: DATA RACE"):
					c.Art("stderr", se.String())
					c.Fail("race:"+raceSite(se.String()), "data race in a fresh process")
				case strings.HasPrefix(o, "DIFF"):
					c.Fail("result", "%s", o)
				case err != nil:
					c.Art("stderr", se.String())
					c.Fail("crash", "%v: %s", err, head(strings.Split(se.String(), "\n"), 3))
				default:
					var n int
					fmt.Sscanf(o, "OK %d", &n)
					c.Eval(n)
					c.Event("cold start")
				}
			}},
		},
	})
}
