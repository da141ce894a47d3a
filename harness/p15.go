package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
)

var regSeq int64

type regOp struct {
	start, end int64
	kind       byte // 'w' registration, 'n' by name, 'u' by uri, 'l' list, 'g' group list, 'p' prefixes
	key        string
	ns         *xmp.Namespace // registered or found
	prefix     string
	list       map[*xmp.Namespace]int
	order      []*xmp.Namespace
	names      map[string]int
}

// registry runs registrations and lookups at the same time and checks the
// history: every lookup must see a state between its start and its end.
func registry(c *Case) {
	r := c.R
	id := atomic.AddInt64(&regSeq, 1)
	group := xmp.NamespaceGroup(fmt.Sprintf("vfgroup%d", id))
	var clock int64
	nw, nr := 1+r.Intn(3), 2+r.Intn(4)
	nkeys := 2 + r.Intn(5)
	var keys []string
	for i := 0; i < nkeys; i++ {
		keys = append(keys, fmt.Sprintf("vf%dk%d", id, i))
	}
	var mu sync.Mutex
	var hist []*regOp
	start := make(chan bool)
	var wg sync.WaitGroup
	serial := 0
	type reg struct {
		ns    *xmp.Namespace
		group bool
	}
	plans := make([][]reg, nw)
	inGroup := map[*xmp.Namespace]bool{}
	for w := 0; w < nw; w++ {
		for i, n := 0, 2+r.Intn(6); i < n; i++ {
			serial++
			ns := &xmp.Namespace{}
			uri := fmt.Sprintf("urn:vf:%d:%d", id, serial)
			if serial > 1 && r.Intn(4) == 0 {
				// known before, maybe by another prefix
				uri = fmt.Sprintf("urn:vf:%d:%d", id, 1+r.Intn(serial-1))
			}
			*ns = *xmp.NewNamespace(keys[r.Intn(nkeys)], uri, nil)
			g := r.Intn(2) == 0
			inGroup[ns] = g
			plans[w] = append(plans[w], reg{ns, g})
		}
	}
	var uris []string
	for _, p := range plans {
		for _, x := range p {
			uris = append(uris, x.ns.GetURI())
		}
	}
	pauser := func(pr *rand.Rand) func() {
		mode := pr.Intn(3)
		return func() {
			switch {
			case mode == 1:
				runtime.Gosched()
			case mode == 2 && pr.Intn(4) == 0:
				time.Sleep(time.Duration(pr.Intn(50)) * time.Microsecond)
			}
		}
	}
	record := func(local *[]*regOp, op *regOp, f func()) {
		op.start = atomic.AddInt64(&clock, 1)
		f()
		op.end = atomic.AddInt64(&clock, 1)
		*local = append(*local, op)
	}
	for w := 0; w < nw; w++ {
		w := w
		pr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var local []*regOp
			pause := pauser(pr)
			<-start
			for _, x := range plans[w] {
				pause()
				op := &regOp{kind: 'w', key: x.ns.GetName(), ns: x.ns}
				record(&local, op, func() {
					if x.group {
						xmp.Register(x.ns, group)
					} else {
						xmp.Register(x.ns)
					}
				})
			}
			mu.Lock()
			hist = append(hist, local...)
			mu.Unlock()
		}()
	}
	for k := 0; k < nr; k++ {
		pr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var local []*regOp
			pause := pauser(pr)
			<-start
			for i := 0; i < 12; i++ {
				pause()
				switch pr.Intn(6) {
				case 0, 1:
					op := &regOp{kind: 'n', key: keys[pr.Intn(nkeys)]}
					record(&local, op, func() { op.ns, _ = xmp.GetNamespace(op.key) })
					if op.ns != nil {
						// whoever finds the name finds the uri
						o2 := &regOp{kind: 'u', key: op.ns.GetURI()}
						record(&local, o2, func() { o2.prefix = xmp.NsRegistry.GetPrefix(o2.key) })
					}
				case 2:
					op := &regOp{kind: 'u', key: uris[pr.Intn(len(uris))]}
					record(&local, op, func() { op.prefix = xmp.NsRegistry.GetPrefix(op.key) })
				case 3:
					op := &regOp{kind: 'l'}
					var l xmp.NamespaceList
					record(&local, op, func() { l = xmp.NsRegistry.Namespaces() })
					op.list = map[*xmp.Namespace]int{}
					for i, n := range l {
						op.list[n]++
						l[i] = nil // the list belongs to the caller
					}
				case 4:
					op := &regOp{kind: 'g'}
					var l xmp.NamespaceList
					record(&local, op, func() { l, _ = xmp.GetGroupNamespaces(group) })
					op.list = map[*xmp.Namespace]int{}
					op.order = append(op.order, l...)
					for i, n := range l {
						op.list[n]++
						l[i] = nil
					}
					_ = append(l, nil)
				default:
					op := &regOp{kind: 'p', names: map[string]int{}}
					var l []string
					record(&local, op, func() { l = xmp.NsRegistry.Prefixes() })
					for i, n := range l {
						op.names[n]++
						l[i] = ""
					}
				}
			}
			mu.Lock()
			hist = append(hist, local...)
			mu.Unlock()
		}()
	}
	// documents are loaded meanwhile
	wg.Add(1)
	seed := r.Int63()
	go func() {
		defer wg.Done()
		<-start
		job(seed, runtime.Gosched)
	}()
	close(start)
	wg.Wait()
	checkRegistry(c, hist, inGroup, keys)
	if c.failed() {
		return
	}
	// the documents see what is registered
	for _, k := range keys {
		ns, err := xmp.GetNamespace(k)
		if err != nil || xmp.NsRegistry.GetPrefix(ns.GetURI()) != k {
			continue
		}
		b := fmt.Sprintf(`<rdf:RDF xmlns:rdf="%s"><rdf:Description rdf:about="" xmlns:q="%s" q:name="1"/></rdf:RDF>`, nsRDF, ns.GetURI())
		doc, err := decodeXML([]byte(b))
		if err != nil {
			c.Fail("decode", "%v", err)
			return
		}
		v, err := doc.GetPath(xmp.Path(k + ":name"))
		if v != "1" {
			c.Fail("decode", "a namespace registered as %s is not found by its prefix: %q %v", k, v, err)
		}
		doc.Close()
	}
}

func checkRegistry(c *Case, hist []*regOp, inGroup map[*xmp.Namespace]bool, keys []string) {
	sort.Slice(hist, func(i, j int) bool { return hist[i].start < hist[j].start })
	var text []string
	shape := ""
	for _, o := range hist {
		n := "-"
		if o.ns != nil {
			n = o.ns.GetName() + "=" + o.ns.GetURI()
		}
		text = append(text, fmt.Sprintf("%d-%d %c %s %s %s %d", o.start, o.end, o.kind, o.key, n, o.prefix, len(o.list)))
		shape += string(o.kind)
	}
	c.Seen(shape)
	c.Art("history", strings.Join(text, "\n"))
	writes := map[string][]*regOp{}
	byNs := map[*xmp.Namespace]*regOp{}
	byURI := map[string][]*regOp{}
	for _, o := range hist {
		if o.kind == 'w' {
			writes[o.key] = append(writes[o.key], o)
			byNs[o.ns] = o
			byURI[o.ns.GetURI()] = append(byURI[o.ns.GetURI()], o)
			c.Event("registration")
		}
	}
	// overwritten tells whether another registration of the key lies wholly
	// between w and t
	between := func(l []*regOp, w *regOp, t int64) bool {
		for _, x := range l {
			if x.start > w.end && x.end < t {
				return true
			}
		}
		return false
	}
	overwritten := func(w *regOp, t int64) bool { return between(writes[w.key], w, t) }
	sharedURI := func(w *regOp) []*regOp { return byURI[w.ns.GetURI()] }
	ends := append([]*regOp{}, hist...)
	sort.Slice(ends, func(i, j int) bool { return ends[i].end < ends[j].end })
	for _, o := range hist {
		c.Eval(1)
		switch o.kind {
		case 'n':
			overlap := false
			must := false
			for _, w := range writes[o.key] {
				must = must || w.end < o.start
				overlap = overlap || w.start < o.end && w.end > o.start
			}
			if overlap {
				c.Event("lookup during registration")
			}
			if o.ns == nil {
				if must {
					c.Fail("name:lost", "lookup %d-%d of %s finds nothing after its registration", o.start, o.end, o.key)
					return
				}
				continue
			}
			w := byNs[o.ns]
			switch {
			case w == nil || w.key != o.key:
				c.Fail("name:wrong", "lookup of %s gives %s", o.key, o.ns.GetName())
			case w.start > o.end:
				c.Fail("name:future", "lookup of %s gives a namespace registered later", o.key)
			case overwritten(w, o.start):
				c.Fail("name:stale", "lookup %d-%d of %s gives an overwritten namespace (%d-%d)", o.start, o.end, o.key, w.start, w.end)
			}
		case 'u':
			must, found := false, false
			for _, w := range byURI[o.key] {
				must = must || w.end < o.start
				found = found || o.prefix == w.key && w.start < o.end && !between(byURI[o.key], w, o.start)
			}
			switch {
			case o.prefix == "" && must:
				c.Fail("uri:lost", "lookup %d-%d of %s finds nothing after its registration", o.start, o.end, o.key)
			case o.prefix != "" && !found:
				c.Fail("uri:wrong", "lookup %d-%d of %s gives %s", o.start, o.end, o.key, o.prefix)
			}
			if len(byURI[o.key]) > 1 {
				c.Event("uri of several registrations")
			}
			// name found before: uri must be found
			if o.prefix == "" {
				for _, n := range hist {
					if n.kind == 'n' && n.ns != nil && n.ns.GetURI() == o.key && n.end < o.start {
						c.Fail("uri:torn", "%s was found by name (%d-%d) but not by its uri (%d-%d)", n.key, n.start, n.end, o.start, o.end)
						return
					}
				}
			}
		case 'l', 'g', 'p':
			for ns, w := range byNs {
				n := o.list[ns]
				if o.kind == 'p' {
					n = o.names[w.key]
				}
				want := o.kind != 'g' || inGroup[ns]
				switch {
				case n > 1:
					c.Fail("list:twice", "%c list has %s %d times", o.kind, w.key, n)
				case o.kind == 'l' && len(sharedURI(w)) > 1:
					// one entry for all registrations of the uri
					total := 0
					for _, x := range sharedURI(w) {
						total += o.list[x.ns]
					}
					switch {
					case total > 1:
						c.Fail("list:twice", "list has %s %d times", w.ns.GetURI(), total)
					case total == 0 && w.end < o.start:
						c.Fail("list:lost", "list %d-%d lacks %s registered %d-%d", o.start, o.end, ns.GetURI(), w.start, w.end)
					case n == 1 && w.start > o.end:
						c.Fail("list:wrong", "list has %s", ns.GetURI())
					case n == 1 && between(sharedURI(w), w, o.start):
						c.Fail("list:stale", "list %d-%d has %s of the overwritten registration %d-%d", o.start, o.end, ns.GetURI(), w.start, w.end)
					}
				case n == 0 && want && w.end < o.start:
					c.Fail("list:lost", "%c list %d-%d lacks %s registered %d-%d", o.kind, o.start, o.end, ns.GetURI(), w.start, w.end)
				case n == 1 && (!want || o.kind != 'p' && w.start > o.end):
					c.Fail("list:wrong", "%c list has %s", o.kind, ns.GetURI())
				}
			}
			for i := range o.order {
				for j := i + 1; j < len(o.order); j++ {
					a, b := byNs[o.order[i]], byNs[o.order[j]]
					if a == nil || b == nil {
						c.Fail("group:wrong", "group list has a foreign namespace")
						return
					}
					if b.end < a.start {
						c.Fail("group:order", "group list is not in the order of registration")
					}
				}
			}
		}
		if c.failed() {
			return
		}
	}
	// no lookup goes back behind an earlier one
	for _, o := range ends {
		if o.kind != 'n' || o.ns == nil {
			continue
		}
		w := byNs[o.ns]
		for _, p := range ends {
			if p.end >= o.start {
				break
			}
			if p.kind == 'n' && p.key == o.key && p.ns != nil && p.ns != o.ns && w.end < byNs[p.ns].start {
				c.Fail("name:back", "lookup %d-%d of %s gives an older namespace than the lookup %d-%d", o.start, o.end, o.key, p.start, p.end)
				return
			}
		}
	}
	// in the end the last registration counts
	for _, k := range keys {
		ns, err := xmp.GetNamespace(k)
		c.Eval(1)
		if len(writes[k]) == 0 {
			if err == nil {
				c.Fail("final", "%s was never registered", k)
			}
			continue
		}
		if err != nil || byNs[ns] == nil || overwritten(byNs[ns], 1<<62) {
			c.Fail("final", "%s is %v %v", k, ns, err)
			return
		}
	}
}

func init() {
	register(&Property{
		ID:   "P15",
		Race: true,
		Rule: "1-3 goroutines register namespaces (also the same prefix again) while 2-5 look them up by name, uri, group and list and one loads documents, under the race detector; the recorded histories are checked: every lookup sees all registrations that ended before it began, none that began after it ended, nothing overwritten, nothing half done; distinct by order of operations",
		Scenarios: []Scenario{
			{"registry", 1500, 30000, registry},
		},
	})
}
