package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

var filterGroups = []string{"xmp", "image", "music", "movie", "sound", "camera", "rights"}

var groupTable = map[string][]string{
	"xmp":    {"dc", "digiKam", "pdf", "xmp", "xmpBJ", "xmpDM", "xmpMM", "xmpRights", "xmpTPg"},
	"image":  {"aux", "crs", "exif", "exifEX", "photomechanic", "photoshop", "tiff"},
	"music":  {"iTunes", "id3"},
	"movie":  {"mp4", "qt"},
	"sound":  {"iXML", "riffinfo"},
	"camera": {"drone-dji", "qt"},
	"rights": {"cc", "xmpRights"},
}

// groupOf is the membership of the standard groups.
func groupOf(g string) []string { return groupTable[g] }

// remove takes the properties of a prefix out of the reference.
func (w *world) remove(p string) {
	for _, q := range sortedQ(w.d.props) {
		if w.d.pfx[q.uri] == p {
			delete(w.d.props, q)
		}
	}
	for k := range w.extra {
		if strings.HasPrefix(k, p+":") {
			delete(w.extra, k)
		}
	}
}

func (w *world) nodeNames() map[string]bool {
	m := map[string]bool{}
	for _, n := range w.doc.Nodes() {
		m[n.Name()] = true
	}
	return m
}

func filters(c *Case) {
	r := c.R
	d := genDoc(r, genOpt{unknown: r.Intn(3) > 0, maxProps: 5, models: pickModels(r, 2+r.Intn(6))})
	w := newWorld(c, d)
	if w == nil {
		return
	}
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		if r.Intn(3) == 0 {
			if !w.step(c) {
				return
			}
			continue
		}
		names := w.nodeNames()
		var present []string
		for k := range names {
			present = append(present, k)
		}
		sort.Strings(present)
		all := append([]string{"nosuch", "vfnone"}, sortedKeys(golden.byPfx)...)
		pick := func() string {
			if len(present) > 0 && r.Intn(4) > 0 {
				return present[r.Intn(len(present))]
			}
			return all[r.Intn(len(all))]
		}
		list := func() ([]string, xmp.NamespaceList) {
			var p []string
			var l xmp.NamespaceList
			for i, n := 0, 1+r.Intn(4); i < n; i++ {
				k := pick()
				if ns := w.doc.FindNs(k+":x", ""); ns != nil {
					l = append(l, ns)
				} else if ns, err := xmp.GetNamespace(k); err == nil {
					l = append(l, ns)
				} else {
					l = append(l, xmp.NewNamespace(k, "", nil))
				}
				p = append(p, k)
			}
			return p, l
		}
		w.doc.Nodes()
		gone := func(k string) bool { return false }
		var what string
		var call func() bool
		filter := func(inc, exc []string) {
			gone = func(k string) bool { return len(inc) > 0 && !in(inc, k) || in(exc, k) }
		}
		switch r.Intn(7) {
		case 0:
			k := pick()
			what = "RemoveNamespaceByName(" + k + ")"
			gone = func(x string) bool { return x == k }
			call = func() bool { return w.doc.RemoveNamespaceByName(k) }
		case 1:
			p, l := list()
			what = fmt.Sprintf("RemoveNamespaces(%s)", p)
			filter(nil, p)
			call = func() bool { return w.doc.RemoveNamespaces(l) }
		case 2:
			p, l := list()
			what = fmt.Sprintf("FilterNamespaces(%s)", p)
			filter(p, nil)
			call = func() bool { return w.doc.FilterNamespaces(l) }
		case 3:
			p1, l1 := list()
			p2, l2 := list()
			what = fmt.Sprintf("NewFilter(%s, %s)", p1, p2)
			filter(p1, p2)
			call = func() bool { return xmp.NewFilter(l1, l2).Apply(w.doc) }
		default:
			var inc, exc, items []string
			strict := true
			for i, n := 0, 1+r.Intn(5); i < n; i++ {
				k := pick()
				if r.Intn(3) == 0 {
					k = filterGroups[r.Intn(len(filterGroups))]
				}
				m := []string{k}
				if in(filterGroups, k) {
					m = groupOf(k)
				}
				_, err := xmp.GetNamespace(k)
				unknown := err != nil && !in(filterGroups, k)
				switch r.Intn(5) {
				case 0, 1:
					exc = append(exc, m...)
					items = append(items, "-"+k)
				case 2:
					inc = append(inc, m...)
					items = append(items, "+"+k)
				case 3:
					inc = append(inc, m...)
					items = append(items, k)
				default:
					if r.Intn(2) == 0 {
						items = append(items, "")
						continue
					}
					inc = append(inc, m...)
					items = append(items, " "+k)
					unknown = true
				}
				strict = strict && !unknown
			}
			s := strings.Join(items, ",")
			filter(inc, exc)
			what = fmt.Sprintf("filter %q", s)
			f := xmp.ParseFilter(s)
			fs, err := xmp.ParseFilterStrict(s)
			if (err == nil) != strict {
				c.Fail("strict", "ParseFilterStrict(%q): %v", s, err)
				return
			}
			switch {
			case err == nil && r.Intn(2) == 0:
				f = fs
			case r.Intn(3) == 0:
				f = &xmp.Filter{}
				f.UnmarshalText([]byte(s))
			case r.Intn(3) == 0:
				x := xmp.ConvertFilter(s).Interface().(xmp.Filter)
				f = &x
			case r.Intn(2) == 0:
				f = xmp.ParseFilter(f.String())
			}
			c.Event("filter string")
			call = func() bool { return f.Apply(w.doc) }
		}
		any := false
		for k := range names {
			any = any || gone(k)
		}
		dirty := w.doc.IsDirty()
		w.log = append(w.log, what)
		got := call()
		c.Event("removal " + fmt.Sprint(any))
		c.Seen(what, strings.Join(present, " "))
		if got != any {
			c.Fail("result", "%s on a document with %s reports %v", what, present, got)
			return
		}
		if !dirty && w.doc.IsDirty() != any {
			c.Fail("dirty", "%s reports %v, document counts as changed: %v", what, got, w.doc.IsDirty())
			return
		}
		for k := range names {
			if gone(k) {
				w.remove(k)
			}
		}
		for k := range w.extra {
			if gone(k[:strings.Index(k, ":")]) {
				delete(w.extra, k)
			}
		}
		for k := range w.nodeNames() {
			if gone(k) {
				c.Fail("left", "%s leaves %s", what, k)
				return
			}
		}
		if !w.verify(c, what) {
			return
		}
	}
	if !w.models {
		b, err := json.Marshal(w.doc)
		if err != nil {
			c.Fail("json", "%v", err)
			return
		}
		x := &xmp.Document{}
		if err := json.Unmarshal(b, x); err != nil {
			c.Fail("json", "%v", err)
			return
		}
		for _, n := range x.Nodes() {
			if !w.nodeNames()[n.Name()] {
				c.Fail("json", "JSON has properties of %s", n.Name())
			}
		}
		x.Close()
	}
	w.finish(c)
}

func init() {
	register(&Property{
		ID:   "P16",
		Rule: "random documents of 2-7 models and unknown namespaces; single removals, lists, keep lists and filter strings (groups, all signs, strict and lenient) mixed with edits; the result flag, the change flag, the complete path list, XML and JSON are compared with a reference; distinct by (call, namespaces present)",
		Scenarios: []Scenario{
			{"filters", 40000, 300000, filters},
		},
	})
}
