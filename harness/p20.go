package main

import (
	"encoding/xml"
	"fmt"

	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/ixml"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
)

// Collections against plain reference implementations.

// coll is one list of words; functions that a type lacks are nil.
type coll struct {
	items    func() []string
	add      func(string)
	unique   func(string)
	index    func(string) int
	contains func(string) bool
	remove   func(string)
	set      bool // add keeps words unique
	empties  bool // empty words are values
}

var collTypes = []struct {
	name string
	make func(init []string) coll
}{
	{"StringList", func(init []string) coll {
		x := xmp.NewStringList(init...)
		return coll{func() []string { return x }, func(s string) { x.Add(s) }, func(s string) { x.AddUnique(s) }, func(s string) int { return x.Index(s) }, func(s string) bool { return x.Contains(s) }, func(s string) { x.Remove(s) }, false, false}
	}},
	{"StringArray", func(init []string) coll {
		x := xmp.NewStringArray(init...)
		return coll{func() []string { return x }, func(s string) { x.Add(s) }, func(s string) { x.AddUnique(s) }, func(s string) int { return x.Index(s) }, func(s string) bool { return x.Contains(s) }, func(s string) { x.Remove(s) }, false, false}
	}},
	{"IdentifierArray", func(init []string) coll {
		var l []interface{}
		for _, s := range init {
			l = append(l, s)
		}
		x := xmpbase.NewIdentifierArray(l...)
		return coll{func() []string {
			var l []string
			for _, v := range x {
				l = append(l, v.ID)
			}
			return l
		}, func(s string) {
			if s != "" {
				x.Add(s)
			}
		}, func(s string) {
			if s != "" {
				x.AddUnique(s)
			}
		}, func(s string) int { return x.Index(s) }, func(s string) bool { return x.Contains(s) }, func(s string) { x.Remove(s) }, false, false}
	}},
	{"TakeTypeList", func(init []string) coll {
		var x ixml.TakeTypeList
		for _, s := range init {
			x.Add(ixml.ParseTakeType(s))
		}
		return coll{func() []string { return strs(x) }, func(s string) { x.Add(ixml.ParseTakeType(s)) }, nil, nil, func(s string) bool { return x.Contains(ixml.TakeType(s)) }, func(s string) { x.Del(ixml.TakeType(s)) }, true, true}
	}},
	{"LocationTypeList", func(init []string) coll {
		var x ixml.LocationTypeList
		for _, s := range init {
			x.Add(ixml.ParseLocationType(s))
		}
		return coll{func() []string { return strs(x) }, func(s string) { x.Add(ixml.ParseLocationType(s)) }, nil, nil, func(s string) bool { return x.Contains(ixml.LocationType(s)) }, func(s string) { x.Del(ixml.LocationType(s)) }, true, true}
	}},
	{"LocationTimeList", func(init []string) coll {
		var x ixml.LocationTimeList
		for _, s := range init {
			x.Add(ixml.ParseLocationTime(s))
		}
		return coll{func() []string { return strs(x) }, func(s string) { x.Add(ixml.ParseLocationTime(s)) }, nil, nil, func(s string) bool { return x.Contains(ixml.LocationTime(s)) }, func(s string) { x.Del(ixml.LocationTime(s)) }, true, true}
	}},
	{"FunctionSet", func(init []string) coll {
		var x ixml.FunctionSet
		for _, s := range init {
			x.Add(ixml.FunctionType(s))
		}
		return coll{func() []string { return strs(x) }, func(s string) { x.Add(ixml.FunctionType(s)) }, nil, nil, func(s string) bool { return x.Contains(ixml.FunctionType(s)) }, func(s string) { x.Del(ixml.FunctionType(s)) }, true, true}
	}},
	{"ResourceRefArray", func(init []string) coll {
		var x xmpmm.ResourceRefArray
		add := func(s string) {
			if s != "" {
				x = append(x, &xmpmm.ResourceRef{DocumentID: xmp.GUID(s)})
			}
		}
		for _, s := range init {
			add(s)
		}
		return coll{func() []string {
			var l []string
			for _, v := range x {
				l = append(l, string(v.DocumentID))
			}
			return l
		}, add, nil, func(s string) int { return x.Index(xmp.GUID(s)) }, nil, func(s string) { x.DeleteIndex(x.Index(xmp.GUID(s))) }, false, false}
	}},
}

// strs makes words of a slice of strings of any type.
func strs(x interface{}) []string {
	v := reflect.ValueOf(x)
	var l []string
	for i := 0; i < v.Len(); i++ {
		l = append(l, v.Index(i).String())
	}
	return l
}

func find(l []string, s string) int {
	for i, v := range l {
		if v == s {
			return i
		}
	}
	return -1
}

func collections(c *Case) {
	r := c.R
	t := collTypes[c.Idx%len(collTypes)]
	word := func() string {
		return pick(r, "a", "b", "c", "NO_GOOD", "DEFAULT", "INT", "DAY", "L-5.1", "A", "ä", "x y", "")
	}
	var want []string
	init := []string{}
	for i := r.Intn(4); i > 0; i-- {
		s := word()
		init = append(init, s)
	}
	x := t.make(append([]string{}, init...))
	put := func(s string, unique bool) {
		if s == "" && !x.empties || (unique || x.set) && find(want, s) > -1 {
			return
		}
		want = append(want, s)
	}
	for _, s := range init {
		put(s, false)
	}
	log := fmt.Sprintf("%s%q", t.name, init)
	for i := 0; i < 12; i++ {
		s := word()
		switch k := r.Intn(5); {
		case k == 0:
			x.add(s)
			put(s, false)
			log += fmt.Sprintf(" add(%q)", s)
		case k == 1 && x.unique != nil:
			x.unique(s)
			put(s, true)
			log += fmt.Sprintf(" unique(%q)", s)
		case k == 2:
			x.remove(s)
			if j := find(want, s); j > -1 {
				want = append(append([]string{}, want[:j]...), want[j+1:]...)
			}
			log += fmt.Sprintf(" remove(%q)", s)
		case k == 3 && x.index != nil:
			w := find(want, s)
			if got := x.index(s); got != w {
				c.Fail(t.name+":index", "%s: index of %q is %d in %q, not %d", log, s, w, want, got)
			}
		case x.contains != nil:
			if got := x.contains(s); got != (find(want, s) > -1) {
				c.Fail(t.name+":contains", "%s: %q in %q is %v", log, s, want, got)
			}
		}
		if got := x.items(); strings.Join(got, "\x00") != strings.Join(want, "\x00") {
			c.Fail(t.name+":items", "%s is %q, not %q", log, want, got)
			return
		}
		c.Eval(1)
	}
	c.Event(t.name)
	c.Seen(log)
}

// the constant function sets, by the iXML specification
var functionSets = []struct {
	name  string
	set   *ixml.FunctionSet
	words string
}{
	{"MS", &ixml.FunctionSetMS, "M-MID_SIDE S-MID_SIDE"}, {"XY", &ixml.FunctionSetXY, "X-X_Y Y-X_Y"}, {"StereoDownmix", &ixml.FunctionSetStereoDownmix, "L-MIX R-MIX"},
	{"MonoDownmix", &ixml.FunctionSetMonoDownmix, "MIX"}, {"Stereo", &ixml.FunctionSetStereo, "LEFT RIGHT"}, {"DMS", &ixml.FunctionSetDMS, "F-DMS 8-DMS R-DMS"},
	{"LCR", &ixml.FunctionSetLCR, "L-LCR C-LCR R-LCR"}, {"LCRS", &ixml.FunctionSetLCRS, "L-LCRS C-LCRS R-LCRS S-LCRS"},
	{"51", &ixml.FunctionSet51, "L-5.1 C-5.1 R-5.1 Ls-5.1 Rs-5.1 LFE-5.1"}, {"71", &ixml.FunctionSet71, "L-7.1 Lc-7.1 C-7.1 Rc-7.1 R-7.1 Ls-7.1 Rs-7.1 LFE-7.1"},
	{"Soundfield", &ixml.FunctionSetSoundfiled, "W-SOUNDFIELD X-SOUNDFIELD Y-SOUNDFIELD Z-SOUNDFIELD"},
}

func functions(c *Case) {
	r := c.R
	a := functionSets[r.Intn(len(functionSets))]
	x, want := *a.set, strings.Fields(a.words)
	log := a.name
	for i := 0; i < 6; i++ {
		b := functionSets[r.Intn(len(functionSets))]
		if r.Intn(3) == 0 {
			b = a
		}
		bw := strings.Fields(b.words)
		del := func(s string) {
			if j := find(want, s); j > -1 {
				want = append(append([]string{}, want[:j]...), want[j+1:]...)
			}
		}
		switch r.Intn(4) {
		case 0:
			x.Merge(*b.set)
			for _, s := range bw {
				if find(want, s) < 0 {
					want = append(want, s)
				}
			}
			log += " merge " + b.name
		case 1:
			x.Sub(*b.set)
			for _, s := range bw {
				del(s)
			}
			log += " sub " + b.name
		case 2:
			s := bw[r.Intn(len(bw))]
			x.Del(ixml.FunctionType(s))
			del(s)
			log += " del " + s
		case 3:
			s := bw[r.Intn(len(bw))]
			x.Add(ixml.FunctionType(s))
			if find(want, s) < 0 {
				want = append(want, s)
			}
			log += " add " + s
		}
		if got := strs(x); strings.Join(got, " ") != strings.Join(want, " ") {
			c.Fail("FunctionSet:algebra", "%s is %q, not %q", log, want, got)
			return
		}
		for _, f := range functionSets {
			if got := strings.Join(strs(*f.set), " "); got != f.words {
				c.Fail("FunctionSet:constant", "after %s the set %s is %q, not %q", log, f.name, got, f.words)
				return
			}
		}
		c.Eval(2)
	}
	c.Event("functions")
	c.Seen(log)
}

// alt is the reference of an alternative: a default that may have a
// language, and texts by language.
type alt struct {
	has  bool
	lang string
	text string
	by   map[string]string // other languages
}

func (a *alt) get(lang string) string {
	if lang == "" || lang == "x-default" || a.has && lang == a.lang {
		if a.has {
			return a.text
		}
		return ""
	}
	return a.by[lang]
}

func (a *alt) set(lang, v string) {
	if v == "" {
		return
	}
	switch {
	case lang == "" || lang == "x-default":
		if a.has && a.lang != "" {
			a.by[a.lang] = a.text
		}
		a.has, a.lang, a.text = true, "", v
	case !a.has:
		a.has, a.lang, a.text = true, lang, v
	case lang == a.lang:
		a.text = v
	default:
		a.by[lang] = v
	}
}

func (a *alt) show() string {
	if !a.has {
		return "[]"
	}
	s := fmt.Sprintf("[%s=%q", a.lang, a.text)
	for _, k := range sortedKeys(a.by) {
		s += fmt.Sprintf(" %s=%q", k, a.by[k])
	}
	return s + "]"
}

func showAlt(x xmp.AltString) (string, error) {
	if len(x) == 0 {
		return "[]", nil
	}
	var l []string
	seen := map[string]bool{}
	for i, v := range x {
		if v.IsDefault != (i == 0) {
			return "", fmt.Errorf("item %d of %+v is default: %v", i, x, v.IsDefault)
		}
		if i > 0 && v.Lang == "" {
			return "", fmt.Errorf("item %d of %+v has no language", i, x)
		}
		if seen[v.Lang] {
			return "", fmt.Errorf("language %q appears twice in %+v", v.Lang, x)
		}
		seen[v.Lang] = true
		if i > 0 {
			l = append(l, fmt.Sprintf("%s=%q", v.Lang, v.Value))
		}
	}
	sort.Strings(l)
	return strings.TrimSpace("["+fmt.Sprintf("%s=%q ", x[0].Lang, x[0].Value)+strings.Join(l, " ")) + "]", nil
}

func alternatives(c *Case) {
	r := c.R
	n := 0
	text := func() string {
		if r.Intn(10) == 0 {
			return ""
		}
		n++
		return fmt.Sprintf("%s %d", genText(r), n) // a new one
	}
	lang := func() string { return pick(r, "", "x-default", "en", "de-DE", "fr", "ja") }
	a := &alt{by: map[string]string{}}
	var x xmp.AltString
	log := ""
	switch r.Intn(4) {
	case 0, 1:
	case 2:
		// any items may claim to be the default, the first of them is
		var items []interface{}
		var own xmp.AltString
		for _, l := range []string{"en", "fr", "de-DE", "ja"}[:1+r.Intn(4)] {
			it := xmp.AltItem{Lang: l, Value: text(), IsDefault: r.Intn(2) == 0}
			items = append(items, it)
			if it.Value == "" {
				continue
			}
			own = append(own, it)
			if it.IsDefault && !a.has {
				a.has, a.lang, a.text = true, l, it.Value
			} else {
				a.by[l] = it.Value
			}
		}
		if !a.has && len(own) > 0 {
			a.has, a.lang, a.text = true, own[0].Lang, own[0].Value
			delete(a.by, a.lang)
		}
		log = fmt.Sprintf("items%+v", items)
		if r.Intn(2) == 0 {
			x = xmp.NewAltString(items...)
		} else {
			x = own
			x.EnsureDefault()
		}
	default:
		var items []interface{}
		if s := text(); r.Intn(2) == 0 {
			a.set("", s)
			items = append(items, s)
		}
		for _, l := range []string{"en", "fr"}[:r.Intn(3)] {
			s := text()
			if s != "" {
				if !a.has {
					a.set(l, s)
				} else {
					a.by[l] = s
				}
			}
			items = append(items, xmp.AltItem{Lang: l, Value: s})
		}
		log = fmt.Sprintf("new%q", items)
		x = xmp.NewAltString(items...)
	}
	for i := 0; i < 14; i++ {
		l, s := lang(), text()
		own := a.has && a.lang == l || a.by[l] != ""
		switch r.Intn(7) {
		case 0:
			if own && l != "" && l != "x-default" {
				continue // adds another text
			}
			x.Add(l, s)
			a.set(l, s)
			log += fmt.Sprintf(" add(%s, %q)", l, s)
		case 1:
			x.Set(l, s)
			a.set(l, s)
			log += fmt.Sprintf(" set(%s, %q)", l, s)
		case 2:
			if own && l != "" && l != "x-default" {
				continue
			}
			x.AddDefault(l, s)
			if s != "" {
				if a.has && a.lang != "" {
					a.by[a.lang] = a.text
				}
				if l == "x-default" {
					l = ""
				}
				a.has, a.lang, a.text = true, l, s
			}
			log += fmt.Sprintf(" default(%s, %q)", l, s)
		case 3:
			old := a.get(l)
			if r.Intn(2) == 0 && old != "" {
				s = old
			} else if own && l != "" && l != "x-default" {
				continue
			}
			want := s != "" && s != old
			got := x.AddUnique(l, s)
			if want {
				a.set(l, s)
			}
			log += fmt.Sprintf(" unique(%s, %q)", l, s)
			if got != want {
				c.Fail("unique", "%s: added %v", log, got)
			}
		case 4:
			x.RemoveLang(l)
			log += fmt.Sprintf(" remove(%s)", l)
			switch def := l == "" || l == "x-default"; {
			case a.has && (def && a.lang == "" || a.lang == l):
				// another one becomes the default
				a.has = false
				if s, err := showAlt(x); err != nil {
					c.Fail("shape", "%s: %v", log, err)
					return
				} else if len(a.by) > 0 && s == "[]" || len(a.by) == 0 && len(x) > 0 {
					c.Fail("remove", "%s: %s is left of %q", log, s, a.by)
					return
				} else if len(x) > 0 {
					v, ok := a.by[x[0].Lang]
					if !ok || v != x[0].Value {
						c.Fail("remove", "%s: %s is left of %q", log, s, a.by)
						return
					}
					a.has, a.lang, a.text = true, x[0].Lang, v
					delete(a.by, a.lang)
				}
			case a.has && def:
				// the default loses that role, but one has to have it
				if len(x) > 0 && x[0].Lang != a.lang {
					if v, ok := a.by[x[0].Lang]; ok {
						a.by[a.lang] = a.text
						a.lang, a.text = x[0].Lang, v
						delete(a.by, a.lang)
					}
				}
			default:
				delete(a.by, l)
			}
		case 5:
			if got := x.Get(l); got != a.get(l) {
				c.Fail("get", "%s: text for %q is %q, got %q", log, l, a.get(l), got)
			}
			if got := x.Default(); got != a.get("") {
				c.Fail("get", "%s: default is %q, got %q", log, a.get(""), got)
			}
			if i := x.Index(l); (i > -1) != (a.get(l) != "") || i > -1 && x[i].Value != a.get(l) {
				c.Fail("get", "%s: index of %q is %d", log, l, i)
			}
		case 6:
			d := xmp.NewDocument()
			m, err := dc.MakeModel(d)
			if err != nil {
				c.Fail("model", "%v", err)
				return
			}
			m.Title = x
			b, err := xmp.Marshal(d)
			d.Close()
			d2 := xmp.NewDocument()
			if err == nil {
				err = xmp.Unmarshal(b, d2)
			}
			if err != nil {
				c.Fail("xmp", "%s: %v", log, err)
				return
			}
			var y xmp.AltString
			if m := dc.FindModel(d2); m != nil {
				y = m.Title
			}
			d2.Close()
			s, err := showAlt(y)
			if err != nil || s != a.show() {
				c.Fail("xmp", "%s: read back as %s, not %s: %v", log, s, a.show(), err)
				return
			}
			c.Event("alt:xmp")
		}
		s, err := showAlt(x)
		if err != nil {
			c.Fail("shape", "%s: %v", log, err)
			return
		}
		if s != a.show() {
			c.Fail("items", "%s is %s, not %s", log, a.show(), s)
			return
		}
		c.Eval(1)
	}
	c.Event("alternatives")
	c.Seen(log)
}

// lists checks path lists, node lists, namespace lists and type lists.
func otherLists(c *Case) {
	r := c.R
	paths := func() (xmp.PathValueList, map[string]string) {
		var l xmp.PathValueList
		m := map[string]string{}
		for i := r.Intn(8); i > 0; i-- {
			p, v := pick(r, "dc:title[en]", "dc:title", "xmp:Label", "tiff:Make", "dc:creator[0]", "dc:creator[1]"), pick(r, "1", "2", "")
			if m[p] != "" {
				continue
			}
			if r.Intn(2) == 0 {
				l.Add(xmp.Path(p), v)
			} else {
				l.AddFlags(xmp.Path(p), v, xmp.MERGE)
			}
			if v != "" {
				m[p] = v
			}
		}
		return l, m
	}
	a, am := paths()
	b, bm := paths()
	if len(a) != len(am) {
		c.Fail("paths:add", "%v has %d values", a, len(am))
	}
	for _, p := range []string{"dc:title[en]", "dc:title", "xmp:Label", "tiff:Make", "dc:creator[0]", "dc:creator[1]", "dc"} {
		f := a.Find(xmp.Path(p))
		if (f != nil) != (am[p] != "") || f != nil && (f.Value != am[p] || string(f.Path) != p) {
			c.Fail("paths:find", "%q in %v is %v", p, a, f)
		}
	}
	diff := a.Diff(b)
	want := map[string]string{}
	for p, v := range am {
		if bm[p] == "" {
			want[p] = "delete"
		} else if bm[p] != v {
			want[p] = "replace"
		}
	}
	for p := range bm {
		if am[p] == "" {
			want[p] = "create"
		}
	}
	got := map[string]string{}
	for _, v := range diff {
		s := "?"
		switch {
		case len(a) == 0 || len(b) == 0:
			s = want[string(v.Path)]
		case v.Flags == xmp.DELETE && v.Value == am[string(v.Path)]:
			s = "delete"
		case v.Flags == xmp.CREATE && v.Value == bm[string(v.Path)]:
			s = "create"
		case v.Flags == xmp.REPLACE:
			s = "replace"
		}
		if got[string(v.Path)] != "" {
			s = "twice"
		}
		got[string(v.Path)] = s
	}
	if d := diffMaps(want, got); len(d) > 0 {
		c.Fail("paths:diff", "%v to %v: %s", a, b, head(d, 3))
	}
	if len(a.Diff(append(xmp.PathValueList{}, a...))) != 0 && len(a) > 0 {
		c.Fail("paths:diff", "%v differs from itself", a)
	}
	all := append(append(xmp.PathValueList{}, a...), b...)
	sort.SliceStable(all, func(i, j int) bool { return all[i].Path < all[j].Path })
	u := all.Unique()
	seen := map[string]bool{}
	for _, v := range u {
		if seen[string(v.Path)] {
			c.Fail("paths:unique", "%s is twice in %v", v.Path, u)
		}
		seen[string(v.Path)] = true
		w := am[string(v.Path)]
		if w == "" {
			w = bm[string(v.Path)]
		}
		if v.Value != w {
			c.Fail("paths:unique", "%s is %q in %v, the first was %q", v.Path, v.Value, u, w)
		}
	}
	for _, v := range all {
		if !seen[string(v.Path)] {
			c.Fail("paths:unique", "%s is lost", v.Path)
		}
	}
	c.Eval(6)
	c.Event("paths")

	// nodes are found by name and identity, added ones replace their name
	var nl xmp.NodeList
	var ref []*xmp.Node
	name := func() string { return pick(r, "dc", "xmp", "tiff", "a:b", "b") }
	mk := func(s string) *xmp.Node { return &xmp.Node{XMLName: xml.Name{Local: s}} }
	for i := 0; i < 10; i++ {
		s := name()
		switch r.Intn(4) {
		case 0:
			n := mk(s)
			k := -1
			for j, v := range ref {
				if k < 0 && v.XMLName.Local == s {
					k = j
				}
			}
			if k >= 0 {
				ref[k] = n
			} else {
				ref = append(ref, n)
			}
			nl.AddNode(n)
		case 1:
			n := mk(s)
			ref = append(ref, n)
			nl.AppendNode(n)
		case 2:
			n := mk(s)
			if len(ref) > 0 && r.Intn(4) > 0 {
				n = ref[r.Intn(len(ref))]
			}
			var keep []*xmp.Node
			for _, v := range ref {
				if v != n {
					keep = append(keep, v)
				}
			}
			ref = keep
			nl.RemoveNode(n)
			if nl.Index(n) >= 0 {
				c.Fail("nodes:remove", "a removed node is still there")
			}
		case 3:
			var w *xmp.Node
			for _, v := range ref {
				if w == nil && v.XMLName.Local[strings.Index(v.XMLName.Local, ":")+1:] == s {
					w = v
				}
			}
			if g := nl.FindNodeByName(s); g != w {
				c.Fail("nodes:find", "node %q is %v, not %v", s, w, g)
			}
		}
		if len(nl) != len(ref) {
			c.Fail("nodes:list", "%d nodes, not %d", len(ref), len(nl))
			return
		}
		for j := range ref {
			if nl[j] != ref[j] {
				c.Fail("nodes:list", "node %d is another", j)
				return
			}
		}
		c.Eval(1)
	}
	c.Event("nodes")

	// namespaces
	var l xmp.NamespaceList
	var first []string
	for i := r.Intn(8); i > 0; i-- {
		u := pick(r, "http://a/", "http://b/", "http://c/")
		l = append(l, xmp.NewNamespace("p"+u[7:8], u, nil))
		if find(first, u) < 0 {
			first = append(first, u)
		}
	}
	var uris []string
	for _, n := range l {
		uris = append(uris, n.URI)
	}
	for _, p := range []string{"pa", "pb", "pc", "pd", ""} {
		w := p != "" && find(first, "http://"+p[1:]+"/") >= 0
		if l.ContainsName(p) != w {
			c.Fail("namespaces", "%q in %v is %v", p, uris, !w)
		}
		if p != "" && l.Contains(xmp.NewNamespace(p, "http://"+p[1:]+"/", nil)) != w {
			c.Fail("namespaces", "%q in %v is %v", p, uris, !w)
		}
	}
	var after []string
	for _, n := range l.RemoveDups() {
		after = append(after, n.URI)
	}
	if strings.Join(after, " ") != strings.Join(first, " ") || len(l) != len(first) {
		c.Fail("namespaces:dups", "%v without repetitions is %v, not %v", uris, first, after)
	}

	// marker types and parts
	ts := func() (l xmpdm.MarkerTypeList) {
		for _, s := range randWords(r, "Cue", "Comment", "Chapter", "Beat") {
			l = append(l, xmpdm.MarkerType(s))
		}
		return
	}
	m1, m2 := ts(), ts()
	var both []string
	for _, t := range strs(m2) {
		if find(strs(m1), t) >= 0 {
			both = append(both, t)
		}
	}
	if g := strs(m1.Intersect(m2)); strings.Join(g, " ") != strings.Join(both, " ") {
		c.Fail("markers:intersect", "%v and %v have %v in common, not %v", m1, m2, both, g)
	}
	for _, t := range []string{"Cue", "Comment", "Chapter", "Beat", ""} {
		if m1.Contains(xmpdm.MarkerType(t)) != (find(strs(m1), t) >= 0) {
			c.Fail("markers:contains", "%q in %v", t, m1)
		}
	}
	c.Eval(4)
	c.Event("lists")
	c.Seen("lists", fmt.Sprint(a, b, uris, m1, m2))
}

func init() {
	register(&Property{ID: "P20", Rule: "collections behave like plain reference implementations under random operations, keep their invariants and their constants",
		Scenarios: []Scenario{
			{"plain lists", 2000, 40000, plainLists},
			{"words", 8 * 4000, 8 * 100000, collections},
			{"functions", 8000, 300000, functions},
			{"alternatives", 12000, 400000, alternatives},
			{"lists", 12000, 400000, otherLists},
		}})
}
