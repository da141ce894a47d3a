package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// dumpValue writes everything a program can see of v, nil pointers and empty lists included.
func dumpValue(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 40 {
		b.WriteString("…")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Type() == reflect.TypeOf((*xmp.Namespace)(nil)) && v.CanInterface() {
			ns := v.Interface().(*xmp.Namespace)
			b.WriteString(ns.GetName() + "=" + ns.GetURI())
			return
		}
		b.WriteString("&")
		dumpValue(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if x := v.Field(i); !x.IsZero() {
				b.WriteString(f.Name + ":")
				if f.Type.String() == "*time.Location" {
					b.WriteString("loc")
				} else {
					dumpValue(b, x, depth+1)
				}
				b.WriteString(" ")
			}
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fallthrough
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpValue(b, v.Index(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			var x strings.Builder
			dumpValue(&x, k, depth+1)
			x.WriteString("=>")
			dumpValue(&x, v.MapIndex(k), depth+1)
			l = append(l, x.String())
		}
		sort.Strings(l)
		fmt.Fprintf(b, "%s%q", v.Type().Name(), l)
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString(v.Type().String())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

func dumpDoc(d *xmp.Document) []string {
	var out []string
	for i, n := range d.Nodes() {
		var b strings.Builder
		dumpValue(&b, reflect.ValueOf(n), 0)
		out = append(out, fmt.Sprintf("%d:%s", i, b.String()))
	}
	var ns []string
	for _, v := range d.Namespaces() {
		ns = append(ns, v.GetName()+"="+v.GetURI())
	}
	sort.Strings(ns)
	return append(out, strings.Join(ns, " "), fmt.Sprint("dirty ", d.IsDirty()))
}

func dumpDiff(a, b []string) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			x, y := a[i], b[i]
			k := 0
			for k < len(x) && k < len(y) && x[k] == y[k] {
				k++
			}
			s := k - 90
			if s < 0 {
				s = 0
			}
			cut := func(t string) string {
				if e := k + 60; e < len(t) {
					return t[s:e]
				}
				return t[s:]
			}
			return cut(x) + "\n  became " + cut(y)
		}
	}
	return fmt.Sprintf("%d lines became %d", len(a), len(b))
}

// schemaPath makes up a path below a property.
func schemaPath(r *rand.Rand, s *Schema, base string, depth int) string {
	if s == nil || depth > 4 || r.Intn(4) == 0 {
		return base
	}
	if s.Kind == "array" || s.Elem != nil {
		base += pick(r, "[0]", "[1]", "[7]", "[]", "[en]", "[x-default]", "[-1]", "")
		return schemaPath(r, s.Elem, base, depth+1)
	}
	if len(s.Fields) > 0 {
		k := sortedKeys(s.Fields)
		f := k[r.Intn(len(k))]
		n := f
		if r.Intn(2) == 0 {
			n = f[strings.Index(f, ":")+1:]
		}
		return schemaPath(r, s.Fields[f], base+"/"+n, depth+1)
	}
	if r.Intn(4) == 0 {
		return base + pick(r, "/nosuch", "[0]", "/x:y", "[fr]")
	}
	return base
}

func anyDoc(c *Case) ([]byte, *gdoc) {
	r := c.R
	switch r.Intn(8) {
	case 0:
		if len(corpus) > 0 {
			n, b := corpusFile(r.Intn(len(corpus)))
			c.Event("sample packets")
			c.Seen(n)
			return b, nil
		}
	case 1:
		d, _ := genPantry(r, true)
		c.Event("pantries")
		return writeXMP(d, randStyle(r), r), d
	case 2:
		// models that may talk to each other
		var l []string
		all := sortedKeys(golden.byPfx)
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			l = append(l, all[r.Intn(len(all))])
		}
		sort.Strings(l)
		m := l[:0]
		for i, p := range l {
			if i == 0 || p != l[i-1] {
				m = append(m, p)
			}
		}
		c.Event("arbitrary combinations of models")
		d := genDoc(r, genOpt{unknown: r.Intn(2) == 0, about: true, maxProps: 6, models: m})
		return writeXMP(d, randStyle(r), r), d
	}
	d := genDoc(r, genOpt{unknown: r.Intn(2) == 0, about: true, maxProps: 8})
	c.Event("generated documents")
	return writeXMP(d, randStyle(r), r), d
}

// reading calls operations that only look at a document, in any order.
func reading(c *Case) {
	r := c.R
	var doc, twin *xmp.Document
	var g *gdoc
	if r.Intn(6) == 0 {
		m := &fullModel{}
		fillFields(r, reflect.ValueOf(m).Elem(), golden.byPfx["vfa"].Props, 1+r.Intn(10), 0)
		doc = xmp.NewDocument()
		if _, err := doc.AddModel(m); err != nil {
			c.Fail("add", "%v", err)
			return
		}
		c.Event("models of Go values")
	} else {
		var b []byte
		b, g = anyDoc(c)
		c.Art("input", b)
		var err error
		if doc, err = decodeXML(b); err != nil {
			return // not what this is about
		}
		if twin, err = decodeXML(b); err != nil {
			c.Fail("decode", "second decoder of the same packet: %v", err)
			return
		}
		if r.Intn(3) == 0 {
			// by way of JSON
			x, err := decodeXML(b)
			if err != nil {
				c.Fail("decode", "third decoder of the same packet: %v", err)
				return
			}
			j, err := json.Marshal(x)
			x.Close()
			if err == nil {
				d1, d2 := xmp.NewDocument(), xmp.NewDocument()
				e1, e2 := json.Unmarshal(j, d1), json.Unmarshal(j, d2)
				if (e1 == nil) != (e2 == nil) {
					c.Fail("json-twice", "the same JSON loads or not: %v, %v", e1, e2)
				}
				if e1 == nil && e2 == nil {
					doc.Close()
					twin.Close()
					doc, twin = d1, d2
					c.Event("documents from JSON")
				}
			}
		}
	}
	defer doc.Close()
	if r.Intn(2) == 0 && len(doc.Nodes()) > 0 {
		// changed, but not saved yet
		doc.SetDirty()
		if twin != nil {
			twin.SetDirty()
		}
		c.Event("documents with changes")
	}
	base := dumpDoc(doc)
	results := map[string]string{}
	log := []string{}
	check := func(op, res string) bool {
		c.Eval(2)
		log = append(log, op)
		if len(log) > 6 {
			log = log[1:]
		}
		if old, ok := results[op]; ok && old != res {
			c.Fail("twice "+strings.Fields(op)[0], "%s gave\n  %s\nthen\n  %s\nafter %q", op, oneLine(old, res), oneLine(res, old), log)
			return false
		}
		results[op] = res
		now := dumpDoc(doc)
		if !reflect.DeepEqual(base, now) {
			c.Fail("changed by "+strings.Fields(op)[0], "%s changed the document: %s", op, dumpDiff(base, now))
			return false
		}
		return true
	}
	if twin != nil {
		defer twin.Close()
		if t := dumpDoc(twin); !reflect.DeepEqual(base, t) {
			c.Fail("twin", "two documents from the same input differ: %s", dumpDiff(base, t))
			return
		}
	}
	var paths []string
	// saving or listing a changed document brings the properties its models share up to date
	save := func(op string) bool {
		var err error
		switch op {
		case "Marshal":
			_, err = xmp.Marshal(doc)
		case "MarshalJSON":
			_, err = json.Marshal(doc)
		default:
			_, err = doc.ListPaths()
		}
		if err != nil || doc.IsDirty() {
			c.Fail("save", "%s: %v, dirty %v", op, err, doc.IsDirty())
			return false
		}
		c.Event("changes saved by " + op)
		results = map[string]string{}
		base = dumpDoc(doc)
		return true
	}
	read := func(p string) string {
		v, err := doc.GetPath(xmp.Path(p))
		return fmt.Sprintf("%q %v", v, err)
	}
	for i, n := 0, 8+r.Intn(20); i < n; i++ {
		var op, res string
		switch r.Intn(9) {
		case 0:
			if doc.IsDirty() {
				if !save("ListPaths") {
					return
				}
				continue
			}
			l, err := doc.ListPaths()
			paths = nil
			for _, v := range l {
				paths = append(paths, v.Path.String())
			}
			op, res = "ListPaths", fmt.Sprintf("%v %v", err, l)
		case 1, 2:
			if len(paths) == 0 {
				continue
			}
			p := paths[r.Intn(len(paths))]
			if k := r.Intn(4); k == 0 {
				if i := strings.LastIndexAny(p, "/["); i > 0 {
					p = p[:i]
				}
			} else if k == 1 {
				p += pick(r, "/nosuch", "[0]", "[9]", "/x:y", "[en]", "[]", "/")
			}
			op, res = "GetPath "+p, read(p)
		case 3, 4:
			all := sortedKeys(golden.byPfx)
			ms := golden.byPfx[all[r.Intn(len(all))]]
			if g != nil && len(g.models) > 0 && r.Intn(4) > 0 {
				ms = golden.byPfx[g.models[r.Intn(len(g.models))]]
			} else if g == nil && r.Intn(2) == 0 {
				ms = golden.byPfx["vfa"]
			}
			k := sortedKeys(ms.Props)
			n := k[r.Intn(len(k))]
			p := schemaPath(r, ms.Props[n], n, 0)
			op, res = "GetPath "+p, read(p)
			c.Event("paths of the models")
		case 5, 6:
			if doc.IsDirty() {
				if !save(pick(r, "Marshal", "MarshalJSON")) {
					return
				}
				continue
			}
			if r.Intn(2) == 0 {
				b, err := xmp.Marshal(doc)
				op, res = "Marshal", fmt.Sprintf("%s %v", b, err)
			} else {
				b, err := json.Marshal(doc)
				op, res = "MarshalJSON", fmt.Sprintf("%s %v", b, err)
			}
		case 7:
			var l []string
			for _, v := range doc.Namespaces() {
				l = append(l, v.GetName()+"="+v.GetURI(), fmt.Sprint(doc.FindNode(v) != nil, doc.FindModel(v) != nil, doc.FindNs(v.GetName()+":x", "") != nil))
			}
			for _, v := range doc.Nodes() {
				l = append(l, v.Name(), v.FullName(), v.Namespace(), fmt.Sprint(v.IsZero(), v.IsArray()))
				// the order of namespaces is not defined
				var ns []string
				for _, x := range v.Namespaces(doc) {
					ns = append(ns, x.GetName())
				}
				sort.Strings(ns)
				l = append(l, ns...)
			}
			sort.Strings(l)
			op, res = "Namespaces", strings.Join(l, " ")
		case 8:
			var l []string
			for _, v := range doc.Nodes() {
				if v.Model == nil {
					continue
				}
				t, err := xmp.ListNativeFields(v.Model)
				l = append(l, fmt.Sprint(t, err))
				for _, x := range nativeTags[v.Name()] {
					if r.Intn(8) == 0 {
						s, err := v.Model.GetTag(x.Tag)
						k := "GetTag " + v.Name() + " " + x.Tag
						if !check(k, fmt.Sprintf("%q %v %v", s, err, v.Model.CanTag(x.Tag))) {
							return
						}
					}
				}
			}
			op, res = "ListNativeFields", strings.Join(l, "\n")
		}
		c.Event(strings.Fields(op)[0])
		if !check(op, res) {
			return
		}
	}
	c.Seen(base)
	if twin == nil {
		return
	}
	// the same input gives the same packet, whatever has been read meanwhile
	if !doc.IsDirty() && twin.IsDirty() {
		if _, err := xmp.Marshal(twin); err != nil {
			c.Fail("save", "%v", err)
		}
	}
	a, e1 := xmp.Marshal(doc)
	b, e2 := xmp.Marshal(twin)
	ja, e3 := json.Marshal(doc)
	jb, e4 := json.Marshal(twin)
	c.Eval(2)
	if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
		c.Fail("save", "%v %v %v %v", e1, e2, e3, e4)
		return
	}
	if !bytes.Equal(a, b) {
		c.Fail("twin packet", "two documents from the same input save\n  %s\nand\n  %s", oneLine(string(a), string(b)), oneLine(string(b), string(a)))
	}
	if !bytes.Equal(ja, jb) {
		c.Fail("twin json", "two documents from the same input save\n  %s\nand\n  %s", oneLine(string(ja), string(jb)), oneLine(string(jb), string(ja)))
	}
}

// oneLine is the part of a around its first difference from b.
func oneLine(a, b string) string {
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	s, e := k-80, k+120
	if s < 0 {
		s = 0
	}
	if e > len(a) {
		e = len(a)
	}
	return fmt.Sprintf("%q", a[s:e])
}

// settling saves a changed document again and again.
func settling(c *Case) {
	r := c.R
	b, _ := anyDoc(c)
	c.Art("input", b)
	doc, err := decodeXML(b)
	if err != nil {
		return
	}
	defer doc.Close()
	if r.Intn(2) == 0 {
		if err := doc.SyncModels(); err != nil {
			return
		}
		c.Event("models synced")
	}
	save := func(what string) (map[string]string, []byte) {
		doc.SetDirty()
		if r.Intn(3) == 0 {
			if _, err := doc.ListPaths(); err != nil {
				c.Fail("list", "%s: %v", what, err)
			}
		}
		f, out, err := docFlat(doc)
		if err != nil {
			c.Fail("save", "%s: %v", what, err)
			return nil, nil
		}
		c.Art(what, out)
		return f, out
	}
	f1, b1 := save("first")
	if c.failed() {
		return
	}
	c.Seen(fmt.Sprint(f1))
	_, b2 := save("again")
	c.Eval(1)
	if !bytes.Equal(b1, b2) {
		c.Fail("settle again", "an unchanged document saves\n  %s\nthen\n  %s", oneLine(string(b1), string(b2)), oneLine(string(b2), string(b1)))
		return
	}
}

func init() {
	register(&Property{
		ID:   "P22",
		Rule: "an operation that reads changed the document, or gave another answer the second time",
		Scenarios: []Scenario{
			{"reading", 3000, 60000, reading},
			{"settling", 2000, 40000, settling},
			{"used documents", 2000, 40000, usedDocument},
		},
	})
}
