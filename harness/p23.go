package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// setField sets the field of a model that carries property name to text s.
func setField(m xmp.Model, name, s string) bool {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		t := strings.Split(v.Type().Field(i).Tag.Get("xmp"), ",")
		if t[0] != name {
			continue
		}
		f := v.Field(i)
		switch {
		case f.Kind() == reflect.String:
			f.SetString(s)
			return true
		case f.Kind() == reflect.Int:
			n, err := strconv.Atoi(s)
			f.SetInt(int64(n))
			return err == nil
		case f.Type() == reflect.TypeOf(xmp.AltString{}):
			f.Set(reflect.ValueOf(xmp.NewAltString(s)))
			return true
		}
	}
	return false
}

// lateEdits changes documents that have been saved before. Every way to look at them has to show
// the change, and what the models derive from it.
func lateEdits(c *Case) {
	r := c.R
	var rules []rule
	for _, x := range saveRules {
		if !x.conv && !x.always {
			rules = append(rules, x)
		}
	}
	ru := rules[r.Intn(len(rules))]
	sp, dp := ru.src[:strings.Index(ru.src, ":")], ru.dst[:strings.Index(ru.dst, ":")]
	// other models do not write the destination
	models := []string{}
	if r.Intn(4) > 0 {
		models = append(models, sp)
	}
	if r.Intn(3) > 0 {
		models = append(models, dp)
	}
	for _, m := range pickModels(r, 1+r.Intn(2)) {
		if !syncModels[m] && !in(models, m) && m != sp && m != dp {
			models = append(models, m)
		}
	}
	var d *gdoc
	doc := xmp.NewDocument()
	defer func() { doc.Close() }()
	kept := map[qname]string{}
	if len(models) > 0 {
		d = genDoc(r, genOpt{models: models, maxProps: 4, unknown: r.Intn(3) == 0})
		if ru.fill {
			delete(d.props, golden.q(ru.dst))
			delete(d.props, golden.q(ru.src))
		}
		for _, v := range d.props {
			uniqAlts(c, v)
		}
		for _, m := range models {
			if r.Intn(2) == 0 {
				// not known to the model, stays whatever happens to it
				kept[qname{golden.byPfx[m].URI, "un_kept"}] = freshText(c)
			}
		}
		for q, t := range kept {
			d.props[q] = newScalar(t)
		}
		b := writeXMP(d, randStyle(r), r)
		c.Art("input", b)
		var err error
		if doc, err = decodeXML(b); err != nil {
			c.Fail("decode", "%v", err)
			return
		}
	}
	has := func(p string) bool {
		ns, _ := xmp.GetNamespace(p)
		return ns != nil && doc.FindModel(ns) != nil
	}
	look := func(how string) (map[string]string, error) {
		out := map[string]string{}
		switch how {
		case "packet":
			b, err := xmp.Marshal(doc)
			if err != nil {
				return nil, err
			}
			x, err := readXMP(b)
			if err != nil {
				return nil, err
			}
			for q, t := range kept {
				if v := x.props[q]; v == nil || v.text != t {
					return nil, fmt.Errorf("property %s, unknown to its model, is %v, not %q", q, v, t)
				}
			}
			for _, n := range []string{ru.src, ru.dst} {
				if v := x.props[golden.q(n)]; v != nil {
					out[n] = plain(v)
				}
			}
		case "json":
			b, err := json.Marshal(doc)
			if err != nil {
				return nil, err
			}
			e := xmp.NewDocument()
			defer e.Close()
			if err := json.Unmarshal(b, e); err != nil {
				return nil, err
			}
			for _, n := range []string{ru.src, ru.dst} {
				if s, err := e.GetPath(xmp.Path(n)); err == nil && s != "" {
					out[n] = s
				}
			}
		default:
			l, err := doc.ListPaths()
			if err != nil {
				return nil, err
			}
			for _, v := range l {
				p := v.Path.String()
				if i := strings.Index(p, "["); i > 0 {
					p = p[:i]
				}
				if _, ok := out[p]; !ok && (p == ru.src || p == ru.dst) {
					out[p] = v.Value
				}
			}
		}
		return out, nil
	}
	ways := []string{"packet", "json", "paths"}
	first := ways[r.Intn(3)]
	if r.Intn(5) == 0 {
		doc.SetDirty()
	}
	was, err := look(first)
	if err != nil {
		c.Fail("save", "%s: %v", first, err)
		return
	}
	if doc.IsDirty() {
		c.Fail("clean", "dirty after looking at the %s", first)
		return
	}
	text := fmt.Sprintf("%s late", genToken(r))
	if ru.src == "iXML:take" {
		text = fmt.Sprint(1 + r.Intn(1000000))
	}
	path := xmp.Path(ru.src)
	var how string
	switch k := r.Intn(6); {
	case k == 0:
		how = "SetPath"
		err = doc.SetPath(xmp.PathValue{Path: path, Value: text, Flags: xmp.CREATE | xmp.REPLACE})
	case k == 1:
		how = "Merge"
		e := xmp.NewDocument()
		if err := e.SetPath(xmp.PathValue{Path: path, Value: text, Flags: xmp.CREATE}); err != nil {
			c.Fail("edit", "%v", err)
		}
		err = doc.Merge(e, xmp.CREATE|xmp.REPLACE)
		e.Close()
	case k == 2:
		how = "Sync"
		// from a model that takes no part
		if err = doc.SetPath(xmp.PathValue{Path: "dc:source", Value: text, Flags: xmp.CREATE | xmp.REPLACE}); err != nil {
			break
		}
		if _, err = look(ways[r.Intn(3)]); err != nil {
			break
		}
		if doc.IsDirty() {
			c.Fail("clean", "dirty after saving")
			return
		}
		err = doc.Sync("dc:source", path, xmp.CREATE|xmp.REPLACE, nil, nil)
	case k == 3:
		how = "AddModel"
		if has(sp) {
			how = "AddModel again"
		}
		ns, _ := xmp.GetNamespace(sp)
		m := ns.NewModel()
		if !setField(m, ru.src, text) {
			return
		}
		if _, err = doc.AddModel(m); err == nil && doc.FindModel(ns) != m {
			c.Fail("addmodel", "the document has another model")
		}
	case k == 4 && !has(sp):
		how = "MakeModel"
		ns, _ := xmp.GetNamespace(sp)
		var m xmp.Model
		if m, err = doc.MakeModel(ns); err == nil && !setField(m, ru.src, text) {
			return
		}
	default:
		how = "field"
		ns, _ := xmp.GetNamespace(sp)
		var m xmp.Model
		if m, err = doc.MakeModel(ns); err == nil && !setField(m, ru.src, text) {
			return
		}
		doc.SetDirty()
	}
	if err != nil {
		c.Fail("edit:"+how, "%s %s: %v", how, ru.src, err)
		return
	}
	if s, err := doc.GetPath(path); err != nil || s != text {
		c.Fail("edit:"+how, "%s of %s to %q, GetPath gives %q, %v", how, ru.src, text, s, err)
		return
	}
	c.Event(how)
	c.Seen(ru.src, ru.dst, how, first, fmt.Sprint(models))
	want := text
	if ru.fill && was[ru.dst] != "" {
		want = was[ru.dst]
	}
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		w := ways[r.Intn(3)]
		c.Event("seen in " + w)
		now, err := look(w)
		if err != nil {
			c.Fail("save", "%s: %v", w, err)
			return
		}
		c.Eval(2)
		if now[ru.src] != text {
			c.Fail("late:"+how, "%s of %s to %q after saving (%s): the %s has %q", how, ru.src, text, first, w, now[ru.src])
			return
		}
		if now[ru.dst] != want {
			c.Fail("derived:"+how, "%s of %s to %q after saving (%s): the %s has %s = %q, not %q", how, ru.src, text, first, w, ru.dst, now[ru.dst], want)
			return
		}
	}
}

func init() {
	register(&Property{
		ID:   "P23",
		Rule: "a change made after a document was saved is missing in what is saved next",
		Scenarios: []Scenario{
			{"late", 12000, 200000, lateEdits},
		},
	})
}
