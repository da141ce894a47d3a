package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/models/xmp_dm"
	"github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
)

// The pantry of the media management model keeps whole packets of ingredients:
// every item holds properties of any namespaces.

func qmm(n string) qname { return golden.q("xmpMM:" + n) }

// genPantry returns a document with a pantry and the documents of its items.
func genPantry(r *rand.Rand, unknown bool) (*gdoc, []*gdoc) {
	d := genDoc(r, genOpt{models: []string{"xmpMM"}, maxProps: 4})
	if r.Intn(3) > 0 {
		d.props = map[qname]*val{}
	}
	bag := &val{kind: 'a', typ: "Bag"}
	var items []*gdoc
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		x := genDoc(r, genOpt{maxProps: 1 + r.Intn(6), unknown: unknown && r.Intn(2) == 0})
		if len(x.props) == 0 {
			continue
		}
		for u, p := range x.pfx {
			d.pfx[u] = p
		}
		items = append(items, x)
		bag.items = append(bag.items, &val{kind: 't', fields: x.props})
	}
	if len(items) > 0 {
		d.props[qmm("Pantry")] = bag
	}
	return d, items
}

// pantryDiff compares the items of a packet with those expected.
func pantryDiff(want []*gdoc, got *rdfDoc) []string {
	p := got.props[qmm("Pantry")]
	if p == nil {
		if len(want) == 0 {
			return nil
		}
		return []string{"no pantry"}
	}
	if p.kind != 'a' || len(p.items) != len(want) {
		return []string{fmt.Sprintf("%d items became %s", len(want), p)}
	}
	for i, w := range want {
		x := p.items[i]
		if x.kind != 't' {
			return []string{fmt.Sprintf("item %d became %s", i, x)}
		}
		if l := diffAllow(w, &rdfDoc{props: x.fields}); len(l) > 0 {
			for j := range l {
				l[j] = fmt.Sprintf("item %d: %s", i, l[j])
			}
			return l
		}
	}
	return nil
}

func withoutPantry(d *rdfDoc) *rdfDoc {
	o := &rdfDoc{props: map[qname]*val{}, about: d.about}
	for k, v := range d.props {
		if k != qmm("Pantry") {
			o.props[k] = v
		}
	}
	return o
}

func pantryEvents(c *Case, items []*gdoc) {
	c.Event("pantries read")
	for _, x := range items {
		var l []string
		for q := range x.props {
			l = append(l, q.local)
		}
		c.Seen("pantry", len(items), len(l), strings.Join(sortedKeys(map[string]bool{l[0]: true}), ""))
	}
}

func pantryRead(c *Case) {
	r := c.R
	d, items := genPantry(r, true)
	b := writeXMP(d, randStyle(r), r)
	c.Art("input", b)
	pantryEvents(c, items)
	doc, err := decodeXML(b)
	if err != nil {
		c.Fail("decode", "%v", err)
		return
	}
	defer doc.Close()
	for pass := 0; pass < 2; pass++ {
		out, err := xmp.Marshal(doc)
		if err != nil {
			c.Fail("encode", "%v", err)
			return
		}
		c.Art("output", out)
		got, err := readXMP(out)
		if err != nil {
			c.Fail("output", "%v", err)
			return
		}
		c.Eval(len(items) + 1)
		if l := pantryDiff(items, got); len(l) > 0 {
			c.Fail(diffKey("pantry", l), "pass %d: %s", pass, head(l, 6))
			return
		}
		w := newGdoc()
		w.rdfDoc, w.models = withoutPantry(d.rdfDoc), d.models
		if l := diffAllow(w, withoutPantry(got)); len(l) > 0 {
			c.Fail(diffKey("others", l), "%s", head(l, 6))
		}
		if pass == 0 {
			doc.Close()
			if doc, err = decodeXML(out); err != nil {
				c.Fail("decode again", "%v", err)
				return
			}
		}
	}
}

func pantryJSON(c *Case) {
	r := c.R
	d, items := genPantry(r, true)
	for i, x := range items {
		jsonDomain(x)
		items[i] = jsonWant(x)
	}
	bag := d.props[qmm("Pantry")]
	var keep []*gdoc
	var vals []*val
	for _, x := range items {
		if len(x.props) > 0 {
			keep = append(keep, x)
			vals = append(vals, &val{kind: 't', fields: x.props})
		}
	}
	if len(keep) == 0 {
		return
	}
	bag.items, items = vals, keep
	b := writeXMP(d, randStyle(r), r)
	c.Art("input", b)
	pantryEvents(c, items)
	doc, err := decodeXML(b)
	if err != nil {
		c.Fail("decode", "%v", err)
		return
	}
	defer doc.Close()
	j, err := json.Marshal(doc)
	if err != nil {
		c.Fail("to-json", "%v", err)
		return
	}
	c.Art("json", j)
	e := xmp.NewDocument()
	defer e.Close()
	if err := json.Unmarshal(j, e); err != nil {
		c.Fail("from-json", "%v", err)
		return
	}
	out, err := xmp.Marshal(e)
	if err != nil {
		c.Fail("encode", "%v", err)
		return
	}
	c.Art("output", out)
	got, err := readXMP(out)
	if err != nil {
		c.Fail("output", "%v", err)
		return
	}
	c.Eval(len(items))
	if l := pantryDiff(items, got); len(l) > 0 {
		c.Fail(diffKey("pantry", l), "%s", head(l, 6))
	}
}

func pantryAdd(c *Case) {
	r := c.R
	o := xmp.NewDocument()
	defer o.Close()
	m, err := xmpmm.MakeModel(o)
	if err != nil {
		c.Fail("make", "%v", err)
		return
	}
	var want []*gdoc
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		x := genDoc(r, genOpt{maxProps: 1 + r.Intn(6), unknown: r.Intn(2) == 0})
		for q, v := range x.props {
			if !jsonable(v, false) {
				delete(x.props, q)
			}
		}
		if len(x.props) == 0 {
			continue
		}
		b := writeXMP(x, canonStyle, nil)
		c.Art(fmt.Sprintf("ingredient-%d", i), b)
		d, err := decodeXML(b)
		if err != nil {
			c.Fail("decode", "%v", err)
			return
		}
		m.AddPantry(d)
		want = append(want, x)
		// the ingredient lives on
		after, err := xmp.Marshal(d)
		if err != nil {
			c.Fail("ingredient", "%v", err)
			return
		}
		g, err := readXMP(after)
		if err != nil {
			c.Fail("ingredient", "%v", err)
			return
		}
		if l := diffAllow(x, g); len(l) > 0 {
			c.Fail("ingredient", "adding it changed the ingredient: %s", head(l, 6))
		}
		for _, ns := range d.Namespaces() {
			if r.Intn(2) == 0 {
				d.RemoveNamespace(ns)
			}
		}
		if r.Intn(2) == 0 {
			d.Close()
		}
	}
	if len(want) == 0 {
		return
	}
	pantryEvents(c, want)
	out, err := xmp.Marshal(o)
	if err != nil {
		c.Fail("encode", "%v", err)
		return
	}
	c.Art("output", out)
	for pass := 0; pass < 2; pass++ {
		got, err := readXMP(out)
		if err != nil {
			c.Fail("output", "%v", err)
			return
		}
		c.Eval(len(want))
		if l := pantryDiff(want, got); len(l) > 0 {
			c.Fail(diffKey("added", l), "pass %d: %s", pass, head(l, 6))
			return
		}
		if pass == 0 {
			e, err := decodeXML(out)
			if err != nil {
				c.Fail("decode again", "%v", err)
				return
			}
			if out, err = xmp.Marshal(e); err != nil {
				c.Fail("encode again", "%v", err)
				return
			}
			e.Close()
		}
	}
}

func pantryPaths(c *Case) {
	r := c.R
	unknown := r.Intn(2) == 0
	d, items := genPantry(r, unknown)
	for _, x := range items {
		for q, v := range x.props {
			// identifiers with a scheme have an ambiguous text; the path of a default
			// with the text of another language means both
			if !jsonable(v, false) || sharedText(v) || q == golden.q("xmp:Identifier") {
				delete(x.props, q)
			}
		}
		if len(x.props) == 0 {
			return
		}
	}
	b := writeXMP(d, randStyle(r), r)
	c.Art("input", b)
	pantryEvents(c, items)
	doc, err := decodeXML(b)
	if err != nil {
		c.Fail("decode", "%v", err)
		return
	}
	defer doc.Close()
	l, err := doc.ListPaths()
	if err != nil {
		c.Fail("list", "%v", err)
		return
	}
	e := xmp.NewDocument()
	defer e.Close()
	c.Art("paths", []byte(fmt.Sprint(l)))
	n := 0
	for _, v := range l {
		if !strings.HasPrefix(string(v.Path), "xmpMM:Pantry") {
			continue
		}
		n++
		s, err := doc.GetPath(v.Path)
		if err != nil || s != v.Value {
			c.Fail("get", "%s is listed as %q and read as %q (%v)", v.Path, v.Value, s, err)
			return
		}
		if unknown {
			// the new document does not know the namespaces
			continue
		}
		v.Flags = xmp.CREATE | xmp.REPLACE
		if err := e.SetPath(v); err != nil {
			c.Fail("set", "SetPath(%s, %q): %v", v.Path, v.Value, err)
			return
		}
	}
	c.Eval(2*n + 1)
	if unknown {
		return
	}
	out, err := xmp.Marshal(e)
	if err != nil {
		c.Fail("encode", "%v", err)
		return
	}
	c.Art("output", out)
	got, err := readXMP(out)
	if err != nil {
		c.Fail("output", "%v", err)
		return
	}
	if l := pantryDiff(items, got); len(l) > 0 {
		c.Fail(diffKey("by path", l), "%s", head(l, 6))
	}
}

// The history and the versions against a plain list.

type evModel struct {
	action, changed, inst, params, agent string
	when                                 time.Time
}

func (e evModel) val() *val {
	x := &val{kind: 't', fields: map[qname]*val{}}
	put := func(n, s string) {
		if s != "" {
			x.fields[golden.q("stEvt:"+n)] = sval(s)
		}
	}
	put("action", e.action)
	put("changed", e.changed)
	put("instanceID", e.inst)
	put("parameters", e.params)
	put("softwareAgent", e.agent)
	if !e.when.IsZero() {
		put("when", e.when.Format(time.RFC3339))
	}
	return x
}

func genEvent(r *rand.Rand) (*xmpmm.ResourceEvent, evModel) {
	var e xmpmm.ResourceEvent
	var m evModel
	m.action = pick(r, "created", "edited", "saved", "resized", "media_added")
	e.Action = xmpmm.ActionType(m.action)
	if r.Intn(2) == 0 {
		n := 1 + r.Intn(3)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, "/"+genToken(r))
		}
		e.Changed = xmpdm.NewPartList(l...)
		m.changed = strings.Join(l, ";")
	}
	if r.Intn(2) == 0 {
		m.inst = "xmp.iid:" + genToken(r)
		e.InstanceID = xmp.GUID(m.inst)
	}
	if r.Intn(2) == 0 {
		m.params = genText(r)
		e.Parameters = m.params
	}
	if r.Intn(2) == 0 {
		m.agent = genText(r)
		e.SoftwareAgent = xmp.AgentName(m.agent)
	}
	if r.Intn(2) == 0 {
		m.when = genWhen(r)
		e.When = xmp.Date(m.when)
	}
	return &e, m
}

func genWhen(r *rand.Rand) time.Time { return time.Unix(1+r.Int63n(4e9), 0).UTC() }

type verEntry struct {
	comments, modifier, version string
	date                        time.Time
	ev                          evModel
}

func (v verEntry) val() *val {
	x := &val{kind: 't', fields: map[qname]*val{}}
	put := func(n, s string) {
		if s != "" {
			x.fields[golden.q("stVer:"+n)] = sval(s)
		}
	}
	put("comments", v.comments)
	put("modifier", v.modifier)
	put("version", v.version)
	if !v.date.IsZero() {
		put("modifyDate", v.date.Format(time.RFC3339))
	}
	if e := v.ev.val(); len(e.fields) > 0 {
		x.fields[golden.q("stVer:event")] = e
	}
	return x
}

func mmHistory(c *Case) {
	r := c.R
	d := xmp.NewDocument()
	defer func() { d.Close() }()
	m, err := xmpmm.MakeModel(d)
	if err != nil {
		c.Fail("make", "%v", err)
		return
	}
	var hist []evModel
	var vers []verEntry
	simple := map[string]string{}
	var log []string
	seq := ""
	for i, n := 0, 1+r.Intn(14); i < n; i++ {
		k := r.Intn(8)
		seq += fmt.Sprint(k)
		switch k {
		case 0, 1:
			e, x := genEvent(r)
			m.AddHistory(e)
			hist = append(hist, x)
			log = append(log, fmt.Sprintf("AddHistory(%+v)", x))
		case 2:
			v := pick(r, "1", "2", "3", genToken(r))
			m.VersionID, simple["VersionID"] = v, v
			log = append(log, "VersionID="+v)
		case 3:
			v := "xmp.iid:" + genToken(r)
			m.InstanceID, simple["InstanceID"] = xmp.GUID(v), v
			log = append(log, "InstanceID="+v)
		case 4, 5:
			if simple["VersionID"] == "" {
				continue
			}
			a, mod, ch, t := pick(r, "created", "edited", "saved"), genText(r), "/"+genToken(r), genWhen(r)
			m.AppendVersionHistory(xmpmm.ActionType(a), mod, ch, xmp.Date(t))
			log = append(log, fmt.Sprintf("AppendVersionHistory(%s, %q, %s)", a, mod, ch))
			if l := len(vers); l > 0 && vers[l-1].version == simple["VersionID"] {
				e := &vers[l-1].ev
				e.changed = strings.TrimPrefix(e.changed+";"+ch, ";")
			} else {
				vers = append(vers, verEntry{"", mod, simple["VersionID"], t, evModel{a, ch, simple["InstanceID"], "", string(xmp.Agent), t}})
			}
		case 6:
			e, x := genEvent(r)
			v := verEntry{genText(r), genText(r), pick(r, "1", "2", genToken(r)), genWhen(r), x}
			m.AddVersion(&xmpmm.StVersion{Comments: v.comments, Event: *e, Modifier: v.modifier, ModifyDate: xmp.Date(v.date), Version: v.version})
			vers = append(vers, v)
			log = append(log, fmt.Sprintf("AddVersion(%+v)", v))
		case 7:
			v := pick(r, "1", "2", genToken(r))
			m.SetPreviousVersionId(v)
			if l := len(vers); l > 1 {
				vers[l-2].version = v
			}
			log = append(log, "SetPreviousVersionId("+v+")")
		}
		// getters
		last, prev := "", ""
		if l := len(vers); l > 0 {
			last = vers[l-1].version
			if l > 1 {
				prev = vers[l-2].version
			}
		}
		c.Eval(4)
		if x, y := m.GetLastVersionId(), m.GetPreviousVersionId(); x != last || y != prev {
			c.Fail("version ids", "last and previous version are %q %q, want %q %q after\n  %s", x, y, last, prev, strings.Join(log, "\n  "))
			return
		}
		if e := m.GetLastEvent(); (e == nil) != (len(hist) == 0) || e != nil && string(e.Action) != hist[len(hist)-1].action {
			c.Fail("last event", "%v", e)
			return
		}
		ref := m.SelfResourceRef("v9")
		if ref.InstanceID != m.InstanceID || ref.DocumentID != m.DocumentID || ref.VersionID != "v9" || len(hist) > 0 && !time.Time(ref.LastModifyDate).Equal(hist[len(hist)-1].when) {
			c.Fail("self reference", "%+v", ref)
			return
		}
		if r.Intn(3) > 0 && i < n-1 {
			continue
		}
		// packet, and sometimes on with what was read
		b, err := xmp.Marshal(d)
		if err != nil {
			c.Fail("encode", "%v", err)
			return
		}
		c.Art("packet", b)
		got, err := readXMP(b)
		if err != nil {
			c.Fail("output", "%v", err)
			return
		}
		w := newGdoc()
		for k, v := range simple {
			w.props[qmm(k)] = sval(v)
		}
		if len(hist) > 0 {
			a := &val{kind: 'a', typ: "Seq"}
			for _, e := range hist {
				a.items = append(a.items, e.val())
			}
			w.props[qmm("History")] = a
		}
		if len(vers) > 0 {
			a := &val{kind: 'a', typ: "Seq"}
			for _, e := range vers {
				a.items = append(a.items, e.val())
			}
			w.props[qmm("Versions")] = a
		}
		c.Event("histories written")
		c.Seen(seq)
		c.Eval(len(hist) + len(vers) + 1)
		if l := diffMaps(w.flat(), got.flat()); len(l) > 0 {
			c.Fail(diffKey("history", l), "%s\nafter\n  %s", head(l, 4), strings.Join(log, "\n  "))
			return
		}
		if r.Intn(2) == 0 {
			e, err := decodeXML(b)
			if err != nil {
				c.Fail("decode", "%v", err)
				return
			}
			d.Close()
			d = e
			if m, err = xmpmm.MakeModel(d); err != nil {
				c.Fail("make", "%v", err)
				return
			}
			log = append(log, "written and read")
		}
	}
}

// pantryMerge: merging and editing by path keep pantries whole.
func pantryMerge(c *Case) {
	r := c.R
	d, items := genPantry(r, true)
	for _, x := range items {
		for q, v := range x.props {
			// arrays of unknown properties have a type that paths do not tell;
			// new models have their defaults already, which merging keeps
			p, _ := golden.known(q.uri)
			var s *Schema
			def := false
			if m := golden.byPfx[p]; m != nil {
				s = m.Props[p+":"+q.local]
				_, def = m.Defaults[q.String()]
			}
			if def || !jsonable(v, false) || !addressable(s, v) || sharedText(v) || q == golden.q("xmp:Identifier") {
				delete(x.props, q)
				continue
			}
			if x.unknownProp(q) {
				x.props[q] = bagToSeq(v)
			}
		}
		if len(x.props) == 0 {
			return
		}
	}
	if bag := d.props[qmm("Pantry")]; bag != nil {
		bag.items = nil
		for _, x := range items {
			bag.items = append(bag.items, &val{kind: 't', fields: x.props})
		}
	}
	b := writeXMP(d, randStyle(r), r)
	c.Art("input", b)
	pantryEvents(c, items)
	src, err := decodeXML(b)
	if err != nil {
		c.Fail("decode", "%v", err)
		return
	}
	defer src.Close()
	o := genDoc(r, genOpt{models: []string{"dc"}, maxProps: 3})
	ob := writeXMP(o, canonStyle, nil)
	c.Art("target", ob)
	dst, err := decodeXML(ob)
	if err != nil {
		c.Fail("decode", "%v", err)
		return
	}
	defer dst.Close()
	if err := dst.Merge(src, xmp.MERGE); err != nil {
		c.Fail("merge", "%v", err)
		return
	}
	for _, x := range []struct {
		what string
		d    *xmp.Document
	}{{"source", src}, {"target", dst}} {
		out, err := xmp.Marshal(x.d)
		if err != nil {
			c.Fail("encode "+x.what, "%v", err)
			return
		}
		c.Art(x.what+"-output", out)
		got, err := readXMP(out)
		if err != nil {
			c.Fail("output "+x.what, "%v", err)
			return
		}
		c.Eval(len(items))
		if l := pantryDiff(items, got); len(l) > 0 {
			c.Fail(diffKey("merged "+x.what, l), "%s", head(l, 6))
			return
		}
	}
}

func init() {
	register(&Property{ID: "P25",
		Rule: "media management keeps ingredients whole",
		Scenarios: []Scenario{
			{"pantry", 1500, 20000, pantryRead},
			{"pantry JSON", 800, 10000, pantryJSON},
			{"added ingredients", 800, 10000, pantryAdd},
			{"pantry paths", 800, 10000, pantryPaths},
			{"merged pantries", 800, 10000, pantryMerge},
			{"history", 3000, 60000, mmHistory},
		}})
}
