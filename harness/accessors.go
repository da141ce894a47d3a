package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/trimmer-io/go-xmp/models/cc"
	"github.com/trimmer-io/go-xmp/models/crs"
	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/digikam"
	"github.com/trimmer-io/go-xmp/models/dji"
	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/pdf"
	"github.com/trimmer-io/go-xmp/models/pm"
	"github.com/trimmer-io/go-xmp/models/ps"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/models/tiff"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpbj "github.com/trimmer-io/go-xmp/models/xmp_bj"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	xmprights "github.com/trimmer-io/go-xmp/models/xmp_rights"
	xmptpg "github.com/trimmer-io/go-xmp/models/xmp_tpg"
	"github.com/trimmer-io/go-xmp/xmp"
)

// accessor are the functions a model's package offers to reach the model of
// a document: find, make and the constructor.
type accessor struct {
	name string
	ns   *xmp.Namespace
	find func(*xmp.Document) (xmp.Model, bool) // false: nil
	make func(*xmp.Document) (xmp.Model, error)
}

var accessors = []accessor{
	{"cc", cc.NsCC, func(d *xmp.Document) (xmp.Model, bool) { m := cc.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return cc.MakeModel(d) }},
	{"crs", crs.NsCrs, func(d *xmp.Document) (xmp.Model, bool) { m := crs.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return crs.MakeModel(d) }},
	{"dc", dc.NsDc, func(d *xmp.Document) (xmp.Model, bool) { m := dc.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return dc.MakeModel(d) }},
	{"digikam", digikam.NsDk, func(d *xmp.Document) (xmp.Model, bool) { m := digikam.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return digikam.MakeModel(d) }},
	{"dji", dji.NsDJI, func(d *xmp.Document) (xmp.Model, bool) { m := dji.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return dji.MakeModel(d) }},
	{"exif", exif.NsExif, func(d *xmp.Document) (xmp.Model, bool) { m := exif.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return exif.MakeModel(d) }},
	{"id3", id3.NsID3, func(d *xmp.Document) (xmp.Model, bool) { m := id3.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return id3.MakeModel(d) }},
	{"itunes", itunes.NsITunes, func(d *xmp.Document) (xmp.Model, bool) { m := itunes.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return itunes.MakeModel(d) }},
	{"ixml", ixml.NsIXML, func(d *xmp.Document) (xmp.Model, bool) { m := ixml.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return ixml.MakeModel(d) }},
	{"pdf", pdf.NsPDF, func(d *xmp.Document) (xmp.Model, bool) { m := pdf.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return pdf.MakeModel(d) }},
	{"pm", pm.NsPm, func(d *xmp.Document) (xmp.Model, bool) { m := pm.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return pm.MakeModel(d) }},
	{"ps", ps.NsPhotoshop, func(d *xmp.Document) (xmp.Model, bool) { m := ps.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return ps.MakeModel(d) }},
	{"riff", riff.NsRiff, func(d *xmp.Document) (xmp.Model, bool) { m := riff.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return riff.MakeModel(d) }},
	{"tiff", tiff.NsTiff, func(d *xmp.Document) (xmp.Model, bool) { m := tiff.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return tiff.MakeModel(d) }},
	{"xmpbase", xmpbase.NsXmp, func(d *xmp.Document) (xmp.Model, bool) { m := xmpbase.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return xmpbase.MakeModel(d) }},
	{"xmpbj", xmpbj.NsXmpBJ, func(d *xmp.Document) (xmp.Model, bool) { m := xmpbj.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return xmpbj.MakeModel(d) }},
	{"xmpdm", xmpdm.NsXmpDM, func(d *xmp.Document) (xmp.Model, bool) { m := xmpdm.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return xmpdm.MakeModel(d) }},
	{"xmpmm", xmpmm.NsXmpMM, func(d *xmp.Document) (xmp.Model, bool) { m := xmpmm.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return xmpmm.MakeModel(d) }},
	{"xmprights", xmprights.NsXmpRights, func(d *xmp.Document) (xmp.Model, bool) { m := xmprights.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return xmprights.MakeModel(d) }},
	{"xmptpg", xmptpg.NsXmpTPg, func(d *xmp.Document) (xmp.Model, bool) { m := xmptpg.FindModel(d); return m, m != nil }, func(d *xmp.Document) (xmp.Model, error) { return xmptpg.MakeModel(d) }},
}

// modelAccess reaches the models of a document through the functions of
// their packages.
func modelAccess(c *Case) {

	d := xmp.NewDocument()
	if c.R.Intn(3) > 0 {
		g := genDoc(c.R, genOpt{models: pickModels(c.R, 1+c.R.Intn(8)), maxProps: 4, about: true})
		data := writeXMP(g, randStyle(c.R), c.R)
		c.Art("in.xmp", data)
		x := &xmp.Document{}
		if err := xmp.Unmarshal(data, x); err != nil {
			c.Fail("decode", "%v", err)
			return
		}
		d = x
	}
	same := func(a, b xmp.Model) bool {
		return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	}
	for n := 4 + c.R.Intn(8); n > 0 && !c.failed(); n-- {
		a := accessors[c.R.Intn(len(accessors))]
		c.Seen(a.name)
		want := d.FindModel(a.ns)
		switch c.R.Intn(4) {
		case 0, 1:
			got, ok := a.find(d)
			c.Eval(1)
			switch {
			case want == nil && ok:
				c.Fail("find:none", "%s.FindModel returns %T, the document has no such model", a.name, got)
			case want != nil && !ok:
				c.Fail("find:nil", "%s.FindModel returns nothing, the document has %T", a.name, want)
			case want != nil && !same(got, want):
				c.Fail("find:other", "%s.FindModel returns another model than the document's", a.name)
			}
			c.Event(fmt.Sprintf("find %v", ok))
		case 2:
			before := len(d.Namespaces())
			got, err := a.make(d)
			c.Eval(2)
			if err != nil || got == nil || reflect.ValueOf(got).IsNil() {
				c.Fail("make:none", "%s.MakeModel: %v, %v", a.name, got, err)
				return
			}
			if want != nil && !same(got, want) {
				c.Fail("make:other", "%s.MakeModel returns another model than the one the document has", a.name)
			}
			now := d.FindModel(a.ns)
			if now == nil || !same(got, now) {
				c.Fail("make:lost", "%s.MakeModel: the model is not in the document", a.name)
				return
			}
			if want != nil && len(d.Namespaces()) != before {
				c.Fail("make:namespaces", "%s.MakeModel of a model the document has changes its namespaces", a.name)
			}
			if !got.Can(a.ns.GetName()) {
				c.Fail("make:can", "%s: the model does not own %s", a.name, a.ns.GetName())
			}
			if again, err := a.make(d); err != nil || !same(again, got) {
				c.Fail("make:twice", "%s.MakeModel makes another model when called again (%v)", a.name, err)
			}
			c.Event("make")
		case 3:
			// removing the namespace removes the model
			if want == nil {
				continue
			}
			d.RemoveNamespace(a.ns)
			c.Eval(1)
			if got, ok := a.find(d); ok {
				c.Fail("find:removed", "%s.FindModel returns %T after its namespace was removed", a.name, got)
			}
			c.Event("remove")
		}
	}
	c.Eval(1)
	for _, a := range accessors {
		// a new model owns its namespace and says so
		m := a.ns.NewModel()
		if m == nil || !m.Can(a.ns.GetName()) {
			c.Fail("new", "%s: a new model does not own %s", a.name, a.ns.GetName())
			return
		}
		if m.Can("vq" + a.ns.GetName()) {
			c.Fail("new:any", "%s: the model claims to own vq%s", a.name, a.ns.GetName())
		}
	}
}

// fieldTags: a model without native tags of its own takes the names of its
// fields as tags, and nothing else.
func fieldTags(c *Case) {
	var a accessor
	for {
		a = accessors[c.R.Intn(len(accessors))]
		switch a.name {
		case "exif", "id3", "itunes", "riff":
			continue
		}
		break
	}
	if c.R.Intn(8) == 0 {
		// models of the same package, without functions to find them
		a = accessor{name: "exifEX", ns: exif.NsExifEX}
		if c.R.Intn(2) == 0 {
			a = accessor{name: "aux", ns: exif.NsExifAux}
		}
	}
	ms := golden.byPfx[a.ns.GetName()]
	m := a.ns.NewModel()
	t, ok := m.(tagger)
	if !ok || ms == nil {
		c.Fail("field tags:model", "%s: %T cannot be asked for tags", a.name, m)
		return
	}
	what := a.name
	c.Seen(what)
	props := sortedKeys(ms.Props)
	fields := map[string]bool{}
	for _, p := range props {
		fields[ms.Props[p].Go] = true
	}
	set := map[string]string{} // property to text
	types := map[string]*Schema{}
	for i := 0; i < 12 && !c.failed(); i++ {
		if c.R.Intn(3) == 0 {
			var tag string
			switch c.R.Intn(3) {
			case 0:
				tm := tagModels[c.R.Intn(len(tagModels))]
				l := nativeTags[tm.name]
				tag = l[c.R.Intn(len(l))].Tag
			case 1:
				tag = pick(c.R, props...)
			case 2:
				tag = genToken(c.R)
			}
			if fields[tag] || tag == "" || what == "xmpbase" && ms.Props["xmp:"+strings.TrimPrefix(tag, "xmp:")] != nil {
				continue
			}
			c.Eval(3)
			if t.CanTag(tag) {
				c.Fail("field tags:can", "%s has no tag %q, CanTag says it has", what, tag)
			}
			if v, err := t.GetTag(tag); err == nil {
				c.Fail("field tags:get", "%s has no tag %q, GetTag = %q", what, tag, v)
			}
			if err := t.SetTag(tag, "1"); err == nil {
				c.Fail("field tags:set", "%s has no tag %q, SetTag is accepted", what, tag)
			}
			c.Event("no tag")
			continue
		}
		p := pick(c.R, props...)
		s := ms.Props[p]
		if s.Kind != "leaf" || !usable(s) || s.Go == "" || s.Base == "struct" || s.Base == "slice" || s.Base == "array" {
			continue
		}
		text := strings.TrimSpace(leafVal(c.R, s).text)
		if text == "" || text == "0" || text == "False" {
			continue
		}
		c.Eval(3)
		if !t.CanTag(s.Go) {
			c.Fail("field tags:cannot", "%s: CanTag(%q) is false", what, s.Go)
			continue
		}
		if err := t.SetTag(s.Go, text); err != nil {
			c.Fail("field tags:refused", "%s: SetTag(%q,%q) of %s: %v", what, s.Go, text, s.Type, err)
			continue
		}
		if v, err := t.GetTag(s.Go); err != nil || v != text {
			c.Fail("field tags:read "+s.Type, "%s: GetTag(%q) = %q, %v after it was set to %q", what, s.Go, v, err, text)
		}
		set[p], types[p] = text, s
		c.Event("field tag")
	}
	d := xmp.NewDocument()
	d.AddModel(m)
	out, err := xmp.Marshal(d)
	if err != nil {
		c.Fail("field tags:save", "%s: %v", what, err)
		return
	}
	c.Art("out.xmp", out)
	r, err := readXMP(out)
	if err != nil {
		c.Fail("field tags:packet", "%s: %v", what, err)
		return
	}
	for p, w := range set {
		c.Eval(1)
		v := r.props[golden.q(p)]
		if v == nil || plain(v) != w {
			c.Fail("field tags:lost", "%s: tag %s was set to %q, the packet has %.80s", what, types[p].Go, w, fmt.Sprint(v))
		}
	}
}
