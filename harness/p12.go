package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/models/pdf"
	"github.com/trimmer-io/go-xmp/models/tiff"
	"github.com/trimmer-io/go-xmp/xmp"
)

// rule is one documented value transfer between models.
type rule struct {
	src, dst string
	fill     bool // only when the destination is missing
	conv     bool // the text is converted
	always   bool // also without a source value, when the source model exists
}

// transfers that happen when a document is loaded
var loadRules = []rule{
	{"dc:title", "id3:titleDescription", false, false, false},
	{"dc:rights", "id3:copyright", false, false, false},
	{"xmp:CreateDate", "id3:recordingTime", false, true, false},
	{"xmpDM:artist", "id3:leadPerformer", false, false, false},
	{"xmpDM:album", "id3:albumTitle", false, false, false},
	{"xmpDM:logComment", "id3:comments", false, false, false},
	{"xmpDM:genre", "id3:contentType", false, true, false},
	{"xmpDM:trackNumber", "id3:trackNumber", false, true, false},
	{"xmpDM:partOfCompilation", "id3:isCompilation", false, true, true},
	{"xmpDM:composer", "id3:composer", false, false, false},
	{"xmpDM:engineer", "id3:modifiedBy", false, false, false},
	{"xmpDM:discNumber", "id3:partOfASet", false, true, false},
	{"xmpDM:lyrics", "id3:unsynchronizedLyrics", false, true, false},
	{"xmpRights:WebStatement", "id3:copyrightInformation", false, false, false},
	{"dc:title", "riffinfo:name", false, false, false},
	{"dc:rights", "pdf:Copyright", false, false, false},
}

// transfers that happen when a changed document is saved
var saveRules = []rule{
	{"id3:titleDescription", "dc:title", true, false, false},
	{"id3:copyright", "dc:rights", true, false, false},
	{"id3:recordingTime", "xmp:CreateDate", false, true, false},
	{"id3:comments", "xmpDM:logComment", false, false, false},
	{"id3:albumTitle", "xmpDM:album", false, false, false},
	{"id3:isCompilation", "xmpDM:partOfCompilation", false, true, true},
	{"id3:composer", "xmpDM:composer", false, false, false},
	{"id3:contentType", "xmpDM:genre", false, true, false},
	{"id3:leadPerformer", "xmpDM:artist", false, false, false},
	{"id3:modifiedBy", "xmpDM:engineer", false, false, false},
	{"id3:partOfASet", "xmpDM:discNumber", false, true, false},
	{"id3:trackNumber", "xmpDM:trackNumber", false, true, false},
	{"id3:unsynchronizedLyrics", "xmpDM:lyrics", false, true, false},
	{"id3:copyrightInformation", "xmpRights:WebStatement", false, false, false},
	{"riffinfo:name", "dc:title", true, false, false},
	{"pdf:Copyright", "dc:rights", true, false, false},
	{"iXML:soundRoll", "xmpDM:tapeName", false, false, false},
	{"iXML:sceneName", "xmpDM:scene", false, false, false},
	{"iXML:take", "xmpDM:trackNumber", false, false, false},
	{"iXML:note", "xmpDM:logComment", false, false, false},
	{"iXML:project", "xmpDM:projectName", false, false, false},
	{"iXML:circled", "xmpDM:good", false, true, false},
	{"iXML:speed", "xmpDM:startTimecode", false, true, false},
	{"iXML:speed", "xmpDM:audioSampleRate", false, true, false},
}

var syncSet = []string{"id3", "riffinfo", "pdf", "iXML", "tiff", "exif", "dc", "xmp", "xmpDM", "xmpRights"}

// plain gives the text of a value, the default one of an alternative.
func plain(v *val) string {
	if v == nil {
		return ""
	}
	if v.kind == 'a' {
		if len(v.items) == 0 {
			return ""
		}
		return v.items[0].text
	}
	return v.text
}

// transfer checks that got follows from have by the rules.
func transfer(c *Case, what string, rules []rule, have, got *rdfDoc, models map[string]bool) {
	byDst := map[qname][]rule{}
	for _, r := range rules {
		// nothing is transferred into models a loaded document does not have
		byDst[golden.q(r.dst)] = append(byDst[golden.q(r.dst)], r)
	}
	fh, fg := have.flat(), got.flat()
	keys := map[qname]bool{}
	for q := range have.props {
		keys[q] = true
	}
	for q := range got.props {
		keys[q] = true
	}
	for _, q := range sortedQB(keys) {
		k := q.String()
		h, g := have.props[q], got.props[q]
		c.Eval(1)
		var cand []string
		set, open, any := false, false, false
		for _, r := range byDst[q] {
			s := have.props[golden.q(r.src)]
			if s == nil && !(r.always && models[r.src[:strings.Index(r.src, ":")]]) {
				continue
			}
			if r.fill && h != nil {
				continue
			}
			any = true
			set = set || !r.fill
			open = open || r.conv
			cand = append(cand, plain(s))
			c.Event(what + " " + r.src + " > " + r.dst)
			c.Seen(what, r.src, r.dst, fmt.Sprint(h != nil), fmt.Sprint(len(byDst[q])))
		}
		switch {
		case !any:
			// values of new models
			if h == nil && g != nil && isDefault(q, fg[k]) {
				continue
			}
			if fh[k] != fg[k] {
				c.Fail(what+":"+k, "%s: %s\n  was: %s\n  is: %s", what, k, fh[k], fg[k])
				return
			}
		case open:
			if g == nil && h != nil && !byDst[q][0].always {
				c.Fail(what+":lost:"+k, "%s: %s is gone, was %s", what, k, fh[k])
				return
			}
		default:
			if h != nil && (!set || len(cand) > 1) {
				cand = append(cand, plain(h))
			}
			if !in(cand, plain(g)) {
				c.Fail(what+":"+k, "%s: %s\n  was: %s\n  is: %s\n  expected one of: %q", what, k, fh[k], fg[k], cand)
				return
			}
		}
	}
}

func isDefault(q qname, flat string) bool {
	for _, ms := range golden.byPfx {
		if ms.Defaults[q.String()] == flat && flat != "" {
			return true
		}
	}
	return false
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func sortedQB(m map[qname]bool) []qname {
	var l []qname
	for q := range m {
		l = append(l, q)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func standardSync(c *Case) {
	r := c.R
	var models []string
	for _, i := range r.Perm(len(syncSet))[:2+r.Intn(4)] {
		models = append(models, syncSet[i])
	}
	if r.Intn(3) == 0 {
		for _, m := range pickModels(r, 1) {
			if !in(models, m) {
				models = append(models, m)
			}
		}
	}
	d := genDoc(r, genOpt{models: models, maxProps: 6, unknown: r.Intn(4) == 0})
	for _, l := range [][]rule{loadRules, saveRules} {
		for _, x := range l {
			for _, n := range []string{x.src, x.dst} {
				p := n[:strings.Index(n, ":")]
				if in(models, p) && r.Intn(4) == 0 {
					if s := golden.byPfx[p].Props[n]; s != nil && usable(s) {
						if v := genVal(r, s, 0); v != nil && !v.empty() {
							d.props[golden.q(n)] = v
						}
					}
				}
			}
		}
	}
	for _, v := range d.props {
		uniqAlts(c, v)
	}
	b := writeXMP(d, randStyle(r), r)
	c.Art("input", b)
	doc, err := decodeXML(b)
	if err != nil {
		c.Fail("decode", "%v", err)
		return
	}
	defer doc.Close()
	have := map[string]bool{}
	for q := range d.props {
		have[d.pfx[q.uri]] = true
	}
	save := func(what string) *rdfDoc {
		out, err := xmp.Marshal(doc)
		if err != nil {
			c.Fail("encode", "%s: %v", what, err)
			return nil
		}
		c.Art(what, out)
		x, err := readXMP(out)
		if err != nil {
			c.Fail("output", "%s: %v", what, err)
			return nil
		}
		return x
	}
	x1 := save("loaded")
	if x1 == nil {
		return
	}
	transfer(c, "load", loadRules, d.rdfDoc, x1, have)
	if c.failed() {
		return
	}
	for q := range x1.props {
		have[d.pfx[q.uri]] = true
	}
	doc.SetDirty()
	x2 := save("saved")
	if x2 == nil {
		return
	}
	transfer(c, "save", saveRules, x1, x2, have)
	if c.failed() {
		return
	}
	// saving once more changes nothing
	doc.SetDirty()
	x3 := save("saved again")
	if x3 == nil {
		return
	}
	c.Eval(len(x2.props))
	f2, f3 := x2.flat(), x3.flat()
	if diff := diffMaps(f2, f3); len(diff) > 0 {
		c.Fail(diffKey("unstable", diff), "saving twice gives different documents:\n  %s", head(diff, 6))
	}
}

// identifierRules are the asset identifiers SyncModels collects.
var identifierRules = map[string]string{
	"exif:ImageUniqueID": "uuid:exif", "iXML:fileUid": "uuid:ixml", "qt:udta/GUID": "uuid:guid", "qt:udta/ISRCCode": "uuid:isrc",
	"qt:udta/ContentID": "uuid:cid", "qt:udta/ClipID": "uuid:clipid", "iTunes:StoreFrontID": "uuid:sfid", "id3:podcastID": "uuid:podcast",
	"id3:uniqueFileIdentifier": "uuid:id3", "qt:mdta/ContentIdentifier": "uuid:cid", "qt:proapps/ClipID": "uuid:clipid",
}

func identifiers(c *Case) {
	r := c.R
	doc := xmp.NewDocument()
	defer doc.Close()
	want := []string{}
	base := r.Intn(8) > 0
	set := func(p, v string, f xmp.SyncFlags) {
		if err := doc.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: v, Flags: f}); err != nil {
			c.Fail("set:"+p, "SetPath(%s): %v", p, err)
		}
	}
	if base {
		set("xmp:CreatorTool", "tool", xmp.CREATE)
		for i, n := 0, r.Intn(3); i < n; i++ {
			v := "id:" + genToken(r)
			if r.Intn(3) == 0 {
				v = "uuid:exif:same"
			}
			if !in(want, v) {
				want = append(want, v)
				set("xmp:Identifier", v, xmp.CREATE|xmp.APPEND)
			}
		}
	}
	keys := sortedKeys(identifierRules)
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		k := keys[r.Intn(len(keys))]
		v := genToken(r)
		switch {
		case k == "iTunes:StoreFrontID":
			continue // a number with its own notation
		case r.Intn(3) == 0:
			v = "same"
		}
		set(k, v, xmp.CREATE|xmp.REPLACE)
	}
	if c.failed() {
		return
	}
	before, err := listPaths(doc)
	if err != nil {
		c.Fail("list", "%v", err)
		return
	}
	add := map[string]bool{}
	for _, s := range before {
		i := strings.Index(s, " = ")
		if p := identifierRules[s[:i]]; p != "" && base {
			c.Event("identifier " + s[:i])
			add[p+":"+s[i+3:]] = true
		}
	}
	for round := 0; round < 2; round++ {
		if err := doc.SyncModels(); err != nil {
			c.Fail("syncmodels", "%v", err)
			return
		}
		after, err := listPaths(doc)
		if err != nil {
			c.Fail("list", "%v", err)
			return
		}
		var ids, rest, rest0 []string
		for _, s := range after {
			if strings.HasPrefix(s, "xmp:Identifier") {
				ids = append(ids, s[strings.Index(s, " = ")+3:])
			} else {
				rest = append(rest, s)
			}
		}
		for _, s := range before {
			if !strings.HasPrefix(s, "xmp:Identifier") {
				rest0 = append(rest0, s)
			}
		}
		c.Eval(len(after))
		exp := append([]string{}, want...)
		for s := range add {
			if !in(exp, s) {
				exp = append(exp, s)
			}
		}
		if len(want) <= len(ids) && len(want) < 10 {
			// the old ones stay in place
			for i, s := range want {
				if ids[i] != s {
					c.Fail("identifiers:order", "identifier %d was %q, is %q", i, s, ids[i])
					return
				}
			}
		}
		sort.Strings(ids)
		sort.Strings(exp)
		c.Seen("identifiers", fmt.Sprint(len(want)), strings.Join(exp, " "))
		if strings.Join(ids, "\n") != strings.Join(exp, "\n") {
			c.Fail("identifiers", "SyncModels (round %d): identifiers are\n  %q\nexpected\n  %q\nproperties\n  %s", round, ids, exp, head(before, 12))
			return
		}
		if diff := strDiff(rest0, rest); len(diff) > 0 {
			c.Fail("identifiers:other", "SyncModels changed other properties:\n  %s", head(diff, 6))
			return
		}
	}
}

// syncAPI checks Document.Sync and SyncMulti between arbitrary properties.
func syncAPI(c *Case) {
	r := c.R
	d := genDoc(r, genOpt{unknown: r.Intn(4) == 0, maxProps: 6})
	w := newWorld(c, d)
	if w == nil {
		return
	}
	for i, n := 0, 1+r.Intn(10); i < n; i++ {
		sites := d.allSites(c, 12)
		var src, dst []*site
		for _, s := range sites {
			if s.s == nil {
				continue
			}
			if s.kind != 'a' || s.v != nil {
				src = append(src, s)
			}
			dst = append(dst, s)
		}
		if len(src) == 0 || len(dst) == 0 {
			return
		}
		a := src[r.Intn(len(src))]
		cur := ""
		if a.v == nil && strings.Contains(a.path, "[") {
			continue // a missing item is not the same as an empty value
		}
		if a.v != nil {
			cur = a.v.text
			if a.v.kind == 'a' {
				if len(a.v.items) == 0 || a.v.items[0].kind != 's' {
					continue
				}
				if a.kind == 'A' && a.v.items[0].lang != "x-default" {
					continue
				}
				cur = a.v.items[0].text
			}
			if cur == "" {
				continue
			}
		}
		// a destination that takes the text
		var b *site
		for j := 0; j < 20; j++ {
			x := dst[r.Intn(len(dst))]
			free := x.kind == 'l' || x.kind == 'A' || x.s.Kind == "leaf" && x.s.Type == "string"
			if x.path != a.path && (free || a.kind == 's' && x.kind == 's' && a.s.Kind == "leaf" && x.s.Kind == "leaf" && a.s.Type == x.s.Type) && (x.parent == nil || x.parent != a.parent) {
				b = x
				break
			}
		}
		if b != nil && b.kind == 's' && b.s.Type != "string" && len(a.s.Vals) > 0 && !in(b.s.Vals, cur) {
			continue // a pointer can hold what its plain counterpart cannot: false
		}
		if b == nil || strings.HasPrefix(a.path, b.path) || strings.HasPrefix(b.path, a.path) {
			continue
		}
		f := xmp.SyncFlags(r.Intn(64))
		ef := f
		if f == 0 {
			ef = xmp.DEFAULT
		}
		bcur := ""
		if b.v != nil {
			bcur = plain(b.v)
			if bcur == "" {
				continue
			}
		}
		v, o := cur, same
		var conv xmp.ConverterFunc
		called := 0
		if cur != "" && r.Intn(3) == 0 && (b.kind != 's' || b.s.Type == "string") {
			v = "conv-" + genToken(r) + ":" + cur
			w := v
			conv = func(s string) string {
				called++
				if s != cur {
					return "converter got " + s
				}
				return w
			}
		}
		var apply func()
		model := ""
		sp, dp := a.path, b.path
		ns, err := xmp.GetNamespace(xmp.Path(dp).NamespacePrefix())
		if err != nil {
			continue
		}
		var m xmp.Model
		switch k := r.Intn(8); {
		case k < 3 && w.doc.FindModel(ns) != nil && w.doc.FindModel(ns).Namespaces()[0].GetName() == ns.GetName():
			m, model = w.doc.FindModel(ns), "its model"
		case k == 3:
			// the model of another namespace: nothing happens
			for _, q := range w.doc.Nodes() {
				if q.Model != nil && q.Model.Namespaces()[0].GetName() != ns.GetName() {
					m, model = q.Model, "another model"
				}
			}
		case k == 5 && r.Intn(2) == 0:
			// namespaces of structures have no model
			var l []string
			for _, x := range xmp.NsRegistry.Namespaces() {
				if x.NewModel() == nil {
					l = append(l, x.GetName())
				}
			}
			if len(l) > 0 {
				sort.Strings(l)
				dp, model = pick(r, l...)+":"+dp[strings.Index(dp, ":")+1:], "no destination model"
				m = nil
			}
		case k == 4:
			sp, model = "nosuchns:"+sp[strings.Index(sp, ":")+1:], "no source namespace"
		}
		if sns, err := xmp.GetNamespace(xmp.Path(a.path).NamespacePrefix()); err != nil {
			continue
		} else if w.doc.FindModel(sns) == nil {
			model = "no source model"
		}
		switch {
		case model == "no destination model":
			if ns, err = xmp.GetNamespace(xmp.Path(dp).NamespacePrefix()); err != nil || strings.HasPrefix(dp, "rdf:") {
				continue
			}
		case model == "another model" || model == "no source namespace" || model == "no source model":
		case cur == bcur:
		case cur == "" && !has(ef, xmp.DELETE):
		case bcur == "" && !has(ef, xmp.CREATE):
		case bcur != "" && !has(ef, xmp.REPLACE|xmp.DELETE|xmp.APPEND|xmp.UNIQUE):
		default:
			if v == bcur || strings.HasSuffix(v, "/0") {
				continue
			}
			if b.parent != nil {
				dup := false
				for _, x := range b.parent.items {
					dup = dup || x.text == v
				}
				if dup {
					continue // equal texts of an alternative are one entry
				}
			}
			var ok bool
			if o, apply, ok = expect(b, v, f); !ok {
				continue
			}
		}
		oname := [...]string{"same", "refused", "either", "changed"}[o]
		c.Event("sync " + oname)
		c.Seen(a.path, b.path, flagString(f), model)
		what := fmt.Sprintf("Sync(%s, %s, %s) %s with source %q", sp, dp, flagString(f), model, cur)
		w.log = append(w.log, what)
		clean, hadModel := !w.doc.IsDirty(), w.doc.FindModel(ns) != nil
		if r.Intn(3) == 0 {
			err = w.doc.SyncMulti(xmp.SyncDescList{&xmp.SyncDesc{Source: xmp.Path(sp), Dest: xmp.Path(dp), Flags: f, Convert: conv}}, m)
		} else {
			err = w.doc.Sync(xmp.Path(sp), xmp.Path(dp), f, m, conv)
		}
		switch {
		case err != nil && has(f, xmp.NOFAIL):
			c.Fail("nofail", "%s: error in spite of NOFAIL: %v", what, err)
		case err != nil && (o == changed || o == same):
			c.Fail("error:"+oname, "%s: %v", what, err)
		case o == changed && !w.doc.IsDirty():
			c.Fail("clean", "%s: the document does not count as changed", what)
		case o == same && !has(ef, xmp.CREATE) && clean && w.doc.IsDirty():
			c.Fail("dirty", "%s: nothing to do, but the document counts as changed", what)
		case o == same && !has(ef, xmp.CREATE) && !hadModel && w.doc.FindModel(ns) != nil:
			c.Fail("model", "%s: nothing to do, but a model was added", what)
		case conv != nil && o == changed && called != 1:
			c.Fail("converter", "%s: converter called %d times", what, called)
		}
		if c.failed() {
			c.Art("history", strings.Join(w.log, "\n"))
			return
		}
		if o == changed {
			apply()
		}
		if !w.verify(c, what) {
			return
		}
	}
	w.finish(c)
}

func init() {
	register(&Property{
		ID:   "P12",
		Rule: "values moved between models by Document.Sync with all flags, by SyncModels and by the implicit sync on loading and saving documents of all combinations of models that sync; tables of the documented transfers tell which values may and must move, everything else must stay; distinct by (source, destination, flags) and (rule, state)",
		Scenarios: []Scenario{
			{"sync", 16000, 240000, syncAPI},
			{"standard", 15000, 250000, standardSync},
			{"identifiers", 3000, 30000, identifiers},
			{"native fields", 6000, 100000, nativeFill},
		},
	})
}

// nativeFields are model fields which hold a value of another model's property.
var nativeFields = map[string]map[string]string{
	"tiff": {"Artist": "dc:creator", "ImageDescription": "dc:description", "Copyright": "dc:rights", "DateTime": "xmp:ModifyDate", "Software": "xmp:CreatorTool"},
	"pdf": {"Author": "dc:creator", "Title": "dc:title", "Subject": "dc:description", "Creator": "xmp:CreatorTool",
		"CreationDate": "xmp:CreateDate", "ModifyDate": "xmp:ModifyDate"},
}

// misplaced are properties other programs write although the standard keeps them in dc and xmp.
var misplaced = map[string]string{"tiff:Artist": "dc:creator", "tiff:ImageDescription": "dc:description", "tiff:Copyright": "dc:rights",
	"tiff:DateTime": "xmp:ModifyDate", "tiff:Software": "xmp:CreatorTool"}

// nativeValue makes a value for property name.
func nativeValue(c *Case, name string) *val {
	r := c.R
	tok := func() string { return fmt.Sprintf("%s t%d", pick(r, "one", "Größe", "a & b", "x"), r.Intn(1e6)) }
	switch name {
	case "dc:creator":
		v := &val{kind: 'a', typ: "Seq"}
		for i := 1 + r.Intn(3); i > 0; i-- {
			v.items = append(v.items, newScalar(tok()))
		}
		return v
	case "dc:title", "dc:description", "dc:rights":
		v := &val{kind: 'a', typ: "Alt"}
		v.items = append(v.items, &val{kind: 's', text: tok(), lang: "x-default"})
		for _, l := range []string{"de", "fr-CA"} {
			if r.Intn(4) == 0 {
				v.items = append(v.items, &val{kind: 's', text: tok(), lang: l})
			}
		}
		return v
	case "xmp:ModifyDate", "xmp:CreateDate":
		return newScalar(fmt.Sprintf("20%02d-%02d-%02dT%02d:%02d:%02d%s", r.Intn(60), 1+r.Intn(12), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), pick(r, "Z", "+02:00", "-07:30")))
	}
	return newScalar(tok())
}

// setNative sets a Go field to v.
func setNative(f reflect.Value, v *val) {
	switch f.Interface().(type) {
	case xmp.StringList:
		var l xmp.StringList
		for _, x := range v.items {
			l = append(l, x.text)
		}
		f.Set(reflect.ValueOf(l))
	case xmp.AltString:
		a := xmp.AltString{}
		for _, x := range v.items {
			if x.lang == "x-default" {
				a.AddDefault("", x.text)
			} else {
				a.Add(x.lang, x.text)
			}
		}
		f.Set(reflect.ValueOf(a))
	case xmp.Date:
		d, err := xmp.ParseDate(v.text)
		if err != nil {
			panic(err)
		}
		f.Set(reflect.ValueOf(d))
	default:
		f.SetString(v.text)
	}
}

// nativeFill sets fields of models without own properties; they fill the standard property and
// never replace it.
func nativeFill(c *Case) {
	r := c.R
	m := pick(r, "tiff", "pdf")
	tab := nativeFields[m]
	d := newGdoc()
	put := func(n string, v *val) {
		d.props[golden.q(n)] = v
		d.pfx[golden.q(n).uri] = n[:strings.Index(n, ":")]
	}
	want := map[qname]*val{}
	for _, n := range []string{"dc:title", "dc:creator", "dc:description", "dc:rights", "xmp:ModifyDate", "xmp:CreateDate", "xmp:CreatorTool"} {
		// dc:rights is known to pdf by a property of its own
		if r.Intn(2) == 0 && (m != "pdf" || n != "dc:rights") {
			v := nativeValue(c, n)
			put(n, v)
			want[golden.q(n)] = v
		}
	}
	other := map[string]string{"tiff": "tiff:Make", "pdf": "pdf:Keywords"}[m]
	if r.Intn(2) == 0 {
		v := newScalar(fmt.Sprintf("k%d", r.Intn(1e6)))
		put(other, v)
		want[golden.q(other)] = v
	}
	mis := map[qname]*val{}
	if m == "tiff" && r.Intn(2) == 0 {
		for _, n := range []string{"tiff:Artist", "tiff:ImageDescription", "tiff:Copyright", "tiff:DateTime", "tiff:Software"} {
			if r.Intn(2) == 0 {
				v := nativeValue(c, misplaced[n])
				w := v
				if n == "tiff:Artist" {
					// names in one text
					var l []string
					for _, x := range v.items {
						l = append(l, x.text)
					}
					w = newScalar(strings.Join(l, pick(r, ",", ", ")))
				}
				put(n, w)
				mis[golden.q(misplaced[n])] = v
			}
		}
	}
	b := writeXMP(d, randStyle(r), r)
	c.Art("input", b)
	doc, err := decodeXML(b)
	if err != nil {
		c.Fail("decode", "%v", err)
		return
	}
	defer func() { doc.Close() }()
	for q, v := range mis {
		if want[q] == nil {
			want[q] = v
			c.Event("misplaced " + q.String())
		}
	}
	x, err := doc.MakeModel(map[string]*xmp.Namespace{"tiff": tiff.NsTiff, "pdf": pdf.NsPDF}[m])
	if err != nil {
		c.Fail("model", "%v", err)
		return
	}
	var set []string
	for _, f := range sortedKeys(tab) {
		if r.Intn(2) == 0 {
			continue
		}
		q := golden.q(tab[f])
		v := nativeValue(c, tab[f])
		setNative(reflect.ValueOf(x).Elem().FieldByName(f), v)
		set = append(set, fmt.Sprintf("%s.%s = %s", m, f, v.String()))
		if want[q] != nil && mis[q] != nil && d.props[q] == nil {
			// the field replaces what was read from the wrong place
			want[q] = v
			c.Event("field before misplaced")
		} else if want[q] == nil {
			want[q] = v
			c.Event("field fills " + tab[f])
		} else {
			c.Event("field does not replace " + tab[f])
		}
		c.Seen(m, f, fmt.Sprint(d.props[q] != nil), fmt.Sprint(mis[q] != nil))
	}
	what := "set " + strings.Join(set, ", ")
	for i := 0; i < 2; i++ {
		doc.SetDirty()
		out, err := xmp.Marshal(doc)
		if err != nil {
			c.Fail("encode", "%s: %v", what, err)
			return
		}
		c.Art("output", out)
		got, err := readXMP(out)
		if err != nil {
			c.Fail("output", "%v", err)
			return
		}
		w := newGdoc()
		for q, v := range want {
			w.props[q] = v
		}
		c.Eval(len(want) + 1)
		if l := diffMaps(w.flat(), got.flat()); len(l) > 0 {
			c.Fail(diffKey("fields", l), "%s\n  %s", what, head(l, 5))
			return
		}
		doc.Close()
		if doc, err = decodeXML(out); err != nil {
			c.Fail("reread", "%v", err)
			return
		}
		// the fields show the standard properties
		if x := doc.FindModel(map[string]*xmp.Namespace{"tiff": tiff.NsTiff, "pdf": pdf.NsPDF}[m]); x != nil {
			for _, f := range sortedKeys(tab) {
				v := want[golden.q(tab[f])]
				g := reflect.ValueOf(x).Elem().FieldByName(f)
				e := reflect.New(g.Type()).Elem()
				if v != nil {
					setNative(e, v)
				}
				c.Eval(1)
				if a, b := showField(g), showField(e); a != b {
					c.Fail("field:"+m+"."+f, "%s: %s.%s is %s, the packet has %s", what, m, f, a, b)
					return
				}
			}
		}
	}
}

func showField(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case xmp.Date:
		if x.IsZero() {
			return "none"
		}
		return x.Value().UTC().String()
	case xmp.AltString:
		var l []string
		for _, i := range x {
			l = append(l, fmt.Sprintf("%v %s=%s", i.IsDefault, i.Lang, i.Value))
		}
		return strings.Join(l, "|")
	}
	return fmt.Sprintf("%q", v.Interface())
}
