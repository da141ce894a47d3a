package main

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
)

// Go values of a user's model against the packet. fill sets random fields of
// fullModel, tree tells the RDF form of a model; both follow the committed
// schema and not the library's type information.

func fillLeaf(r *rand.Rand, v reflect.Value, ptr bool) {
	switch x := v.Addr().Interface().(type) {
	case *ownText:
		*x = ownText{strings.ReplaceAll(genText(r), "#", "+"), pick(r, "", "b", genToken(r), "x y")}
		return
	case *ownHex:
		*x = ownHex(r.Uint32() | 1)
		return
	case *ownNode:
		*x = ownNode{1 + r.Intn(1000), r.Intn(1000) - 500}
		return
	case *ownAttr:
		*x = ownAttr(genText(r))
		return
	case *xmp.Date:
		z := time.FixedZone("", 60*(r.Intn(24*60)-12*60))
		if r.Intn(3) == 0 {
			z = time.UTC
		}
		*x = xmp.Date(time.Unix(r.Int63n(4e9), 0).In(z))
		return
	case *xmp.Bool:
		*x = true
		return
	case *xmp.Rational:
		*x = xmp.Rational{Num: r.Int63n(1000) - 500, Den: 1 + r.Int63n(1000)}
		if x.Num == 0 {
			x.Num = 7
		}
		return
	case *[]byte:
		*x = []byte(genText(r))
		return
	}
	one := int64(1)
	if ptr && r.Intn(3) == 0 {
		one = 0
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(genText(r))
	case reflect.Bool:
		v.SetBool(one == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := v.Type().Bits()
		n := int64(r.Uint64()) >> (64 - b) >> r.Intn(b)
		switch r.Intn(6) {
		case 0:
			n = math.MinInt64 >> (64 - b)
		case 1:
			n = math.MaxInt64 >> (64 - b)
		}
		if n == 0 || one == 0 {
			n = one
		}
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b := v.Type().Bits()
		n := r.Uint64() >> (64 - b) >> r.Intn(b)
		if r.Intn(6) == 0 {
			n = math.MaxUint64 >> (64 - b)
		}
		if n == 0 || one == 0 {
			n = uint64(one)
		}
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		n := math.Float64frombits(r.Uint64())
		if r.Intn(2) == 0 || math.IsNaN(n) || math.IsInf(n, 0) {
			n = float64(r.Intn(20000)-10000) / 16
		}
		if v.Type().Bits() == 32 {
			n = float64(math.Float32frombits(r.Uint32()))
			if math.IsNaN(n) || math.IsInf(n, 0) {
				n = -0.5
			}
		}
		if n == 0 || one == 0 {
			n = float64(one)
		}
		v.SetFloat(n)
	default:
		panic("leaf " + v.Type().String())
	}
}

func leafText(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case ownText:
		return x.A + "#" + x.B
	case ownHex:
		return fmt.Sprintf("0x%08X", uint32(x))
	case ownNode:
		return fmt.Sprintf("%d<>%d", x.L, x.R)
	case ownAttr:
		return "~" + string(x)
	case xmp.Date:
		return time.Time(x).Format("2006-01-02T15:04:05Z07:00")
	case xmp.Bool:
		return "True"
	case xmp.Rational:
		return fmt.Sprintf("%d/%d", x.Num, x.Den)
	case []byte:
		return string(x)
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'g', -1, 32)
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	}
	return fmt.Sprint(v.Interface())
}

// byPath finds a field along embedded structures.
func byPath(v reflect.Value, path string, alloc bool) (reflect.Value, bool) {
	for _, n := range strings.Split(path, ".") {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				if !alloc {
					return v, false
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.FieldByName(n)
	}
	return v, true
}

func fill(r *rand.Rand, v reflect.Value, s *Schema, ptr bool, depth int) {
	if v.Kind() == reflect.Ptr {
		v.Set(reflect.New(v.Type().Elem()))
		fill(r, v.Elem(), s, true, depth)
		return
	}
	switch s.Kind {
	case "leaf":
		fillLeaf(r, v, ptr)
	case "alt":
		var a xmp.AltString
		a.AddDefault("", genText(r))
		for _, l := range pick(r, "", "de", "de fr", "en-US ja") {
			_ = l
		}
		for _, l := range strings.Fields(pick(r, "", "de", "de fr", "en-US ja")) {
			a.Add(l, genText(r)+l)
		}
		v.Set(reflect.ValueOf(a))
	case "array":
		n := v.Len()
		if v.Kind() == reflect.Slice {
			n = 1 + r.Intn(4)
			if r.Intn(8) == 0 {
				n = 20
			}
			v.Set(reflect.MakeSlice(v.Type(), n, n))
		}
		for i := 0; i < n; i++ {
			fill(r, v.Index(i), s.Elem, true, depth+1)
		}
	case "struct":
		fillFields(r, v, s.Fields, 1+r.Intn(4), depth)
	default:
		panic(s.Kind)
	}
}

// fillFields sets n fields (or more).
func fillFields(r *rand.Rand, v reflect.Value, fields map[string]*Schema, n, depth int) []string {
	names := sortedKeys(fields)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	if n > len(names) {
		n = len(names)
	}
	for _, k := range names[:n] {
		f, _ := byPath(v, fields[k].Go, true)
		fill(r, f, fields[k], false, depth+1)
	}
	return names[:n]
}

func tree(v reflect.Value, s *Schema) *val {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	switch s.Kind {
	case "leaf":
		return sval(leafText(v))
	case "alt":
		x := &val{kind: 'a', typ: "Alt"}
		for _, i := range v.Interface().(xmp.AltString) {
			l := i.Lang
			if l == "" && i.IsDefault {
				l = "x-default"
			}
			x.items = append(x.items, &val{kind: 's', text: i.Value, lang: l})
		}
		return x
	case "array":
		x := &val{kind: 'a', typ: s.Arr}
		for i := 0; i < v.Len(); i++ {
			x.items = append(x.items, tree(v.Index(i), s.Elem))
		}
		if len(x.items) == 0 {
			return nil
		}
		return x
	}
	x := &val{kind: 't', fields: map[qname]*val{}}
	for k, m := range treeFields(v, s.Fields) {
		x.fields[golden.q(k)] = m
	}
	if len(x.fields) == 0 {
		return nil
	}
	return x
}

func treeFields(v reflect.Value, fields map[string]*Schema) map[string]*val {
	out := map[string]*val{}
	for k, s := range fields {
		f, ok := byPath(v, s.Go, false)
		// zero values are not written, values of pointers are
		if !ok || f.IsZero() || f.Kind() == reflect.Slice && f.Len() == 0 {
			continue
		}
		if x := tree(f, s); x != nil {
			out[k] = x
		}
	}
	return out
}

func treeOf(m *fullModel) map[string]string {
	out := map[string]string{}
	for k, x := range treeFields(reflect.ValueOf(m).Elem(), golden.byPfx["vfa"].Props) {
		if !x.empty() {
			out[golden.q(k).String()] = x.String()
		}
	}
	return out
}

func ownValues(c *Case) {
	r := c.R
	m := &fullModel{}
	n := 1
	if c.Idx%2 == 0 {
		n = 1 + r.Intn(12)
	}
	names := fillFields(r, reflect.ValueOf(m).Elem(), golden.byPfx["vfa"].Props, n, 0)
	want := treeOf(m)
	c.Seen("values", fmt.Sprint(want))
	c.Event("models of Go values")
	check := func(what string, d map[string]string) {
		c.Eval(len(want) + 1)
		if x := diffMaps(want, d); len(x) > 0 {
			c.Fail(what+" "+strings.SplitN(x[0], ":", 2)[0], "%s of fields %v:\n  %s", what, names, strings.Join(x, "\n  "))
		}
	}
	d := xmp.NewDocument()
	defer d.Close()
	if _, err := d.AddModel(m); err != nil {
		c.Fail("add", "%v", err)
		return
	}
	b, err := xmp.Marshal(d)
	if err != nil {
		c.Fail("write", "fields %v: %v", names, err)
		return
	}
	c.Art("packet.xmp", b)
	check("writing changed the model", treeOf(m))
	p, err := readXMP(b)
	if err != nil {
		c.Fail("packet", "%v", err)
		return
	}
	check("packet", p.flat())
	back := func(what string, e *xmp.Document, err error) {
		if err != nil {
			c.Fail(what, "%s: %v", what, err)
			return
		}
		defer e.Close()
		x, _ := e.FindModel(nsOwn).(*fullModel)
		if x == nil {
			c.Fail(what, "%s: no model", what)
			return
		}
		check(what, treeOf(x))
	}
	e := xmp.NewDocument()
	back("model read again", e, xmp.Unmarshal(b, e))
	// the same packet as other programs write it
	g := newGdoc()
	for k, v := range p.props {
		g.props[k] = v
	}
	g.pfx[nsOwn.GetURI()], g.pfx[nsOwnS.GetURI()] = "vfa", "vfs"
	o := writeXMP(g, randStyle(r), r)
	c.Art("other.xmp", o)
	e = xmp.NewDocument()
	back("model read from another form", e, xmp.Unmarshal(o, e))
	j, err := json.Marshal(d)
	if err != nil {
		c.Fail("json", "fields %v: %v", names, err)
		return
	}
	c.Art("json", j)
	e = xmp.NewDocument()
	back("model read from JSON", e, json.Unmarshal(j, e))
	// by paths into a new document
	l, err := d.ListPaths()
	if err != nil {
		c.Fail("paths", "fields %v: %v", names, err)
		return
	}
	e = xmp.NewDocument()
	for _, pv := range l {
		pv.Flags = xmp.CREATE | xmp.REPLACE
		if err := e.SetPath(pv); err != nil {
			c.Fail("path", "SetPath(%s, %q): %v", pv.Path, pv.Value, err)
			e.Close()
			return
		}
		if s, err := d.GetPath(pv.Path); err != nil || s != pv.Value {
			c.Fail("getpath", "%s is listed as %q and read as %q (%v)", pv.Path, pv.Value, s, err)
		}
	}
	back("model set by paths", e, nil)
}

// failModel has fields whose methods fail for "fail".
var errOwn = errors.New("own failure 4711")

func failOn(s string) error {
	if s == "fail" {
		return errOwn
	}
	return nil
}

type failText string

func (x failText) MarshalText() ([]byte, error)  { return []byte(x), failOn(string(x)) }
func (x *failText) UnmarshalText(b []byte) error { *x = failText(b); return failOn(string(b)) }

type failPtr struct{ S string }

func (x *failPtr) MarshalText() ([]byte, error) { return []byte(x.S), failOn(x.S) }
func (x *failPtr) UnmarshalText(b []byte) error { x.S = string(b); return failOn(x.S) }

type failXMP struct{ S string }

func (x failXMP) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	n.Value = x.S
	return failOn(x.S)
}
func (x *failXMP) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	x.S = n.Value
	return failOn(x.S)
}

type failAttr string

func (x failAttr) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
	return xmp.Attr{Name: name, Value: string(x)}, failOn(string(x))
}
func (x *failAttr) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
	*x = failAttr(a.Value)
	return failOn(a.Value)
}

type failPAttr struct{ S string }

func (x *failPAttr) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
	return xmp.Attr{Name: name, Value: x.S}, failOn(x.S)
}
func (x *failPAttr) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
	x.S = a.Value
	return failOn(a.Value)
}

type failArr []failText

func (x failArr) Typ() xmp.ArrayType { return xmp.ArrayTypeOrdered }
func (x failArr) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, n, x.Typ(), x)
}
func (x *failArr) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, n, x.Typ(), x)
}

type failSub struct {
	T failText  `xmp:"vff:st"`
	P failPtr   `xmp:"vff:sp"`
	A failText  `xmp:"vff:sa,attr"`
	B failAttr  `xmp:"vff:sb,attr"`
	N *failText `xmp:"vff:sn"`
	S string    `xmp:"vff:ss"`
}

type failModel struct {
	T  failText     `xmp:"vff:t"`
	PT *failText    `xmp:"vff:pt"`
	P  failPtr      `xmp:"vff:p"`
	PP *failPtr     `xmp:"vff:pp"`
	X  failXMP      `xmp:"vff:x"`
	PX *failXMP     `xmp:"vff:px"`
	AT failText     `xmp:"vff:at,attr"`
	AP failPtr      `xmp:"vff:ap,attr"`
	AA failAttr     `xmp:"vff:aa,attr"`
	AB *failPAttr   `xmp:"vff:ab,attr"`
	L  []failText   `xmp:"vff:l"`
	LP []*failPtr   `xmp:"vff:lp"`
	LX []failXMP    `xmp:"vff:lx"`
	F  *[2]failText `xmp:"vff:f"`
	Ar failArr      `xmp:"vff:ar"`
	S  failSub      `xmp:"vff:s"`
	LS []failSub    `xmp:"vff:ls"`
	PS *failSub     `xmp:"vff:ps"`
	Em string       `xmp:"vff:em,empty"`
	EI int          `xmp:"vff:ei,empty"`
	EA bool         `xmp:"vff:ea,attr,empty"`
	Om string       `xmp:"vff:om,omit"`
	OA int          `xmp:"vff:oa,attr,omit"`
	No string       `xmp:"-"`
}

var (
	nsFail   = xmp.NewNamespace("vff", "http://example.com/verif/fail/1.0/", func(string) xmp.Model { return &failModel{} })
	failOnce sync.Once
)

func (x *failModel) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{nsFail} }
func (x *failModel) Can(n string) bool                 { return n == "vff" }
func (x *failModel) SyncModel(d *xmp.Document) error   { return nil }
func (x *failModel) SyncFromXMP(d *xmp.Document) error { return nil }
func (x *failModel) SyncToXMP(d *xmp.Document) error   { return nil }
func (x *failModel) CanTag(tag string) bool            { return false }
func (x *failModel) GetTag(tag string) (string, error) { return "", nil }
func (x *failModel) SetTag(tag, value string) error    { return nil }

// places of a text in failModel: how it is set in Go, its property and path
type failPlace struct {
	set   func(m *failModel, s string)
	path  string // relative to the model
	onlyX bool   // not a text for paths
	onlyA bool   // reads attributes only
}

func q27(n string) qname { return qname{nsFail.GetURI(), n} }

var failPlaces = []failPlace{
	{func(m *failModel, s string) { m.T = failText(s) }, "t", false, false},
	{func(m *failModel, s string) { x := failText(s); m.PT = &x }, "pt", false, false},
	{func(m *failModel, s string) { m.P = failPtr{s} }, "p", false, false},
	{func(m *failModel, s string) { m.PP = &failPtr{s} }, "pp", false, false},
	{func(m *failModel, s string) { m.X = failXMP{s} }, "x", true, false},
	{func(m *failModel, s string) { m.PX = &failXMP{s} }, "px", true, false},
	{func(m *failModel, s string) { m.AT = failText(s) }, "at", false, false},
	{func(m *failModel, s string) { m.AP = failPtr{s} }, "ap", false, false},
	{func(m *failModel, s string) { m.AA = failAttr(s) }, "aa", true, true},
	{func(m *failModel, s string) { m.AB = &failPAttr{s} }, "ab", true, true},
	{func(m *failModel, s string) { m.L = []failText{"a", failText(s), "b"} }, "l[1]", false, false},
	{func(m *failModel, s string) { m.LP = []*failPtr{{"a"}, {s}} }, "lp[1]", false, false},
	{func(m *failModel, s string) { m.LX = []failXMP{{s}, {"a"}} }, "lx[0]", true, false},
	{func(m *failModel, s string) { m.F = &[2]failText{"a", failText(s)} }, "f[1]", false, false},
	{func(m *failModel, s string) { m.Ar = failArr{"a", "b", failText(s)} }, "ar[2]", false, false},
	{func(m *failModel, s string) { m.S.T = failText(s) }, "s/st", false, false},
	{func(m *failModel, s string) { m.S.A = failText(s) }, "s/sa", false, false},
	{func(m *failModel, s string) { m.S.B = failAttr(s) }, "s/sb", true, true},
	{func(m *failModel, s string) { x := failText(s); m.S.N = &x }, "s/sn", false, false},
	{func(m *failModel, s string) { m.LS = []failSub{{S: "a"}, {P: failPtr{s}, S: "b"}} }, "ls[1]/sp", false, false},
	{func(m *failModel, s string) { m.LS = []failSub{{A: failText(s)}} }, "ls[0]/sa", false, false},
	{func(m *failModel, s string) { m.PS = &failSub{T: failText(s), S: "x"} }, "ps/st", false, false},
}

func ownErrors(c *Case) {
	failOnce.Do(func() { xmp.Register(nsFail) })
	r := c.R
	pl := failPlaces[c.Idx%len(failPlaces)]
	m := &failModel{}
	pl.set(m, "fine")
	if r.Intn(2) == 0 {
		q := failPlaces[r.Intn(len(failPlaces))]
		if q.path[0] != pl.path[0] {
			q.set(m, genToken(r))
		}
	}
	m.Om, m.OA, m.No = "omitted", 5, "hidden"
	em := ""
	if r.Intn(2) == 0 {
		em = genToken(r)
		m.Em, m.EI, m.EA = em, 1+r.Intn(100), true
	}
	ei, ea := m.EI, m.EA
	c.Seen("errors", pl.path, em == "", r.Intn(20))
	c.Event("failing methods")
	d := xmp.NewDocument()
	defer d.Close()
	if _, err := d.AddModel(m); err != nil {
		c.Fail("add", "%v", err)
		return
	}
	good, err := xmp.Marshal(d)
	if err != nil {
		c.Fail("write", "%s: %v", pl.path, err)
		return
	}
	c.Art("packet.xmp", good)
	if n := strings.Count(string(good), ">fine<") + strings.Count(string(good), `"fine"`); n != 1 {
		c.Fail("written", "%s is written %d times", pl.path, n)
		return
	}
	p, err := readXMP(good)
	if err != nil {
		c.Fail("packet", "%v", err)
		return
	}
	// fields without value
	c.Eval(5)
	has := func(n string) string {
		x := p.props[q27(n)]
		if x == nil && strings.Contains(string(good), "vff:"+n) {
			return "" // the reader drops properties without value
		}
		if x == nil {
			return "<absent>"
		}
		return x.text
	}
	if has("em") != em || has("ei") != fmt.Sprint(ei) || has("ea") != fmt.Sprint(ea) {
		c.Fail("empty", "fields to be written empty (%q %d %v) are %q %q %q", em, ei, ea, has("em"), has("ei"), has("ea"))
	}
	if has("om") != "<absent>" || has("oa") != "<absent>" || strings.Contains(string(good), "hidden") {
		c.Fail("omit", "fields not to be written are %q %q", has("om"), has("oa"))
	}
	jgood, err := json.Marshal(d)
	if err != nil {
		c.Fail("json", "%s: %v", pl.path, err)
		return
	}
	c.Art("json", jgood)
	lgood, err := d.ListPaths()
	if err != nil {
		c.Fail("list", "%s: %v", pl.path, err)
		return
	}
	failed := func(what string, err error) {
		c.Eval(1)
		if err == nil {
			c.Fail("swallowed "+what, "%s: the error of a method of %s is not returned", what, pl.path)
		} else if !strings.Contains(err.Error(), errOwn.Error()) {
			c.Fail("other "+what, "%s: the error for %s is %v", what, pl.path, err)
		}
	}
	// reading
	for _, x := range []struct {
		what string
		f    func(e *xmp.Document) error
	}{
		{"xmp", func(e *xmp.Document) error {
			return xmp.Unmarshal([]byte(strings.NewReplacer(">fine<", ">fail<", `"fine"`, `"fail"`).Replace(string(good))), e)
		}},
		{"json", func(e *xmp.Document) error {
			return json.Unmarshal([]byte(strings.Replace(string(jgood), `"fine"`, `"fail"`, 1)), e)
		}},
	} {
		if pl.onlyA && x.what == "json" {
			continue
		}
		e := xmp.NewDocument()
		failed("reading "+x.what, x.f(e))
		e.Close()
	}
	// setting
	if !pl.onlyX {
		path := xmp.Path("vff:" + pl.path)
		s, err := d.GetPath(path)
		c.Eval(2)
		if err != nil || s != "fine" {
			c.Fail("get", "GetPath(%s) is %q (%v)", path, s, err)
			return
		}
		failed("setting", d.SetPath(xmp.PathValue{Path: path, Value: "fail", Flags: xmp.CREATE | xmp.REPLACE}))
		l, err := d.ListPaths()
		if err != nil || fmt.Sprint(l) != fmt.Sprint(lgood) {
			c.Fail("failed set", "after refusing %s the paths are %v (%v), were %v", path, l, err, lgood)
		}
		if err := d.SetPath(xmp.PathValue{Path: path, Value: "ok-1", Flags: xmp.CREATE | xmp.REPLACE}); err != nil {
			c.Fail("set", "%s: %v", path, err)
		} else if s, err := d.GetPath(path); err != nil || s != "ok-1" {
			c.Fail("set", "%s is %q (%v) after setting it", path, s, err)
		}
		if s := fmt.Sprint(m.Om, m.OA, m.No); s != "omitted5hidden" && s != "omitted 5 hidden" {
			c.Fail("other fields", "%s", s)
		}
	}
	// writing
	pl.set(m, "fail")
	_, err = xmp.Marshal(d)
	failed("writing xmp", err)
	_, err = json.Marshal(d)
	failed("writing json", err)
	if !pl.onlyX {
		_, err = d.ListPaths()
		failed("listing paths", err)
		_, err = d.GetPath(xmp.Path("vff:" + pl.path))
		failed("getting path", err)
	}
}

func init() {
	register(&Property{ID: "P27",
		Rule: "Go values of a user's model and the packet, JSON and paths are two forms of the same, and errors of its methods are returned",
		Scenarios: []Scenario{
			{"values", 6000, 90000, ownValues},
			{"errors", 2200, 22000, ownErrors},
			{"two namespaces", 4000, 60000, twins},
		}})
}
