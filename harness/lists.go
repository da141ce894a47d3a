package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/id3"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	"github.com/trimmer-io/go-xmp/xmp"
)

// listModel has fields of the exported collection and structure types that no
// model of the repository uses itself.
type listModel struct {
	Ints  xmp.IntArray            `xmp:"vfl:ints"`
	Rats  xmp.RationalArray       `xmp:"vfl:rats"`
	Alts  xmp.AltStringArray      `xmp:"vfl:alts"`
	Area  xmpbase.Area            `xmp:"vfl:area"`
	PArea *xmpbase.Area           `xmp:"vfl:parea"`
	Com   id3.CommentArray        `xmp:"vfl:com"`
	Vol   id3.VolumeAdjustArray   `xmp:"vfl:vol"`
	Eq    id3.EqualizationList    `xmp:"vfl:eq"`
	Tags  xmp.TagList             `xmp:"vfl:tags"`
	Lang  dc.LocaleArray          `xmp:"vfl:lang"`
	Ids   xmpbase.IdentifierArray `xmp:"vfl:ids"`
	Part  xmpdm.PartList          `xmp:"vfl:part"`
}

var nsLists = xmp.NewNamespace("vfl", "http://example.com/verif/lists/1.0/", func(string) xmp.Model { return &listModel{} })

func init() { xmp.Register(nsLists) }

func (x *listModel) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{nsLists} }
func (x *listModel) Can(n string) bool                 { return n == "vfl" }
func (x *listModel) SyncModel(d *xmp.Document) error   { return nil }
func (x *listModel) SyncFromXMP(d *xmp.Document) error { return nil }
func (x *listModel) SyncToXMP(d *xmp.Document) error   { return nil }
func (x *listModel) CanTag(tag string) bool            { return false }
func (x *listModel) GetTag(tag string) (string, error) { return "", nil }
func (x *listModel) SetTag(tag, value string) error    { return nil }

// listRoundTrip: what a model holds in the exported list types is what a
// reader of the packet, indented or not, gets back.
func listRoundTrip(c *Case) { listForms(c, "Marshal", "MarshalIndent") }

func listJSON(c *Case) { listForms(c, "JSON") }

func listForms(c *Case, forms ...string) {
	r := c.R
	n := func() int { return r.Intn(4) }
	f32 := func() float32 { return float32(r.Intn(4000)-2000) / 16 }
	area := func() xmpbase.Area {
		return xmpbase.Area{X: float64(r.Intn(9)) / 8, Y: float64(r.Intn(3)), W: float64(f32()), H: float64(r.Intn(2)), D: float64(r.Intn(2)) / 4, Unit: xmpbase.AreaUnit(pick(r, "", "pixel", "normalized"))}
	}
	m := &listModel{}
	for i := n(); i > 0; i-- {
		m.Ints = append(m.Ints, r.Intn(2000)-1000)
	}
	for i := n(); i > 0; i-- {
		m.Rats = append(m.Rats, xmp.Rational{Num: int64(r.Intn(200) - 100), Den: int64(1 + r.Intn(50))})
	}
	for i := n(); i > 0; i-- {
		a := xmp.NewAltString(genToken(r))
		for _, l := range []string{"en", "de", "pt-BR"} {
			if r.Intn(2) == 0 {
				a.AddUnique(l, genToken(r))
			}
		}
		m.Alts = append(m.Alts, &a)
	}
	if r.Intn(2) == 0 {
		m.Area = area()
	}
	if r.Intn(2) == 0 {
		if a := area(); !a.IsZero() {
			m.PArea = &a
		}
	}
	for i := n(); i > 0; i-- {
		m.Com = append(m.Com, id3.Comment{Lang: pick(r, "eng", "deu", ""), Type: pick(r, "", genToken(r)), Text: genToken(r)})
	}
	for i := n(); i > 0; i-- {
		m.Vol = append(m.Vol, id3.VolumeAdjust{Channel: id3.ChannelType(1 + r.Intn(8)), Adjustment: f32(), Bits: byte(r.Intn(256)), PeakVolume: f32()})
	}
	for i := n(); i > 0; i-- {
		e := id3.Equalization{Method: id3.EqualizationMethod(r.Intn(2)), Identification: genToken(r)}
		for k := r.Intn(3); k > 0; k-- {
			e.Adjustments = append(e.Adjustments, id3.AdjustmentPoint{Frequency: 1 + r.Intn(20000), Adjustment: f32()})
		}
		m.Eq = append(m.Eq, e)
	}
	for i, k := 0, n(); i < k; i++ {
		m.Tags = append(m.Tags, xmp.Tag{Key: fmt.Sprintf("%s%d", pick(r, "TXXX", "T", "Key_"), i), Lang: pick(r, "", "", "en", "pt-BR"), Value: pick(r, genToken(r), "a b", "<&>")})
	}
	for i := n(); i > 0; i-- {
		m.Lang = append(m.Lang, pick(r, "en", "de-AT", "x-klingon"))
	}
	for i := n(); i > 0; i-- {
		m.Ids = append(m.Ids, xmpbase.Identifier{ID: genToken(r), Scheme: pick(r, "", "", "isbn", "urn")})
	}
	for i := n(); i > 0; i-- {
		m.Part.Add("/" + pick(r, "content/"+genToken(r), "metadata", "content/audio"))
	}
	show := func(x *listModel, asJSON bool) (l []string) {
		if asJSON {
			// an object has no order, and arrays of arrays are not supported
			sort.Slice(x.Tags, func(i, j int) bool { return x.Tags[i].Key < x.Tags[j].Key })
			x.Alts = nil
		}
		v := reflect.ValueOf(x).Elem()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.Slice && f.Len() == 0 {
				l = append(l, v.Type().Field(i).Name+"=")
				continue
			}
			b, err := json.Marshal(f.Interface())
			l = append(l, fmt.Sprintf("%s=%s %v", v.Type().Field(i).Name, b, err))
		}
		return
	}
	want := show(m, false)
	c.Seen(strings.Join(want, ";"))
	doc := xmp.NewDocument()
	if _, err := doc.AddModel(m); err != nil {
		c.Fail("add", "AddModel: %v", err)
		return
	}
	for _, how := range forms {
		b, err := xmp.Marshal(doc)
		if how == "MarshalIndent" {
			b, err = xmp.MarshalIndent(doc, pick(r, "", " "), pick(r, " ", "\t", "    "))
		}
		if how == "JSON" {
			want = show(m, true)
			b, err = json.Marshal(doc)
		}
		if err != nil {
			c.Fail("write", "%s: %v", how, err)
			return
		}
		c.Art("packet", b)
		back := xmp.NewDocument()
		if how == "JSON" {
			err = json.Unmarshal(b, back)
		} else {
			err = xmp.Unmarshal(b, back)
		}
		if err != nil {
			c.Fail("read", "Unmarshal after %s: %v", how, err)
			return
		}
		g, _ := back.FindModel(nsLists).(*listModel)
		if g == nil {
			g = &listModel{}
		}
		c.Eval(len(want))
		for k, s := range show(g, how == "JSON") {
			if s != want[k] {
				c.Fail("list:"+strings.SplitN(s, "=", 2)[0], "after %s and Unmarshal: %s, want %s", how, s, want[k])
			}
		}
		back.Close()
	}
	c.Event("list models read back")
}
