package main

import (
	"encoding"
	"reflect"
	"sort"
	"strings"

	_ "github.com/trimmer-io/go-xmp/models"
	_ "github.com/trimmer-io/go-xmp/models/digikam"
	"github.com/trimmer-io/go-xmp/xmp"
)

// Schema is the property schema of one value, dumped once from the library's
// struct tags and committed as schema.json; at check time the committed file
// is what counts.
type Schema struct {
	Kind   string             `json:"kind"` // leaf alt array struct other
	Type   string             `json:"type,omitempty"`
	Base   string             `json:"base,omitempty"` // reflect kind of leaf
	Arr    string             `json:"arr,omitempty"`
	Elem   *Schema            `json:"elem,omitempty"`
	Fields map[string]*Schema `json:"fields,omitempty"`
	Attr   bool               `json:"attr,omitempty"`
	Omit   bool               `json:"omit,omitempty"`
	Empty  bool               `json:"empty,omitempty"`
	Ver    string             `json:"ver,omitempty"`
	Go     string             `json:"go,omitempty"`
	Vals   []string           `json:"vals,omitempty"`   // overrides the pool of Type
	Len    int                `json:"len,omitempty"`    // fixed array length
	All    bool               `json:"all,omitempty"`    // structure that only makes sense with all fields set
	Sample string             `json:"sample,omitempty"` // for fields of such a structure
	Bad    string             `json:"bad,omitempty"`    // why the property is left out of round trips
}

type ModelSchema struct {
	Prefix string             `json:"prefix"`
	URI    string             `json:"uri"`
	Type   string             `json:"type"`
	NS     map[string]string  `json:"ns"`
	Props  map[string]*Schema `json:"props"`
	// values the model writes whenever it exists, although they were never set
	Defaults map[string]string `json:"defaults,omitempty"`
}

var (
	tTextU = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
	tTextM = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	tXmpU  = reflect.TypeOf((*xmp.Unmarshaler)(nil)).Elem()
	tArr   = reflect.TypeOf((*xmp.Array)(nil)).Elem()
)

type override struct {
	leaf   string
	fields map[string][]string // sample, then the only values to use
}

var overrides = map[string]override{
	"base.Identifier": {leaf: "string"},
	"ps.Anchestor":    {leaf: "string"},
	"main.ownNode":    {leaf: "main.ownNode"},
	"exif.OECF": {fields: map[string][]string{"exif:Columns": {"2", "1", "2", "3"}, "exif:Rows": {"2", "1", "2", "4"},
		"exif:Names": {"a"}, "exif:Values": {"1/2"}}},
	"exif.CFAPattern":     {fields: map[string][]string{"exif:Columns": {"2", "1", "2", "3"}, "exif:Rows": {"2", "1", "2", "4"}, "exif:Values": {"1", "1", "2", "255"}}},
	"exif.DeviceSettings": {fields: map[string][]string{"exif:Columns": {"2", "1", "2", "3"}, "exif:Rows": {"2", "1", "2", "4"}, "exif:Settings": {"a"}}},
	"exif.Flash": {fields: map[string][]string{"exif:Fired": {"True"}, "exif:Function": {"False"}, "exif:RedEyeMode": {"False"},
		"exif:Mode": {"1", "1", "2", "3"}, "exif:Return": {"2", "0", "2", "3"}}},
	"xmpdm.Timecode": {fields: map[string][]string{"xmpDM:timeFormat": {"25Timecode", "24Timecode", "25Timecode", "2997DropTimecode", "2997NonDropTimecode", "30Timecode", "50Timecode", "5994DropTimecode", "5994NonDropTimecode", "60Timecode", "23976Timecode"},
		"xmpDM:timeValue": {"01:02:03:04", "01:02:03:04", "10:20:30:24", "23;59;59;29", "00:00:00:01", "00:00:00:00"}}},
}

func dumpType(t reflect.Type, depth int) *Schema {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	s := &Schema{Type: t.String()}
	if depth > 6 {
		s.Kind = "other"
		return s
	}
	pt := reflect.PtrTo(t)
	if o, ok := overrides[s.Type]; ok && o.leaf != "" {
		s.Kind, s.Type, s.Base = "leaf", o.leaf, o.leaf
		return s
	}
	if pt.Implements(tArr) {
		a := reflect.New(t).Interface().(xmp.Array)
		s.Arr = string(a.Typ())
		if t.Elem() == reflect.TypeOf(xmp.AltItem{}) {
			s.Kind = "alt"
			return s
		}
		if t == reflect.TypeOf(xmp.ExtensionArray{}) || t == reflect.TypeOf(xmp.NamedExtensionArray{}) {
			s.Kind = "other"
			return s
		}
		s.Kind = "array"
		if t.Kind() == reflect.Array {
			s.Len = t.Len()
		}
		if s.Type == "tiff.YCbCrSubSampling" {
			s.Len = 2
		}
		s.Elem = dumpType(t.Elem(), depth+1)
		return s
	}
	if pt.Implements(tTextU) && !pt.Implements(tXmpU) && (t.Kind() != reflect.Struct || pt.Implements(tTextM)) {
		s.Kind = "leaf"
		s.Base = t.Kind().String()
		return s
	}
	if t == reflect.TypeOf(xmp.TagList{}) || t == reflect.TypeOf(xmp.Extension{}) || t.Kind() == reflect.Map || t.Kind() == reflect.Interface {
		s.Kind = "other"
		return s
	}
	if t.Kind() == reflect.Slice && t.Elem().Kind() != reflect.Uint8 || t.Kind() == reflect.Array {
		s.Kind = "array"
		s.Arr = "Seq"
		if t.Kind() == reflect.Array {
			s.Arr = "Bag"
		}
		if t.Kind() == reflect.Array {
			s.Len = t.Len()
		}
		s.Elem = dumpType(t.Elem(), depth+1)
		return s
	}
	if t.Kind() == reflect.Struct {
		s.Kind = "struct"
		s.Fields = map[string]*Schema{}
		dumpFields(t, s.Fields, "", depth)
		if o, ok := overrides[s.Type]; ok {
			s.All = true
			for f, x := range o.fields {
				fs := s.Fields[f]
				if fs.Kind == "array" {
					fs = fs.Elem
				}
				fs.Sample, fs.Vals = x[0], x[1:]
			}
		}
		return s
	}
	s.Kind = "leaf"
	s.Base = t.Kind().String()
	if pt.Implements(tXmpU) {
		s.Base += "+xmp"
	}
	return s
}

func dumpFields(t reflect.Type, out map[string]*Schema, gopath string, depth int) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("xmp")
		if (f.PkgPath != "" && !f.Anonymous) || tag == "-" {
			continue
		}
		if f.Anonymous {
			ft := f.Type
			if ft.Kind() == reflect.Ptr {
				ft = ft.Elem()
			}
			if ft.Kind() == reflect.Struct {
				dumpFields(ft, out, gopath+f.Name+".", depth)
				continue
			}
		}
		parts := strings.Split(tag, ",")
		s := dumpType(f.Type, depth+1)
		s.Go = gopath + f.Name
		for _, p := range parts[1:] {
			switch {
			case p == "attr":
				s.Attr = true
			case p == "omit":
				s.Omit = true
			case p == "empty":
				s.Empty = true
			case p == "any" || p == "flat":
				s.Kind = "other"
			case strings.HasPrefix(p, "v") && len(p) > 1 && p[1] >= '0' && p[1] <= '9':
				s.Ver = p
			}
		}
		name := parts[0]
		if name == "" {
			name = f.Name
		}
		out[name] = s
	}
}

func dumpSchemas() []*ModelSchema {
	var out []*ModelSchema
	for _, ns := range xmp.NsRegistry.Namespaces() {
		m := ns.NewModel()
		if m == nil {
			continue
		}
		ms := &ModelSchema{Prefix: ns.GetName(), URI: ns.GetURI(), Type: reflect.TypeOf(m).String(), NS: map[string]string{}, Props: map[string]*Schema{}}
		for _, n := range m.Namespaces() {
			ms.NS[n.GetName()] = n.GetURI()
		}
		dumpFields(reflect.TypeOf(m).Elem(), ms.Props, "", 0)
		out = append(out, ms)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Prefix < out[j].Prefix })
	return out
}
