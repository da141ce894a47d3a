package main

import (
	_ "embed"
	"encoding/json"
	"os"
	"reflect"
	"strings"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/mp4"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/xmp"
)

// nativeTag is one native tag of a model with the property that carries it.
type nativeTag struct {
	Tag  string `json:"tag"`
	Type string `json:"type"`
	Prop string `json:"prop,omitempty"`
	Ver  string `json:"ver,omitempty"`
	Text bool   `json:"text,omitempty"` // can be set from and read as text
	Bare bool   `json:"bare,omitempty"` // a string without text methods
	Ptr  bool   `json:"ptr,omitempty"`
}

//go:embed tags.json
var tagsJSON []byte

var nativeTags map[string][]nativeTag

type tagger interface {
	xmp.Model
	CanTag(string) bool
	GetTag(string) (string, error)
	SetTag(tag, value string) error
}

type tagLister interface {
	ListTags() (xmp.TagList, error)
}

// tagModels are the models with native tags; at is where the model's
// properties stand in the document.
var tagModels = []struct {
	name, ns, prefix, at string
	any                  bool // takes other tags than the declared ones into account
	make                 func() tagger
}{
	{"exif", "exif", "exif", "", false, func() tagger { return &exif.ExifInfo{} }},
	{"id3", "id3", "id3", "", true, func() tagger { return &id3.ID3{} }},
	{"itunes", "iTunes", "iTunes", "", true, func() tagger { return &itunes.ITunesMetadata{} }},
	{"mp4", "mp4", "mp4", "", false, func() tagger { return &mp4.MP4Info{} }},
	{"udta", "qt", "qt", "qt:udta", false, func() tagger { return &qt.QtUserdata{} }},
	{"mdta", "qt", "qt", "qt:mdta", true, func() tagger { return &qt.QtMetadata{} }},
	{"player", "qt", "qt", "qt:player", false, func() tagger { return &qt.QtPlayer{} }},
	{"proapps", "qt", "qt", "qt:proapps", false, func() tagger { return &qt.QtProApps{} }},
	{"riff", "riffinfo", "riffinfo", "", false, func() tagger { return &riff.RiffInfo{} }},
}

func init() {
	if err := json.Unmarshal(tagsJSON, &nativeTags); err != nil {
		panic(err)
	}
}

// dumpTags writes tags.json (developer tool, not run by checks).
func dumpTags() {
	out := map[string][]nativeTag{}
	for _, m := range tagModels {
		seen := map[string]bool{}
		var walk func(t reflect.Type)
		walk = func(t reflect.Type) {
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				ft := f.Type
				if ft.Kind() == reflect.Ptr {
					ft = ft.Elem()
				}
				if f.Anonymous && ft.Kind() == reflect.Struct {
					walk(ft)
					continue
				}
				tag := strings.Split(f.Tag.Get(m.ns), ",")[0]
				if tag == "" || tag == "-" || seen[tag] || ft == reflect.TypeOf(xmp.Document{}) {
					continue
				}
				seen[tag] = true
				n := nativeTag{Tag: tag, Type: ft.String(), Ptr: f.Type.Kind() == reflect.Ptr}
				parts := strings.Split(f.Tag.Get("xmp"), ",")
				if parts[0] != "-" {
					n.Prop = parts[0]
				}
				pt := reflect.PtrTo(ft)
				tu, tm := pt.Implements(tTextU), pt.Implements(tTextM)
				switch ft.Kind() {
				case reflect.String, reflect.Int, reflect.Int64, reflect.Float32, reflect.Float64, reflect.Bool:
					n.Text = tu == tm || ft.Kind() == reflect.String || tm
					n.Bare = !tu
				case reflect.Slice:
					n.Text = tu && tm || ft.Elem().Kind() == reflect.Uint8 && tu == tm
				default:
					n.Text = tu && tm
				}
				out[m.name] = append(out[m.name], n)
			}
		}
		walk(reflect.TypeOf(m.make()).Elem())
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile("tags.json", append(b, '\n'), 0644)
}
