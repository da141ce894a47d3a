package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// decodeXML loads a packet; the document must be closed by the caller.
func decodeXML(b []byte) (*xmp.Document, error) {
	d := xmp.NewDocument()
	if err := xmp.Unmarshal(b, d); err != nil {
		return nil, err
	}
	return d, nil
}

// docFlat writes d and reads the result with the independent reader.
func docFlat(d *xmp.Document) (map[string]string, []byte, error) {
	out, err := xmp.Marshal(d)
	if err != nil {
		return nil, nil, err
	}
	x, err := readXMP(out)
	if err != nil {
		return nil, out, fmt.Errorf("written document is not a valid XMP packet: %v", err)
	}
	return x.flat(), out, nil
}

func listPaths(d *xmp.Document) ([]string, error) {
	l, err := d.ListPaths()
	if err != nil {
		return nil, err
	}
	var out []string
	for _, v := range l {
		out = append(out, string(v.Path)+" = "+v.Value)
	}
	return out, nil
}

func strDiff(a, b []string) []string {
	in := func(l []string) map[string]int {
		m := map[string]int{}
		for _, s := range l {
			m[s]++
		}
		return m
	}
	ma, mb := in(a), in(b)
	var out []string
	for s, n := range ma {
		if mb[s] != n {
			out = append(out, fmt.Sprintf("- %s (x%d, then x%d)", s, n, mb[s]))
		}
	}
	for s, n := range mb {
		if ma[s] == 0 {
			out = append(out, fmt.Sprintf("+ %s (x%d)", s, n))
		}
	}
	sort.Strings(out)
	return out
}

func head(l []string, n int) string {
	if len(l) > n {
		l = append(append([]string{}, l[:n]...), fmt.Sprintf("... %d more", len(l)-n))
	}
	return strings.Join(l, "\n  ")
}

// diffKey names a difference by the property it concerns.
func diffKey(kind string, l []string) string {
	if len(l) == 0 {
		return kind
	}
	s := l[0]
	for _, cut := range []string{": lost, was", ": was ", ": appeared as"} {
		if i := strings.Index(s, cut); i > 0 {
			s = s[:i]
		}
	}
	if len(s) > 120 {
		s = s[:120]
	}
	return kind + ":" + strings.ReplaceAll(s, " ", "_")
}

// corpus lists the sample packets shipped with the repository.
var corpus = func() []string {
	l, _ := filepath.Glob("/repo/samples/*.xmp")
	sort.Strings(l)
	return l
}()

func corpusFile(i int) (string, []byte) {
	if len(corpus) == 0 {
		return "", nil
	}
	f := corpus[i%len(corpus)]
	b, err := os.ReadFile(f)
	if err != nil {
		return "", nil
	}
	return filepath.Base(f), b
}

// shape summarises which kinds of values a document holds.
func (v *val) shape() string {
	switch v.kind {
	case 's':
		return "s"
	case 'a':
		m := map[string]bool{}
		for _, x := range v.items {
			m[x.shape()] = true
		}
		return v.typ + "[" + strings.Join(sortedKeys(m), "") + "]"
	}
	m := map[string]bool{}
	for _, x := range v.fields {
		m[x.shape()] = true
	}
	return "{" + strings.Join(sortedKeys(m), "") + "}"
}

func (d *gdoc) shapes() string {
	m := map[string]bool{}
	for q, v := range d.props {
		p := d.pfx[q.uri]
		m[p+":"+q.local+v.shape()] = true
	}
	return strings.Join(sortedKeys(m), " ")
}

// jsonFlat reads the JSON form of a document on its own: property name
// (prefix:local) to a canonical value without array kinds.
func jsonFlat(b []byte) (map[string]string, map[string]any, error) {
	var top map[string]any
	if err := json.Unmarshal(b, &top); err != nil {
		return nil, nil, err
	}
	models, ok := top["models"].(map[string]any)
	if !ok && top["models"] != nil {
		return nil, nil, fmt.Errorf("models is not an object")
	}
	out := map[string]string{}
	for _, m := range models {
		mm, ok := m.(map[string]any)
		if !ok {
			return nil, nil, fmt.Errorf("a model is not an object")
		}
		for k, v := range mm {
			if s := jsonCanon(v); s != "" {
				if _, dup := out[k]; dup {
					return nil, nil, fmt.Errorf("property %s occurs in two models", k)
				}
				out[k] = s
			}
		}
	}
	return out, top, nil
}

func jsonCanon(v any) string {
	switch v := v.(type) {
	case nil:
		return ""
	case string:
		if v == "" {
			return ""
		}
		return fmt.Sprintf("%q", v)
	case []any:
		var items []string
		alt := len(v) > 0
		for _, x := range v {
			m, ok := x.(map[string]any)
			if !ok || len(m) != 3 || m["lang"] == nil || m["value"] == nil || m["isDefault"] == nil {
				alt = false
			}
		}
		lang := false
		for _, x := range v {
			if alt && x.(map[string]any)["lang"] != "" {
				lang = true
			}
		}
		for _, x := range v {
			if alt {
				m := x.(map[string]any)
				if !lang && m["isDefault"] == false {
					// alternatives without languages are a list
					items = append(items, jsonCanon(m["value"]))
					continue
				}
				items = append(items, fmt.Sprintf("@%v %q", m["lang"], m["value"]))
			} else if s := jsonCanon(x); s != "" {
				items = append(items, s)
			}
		}
		if alt && lang {
			sort.Strings(items)
		}
		if len(items) == 0 {
			return ""
		}
		return "[" + strings.Join(items, ", ") + "]"
	case map[string]any:
		var f []string
		for k, x := range v {
			if s := jsonCanon(x); s != "" {
				f = append(f, k+"="+s)
			}
		}
		if len(f) == 0 {
			return ""
		}
		sort.Strings(f)
		return "{" + strings.Join(f, ", ") + "}"
	}
	return fmt.Sprint(v)
}

// jsonExpect renders v the way jsonFlat sees it.
func (d *gdoc) jsonExpect(v *val) string {
	switch v.kind {
	case 's':
		if v.text == "" {
			return ""
		}
		return fmt.Sprintf("%q", v.text)
	case 'a':
		var items []string
		alt := v.typ == "Alt" && len(v.items) > 0 && v.items[0].lang != ""
		for _, x := range v.items {
			if alt {
				items = append(items, fmt.Sprintf("@%s %q", x.lang, x.text))
			} else if s := d.jsonExpect(x); s != "" {
				items = append(items, s)
			}
		}
		if alt {
			sort.Strings(items)
		}
		return "[" + strings.Join(items, ", ") + "]"
	}
	var f []string
	for k, x := range v.fields {
		if s := d.jsonExpect(x); s != "" {
			n := k.local
			if k.uri != "" {
				n = d.pfx[k.uri] + ":" + n
			}
			f = append(f, n+"="+s)
		}
	}
	sort.Strings(f)
	return "{" + strings.Join(f, ", ") + "}"
}
