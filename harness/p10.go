package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode"

	"github.com/trimmer-io/go-xmp/xmp"
)

// outcome of setting a path as the documentation of the flags defines it
type outcome int

const (
	same    outcome = iota // nothing changes, no complaint
	refused                // nothing changes, an error unless NOFAIL
	either                 // nothing changes, error or not
	changed                // the reference changes
)

func has(f, x xmp.SyncFlags) bool { return f&x != 0 }

// expect tells what SetPath(s, v, f) must do. The returned function applies it
// to the reference; nil with ok=false leaves the combination undefined.
func expect(s *site, v string, f xmp.SyncFlags) (o outcome, apply func(), ok bool) {
	if f == 0 {
		f = xmp.DEFAULT
	}
	set := func() { s.put(v) }
	// without a default the first alternative may become it
	alt := s.parent
	if s.kind == 'A' {
		alt = s.v
	}
	if (s.kind == 'l' || s.kind == 'A') && alt != nil && (len(alt.items) == 0 || alt.items[0].lang != "x-default") && (s.kind == 'A' || s.v == nil) {
		return 0, nil, false
	}
	// a language with the text of the default is the default
	if alt != nil && v != "" && (s.kind == 'A' || s.kind == 'l' && s.v != nil) {
		for _, x := range alt.items {
			if x.text == v {
				return 0, nil, false
			}
		}
	}
	// what the path reads as
	cur := ""
	if s.v != nil {
		cur = s.v.text
		if s.v.kind == 'a' {
			cur = ""
			if len(s.v.items) > 0 {
				if s.v.items[0].kind != 's' {
					return 0, nil, false
				}
				cur = s.v.items[0].text
			}
		}
	}
	if v == "" && !has(f, xmp.DELETE) {
		return refused, nil, true
	}
	if v == cur {
		if v == "" && s.v != nil {
			return 0, nil, false
		}
		return same, nil, true
	}
	if v == "" {
		// another language becomes the default
		if s.kind == 'l' && s.v != nil && s.v.lang == "x-default" && len(alt.items) > 1 {
			return 0, nil, false
		}
		if s.del == nil || s.last {
			return 0, nil, false
		}
		return changed, s.del, true
	}
	if s.v == nil || cur == "" {
		if s.v != nil {
			return 0, nil, false
		}
		if has(f, xmp.CREATE) {
			return changed, set, true
		}
		if !has(f, xmp.APPEND|xmp.UNIQUE) {
			return refused, nil, true
		}
		return 0, nil, false // list-only flags that may create
	}
	switch s.kind {
	case 's', 'l':
		// items that are only there because a later one is
		if strings.HasSuffix(s.path, "]") && strings.Trim(cur, "0,. ") == "" {
			return 0, nil, false
		}
		if has(f, xmp.REPLACE) {
			return changed, set, true
		}
		return refused, nil, true
	case 'A':
		switch {
		case has(f, xmp.APPEND|xmp.UNIQUE) && has(f, xmp.REPLACE):
			if s.v.items[0].lang != "x-default" {
				return 0, nil, false
			}
			return changed, func() { s.v.items[0].text = v }, true
		case has(f, xmp.APPEND|xmp.UNIQUE):
			return refused, nil, true
		case has(f, xmp.REPLACE):
			return changed, set, true
		}
		return refused, nil, true
	case 'a':
		in := false
		for _, x := range s.v.items {
			in = in || x.text == v
		}
		switch {
		case has(f, xmp.UNIQUE) && in:
			return either, nil, true
		case has(f, xmp.UNIQUE), has(f, xmp.APPEND):
			return changed, func() { s.v.items = append(s.v.items, newScalar(v)) }, true
		case has(f, xmp.REPLACE):
			return changed, set, true
		}
		return refused, nil, true
	}
	return 0, nil, false
}

// try performs one operation with any flags and compares.
func (w *world) try(c *Case, s *site, v string, f xmp.SyncFlags) bool {
	o, apply, ok := expect(s, v, f)
	if !ok {
		return true
	}
	state := "missing"
	if s.v != nil {
		state = "existing"
	}
	kind := map[byte]string{'s': "value", 'l': "language", 'A': "alternative", 'a': "array"}[s.kind]
	raw := "typed"
	if s.s == nil {
		raw = "raw"
	}
	val := "other"
	switch {
	case v == "":
		val = "empty"
	case s.v != nil && v == s.v.text:
		val = "equal"
	}
	oname := [...]string{"same", "refused", "either", "changed"}[o]
	c.Event(kind + " " + oname)
	c.Seen(raw, kind, state, val, flagString(f))
	what := fmt.Sprintf("SetPath(%s, %q, %s) on %s %s %s", s.path, v, flagString(f), state, raw, kind)
	dirty := w.doc.IsDirty()
	err := w.set(s.path, v, f)
	key := fmt.Sprintf("%s:%s:%s", kind, state, oname)
	switch {
	case err != nil && has(f, xmp.NOFAIL):
		c.Fail("nofail:"+key, "%s: error in spite of NOFAIL: %v", what, err)
	case err != nil && (o == changed || o == same):
		c.Fail("error:"+key, "%s: %v", what, err)
	case err == nil && o == refused && !has(f, xmp.NOFAIL):
		c.Fail("noerror:"+key, "%s: the flags do not allow it, but no error", what)
	case err != nil && !dirty && w.doc.IsDirty():
		c.Fail("dirty:"+key, "%s: failed, but the document counts as changed", what)
	case err == nil && o == changed && !w.doc.IsDirty():
		c.Fail("clean:"+key, "%s: the document does not count as changed", what)
	}
	if c.failed() {
		c.Art("history", strings.Join(w.log, "\n"))
		return false
	}
	if o == changed {
		apply()
	}
	return w.verify(c, what)
}

// nearText changes a text a little.
func nearText(r *rand.Rand, t string) string {
	l := []rune(t)
	switch r.Intn(5) {
	case 0:
		return strings.ToUpper(t)
	case 1:
		return strings.ToLower(t)
	case 2:
		if len(l) > 1 {
			l = l[:len(l)-1]
		}
		if s := strings.TrimSpace(string(l)); s != "" {
			return s
		}
		return t
	case 3:
		return t + "x"
	}
	i := r.Intn(len(l))
	switch {
	case unicode.IsUpper(l[i]):
		l[i] = unicode.ToLower(l[i])
	case unicode.IsLower(l[i]):
		l[i] = unicode.ToUpper(l[i])
	}
	return string(l)
}

// badValue is a text the type of the schema cannot take.
func badValue(s *Schema) string {
	if s == nil || s.Kind != "leaf" {
		return ""
	}
	switch s.Base {
	case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64":
		if s.Type == s.Base {
			return "twelve"
		}
	}
	if s.Type == "xmp.Date" {
		return "no date"
	}
	return ""
}

func init() {
	register(&Property{
		ID:   "P10",
		Rule: "SetPath with every combination of flags, at existing and missing values, array items, arrays, languages and alternatives, with new, equal, contained and empty text; the documented meaning of the flags decides whether the reference changes, errors are allowed or required; after every call the complete path list is compared; distinct by (typed or raw, kind, state, value, flags)",
		Scenarios: []Scenario{
			{"flags", 20000, 400000, func(c *Case) {
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 4})
				w := newWorld(c, d)
				if w == nil {
					return
				}
				for i, n := 0, 1+c.R.Intn(20); i < n; i++ {
					sites := d.allSites(c, 6)
					if len(sites) == 0 {
						return
					}
					s := sites[c.R.Intn(len(sites))]
					v := ""
					switch c.R.Intn(7) {
					case 0:
					case 2:
						// almost equal to a text which is there
						v = s.text(c)
						if s.v != nil && (s.s == nil || s.kind == 'a' && s.s.Elem != nil && s.s.Elem.Type == "string" || s.s.Type == "string") {
							t := s.v.text
							if s.v.kind == 'a' && len(s.v.items) > 0 {
								t = s.v.items[c.R.Intn(len(s.v.items))].text
							}
							if t != "" {
								v = nearText(c.R, t)
								c.Event("almost equal")
							}
						}
					case 1:
						if s.v != nil {
							v = s.v.text
							if s.v.kind == 'a' && len(s.v.items) > 0 {
								v = s.v.items[c.R.Intn(len(s.v.items))].text
							}
						}
					default:
						v = s.text(c)
					}
					if !w.try(c, s, v, xmp.SyncFlags(c.R.Intn(64))) {
						return
					}
				}
				w.finish(c)
			}},
			{"failures", 10000, 200000, func(c *Case) {
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 4})
				w := newWorld(c, d)
				if w == nil {
					return
				}
				for i, n := 0, 1+c.R.Intn(12); i < n; i++ {
					if c.R.Intn(2) == 0 {
						if !w.step(c) {
							return
						}
						continue
					}
					sites := d.allSites(c, 8)
					if len(sites) == 0 {
						return
					}
					s := sites[c.R.Intn(len(sites))]
					p, v := s.path, freshText(c)
					f := xmp.SyncFlags(c.R.Intn(32))
					how := ""
					switch c.R.Intn(8) {
					case 6, 7:
						var ps []string
						for q, v := range d.props {
							if ms := golden.byPfx[d.pfx[q.uri]]; ms == nil || ms.Props[d.pfx[q.uri]+":"+q.local] == nil {
								mixed(d, d.pfx[q.uri]+":"+q.local, v, d.pfx[q.uri], &ps)
							}
						}
						if len(ps) == 0 {
							continue
						}
						sort.Strings(ps)
						how, p = "text and fields", ps[c.R.Intn(len(ps))]
						f = xmp.CREATE | xmp.REPLACE
					case 0:
						how, p = "undeclared prefix", "nosuchprefix"+p[strings.Index(p, ":"):]
					case 1:
						how, p = "no path", strings.ReplaceAll(p, ":", ";")
					case 2:
						how, p = "negative index", strings.SplitN(p, "[", 2)[0]+"[-2]"
					case 3:
						how, p = "huge index", strings.SplitN(p, "[", 2)[0]+"[4000000000]"
						if s.kind == 's' && !strings.Contains(s.path, "[") || altishPath(s) {
							continue
						}
					case 4:
						if v = badValue(s.s); v == "" || s.kind != 's' && s.kind != 'a' {
							continue
						}
						how = "bad value"
						f |= xmp.CREATE | xmp.REPLACE
					default:
						// deep paths through new items
						if s.v != nil || strings.Count(p, "/") == 0 || badValue(s.s) == "" || s.kind != 's' && s.kind != 'a' {
							continue
						}
						how, v = "bad value in new structure", badValue(s.s)
						f |= xmp.CREATE
					}
					c.Event(how)
					c.Seen(how, p)
					what := fmt.Sprintf("SetPath(%s, %q, %s) with %s", p, v, flagString(f), how)
					if err := w.set(p, v, f); err == nil {
						c.Art("history", strings.Join(w.log, "\n"))
						c.Fail("noerror:"+how, "%s: no error", what)
						return
					}
					if !w.verify(c, what) {
						return
					}
				}
				w.finish(c)
			}},
		},
	})
}

// altishPath tells that the path names a language.
// mixed lists paths of an unregistered property that no text can be given
// without making one value text and fields or items at the same time.
func mixed(d *gdoc, path string, v *val, pfx string, out *[]string) {
	switch v.kind {
	case 's':
		if v.text == "" {
			return
		}
		*out = append(*out, path+"/new", path+"/"+pfx+":other", path+"/new/deep")
		if !strings.HasSuffix(path, "]") {
			*out = append(*out, path+"[0]", path+"[2]", path+"[en]")
		}
	case 'a':
		if strings.HasSuffix(path, "]") || v.typ == "Alt" {
			return // arrays in arrays have no paths
		}
		for i, x := range v.items {
			mixed(d, fmt.Sprintf("%s[%d]", path, i), x, pfx, out)
		}
	case 't':
		if len(v.fields) == 0 {
			return
		}
		*out = append(*out, path)
		if !strings.HasSuffix(path, "]") {
			*out = append(*out, path+"[0]", path+"[de]")
		}
		for k, x := range v.fields {
			mixed(d, pathSeg(path, pfx, k, d, false), x, pfx, out)
		}
	}
}

func altishPath(s *site) bool { return s.kind == 'l' || s.kind == 'A' }
