package main

import (
	"fmt"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

type arrayProp struct {
	model, name string
	s           *Schema
}

// arrayProps are all properties that hold a list of simple values.
var arrayProps = func() []arrayProp {
	var l []arrayProp
	for _, m := range sortedKeys(golden.byPfx) {
		for _, n := range sortedKeys(golden.byPfx[m].Props) {
			s := golden.byPfx[m].Props[n]
			if s.Kind == "array" && s.Elem != nil && s.Elem.Kind == "leaf" && !s.Omit && s.Ver == "" && s.Len == 0 && usable(s) && !hasDefault(golden.byPfx[m], golden.q(n)) {
				l = append(l, arrayProp{m, n, s})
			}
		}
	}
	return l
}()

// holes sets items behind the end of a list, which leaves empty ones before them.
func holes(c *Case) {
	r := c.R
	var p arrayProp
	unknown := r.Intn(8) == 0
	if unknown {
		p = arrayProp{"dc", "acme:list", nil}
	} else {
		p = arrayProps[c.Idx%len(arrayProps)]
	}
	d := genDoc(r, genOpt{models: []string{p.model}, unknown: unknown, maxProps: 4})
	if unknown {
		d.props[qname{unkPool[0].uri, "other"}] = &val{kind: 's', text: "x"}
		d.pfx[unkPool[0].uri] = "acme"
		delete(d.props, qname{unkPool[0].uri, "list"})
	} else {
		delete(d.props, golden.q(p.name))
	}
	for _, v := range d.props {
		uniqAlts(c, v)
	}
	b := writeXMP(d, canonStyle, nil)
	c.Art("input", b)
	doc, err := decodeXML(b)
	if err != nil {
		c.Fail("decode", "%v", err)
		return
	}
	defer func() { doc.Close() }()
	list := func() map[string]string {
		l, err := doc.ListPaths()
		if err != nil {
			c.Fail("list "+p.name, "%v", err)
			return nil
		}
		m := map[string]string{}
		for _, v := range l {
			m[v.Path.String()] = v.Value
		}
		return m
	}
	base := list()
	text := func() string {
		if p.s == nil {
			return freshText(c)
		}
		return textFor(p.s.Elem)(c)
	}
	want := map[string]string{}
	max := -1
	now := func() []string {
		var l []string
		for i := 0; i <= max; i++ {
			v, _ := doc.GetPath(xmp.Path(fmt.Sprintf("%s[%d]", p.name, i)))
			l = append(l, v)
		}
		return l
	}
	verify := func(what string) bool {
		now := list()
		if c.failed() {
			return false
		}
		for k, v := range now {
			if strings.HasPrefix(k, p.name+"[") && want[k] == "" {
				i := 0
				fmt.Sscanf(k[len(p.name):], "[%d]", &i)
				if i > max {
					c.Fail("holes "+p.name, "%s: %s = %q appeared", what, k, v)
					return false
				}
				delete(now, k) // the text of an empty item
			}
		}
		w := map[string]string{}
		for k, v := range base {
			w[k] = v
		}
		for k := range now {
			// other properties may appear: defaults, and copies in other models
			if _, ok := base[k]; !ok && !strings.HasPrefix(k, p.name+"[") {
				delete(now, k)
			}
		}
		for k, v := range want {
			w[k] = v
		}
		c.Eval(len(w))
		if diff := diffMaps(w, now); len(diff) > 0 {
			c.Fail("holes "+p.name, "%s: %s", what, head(diff, 4))
			return false
		}
		return true
	}
	log := ""
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		k := max + 1 + r.Intn(4)
		if r.Intn(3) == 0 && max > 0 {
			k = r.Intn(max + 1)
		}
		t := text()
		path := fmt.Sprintf("%s[%d]", p.name, k)
		f := xmp.CREATE | xmp.REPLACE
		if r.Intn(4) == 0 && max >= 0 {
			path, k, f = p.name, max+1, oneOf(c, xmp.UNIQUE|xmp.CREATE, xmp.APPEND|xmp.CREATE)
			dup := false
			for _, v := range now() {
				dup = dup || v == t // UNIQUE drops it, as does any change to the same text
			}
			if dup {
				continue
			}
		}
		log += fmt.Sprintf(" %s=%q(%s)", path, t, flagString(f))
		c.Event("items set")
		if k > max+1 {
			c.Event("empty items before")
		}
		if err := doc.SetPath(xmp.PathValue{Path: xmp.Path(path), Value: t, Flags: f}); err != nil {
			c.Fail("set "+p.name, "%s: %v", log, err)
			return
		}
		if k > max {
			max = k
		}
		want[fmt.Sprintf("%s[%d]", p.name, k)] = t
		if !verify(log) {
			return
		}
		if s, err := doc.GetPath(xmp.Path(fmt.Sprintf("%s[%d]", p.name, k))); err != nil || s != t {
			c.Fail("get "+p.name, "%s: got %q, %v", log, s, err)
			return
		}
		c.Seen(p.name, fmt.Sprint(k, max, i))
		if r.Intn(2) == 0 && !syncModels[p.model] {
			out, err := xmp.Marshal(doc)
			if err != nil {
				c.Fail("write "+p.name, "%s: %v", log, err)
				return
			}
			c.Art("output", out)
			e, err := decodeXML(out)
			if err != nil {
				c.Fail("reread "+p.name, "%s: %v", log, err)
				return
			}
			doc.Close()
			doc = e
			log += " reread"
			c.Event("written and read")
			if !verify(log) {
				return
			}
		}
	}
}
