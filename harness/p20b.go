package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/xmp"
)

// plainLists: lists that are plain sequences: what is added is what they hold,
// in that order, and they share nothing with the lists they are made from.
func plainLists(c *Case) {
	r := c.R
	var in []int
	for i := r.Intn(5); i > 0; i-- {
		in = append(in, r.Intn(2000)-1000)
	}
	own := append([]int{}, in...)
	ia, il := xmp.NewIntArray(own...), xmp.NewIntList(own...)
	var alts []*xmp.AltString
	aa := xmp.NewAltStringArray()
	ra := xmp.NewRationalArray()
	var rats []xmp.Rational
	var sp ixml.SyncPointList
	var fs []ixml.SyncPointFunctionType
	share := xmp.NewIntArray(own...)
	for i := range own {
		own[i]++
	}
	for i, n := 0, r.Intn(8); i < n; i++ {
		v := r.Intn(100000) - 50000
		in = append(in, v)
		if e1, e2 := ia.Add(v), il.Add(v); e1 != nil || e2 != nil {
			c.Fail("add", "Add(%d): %v, %v", v, e1, e2)
			return
		}
		a := xmp.NewAltString(genToken(r))
		if r.Intn(4) == 0 {
			if err := aa.Add(nil); err != nil {
				c.Fail("add-nil", "AltStringArray.Add(nil): %v", err)
			}
		}
		aa.Add(&a)
		alts = append(alts, &a)
		q := xmp.Rational{Num: int64(v), Den: int64(1 + r.Intn(9))}
		rats = append(rats, q)
		f := ixml.SyncPointFunctionType(pick(r, "PRE_RECORD_SAMPLECOUNT", "SLATE_GENERIC", "MARKER_GENERIC", "SLATE_1", "CUSTOM"))
		fs = append(fs, f)
		sp = append(sp, ixml.SyncPoint{Function: f})
	}
	c.Eval(8)
	c.Seen(len(in), len(alts), strings.Join(strs(fs), ","))
	_ = share.Add(1)
	if fmt.Sprint([]int(ia)) != fmt.Sprint(in) || fmt.Sprint([]int(il)) != fmt.Sprint(in) {
		c.Fail("numbers", "after adding: %v and %v, want %v", ia, il, in)
	}
	s := make([]string, len(in))
	for i, v := range in {
		s[i] = strconv.Itoa(v)
	}
	if il.String() != strings.Join(s, " ") {
		c.Fail("string", "IntList.String is %q, want %q", il.String(), strings.Join(s, " "))
	}
	if ia.IsZero() != (len(in) == 0) || il.IsZero() != (len(in) == 0) || aa.IsZero() != (len(alts) == 0) {
		c.Fail("zero", "IsZero of %v, %v, %v: %v %v %v", ia, il, aa, ia.IsZero(), il.IsZero(), aa.IsZero())
	}
	if len(aa) != len(alts) {
		c.Fail("alts", "AltStringArray holds %d, want %d", len(aa), len(alts))
	}
	for i := range alts {
		if i < len(aa) && aa[i] != alts[i] {
			c.Fail("alts", "item %d of an AltStringArray is another one", i)
		}
	}
	src := append([]xmp.Rational{}, rats...)
	ra = xmp.NewRationalArray(src...)
	for i := range src {
		src[i].Num++
	}
	if len(ra) != len(rats) || len(rats) > 0 && !reflect.DeepEqual([]xmp.Rational(ra), rats) {
		c.Fail("rationals", "%v, want %v", ra, rats)
	}
	for _, f := range []string{"PRE_RECORD_SAMPLECOUNT", "SLATE_GENERIC", "MARKER_GENERIC", "SLATE_1", "CUSTOM"} {
		want := -1
		for i, v := range fs {
			if string(v) == f {
				want = i
				break
			}
		}
		i, ok := sp.ContainsFunc(ixml.SyncPointFunctionType(f))
		if i != want || ok != (want >= 0) {
			c.Fail("syncpoints", "ContainsFunc(%s) in %v: %d %v, want %d", f, fs, i, ok, want)
		}
	}
}
