package main

import (
	"encoding/xml"
	"fmt"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// A model as a user of the library writes it, with every kind of field. The
// committed golden.json holds it like the models of the library, so that all
// generic scenarios use it.

// ownText has its text methods on the value.
type ownText struct{ A, B string }

func (x ownText) MarshalText() ([]byte, error) { return []byte(x.A + "#" + x.B), nil }
func (x *ownText) UnmarshalText(b []byte) error {
	if len(b) == 0 {
		*x = ownText{}
		return nil
	}
	i := strings.Index(string(b), "#")
	if i < 0 {
		return fmt.Errorf("no # in %q", b)
	}
	x.A, x.B = string(b[:i]), string(b[i+1:])
	return nil
}
func (x ownText) IsZero() bool { return x.A == "" && x.B == "" }

// ownHex has its text methods on the pointer.
type ownHex uint32

func (x *ownHex) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("0x%08X", uint32(*x))), nil }
func (x *ownHex) UnmarshalText(b []byte) error {
	s := string(b)
	if len(s) != 10 || !strings.HasPrefix(s, "0x") || strings.ToUpper(s[2:]) != s[2:] {
		return fmt.Errorf("bad hex %q", s)
	}
	n, err := strconv.ParseUint(s[2:], 16, 32)
	if err != nil {
		return err
	}
	*x = ownHex(n)
	return nil
}

// ownNode writes its node itself.
type ownNode struct{ L, R int }

func (x ownNode) IsZero() bool { return x.L == 0 && x.R == 0 }
func (x ownNode) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	n.Value = fmt.Sprintf("%d<>%d", x.L, x.R)
	return nil
}
func (x *ownNode) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	var s string
	if err := d.DecodeElement(&s, n); err != nil {
		return err
	}
	return x.UnmarshalText([]byte(s))
}
func (x ownNode) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d<>%d", x.L, x.R)), nil }
func (x *ownNode) UnmarshalText(b []byte) error {
	var y ownNode
	p := strings.Split(string(b), "<>")
	if len(p) != 2 {
		return fmt.Errorf("bad pair %q", b)
	}
	var err error
	if y.L, err = strconv.Atoi(p[0]); err != nil {
		return err
	}
	if y.R, err = strconv.Atoi(p[1]); err != nil {
		return err
	}
	*x = y
	return nil
}

// ownAttr writes its attribute itself.
type ownAttr string

func (x ownAttr) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
	return xmp.Attr{Name: name, Value: "~" + string(x)}, nil
}
func (x *ownAttr) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
	return x.UnmarshalText([]byte(a.Value))
}
func (x ownAttr) MarshalText() ([]byte, error) { return []byte("~" + string(x)), nil }
func (x *ownAttr) UnmarshalText(b []byte) error {
	if len(b) < 2 || b[0] != '~' {
		return fmt.Errorf("bad attribute %q", b)
	}
	*x = ownAttr(b[1:])
	return nil
}

// ownRank is an array type with methods.
type ownRank []int64

func (x ownRank) Typ() xmp.ArrayType { return xmp.ArrayTypeAlternative }
func (x ownRank) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, n, x.Typ(), x)
}
func (x *ownRank) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, n, x.Typ(), x)
}

// ownSubs is an array type of structures.
type ownSubs []ownSub

func (x ownSubs) Typ() xmp.ArrayType { return xmp.ArrayTypeUnordered }
func (x ownSubs) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, n, x.Typ(), x)
}
func (x *ownSubs) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, n, x.Typ(), x)
}

type ownSub struct {
	Name string         `xmp:"vfs:name"`
	Num  int16          `xmp:"vfs:num"`
	Key  string         `xmp:"vfs:key,attr"`
	On   bool           `xmp:"vfs:on,attr"`
	Rat  float64        `xmp:"vfs:rat"`
	Txt  ownText        `xmp:"vfs:txt"`
	Hex  ownHex         `xmp:"vfs:hex,attr"`
	Ptr  *int           `xmp:"vfs:ptr"`
	List xmp.StringList `xmp:"vfs:list"`
	Nums []int          `xmp:"vfs:nums"`
	Alt  xmp.AltString  `xmp:"vfs:alt"`
	In   ownLeaf        `xmp:"vfs:in"`
	InP  *ownLeaf       `xmp:"vfs:inp"`
}

func (x ownSub) IsZero() bool {
	return x.Name == "" && x.Num == 0 && x.Key == "" && !x.On && x.Rat == 0 && x.Txt.IsZero() && x.Hex == 0 && x.Ptr == nil &&
		len(x.List) == 0 && len(x.Nums) == 0 && len(x.Alt) == 0 && x.In.IsZero() && x.InP == nil
}

type ownLeaf struct {
	X    int      `xmp:"vfs:x,attr"`
	Y    string   `xmp:"vfs:y"`
	Z    xmp.Date `xmp:"vfs:z"`
	Deep *ownDeep `xmp:"vfs:deep"`
}

func (x ownLeaf) IsZero() bool { return x.X == 0 && x.Y == "" && x.Z.IsZero() && x.Deep == nil }

type ownDeep struct {
	V  string    `xmp:"vfs:v"`
	Fs []float32 `xmp:"vfs:fs"`
}

type ownBase struct {
	Base  string `xmp:"vfa:base"`
	BaseA uint16 `xmp:"vfa:basea,attr"`
}

type OwnPBase struct {
	PBase xmp.StringArray `xmp:"vfa:pbase"`
	Extra string          `xmp:"vfa:extra"`
}

type fullModel struct {
	ownBase
	I    int          `xmp:"vfa:i"`
	I8   int8         `xmp:"vfa:i8"`
	I16  int16        `xmp:"vfa:i16"`
	I32  int32        `xmp:"vfa:i32"`
	I64  int64        `xmp:"vfa:i64"`
	U    uint         `xmp:"vfa:u"`
	U8   uint8        `xmp:"vfa:u8"`
	U16  uint16       `xmp:"vfa:u16"`
	U32  uint32       `xmp:"vfa:u32"`
	U64  uint64       `xmp:"vfa:u64"`
	F32  float32      `xmp:"vfa:f32"`
	F64  float64      `xmp:"vfa:f64"`
	B    bool         `xmp:"vfa:b"`
	S    string       `xmp:"vfa:s"`
	Raw  []byte       `xmp:"vfa:raw"`
	PI   *int         `xmp:"vfa:pi"`
	PS   *string      `xmp:"vfa:ps"`
	PB   *bool        `xmp:"vfa:pb"`
	PF   *float64     `xmp:"vfa:pf"`
	AI   int64        `xmp:"vfa:ai,attr"`
	AU   uint8        `xmp:"vfa:au,attr"`
	AF   float32      `xmp:"vfa:af,attr"`
	AB   bool         `xmp:"vfa:ab,attr"`
	AS   string       `xmp:"vfa:as,attr"`
	ARaw []byte       `xmp:"vfa:araw,attr"`
	API  *int32       `xmp:"vfa:api,attr"`
	APS  *string      `xmp:"vfa:aps,attr"`
	ATxt ownText      `xmp:"vfa:atxt,attr"`
	APTx *ownText     `xmp:"vfa:aptx,attr"`
	AHex ownHex       `xmp:"vfa:ahex,attr"`
	APHx *ownHex      `xmp:"vfa:aphx,attr"`
	AOwn ownAttr      `xmp:"vfa:aown,attr"`
	APOw *ownAttr     `xmp:"vfa:apow,attr"`
	Txt  ownText      `xmp:"vfa:txt"`
	PTxt *ownText     `xmp:"vfa:ptxt"`
	Hex  ownHex       `xmp:"vfa:hex"`
	PHex *ownHex      `xmp:"vfa:phex"`
	Own  ownNode      `xmp:"vfa:own"`
	POwn *ownNode     `xmp:"vfa:pown"`
	Date xmp.Date     `xmp:"vfa:date"`
	PDat *xmp.Date    `xmp:"vfa:pdat"`
	Bool xmp.Bool     `xmp:"vfa:bool"`
	Uri  xmp.Uri      `xmp:"vfa:uri"`
	Rat  xmp.Rational `xmp:"vfa:rat"`
	Guid xmp.GUID     `xmp:"vfa:guid"`

	Ss   []string        `xmp:"vfa:ss"`
	Is   []int           `xmp:"vfa:is"`
	Us   []uint16        `xmp:"vfa:us"`
	Fs   []float64       `xmp:"vfa:fs"`
	Bs   []bool          `xmp:"vfa:bs"`
	Ts   []ownText       `xmp:"vfa:ts"`
	PTs  []*ownText      `xmp:"vfa:pts"`
	Hs   []ownHex        `xmp:"vfa:hs"`
	Ns   []ownNode       `xmp:"vfa:ns"`
	Ds   []xmp.Date      `xmp:"vfa:ds"`
	Subs []ownSub        `xmp:"vfa:subs"`
	PSub []*ownSub       `xmp:"vfa:psubs"`
	Fix  *[3]int         `xmp:"vfa:fix"`
	FixS *[2]string      `xmp:"vfa:fixs"`
	FixT *[2]ownText     `xmp:"vfa:fixt"`
	FixB *[2]ownSub      `xmp:"vfa:fixb"`
	Rank ownRank         `xmp:"vfa:rank"`
	Bag  ownSubs         `xmp:"vfa:bag"`
	SL   xmp.StringList  `xmp:"vfa:sl"`
	SA   xmp.StringArray `xmp:"vfa:sa"`
	IL   xmp.IntList     `xmp:"vfa:il"`
	DL   xmp.DateList    `xmp:"vfa:dl"`
	UL   xmp.UriList     `xmp:"vfa:ul"`
	GL   xmp.GUIDList    `xmp:"vfa:gl"`
	Alt  xmp.AltString   `xmp:"vfa:alt"`
	One  ownSub          `xmp:"vfa:one"`
	POne *ownSub         `xmp:"vfa:pone"`
	Hold ownLeaf         `xmp:"vfa:hold"`
	*OwnPBase
}

var (
	nsOwn  = xmp.NewNamespace("vfa", "http://example.com/verif/own/1.0/", func(string) xmp.Model { return &fullModel{} })
	nsOwnS = xmp.NewNamespace("vfs", "http://example.com/verif/own/struct#", nil)
)

func init() {
	xmp.Register(nsOwn)
	xmp.Register(nsOwnS)
}

func (x *fullModel) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{nsOwn, nsOwnS} }
func (x *fullModel) Can(n string) bool                 { return n == "vfa" }
func (x *fullModel) SyncModel(d *xmp.Document) error   { return nil }
func (x *fullModel) SyncFromXMP(d *xmp.Document) error { return nil }
func (x *fullModel) SyncToXMP(d *xmp.Document) error   { return nil }
func (x *fullModel) CanTag(tag string) bool            { return false }
func (x *fullModel) GetTag(tag string) (string, error) { return "", nil }
func (x *fullModel) SetTag(tag, value string) error    { return nil }
