package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

const magicID = "W5M0MpCehiHzreSzNTczkc9d"

// badReader fails after its data with an error of its own.
type badReader struct {
	r   io.Reader
	err error
}

func (b *badReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = b.err
	}
	return n, err
}

// junk never contains a packet start that carries the magic id
func genJunk(r *rand.Rand) []byte {
	var b []byte
	for i, n := 0, r.Intn(5); i < n; i++ {
		switch r.Intn(10) {
		case 0:
			x := make([]byte, r.Intn(5000))
			r.Read(x)
			b = append(b, x...)
		case 1:
			b = append(b, bytes.Repeat([]byte{byte(r.Intn(256))}, r.Intn(9000))...)
		case 2:
			b = append(b, magicID...)
			b = append(b, "................................................................"...)
		case 3:
			b = append(b, "<?xpacket end=\"w\"?>"...)
		case 4:
			p := "<?xpacket begin"
			b = append(b, p[:1+r.Intn(len(p)-1)]...)
			b = append(b, '.')
		case 5:
			b = append(b, "<?xpacket begin=\"\" id=\"no magic here, sorry, really none at all\"?>..."...)
		case 6:
			p := "<?xpacket end=\"w\"?>"
			b = append(b, p[:r.Intn(len(p))]...)
		case 7:
			b = append(b, "<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"></x:xmpmeta>"...)
		case 8:
			// start marker whose magic comes too late to belong to it
			b = append(b, "<?xpacket begin"+strings.Repeat(" ", 60)+magicID+strings.Repeat("-", 60)...)
		case 9:
			b = append(b, genText(r)...)
		}
	}
	// only what follows a cut marker could make a packet out of it
	return bytes.ReplaceAll(b, []byte("<?xpacket begin=\"\" id=\""+magicID), nil)
}

func genPacket(r *rand.Rand) []byte {
	var b bytes.Buffer
	begin := []string{"\uFEFF", "", "\xff\xfe"}[r.Intn(3)]
	q := []string{`"`, `'`}[r.Intn(2)]
	switch r.Intn(4) {
	case 0: // with the older bytes and encoding attributes behind the id
		fmt.Fprintf(&b, "<?xpacket begin=%s%s%s id=%s%s%s bytes=%s1234%s?>", q, begin, q, q, magicID, q, q, q)
	default:
		fmt.Fprintf(&b, "<?xpacket begin=%s%s%s id=%s%s%s?>", q, begin, q, q, magicID, q)
	}
	switch r.Intn(6) {
	case 0:
	case 1:
		x := make([]byte, r.Intn(3000))
		r.Read(x)
		b.Write(bytes.ReplaceAll(x, []byte("<?xpacket"), nil))
	case 2:
		n := []int{60000, 65000, 65536, 70000, 140000, 1 << 20}[r.Intn(6)] - b.Len() + r.Intn(40) - 20
		b.WriteString(strings.Repeat("0123456789abcde\n", n/16))
	case 3:
		b.WriteString("\n" + strings.Repeat("<?xpacket begi", 3) + magicID + "<?xpacket en")
	case 4:
		// an inner start marker is part of the packet it lies in
		b.WriteString("<?xpacket begin=\"\" id=\"" + magicID + "\"?>")
	default:
		d := genDoc(r, genOpt{unknown: true, maxProps: 3})
		st := randStyle(r)
		st.packet = false
		// an end marker in a CDATA section would end the packet
		b.Write(bytes.ReplaceAll(writeXMP(d, st, r), []byte("<?xpacket"), []byte("<?XPACKET")))
		b.WriteString(strings.Repeat(" ", r.Intn(4000)))
	}
	fmt.Fprintf(&b, "<?xpacket end=%s%s%s?>", q, []string{"w", "r"}[r.Intn(2)], q)
	return b.Bytes()
}

func init() {
	register(&Property{
		ID: "P08",
		Rule: "binary streams composed of arbitrary data, misleading marker fragments and packets of all sizes and header forms, handed out by readers in random pieces, with empty reads and with failures; " +
			"the oracle is the composition itself; distinct by stream",
		Scenarios: []Scenario{
			{"streams", 4000, 250000, func(c *Case) {
				var s []byte
				var want [][]byte
				n := c.R.Intn(5)
				for i := 0; i <= n; i++ {
					if c.R.Intn(4) > 0 {
						s = append(s, genJunk(c.R)...)
					}
					if i < n {
						// a cut marker directly before a packet must not swallow it
						p := genPacket(c.R)
						want = append(want, p)
						s = append(s, p...)
					}
				}
				if c.R.Intn(3) == 0 {
					// a packet without an end is none
					p := genPacket(c.R)
					k := bytes.LastIndex(p, []byte("<?xpacket end"))
					inner := p[:k]
					if bytes.Contains(inner, []byte("<?xpacket end")) {
						inner = nil
					}
					s = append(s, inner...)
				}
				c.Art("stream", s)
				c.Seen(string(s))
				c.Sample("%d bytes, %d packets", len(s), len(want))
				scanAll(c, s, want)
			}},
			{"boundaries", 1500, 60000, func(c *Case) {
				// markers at every offset from a buffer boundary
				pre := []int{0, 4096, 8192, 65536, 1 << 17}[c.R.Intn(5)] + c.R.Intn(120) - 60
				if pre < 0 {
					pre = c.R.Intn(10)
				}
				p1, p2 := genPacket(c.R), genPacket(c.R)
				s := append(bytes.Repeat([]byte{'.'}, pre), p1...)
				mid := c.R.Intn(40)
				s = append(s, bytes.Repeat([]byte{'<'}, mid)...)
				s = append(s, p2...)
				s = append(s, bytes.Repeat([]byte{'.'}, c.R.Intn(30))...)
				c.Art("stream", s)
				c.Seen(pre, mid, len(p1), len(p2))
				scanAll(c, s, [][]byte{p1, p2})
			}},
			{"faults", 1000, 40000, func(c *Case) {
				p := genPacket(c.R)
				s := append(genJunk(c.R), p...)
				if c.R.Intn(2) == 0 {
					s = append(s, genJunk(c.R)...)
				}
				cut := c.R.Intn(len(s) + 1)
				e := errors.New("io failure")
				c.Seen(cut, len(s))
				c.Eval(3)
				if _, err := xmp.ScanPackets(&badReader{&pieces{b: s[:cut], r: c.R}, e}); !errors.Is(err, e) {
					c.Fail("scan-error", "reader failed after %d of %d bytes, ScanPackets says %v", cut, len(s), err)
				}
				if _, err := xmp.Scan(&badReader{&pieces{b: s[:cut], r: c.R}, e}); !errors.Is(err, e) {
					c.Fail("scan-error", "reader failed after %d of %d bytes, Scan says %v", cut, len(s), err)
				}
				// Read of a cut document is an error, never a partial document
				x := writeXMP(genDoc(c.R, genOpt{maxProps: 4}), randStyle(c.R), c.R)
				end := bytes.LastIndex(x, []byte("</"))
				k := c.R.Intn(end)
				if _, err := xmp.Read(&badReader{&pieces{b: x[:k], r: c.R}, e}); err == nil {
					c.Art("input", x[:k])
					c.Fail("read-error", "reader failed within the document, Read reports success")
				}
				if d, err := xmp.Read(&pieces{b: x[:k], r: c.R}); err == nil {
					c.Art("input", x[:k])
					c.Fail("read-cut", "document cut after %d of %d bytes is read as %v", k, len(x), d)
				}
			}},
			{"scan", 800, 30000, func(c *Case) {
				// Scan decodes the first packet
				d := genDoc(c.R, genOpt{unknown: true, about: true, maxProps: 5})
				st := randStyle(c.R)
				st.packet = true
				b := writeXMP(d, st, c.R)
				if bytes.Count(b, []byte("<?xpacket end")) > 1 {
					return // an end marker in a CDATA section ends the packet
				}
				s := append(genJunk(c.R), b...)
				s = append(s, genJunk(c.R)...)
				s = append(s, genPacket(c.R)...)
				c.Art("stream", s)
				c.Seen(d.shapes())
				doc, err := xmp.Scan(&pieces{b: s, r: c.R})
				if err != nil {
					c.Fail("scan", "%v", err)
					return
				}
				defer doc.Close()
				doc2, err := decodeXML(b)
				if err != nil {
					c.Fail("decode", "%v", err)
					return
				}
				defer doc2.Close()
				l1, _ := listPaths(doc)
				l2, _ := listPaths(doc2)
				c.Eval(1 + len(l1))
				if diff := strDiff(l2, l1); len(diff) > 0 {
					c.Fail("scan-content", "scanned document differs:\n  %s", head(diff, 5))
				}
				if _, _, err := docFlat(doc); err != nil {
					c.Fail("scan-encode", "%v", err)
				}
			}},
		},
	})
}

func scanAll(c *Case, s []byte, want [][]byte) {
	readers := map[string]io.Reader{
		"whole":  bytes.NewReader(s),
		"pieces": &pieces{b: s, r: c.R},
	}
	if len(s) < 20000 {
		readers["bytes"] = &oneByte{b: s}
	}
	for _, name := range sortedKeys(readers) {
		got, err := xmp.ScanPackets(readers[name])
		c.Eval(1 + len(want))
		if len(want) == 0 {
			if err != io.EOF || len(got) > 0 {
				c.Fail("no-packet", "%s: stream without packets gives %d packets, %v", name, len(got), err)
			}
			continue
		}
		if err != nil {
			c.Fail("scan-error", "%s: %v", name, err)
			continue
		}
		if len(got) != len(want) {
			c.Fail("count", "%s: %d packets found, stream has %d", name, len(got), len(want))
			continue
		}
		for i := range want {
			if !bytes.Equal(got[i], want[i]) {
				c.Fail("packet", "%s: packet %d has %d bytes, expected %d; starts %.60q", name, i, len(got[i]), len(want[i]), got[i])
			}
		}
		// the packets are copies
		for i := range got {
			for j := range got[i] {
				got[i][j] = 0
			}
		}
	}
}

type oneByte struct{ b []byte }

func (o *oneByte) Read(p []byte) (int, error) {
	if len(o.b) == 0 {
		return 0, io.EOF
	}
	p[0] = o.b[0]
	o.b = o.b[1:]
	return 1, nil
}
