From ff0fe4d3dfa11226ffb5675ad2e72971f14b0f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 001/130] fix: count node pool operations atomically

The counters are shared by all documents, so using independent documents
from several goroutines was a data race.
---
 xmp/dump.go | 17 +++++++++++------
 xmp/node.go |  9 +++++----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/xmp/dump.go b/xmp/dump.go
index 999c1a1..26ed47f 100644
--- a/xmp/dump.go
+++ b/xmp/dump.go
@@ -17,6 +17,7 @@ package xmp
 import (
 	"fmt"
 	"strings"
+	"sync/atomic"
 )
 
 func (n Node) Dump(d int) {
@@ -59,10 +60,14 @@ func (d *Document) DumpNamespaces() {
 }
 
 func DumpStats() {
-	fmt.Println("xmp: Node Pool Allocs ", npAllocs)
-	fmt.Println("xmp: Node Pool Frees  ", npFrees)
-	fmt.Println("xmp: Node Pool Hits   ", npHits)
-	fmt.Println("xmp: Node Pool Returns", npReturns)
-	fmt.Println("xmp: Node Pool InUse  ", npAllocs+npHits-npReturns-npFrees)
-	fmt.Println("xmp: Node Pool InPool ", Max64(0, npReturns-npHits))
+	allocs := atomic.LoadInt64(&npAllocs)
+	frees := atomic.LoadInt64(&npFrees)
+	hits := atomic.LoadInt64(&npHits)
+	returns := atomic.LoadInt64(&npReturns)
+	fmt.Println("xmp: Node Pool Allocs ", allocs)
+	fmt.Println("xmp: Node Pool Frees  ", frees)
+	fmt.Println("xmp: Node Pool Hits   ", hits)
+	fmt.Println("xmp: Node Pool Returns", returns)
+	fmt.Println("xmp: Node Pool InUse  ", allocs+hits-returns-frees)
+	fmt.Println("xmp: Node Pool InPool ", Max64(0, returns-hits))
 }
diff --git a/xmp/node.go b/xmp/node.go
index 8aec5eb..81a8689 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 var (
@@ -80,14 +81,14 @@ func NewNode(name xml.Name) *Node {
 	var n *Node
 	select {
 	case n = <-nodePool: // Try to get one from the nodePool
-		npHits++
+		atomic.AddInt64(&npHits, 1)
 		n.XMLName = name
 		n.Attr = nil
 		n.Nodes = nil
 		n.Model = nil
 		n.Value = ""
 	default: // All in use, create a new, temporary:
-		npAllocs++
+		atomic.AddInt64(&npAllocs, 1)
 		n = &Node{
 			XMLName: name,
 			Attr:    nil,
@@ -111,9 +112,9 @@ func (n *Node) Close() {
 	n.Value = ""
 	select {
 	case nodePool <- n: // try to put back into the nodePool
-		npReturns++
+		atomic.AddInt64(&npReturns, 1)
 	default: // pool is full, will be garbage collected
-		npFrees++
+		atomic.AddInt64(&npFrees, 1)
 	}
 }
 
-- 
2.43.0


From 67ea79a63d944a0d95e7c8e57e0d82ac10567a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 002/130] fix: Remove on StringList, StringArray and
 IdentifierArray

Removing an element kept it and dropped every element behind it.
---
 models/xmp_base/types.go | 2 +-
 xmp/array.go             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index e939097..f26ae5e 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -150,7 +150,7 @@ func (x *IdentifierArray) Index(val string) int {
 
 func (x *IdentifierArray) Remove(v string) {
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
diff --git a/xmp/array.go b/xmp/array.go
index b75ab40..c848417 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -395,7 +395,7 @@ func (x *StringList) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -499,7 +499,7 @@ func (x *StringArray) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
-- 
2.43.0


From ae28b48c0f9e504e0588614fedf1f8e8038d2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 003/130] fix: read xmp:Identifier items in
 rdf:parseType="Resource" form

This is the form the encoder writes, so qualified identifiers were lost
when a saved document was loaded again.
---
 models/xmp_base/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index f26ae5e..c6cd810 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -82,8 +82,10 @@ func (x *Identifier) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) e
 	} else if len(node.Nodes) == 0 {
 		err = d.DecodeElement(&id.ID, node) // value from node.Value
 		err = d.DecodeElement(&id, node)    // scheme from attr
-	} else {
+	} else if node.Nodes[0].FullName() == "rdf:Description" {
 		err = d.DecodeElement(&id, node.Nodes[0]) // both from child nodes
+	} else {
+		err = d.DecodeElement(&id, node) // both from rdf:parseType="Resource"
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 2af233cf020b1966659fa6311666975a04722c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 004/130] fix: thumbnail width and height were bound to each
 other's property

---
 models/xmp_base/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index c6cd810..e34114a 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -171,8 +171,8 @@ func (x *IdentifierArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Mod
 // Part 2: 1.2.2.4 Thumbnail
 type Thumbnail struct {
 	Format string `xmp:"xmpGImg:format"`
-	Width  int64  `xmp:"xmpGImg:height"`
-	Height int64  `xmp:"xmpGImg:width"`
+	Width  int64  `xmp:"xmpGImg:width"`
+	Height int64  `xmp:"xmpGImg:height"`
 	Image  []byte `xmp:"xmpGImg:image"`
 }
 
-- 
2.43.0


From 9ca8842865f20cc64d85407552e852036011ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 005/130] fix: keep the default of an alternative array in JSON

The x-default item was dropped unless another item had the same value,
and several items were marked default when more than one did.
---
 xmp/json.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 59931ce..8c3420c 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -198,14 +198,13 @@ func nodeToJson(n *Node) (interface{}, error) {
 				// mark the default item
 				if defLangContent != "" && len(a) > 1 {
 					for i, l := 0, len(a); i < l; i++ {
-						if a[i].Value == defLangContent {
+						if i != defLangIndex && a[i].Value == defLangContent {
 							a[i].IsDefault = true
+							// remove the duplicate default element
+							a = append(a[:defLangIndex], a[defLangIndex+1:]...)
+							break
 						}
 					}
-					// remove the duplicate default element
-					if defLangIndex > -1 {
-						a = append(a[:defLangIndex], a[defLangIndex+1:]...)
-					}
 				}
 				return a, nil
 			}
-- 
2.43.0


From 9ea7625208ac31870270c4e6bf06a459bdb8ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 006/130] fix: do not duplicate the x-default item when loading
 JSON

---
 xmp/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/json.go b/xmp/json.go
index 8c3420c..470a518 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -350,7 +350,7 @@ func jsonToNode(name string, v interface{}, node *Node) {
 				}
 
 				// add second node for default && lang != ""
-				if def && lang != "" {
+				if def && lang != "" && lang != "x-default" {
 					linode = NewNode(xml.Name{Space: nsRDF.GetURI(), Local: "li"})
 					anode.Nodes = append(anode.Nodes, linode)
 					linode.Attr = append(linode.Attr, Attr{
-- 
2.43.0


From b4c6aaaa2644864c0cc14e393a9d47f64740c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 007/130] fix: do not panic on malformed alternative arrays in
 JSON

---
 xmp/json.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 470a518..f7d636a 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -327,10 +327,11 @@ func jsonToNode(name string, v interface{}, node *Node) {
 			linode := NewNode(xml.Name{Space: nsRDF.GetURI(), Local: "li"})
 			anode.Nodes = append(anode.Nodes, linode)
 			if typ == ArrayTypeAlternative {
-				item := av.(map[string]interface{})
-				def := item["isDefault"].(bool)
-				lang := item["lang"].(string)
-				val := item["value"].(string)
+				// only the first item has been checked, others may be malformed
+				item, _ := av.(map[string]interface{})
+				def, _ := item["isDefault"].(bool)
+				lang, _ := item["lang"].(string)
+				val, _ := item["value"].(string)
 
 				// add single node when default || !default && lang != ""
 				if def || !def && lang != "" {
-- 
2.43.0


From f961e76f63fdc7901c268e5b42d13f4b04b6b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 008/130] fix: keep the x:xmptk toolkit name of a decoded
 document

It was overwritten with an empty string at the end of Decode.
---
 xmp/unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index e64d069..9d023ad 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -85,7 +85,7 @@ func (d *Decoder) Decode(x *Document) error {
 	// 2  skip top-level `x:xmpmeta` (optional) and `rdf:RDF` nodes
 	if root.FullName() == "x:xmpmeta" {
 		if a := root.GetAttr(nsX.GetURI(), "xmptk"); len(a) > 0 {
-			x.toolkit = strings.TrimSpace(a[0].Value)
+			d.toolkit = strings.TrimSpace(a[0].Value)
 		}
 		if len(root.Nodes) == 0 {
 			return fmt.Errorf("xmp: invalid XML format: missing rdf:RDF node")
-- 
2.43.0


From 0e50bdddaa75c880f8d25dc28767da9d70d5fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 009/130] fix: keep all character data of an element

Text interrupted by a comment, CDATA section or processing instruction
lost everything but the last piece.
---
 xmp/node.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 81a8689..c89a23b 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -367,6 +367,7 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 
 func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	var nodes []*Node
+	var text []byte
 	var done bool
 	for !done {
 		t, err := d.Token()
@@ -375,7 +376,7 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 		switch t := t.(type) {
 		case xml.CharData:
-			n.Value = strings.TrimSpace(string(t))
+			text = append(text, t...)
 		case xml.StartElement:
 			x := NewNode(emptyName)
 			x.UnmarshalXML(d, t)
@@ -384,6 +385,7 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			done = true
 		}
 	}
+	n.Value = strings.TrimSpace(string(text))
 	n.XMLName = start.Name
 	n.Attr.From(start.Attr)
 	n.Nodes = nodes
-- 
2.43.0


From 4b77a6d061853f93d3c85eab911dde45678a9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 010/130] fix: AltString.EnsureDefault panicked when no item
 was default

---
 xmp/array.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmp/array.go b/xmp/array.go
index c848417..1db89af 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -108,6 +108,11 @@ func (a *AltString) EnsureDefault() {
 				}
 			}
 		}
+		if idx < 0 {
+			// pick the first item when no default exists
+			idx = 0
+			(*a)[0].IsDefault = true
+		}
 		if idx != 0 {
 			(*a)[idx], (*a)[0] = (*a)[0], (*a)[idx]
 		}
-- 
2.43.0


From 798c0cfead8ef2f236ac345e6aaed45af3d0ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 011/130] fix: do not panic on paths into xmpMM:Pantry

A missing array index was used as -1, and a missing extension node was
dereferenced.
---
 xmp/path.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index 11bda49..11f1018 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -335,6 +335,10 @@ func GetModelPath(v Model, path Path) (string, error) {
 		if isArray {
 			switch arr := av.Interface().(type) {
 			case ExtensionArray:
+				// sanitize idx (it is -1 when no array index was specified)
+				if idx < 0 {
+					idx = 0
+				}
 				if walker.Len() == 0 || fv.Len() <= idx {
 					return "", errNotFound
 				}
@@ -680,6 +684,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					// Type 1: model and nodes on top-level (name not empty)
 					node = ext.FindNodeByName(name)
 					if node == nil {
+						node = (*Node)(ext).AddNode(NewNode(NewName(name)))
 						if ns, err := GetNamespace(name); err == nil {
 							node.Model = ns.NewModel()
 						}
-- 
2.43.0


From 375dea12c359198343308afabf5c00537cc01b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 012/130] fix: find packets when the reader returns small
 chunks

A packet marker split across reads was dropped.
---
 xmp/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 4b999ed..6c9c21f 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -77,7 +77,11 @@ func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error)
 		if ofs > 0 {
 			return ofs, nil, nil
 		}
-		return len(data), nil, nil
+		if atEOF {
+			return len(data), nil, nil
+		}
+		// may be the beginning of a packet marker
+		return 0, nil, nil
 	}
 	end := bytes.Index(data[start:], packet_end)
 	last := start + end + len(packet_end) + 6
-- 
2.43.0


From 919b8bc44e171328f0cb19ec425c1e870a570a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 013/130] fix: scan packets larger than 64 kB

The default bufio.Scanner limit made ScanPackets fail for any file with a
larger packet.
---
 xmp/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 6c9c21f..1d7d089 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -44,6 +44,7 @@ func Scan(r io.Reader) (*Document, error) {
 func ScanPackets(r io.Reader) ([][]byte, error) {
 	packets := make([][]byte, 0)
 	s := bufio.NewScanner(r)
+	s.Buffer(nil, maxPacketSize)
 	s.Split(splitPacket)
 	for s.Scan() {
 		b := s.Bytes()
@@ -62,6 +63,9 @@ func ScanPackets(r io.Reader) ([][]byte, error) {
 	return packets, nil
 }
 
+// upper limit for the size of a single packet
+const maxPacketSize = 1 << 30
+
 var packet_start = []byte("<?xpacket begin")
 var packet_end = []byte("<?xpacket end")       // plus suffix `"w"?>`
 var magic = []byte("W5M0MpCehiHzreSzNTczkc9d") // len 24
@@ -89,7 +93,7 @@ func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error)
 		if atEOF {
 			return len(data), nil, nil
 		}
-		return 0, nil, nil
+		return start, nil, nil
 	}
 	return last, data[start:last], nil
 }
-- 
2.43.0


From 0715b9c5db3a61cd0144221c444fcded4d4d8881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 014/130] fix: start markers without the magic id

A short one made ScanPackets panic, others swallowed the packet behind them.
---
 xmp/reader.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 1d7d089..743ae4e 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -70,8 +70,14 @@ var packet_start = []byte("<?xpacket begin")
 var packet_end = []byte("<?xpacket end")       // plus suffix `"w"?>`
 var magic = []byte("W5M0MpCehiHzreSzNTczkc9d") // len 24
 
+// length of a packet header up to the end of the magic id
+const packetHeaderLen = 51
+
 func isXmpPacket(b []byte) bool {
-	return bytes.Index(b[:51], magic) > -1
+	if len(b) > packetHeaderLen {
+		b = b[:packetHeaderLen]
+	}
+	return bytes.Index(b, magic) > -1
 }
 
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -87,6 +93,13 @@ func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error)
 		// may be the beginning of a packet marker
 		return 0, nil, nil
 	}
+	// skip start markers without the magic id, they don't begin a packet
+	if !isXmpPacket(data[start:]) {
+		if atEOF || len(data)-start >= packetHeaderLen {
+			return start + len(packet_start), nil, nil
+		}
+		return start, nil, nil
+	}
 	end := bytes.Index(data[start:], packet_end)
 	last := start + end + len(packet_end) + 6
 	if end == -1 || last > len(data) {
-- 
2.43.0


From 867af7b5a41d9c189137ca4cbcc66588dd9e262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 015/130] fix: set and delete unknown attributes, add missing
 languages by path

---
 xmp/node.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index c89a23b..7da5e00 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -459,15 +459,20 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	}
 
 	// handle attribute
-	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
-		switch {
-		case flags&REPLACE > 0 && value != "":
-			attr[0].Value = value
-			return nil
-		case flags&DELETE > 0 && value == "":
-			attr[0].Value = value
-			// will be ignored on next marshal
-			return nil
+	if idx == -1 && lang == "" && path.Len() == 0 {
+		for i := range n.Attr {
+			if stripPrefix(n.Attr[i].Name.Local) != stripPrefix(name) {
+				continue
+			}
+			switch {
+			case flags&REPLACE > 0 && value != "":
+				n.Attr[i].Value = value
+				return nil
+			case flags&DELETE > 0 && value == "":
+				n.Attr = append(n.Attr[:i], n.Attr[i+1:]...)
+				return nil
+			}
+			break
 		}
 	}
 
@@ -596,6 +601,12 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 					}
 				}
 			}
+			if flags&CREATE == 0 {
+				return fmt.Errorf("CREATE flag required to extend array '%s'", name)
+			}
+			li := arr.AppendNode(NewNode(NewName("rdf:li")))
+			li.AddStringAttr("xml:lang", lang)
+			li.Value = value
 
 		case flags&(REPLACE|CREATE) > 0 && value != "" && lang == "":
 			// replace entire AltString with a new version
-- 
2.43.0


From 2523f0ab0bcd3785eb1bbf076b0713e49737cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 016/130] fix: list simple array items and item attributes of
 unknown properties

---
 xmp/node.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 7da5e00..e0c2727 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -663,17 +663,11 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 		for i, li := range n.Nodes {
 			_, walker := path.Pop()
 			walker = walker.AppendIndex(i)
-			for _, v := range li.Nodes {
-				name := v.Name()
-				if v.Namespace() != path.NamespacePrefix() {
-					name = v.FullName()
-				}
-				r, err := v.ListPaths(walker.Push(name))
-				if err != nil {
-					return nil, err
-				}
-				l = append(l, r...)
+			r, err := li.ListPaths(walker)
+			if err != nil {
+				return nil, err
 			}
+			l = append(l, r...)
 		}
 	case "rdf:Alt":
 		for _, li := range n.Nodes {
-- 
2.43.0


From 56b545d6f6978e88bb764306409edd2f49551ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 017/130] fix: growing an array by path revived deleted items

---
 xmp/path.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index 11f1018..08b545d 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1287,5 +1287,9 @@ func growSlice(v reflect.Value, n int) {
 			v.Set(nv)
 		}
 		v.SetLen(n + 1)
+		// do not bring back values from beyond the previous length
+		for i := l; i <= n; i++ {
+			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
+		}
 	}
 }
-- 
2.43.0


From 844e25ca65c39dd78607bb7d831a02cc2da4ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 018/130] fix: do not touch a removed model when deleting a
 namespace by path

---
 xmp/path.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmp/path.go b/xmp/path.go
index 08b545d..8273107 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -492,6 +492,7 @@ func (d *Document) SetPath(desc PathValue) error {
 	// delete model when only namespace is set
 	if path.Len() == 0 && flags&DELETE > 0 {
 		d.RemoveNamespace(ns)
+		return nil
 	}
 
 	// get current version of path value
-- 
2.43.0


From 45132774613fba9e86898acd8595770ca1a6560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 019/130] fix: ResourceRefArray.DeleteIndex panicked one past
 the end

---
 models/xmp_mm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index 0cf33b1..b1f2aac 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -80,7 +80,7 @@ func (x ResourceRefArray) Index(did xmp.GUID) int {
 }
 
 func (x *ResourceRefArray) DeleteIndex(idx int) {
-	if idx < 0 || idx > len(*x) {
+	if idx < 0 || idx >= len(*x) {
 		return
 	}
 	*x = append((*x)[:idx], ((*x)[idx+1:])...)
-- 
2.43.0


From d9affd60788a61419f89524af90db9f4c4a31da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 020/130] fix: do not allocate by the size a value claims in
 exif tables

---
 models/exif/types.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 3f9c9be..c1fa1d5 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -183,12 +183,10 @@ func (x *OECF) UnmarshalText(data []byte) error {
 			if o.Columns, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF columns value '%s': %v", v, err)
 			}
-			o.Names = make(xmp.StringArray, 0, o.Columns)
 		case i == 1:
 			if o.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF rows value '%s': %v", v, err)
 			}
-			o.Values = make(xmp.RationalArray, 0, o.Columns*o.Rows)
 		case i > 1 && i < o.Columns+1:
 			o.Names = append(o.Names, v)
 		default:
@@ -238,7 +236,6 @@ func (x *CFAPattern) UnmarshalText(data []byte) error {
 			if c.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid CFA rows value '%s': %v", v, err)
 			}
-			c.Values = make(ByteArray, 0, c.Columns*c.Rows)
 		default:
 			if j, err := strconv.ParseUint(v, 10, 8); err != nil {
 				return fmt.Errorf("exif: invalid CFA value '%s': %v", v, err)
@@ -289,7 +286,6 @@ func (x *DeviceSettings) UnmarshalText(data []byte) error {
 			if s.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid device settings rows value '%s': %v", v, err)
 			}
-			s.Values = make(xmp.StringArray, 0, s.Columns*s.Rows)
 		default:
 			s.Values = append(s.Values, v)
 		}
-- 
2.43.0


From 80e0a73aae55f30edb715c5ae5f097c55161d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 021/130] fix: last column name of an exif OECF table was
 parsed as a value

---
 models/exif/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index c1fa1d5..b50c336 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -187,7 +187,7 @@ func (x *OECF) UnmarshalText(data []byte) error {
 			if o.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF rows value '%s': %v", v, err)
 			}
-		case i > 1 && i < o.Columns+1:
+		case i > 1 && i < o.Columns+2:
 			o.Names = append(o.Names, v)
 		default:
 			r := xmp.Rational{}
-- 
2.43.0


From 440e50059335630881f188482710e31bf71767a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 022/130] fix: read back exif OECF, CFAPattern and
 DeviceSettings structures

---
 models/exif/types.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/models/exif/types.go b/models/exif/types.go
index b50c336..6898a80 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -206,6 +206,20 @@ func (x OECF) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
 	return e.EncodeElement(_t(x), node)
 }
 
+func (x *OECF) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	if len(node.Nodes) == 0 && len(node.Attr) == 0 {
+		return x.UnmarshalText([]byte(node.Value))
+	}
+	// strip TextUnmarshal method
+	type _t OECF
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = OECF(v)
+	return nil
+}
+
 type CFAPattern struct {
 	Columns int       `xmp:"exif:Columns"`
 	Rows    int       `xmp:"exif:Rows"`
@@ -256,6 +270,20 @@ func (x CFAPattern) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) erro
 	return e.EncodeElement(_t(x), node)
 }
 
+func (x *CFAPattern) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	if len(node.Nodes) == 0 && len(node.Attr) == 0 {
+		return x.UnmarshalText([]byte(node.Value))
+	}
+	// strip TextUnmarshal method
+	type _t CFAPattern
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = CFAPattern(v)
+	return nil
+}
+
 type DeviceSettings struct {
 	Columns int             `xmp:"exif:Columns"`
 	Rows    int             `xmp:"exif:Rows"`
@@ -302,6 +330,20 @@ func (x DeviceSettings) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model)
 	return e.EncodeElement(_t(x), node)
 }
 
+func (x *DeviceSettings) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	if len(node.Nodes) == 0 && len(node.Attr) == 0 {
+		return x.UnmarshalText([]byte(node.Value))
+	}
+	// strip TextUnmarshal method
+	type _t DeviceSettings
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = DeviceSettings(v)
+	return nil
+}
+
 type Flash struct {
 	Fired      xmp.Bool        `xmp:"exif:Fired,attr,empty"`
 	Function   xmp.Bool        `xmp:"exif:Function,attr,empty"`
-- 
2.43.0


From d4cde0dc37ccca1f18da9843cf5bd87b82d7df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 023/130] fix: sign of infinite floats in JSON

---
 xmp/units.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 31f3c82..121e8f8 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -361,9 +361,9 @@ func (f NullFloat) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
@@ -432,9 +432,9 @@ func (f NullFloat64) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
-- 
2.43.0


From 2548f3dae46c70192ef3d13997b0f6f9039fe557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 024/130] fix: accept the full range of split integers

---
 xmp/units.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 121e8f8..3c732dc 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -109,12 +109,14 @@ func (x *SplitInt) UnmarshalText(data []byte) error {
 		return nil
 	default:
 		// parse integer
-		if i, err := strconv.ParseInt(d, 10, 32); err == nil {
+		if i, err := strconv.ParseUint(d, 10, 32); err == nil {
+			*x = SplitInt(i)
+		} else if i, err := strconv.ParseInt(d, 10, 32); err == nil {
 			*x = SplitInt(i)
 		} else if f := strings.Split(d, ":"); len(f) == 4 {
 			var u uint32
 			for i := 0; i < 4; i++ {
-				if v, err := strconv.ParseInt(f[i], 10, 8); err != nil {
+				if v, err := strconv.ParseUint(f[i], 10, 8); err != nil {
 					return fmt.Errorf("xmp: parsing SplitInt '%s': invalid syntax", d)
 				} else {
 					u += uint32(v) << uint32((3-i)*8)
-- 
2.43.0


From 2f562cd8ab34d6bbd955014fe2f9a4a948f07cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 025/130] fix: rationals from decimals below one

---
 xmp/xmp_types.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 7c2a014..a2dbdc3 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -40,6 +40,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -577,10 +578,12 @@ func (x *Rational) UnmarshalText(data []byte) error {
 		var f float64
 		f, err = strconv.ParseFloat(v, 32)
 		if err == nil {
-			if f < 1 {
-				r = Rational{1, int64(1000/f+50) / 1000}
-			} else {
-				r = FloatToRational(float32(f))
+			r = FloatToRational(float32(f))
+			if f > 0 && f < 1 {
+				// prefer 1/n for fractions like shutter speeds
+				if n := math.Floor(1/f + 0.5); n < math.MaxInt32 && math.Abs(n*f-1) < 0.005 {
+					r = Rational{1, int64(n)}
+				}
 			}
 			// fmt.Printf("Float %f in Rational %d/%d\n", f, r.Num, r.Den)
 		}
-- 
2.43.0


From 862c6f03e0066f7778c1322bc22651224f889f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 026/130] fix: find namespace declarations on all elements,
 keep clashing prefixes apart

---
 xmp/unmarshal.go | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 9d023ad..10ddf5e 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -101,11 +101,7 @@ func (d *Decoder) Decode(x *Document) error {
 	}
 
 	// 3  extract document namespaces
-	for _, n := range root.Nodes {
-		for _, v := range n.GetAttr("xmlns", "") {
-			d.addNamespace(v.Name.Local, v.Value)
-		}
-	}
+	d.addNamespaces(gc)
 
 	// 4  walk node tree and create model instances
 	for _, n := range root.Nodes {
@@ -345,11 +341,35 @@ func (d Decoder) translate(n *xml.Name) {
 	}
 }
 
+// Collect namespaces from all levels of the node tree and strip their
+// declarations from the nodes.
+func (d *Decoder) addNamespaces(n *Node) {
+	l := make(AttrList, 0, len(n.Attr))
+	for _, v := range n.Attr {
+		switch {
+		case v.Name.Space == "xmlns":
+			d.addNamespace(v.Name.Local, v.Value)
+		case v.Name.Space == "" && v.Name.Local == "xmlns":
+			d.addNamespace("ns", v.Value)
+		default:
+			l = append(l, v)
+		}
+	}
+	n.Attr = l
+	for _, v := range n.Nodes {
+		d.addNamespaces(v)
+	}
+}
+
 // Keep track of all used namespaces (registered and unknown).
 // In XML a local name's prefix may differ from the XMP standard
 // prefix. Even Adobe used to use `xap` instead of `xmp` as prefix
 // in documents before the standard was finished.
 func (d *Decoder) addNamespace(prefix, uri string) {
+	if uri == "" || uri == nsRDF.GetURI() || uri == nsX.GetURI() {
+		return
+	}
+
 	// register known namespaces using their standard prefix
 	if ns := NsRegistry.GetPrefix(uri); len(ns) > 0 {
 		d.intNsMap[uri], _ = NsRegistry.GetNamespace(ns)
@@ -357,9 +377,21 @@ func (d *Decoder) addNamespace(prefix, uri string) {
 	}
 
 	// keep track of unknown namespaces using their in-document prefix
+	// unless another namespace is already known under the same prefix
 	if _, ok := d.extNsMap[uri]; !ok {
-		d.extNsMap[uri] = &Namespace{prefix, uri, emptyFactory}
+		name := prefix
+		for i := len(d.extNsMap); d.isPrefixUsed(name); i++ {
+			name = prefix + strconv.Itoa(i)
+		}
+		d.extNsMap[uri] = &Namespace{name, uri, emptyFactory}
+	}
+}
+
+func (d Decoder) isPrefixUsed(prefix string) bool {
+	if _, err := NsRegistry.GetNamespace(prefix); err == nil {
+		return true
 	}
+	return d._findNsByPrefix(prefix) != nil
 }
 
 func (d Decoder) _findNsByURI(uri string) *Namespace {
-- 
2.43.0


From 21a3821cc296001efc79ec28c3c0998c9f058e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 027/130] fix: resource references with only stRef:manageUI
 were dropped

---
 models/xmp_mm/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index b1f2aac..dd19b01 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -52,6 +52,7 @@ func (x ResourceRef) IsZero() bool {
 		x.Manager.IsZero() &&
 		x.ManagerVariant == "" &&
 		x.ManageTo == "" &&
+		x.ManageUI == "" &&
 		x.MaskMarkers == "" &&
 		x.PartMapping == "" &&
 		x.RenditionClass == "" &&
-- 
2.43.0


From 477981b6a4b3b19abbca941490418f8ba75ff7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 028/130] fix: synchronized lyrics could not be saved

---
 models/id3/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 7f991dc..f8e2460 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -259,7 +259,7 @@ type TimedLyrics struct {
 	Lang   string        `xmp:"id3:lang,attr"`
 	Type   LyricsType    `xmp:"id3:type,attr"`
 	Unit   PositionType  `xmp:"id3:unit,attr"`
-	Lyrics TimedTextList `xmp:"id3:lyrics,attr"`
+	Lyrics TimedTextList `xmp:"id3:lyrics"`
 }
 
 type TimedLyricsArray []TimedLyrics
-- 
2.43.0


From 61f84a35ea80609caf79fd3bbb3daa03aa30e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 029/130] fix: iTunes asset info could not be saved

---
 models/itunes/movieinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/itunes/movieinfo.go b/models/itunes/movieinfo.go
index 90dca48..d679b5d 100644
--- a/models/itunes/movieinfo.go
+++ b/models/itunes/movieinfo.go
@@ -20,7 +20,7 @@ import (
 )
 
 type MovieInfo struct {
-	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo,attr"`
+	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo"`
 	Studio        string      `plist:"studio"        xmp:"iTunes:Studio,attr"`
 	Cast          PersonArray `plist:"cast"          xmp:"iTunes:Cast"`
 	Directors     PersonArray `plist:"directors"     xmp:"iTunes:Directors"`
-- 
2.43.0


From f817bcc5b3c19c975a7e2415b0ceba59ad1ac4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 030/130] fix: fields of content ratings were read off by one

---
 models/itunes/types.go | 8 ++++----
 models/qt/types.go     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/models/itunes/types.go b/models/itunes/types.go
index be6b280..b9f49d9 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -99,13 +99,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
diff --git a/models/qt/types.go b/models/qt/types.go
index 2719b95..558eb9a 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -139,13 +139,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
-- 
2.43.0


From 7d02b4aca940b477de0277cf48585d2f405b3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 031/130] fix: types of markers and tracks were lost

---
 models/xmp_dm/types.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index da17002..6b93671 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -432,6 +432,26 @@ func (x MarkerList) Filter(types MarkerTypeList) MarkerList {
 
 type MarkerTypeList []MarkerType
 
+// comma-delimited text
+func (x MarkerTypeList) MarshalText() ([]byte, error) {
+	s := make([]string, len(x))
+	for i, v := range x {
+		s[i] = string(v)
+	}
+	return []byte(strings.Join(s, ",")), nil
+}
+
+func (x *MarkerTypeList) UnmarshalText(data []byte) error {
+	l := make(MarkerTypeList, 0)
+	for _, v := range strings.Split(string(data), ",") {
+		if v = strings.TrimSpace(v); v != "" {
+			l = append(l, MarkerType(v))
+		}
+	}
+	*x = l
+	return nil
+}
+
 func (x MarkerTypeList) Intersect(y MarkerTypeList) MarkerTypeList {
 	m := make(map[MarkerType]bool)
 	for _, v := range x {
-- 
2.43.0


From b0284f2734418199f6e95317c4726f53e74964ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 032/130] fix: timecode format of 59.94 fps without drop frames

---
 models/xmp_dm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 6b93671..cddb658 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -587,7 +587,7 @@ func ParseTimecodeFormat(f float64, isdrop bool) TimecodeFormat {
 		if isdrop {
 			return TimecodeFormat5994
 		} else {
-			return TimecodeFormat5994
+			return TimecodeFormat5994ND
 		}
 	case f == 60:
 		return TimecodeFormat60
-- 
2.43.0


From bf7ece09cf3fe2c7b61049cbfe8841676fa9c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 033/130] fix: compare frame counts of different rates by time

---
 models/xmp_dm/types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index cddb658..4e08449 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -195,7 +195,14 @@ func (x FrameCount) Sub(y FrameCount) FrameCount {
 }
 
 func (x FrameCount) IsSmaller(y FrameCount) bool {
-	return float64(x.Count)*x.Rate.Value() < float64(y.Count)*y.Rate.Value()
+	return x.seconds() < y.seconds()
+}
+
+func (x FrameCount) seconds() float64 {
+	if x.Rate.IsZero() {
+		return float64(x.Count)
+	}
+	return float64(x.Count) / x.Rate.Value()
 }
 
 func (x *FrameCount) UnmarshalText(data []byte) error {
-- 
2.43.0


From 4a7a4880bcaaf62b540ae7b2d2488b50021865da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 034/130] fix: keep the text of a timecode that was set without
 its fields

---
 models/xmp_dm/types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 4e08449..cdd08bc 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -700,7 +700,10 @@ func (x *Timecode) UnmarshalJSON(data []byte) error {
 }
 
 func (x Timecode) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
-	x.Value = x.String()
+	// keep a text value that was set without its fields
+	if x.Value == "" || x.H != 0 || x.M != 0 || x.S != 0 || x.F != 0 {
+		x.Value = x.String()
+	}
 	type _t Timecode
 	return e.EncodeElement(_t(x), node)
 }
-- 
2.43.0


From 02e405f8cdfa0794ad495b756aeca1932baee824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 035/130] fix: read back structures whose type also reads text

---
 xmp/unmarshal.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 10ddf5e..bd1f331 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -230,7 +230,8 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	// Text
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
+		isText := pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType))
+		if isText && !isStructForm(val, src) {
 			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(src.Value))
 		}
 	}
@@ -284,6 +285,14 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	return nil
 }
 
+// Types that can read text, but not write it, are written as structs.
+func isStructForm(val reflect.Value, src *Node) bool {
+	if val.Kind() != reflect.Struct || val.Addr().Type().Implements(textMarshalerType) {
+		return false
+	}
+	return len(src.Nodes) > 0 || len(src.Attr) > 0 && src.Value == ""
+}
+
 func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) error {
 	// Load value from interface
 	val = derefValue(val)
-- 
2.43.0


From 0074a2eb3687100c54ce4219423012ed0afce2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 036/130] fix: close the parenthesis of content ratings

---
 models/itunes/types.go | 1 +
 models/qt/types.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/models/itunes/types.go b/models/itunes/types.go
index b9f49d9..e0c44fc 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -88,6 +88,7 @@ func (x ContentRating) String() string {
 	buf.WriteString(x.Score)
 	buf.WriteByte('|')
 	buf.WriteString(x.Reasons)
+	buf.WriteByte(')')
 	return buf.String()
 }
 
diff --git a/models/qt/types.go b/models/qt/types.go
index 558eb9a..99c8158 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -128,6 +128,7 @@ func (x ContentRating) String() string {
 	buf.WriteString(x.Score)
 	buf.WriteByte('|')
 	buf.WriteString(x.Reasons)
+	buf.WriteByte(')')
 	return buf.String()
 }
 
-- 
2.43.0


From c5cbc3d86d232b4f69bc3f3e8f186db80dd99739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 037/130] fix: lists of genres were multiplied

---
 models/id3/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index f8e2460..b995da3 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -151,13 +151,13 @@ func (x *Genre) UnmarshalText(data []byte) error {
 			*x = append(*x, g.String())
 			continue
 		}
-		switch value {
+		switch v {
 		case "RX":
 			*x = append(*x, "Remix")
 		case "CR":
 			*x = append(*x, "Cover")
 		default:
-			*x = append(*x, value)
+			*x = append(*x, v)
 		}
 	}
 	return nil
-- 
2.43.0


From 55c18a0ae4abde53a1e929685e9b4ae750ab1cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 038/130] fix: one value per language when setting and merging
 alternatives

---
 xmp/array.go | 76 +++++++++++++++++++++++++++++++++++++---------------
 xmp/node.go  | 30 ++++++++++++---------
 xmp/path.go  | 13 +++++++++
 3 files changed, 85 insertions(+), 34 deletions(-)

diff --git a/xmp/array.go b/xmp/array.go
index 1db89af..ecb1f14 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -56,9 +56,16 @@ func (x *AltItem) UnmarshalText(data []byte) error {
 	return nil
 }
 
+// language of the default item
+const xDefault = "x-default"
+
+func isDefaultLang(lang string) bool {
+	return lang == "" || lang == xDefault
+}
+
 func (x AltItem) GetLang() string {
 	if x.Lang == "" && x.IsDefault {
-		return "x-default"
+		return xDefault
 	}
 	return x.Lang
 }
@@ -78,6 +85,9 @@ func NewAltString(items ...interface{}) AltString {
 		switch val := v.(type) {
 		case AltItem:
 			if val.Value != "" {
+				if val.Lang == xDefault {
+					val.Lang, val.IsDefault = "", true
+				}
 				a = append(a, val)
 			}
 		case string:
@@ -136,6 +146,13 @@ func (a AltString) Index(lang string) int {
 			return i
 		}
 	}
+	if isDefaultLang(lang) {
+		for i, v := range a {
+			if v.IsDefault {
+				return i
+			}
+		}
+	}
 	return -1
 }
 
@@ -143,10 +160,8 @@ func (a AltString) Get(lang string) string {
 	if lang == "" {
 		return a.Default()
 	}
-	for _, v := range a {
-		if v.Lang == lang {
-			return v.Value
-		}
+	if i := a.Index(lang); i > -1 {
+		return a[i].Value
 	}
 	return ""
 }
@@ -155,19 +170,26 @@ func (a *AltString) AddDefault(lang string, value string) {
 	if value == "" {
 		return
 	}
-	i := AltItem{
+	if lang == xDefault {
+		lang = ""
+	}
+	n := AltString{AltItem{
 		Value:     value,
 		Lang:      lang,
 		IsDefault: true,
-	}
+	}}
 
-	// clear any previous default
-	for i, l := 0, len(*a); i < l; i++ {
-		(*a)[i].IsDefault = false
+	// clear any previous default, it's replaced unless it has a language
+	for _, v := range *a {
+		if v.IsDefault && v.Lang == "" {
+			continue
+		}
+		v.IsDefault = false
+		n = append(n, v)
 	}
 
-	// add new default as first element
-	*a = append(AltString{i}, (*a)...)
+	// new default is the first element
+	*a = n
 }
 
 func (a *AltString) AddUnique(lang string, value string) bool {
@@ -185,6 +207,11 @@ func (a *AltString) Add(lang string, value string) {
 	if value == "" {
 		return
 	}
+	// there is only one item without language, the default
+	if isDefaultLang(lang) {
+		a.Set(lang, value)
+		return
+	}
 	*a = append(*a, AltItem{
 		Value:     value,
 		Lang:      lang,
@@ -197,25 +224,30 @@ func (a *AltString) Set(lang string, value string) {
 	if value == "" {
 		return
 	}
-	if i := a.Index(lang); i > -1 {
+	i := a.Index(lang)
+	switch {
+	case isDefaultLang(lang) && (i < 0 || (*a)[i].Lang != lang && (*a)[i].Lang != ""):
+		// keep the text of the language that was default before
+		a.AddDefault(lang, value)
+	case i > -1:
 		(*a)[i].Value = value
-	} else {
+	default:
 		a.Add(lang, value)
 	}
 }
 
 func (a *AltString) RemoveLang(lang string) {
-	idx := -1
-	for i, v := range *a {
-		if v.Lang == lang {
-			idx = i
-			break
-		}
+	idx := a.Index(lang)
+	if idx < 0 {
+		return
 	}
-	if idx > -1 {
+	if isDefaultLang(lang) && (*a)[idx].Lang != lang && (*a)[idx].Lang != "" {
+		// keep the text of the language that was default before
+		(*a)[idx].IsDefault = false
+	} else {
 		*a = append((*a)[:idx], (*a)[idx+1:]...)
-		a.EnsureDefault()
 	}
+	a.EnsureDefault()
 }
 
 func (a AltString) Typ() ArrayType {
diff --git a/xmp/node.go b/xmp/node.go
index e0c2727..8696f50 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -471,6 +471,8 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 			case flags&DELETE > 0 && value == "":
 				n.Attr = append(n.Attr[:i], n.Attr[i+1:]...)
 				return nil
+			case value != "":
+				return fmt.Errorf("REPLACE flag required for overwriting value of '%s'", name)
 			}
 			break
 		}
@@ -572,24 +574,26 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 			arr = node.AddNode(NewNode(NewName("rdf:Alt")))
 		}
 		switch {
-		case flags&UNIQUE > 0 && value != "":
-			// append source when not exist
+		case flags&(UNIQUE|APPEND) > 0 && value != "":
+			// append source when not exist, there is one value per language
 			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang && v.Value == value {
-						return nil
+				if attr := v.GetAttr("", "lang"); len(attr) > 0 && attr[0].Value == lang {
+					if v.Value != value && flags&REPLACE == 0 {
+						return fmt.Errorf("REPLACE flag required for overwriting value of '%s'", name)
 					}
+					v.Value = value
+					return nil
 				}
 			}
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.AddStringAttr("xml:lang", lang)
-			li.Value = value
-
-		case flags&APPEND > 0 && value != "":
-			// append source value
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
+			li := NewNode(NewName("rdf:li"))
 			li.AddStringAttr("xml:lang", lang)
 			li.Value = value
+			if lang == xDefault {
+				// the default comes first
+				arr.Nodes = append(NodeList{li}, arr.Nodes...)
+			} else {
+				arr.AppendNode(li)
+			}
 
 		case flags&(REPLACE|CREATE) > 0 && value != "" && lang != "":
 			// replace single entry
@@ -640,6 +644,8 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		}
 		// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name)
 		switch {
+		case flags&REPLACE == 0 && value != "" && node.Value != "":
+			return fmt.Errorf("REPLACE flag required for overwriting value of '%s'", name)
 		case flags&(REPLACE|CREATE) > 0 && value != "":
 			node.Value = value
 			return nil
diff --git a/xmp/path.go b/xmp/path.go
index 8273107..ed81ef7 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -739,6 +739,19 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 				return node.SetPath(walker, value, flags)
 
 			case *AltString:
+				// there is at most one value per language
+				if flags&(UNIQUE|APPEND) > 0 && value != "" {
+					if i := arr.Index(lang); i > -1 && (*arr)[i].Value != value {
+						// a default that has a language of its own is not overwritten
+						hasOwn := isDefaultLang(lang) && (*arr)[i].Lang != ""
+						if flags&REPLACE == 0 && !hasOwn {
+							return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
+						}
+						arr.Set(lang, value)
+						return nil
+					}
+				}
+
 				switch {
 				case flags&UNIQUE > 0 && value != "":
 					// append source when not exist
-- 
2.43.0


From da62445cf8ac3831d90ccdc2d676ea296b81edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 039/130] fix: paths to properties that share a local name,
 languages of named alternatives

---
 xmp/path.go     | 32 +++++++++++++++++++++++++++-----
 xmp/typeinfo.go |  2 ++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index ed81ef7..f9c360a 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -288,7 +288,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 			return "", fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
 		}
 
-		finfo, err := findField(val, name, "xmp")
+		finfo, err := findPathField(val, walker.NamespacePrefix(), name)
 		if err != nil {
 			return "", errNotFound
 			// return "", fmt.Errorf("path field %d (%s) not found: %v", i, name, err)
@@ -333,7 +333,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 		}
 
 		if isArray {
-			switch arr := av.Interface().(type) {
+			switch arr := arrayInterface(av).(type) {
 			case ExtensionArray:
 				// sanitize idx (it is -1 when no array index was specified)
 				if idx < 0 {
@@ -564,7 +564,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 		// using the short-form of name here to find attribute names across namespaces
 		// (e.g. some models use different namespace structs internally)
-		finfo, err := findField(val, name, "xmp")
+		finfo, err := findPathField(val, walker.NamespacePrefix(), name)
 		if err != nil {
 			// special error is catched by caller to retry setting as raw node
 			return errNotFound
@@ -655,7 +655,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			av = fv.Addr()
 		}
 		if av.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || av.Type().Implements(arrayType)) {
-			switch arr := av.Interface().(type) {
+			switch arr := arrayInterface(av).(type) {
 			case *ExtensionArray:
 				// unwrap extension namespace and keep path remainder
 				name = walker.PeekNamespacePrefix()
@@ -1096,7 +1096,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		}
 
 		if isArray {
-			switch arr := av.Interface().(type) {
+			switch arr := arrayInterface(av).(type) {
 			case ExtensionArray:
 				for i, v := range arr {
 					subpath := path.Push(fname).AppendIndex(i)
@@ -1271,6 +1271,28 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 	return pvl, nil
 }
 
+// a field in the namespace of the path takes precedence over fields that just
+// share the local name
+func findPathField(val reflect.Value, prefix, name string) (*fieldInfo, error) {
+	if !hasPrefix(name) {
+		if finfo, err := findField(val, prefix+":"+name, "xmp"); err == nil && finfo.flags&fAny == 0 {
+			return finfo, nil
+		}
+	}
+	return findField(val, name, "xmp")
+}
+
+// named types derived from AltString are treated like it
+func arrayInterface(v reflect.Value) interface{} {
+	switch t := v.Type(); {
+	case t.Kind() == reflect.Slice && t.Elem() == altItemType:
+		v = v.Convert(altStringType)
+	case t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Slice && t.Elem().Elem() == altItemType:
+		v = v.Convert(reflect.PtrTo(altStringType))
+	}
+	return v.Interface()
+}
+
 func parsePathSegment(name string) (string, int, string) {
 	var lang string
 	var idx int = -1
diff --git a/xmp/typeinfo.go b/xmp/typeinfo.go
index c84ba01..67ec561 100644
--- a/xmp/typeinfo.go
+++ b/xmp/typeinfo.go
@@ -118,6 +118,8 @@ var (
 	unmarshalerType       = reflect.TypeOf((*Unmarshaler)(nil)).Elem()
 	attrMarshalerType     = reflect.TypeOf((*MarshalerAttr)(nil)).Elem()
 	attrUnmarshalerType   = reflect.TypeOf((*UnmarshalerAttr)(nil)).Elem()
+	altItemType           = reflect.TypeOf(AltItem{})
+	altStringType         = reflect.TypeOf(AltString{})
 	arrayType             = reflect.TypeOf((*Array)(nil)).Elem()
 	zeroType              = reflect.TypeOf((*Zero)(nil)).Elem()
 	stringerType          = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
-- 
2.43.0


From 98f6cd41d10a80e4445a657073f8902430f950f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 040/130] fix: do not panic on array items of the wrong kind

---
 xmp/unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index bd1f331..dbcf33a 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -278,7 +278,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	} else {
 		// otherwise set simple value directly
 		if err := setValue(val, src.Value); err != nil {
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal %s: %v", src.FullName(), err)
 		}
 	}
 
@@ -322,7 +322,7 @@ func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) e
 		// Recur to read element into slice.
 		if err := d.unmarshalAttr(val.Index(n), nil, src); err != nil {
 			val.SetLen(n)
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal %s: %v", src.Name.Local, err)
 		}
 		return nil
 	}
-- 
2.43.0


From c93a6c51ebfe5d232f1301a3df7ac7b073d02a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 041/130] fix: unknown iXML properties overflowed the stack or
 were lost

---
 models/ixml/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index 99a73f2..a1c831a 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -91,7 +91,7 @@ type IXML struct {
 	TrackList            TrackList               `xml:"TRACK_LIST,omitempty"              xmp:"iXML:trackList"`
 	UserData             *UserData               `xml:"USER,omitempty"                    xmp:"iXML:userData"`
 	Location             *Location               `xml:"LOCATION,omitempty"                xmp:"iXML:location"`
-	Extension            xmp.NamedExtensionArray `xml:",any"                              xmp:"iXML:extension,any"`
+	Extension            xmp.NamedExtensionArray `xml:",any"                              xmp:"iXML:extension"`
 }
 
 func (m *IXML) Namespaces() xmp.NamespaceList {
-- 
2.43.0


From cfa4afbcdd41b95502975ae118c45aee5f908c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 042/130] fix: refuse to write names that are not well-formed
 or not declared

---
 xmp/marshal.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 11fcda8..5e202b1 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -24,6 +24,8 @@ import (
 	"io"
 	"reflect"
 	"strconv"
+	"strings"
+	"unicode"
 )
 
 type Marshaler interface {
@@ -209,6 +211,13 @@ func (e *Encoder) Encode(d *Document) error {
 	}
 	e.root.Nodes = nl
 
+	// names may come from paths or JSON, refuse to write malformed XML
+	for _, n := range e.root.Nodes {
+		if err := checkNames(d, n); err != nil {
+			return err
+		}
+	}
+
 	// 4  output XML
 
 	// 4.1 write packet header
@@ -273,6 +282,53 @@ func (e *Encoder) Encode(d *Document) error {
 	return nil
 }
 
+// Checks that all names are well-formed and their prefixes are declared.
+func checkNames(d *Document, n *Node) error {
+	for _, v := range n.Attr {
+		if strings.HasPrefix(v.Name.Local, "xmlns:") && n.XMLName == rdfDescription {
+			continue
+		}
+		if err := checkName(d, v.Name); err != nil {
+			return err
+		}
+	}
+	if err := checkName(d, n.XMLName); err != nil {
+		return err
+	}
+	for _, v := range n.Nodes {
+		if v.XMLName.Local == "" {
+			// not written
+			continue
+		}
+		if err := checkNames(d, v); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func checkName(d *Document, name xml.Name) error {
+	local := name.Local
+	if i := strings.Index(local, ":"); i > -1 && name.Space == "" {
+		if d.findNsByPrefix(local[:i]) == nil {
+			return &UnknownNamespaceError{name}
+		}
+		local = local[i+1:]
+	}
+	for i, r := range local {
+		if r == '_' || unicode.IsLetter(r) {
+			continue
+		}
+		if i == 0 || r != '-' && r != '.' && r != '\u00b7' && !unicode.IsDigit(r) && !unicode.IsMark(r) {
+			return fmt.Errorf("xmp: invalid XML name %q", name.Local)
+		}
+	}
+	if local == "" {
+		return fmt.Errorf("xmp: invalid XML name %q", name.Local)
+	}
+	return nil
+}
+
 func (e *Encoder) EncodeElement(v interface{}, node *Node) error {
 	return e.marshalValue(reflect.ValueOf(v), nil, node, false)
 }
-- 
2.43.0


From 32980a89479bd9b1e6a007d3699a023d72e02f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 043/130] fix: iXML speed without rates divided by zero

---
 models/ixml/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/ixml/types.go b/models/ixml/types.go
index b0b69ba..6b57ce0 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -151,6 +151,10 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	if rate == 0 {
 		rate = int64(x.TimecodeRate.Value() * 1000)
 	}
+	if rate <= 0 {
+		// no time without a rate
+		return xmpdm.Timecode{}
+	}
 	sec := samples / rate
 	h := sec / 3600
 	m := (sec - h*3600) / 60
-- 
2.43.0


From d4b4f50e47bbcfb67a046d97ab92b7a297a0fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 044/130] fix: frames of iXML start timecodes at integer rates

---
 models/ixml/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/models/ixml/types.go b/models/ixml/types.go
index 6b57ce0..5c73646 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -17,6 +17,7 @@ package ixml
 import (
 	"encoding/xml"
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/xmp_dm"
@@ -159,7 +160,8 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	h := sec / 3600
 	m := (sec - h*3600) / 60
 	s := sec - h*3600 - m*60
-	f := int((samples % rate) * x.TimecodeRate.Num / rate / 1000)
+	// frames are counted at the nominal rate, e.g. 24 for 24000/1001
+	f := int((samples % rate) * int64(math.Ceil(x.TimecodeRate.Value())) / rate)
 	isDrop := x.TimecodeFlag == TimecodeFlagDF
 	return xmpdm.Timecode{
 		Format:      xmpdm.ParseTimecodeFormat(x.TimecodeRate.Value(), isDrop),
-- 
2.43.0


From fd2e49d6b1e6c243ea6b752f70a198bf4d20fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 045/130] fix: limit the index up to which a path may grow an
 array

---
 xmp/node.go | 2 +-
 xmp/path.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 8696f50..268df4f 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -446,7 +446,7 @@ func (n *Node) GetPath(path Path) (string, error) {
 func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
-	if idx < -1 {
+	if idx < -1 || idx > maxPathIndex {
 		return fmt.Errorf("path field %s: invalid index", name)
 	}
 
diff --git a/xmp/path.go b/xmp/path.go
index f9c360a..e0a81f5 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -558,7 +558,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 	l := path.Len()
 	for n, walker := path.PopFront(); n != ""; n, walker = walker.PopFront() {
 		name, idx, lang := parsePathSegment(n)
-		if idx < -1 {
+		if idx < -1 || idx > maxPathIndex {
 			return fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
 		}
 
@@ -1293,6 +1293,10 @@ func arrayInterface(v reflect.Value) interface{} {
 	return v.Interface()
 }
 
+// Setting a path grows arrays up to its index. The limit keeps a path from
+// using up all memory.
+const maxPathIndex = 1<<16 - 1
+
 func parsePathSegment(name string) (string, int, string) {
 	var lang string
 	var idx int = -1
-- 
2.43.0


From 9e155fee5493f8b53d1f2386dd747077de2c921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 046/130] fix: packets behind skipped start markers at the end
 of a stream

---
 xmp/reader.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 743ae4e..a963f0b 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -82,6 +82,18 @@ func isXmpPacket(b []byte) bool {
 
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
 	start := bytes.Index(data, packet_start)
+	// skip start markers without the magic id, they don't begin a packet; the
+	// scanner does not call again at EOF unless a token is returned
+	for start > -1 && !isXmpPacket(data[start:]) {
+		if !atEOF && len(data)-start < packetHeaderLen {
+			return start, nil, nil
+		}
+		next := start + len(packet_start)
+		start = bytes.Index(data[next:], packet_start)
+		if start > -1 {
+			start += next
+		}
+	}
 	if start == -1 {
 		ofs := len(data) - len(packet_start)
 		if ofs > 0 {
@@ -93,13 +105,6 @@ func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error)
 		// may be the beginning of a packet marker
 		return 0, nil, nil
 	}
-	// skip start markers without the magic id, they don't begin a packet
-	if !isXmpPacket(data[start:]) {
-		if atEOF || len(data)-start >= packetHeaderLen {
-			return start + len(packet_start), nil, nil
-		}
-		return start, nil, nil
-	}
 	end := bytes.Index(data[start:], packet_end)
 	last := start + end + len(packet_end) + 6
 	if end == -1 || last > len(data) {
-- 
2.43.0


From 1815fbb04b8d2787907787097654caaa356e7495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 047/130] fix: refuse to write malformed namespace prefixes

---
 xmp/marshal.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 5e202b1..a1c52be 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -313,20 +313,27 @@ func checkName(d *Document, name xml.Name) error {
 		if d.findNsByPrefix(local[:i]) == nil {
 			return &UnknownNamespaceError{name}
 		}
+		if !isNCName(local[:i]) {
+			return fmt.Errorf("xmp: invalid XML name %q", name.Local)
+		}
 		local = local[i+1:]
 	}
-	for i, r := range local {
+	if !isNCName(local) {
+		return fmt.Errorf("xmp: invalid XML name %q", name.Local)
+	}
+	return nil
+}
+
+func isNCName(s string) bool {
+	for i, r := range s {
 		if r == '_' || unicode.IsLetter(r) {
 			continue
 		}
 		if i == 0 || r != '-' && r != '.' && r != '\u00b7' && !unicode.IsDigit(r) && !unicode.IsMark(r) {
-			return fmt.Errorf("xmp: invalid XML name %q", name.Local)
+			return false
 		}
 	}
-	if local == "" {
-		return fmt.Errorf("xmp: invalid XML name %q", name.Local)
-	}
-	return nil
+	return s != ""
 }
 
 func (e *Encoder) EncodeElement(v interface{}, node *Node) error {
-- 
2.43.0


From 83d215dfa6a7b834e54366502d0a3111ae84b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 048/130] fix: text as value of extension properties overflowed
 the stack

---
 xmp/xmp_ext.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 88a513b..921e8a0 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -73,8 +73,11 @@ func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 	return nil
 }
 
+// The attribute has the name of the extension property itself, there's no model
+// inside to decode it into.
 func (x *Extension) UnmarshalXMPAttr(d *Decoder, a Attr) error {
-	return d.decodeAttribute(&x.Nodes, a)
+	(*Node)(x).AddAttr(a)
+	return nil
 }
 
 func (x *Extension) UnmarshalXMP(d *Decoder, src *Node, m Model) error {
-- 
2.43.0


From f39112b0f261e978616b21df4f5c2adddc804260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 049/130] fix: malformed namespace prefixes in JSON

---
 xmp/unmarshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index dbcf33a..3d5d66e 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -379,6 +379,11 @@ func (d *Decoder) addNamespace(prefix, uri string) {
 		return
 	}
 
+	// prefixes that cannot be written (from JSON) don't declare anything
+	if !isNCName(prefix) {
+		return
+	}
+
 	// register known namespaces using their standard prefix
 	if ns := NsRegistry.GetPrefix(uri); len(ns) > 0 {
 		d.intNsMap[uri], _ = NsRegistry.GetNamespace(ns)
-- 
2.43.0


From 65eacab515aba7439cfb2e2c6c6c3dc4052ae608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 050/130] fix: timecodes with negative fields could not be read
 back

---
 models/xmp_dm/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index cdd08bc..74fe44a 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -619,22 +619,22 @@ func (x Timecode) String() string {
 		sep = ';'
 	}
 	buf := bytes.Buffer{}
-	if x.H < 10 {
+	if x.H >= 0 && x.H < 10 {
 		buf.WriteByte('0')
 	}
 	buf.WriteString(strconv.FormatInt(int64(x.H), 10))
 	buf.WriteRune(sep)
-	if x.M < 10 {
+	if x.M >= 0 && x.M < 10 {
 		buf.WriteByte('0')
 	}
 	buf.WriteString(strconv.FormatInt(int64(x.M), 10))
 	buf.WriteRune(sep)
-	if x.S < 10 {
+	if x.S >= 0 && x.S < 10 {
 		buf.WriteByte('0')
 	}
 	buf.WriteString(strconv.FormatInt(int64(x.S), 10))
 	buf.WriteRune(sep)
-	if x.F < 10 {
+	if x.F >= 0 && x.F < 10 {
 		buf.WriteByte('0')
 	}
 	buf.WriteString(strconv.FormatInt(int64(x.F), 10))
-- 
2.43.0


From aafe9ff361163f3161a9221ef6923009909489b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 051/130] fix: changes and removals of properties other models
 keep copies of were lost

---
 xmp/document.go | 29 +++++++++++++++++++++++++++++
 xmp/marshal.go  | 15 +++++++++++++++
 xmp/node.go     |  9 +++++++++
 xmp/path.go     |  8 ++++++++
 4 files changed, 61 insertions(+)

diff --git a/xmp/document.go b/xmp/document.go
index 2c895b0..4fc3f65 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -203,9 +203,38 @@ func (d *Document) RemoveNamespace(ns *Namespace) bool {
 			break
 		}
 	}
+	if removed {
+		d.clearCopies(func(v string) bool { return getPrefix(v) == name })
+	}
 	return removed
 }
 
+// Clears copies of removed properties in models of other namespaces. Otherwise
+// they would reappear on the next sync.
+func (d *Document) clearCopies(match func(name string) bool) {
+	for _, n := range d.nodes {
+		if n.Model == nil {
+			continue
+		}
+		val := derefIndirect(n.Model)
+		if val.Kind() != reflect.Struct || !val.CanSet() {
+			continue
+		}
+		tinfo, err := getTypeInfo(val.Type(), "xmp")
+		if err != nil {
+			continue
+		}
+		for _, f := range tinfo.fields {
+			if f.name == "" || !match(f.name) || n.Model.Can(getPrefix(f.name)) {
+				continue
+			}
+			if fv := f.value(val); fv.CanSet() {
+				fv.Set(reflect.Zero(fv.Type()))
+			}
+		}
+	}
+}
+
 func (d *Document) RemoveNamespaceByName(n string) bool {
 	ns := d.findNsByPrefix(n)
 	return d.RemoveNamespace(ns)
diff --git a/xmp/marshal.go b/xmp/marshal.go
index a1c52be..7cf3b79 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -535,6 +535,11 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 				dest = NewNode(ns.XMLName(""))
 				node.AddNode(dest)
 			}
+
+			// a copy of another model's property never replaces the original
+			if !ownsNamespace(val, ns) && dest.Nodes.hasNode(finfo.name) {
+				continue
+			}
 		} else {
 			dest = node
 		}
@@ -557,6 +562,16 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 	return nil
 }
 
+// Tells if the model in val defines the properties of a namespace or just
+// keeps copies of them.
+func ownsNamespace(val reflect.Value, ns *Namespace) bool {
+	if val.CanAddr() {
+		val = val.Addr()
+	}
+	m, ok := val.Interface().(Model)
+	return !ok || m.Can(ns.GetName())
+}
+
 func isEmptyValue(v reflect.Value) bool {
 	if v.CanInterface() && v.Type().Implements(zeroType) {
 		return v.Interface().(Zero).IsZero()
diff --git a/xmp/node.go b/xmp/node.go
index 268df4f..c666e5d 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -148,6 +148,15 @@ func (x *NodeList) AddNode(n *Node) *Node {
 	return x.AppendNode(n)
 }
 
+func (x NodeList) hasNode(name string) bool {
+	for _, v := range x {
+		if v.XMLName.Local == name {
+			return true
+		}
+	}
+	return false
+}
+
 func (x *NodeList) AppendNode(n *Node) *Node {
 	*x = append(*x, n)
 	return n
diff --git a/xmp/path.go b/xmp/path.go
index e0a81f5..c4873da 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -537,6 +537,14 @@ func (d *Document) SetPath(desc PathValue) error {
 	}
 	if err == nil {
 		d.SetDirty()
+		if value == "" && path.Len() == 1 {
+			seg, walker := path.PopFront()
+			seg, _, _ = parsePathSegment(seg)
+			name := NewPath(walker.NamespacePrefix(), seg)
+			if v, err := d.GetPath(name); err != nil || v == "" {
+				d.clearCopies(func(v string) bool { return v == name.String() })
+			}
+		}
 	}
 
 	if flags&NOFAIL > 0 {
-- 
2.43.0


From 8556af019cd32ad5a342bdd141b8a7ce3c70eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 052/130] fix: missing iXML values erased xmpDM properties

---
 models/ixml/model.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index a1c831a..e33c483 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -115,15 +115,32 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 	if err != nil {
 		return err
 	}
-	dm.TapeName = x.SoundRoll
-	dm.Scene = x.SceneName
-	dm.TrackNumber = x.Take
-	dm.LogComment = x.Note
-	dm.ProjectName = x.Project
-	dm.Good = xmp.Bool(x.IsCircled.Value())
+	// don't overwrite with missing values
+	if x.SoundRoll != "" {
+		dm.TapeName = x.SoundRoll
+	}
+	if x.SceneName != "" {
+		dm.Scene = x.SceneName
+	}
+	if x.Take != 0 {
+		dm.TrackNumber = x.Take
+	}
+	if x.Note != "" {
+		dm.LogComment = x.Note
+	}
+	if x.Project != "" {
+		dm.ProjectName = x.Project
+	}
+	if x.IsCircled.Value() {
+		dm.Good = xmp.True
+	}
 	if x.Speed != nil {
-		dm.StartTimecode = x.Speed.XmpTimecode()
-		dm.AudioSampleRate = x.Speed.FileSampleRate.Value()
+		if tc := x.Speed.XmpTimecode(); !tc.IsZero() {
+			dm.StartTimecode = tc
+		}
+		if r := x.Speed.FileSampleRate.Value(); r != 0 {
+			dm.AudioSampleRate = r
+		}
 	}
 	return nil
 }
-- 
2.43.0


From c0ef28c2ff49aa68f9f51f1dffc56efd316af444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 053/130] fix: properties that are not text could not be
 deleted by path

---
 xmp/path.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index c4873da..3768ab2 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -987,11 +987,23 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
 		}
 
+		// an empty text is not a valid value for most types
+		if value == "" && fv.CanSet() {
+			fv.Set(reflect.Zero(fv.Type()))
+			return nil
+		}
+
 		// Text
 		if fv.CanAddr() {
 			pv := fv.Addr()
 			if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
-				return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
+				// start from an empty value because some types add to existing content
+				pv = reflect.New(fv.Type())
+				if err := pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
+					return err
+				}
+				fv.Set(pv.Elem())
+				return nil
 			}
 		}
 
-- 
2.43.0


From a6ec925361db6545b6c0de994b39944f4f42306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 054/130] fix: path list reported outdated copies of properties

---
 xmp/path.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 3768ab2..59674e2 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -538,9 +538,7 @@ func (d *Document) SetPath(desc PathValue) error {
 	if err == nil {
 		d.SetDirty()
 		if value == "" && path.Len() == 1 {
-			seg, walker := path.PopFront()
-			seg, _, _ = parsePathSegment(seg)
-			name := NewPath(walker.NamespacePrefix(), seg)
+			name := path.property()
 			if v, err := d.GetPath(name); err != nil || v == "" {
 				d.clearCopies(func(v string) bool { return v == name.String() })
 			}
@@ -1019,12 +1017,19 @@ func (d *Document) ListPaths() (PathValueList, error) {
 		return nil, err
 	}
 	l := make(PathValueList, 0)
+	copies := make(PathValueList, 0)
 	for _, v := range d.nodes {
 		if v.Model != nil {
 			if pvl, err := ListModelPaths(v.Model); err != nil {
 				return nil, err
 			} else {
-				l = append(l, pvl...)
+				for _, pv := range pvl {
+					if v.Model.Can(pv.Path.NamespacePrefix()) {
+						l = append(l, pv)
+					} else {
+						copies = append(copies, pv)
+					}
+				}
 			}
 		}
 		r, err := v.ListPaths(NewPath(v.Name()))
@@ -1033,10 +1038,29 @@ func (d *Document) ListPaths() (PathValueList, error) {
 		}
 		l = append(l, r...)
 	}
-	sort.Sort(byPath(l))
+	// copies of another model's properties never replace the original
+	if len(copies) > 0 {
+		have := make(map[Path]bool)
+		for _, v := range l {
+			have[v.Path.property()] = true
+		}
+		for _, v := range copies {
+			if !have[v.Path.property()] {
+				l = append(l, v)
+			}
+		}
+	}
+	sort.Stable(byPath(l))
 	return l.Unique(), nil
 }
 
+// returns the path of the top-level property without index
+func (x Path) property() Path {
+	seg, walker := x.PopFront()
+	seg, _, _ = parsePathSegment(seg)
+	return NewPath(walker.NamespacePrefix(), seg)
+}
+
 func ListModelPaths(v Model) (PathValueList, error) {
 	return listPaths(reflect.ValueOf(v), NewPath(v.Namespaces()[0].GetName()))
 }
-- 
2.43.0


From 8c28ec8f54c0ca01e3ea9d2df5e0d02a744d0833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 055/130] fix: paths of unknown properties: namespaces, whole
 arrays and alternatives, mixed content

---
 xmp/node.go | 112 +++++++++++++++++++++++++++++++++++++++++-----------
 xmp/path.go |   6 +++
 2 files changed, 96 insertions(+), 22 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index c666e5d..2453c18 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -402,6 +402,7 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 }
 
 func (n *Node) GetPath(path Path) (string, error) {
+	explicit := path.hasExplicitPrefix()
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
 	if idx < -1 {
@@ -417,8 +418,18 @@ func (n *Node) GetPath(path Path) (string, error) {
 	}
 
 	// lookup name in node list or attributes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
+	node, attr := n.findPath(path.NamespacePrefix(), stripPrefix(name), explicit)
 	if node != nil {
+		if node.IsArray() && idx == -1 && lang == "" {
+			// use the default language or the first item
+			idx = 0
+			for i, v := range node.Nodes[0].Nodes {
+				if attr := v.GetAttr("", "lang"); len(attr) > 0 && attr[0].Value == xDefault {
+					idx = i
+					break
+				}
+			}
+		}
 		switch {
 		case idx > -1:
 			// drill two levels deep into array nodes bag/seq+li
@@ -446,13 +457,42 @@ func (n *Node) GetPath(path Path) (string, error) {
 		}
 	}
 
-	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
-		return attr[0].Value, nil
+	if attr != nil {
+		return attr.Value, nil
 	}
 	return "", nil
 }
 
+// Finds the child node or attribute a path segment refers to. Names of other
+// namespaces only match when the path does not name the namespace itself.
+func (n *Node) findPath(prefix, name string, explicit bool) (*Node, *Attr) {
+	full := prefix + ":" + name
+	for _, v := range n.Nodes {
+		if v.XMLName.Local == full {
+			return v, nil
+		}
+	}
+	for i := range n.Attr {
+		if n.Attr[i].Name.Local == full {
+			return nil, &n.Attr[i]
+		}
+	}
+	if explicit {
+		return nil, nil
+	}
+	if node := n.Nodes.FindNodeByName(name); node != nil {
+		return node, nil
+	}
+	for i := range n.Attr {
+		if stripPrefix(n.Attr[i].Name.Local) == name {
+			return nil, &n.Attr[i]
+		}
+	}
+	return nil, nil
+}
+
 func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
+	explicit := path.hasExplicitPrefix()
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
 	if idx < -1 || idx > maxPathIndex {
@@ -468,27 +508,30 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	}
 
 	// handle attribute
-	if idx == -1 && lang == "" && path.Len() == 0 {
-		for i := range n.Attr {
-			if stripPrefix(n.Attr[i].Name.Local) != stripPrefix(name) {
-				continue
-			}
-			switch {
-			case flags&REPLACE > 0 && value != "":
-				n.Attr[i].Value = value
-				return nil
-			case flags&DELETE > 0 && value == "":
-				n.Attr = append(n.Attr[:i], n.Attr[i+1:]...)
-				return nil
-			case value != "":
-				return fmt.Errorf("REPLACE flag required for overwriting value of '%s'", name)
+	node, attr := n.findPath(path.NamespacePrefix(), stripPrefix(name), explicit)
+	if attr != nil && idx == -1 && lang == "" && path.Len() == 0 {
+		switch {
+		case flags&REPLACE > 0 && value != "":
+			attr.Value = value
+			return nil
+		case flags&DELETE > 0 && value == "":
+			for i := range n.Attr {
+				if &n.Attr[i] == attr {
+					n.Attr = append(n.Attr[:i], n.Attr[i+1:]...)
+					break
+				}
 			}
-			break
+			return nil
+		case value != "":
+			return fmt.Errorf("REPLACE flag required for overwriting value of '%s'", name)
 		}
 	}
 
+	if attr != nil {
+		return fmt.Errorf("'%s' is a simple value", name)
+	}
+
 	// handle nodes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
 	if node == nil {
 		if flags&CREATE > 0 && value != "" {
 			if name != "" && !hasPrefix(name) {
@@ -499,11 +542,27 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 			return fmt.Errorf("CREATE flag required to make node '%s'", name)
 		}
 	}
+	if node.IsArray() && node.ArrayType() == ArrayTypeAlternative && idx == -1 && lang == "" && path.Len() == 0 {
+		switch {
+		case value == "" && flags&DELETE > 0:
+			// remove all languages
+			node.Clear()
+			return nil
+		case value != "" && flags&(UNIQUE|APPEND) == 0 && flags&(REPLACE|CREATE) > 0:
+			// replace all languages with a new default
+			node.Nodes[0].Clear()
+			flags |= CREATE
+		}
+		lang = xDefault
+	}
 	switch {
 	case idx > -1 || (node.IsArray() && lang == ""):
-		arr := node.Nodes.FindNodeByName("Seq")
-		if arr == nil {
-			arr = node.Nodes.FindNodeByName("Bag")
+		var arr *Node
+		if node.IsArray() {
+			arr = node.Nodes[0]
+		}
+		if arr == nil && (node.Value != "" || len(node.Nodes) > 0) {
+			return fmt.Errorf("'%s' is not an array", name)
 		}
 		if arr == nil && flags&CREATE == 0 {
 			return fmt.Errorf("CREATE flag required to make array '%s'", name)
@@ -576,6 +635,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	// AltString array
 	case lang != "":
 		arr := node.Nodes.FindNodeByName("Alt")
+		if arr == nil && (node.Value != "" || len(node.Nodes) > 0) {
+			return fmt.Errorf("'%s' has no languages", name)
+		}
 		if arr == nil && flags&(CREATE|APPEND) == 0 {
 			return fmt.Errorf("CREATE flag required to extend array '%s'", name)
 		}
@@ -649,8 +711,14 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 
 	default:
 		if path.Len() > 0 {
+			if node.Value != "" {
+				return fmt.Errorf("'%s' is not a structure", name)
+			}
 			return node.SetPath(path, value, flags)
 		}
+		if value != "" && len(node.Nodes) > 0 {
+			return fmt.Errorf("'%s' is a structure", name)
+		}
 		// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name)
 		switch {
 		case flags&REPLACE == 0 && value != "" && node.Value != "":
diff --git a/xmp/path.go b/xmp/path.go
index 59674e2..0e09da4 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -227,6 +227,12 @@ func (x Path) PopFront() (string, Path) {
 	}
 }
 
+// tells if the first segment names its namespace
+func (x Path) hasExplicitPrefix() bool {
+	f := x.Fields()
+	return len(f) > 0 && hasPrefix(f[0])
+}
+
 func (x Path) PeekNamespacePrefix() string {
 	switch f := x.Fields(); len(f) {
 	case 0:
-- 
2.43.0


From 64ab87932bf6b33ef0928567df9bd03ff4adbd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:57 +0000
Subject: [PATCH 056/130] fix: setting existing array items, arrays and
 languages by path without the replace flag

---
 xmp/node.go | 12 ++++++++++++
 xmp/path.go | 15 +++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/xmp/node.go b/xmp/node.go
index 2453c18..07e4b8a 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -550,6 +550,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 			return nil
 		case value != "" && flags&(UNIQUE|APPEND) == 0 && flags&(REPLACE|CREATE) > 0:
 			// replace all languages with a new default
+			if flags&REPLACE == 0 && len(node.Nodes[0].Nodes) > 0 {
+				return fmt.Errorf("REPLACE flag required for overwriting value of '%s'", name)
+			}
 			node.Nodes[0].Clear()
 			flags |= CREATE
 		}
@@ -606,6 +609,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 
 		case flags&(REPLACE|CREATE) > 0 && value != "" && idx == -1:
 			// replace the entire xmp array
+			if flags&REPLACE == 0 && len(arr.Nodes) > 0 {
+				return fmt.Errorf("REPLACE flag required for overwriting value of '%s'", name)
+			}
 			arr.Clear()
 			li := arr.AppendNode(NewNode(NewName("rdf:li")))
 			li.Value = value
@@ -617,6 +623,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 					arr.AppendNode(NewNode(NewName("rdf:li")))
 				}
 			}
+			if flags&REPLACE == 0 && !arr.Nodes[idx].IsZero() {
+				return fmt.Errorf("REPLACE flag required for overwriting value of '%s'", name)
+			}
 			arr.Nodes[idx].Value = value
 
 		case flags&DELETE > 0 && value == "" && idx == -1:
@@ -671,6 +680,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 			for _, v := range arr.Nodes {
 				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
 					if attr[0].Value == lang {
+						if flags&REPLACE == 0 && v.Value != "" {
+							return fmt.Errorf("REPLACE flag required for overwriting value of '%s'", name)
+						}
 						v.Value = value
 						return nil
 					}
diff --git a/xmp/path.go b/xmp/path.go
index 0e09da4..f457e03 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -764,6 +764,13 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					}
 				}
 
+				// existing values require the replace flag
+				if flags&(UNIQUE|APPEND|REPLACE) == 0 && value != "" {
+					if lang == "" && len(*arr) > 0 || arr.Index(lang) > -1 {
+						return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
+					}
+				}
+
 				switch {
 				case flags&UNIQUE > 0 && value != "":
 					// append source when not exist
@@ -787,6 +794,8 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					} else {
 						fv.Set(reflect.Zero(fv.Type()))
 					}
+				default:
+					return fmt.Errorf("unsupported flag combination %v", flags)
 				}
 				return nil
 
@@ -935,6 +944,9 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 				case flags&(REPLACE|CREATE) > 0 && value != "" && idx > -1:
 					// replace or create slice element at index
+					if flags&REPLACE == 0 && idx < fv.Len() && !isEmptyValue(fv.Index(idx)) {
+						return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
+					}
 					v := reflect.New(fv.Type().Elem())
 					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
 						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
@@ -950,6 +962,9 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 				case flags&(REPLACE|CREATE) > 0 && value != "" && idx == -1:
 					// replace entire slice with a single element
+					if flags&REPLACE == 0 && fv.Len() > 0 {
+						return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
+					}
 					v := reflect.New(fv.Type().Elem())
 					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
 						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-- 
2.43.0


From 31c1d77c5dfeb8f5ba188f42e78ca51d6a34721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 057/130] fix: refused values by path created empty models and
 marked documents as changed

---
 xmp/path.go | 53 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index f457e03..c54f36a 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -469,13 +469,44 @@ func (d *Document) SetPath(desc PathValue) error {
 		}
 	}
 
+	// empty source will only be used with delete flag
+	if value == "" && flags&DELETE == 0 {
+		if flags&NOFAIL > 0 {
+			return nil
+		}
+		return fmt.Errorf("xmp: delete flag required for empty '%s'", path.String())
+	}
+
+	// delete model when only namespace is set
+	if path.Len() == 0 && flags&DELETE > 0 {
+		d.RemoveNamespace(ns)
+		return nil
+	}
+
 	m := d.FindModel(ns)
 	n := d.FindNode(ns)
-	if m == nil && n == nil && flags&CREATE == 0 {
-		if flags&NOFAIL > 0 {
+	if m == nil && n == nil {
+		if value == "" {
+			// nothing to delete
 			return nil
 		}
-		return fmt.Errorf("xmp: create flag required to make model for '%s'", path.String())
+		if flags&CREATE == 0 {
+			if flags&NOFAIL > 0 {
+				return nil
+			}
+			return fmt.Errorf("xmp: create flag required to make model for '%s'", path.String())
+		}
+	}
+
+	// drop new models and nodes again when the value cannot be set
+	changed := false
+	if m == nil && n == nil {
+		nodes, dirty := d.nodes, d.dirty
+		defer func() {
+			if !changed {
+				d.nodes, d.dirty = nodes, dirty
+			}
+		}()
 	}
 	if m == nil {
 		m = ns.NewModel()
@@ -487,20 +518,6 @@ func (d *Document) SetPath(desc PathValue) error {
 		n = d.nodes.AddNode(NewNode(ns.RootName()))
 	}
 
-	// empty source will only be used with delete flag
-	if value == "" && flags&DELETE == 0 {
-		if flags&NOFAIL > 0 {
-			return nil
-		}
-		return fmt.Errorf("xmp: delete flag required for empty '%s'", path.String())
-	}
-
-	// delete model when only namespace is set
-	if path.Len() == 0 && flags&DELETE > 0 {
-		d.RemoveNamespace(ns)
-		return nil
-	}
-
 	// get current version of path value
 	var dest string
 	if m != nil {
@@ -515,6 +532,7 @@ func (d *Document) SetPath(desc PathValue) error {
 
 	// skip when equal
 	if dest == value {
+		changed = true
 		return nil
 	}
 
@@ -542,6 +560,7 @@ func (d *Document) SetPath(desc PathValue) error {
 		err = n.SetPath(path, value, flags)
 	}
 	if err == nil {
+		changed = true
 		d.SetDirty()
 		if value == "" && path.Len() == 1 {
 			name := path.property()
-- 
2.43.0


From 08da1c8c1b27a086a475bf0e5f9156bc527e7514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 058/130] fix: values that could not be set by path left empty
 items and nodes behind

---
 xmp/node.go | 14 +++++++++++++-
 xmp/path.go | 25 +++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 07e4b8a..10c94ac 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -491,7 +491,7 @@ func (n *Node) findPath(prefix, name string, explicit bool) (*Node, *Attr) {
 	return nil, nil
 }
 
-func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
+func (n *Node) SetPath(path Path, value string, flags SyncFlags) (err error) {
 	explicit := path.hasExplicitPrefix()
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
@@ -538,6 +538,12 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 				name = path.NamespacePrefix() + ":" + name
 			}
 			node = n.AddNode(NewNode(NewName(name)))
+			defer func() {
+				// do not keep what could not be set
+				if err != nil {
+					n.RemoveNode(node)
+				}
+			}()
 		} else {
 			return fmt.Errorf("CREATE flag required to make node '%s'", name)
 		}
@@ -583,6 +589,12 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 				if flags&(CREATE|APPEND) == 0 && value != "" {
 					return fmt.Errorf("CREATE flag required to extend array '%s'", name)
 				}
+				items := arr.Nodes
+				defer func() {
+					if err != nil {
+						arr.Nodes = items
+					}
+				}()
 				for ; l <= idx; l++ {
 					arr.AppendNode(NewNode(NewName("rdf:li")))
 				}
diff --git a/xmp/path.go b/xmp/path.go
index c54f36a..051c534 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -576,7 +576,22 @@ func (d *Document) SetPath(desc PathValue) error {
 	return err
 }
 
-func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
+func SetModelPath(v Model, path Path, value string, flags SyncFlags) (err error) {
+	// a value that cannot be set leaves nothing behind
+	var undo []func()
+	restore := func(v reflect.Value) {
+		old := reflect.New(v.Type()).Elem()
+		old.Set(v)
+		undo = append(undo, func() { v.Set(old) })
+	}
+	defer func() {
+		if err != nil {
+			for i := len(undo) - 1; i >= 0; i-- {
+				undo[i]()
+			}
+		}
+	}()
+
 	if flags == 0 {
 		flags = DEFAULT
 	}
@@ -607,6 +622,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			return nil
 		}
 		if fv.Type().Kind() == reflect.Ptr && fv.IsNil() && fv.CanSet() {
+			restore(fv)
 			fv.Set(reflect.New(fv.Type().Elem()))
 		}
 		fv = derefValue(fv)
@@ -698,6 +714,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 				// add empty nodes up to idx if necessary
 				if l := len(*arr); l <= idx {
+					restore(reflect.ValueOf(arr).Elem())
 					if flags&(CREATE|APPEND) == 0 && value != "" {
 						return fmt.Errorf("CREATE flag required to add extension %s on path %s", name, path)
 					}
@@ -717,6 +734,8 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					node = ext.FindNodeByName(name)
 					if node == nil {
 						node = (*Node)(ext).AddNode(NewNode(NewName(name)))
+						added := node
+						undo = append(undo, func() { (*Node)(ext).RemoveNode(added) })
 						if ns, err := GetNamespace(name); err == nil {
 							node.Model = ns.NewModel()
 						}
@@ -735,6 +754,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					child := node.Nodes.FindNodeByName(name)
 					if child == nil {
 						child = node.AddNode(NewNode(NewName(name)))
+						undo = append(undo, func() { node.RemoveNode(child) })
 					}
 					if child.Model == nil {
 						if ns, err := GetNamespace(name); err == nil {
@@ -764,6 +784,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					}
 					node = NewNode(NewName(name))
 					ext := (*Extension)(node)
+					restore(fv)
 					fv.Set(reflect.Append(fv, reflect.ValueOf(ext)))
 				}
 				// store as child node
@@ -841,7 +862,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 						}
 
 						// add empty items up to idx
-						// FIXME: when an error occurs later on, we cannot remove slice entry
+						restore(fv)
 						growSlice(fv, idx)
 						val = reflect.New(fv.Type().Elem())
 						fv.Index(idx).Set(val.Elem())
-- 
2.43.0


From 04162a1a0239ad7cee707cd146617a81bb687acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 059/130] fix: listed paths of nested unknown properties named
 another namespace when set

---
 xmp/node.go |  4 ++--
 xmp/path.go | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 10c94ac..6532d03 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -795,7 +795,7 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 				continue
 			}
 			name := a.Name.Local
-			if hasPrefix(name) && getPrefix(name) == path.NamespacePrefix() {
+			if hasPrefix(name) && path.impliesPrefix(getPrefix(name)) {
 				name = stripPrefix(name)
 			}
 			l = append(l, PathValue{
@@ -808,7 +808,7 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 				continue
 			}
 			name := v.Name()
-			if v.Namespace() != path.NamespacePrefix() {
+			if !path.impliesPrefix(v.Namespace()) {
 				name = v.FullName()
 			}
 			r, err := v.ListPaths(path.Push(name))
diff --git a/xmp/path.go b/xmp/path.go
index 051c534..9dade9b 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -34,6 +34,11 @@ type PathValue struct {
 
 type PathValueList []PathValue
 
+// tells if the value is the default of an alternative
+func (x PathValue) isDefaultLang() bool {
+	return strings.HasSuffix(string(x.Path), "["+xDefault+"]")
+}
+
 func (x *PathValueList) Add(p Path, v string) {
 	if v == "" {
 		return
@@ -233,6 +238,17 @@ func (x Path) hasExplicitPrefix() bool {
 	return len(f) > 0 && hasPrefix(f[0])
 }
 
+// tells if another segment without prefix belongs to this namespace
+func (x Path) impliesPrefix(prefix string) bool {
+	f := x.Fields()
+	for i := len(f) - 1; i >= 0; i-- {
+		if hasPrefix(f[i]) {
+			return prefix == getPrefix(f[i]) && prefix == x.NamespacePrefix()
+		}
+	}
+	return prefix == x.NamespacePrefix()
+}
+
 func (x Path) PeekNamespacePrefix() string {
 	switch f := x.Fields(); len(f) {
 	case 0:
-- 
2.43.0


From 69e45d439a052648062702cdf3266d03e057bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 060/130] fix: merge documents that use different prefixes for
 unknown namespaces

---
 xmp/sync.go | 58 ++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/xmp/sync.go b/xmp/sync.go
index 588833e..a9abaa7 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -60,6 +60,8 @@ package xmp
 
 import (
 	"fmt"
+	"sort"
+	"strconv"
 	"strings"
 )
 
@@ -257,12 +259,30 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 	for n, v := range b.intNsMap {
 		d.intNsMap[n] = v
 	}
+	prefixes := make(map[string]string)
 	for n, v := range b.extNsMap {
-		d.extNsMap[n] = v
+		if ns := d.findNsByURI(n); ns != nil {
+			// known here, but maybe by another prefix
+			prefixes[v.GetName()] = ns.GetName()
+			continue
+		}
+		// keep namespaces with equal prefix apart
+		name := v.GetName()
+		for i := 1; d.findNsByPrefix(name) != nil || i > 1 && b.findNsByPrefix(name) != nil; i++ {
+			name = v.GetName() + strconv.Itoa(i)
+		}
+		prefixes[v.GetName()] = name
+		d.extNsMap[n] = &Namespace{name, n, v.Factory}
 	}
 
+	// defaults come first because other languages may take their place
+	sort.SliceStable(p, func(i, j int) bool {
+		return p[i].isDefaultLang() && !p[j].isDefaultLang()
+	})
+
 	// copy content
 	for _, v := range p {
+		v.Path = b.mergePath(v.Path, prefixes)
 		v.Flags = flags
 		if err := d.SetPath(v); err != nil {
 			return err
@@ -272,3 +292,39 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 	d.SetDirty()
 	return nil
 }
+
+// translates the prefixes in a path to those used by another document
+func (d *Document) mergePath(path Path, prefixes map[string]string) Path {
+	translate := func(prefix string) string {
+		if v, ok := prefixes[prefix]; ok {
+			return v
+		}
+		return prefix
+	}
+
+	// names in models are unique
+	raw := true
+	if ns, err := path.Namespace(d); err == nil {
+		if m := d.FindModel(ns); m != nil {
+			_, err := GetModelPath(m, path)
+			raw = err == errNotFound
+		}
+	}
+
+	prefix := path.NamespacePrefix()
+	fields := path.Fields()
+	for i, v := range fields {
+		name, rest := v, ""
+		if j := strings.Index(v, "["); j >= 0 {
+			name, rest = v[:j], v[j:]
+		}
+		switch {
+		case hasPrefix(name):
+			prefix = getPrefix(name)
+			fields[i] = translate(prefix) + ":" + stripPrefix(name) + rest
+		case raw && i > 0 && name != "":
+			fields[i] = translate(prefix) + ":" + name + rest
+		}
+	}
+	return NewPath(translate(path.NamespacePrefix()), fields...)
+}
-- 
2.43.0


From cc8b4761bf8fd5e0d4dc849cf05fd265785c3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 061/130] fix: saving ID3 v2.3 recording dates panicked

---
 models/id3/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 1621a9e..2626e01 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -169,7 +169,7 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.RecordingTime.IsZero() && !x.Date_v23.IsZero() && !x.Time_v23.IsZero() {
 		_, mm, dd := x.Date_v23.Value().Date()
 		h, m, s := x.Time_v23.Value().Clock()
-		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, nil))
+		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, time.UTC))
 	}
 	if !x.RecordingTime.IsZero() {
 		base, err := xmpbase.MakeModel(d)
-- 
2.43.0


From 8a53359df964fe8cf0320405aa901f45ff3b8ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 062/130] fix: Sync failed for array items that do not exist
 yet

---
 xmp/sync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/sync.go b/xmp/sync.go
index a9abaa7..c50956d 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -207,6 +207,10 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return err
 	}
 	dValue, err := GetModelPath(dModel, dPath)
+	if err == errNotFound {
+		// items that do not exist yet are created below
+		dValue, err = "", nil
+	}
 	if err != nil {
 		if flags&NOFAIL > 0 {
 			return nil
-- 
2.43.0


From 394929d3033720eecdce4f1ef273c6d3f959794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 063/130] fix: collect the identifiers of QuickTime user data

---
 models/xmp_base/model.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/xmp_base/model.go b/models/xmp_base/model.go
index c630a32..d103ec4 100644
--- a/models/xmp_base/model.go
+++ b/models/xmp_base/model.go
@@ -93,10 +93,10 @@ var identifierDesc = xmp.SyncDescList{
 	&xmp.SyncDesc{"iXML:fileUid", "xmp:Identifier", xmp.MERGE, prefixer("uuid:ixml")},
 	&xmp.SyncDesc{"qt:mdta/ContentIdentifier", "xmp:Identifier", xmp.MERGE, prefixer("uuid:cid")},
 	&xmp.SyncDesc{"iTunes:StoreFrontID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:sfid")},
-	&xmp.SyncDesc{"qt:GUID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:guid")},
-	&xmp.SyncDesc{"qt:ISRCCode", "xmp:Identifier", xmp.MERGE, prefixer("uuid:isrc")},
-	&xmp.SyncDesc{"qt:ContentID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:cid")},
-	&xmp.SyncDesc{"qt:ClipID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:clipid")},
+	&xmp.SyncDesc{"qt:udta/GUID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:guid")},
+	&xmp.SyncDesc{"qt:udta/ISRCCode", "xmp:Identifier", xmp.MERGE, prefixer("uuid:isrc")},
+	&xmp.SyncDesc{"qt:udta/ContentID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:cid")},
+	&xmp.SyncDesc{"qt:udta/ClipID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:clipid")},
 	&xmp.SyncDesc{"qt:proapps/ClipID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:clipid")},
 	&xmp.SyncDesc{"bext:umid", "xmp:Identifier", xmp.MERGE, prefixer("umid:smpte")},
 	&xmp.SyncDesc{"id3:podcastID", "xmp:Identifier", xmp.MERGE, prefixer("uuid:podcast")},
-- 
2.43.0


From d75f5d5eb3233fb63cd678c79340cc96c341376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 064/130] fix: properties deleted by Sync reappeared from
 copies in other models

---
 xmp/document.go | 11 +++++++++++
 xmp/path.go     |  7 ++-----
 xmp/sync.go     |  3 +++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/xmp/document.go b/xmp/document.go
index 4fc3f65..697bfce 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -235,6 +235,17 @@ func (d *Document) clearCopies(match func(name string) bool) {
 	}
 }
 
+// Clears the copies of a property that has been deleted by path.
+func (d *Document) clearDeleted(path Path) {
+	if path.Len() != 1 {
+		return
+	}
+	name := path.property()
+	if v, err := d.GetPath(name); err != nil || v == "" {
+		d.clearCopies(func(v string) bool { return v == name.String() })
+	}
+}
+
 func (d *Document) RemoveNamespaceByName(n string) bool {
 	ns := d.findNsByPrefix(n)
 	return d.RemoveNamespace(ns)
diff --git a/xmp/path.go b/xmp/path.go
index 9dade9b..34efb9a 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -578,11 +578,8 @@ func (d *Document) SetPath(desc PathValue) error {
 	if err == nil {
 		changed = true
 		d.SetDirty()
-		if value == "" && path.Len() == 1 {
-			name := path.property()
-			if v, err := d.GetPath(name); err != nil || v == "" {
-				d.clearCopies(func(v string) bool { return v == name.String() })
-			}
+		if value == "" {
+			d.clearDeleted(path)
 		}
 	}
 
diff --git a/xmp/sync.go b/xmp/sync.go
index c50956d..27ffdd6 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -250,6 +250,9 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return err
 	}
 	d.SetDirty()
+	if sValue == "" {
+		d.clearDeleted(dPath)
+	}
 	return nil
 }
 
-- 
2.43.0


From 56e94a1f4aba4a4f70f11a827da7926b51117ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 065/130] fix: ListNativeFields and GetLocaleField panicked on
 fields of other types

---
 xmp/native.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index b9c579d..501db93 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -228,7 +228,7 @@ func GetLocaleField(v Model, lang string, name string) (string, error) {
 
 	f := finfo.value(val)
 
-	if f.Kind() != reflect.Slice && f.Type().Elem() != reflect.TypeOf(AltItem{}) {
+	if f.Kind() != reflect.Slice || f.Type().Elem() != reflect.TypeOf(AltItem{}) {
 		return "", fmt.Errorf("field '%s' must be of type AltString, found %s (%s)", name, f.Type().String(), f.Kind())
 	}
 
@@ -285,7 +285,7 @@ func ListNativeFields(v Model) (TagList, error) {
 		}
 
 		// Check for text marshaler and marshal as node value
-		if fv.CanInterface() && typ.Implements(textMarshalerType) {
+		if fv.CanInterface() && fv.Type().Implements(textMarshalerType) {
 			b, err := fv.Interface().(encoding.TextMarshaler).MarshalText()
 			if err != nil {
 				return nil, err
@@ -332,7 +332,7 @@ func ListNativeFields(v Model) (TagList, error) {
 
 		// simple values are just fine, but any other type (slice, array, struct)
 		// without textmarshaler will fail here
-		if s, b, err := marshalSimple(typ, fv); err != nil {
+		if s, b, err := marshalSimple(fv.Type(), fv); err != nil {
 			return nil, err
 		} else {
 			if b != nil {
-- 
2.43.0


From 234ace9dba7a60669b76c09e9e59eb592d5c9e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 066/130] fix: documents could not be written after removing a
 namespace that nested properties use

---
 xmp/document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/document.go b/xmp/document.go
index 697bfce..0e7742d 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -196,8 +196,8 @@ func (d *Document) RemoveNamespace(ns *Namespace) bool {
 		if v.Name() == name {
 			d.nodes = append(d.nodes[:i], d.nodes[i+1:]...)
 			removed = true
+			// keep external namespaces, nested properties may still use them
 			delete(d.intNsMap, ns.GetURI())
-			delete(d.extNsMap, ns.GetURI())
 			v.Close()
 			d.SetDirty()
 			break
-- 
2.43.0


From f4487ab8d68f2b422816794fcab5f45be27d9661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 067/130] fix: Bool and SplitInt could not read the JSON they
 write

---
 xmp/units.go     | 7 +++++++
 xmp/xmp_types.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/xmp/units.go b/xmp/units.go
index 3c732dc..45b3e82 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -130,6 +130,13 @@ func (x *SplitInt) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x *SplitInt) UnmarshalJSON(data []byte) error {
+	if string(data) == "null" {
+		return nil
+	}
+	return x.UnmarshalText(bytes.Trim(data, "\""))
+}
+
 // String
 type NullString string
 
diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index a2dbdc3..accde03 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -86,6 +86,13 @@ func (x Bool) MarshalJSON() ([]byte, error) {
 	return json.Marshal(x.Value())
 }
 
+func (x *Bool) UnmarshalJSON(data []byte) error {
+	if string(data) == "null" {
+		return nil
+	}
+	return x.UnmarshalText(bytes.Trim(data, "\""))
+}
+
 // 8.2.1.2 Date
 type Date time.Time
 
-- 
2.43.0


From 2ef404c1730f4b5df30e5d394368d78f15d935d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 068/130] fix: dates lost their fraction of a second when
 written

---
 xmp/xmp_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index accde03..6b9eeac 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -113,7 +113,7 @@ func (x Date) Value() time.Time {
 }
 
 func (x Date) String() string {
-	return time.Time(x).Format(time.RFC3339)
+	return time.Time(x).Format(time.RFC3339Nano)
 }
 
 func (x Date) IsZero() bool {
-- 
2.43.0


From c3af4920ae805f4b0d83c31c8d4442bcaa645427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 069/130] fix: dates with a zone like -0700 were refused

---
 xmp/xmp_types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 6b9eeac..e6f000a 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -181,7 +181,9 @@ func repairTZ(value string) string {
 	a, b, c := value[l-5], value[l-2], value[l-6]
 	switch a {
 	case '+', '-', 'Z':
-		return value[:l-4] + "0" + value[l-4:]
+		if value[l-3] == ':' {
+			return value[:l-4] + "0" + value[l-4:]
+		}
 	}
 	switch b {
 	case '+', '-', 'Z':
-- 
2.43.0


From 92ca392d889836e40baaa89b69190215cd13e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 070/130] fix: exponents of numbers like 1.5E3 were read as
 digits

---
 xmp/units.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/units.go b/xmp/units.go
index 45b3e82..50881bc 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -326,7 +326,7 @@ func (f NullFloat) Value() float64 {
 	return float64(f)
 }
 
-var cleanFloat = regexp.MustCompile("[^0-9e.+-]")
+var cleanFloat = regexp.MustCompile("[^0-9eE.+-]")
 
 func ParseNullFloat(d string) (NullFloat, error) {
 	switch strings.ToLower(d) {
-- 
2.43.0


From 4c23fdccc7c389462fd2bad6af3502d815cccc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 071/130] fix: negative decimals were read as rationals with a
 negative denominator

---
 xmp/xmp_types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index e6f000a..558841b 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -572,6 +572,9 @@ func FloatToRational(f float32) Rational {
 	}
 	nom := int64(f*float32(den) + rnd)
 	g := gcd(nom, den)
+	if g < 0 {
+		g = -g
+	}
 	return Rational{nom / g, den / g}
 }
 
-- 
2.43.0


From e0678e1b39bc36e7c6ee8b2f877bc0d80487f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 072/130] fix: frame counts of zero lost their rate in text

---
 models/xmp_dm/types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 74fe44a..ab8e0dd 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -233,10 +233,10 @@ func (x *FrameCount) UnmarshalText(data []byte) error {
 }
 
 func (x FrameCount) String() string {
-	switch x.Count {
-	case 0:
+	switch {
+	case x.Count == 0 && (x.Rate.IsZero() || x.Rate == FrameRate{1, 1}):
 		return "0"
-	case -1:
+	case x.Count == -1:
 		return "maximum"
 	default:
 		buf := bytes.Buffer{}
-- 
2.43.0


From 4336d66fe9b24f997e87782862457cc32c3cb2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 073/130] fix: ID3 TDAT dates were read and written as month
 and day, not day and month

---
 models/id3/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index b995da3..b12af0b 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -35,7 +35,7 @@ import (
 
 const (
 	TIME_FORMAT_23 = "1504" // HHMM
-	DATE_FORMAT_23 = "0102" // DDMM
+	DATE_FORMAT_23 = "0201" // DDMM
 )
 
 type Bool int // 0 no, 1 yes
-- 
2.43.0


From 9c167c76bd89a139f1634cce2d8d8f62d68a5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 074/130] fix: numbers above 255 were taken as other ID3 genres

---
 models/id3/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index b12af0b..8d407d2 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -135,7 +135,7 @@ func ParseGenreV1(s string) (GenreV1, error) {
 			return i, nil
 		}
 	}
-	if t, err := strconv.Atoi(s); err == nil {
+	if t, err := strconv.ParseUint(s, 10, 8); err == nil {
 		return GenreV1(t), nil
 	}
 	return 0xff, fmt.Errorf("id3: invalid genre '%s'", s)
-- 
2.43.0


From 244daadd66ef2765ee2269abe524fb584752ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 075/130] fix: an empty video frame rate was read as 1 fps

---
 models/xmp_dm/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index ab8e0dd..aed27e9 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -288,6 +288,10 @@ func (x *CuePointParamArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.
 type VideoFrameRate float64
 
 func (x *VideoFrameRate) UnmarshalText(data []byte) error {
+	if len(data) == 0 {
+		return nil
+	}
+
 	// try detecting supported strings
 	switch strings.ToUpper(string(data)) {
 	case "NTSC":
-- 
2.43.0


From ec2d9c7ea3a13909daa3779096ad43846167c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 076/130] fix: rationals without a value were written to XML as
 0/0

---
 xmp/xmp_types.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 558841b..569a630 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -39,6 +39,7 @@ package xmp
 import (
 	"bytes"
 	"encoding/json"
+	"encoding/xml"
 	"fmt"
 	"math"
 	"strconv"
@@ -546,6 +547,14 @@ func (x Rational) MarshalText() ([]byte, error) {
 	return []byte(x.String()), nil
 }
 
+// Absent values are left out of XML instead of written as 0/0.
+func (x Rational) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	if x.IsZero() {
+		return nil
+	}
+	return e.EncodeElement(x.String(), start)
+}
+
 func gcd(x, y int64) int64 {
 	for y != 0 {
 		x, y = y, x%y
-- 
2.43.0


From 051ba3d39e25abcbc0b02f74244dd45ae0526591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 077/130] fix: text of private iXML elements was lost in XMP
 and their rdf:parseType was written twice

---
 xmp/xmp_ext.go | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 921e8a0..d71a079 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -16,6 +16,7 @@ package xmp
 
 import (
 	"encoding/xml"
+	"strings"
 )
 
 // Raw nodes are used to keep custom data models inside a container. This
@@ -183,22 +184,53 @@ func (x *NamedExtensionArray) FindNodeByName(name string) *Node {
 
 func (x NamedExtensionArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
 	for _, v := range x {
-		ext := NewNode(NewName(v.XMLName.Local))
-		ext.AddAttr(rdfResourceAttr)
-		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
-		ext.Attr = append(ext.Attr, v.Attr...)
+		ext := copyNode((*Node)(v))
+		ext.XMLName = NewName(v.XMLName.Local)
+		ext.addResourceAttr()
 		node.AddNode(ext)
 	}
 	return nil
 }
 
+// Marks nodes that contain properties as structures.
+func (n *Node) addResourceAttr() {
+	if len(n.Nodes) == 0 {
+		if n.Value == "" {
+			n.AddAttr(rdfResourceAttr)
+		}
+		return
+	}
+	if !strings.HasPrefix(n.Nodes[0].XMLName.Local, "rdf:") {
+		n.AddAttr(rdfResourceAttr)
+	}
+	for _, v := range n.Nodes {
+		if len(v.Nodes) > 0 {
+			v.addResourceAttr()
+		}
+	}
+}
+
+// Reverts addResourceAttr.
+func (n *Node) delResourceAttr() {
+	attr := n.Attr[:0]
+	for _, v := range n.Attr {
+		if v != rdfResourceAttr {
+			attr = append(attr, v)
+		}
+	}
+	n.Attr = attr
+	for _, v := range n.Nodes {
+		v.delResourceAttr()
+	}
+}
+
 func (x *NamedExtensionArray) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 	for _, v := range node.Nodes {
 		v.translate(d)
-		ext := (*Extension)(NewNode(NewName(v.XMLName.Local)))
-		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
-		ext.Attr = append(ext.Attr, v.Attr...)
-		*x = append(*x, ext)
+		ext := copyNode(v)
+		ext.XMLName = NewName(v.XMLName.Local)
+		ext.delResourceAttr()
+		*x = append(*x, (*Extension)(ext))
 	}
 	return nil
 }
-- 
2.43.0


From 55966abb804d27057faeb26a3a1258b4c78d6996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 078/130] fix: iXML chunks without a sample rate set an audio
 sample rate of 1 Hz

---
 models/ixml/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index e33c483..60fd1eb 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -138,8 +138,8 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 		if tc := x.Speed.XmpTimecode(); !tc.IsZero() {
 			dm.StartTimecode = tc
 		}
-		if r := x.Speed.FileSampleRate.Value(); r != 0 {
-			dm.AudioSampleRate = r
+		if r := x.Speed.FileSampleRate; !r.IsZero() && r.Value() != 0 {
+			dm.AudioSampleRate = r.Value()
 		}
 	}
 	return nil
-- 
2.43.0


From f8b6b3630dc4ab732eed9da078cbe239a8bc8040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 079/130] fix: empty iXML lists were read as lists of one empty
 word

---
 models/ixml/enum.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/models/ixml/enum.go b/models/ixml/enum.go
index f36ccc9..9671e2d 100644
--- a/models/ixml/enum.go
+++ b/models/ixml/enum.go
@@ -104,10 +104,11 @@ func (x TakeTypeList) MarshalText() ([]byte, error) {
 }
 
 func (x *TakeTypeList) UnmarshalText(data []byte) error {
-	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
+	if len(data) == 0 {
+		*x = nil
 		return nil
 	}
+	fields := strings.Split(string(data), ",")
 	ttl := make(TakeTypeList, len(fields))
 	for i, v := range fields {
 		ttl[i] = ParseTakeType(v)
@@ -169,10 +170,11 @@ func (x LocationTypeList) MarshalText() ([]byte, error) {
 }
 
 func (x *LocationTypeList) UnmarshalText(data []byte) error {
-	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
+	if len(data) == 0 {
+		*x = nil
 		return nil
 	}
+	fields := strings.Split(string(data), ",")
 	ttl := make(LocationTypeList, len(fields))
 	for i, v := range fields {
 		ttl[i] = ParseLocationType(v)
@@ -261,10 +263,11 @@ func (x LocationTimeList) MarshalText() ([]byte, error) {
 }
 
 func (x *LocationTimeList) UnmarshalText(data []byte) error {
-	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
+	if len(data) == 0 {
+		*x = nil
 		return nil
 	}
+	fields := strings.Split(string(data), ",")
 	ttl := make(LocationTimeList, len(fields))
 	for i, v := range fields {
 		ttl[i] = ParseLocationTime(v)
-- 
2.43.0


From 578e65c99caa8435b86b011c6a5a71eb592bb604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 080/130] fix: the iXML function X-X_Y had a trailing blank

---
 models/ixml/enum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/ixml/enum.go b/models/ixml/enum.go
index 9671e2d..ff37eae 100644
--- a/models/ixml/enum.go
+++ b/models/ixml/enum.go
@@ -290,7 +290,7 @@ type FunctionType string
 const (
 	FunctionMS_M         FunctionType = "M-MID_SIDE"
 	FunctionMS_S         FunctionType = "S-MID_SIDE"
-	FunctionXY_X         FunctionType = "X-X_Y "
+	FunctionXY_X         FunctionType = "X-X_Y"
 	FunctionXY_Y         FunctionType = "Y-X_Y"
 	FunctionMix_L        FunctionType = "L-MIX"
 	FunctionMix_R        FunctionType = "R-MIX"
-- 
2.43.0


From df8489b8830b71b4b3e7ff663c0afbae4e314d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 081/130] fix: deleting from a copy of an iXML function set
 changed the set

---
 models/ixml/enum.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/ixml/enum.go b/models/ixml/enum.go
index ff37eae..c19466e 100644
--- a/models/ixml/enum.go
+++ b/models/ixml/enum.go
@@ -399,7 +399,8 @@ func (x *FunctionSet) Del(t FunctionType) {
 		}
 	}
 	if idx > -1 {
-		*x = append((*x)[:idx], (*x)[idx+1:]...)
+		// don't change the array, it may be shared with one of the sets above
+		*x = append(append(FunctionSet{}, (*x)[:idx]...), (*x)[idx+1:]...)
 	}
 }
 
-- 
2.43.0


From 7f95502262ca7c41bd9ef4fede07ab88f45823f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 082/130] fix: QuickTime user data, metadata, player, iXML and
 XMP tags did not reach their parts

---
 models/qt/model.go | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 76ebc1b..9cbe132 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -54,6 +54,7 @@ package qt
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/trimmer-io/go-xmp/models/ixml"
 	"github.com/trimmer-io/go-xmp/xmp"
@@ -175,28 +176,28 @@ func (x QtInfo) SyncToXMP(d *xmp.Document) error {
 
 func (x *QtInfo) CanTag(tag string) bool {
 	switch {
-	case len(tag) == 4:
+	case tag == "XMP_" || tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
+		return true
+	case utf8.RuneCountInString(tag) == 4:
 		v := &QtUserdata{}
 		_, err := xmp.GetNativeField(v, tag)
 		return err == nil
-	case strings.HasPrefix("com.apple.quicktime.player", tag):
+	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
 		v := &QtPlayer{}
 		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.quicktime", tag):
+	case strings.HasPrefix(tag, "com.apple.quicktime"):
 		v := &QtMetadata{}
 		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.proapps", tag):
+	case strings.HasPrefix(tag, "com.apple.proapps"):
 		v := &QtProApps{}
 		return v.CanTag(tag)
-	case tag == "XMP_" || tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
-		return true
 	}
 	return false
 }
 
 func (x *QtInfo) GetTag(tag string) (string, error) {
 	switch {
-	case len(tag) == 4:
+	case utf8.RuneCountInString(tag) == 4:
 		if x.Udta == nil {
 			return "", nil
 		}
@@ -238,7 +239,21 @@ func (x *QtInfo) GetTag(tag string) (string, error) {
 
 func (x *QtInfo) SetTag(tag, value string) error {
 	switch {
-	case len(tag) == 4:
+	case tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
+		i := &ixml.IXML{}
+		if err := i.ParseXML([]byte(value)); err != nil {
+			return fmt.Errorf("%s: parsing ixml: %v", NsQuicktime.GetName(), err)
+		} else {
+			x.IXML = i
+		}
+	case tag == "XMP_":
+		v := xmp.NewDocument()
+		if err := xmp.Unmarshal([]byte(value), v); err != nil {
+			return fmt.Errorf("%s: parsing embedded xmp: %v", NsQuicktime.GetName(), err)
+		} else {
+			x.XMP = v
+		}
+	case utf8.RuneCountInString(tag) == 4:
 		if x.Udta == nil {
 			x.Udta = &QtUserdata{}
 		}
@@ -266,20 +281,6 @@ func (x *QtInfo) SetTag(tag, value string) error {
 		if err := xmp.SetNativeField(x.ProApps, tag, value); err != nil {
 			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
 		}
-	case tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
-		i := &ixml.IXML{}
-		if err := i.ParseXML([]byte(value)); err != nil {
-			return fmt.Errorf("%s: parsing ixml: %v", NsQuicktime.GetName(), err)
-		} else {
-			x.IXML = i
-		}
-	case tag == "XMP_":
-		v := xmp.NewDocument()
-		if err := xmp.Unmarshal([]byte(value), v); err != nil {
-			return fmt.Errorf("%s: parsing embedded xmp: %v", NsQuicktime.GetName(), err)
-		} else {
-			x.XMP = v
-		}
 	default:
 		// silently ignore all other sorts of tags
 	}
-- 
2.43.0


From de74611f7b91cf87a504a70a603aa96f2cae6b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 083/130] fix: one field without a text form made listing all
 native tags fail and QuickTime listed none

---
 models/qt/model.go | 16 ++++++++++++----
 xmp/native.go      |  4 ++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 9cbe132..45b5207 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -53,6 +53,7 @@ package qt
 
 import (
 	"fmt"
+	"reflect"
 	"strings"
 	"unicode/utf8"
 
@@ -288,9 +289,16 @@ func (x *QtInfo) SetTag(tag, value string) error {
 }
 
 func (x *QtInfo) ListTags() (xmp.TagList, error) {
-	if l, err := xmp.ListNativeFields(x); err != nil {
-		return nil, fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-	} else {
-		return l, nil
+	list := make(xmp.TagList, 0)
+	for _, v := range []xmp.Model{x.Udta, x.Mdta, x.Player, x.ProApps} {
+		if reflect.ValueOf(v).IsNil() {
+			continue
+		}
+		l, err := xmp.ListNativeFields(v)
+		if err != nil {
+			return nil, fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
+		}
+		list = append(list, l...)
 	}
+	return list, nil
 }
diff --git a/xmp/native.go b/xmp/native.go
index 501db93..51cac20 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -331,9 +331,9 @@ func ListNativeFields(v Model) (TagList, error) {
 		}
 
 		// simple values are just fine, but any other type (slice, array, struct)
-		// without textmarshaler will fail here
+		// without textmarshaler has no text to list
 		if s, b, err := marshalSimple(fv.Type(), fv); err != nil {
-			return nil, err
+			continue
 		} else {
 			if b != nil {
 				s = string(b)
-- 
2.43.0


From de7701bbcf5072bfb241f9faffb375cd10c62cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 084/130] fix: two pairs of fields with the same RIFF tag made
 all RIFF tags unusable

---
 models/riff/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/riff/model.go b/models/riff/model.go
index ef04520..24bc88e 100644
--- a/models/riff/model.go
+++ b/models/riff/model.go
@@ -79,7 +79,7 @@ type RiffInfo struct {
 	SoundSchemeTitle    string `riffinfo:"DISP" xmp:"riffinfo:SoundSchemeTitle"`
 	DateTimeOriginal    string `riffinfo:"DTIM" xmp:"riffinfo:DateTimeOriginal"`
 	Genre2              string `riffinfo:"GENR" xmp:"riffinfo:Genre"`
-	ArchivalLocation    string `riffinfo:"IARL" xmp:"riffinfo:ArchivalLocation"`
+	ArchivalLocation    string `riffinfo:"-" xmp:"riffinfo:ArchivalLocation"`
 	FirstLanguage       string `riffinfo:"IAS1" xmp:"riffinfo:FirstLanguage"`
 	SecondLanguage      string `riffinfo:"IAS2" xmp:"riffinfo:SecondLanguage"`
 	ThirdLanguage       string `riffinfo:"IAS3" xmp:"riffinfo:ThirdLanguage"`
@@ -92,7 +92,7 @@ type RiffInfo struct {
 	BaseURL             string `riffinfo:"IBSU" xmp:"riffinfo:BaseURL"`
 	DefaultAudioStream  string `riffinfo:"ICAS" xmp:"riffinfo:DefaultAudioStream"`
 	CostumeDesigner     string `riffinfo:"ICDS" xmp:"riffinfo:CostumeDesigner"`
-	Commissioned        string `riffinfo:"ICMS" xmp:"riffinfo:Commissioned"`
+	Commissioned        string `riffinfo:"-" xmp:"riffinfo:Commissioned"`
 	Cinematographer     string `riffinfo:"ICNM" xmp:"riffinfo:Cinematographer"`
 	Country             string `riffinfo:"ICNT" xmp:"riffinfo:Country"`
 	Cropped             string `riffinfo:"ICRP" xmp:"riffinfo:Cropped"`
-- 
2.43.0


From 9d9432c2e6501646933adc473df74717bbee6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 085/130] fix: setting a native tag without a text form dropped
 the value and reported success

---
 xmp/native.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/native.go b/xmp/native.go
index 51cac20..dcb1489 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -174,6 +174,9 @@ func SetNativeField(v Model, name, value string) error {
 	}
 
 	// otherwise set simple field value directly or fail
+	if f.Kind() == reflect.Slice && f.Type().Elem().Kind() != reflect.Uint8 {
+		return fmt.Errorf("xmp: no method for unmarshalling type %s", f.Type().String())
+	}
 	return setValue(f, value)
 }
 
-- 
2.43.0


From 4b2d379627ece03ee4d0047d02978df08a694a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 086/130] fix: the ID3 v2.2 content type landed in the media
 type

---
 models/id3/model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 2626e01..481244d 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -364,7 +364,7 @@ var V22_TO_V24_TAGS map[string]string = map[string]string{
 	"TAL": "TALB", //   Album/Movie/Show title
 	"TBP": "TBPM", //   BPM (Beats Per Minute)
 	"TCM": "TCOM", //   Composer
-	"TCO": "TMED", //   Content type
+	"TCO": "TCON", //   Content type
 	"TCR": "TCOP", //   Copyright message
 	"TDA": "TDRC", // # Date, arguably this could also be release date TDRL
 	"TDY": "TDLY", //   Playlist delay
@@ -479,7 +479,11 @@ func (x *ID3) GetLocaleTag(lang string, tag string) (string, error) {
 }
 
 func (x *ID3) SetLocaleTag(lang string, tag, value string) error {
-	if err := xmp.SetLocaleField(x, lang, tag, value); err != nil {
+	t, err := mapTagToV24(tag)
+	if err != nil {
+		return err
+	}
+	if err := xmp.SetLocaleField(x, lang, t, value); err != nil {
 		return fmt.Errorf("%s: %v", NsID3.GetName(), err)
 	}
 	return nil
-- 
2.43.0


From 7edcf3847503d456c09c6a1c1f0095802f0e606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 087/130] fix: reading the native tag of a pointer to an
 alternative or to bytes failed

---
 xmp/native.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xmp/native.go b/xmp/native.go
index dcb1489..4bdf2fa 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -75,7 +75,6 @@ func GetNativeField(v Model, name string) (string, error) {
 	}
 
 	fv := finfo.value(val)
-	typ := fv.Type()
 
 	if !fv.IsValid() {
 		return "", nil
@@ -95,6 +94,7 @@ func GetNativeField(v Model, name string) (string, error) {
 	for fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
 		fv = fv.Elem()
 	}
+	typ := fv.Type()
 
 	// Check for text marshaler and marshal as node value
 	if fv.CanAddr() {
@@ -231,6 +231,14 @@ func GetLocaleField(v Model, lang string, name string) (string, error) {
 
 	f := finfo.value(val)
 
+	// a pointer that was never set has no value yet
+	if f.Kind() == reflect.Ptr && f.Type().Elem() == reflect.TypeOf(AltString{}) {
+		if f.IsNil() {
+			return "", nil
+		}
+		f = f.Elem()
+	}
+
 	if f.Kind() != reflect.Slice || f.Type().Elem() != reflect.TypeOf(AltItem{}) {
 		return "", fmt.Errorf("field '%s' must be of type AltString, found %s (%s)", name, f.Type().String(), f.Kind())
 	}
-- 
2.43.0


From ed43113bd9e8929f664db80726e5c70de0df23df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 088/130] fix: listing RIFF tags failed when a title, copyright
 or description was set

---
 xmp/native.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index 4bdf2fa..490324a 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -327,10 +327,7 @@ func ListNativeFields(v Model) (TagList, error) {
 
 		// handle multi-language arrays
 		if fv.Kind() == reflect.Slice && fv.Type().Elem() == reflect.TypeOf(AltItem{}) {
-			a, ok := fv.Interface().(AltString)
-			if !ok {
-				return nil, fmt.Errorf("field '%s' must be of type AltString", finfo.name)
-			}
+			a := fv.Convert(reflect.TypeOf(AltString{})).Interface().(AltString)
 			for _, v := range a {
 				tagList = append(tagList, Tag{
 					Key:   finfo.name,
-- 
2.43.0


From 60c5f4a981240daf7e7894e78bd890c4b4e44659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 089/130] fix: CanTag refused EXIF tags written with upper case
 digits although SetTag takes them

---
 models/exif/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/models/exif/model.go b/models/exif/model.go
index f1d5308..f6644cf 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -376,6 +376,7 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *ExifInfo) CanTag(tag string) bool {
+	tag = strings.ToLower(tag)
 	_, err := xmp.GetNativeField(x, tag)
 	return err == nil
 }
-- 
2.43.0


From 4e4f1d0074f8f047aacad2ec02ea5885f59c7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 090/130] fix: a native tag value that was refused left the
 field set

---
 xmp/native.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index 490324a..a33132d 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -142,14 +142,20 @@ func SetNativeField(v Model, name, value string) error {
 
 	f := finfo.value(val)
 
-	// allocate memory for pointer values in structs
+	// allocate memory for pointer values in structs, but keep the field
+	// unset when the value is no good
 	if f.Type().Kind() == reflect.Ptr && f.IsNil() && f.CanSet() {
-		f.Set(reflect.New(f.Type().Elem()))
+		p := reflect.New(f.Type().Elem())
+		if err := setNativeValue(finfo, p.Elem(), value); err != nil {
+			return err
+		}
+		f.Set(p)
+		return nil
 	}
+	return setNativeValue(finfo, derefValue(f), value)
+}
 
-	// load and potentially create value
-	f = derefValue(f)
-
+func setNativeValue(finfo *fieldInfo, f reflect.Value, value string) error {
 	// try unmarshalers
 	if f.CanAddr() {
 		pv := f.Addr()
-- 
2.43.0


From 0b78893e9fffe40ce35e288e56719388180e6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 091/130] fix: a locale tag that was refused left a pointer
 field set

---
 xmp/native.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index a33132d..9e6dc8c 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -200,6 +200,14 @@ func SetLocaleField(v Model, lang string, name, value string) error {
 
 	f := finfo.value(val)
 
+	typ := f.Type()
+	if typ.Kind() == reflect.Ptr {
+		typ = typ.Elem()
+	}
+	if typ.Kind() != reflect.Slice || typ.Elem() != reflect.TypeOf(AltItem{}) {
+		return fmt.Errorf("field '%s' must be of type xmp.AltString, found type '%s' kind '%s'", name, typ.String(), typ.Kind())
+	}
+
 	// allocate memory for pointer values in structs
 	if f.Type().Kind() == reflect.Ptr && f.IsNil() && f.CanSet() {
 		f.Set(reflect.New(f.Type().Elem()))
@@ -208,10 +216,6 @@ func SetLocaleField(v Model, lang string, name, value string) error {
 	// load and potentially create value
 	f = derefValue(f)
 
-	if f.Kind() != reflect.Slice || f.Type().Elem() != reflect.TypeOf(AltItem{}) {
-		return fmt.Errorf("field '%s' must be of type xmp.AltString, found type '%s' kind '%s'", name, f.Type().String(), f.Kind())
-	}
-
 	// we need a pointer to AltString slices for appending
 	a, ok := f.Addr().Interface().(*AltString)
 	if !ok {
-- 
2.43.0


From 9afd2faf207658910aacd2f9ce6b1a52f488395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 092/130] fix: reading a packet doubled the ID3 genre and lost
 the totals of track and disc numbers

---
 models/id3/model.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 481244d..273c8a7 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -108,12 +108,13 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 		if dm.LogComment != "" {
 			x.Comments = dm.LogComment
 		}
-		if dm.Genre != "" {
+		if dm.Genre != "" && dm.Genre != x.ContentType.String() {
+			x.ContentType = nil
 			if err := x.ContentType.UnmarshalText([]byte(dm.Genre)); err != nil {
 				return err
 			}
 		}
-		if dm.TrackNumber > 0 {
+		if dm.TrackNumber > 0 && dm.TrackNumber != x.TrackNumber.Track {
 			x.TrackNumber = TrackNum{
 				Track: dm.TrackNumber,
 			}
@@ -129,12 +130,12 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 		if dm.Engineer != "" {
 			x.ModifiedBy = dm.Engineer
 		}
-		if dm.DiscNumber > 0 {
+		if dm.DiscNumber > 0 && dm.DiscNumber != x.PartOfASet.Track {
 			x.PartOfASet = TrackNum{
 				Track: dm.DiscNumber,
 			}
 		}
-		if dm.Lyrics != "" {
+		if dm.Lyrics != "" && dm.Lyrics != strings.Join(x.UnsynchronizedLyrics, "\n") {
 			x.UnsynchronizedLyrics = strings.Split(dm.Lyrics, "\n")
 		}
 	}
-- 
2.43.0


From e0566544410d631f61d118361983d14ebdc7d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 093/130] fix: EXIF fractions of a second did not reach XMP
 dates and were written back without leading zeros

---
 models/exif/model.go |  7 +++----
 models/exif/types.go | 31 +++++++++++++++++++++----------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index f6644cf..9121b8d 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -27,7 +27,6 @@ package exif
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/dc"
@@ -267,7 +266,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 
 	if !x.DateTimeDigitizedXMP.IsZero() {
 		x.DateTimeDigitized = Date(x.DateTimeDigitizedXMP.Value())
-		x.SubSecTimeDigitized = strconv.Itoa(x.DateTimeDigitizedXMP.Value().Nanosecond())
+		x.SubSecTimeDigitized = convertSubSec(x.DateTimeDigitizedXMP.Value())
 	}
 
 	if len(x.ISOSpeedRatings) > 0 {
@@ -289,7 +288,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 		if !base.ModifyDate.IsZero() {
 			x.DateTimeXMP = base.ModifyDate
 			x.DateTime = Date(base.ModifyDate.Value())
-			x.SubSecTime = strconv.Itoa(base.ModifyDate.Value().Nanosecond())
+			x.SubSecTime = convertSubSec(base.ModifyDate.Value())
 		}
 		if base.CreatorTool.IsZero() {
 			x.SoftwareXMP = base.CreatorTool
@@ -322,7 +321,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 		if !m.DateCreated.IsZero() {
 			x.DateTimeOriginalXMP = m.DateCreated
 			x.DateTimeOriginal = Date(m.DateCreated.Value())
-			x.SubSecTimeOriginal = strconv.Itoa(m.DateCreated.Value().Nanosecond())
+			x.SubSecTimeOriginal = convertSubSec(m.DateCreated.Value())
 		}
 	}
 	return nil
diff --git a/models/exif/types.go b/models/exif/types.go
index 6898a80..c06a442 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -119,19 +119,30 @@ func convertDateToXMP(d Date, s string) (xmp.Date, error) {
 	if d.IsZero() {
 		return xmp.Date{}, nil
 	}
-	xd := xmp.Date(d)
 	s = strings.TrimSpace(s)
-	if s != "" {
-		return xd, nil
+	if s == "" {
+		return xmp.Date(d), nil
 	}
-	if i, err := strconv.ParseInt(s, 10, 64); err != nil {
-		return xd, fmt.Errorf("exif: invalid subsecond format '%s': %v", s, err)
-	} else {
-		sec := d.Value().Unix()
-		nsec := i * int64(math.Pow10(9-len(s)))
-		xd = xmp.Date(time.Unix(sec, nsec))
+	// s holds the digits of a decimal fraction
+	frac := s
+	if len(frac) > 9 {
+		frac = frac[:9]
 	}
-	return xd, nil
+	i, err := strconv.ParseUint(frac, 10, 64)
+	if err != nil {
+		return xmp.Date(d), fmt.Errorf("exif: invalid subsecond format '%s': %v", s, err)
+	}
+	nsec := int64(i) * int64(math.Pow10(9-len(frac)))
+	t := d.Value()
+	return xmp.Date(t.Add(time.Duration(nsec - int64(t.Nanosecond())))), nil
+}
+
+// convertSubSec returns the decimal fraction of a second.
+func convertSubSec(t time.Time) string {
+	if t.Nanosecond() == 0 {
+		return ""
+	}
+	return strings.TrimRight(fmt.Sprintf("%09d", t.Nanosecond()), "0")
 }
 
 type ComponentArray []Component
-- 
2.43.0


From be0510193f6c00f600b0ade993ffa9758e5acac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 094/130] fix: GPS coordinates could have 60 minutes and GPS
 times lost a nanosecond

---
 models/exif/types.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index c06a442..bc4258f 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -433,13 +433,10 @@ func convertGPStoXMP(r GPSCoord, ref string) (xmp.GPSCoord, error) {
 		deg[i] = float64(v.Num) / float64(v.Den)
 	}
 	min := deg[0]*60 + deg[1] + deg[2]/60
-	ideg := int(min / 60)
-	min -= float64(ideg) * 60
-
+	// round before splitting so that minutes stay below 60
+	units := int64(math.Round(min * 1e7))
 	buf := bytes.Buffer{}
-	buf.Write(strconv.AppendInt(make([]byte, 0, 3), int64(ideg), 10))
-	buf.WriteByte(',')
-	buf.Write(strconv.AppendFloat(make([]byte, 0, 24), min, 'f', 7, 64))
+	fmt.Fprintf(&buf, "%d,%d.%07d", units/60e7, units%60e7/1e7, units%1e7)
 	buf.WriteString(ref)
 	return xmp.GPSCoord(buf.String()), nil
 }
@@ -452,11 +449,11 @@ func convertGPSTimestamp(date Date, x xmp.RationalArray) xmp.Date {
 	for i, v := range x {
 		switch i {
 		case 0:
-			d += time.Duration(v.Value() * float64(time.Hour))
+			d += time.Duration(math.Round(v.Value() * float64(time.Hour)))
 		case 1:
-			d += time.Duration(v.Value() * float64(time.Minute))
+			d += time.Duration(math.Round(v.Value() * float64(time.Minute)))
 		case 2:
-			d += time.Duration(v.Value() * float64(time.Second))
+			d += time.Duration(math.Round(v.Value() * float64(time.Second)))
 		}
 	}
 	return xmp.Date(date.Value().Add(d))
-- 
2.43.0


From 5aac3305d47eedff010e75680571792ea874aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 095/130] fix: EXIF artists were joined and split at different
 characters and software was cleared instead of set

---
 models/exif/model.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index 9121b8d..65270a4 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -278,7 +278,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 
 	if m := dc.FindModel(d); m != nil {
 		x.ArtistXMP = m.Creator
-		x.Artist = strings.Join(m.Creator, ",")
+		x.Artist = strings.Join(m.Creator, "; ")
 		x.ImageDescriptionXMP = m.Description
 		x.ImageDescription = m.Description.Default()
 		x.CopyrightXMP = m.Rights
@@ -290,7 +290,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 			x.DateTime = Date(base.ModifyDate.Value())
 			x.SubSecTime = convertSubSec(base.ModifyDate.Value())
 		}
-		if base.CreatorTool.IsZero() {
+		if !base.CreatorTool.IsZero() {
 			x.SoftwareXMP = base.CreatorTool
 			x.Software = base.CreatorTool.String()
 		}
@@ -340,6 +340,9 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 	}
 	if x.Artist != "" {
 		x.ArtistXMP = xmp.StringList(strings.Split(x.Artist, ";"))
+		for i, v := range x.ArtistXMP {
+			x.ArtistXMP[i] = strings.TrimSpace(v)
+		}
 	}
 	if x.ImageDescription != "" && len(x.ImageDescriptionXMP) == 0 {
 		x.ImageDescriptionXMP = xmp.NewAltString(x.ImageDescription)
-- 
2.43.0


From 34fddb2642049c469ea3c8468e0fe8d62b9c4b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 096/130] fix: QuickTime ISO 6709 locations were split at the
 wrong places and written without sign and end

---
 models/qt/qt_metadata.go | 23 +++--------
 models/qt/types.go       | 84 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 89 insertions(+), 18 deletions(-)

diff --git a/models/qt/qt_metadata.go b/models/qt/qt_metadata.go
index ea385fc..a3519b7 100644
--- a/models/qt/qt_metadata.go
+++ b/models/qt/qt_metadata.go
@@ -16,8 +16,6 @@ package qt
 
 import (
 	"fmt"
-	"strconv"
-	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/tiff"
 	"github.com/trimmer-io/go-xmp/xmp"
@@ -126,11 +124,9 @@ func (x *QtMetadata) SyncFromXMP(d *xmp.Document) error {
 	if x.Location != nil {
 		x.LocationBody = x.Location.Body
 		x.LocationDate = x.Location.Date
-		x.LocationISO6709 = strings.Join([]string{
-			string(x.Location.Latitude),
-			string(x.Location.Longitude),
-			strconv.FormatFloat(x.Location.Altitude, 'f', -1, 64),
-		}, "+")
+		if v, err := x.Location.formatISO6709(); err == nil {
+			x.LocationISO6709 = v
+		}
 		x.LocationName = x.Location.Name
 		x.LocationNote = x.Location.Note
 		x.LocationRole = x.Location.Role
@@ -148,17 +144,8 @@ func (x *QtMetadata) SyncToXMP(d *xmp.Document) error {
 			Role: x.LocationRole,
 		}
 		// "+43.5968+005.4797+362.904/",
-		for i, v := range strings.Split(x.LocationISO6709, "+") {
-			switch i {
-			case 0:
-				x.Location.Latitude = xmp.GPSCoord(v)
-			case 1:
-				x.Location.Longitude = xmp.GPSCoord(v)
-			case 2:
-				v = strings.TrimSuffix(v, "/")
-				x.Location.Altitude, _ = strconv.ParseFloat(v, 64)
-			}
-		}
+		// other text has no coordinates
+		_ = x.Location.parseISO6709(x.LocationISO6709)
 	}
 	return nil
 }
diff --git a/models/qt/types.go b/models/qt/types.go
index 99c8158..ec5f98c 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -9,6 +9,8 @@ package qt
 import (
 	"bytes"
 	"fmt"
+	"math"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -62,6 +64,88 @@ func (x *Location) UnmarshalText(data []byte) error {
 	return nil
 }
 
+// ISO 6709 latitude, longitude and altitude in degrees ("+43.5968+005.4797+362.904/"),
+// degrees and minutes or degrees, minutes and seconds
+var iso6709 = regexp.MustCompile(`^([+-])(\d{2})(\d{2})?(\d{2})?(\.\d+)?([+-])(\d{3})(\d{2})?(\d{2})?(\.\d+)?([+-]\d+(?:\.\d+)?)?(?:CRS[^/]*)?/?$`)
+
+func (x *Location) parseISO6709(s string) error {
+	v := iso6709.FindStringSubmatch(strings.TrimSpace(s))
+	if v == nil {
+		return fmt.Errorf("qt: invalid ISO 6709 location '%s'", s)
+	}
+	x.Latitude = isoToGPS(v[1:6], 'N', 'S')
+	x.Longitude = isoToGPS(v[6:11], 'E', 'W')
+	if v[11] != "" {
+		x.Altitude, _ = strconv.ParseFloat(v[11], 64)
+	}
+	return nil
+}
+
+// sign, degrees, minutes, seconds, fraction of the last unit
+func isoToGPS(v []string, pos, neg byte) xmp.GPSCoord {
+	var min, unit float64
+	for i, u := range []float64{60, 1, 1.0 / 60} {
+		if v[i+1] != "" {
+			n, _ := strconv.Atoi(v[i+1])
+			min += float64(n) * u
+			unit = u
+		}
+	}
+	if v[4] != "" {
+		f, _ := strconv.ParseFloat("0"+v[4], 64)
+		min += f * unit
+	}
+	ref := pos
+	if v[0] == "-" {
+		ref = neg
+	}
+	// round before splitting so that minutes stay below 60
+	units := int64(math.Round(min * 1e7))
+	return xmp.GPSCoord(fmt.Sprintf("%d,%d.%07d%c", units/60e7, units%60e7/1e7, units%1e7, ref))
+}
+
+func (x Location) formatISO6709() (string, error) {
+	lat, err := gpsToDegrees(x.Latitude, "N", "S")
+	if err != nil {
+		return "", err
+	}
+	lon, err := gpsToDegrees(x.Longitude, "E", "W")
+	if err != nil {
+		return "", err
+	}
+	alt := strconv.FormatFloat(x.Altitude, 'f', -1, 64)
+	if x.Altitude >= 0 {
+		alt = "+" + alt
+	}
+	return fmt.Sprintf("%+012.8f%+013.8f%s/", lat, lon, alt), nil
+}
+
+// "DDD,MM.mmk" or "DDD,MM,SSk"
+func gpsToDegrees(v xmp.GPSCoord, pos, neg string) (float64, error) {
+	s := string(v)
+	sign := 1.0
+	switch {
+	case strings.HasSuffix(s, pos):
+		s = strings.TrimSuffix(s, pos)
+	case strings.HasSuffix(s, neg):
+		s = strings.TrimSuffix(s, neg)
+		sign = -1
+	default:
+		return 0, fmt.Errorf("qt: invalid GPS coordinate '%s'", v)
+	}
+	var deg float64
+	unit := 1.0
+	for _, n := range strings.Split(s, ",") {
+		f, err := strconv.ParseFloat(n, 64)
+		if err != nil {
+			return 0, fmt.Errorf("qt: invalid GPS coordinate '%s'", v)
+		}
+		deg += f * unit
+		unit /= 60
+	}
+	return sign * deg, nil
+}
+
 type Point struct {
 	X int
 	Y int
-- 
2.43.0


From d7da8c41dc6bb38b00d267d8e581dd4c3a0fa0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 097/130] fix: setting the version of a decoder left out fields
 without a version and the last version of fields until a version

---
 xmp/semver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/semver.go b/xmp/semver.go
index 01fda9e..db664f3 100644
--- a/xmp/semver.go
+++ b/xmp/semver.go
@@ -66,10 +66,10 @@ func (v Version) IsZero() bool {
 
 func (v Version) Between(a, b Version) bool {
 	switch {
-	case v.IsZero():
+	case v.IsZero() || a.IsZero() && b.IsZero():
 		return true
 	case a.IsZero():
-		return v.Before(b) || v.Equal(a)
+		return v.Before(b) || v.Equal(b)
 	case b.IsZero():
 		return v.After(a) || v.Equal(a)
 	default:
-- 
2.43.0


From 0dfce7df211b4635903599d92778c28ba0b0a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 098/130] fix: slices and arrays without methods of their own
 were written but not read

---
 xmp/unmarshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 3d5d66e..73f9052 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -236,6 +236,11 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 		}
 	}
 
+	// arrays and slices without methods of their own, see marshalValue
+	if kind := val.Kind(); (kind == reflect.Slice || kind == reflect.Array) && val.CanAddr() && val.Type().Elem().Kind() != reflect.Uint8 {
+		return UnmarshalArray(d, src, ArrayTypeOrdered, val.Addr().Interface())
+	}
+
 	// structs
 	if val.Kind() == reflect.Struct {
 		// process attributes first
-- 
2.43.0


From 6ec81fc56bb2cd353ed64e84900bdc0e05d17a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 099/130] fix: syncing to a path in a namespace without model
 crashed

---
 xmp/sync.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/sync.go b/xmp/sync.go
index 27ffdd6..318e72e 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -196,6 +196,9 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 			return nil
 		}
 		dModel = dNs.NewModel()
+		if dModel == nil {
+			return nil
+		}
 		d.AddModel(dModel)
 	}
 
-- 
2.43.0


From d48365a4e57b69a033d10232173e423f077ef26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 100/130] fix: JSON lost the values of alternatives without
 language

---
 xmp/json.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index f7d636a..3399b96 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -333,21 +333,18 @@ func jsonToNode(name string, v interface{}, node *Node) {
 				lang, _ := item["lang"].(string)
 				val, _ := item["value"].(string)
 
-				// add single node when default || !default && lang != ""
-				if def || !def && lang != "" {
-					if def {
-						linode.Attr = append(linode.Attr, Attr{
-							Name:  xml.Name{Local: "xml:lang"},
-							Value: "x-default",
-						})
-						linode.Value = val
-					} else {
-						linode.Attr = append(linode.Attr, Attr{
-							Name:  xml.Name{Local: "xml:lang"},
-							Value: lang,
-						})
-						linode.Value = val
-					}
+				// add single node, alternatives may have no language at all
+				linode.Value = val
+				if def {
+					linode.Attr = append(linode.Attr, Attr{
+						Name:  xml.Name{Local: "xml:lang"},
+						Value: "x-default",
+					})
+				} else if lang != "" {
+					linode.Attr = append(linode.Attr, Attr{
+						Name:  xml.Name{Local: "xml:lang"},
+						Value: lang,
+					})
 				}
 
 				// add second node for default && lang != ""
-- 
2.43.0


From ca6b007abaca13a187f2e6f78cf1538d09f0126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 101/130] fix: values of types with methods on the pointer
 crashed or were written without them

---
 xmp/array.go   | 9 ++++++++-
 xmp/marshal.go | 8 ++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/xmp/array.go b/xmp/array.go
index ecb1f14..f8f839c 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -578,6 +578,13 @@ func MarshalArray(e *Encoder, node *Node, typ ArrayType, items interface{}) erro
 		return nil
 	}
 
+	// items may have their methods on pointers
+	if kind == reflect.Array {
+		arr := reflect.New(val.Type()).Elem()
+		arr.Set(val)
+		val = arr
+	}
+
 	// output enclosing array type
 	arr := NewNode(xml.Name{Local: "rdf:" + string(typ)})
 	node.AddNode(arr)
@@ -627,7 +634,7 @@ func MarshalArray(e *Encoder, node *Node, typ ArrayType, items interface{}) erro
 			}
 		} else {
 			// write to stream
-			if err := e.EncodeElement(v, elem); err != nil {
+			if err := e.marshalValue(val.Index(i), nil, elem, false); err != nil {
 				return err
 			}
 		}
diff --git a/xmp/marshal.go b/xmp/marshal.go
index 7cf3b79..2c45d82 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -372,21 +372,21 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 	typ := val.Type()
 
 	// call marshaler interface
-	if val.CanInterface() && (finfo != nil && finfo.flags&fMarshal > 0 || typ.Implements(marshalerType)) {
+	if val.CanInterface() && typ.Implements(marshalerType) {
 		// log.Debugf("xmp: marshalValue calling MarshalXMP on %v for %s\n", val.Type(), name)
 		return val.Interface().(Marshaler).MarshalXMP(e, node, nil)
 	}
 
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fMarshal > 0 || pv.Type().Implements(marshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(marshalerType) {
 			// log.Debugf("xmp: marshalValue calling MarshalXMP on %v for %s\n", val.Type(), name)
 			return pv.Interface().(Marshaler).MarshalXMP(e, node, nil)
 		}
 	}
 
 	// Check for text marshaler and marshal as node value
-	if val.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+	if val.CanInterface() && typ.Implements(textMarshalerType) {
 		// log.Debugf("xmp: marshalValue calling MarshalText on %v for %s\n", val.Type(), name)
 		b, err := val.Interface().(encoding.TextMarshaler).MarshalText()
 		if err != nil || b == nil {
@@ -398,7 +398,7 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 
 	if val.CanAddr() {
 		pv := val.Addr()
-		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || pv.Type().Implements(textMarshalerType)) {
+		if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
 			// log.Debugf("xmp: marshalValue calling MarshalText on %v for %s\n", val.Type(), name)
 			b, err := pv.Interface().(encoding.TextMarshaler).MarshalText()
 			if err != nil || b == nil {
-- 
2.43.0


From b108c85dbd8bfbe62e14c7e92b102fb7ed2e6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 102/130] fix: paths failed on slices and arrays without
 methods and on types with methods on the pointer

---
 xmp/path.go | 149 +++++++++++++++++++++++-----------------------------
 1 file changed, 66 insertions(+), 83 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 34efb9a..4285579 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -317,7 +317,6 @@ func GetModelPath(v Model, path Path) (string, error) {
 		}
 
 		fv := finfo.value(val)
-		typ := fv.Type()
 
 		// ignore empty fields
 		if !fv.IsValid() {
@@ -334,6 +333,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 		for fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr {
 			fv = fv.Elem()
 		}
+		typ := fv.Type()
 
 		// continue loop when field is a struct and we're not at the end yet
 		if fv.Kind() == reflect.Struct && walker.Len() > 0 {
@@ -342,20 +342,8 @@ func GetModelPath(v Model, path Path) (string, error) {
 		}
 
 		// handle XMP array types
-		av := fv
-		isArray := false
-		if fv.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || typ.Implements(arrayType)) {
-			isArray = true
-		} else if fv.CanAddr() {
-			pv := fv.Addr()
-			if pv.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || pv.Type().Implements(arrayType)) {
-				av = pv
-				isArray = true
-			}
-		}
-
-		if isArray {
-			switch arr := arrayInterface(av).(type) {
+		if isArrayType(typ) {
+			switch arr := arrayInterface(fv).(type) {
 			case ExtensionArray:
 				// sanitize idx (it is -1 when no array index was specified)
 				if idx < 0 {
@@ -393,34 +381,31 @@ func GetModelPath(v Model, path Path) (string, error) {
 				if idx < 0 {
 					idx = 0
 				}
-				if fv.Len() < idx {
+				if fv.Len() <= idx {
 					return "", errNotFound
 				}
+				item := fv.Index(idx)
+				if item.Kind() == reflect.Ptr && item.IsNil() {
+					return "", nil
+				}
 				if walker.Len() > 0 {
-					if av.Len() <= idx {
-						return "", errNotFound
-					}
-					val = derefValue(av.Index(idx))
+					val = derefValue(item)
 					continue
 				} else {
-					if av.Len() <= idx {
-						return "", errNotFound
-					}
-					fv = derefValue(av.Index(idx))
+					fv = derefValue(item)
 					typ = fv.Type()
-					finfo = nil
 				}
 			}
 		}
 
 		// Check for text marshaler and marshal as string
-		av = fv
+		av := fv
 		isText := false
-		if fv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+		if fv.CanInterface() && typ.Implements(textMarshalerType) {
 			isText = true
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
-			if pv.CanInterface() && (finfo != nil && finfo.flags&fTextMarshal > 0 || pv.Type().Implements(textMarshalerType)) {
+			if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
 				av = pv
 				isText = true
 			}
@@ -714,7 +699,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) (err error)
 		if fv.CanAddr() {
 			av = fv.Addr()
 		}
-		if av.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || av.Type().Implements(arrayType)) {
+		if av.CanInterface() && isArrayType(fv.Type()) {
 			switch arr := arrayInterface(av).(type) {
 			case *ExtensionArray:
 				// unwrap extension namespace and keep path remainder
@@ -917,15 +902,11 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) (err error)
 						return fmt.Errorf("array %s index %d out of bounds", name, idx)
 					}
 
-					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
+					v, err := newItem(fv.Type().Elem(), value)
+					if err != nil {
 						return err
 					}
-					av.Index(idx).Set(v.Elem())
+					av.Index(idx).Set(v)
 					return nil
 				}
 
@@ -971,63 +952,47 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) (err error)
 						}
 					}
 
-					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
+					v, err := newItem(fv.Type().Elem(), value)
+					if err != nil {
 						return err
 					}
 
-					fv.Set(reflect.Append(fv, v.Elem()))
+					fv.Set(reflect.Append(fv, v))
 
 				case flags&APPEND > 0 && value != "" && idx == -1:
 					// always append
-					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
+					v, err := newItem(fv.Type().Elem(), value)
+					if err != nil {
 						return err
 					}
 
-					fv.Set(reflect.Append(fv, v.Elem()))
+					fv.Set(reflect.Append(fv, v))
 
 				case flags&(REPLACE|CREATE) > 0 && value != "" && idx > -1:
 					// replace or create slice element at index
 					if flags&REPLACE == 0 && idx < fv.Len() && !isEmptyValue(fv.Index(idx)) {
 						return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
 					}
-					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
+					v, err := newItem(fv.Type().Elem(), value)
+					if err != nil {
 						return err
 					}
 					// optionally growing the slice
 					growSlice(fv, idx)
 					// overwrite current entry,
-					fv.Index(idx).Set(v.Elem())
+					fv.Index(idx).Set(v)
 
 				case flags&(REPLACE|CREATE) > 0 && value != "" && idx == -1:
 					// replace entire slice with a single element
 					if flags&REPLACE == 0 && fv.Len() > 0 {
 						return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
 					}
-					v := reflect.New(fv.Type().Elem())
-					if v.CanInterface() && v.Type().Implements(textUnmarshalerType) {
-						if err := v.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value)); err != nil {
-							return err
-						}
-					} else if err := setValue(v, value); err != nil {
+					v, err := newItem(fv.Type().Elem(), value)
+					if err != nil {
 						return err
 					}
 					fv.Set(reflect.Zero(fv.Type()))
-					fv.Set(reflect.Append(fv, v.Elem()))
+					fv.Set(reflect.Append(fv, v))
 
 				case flags&DELETE > 0 && value == "" && idx > -1:
 					// delete slice element at index
@@ -1201,20 +1166,8 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		typ = fv.Type()
 
 		// handle XMP array types
-		av := fv
-		isArray := false
-		if fv.CanInterface() && (finfo.flags&fArray > 0 || typ.Implements(arrayType)) {
-			isArray = true
-		} else if fv.CanAddr() {
-			pv := fv.Addr()
-			if pv.CanInterface() && (finfo.flags&fArray > 0 || pv.Type().Implements(arrayType)) {
-				av = pv
-				isArray = true
-			}
-		}
-
-		if isArray {
-			switch arr := arrayInterface(av).(type) {
+		if isArrayType(typ) {
+			switch arr := arrayInterface(fv).(type) {
 			case ExtensionArray:
 				for i, v := range arr {
 					subpath := path.Push(fname).AppendIndex(i)
@@ -1267,8 +1220,12 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 					pvl.Add(path.Push(fname).AppendIndexString(v.GetLang()), v.Value)
 				}
 			default:
-				for i, l := 0, av.Len(); i < l; i++ {
-					v := derefValue(av.Index(i))
+				for i, l := 0, fv.Len(); i < l; i++ {
+					v := fv.Index(i)
+					if v.Kind() == reflect.Ptr && v.IsNil() {
+						continue
+					}
+					v = derefValue(v)
 
 					// check for text marshaler
 					isText := false
@@ -1315,13 +1272,13 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		}
 
 		// Check for text marshaler and marshal as string
-		av = fv
+		av := fv
 		isText := false
-		if fv.CanInterface() && (finfo.flags&fTextMarshal > 0 || typ.Implements(textMarshalerType)) {
+		if fv.CanInterface() && typ.Implements(textMarshalerType) {
 			isText = true
 		} else if fv.CanAddr() {
 			pv := fv.Addr()
-			if pv.CanInterface() && (finfo.flags&fTextMarshal > 0 || pv.Type().Implements(textMarshalerType)) {
+			if pv.CanInterface() && pv.Type().Implements(textMarshalerType) {
 				av = pv
 				isText = true
 			}
@@ -1400,6 +1357,32 @@ func findPathField(val reflect.Value, prefix, name string) (*fieldInfo, error) {
 	return findField(val, name, "xmp")
 }
 
+// Arrays are all types with an array type and, see marshalValue, all slices
+// and arrays without methods of their own.
+func isArrayType(typ reflect.Type) bool {
+	ptr := reflect.PtrTo(typ)
+	if ptr.Implements(arrayType) {
+		return true
+	}
+	if k := typ.Kind(); k != reflect.Slice && k != reflect.Array || typ.Elem().Kind() == reflect.Uint8 {
+		return false
+	}
+	return !ptr.Implements(marshalerType) && !ptr.Implements(textMarshalerType)
+}
+
+// returns a new array item for a text, without text the empty item
+func newItem(typ reflect.Type, value string) (reflect.Value, error) {
+	item := reflect.New(typ).Elem()
+	if value == "" {
+		return item, nil
+	}
+	v := derefValue(item)
+	if pv := v.Addr(); pv.Type().Implements(textUnmarshalerType) {
+		return item, pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
+	}
+	return item, setValue(v, value)
+}
+
 // named types derived from AltString are treated like it
 func arrayInterface(v reflect.Value) interface{} {
 	switch t := v.Type(); {
-- 
2.43.0


From 263291f57c271ab26f2540fb63b815bfa48ad53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 103/130] fix: deleting the path of a pointer left a zero value
 and zero values of pointers were overwritten without asking

---
 xmp/path.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 4285579..13cb335 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -619,6 +619,12 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) (err error)
 		if !fv.IsValid() {
 			return nil
 		}
+		if fv.Kind() == reflect.Ptr && fv.CanSet() && value == "" && walker.Len() == 0 && idx < 0 && lang == "" {
+			// deleting the value also deletes the pointer
+			fv.Set(reflect.Zero(fv.Type()))
+			return nil
+		}
+		exists := fv.Kind() == reflect.Ptr && !fv.IsNil() && fv.Elem().Kind() != reflect.Struct
 		if fv.Type().Kind() == reflect.Ptr && fv.IsNil() && fv.CanSet() {
 			restore(fv)
 			fv.Set(reflect.New(fv.Type().Elem()))
@@ -1020,7 +1026,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) (err error)
 		}
 
 		// for simple values, check current value before replacing
-		if flags&REPLACE == 0 && value != "" && !isEmptyValue(fv) {
+		if flags&REPLACE == 0 && value != "" && (exists || !isEmptyValue(fv)) {
 			return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
 		}
 
-- 
2.43.0


From 4a670f97780e389769c1eefabeb8c30f90298e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 104/130] fix: missing pointers with a method IsZero on the
 value crashed

---
 xmp/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 2c45d82..a7e9f8b 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -573,6 +573,9 @@ func ownsNamespace(val reflect.Value, ns *Namespace) bool {
 }
 
 func isEmptyValue(v reflect.Value) bool {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return true
+	}
 	if v.CanInterface() && v.Type().Implements(zeroType) {
 		return v.Interface().(Zero).IsZero()
 	}
-- 
2.43.0


From 7900205b608f5571b2e0c8c457afc63d3a459b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 105/130] fix: paths of parts got a slash at the end

---
 models/xmp_dm/types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index aed27e9..4944435 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -111,12 +111,12 @@ func (x *Part) UnmarshalText(data []byte) error {
 func (x Part) MarshalText() ([]byte, error) {
 	buf := bytes.Buffer{}
 	buf.WriteString(x.Path)
-	if len(x.Path) > 0 && !strings.HasSuffix(x.Path, "/") {
-		buf.WriteByte('/')
-	}
 	if x.Duration.IsZero() {
 		return buf.Bytes(), nil
 	}
+	if len(x.Path) > 0 && !strings.HasSuffix(x.Path, "/") {
+		buf.WriteByte('/')
+	}
 	buf.WriteString("time:")
 	if !x.Start.IsZero() {
 		buf.WriteString(x.Start.String())
-- 
2.43.0


From 58aeb24315f1d1b3462d3559fc403e85329997f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 106/130] fix: setting the previous version id changed the
 current version

---
 models/xmp_mm/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/xmp_mm/model.go b/models/xmp_mm/model.go
index e5041ff..7302a18 100644
--- a/models/xmp_mm/model.go
+++ b/models/xmp_mm/model.go
@@ -166,8 +166,8 @@ func (x *XmpMM) GetLastVersionId() string {
 }
 
 func (x *XmpMM) SetPreviousVersionId(version string) {
-	if l := len(x.Versions); l > 0 {
-		x.Versions[l-1].Version = version
+	if v := x.GetPreviousVersion(); v != nil {
+		v.Version = version
 	}
 }
 
-- 
2.43.0


From 588448a5b6d22374aaa8bf19495095b64987c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:58 +0000
Subject: [PATCH 107/130] fix: paths of properties in the pantry that are
 unknown to their model

---
 xmp/path.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 13cb335..52a6884 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -300,6 +300,18 @@ func (d *Document) GetPath(path Path) (string, error) {
 	}
 }
 
+// true when the first field of a path is a field of the model
+func hasPathField(v Model, path Path) bool {
+	val := derefIndirect(v)
+	if val.Kind() != reflect.Struct {
+		return false
+	}
+	n, walker := path.PopFront()
+	name, _, _ := parsePathSegment(n)
+	_, err := findPathField(val, walker.NamespacePrefix(), name)
+	return err == nil
+}
+
 func GetModelPath(v Model, path Path) (string, error) {
 	val := derefIndirect(v)
 	l := path.Len()
@@ -358,7 +370,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 				if node == nil {
 					return "", errNotFound
 				}
-				if node.Model != nil {
+				if node.Model != nil && hasPathField(node.Model, walker) {
 					val = reflect.Indirect(reflect.ValueOf(node.Model))
 					continue
 				}
@@ -744,10 +756,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) (err error)
 							node.Model = ns.NewModel()
 						}
 					}
-					if node.Model != nil {
-						// FIXME: when the model does not contain the path we might
-						// want to store it as child node, however, the for{} loop
-						// allows no back-tracking on error
+					if node.Model != nil && hasPathField(node.Model, walker) {
 						val = reflect.Indirect(reflect.ValueOf(node.Model))
 						continue
 					}
@@ -765,10 +774,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) (err error)
 							child.Model = ns.NewModel()
 						}
 					}
-					if child.Model != nil {
-						// FIXME: when the model does not contain the path we might
-						// want to store it as extension model child node. however,
-						// the for{} loop allows no back-tracking on error
+					if child.Model != nil && hasPathField(child.Model, walker) {
 						val = reflect.Indirect(reflect.ValueOf(child.Model))
 						continue
 					}
@@ -1193,12 +1199,12 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 								} else {
 									pvl = append(pvl, l...)
 								}
+							}
+							// properties without a model or unknown to it
+							if l, err := child.ListPaths(subpath); err != nil {
+								return nil, err
 							} else {
-								if l, err := child.ListPaths(subpath); err != nil {
-									return nil, err
-								} else {
-									pvl = append(pvl, l...)
-								}
+								pvl = append(pvl, l...)
 							}
 						}
 					} else {
-- 
2.43.0


From dc8b6fd1f431b5f094808808020708557fc3d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 108/130] fix: pantry items lost attributes and the namespaces
 of added documents

---
 models/xmp_mm/model.go |  9 ++++++-
 xmp/xmp_ext.go         | 56 +++++++++++++++++++++++++++++++++++++++---
 2 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/models/xmp_mm/model.go b/models/xmp_mm/model.go
index 7302a18..2205d3a 100644
--- a/models/xmp_mm/model.go
+++ b/models/xmp_mm/model.go
@@ -117,7 +117,14 @@ func (x *XmpMM) SetTag(tag, value string) error {
 func (x *XmpMM) AddPantry(d *xmp.Document) {
 	node := xmp.NewNode(xmp.NewName("rdf:Description"))
 	cpy := xmp.NewDocument()
-	cpy.Merge(d, xmp.MERGE)
+	// paths cannot tell array types and qualifiers, copy the packet instead
+	if b, err := xmp.Marshal(d); err != nil || xmp.Unmarshal(b, cpy) != nil {
+		cpy = xmp.NewDocument()
+		cpy.Merge(d, xmp.MERGE)
+	}
+	for _, v := range cpy.Namespaces() {
+		node.AddAttr(v.GetAttr())
+	}
 	node.Nodes = cpy.Nodes()
 	x.Pantry = append(x.Pantry, (*xmp.Extension)(node))
 }
diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index d71a079..eeff737 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -16,6 +16,7 @@ package xmp
 
 import (
 	"encoding/xml"
+	"strconv"
 	"strings"
 )
 
@@ -49,6 +50,15 @@ func (x *Extension) FindNodeByName(name string) *Node {
 }
 
 func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
+	// documents that became extensions declare their namespaces, the prefixes
+	// may differ from those used in the output
+	prefixes := make(map[string]string)
+	for _, v := range x.Attr {
+		if strings.HasPrefix(v.Name.Local, "xmlns:") {
+			prefixes[stripPrefix(v.Name.Local)] = e.addNamespace(stripPrefix(v.Name.Local), v.Value)
+		}
+	}
+
 	for _, ext := range x.Nodes {
 		if ext.Model != nil {
 			if err := e.EncodeElement(ext.Model, node); err != nil {
@@ -57,23 +67,63 @@ func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 		}
 
 		// unwrap one extra layer that we keep for identifying extensions
-		if x.XMLName.Local == "" {
+		if ext.Model != nil || !hasPrefix(ext.XMLName.Local) && ext.Value == "" {
+			for _, v := range ext.Attr {
+				v.Name.Local = replacePrefix(v.Name.Local, prefixes)
+				node.AddAttr(v)
+			}
 			for _, child := range ext.Nodes {
 				if child.Model != nil {
 					if err := e.EncodeElement(child.Model, node); err != nil {
 						return err
 					}
 				} else {
-					node.Nodes = append(node.Nodes, copyNode(child))
+					node.Nodes = append(node.Nodes, copyNode(child).replacePrefixes(prefixes))
 				}
 			}
 		} else {
-			node.Nodes = append(node.Nodes, copyNode(ext))
+			node.Nodes = append(node.Nodes, copyNode(ext).replacePrefixes(prefixes))
 		}
 	}
 	return nil
 }
 
+// Declares a namespace and returns its prefix.
+func (e *Encoder) addNamespace(prefix, uri string) string {
+	if ns := NsRegistry.GetPrefix(uri); ns != "" {
+		return ns
+	}
+	for _, m := range []map[string]*Namespace{e.intNsMap, e.extNsMap} {
+		if ns, ok := m[uri]; ok {
+			return ns.GetName()
+		}
+	}
+	name := prefix
+	for i := 1; e.findNs(NewName(name)) != nil; i++ {
+		name = prefix + strconv.Itoa(i)
+	}
+	e.extNsMap[uri] = &Namespace{name, uri, emptyFactory}
+	return name
+}
+
+func replacePrefix(name string, prefixes map[string]string) string {
+	if p, ok := prefixes[getPrefix(name)]; ok && hasPrefix(name) {
+		return p + ":" + stripPrefix(name)
+	}
+	return name
+}
+
+func (n *Node) replacePrefixes(prefixes map[string]string) *Node {
+	n.XMLName.Local = replacePrefix(n.XMLName.Local, prefixes)
+	for i, v := range n.Attr {
+		n.Attr[i].Name.Local = replacePrefix(v.Name.Local, prefixes)
+	}
+	for _, v := range n.Nodes {
+		v.replacePrefixes(prefixes)
+	}
+	return n
+}
+
 // The attribute has the name of the extension property itself, there's no model
 // inside to decode it into.
 func (x *Extension) UnmarshalXMPAttr(d *Decoder, a Attr) error {
-- 
2.43.0


From f81d1c4dfe3c6eaa3a84a294c0065ed067702403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:07 +0000
Subject: [PATCH 109/130] fix: media times written as attributes lost fractions
 and texts that are none

---
 models/xmp_dm/types.go | 68 +++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 4944435..52c5db8 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -23,7 +23,6 @@ import (
 	"sort"
 	"strconv"
 	"strings"
-	"time"
 	"github.com/trimmer-io/go-xmp/xmp"
 )
 
@@ -542,33 +541,60 @@ func (x MediaTime) IsZero() bool {
 // Parse when used as attribute (not standard-conform)
 // xmpDM:duration="0:07.680"
 func (x *MediaTime) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
-	v := string(a.Value)
-	var dur time.Duration
-	fields := strings.Split(v, ".")
+	if a.Value == "" {
+		return nil
+	}
+	invalid := fmt.Errorf("xmp: invalid media time value '%s'", a.Value)
+	value := strings.TrimPrefix(a.Value, "-")
+	fields := strings.Split(value, ".")
+	if len(fields) > 2 {
+		return invalid
+	}
+	// count milliseconds unless the fraction is finer
+	scale, width := int64(1000), 3
+	var frac uint64
 	if len(fields) > 1 {
-		if i, err := strconv.ParseInt(fields[1], 10, 64); err == nil {
-			dur = time.Duration(i * int64(math.Pow10(9-len(fields[1]))))
+		digits := strings.TrimRight(fields[1], "0")
+		for ; width < len(digits); width += 3 {
+			scale *= 1000
+		}
+		if width > 9 {
+			return invalid
+		}
+		digits += strings.Repeat("0", width-len(digits))
+		var err error
+		if frac, err = strconv.ParseUint(digits, 10, 32); err != nil {
+			return invalid
 		}
 	}
+	// [[hours:]minutes:]seconds
 	fields = strings.Split(fields[0], ":")
-	var h, m, s int
-	switch len(fields) {
-	case 3:
-		h, _ = strconv.Atoi(fields[0])
-		m, _ = strconv.Atoi(fields[1])
-		s, _ = strconv.Atoi(fields[2])
-	case 2:
-		m, _ = strconv.Atoi(fields[0])
-		s, _ = strconv.Atoi(fields[1])
-	case 1:
-		s, _ = strconv.Atoi(fields[0])
-	}
-	dur += time.Hour*time.Duration(h) + time.Minute*time.Duration(m) + time.Second*time.Duration(s)
+	if len(fields) > 3 {
+		return invalid
+	}
+	var sec int64
+	for _, f := range fields {
+		if f == "" && strings.HasPrefix(value, ".") {
+			break
+		}
+		n, err := strconv.ParseUint(f, 10, 31)
+		if err != nil {
+			return invalid
+		}
+		sec = sec*60 + int64(n)
+	}
+	if sec >= math.MaxInt64/scale {
+		return invalid
+	}
+	total := sec*scale + int64(frac)
+	if value != a.Value {
+		total = -total
+	}
 	*x = MediaTime{
-		Value: int64(dur / time.Millisecond),
+		Value: total,
 		Scale: xmp.Rational{
 			Num: 1,
-			Den: 1000,
+			Den: scale,
 		},
 	}
 	return nil
-- 
2.43.0


From b4ab611f17c3eafacbd1fbc85597d81c9e0457ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:34 +0000
Subject: [PATCH 110/130] fix: reading a document allocated nil embedded
 structs of its models

---
 xmp/document.go |  2 +-
 xmp/marshal.go  |  4 ++--
 xmp/native.go   |  6 +++---
 xmp/path.go     |  4 ++--
 xmp/typeinfo.go | 19 +++++++++++++++++++
 5 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/xmp/document.go b/xmp/document.go
index 0e7742d..a7b7964 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -228,7 +228,7 @@ func (d *Document) clearCopies(match func(name string) bool) {
 			if f.name == "" || !match(f.name) || n.Model.Can(getPrefix(f.name)) {
 				continue
 			}
-			if fv := f.value(val); fv.CanSet() {
+			if fv := f.peek(val); fv.CanSet() {
 				fv.Set(reflect.Zero(fv.Type()))
 			}
 		}
diff --git a/xmp/marshal.go b/xmp/marshal.go
index a7e9f8b..28591a0 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -457,7 +457,7 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 			continue
 		}
 
-		fv := finfo.value(val)
+		fv := finfo.peek(val)
 
 		if (fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr) && fv.IsNil() {
 			// log.Debugf("xmp: marshalValue attr field %s is nil\n", finfo.name)
@@ -510,7 +510,7 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 			continue
 		}
 
-		fv := finfo.value(val)
+		fv := finfo.peek(val)
 
 		if (fv.Kind() == reflect.Interface || fv.Kind() == reflect.Ptr) && fv.IsNil() {
 			// log.Debugf("xmp: marshalValue node field %s is nil\n", finfo.name)
diff --git a/xmp/native.go b/xmp/native.go
index 9e6dc8c..06e5509 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -74,7 +74,7 @@ func GetNativeField(v Model, name string) (string, error) {
 		return "", err
 	}
 
-	fv := finfo.value(val)
+	fv := finfo.peek(val)
 
 	if !fv.IsValid() {
 		return "", nil
@@ -239,7 +239,7 @@ func GetLocaleField(v Model, lang string, name string) (string, error) {
 		return "", err
 	}
 
-	f := finfo.value(val)
+	f := finfo.peek(val)
 
 	// a pointer that was never set has no value yet
 	if f.Kind() == reflect.Ptr && f.Type().Elem() == reflect.TypeOf(AltString{}) {
@@ -280,7 +280,7 @@ func ListNativeFields(v Model) (TagList, error) {
 
 	// go through all fields
 	for _, finfo := range tinfo.fields {
-		fv := finfo.value(val)
+		fv := finfo.peek(val)
 
 		if !fv.IsValid() {
 			continue
diff --git a/xmp/path.go b/xmp/path.go
index 52a6884..26ce2a1 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -328,7 +328,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 			// return "", fmt.Errorf("path field %d (%s) not found: %v", i, name, err)
 		}
 
-		fv := finfo.value(val)
+		fv := finfo.peek(val)
 
 		// ignore empty fields
 		if !fv.IsValid() {
@@ -1142,7 +1142,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 	// walk all fields
 	for _, finfo := range tinfo.fields {
-		fv := finfo.value(val)
+		fv := finfo.peek(val)
 
 		if !fv.IsValid() {
 			continue
diff --git a/xmp/typeinfo.go b/xmp/typeinfo.go
index 67ec561..e212f53 100644
--- a/xmp/typeinfo.go
+++ b/xmp/typeinfo.go
@@ -357,6 +357,25 @@ func (finfo *fieldInfo) value(v reflect.Value) reflect.Value {
 	return v
 }
 
+// peek returns v's field value corresponding to finfo without changing v.
+// Fields of nil structs read as zero values.
+func (finfo *fieldInfo) peek(v reflect.Value) reflect.Value {
+	for i, x := range finfo.idx {
+		if i > 0 {
+			t := v.Type()
+			if t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct {
+				if v.IsNil() {
+					v = reflect.New(t.Elem())
+				}
+				v = v.Elem()
+			}
+		}
+		v = v.Field(x)
+	}
+
+	return v
+}
+
 // Load value from interface, but only if the result will be
 // usefully addressable.
 func derefIndirect(v interface{}) reflect.Value {
-- 
2.43.0


From 277d2ada6394d7be0111b3f95eadf948d4a9c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 111/130] fix: documents from JSON and namespace declarations
 had a random order

---
 xmp/json.go | 35 +++++++++++++++++++++++++++++------
 xmp/node.go |  7 ++++++-
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 3399b96..2d1db9f 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -19,6 +19,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 )
 
@@ -242,22 +243,33 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	// register namespaces
 	dec.about = in.About
 	dec.toolkit = in.Toolkit
-	for prefix, uri := range in.Namespaces {
-		dec.addNamespace(prefix, uri)
+	prefixes := make([]string, 0, len(in.Namespaces))
+	for prefix := range in.Namespaces {
+		prefixes = append(prefixes, prefix)
+	}
+	sort.Strings(prefixes)
+	for _, prefix := range prefixes {
+		dec.addNamespace(prefix, in.Namespaces[prefix])
 	}
 
 	// build node tree from JSON models
 	root := NewNode(emptyName)
 	defer root.Close()
-	for name, b := range in.Models {
+	names := make([]string, 0, len(in.Models))
+	for name := range in.Models {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		b := in.Models[name]
 		node := NewNode(xml.Name{Local: name})
 		root.Nodes = append(root.Nodes, node)
 		content := make(map[string]interface{})
 		if err := json.Unmarshal(b, &content); err != nil {
 			return fmt.Errorf("xmp: json unmarshal model '%s' failed: %v", name, err)
 		}
-		for n, v := range content {
-			jsonToNode(n, v, node)
+		for _, n := range sortedNames(content) {
+			jsonToNode(n, content[n], node)
 		}
 	}
 
@@ -369,7 +381,9 @@ func jsonToNode(name string, v interface{}, node *Node) {
 			onode = NewNode(xml.Name{Local: name})
 			node.Nodes = append(node.Nodes, onode)
 		}
-		for on, ov := range v.(map[string]interface{}) {
+		obj := v.(map[string]interface{})
+		for _, on := range sortedNames(obj) {
+			ov := obj[on]
 			if isArrayItemType(v) && on == "value" {
 				jsonToNode("", ov, onode)
 			} else {
@@ -380,6 +394,15 @@ func jsonToNode(name string, v interface{}, node *Node) {
 }
 
 // JSON unmarshal helpers
+func sortedNames(m map[string]interface{}) []string {
+	l := make([]string, 0, len(m))
+	for n := range m {
+		l = append(l, n)
+	}
+	sort.Strings(l)
+	return l
+}
+
 func isSimpleValue(v interface{}) bool {
 	switch v.(type) {
 	case string, float64, bool, nil:
diff --git a/xmp/node.go b/xmp/node.go
index 6532d03..af66509 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -250,7 +250,12 @@ func (n *Node) Namespaces(d *Document) NamespaceList {
 		l = append(l, v.Namespaces(d)...)
 	}
 
-	for name, _ := range m {
+	names := make([]string, 0, len(m))
+	for name := range m {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
 		ns := d.findNsByPrefix(name)
 		if ns != nil && ns != nsRDF && ns != nsXML {
 			l = append(l, ns)
-- 
2.43.0


From b16eb9bd675ba6c141c3e49b4befa752efe08596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 112/130] fix: paths of a model were not listed when an array
 has an empty item

---
 xmp/path.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 26ce2a1..83aabc2 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -944,7 +944,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) (err error)
 
 						if isText {
 							b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-							if err != nil || b == nil {
+							if err != nil {
 								return err
 							}
 							if value == string(b) {
@@ -1254,9 +1254,10 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 					if isText {
 						b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-						if err != nil || b == nil {
+						if err != nil {
 							return nil, err
 						}
+						// not listed when empty, as everything without text
 						pvl.Add(path.Push(fname).AppendIndex(i), string(b))
 						continue
 					}
@@ -1298,10 +1299,13 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 		if isText {
 			b, err := av.Interface().(encoding.TextMarshaler).MarshalText()
-			if err != nil || b == nil {
+			if err != nil {
 				return nil, err
 			}
-			pvl.Add(path.Push(fname), string(b))
+			// values without text are not set
+			if b != nil {
+				pvl.Add(path.Push(fname), string(b))
+			}
 			continue
 		}
 
-- 
2.43.0


From 549bbba2e9787ef0f1d1f4ca32d3f66e7a7be857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 113/130] fix: values of rdf:resource and rdf:value, and values
 without the form of their field were lost

---
 xmp/node.go      | 40 +++++++++++++++++++++++++++
 xmp/path.go      | 26 +++++++++++++++++-
 xmp/unmarshal.go | 70 ++++++++++++++++++++++++++++++++++++++++++++----
 xmp/xmp_types.go |  9 +------
 4 files changed, 131 insertions(+), 14 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index af66509..f74e5ae 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -337,6 +337,46 @@ func (n *Node) AddStringAttr(name, value string) {
 	n.AddAttr(Attr{Name: xml.Name{Local: name}, Value: value})
 }
 
+// Returns the text of a simple value, which is the node's content, the target
+// of its rdf:resource or, when the value has qualifiers, its rdf:value.
+func (n *Node) text() (string, bool) {
+	if n.Value != "" {
+		return n.Value, true
+	}
+	for _, v := range n.Nodes {
+		switch {
+		case isRdfName(v.XMLName, "value"):
+			return v.text()
+		case isRdfName(v.XMLName, "Description") && len(n.Nodes) == 1:
+			return v.text()
+		}
+	}
+	if len(n.Nodes) > 0 {
+		return "", false
+	}
+	hasFields := false
+	for _, v := range n.Attr {
+		if isRdfName(v.Name, "resource") || isRdfName(v.Name, "value") {
+			return v.Value, true
+		}
+		switch v.Name.Space {
+		case "", "xmlns", nsRDF.GetURI(), nsXML.GetURI():
+			switch getPrefix(v.Name.Local) {
+			case "", "xmlns", "rdf", "xml":
+			default:
+				hasFields = true
+			}
+		default:
+			hasFields = true
+		}
+	}
+	return "", !hasFields
+}
+
+func isRdfName(n xml.Name, local string) bool {
+	return n.Local == "rdf:"+local || n.Local == local && n.Space == nsRDF.GetURI()
+}
+
 func (n *Node) GetAttr(ns, name string) []Attr {
 	l := make([]Attr, 0)
 	for _, v := range n.Attr {
diff --git a/xmp/path.go b/xmp/path.go
index 83aabc2..3a61e8f 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -282,7 +282,7 @@ func (d *Document) GetPath(path Path) (string, error) {
 	if n == nil {
 		return "", fmt.Errorf("xmp: path '%s' not found", path.String())
 	}
-	if n.Model != nil {
+	if n.Model != nil && n.findOtherForm(path) == nil {
 		if s, err := GetModelPath(n.Model, path); err == nil {
 			return s, nil
 		} else if err != errNotFound {
@@ -312,6 +312,25 @@ func hasPathField(v Model, path Path) bool {
 	return err == nil
 }
 
+// returns the external node of a model property, see errWrongForm
+func (n *Node) findOtherForm(path Path) *Node {
+	if n.Model == nil || len(n.Nodes) == 0 || !hasPathField(n.Model, path) {
+		return nil
+	}
+	name, walker := path.PopFront()
+	name, _, _ = parsePathSegment(name)
+	prefix := walker.NamespacePrefix()
+	if hasPrefix(name) {
+		prefix = getPrefix(name)
+	}
+	for _, v := range n.Nodes {
+		if v.XMLName.Local == prefix+":"+stripPrefix(name) {
+			return v
+		}
+	}
+	return nil
+}
+
 func GetModelPath(v Model, path Path) (string, error) {
 	val := derefIndirect(v)
 	l := path.Len()
@@ -531,6 +550,11 @@ func (d *Document) SetPath(desc PathValue) error {
 		n = d.nodes.AddNode(NewNode(ns.RootName()))
 	}
 
+	// use the node of a model property that does not have the form of its field
+	if n.findOtherForm(path) != nil {
+		m = nil
+	}
+
 	// get current version of path value
 	var dest string
 	if m != nil {
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 73f9052..b63d246 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"encoding"
 	"encoding/xml"
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -156,10 +157,15 @@ func (d *Decoder) decodeNode(ctx *NodeList, src *Node) error {
 	if node.Model != nil {
 		finfo, field := d.findStructField(derefIndirect(node.Model), name)
 		if field.IsValid() {
-			return d.unmarshal(field, finfo, src)
-		} else {
-			storeNode = finfo == nil || finfo.flags&fOmit == 0
+			if err := d.unmarshalProperty(field, finfo, src); err != errWrongForm {
+				return err
+			}
+			if len(src.Nodes) > 0 {
+				// text between the nodes of an array has no meaning
+				src.Value = ""
+			}
 		}
+		storeNode = finfo == nil || finfo.flags&fOmit == 0
 	} else {
 		storeNode = true
 	}
@@ -214,6 +220,58 @@ func (d *Decoder) decodeAttribute(ctx *NodeList, src Attr) error {
 	return nil
 }
 
+// A property whose value does not have the form of its field is kept as
+// external node instead.
+var errWrongForm = errors.New("xmp: value does not have the form of its field")
+
+func (d *Decoder) unmarshalProperty(field reflect.Value, finfo *fieldInfo, src *Node) error {
+	if _, ok := src.text(); ok || !isTextType(field.Type()) {
+		if err := d.unmarshal(field, finfo, src); err != nil || !lacksLanguage(field) {
+			return err
+		}
+	}
+	field.Set(reflect.Zero(field.Type()))
+	return errWrongForm
+}
+
+// Alternatives cannot be written without a language.
+func lacksLanguage(v reflect.Value) bool {
+	v = reflect.Indirect(v)
+	typ := reflect.TypeOf(AltString{})
+	if !v.IsValid() || !v.Type().ConvertibleTo(typ) || v.Len() < 2 {
+		return false
+	}
+	for _, i := range v.Convert(typ).Interface().(AltString) {
+		if i.Lang == "" && !i.IsDefault {
+			return true
+		}
+	}
+	return false
+}
+
+// Types that have no place for structures and arrays.
+func isTextType(typ reflect.Type) bool {
+	for typ.Kind() == reflect.Ptr {
+		typ = typ.Elem()
+	}
+	ptr := reflect.PtrTo(typ)
+	switch {
+	case typ == reflect.TypeOf(Uri("")):
+		return true
+	case ptr.Implements(unmarshalerType):
+		return false
+	case ptr.Implements(textUnmarshalerType) && ptr.Implements(textMarshalerType):
+		return true
+	}
+	switch typ.Kind() {
+	case reflect.Slice:
+		return typ.Elem().Kind() == reflect.Uint8
+	case reflect.Interface, reflect.Struct, reflect.Array, reflect.Map:
+		return false
+	}
+	return true
+}
+
 func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) error {
 	// Load value from interface, but only if the result will be
 	// usefully addressable.
@@ -232,7 +290,8 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 		pv := val.Addr()
 		isText := pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType))
 		if isText && !isStructForm(val, src) {
-			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(src.Value))
+			text, _ := src.text()
+			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(text))
 		}
 	}
 
@@ -282,7 +341,8 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 		}
 	} else {
 		// otherwise set simple value directly
-		if err := setValue(val, src.Value); err != nil {
+		text, _ := src.text()
+		if err := setValue(val, text); err != nil {
 			return fmt.Errorf("xmp: unmarshal %s: %v", src.FullName(), err)
 		}
 	}
diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 569a630..9b1eebe 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -462,14 +462,7 @@ func NewUri(u string) Uri {
 // }
 
 func (x *Uri) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
-	if attr := node.GetAttr("rdf", "resource"); len(attr) > 0 {
-		*x = Uri(attr[0].Value)
-		return nil
-	}
-	var u string
-	if err := d.DecodeElement(&u, node); err != nil {
-		return err
-	}
+	u, _ := node.text()
 	*x = Uri(u)
 	return nil
 }
-- 
2.43.0


From a560aca879bcf439df001d7e45c7bd9b03ebe22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:48 +0000
Subject: [PATCH 114/130] fix: the list of versions was written as unordered

---
 models/xmp_mm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index dd19b01..d1e7167 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -111,7 +111,7 @@ type StVersion struct {
 type StVersionArray []*StVersion
 
 func (x StVersionArray) Typ() xmp.ArrayType {
-	return xmp.ArrayTypeUnordered
+	return xmp.ArrayTypeOrdered
 }
 
 func (x StVersionArray) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
-- 
2.43.0


From 713ceddb0c442d01ca7a0f5d238261efb1a27f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:51 +0000
Subject: [PATCH 115/130] fix: EXIF device settings were read and written under
 another name and refused from other programs

---
 models/exif/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index bc4258f..d7f28cc 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -298,7 +298,7 @@ func (x *CFAPattern) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) e
 type DeviceSettings struct {
 	Columns int             `xmp:"exif:Columns"`
 	Rows    int             `xmp:"exif:Rows"`
-	Values  xmp.StringArray `xmp:"exif:Values"`
+	Values  xmp.StringArray `xmp:"exif:Settings"`
 }
 
 func (x DeviceSettings) IsZero() bool {
-- 
2.43.0


From fc6a40edc5dd74b10a0ab54d6f78bdc62439219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:19 +0000
Subject: [PATCH 116/130] fix: the ids of Photoshop document ancestors were
 lost

---
 models/ps/model.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/models/ps/model.go b/models/ps/model.go
index c3abcd2..df88ecc 100644
--- a/models/ps/model.go
+++ b/models/ps/model.go
@@ -121,6 +121,33 @@ func (x *PhotoshopInfo) SetTag(tag, value string) error {
 // 3.2.1.1 Ancestor
 type Anchestor struct {
 	AncestorID xmp.Uri `xmp:"photoshop:AncestorID"`
+	plain      bool    // written as plain text
+}
+
+func (x Anchestor) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
+	if x.plain {
+		return e.EncodeElement(x.AncestorID, node)
+	}
+	type _t Anchestor
+	return e.EncodeElement(_t(x), node)
+}
+
+func (x *Anchestor) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	if len(node.Nodes) == 0 && len(node.Attr) == 0 {
+		v := Anchestor{plain: true}
+		if err := d.DecodeElement(&v.AncestorID, node); err != nil {
+			return err
+		}
+		*x = v
+		return nil
+	}
+	type _t Anchestor
+	v := _t{}
+	if err := d.DecodeElement(&v, node); err != nil {
+		return err
+	}
+	*x = Anchestor(v)
+	return nil
 }
 
 type AnchestorArray []Anchestor
-- 
2.43.0


From 7e292f5ef26982f8e39a1882a5752290e67b5e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:19 +0000
Subject: [PATCH 117/130] fix: the values of EXIF color filter array patterns
 were lost

---
 models/exif/types.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/models/exif/types.go b/models/exif/types.go
index d7f28cc..ef28531 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -60,6 +60,21 @@ func (x *ByteArray) UnmarshalText(data []byte) error {
 	return nil
 }
 
+func (x ByteArray) Typ() xmp.ArrayType {
+	return xmp.ArrayTypeOrdered
+}
+
+func (x ByteArray) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
+	return xmp.MarshalArray(e, node, x.Typ(), x)
+}
+
+func (x *ByteArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	if len(node.Nodes) == 0 {
+		return x.UnmarshalText([]byte(node.Value))
+	}
+	return xmp.UnmarshalArray(d, node, x.Typ(), x)
+}
+
 type Date time.Time
 
 func Now() Date {
-- 
2.43.0


From ac405afbb8ef0b26f95433a463aee64525f1c36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 118/130] fix: read EXIF device settings of earlier versions

---
 models/exif/types.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index ef28531..a5afa49 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -360,13 +360,21 @@ func (x *DeviceSettings) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Mode
 	if len(node.Nodes) == 0 && len(node.Attr) == 0 {
 		return x.UnmarshalText([]byte(node.Value))
 	}
-	// strip TextUnmarshal method
-	type _t DeviceSettings
-	v := _t{}
+	// also read settings written under the name of their field
+	v := struct {
+		Columns  int             `xmp:"exif:Columns"`
+		Rows     int             `xmp:"exif:Rows"`
+		Settings xmp.StringArray `xmp:"exif:Settings"`
+		Values   xmp.StringArray `xmp:"exif:Values"`
+	}{}
 	if err := d.DecodeElement(&v, node); err != nil {
 		return err
 	}
-	*x = DeviceSettings(v)
+	*x = DeviceSettings{
+		Columns: v.Columns,
+		Rows:    v.Rows,
+		Values:  append(v.Settings, v.Values...),
+	}
 	return nil
 }
 
-- 
2.43.0


From 34d9b90dacab8692ae706d3e2f884410ac0b9e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:51 +0000
Subject: [PATCH 119/130] fix: misplaced TIFF properties and the original date
 were lost when an unchanged document was saved

---
 models/exif/model.go |  4 ++++
 models/tiff/model.go | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/models/exif/model.go b/models/exif/model.go
index 65270a4..4920dce 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -324,6 +324,10 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 			x.SubSecTimeOriginal = convertSubSec(m.DateCreated.Value())
 		}
 	}
+	// the original date is written as photoshop:DateCreated
+	if x.DateTimeOriginalXMP.IsZero() && !x.DateTimeOriginal.IsZero() {
+		x.DateTimeOriginalXMP, _ = convertDateToXMP(x.DateTimeOriginal, x.SubSecTimeOriginal)
+	}
 	return nil
 }
 
diff --git a/models/tiff/model.go b/models/tiff/model.go
index 9e7d205..437e3e6 100644
--- a/models/tiff/model.go
+++ b/models/tiff/model.go
@@ -115,6 +115,25 @@ func (x *TiffInfo) SyncFromXMP(d *xmp.Document) error {
 			x.Software = m.CreatorTool.String()
 		}
 	}
+	// values in the wrong place are not written there again
+	if len(x.Artist) == 0 && len(x.X_Artist) > 0 {
+		x.Artist = strings.Split(x.X_Artist, ",")
+		for i, v := range x.Artist {
+			x.Artist[i] = strings.TrimSpace(v)
+		}
+	}
+	if len(x.ImageDescription) == 0 {
+		x.ImageDescription = x.X_ImageDescription
+	}
+	if len(x.Copyright) == 0 {
+		x.Copyright = x.X_Copyright
+	}
+	if x.DateTime.IsZero() {
+		x.DateTime = x.X_DateTime
+	}
+	if x.Software == "" {
+		x.Software = x.X_Software
+	}
 	return nil
 }
 
-- 
2.43.0


From 852e59eeb3a26d7bedeaff8b6313dd9126f37522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:54 +0000
Subject: [PATCH 120/130] fix: documents with an original date like 2001-02-03
 were refused

---
 models/exif/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/exif/types.go b/models/exif/types.go
index a5afa49..636da4d 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -127,6 +127,10 @@ func (x *Date) UnmarshalText(data []byte) error {
 			return nil
 		}
 	}
+	if d, err := xmp.ParseDate(value); err == nil {
+		*x = Date(d)
+		return nil
+	}
 	return fmt.Errorf("exif: invalid datetime value '%s'", value)
 }
 
-- 
2.43.0


From 686a066a13d8b61faa1801f9c2b4d98cdb6b03f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:22 +0000
Subject: [PATCH 121/130] fix: paths of Photoshop document ancestors written as
 text failed

---
 models/ps/model.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/models/ps/model.go b/models/ps/model.go
index df88ecc..e809bef 100644
--- a/models/ps/model.go
+++ b/models/ps/model.go
@@ -128,12 +128,13 @@ func (x Anchestor) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error
 	if x.plain {
 		return e.EncodeElement(x.AncestorID, node)
 	}
+	// strip TextMarshal method
 	type _t Anchestor
 	return e.EncodeElement(_t(x), node)
 }
 
 func (x *Anchestor) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
-	if len(node.Nodes) == 0 && len(node.Attr) == 0 {
+	if len(node.Nodes) == 0 && node.Value != "" {
 		v := Anchestor{plain: true}
 		if err := d.DecodeElement(&v.AncestorID, node); err != nil {
 			return err
@@ -141,6 +142,7 @@ func (x *Anchestor) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) er
 		*x = v
 		return nil
 	}
+	// strip TextUnmarshal method
 	type _t Anchestor
 	v := _t{}
 	if err := d.DecodeElement(&v, node); err != nil {
@@ -150,6 +152,15 @@ func (x *Anchestor) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) er
 	return nil
 }
 
+func (x Anchestor) MarshalText() ([]byte, error) {
+	return []byte(x.AncestorID), nil
+}
+
+func (x *Anchestor) UnmarshalText(data []byte) error {
+	*x = Anchestor{AncestorID: xmp.Uri(data), plain: true}
+	return nil
+}
+
 type AnchestorArray []Anchestor
 
 func (x AnchestorArray) Typ() xmp.ArrayType {
-- 
2.43.0


From 98fa615b7447db4d6f0208a58a808629ea6b0b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:12 +0000
Subject: [PATCH 122/130] fix: exif dates took times without a date

---
 models/exif/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 636da4d..d9fcb92 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -127,7 +127,8 @@ func (x *Date) UnmarshalText(data []byte) error {
 			return nil
 		}
 	}
-	if d, err := xmp.ParseDate(value); err == nil {
+	// take XMP dates as well, but not times without a date
+	if d, err := xmp.ParseDate(value); err == nil && d.Value().Year() != 0 {
 		*x = Date(d)
 		return nil
 	}
-- 
2.43.0


From 16d0fa0caf03ac60d99e2353ba6ded551bd7922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:32 +0000
Subject: [PATCH 123/130] fix: Photoshop document ancestors with qualifiers
 were refused

---
 models/ps/model.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/models/ps/model.go b/models/ps/model.go
index e809bef..f0ca074 100644
--- a/models/ps/model.go
+++ b/models/ps/model.go
@@ -124,6 +124,10 @@ type Anchestor struct {
 	plain      bool    // written as plain text
 }
 
+func (x Anchestor) IsZero() bool {
+	return x.AncestorID == ""
+}
+
 func (x Anchestor) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
 	if x.plain {
 		return e.EncodeElement(x.AncestorID, node)
@@ -134,12 +138,12 @@ func (x Anchestor) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error
 }
 
 func (x *Anchestor) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
-	if len(node.Nodes) == 0 && node.Value != "" {
-		v := Anchestor{plain: true}
-		if err := d.DecodeElement(&v.AncestorID, node); err != nil {
-			return err
-		}
-		*x = v
+	a := Anchestor{plain: true}
+	if err := d.DecodeElement(&a.AncestorID, node); err != nil {
+		return err
+	}
+	if !a.IsZero() {
+		*x = a
 		return nil
 	}
 	// strip TextUnmarshal method
-- 
2.43.0


From e3c3dd76e0cf1efcc61436c1c25728231e9e9c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:11 +0000
Subject: [PATCH 124/130] fix: own JSON with an empty structure for a text
 property was refused

---
 xmp/json.go | 4 ++++
 xmp/node.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/xmp/json.go b/xmp/json.go
index 2d1db9f..9bc8ba1 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -382,6 +382,10 @@ func jsonToNode(name string, v interface{}, node *Node) {
 			node.Nodes = append(node.Nodes, onode)
 		}
 		obj := v.(map[string]interface{})
+		if name != "" && len(obj) == 0 {
+			// an empty structure is not an empty text
+			onode.AddAttr(rdfResourceAttr)
+		}
 		for _, on := range sortedNames(obj) {
 			ov := obj[on]
 			if isArrayItemType(v) && on == "value" {
diff --git a/xmp/node.go b/xmp/node.go
index f74e5ae..9642b41 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -359,6 +359,9 @@ func (n *Node) text() (string, bool) {
 		if isRdfName(v.Name, "resource") || isRdfName(v.Name, "value") {
 			return v.Value, true
 		}
+		if isRdfName(v.Name, "parseType") {
+			hasFields = true
+		}
 		switch v.Name.Space {
 		case "", "xmlns", nsRDF.GetURI(), nsXML.GetURI():
 			switch getPrefix(v.Name.Local) {
-- 
2.43.0


From 72e9a675442c8db08a31af2f1151b6e2f923e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:25 +0000
Subject: [PATCH 125/130] fix: structures of unknown properties were written in
 a form RDF/XML does not allow and listed under different paths for different
 spellings

---
 xmp/marshal.go   |   3 +
 xmp/node.go      | 149 +++++++++++++++++++++++++++++++++++++++++++++++
 xmp/unmarshal.go |   1 +
 xmp/xmp_ext.go   |   1 +
 4 files changed, 154 insertions(+)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 28591a0..1f81a4a 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -187,6 +187,9 @@ func (e *Encoder) Encode(d *Document) error {
 
 	// 2  collect root-node namespaces
 	for _, n := range e.root.Nodes {
+		for _, v := range n.Nodes {
+			v.markStructs()
+		}
 		l := make([]Attr, 0)
 		for _, ns := range n.Namespaces(d) {
 			l = append(l, ns.GetAttr())
diff --git a/xmp/node.go b/xmp/node.go
index 9642b41..2b60754 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -887,3 +887,152 @@ func (n *Node) translate(d *Decoder) {
 		n.Nodes[i].translate(d)
 	}
 }
+
+// Brings structures of all RDF/XML forms (nested rdf:Description, fields as
+// attributes) into one form, a marked node with an element for each field.
+func (n *Node) unfold() {
+	if n.isForeign() {
+		return
+	}
+	n.unfoldDescription()
+	for _, v := range n.Nodes {
+		v.unfold()
+	}
+	if !n.isStruct() {
+		return
+	}
+	attr, fields := n.splitAttr()
+	n.Attr = attr
+	n.AddAttr(rdfResourceAttr)
+	for i := len(fields) - 1; i >= 0; i-- {
+		f := NewNode(fields[i].Name)
+		f.Value = fields[i].Value
+		n.Nodes = append(NodeList{f}, n.Nodes...)
+	}
+	// text between the fields has no meaning
+	n.Value = ""
+}
+
+// Moves the contents of a nested rdf:Description one level up, unless it has
+// a name or language of its own.
+func (n *Node) unfoldDescription() {
+	if len(n.Nodes) != 1 || !isRdfName(n.Nodes[0].XMLName, "Description") {
+		return
+	}
+	v := n.Nodes[0]
+	for _, a := range n.Attr {
+		if isRdf(a.Name) && a != rdfResourceAttr {
+			return
+		}
+	}
+	for _, a := range v.Attr {
+		if !isProperty(a.Name) {
+			return
+		}
+	}
+	for _, a := range v.Attr {
+		n.AddAttr(a)
+	}
+	n.AddAttr(rdfResourceAttr)
+	n.Nodes = v.Nodes
+}
+
+func (n *Node) unfoldDescriptions() {
+	if n.isForeign() {
+		return
+	}
+	n.unfoldDescription()
+	for _, v := range n.Nodes {
+		v.unfoldDescriptions()
+	}
+}
+
+// Tells if the node is a structure, not a simple value (which may have
+// qualifiers) or array.
+func (n *Node) isStruct() bool {
+	if isRdf(n.XMLName) && !isRdfName(n.XMLName, "li") || n.Value != "" && len(n.Nodes) == 0 {
+		return false
+	}
+	if len(n.Nodes) == 1 && (n.IsArray() || isRdfName(n.Nodes[0].XMLName, "Description")) {
+		return false
+	}
+	isStruct := len(n.Nodes) > 0
+	for _, a := range n.Attr {
+		switch {
+		case a == rdfResourceAttr || isProperty(a.Name):
+			isStruct = true
+		case isRdf(a.Name):
+			return false
+		}
+	}
+	return isStruct
+}
+
+// Tells if the contents of the node have another form than that of XMP values
+// (parseType Literal or Collection).
+func (n *Node) isForeign() bool {
+	for _, a := range n.Attr {
+		if isRdfName(a.Name, "parseType") && a.Value != rdfResourceAttr.Value {
+			return true
+		}
+	}
+	return false
+}
+
+// Separates the fields of a structure from the attributes of RDF and XML.
+func (n *Node) splitAttr() (attr, fields AttrList) {
+	for _, a := range n.Attr {
+		if isProperty(a.Name) {
+			fields = append(fields, a)
+		} else {
+			attr = append(attr, a)
+		}
+	}
+	return
+}
+
+// Marks the structures in a property as RDF/XML requires, where the fields
+// of a structure may not be both, attributes and elements.
+func (n *Node) markStructs() {
+	if n.isForeign() {
+		return
+	}
+	for _, v := range n.Nodes {
+		v.markStructs()
+	}
+	if len(n.Nodes) == 0 || !n.isStruct() {
+		return
+	}
+	attr, fields := n.splitAttr()
+	if len(fields) == 0 {
+		n.AddAttr(rdfResourceAttr)
+		return
+	}
+	desc := NewNode(rdfDescription)
+	desc.Attr = fields
+	desc.Nodes = n.Nodes
+	n.Attr = nil
+	for _, a := range attr {
+		if a != rdfResourceAttr {
+			n.Attr = append(n.Attr, a)
+		}
+	}
+	n.Nodes = NodeList{desc}
+}
+
+func isRdf(n xml.Name) bool {
+	return n.Space == nsRDF.GetURI() || n.Space == "" && getPrefix(n.Local) == "rdf"
+}
+
+// Tells if an attribute is a property, and not part of RDF/XML.
+func isProperty(n xml.Name) bool {
+	switch n.Space {
+	case "xmlns", nsRDF.GetURI(), nsXML.GetURI():
+		return false
+	}
+	switch getPrefix(n.Local) {
+	case "", "xmlns", "rdf", "xml":
+		return n.Space != ""
+	}
+	return true
+}
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index b63d246..9bf29e2 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -173,6 +173,7 @@ func (d *Decoder) decodeNode(ctx *NodeList, src *Node) error {
 	// capture the node and its children into the selected node
 	if storeNode {
 		src.translate(d)
+		src.unfold()
 		if !src.IsZero() {
 			node.AddNode(copyNode(src))
 			Log.Debugf("xmp: missing struct field for %s, saving as external node in %s model", name, node.FullName())
diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index eeff737..7876d28 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -277,6 +277,7 @@ func (n *Node) delResourceAttr() {
 func (x *NamedExtensionArray) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 	for _, v := range node.Nodes {
 		v.translate(d)
+		v.unfoldDescriptions()
 		ext := copyNode(v)
 		ext.XMLName = NewName(v.XMLName.Local)
 		ext.delResourceAttr()
-- 
2.43.0


From 93fc0036f01e94becb7c18001d45952cd7640730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:29 +0000
Subject: [PATCH 126/130] fix: path edits mixed text and fields in one item of
 an unknown array

---
 xmp/node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmp/node.go b/xmp/node.go
index 2b60754..3f15b43 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -647,6 +647,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) (err error) {
 					arr.AppendNode(NewNode(NewName("rdf:li")))
 				}
 			}
+			if arr.Nodes[idx].Value != "" {
+				return fmt.Errorf("'%s' is not a structure", name)
+			}
 			return arr.Nodes[idx].SetPath(path, value, flags)
 		}
 
@@ -677,6 +680,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) (err error) {
 			li.Value = value
 
 		case flags&(REPLACE|CREATE) > 0 && value != "" && idx > -1:
+			if idx < len(arr.Nodes) && len(arr.Nodes[idx].Nodes) > 0 {
+				return fmt.Errorf("'%s' is a structure", name)
+			}
 			// replace a single item, add intermediate index positions
 			if l := len(arr.Nodes); l <= idx {
 				for ; l <= idx; l++ {
-- 
2.43.0


From c11ef086525cc6e5fe9c75109386c4817ba2cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:33 +0000
Subject: [PATCH 127/130] fix: an empty rdf:about replaced the one of an
 earlier rdf:Description

---
 xmp/unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 9bf29e2..0599299 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -114,7 +114,8 @@ func (d *Decoder) Decode(x *Document) error {
 		// process attributes
 		for _, v := range n.Attr {
 			if v.Name.Space == nsRDF.GetURI() {
-				if v.Name.Local == "about" {
+				// an empty value means the same resource as the others
+				if v.Name.Local == "about" && v.Value != "" {
 					d.about = v.Value
 				}
 				continue
-- 
2.43.0


From c7ffb283646d0097df0275bd26c269ee843d9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 128/130] fix: a document stayed marked as changed after other
 contents were decoded into it

---
 xmp/json.go      | 1 +
 xmp/unmarshal.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/xmp/json.go b/xmp/json.go
index 9bc8ba1..5b80f12 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -295,6 +295,7 @@ func (d *Document) UnmarshalJSON(data []byte) error {
 	d.nodes = dec.nodes
 	d.intNsMap = dec.intNsMap
 	d.extNsMap = dec.extNsMap
+	d.dirty = false
 	return d.syncFromXMP()
 }
 
diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 0599299..13b6366 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -140,6 +140,7 @@ func (d *Decoder) Decode(x *Document) error {
 	x.nodes = d.nodes
 	x.intNsMap = d.intNsMap
 	x.extNsMap = d.extNsMap
+	x.dirty = false
 	return x.syncFromXMP()
 }
 
-- 
2.43.0


From 150ff5c89a3082aa241da51b09099f5240cdd5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:58 +0000
Subject: [PATCH 129/130] fix: keep values with qualifiers when reading JSON

A structure with an rdf:value and other members, like an identifier with
a scheme, lost its value: it was stored as text of a node that has child
nodes.
---
 xmp/json.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmp/json.go b/xmp/json.go
index 5b80f12..790f543 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -391,6 +391,11 @@ func jsonToNode(name string, v interface{}, node *Node) {
 			ov := obj[on]
 			if isArrayItemType(v) && on == "value" {
 				jsonToNode("", ov, onode)
+			} else if on == "rdf:value" && len(obj) > 1 && isSimpleValue(ov) {
+				// a value that comes with qualifiers is a child node like them
+				vnode := NewNode(xml.Name{Local: on})
+				onode.Nodes = append(onode.Nodes, vnode)
+				jsonToNode("", ov, vnode)
 			} else {
 				jsonToNode(on, ov, onode)
 			}
-- 
2.43.0


From bb960bf072dc3bd31846e7211f4602ebf69d9bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:25 +0000
Subject: [PATCH 130/130] fix: read tag lists of models from JSON

The JSON form of a tag list, like the extension tags of ID3, QuickTime and
iTunes models, was written but never read back.
---
 xmp/native.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index 06e5509..8f67a26 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -48,10 +48,10 @@ func (x TagList) MarshalXMP(e *Encoder, node *Node, m Model) error {
 }
 
 func (x *TagList) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
-	for _, v := range node.Attr {
+	add := func(key, value string) {
 		tag := Tag{
-			Key:   v.Name.Local,
-			Value: v.Value,
+			Key:   key,
+			Value: value,
 		}
 		if i := strings.Index(tag.Key, "-"); i > -1 {
 			// FIXME: parsing would be better here
@@ -59,6 +59,13 @@ func (x *TagList) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 		}
 		*x = append(*x, tag)
 	}
+	for _, v := range node.Attr {
+		add(v.Name.Local, v.Value)
+	}
+	// JSON does not distinguish attributes from child nodes
+	for _, v := range node.Nodes {
+		add(v.XMLName.Local, v.Value)
+	}
 	return nil
 }
 
-- 
2.43.0

