package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/xmp"
)

// Tags of the Exif standard and the properties Exif for XMP gives them.
var exifTagProps = `0102=tiff:BitsPerSample 0103=tiff:Compression 0101=tiff:ImageLength 0100=tiff:ImageWidth 010f=tiff:Make 0110=tiff:Model 0112=tiff:Orientation
0106=tiff:PhotometricInterpretation 011c=tiff:PlanarConfiguration 0128=tiff:ResolutionUnit 0115=tiff:SamplesPerPixel 011a=tiff:XResolution
0213=tiff:YCbCrPositioning 011b=tiff:YResolution 9000=exif:ExifVersion a000=exif:FlashpixVersion a001=exif:ColorSpace 9102=exif:CompressedBitsPerPixel
a002=exif:PixelXDimension a003=exif:PixelYDimension a004=exif:RelatedSoundFile 829a=exif:ExposureTime 829d=exif:FNumber 8822=exif:ExposureProgram
8824=exif:SpectralSensitivity 8828=exif:OECF 9201=exif:ShutterSpeedValue 9202=exif:ApertureValue 9203=exif:BrightnessValue 9204=exif:ExposureBiasValue
9205=exif:MaxApertureValue 9206=exif:SubjectDistance 9207=exif:MeteringMode 9208=exif:LightSource 9209=exif:Flash 920a=exif:FocalLength a20b=exif:FlashEnergy
a20c=exif:SpatialFrequencyResponse a20e=exif:FocalPlaneXResolution a20f=exif:FocalPlaneYResolution a210=exif:FocalPlaneResolutionUnit a215=exif:ExposureIndex
a217=exif:SensingMethod a300=exif:FileSource a301=exif:SceneType a302=exif:CFAPattern a401=exif:CustomRendered a402=exif:ExposureMode a403=exif:WhiteBalance
a404=exif:DigitalZoomRatio a405=exif:FocalLengthIn35mmFilm a406=exif:SceneCaptureType a407=exif:GainControl a408=exif:Contrast a409=exif:Saturation
a40a=exif:Sharpness a40b=exif:DeviceSettingDescription a40c=exif:SubjectDistanceRange a420=exif:ImageUniqueID 0000=exif:GPSVersionID 0005=exif:GPSAltitudeRef
0006=exif:GPSAltitude 0008=exif:GPSSatellites 0009=exif:GPSStatus 000a=exif:GPSMeasureMode 000b=exif:GPSDOP 000c=exif:GPSSpeedRef 000d=exif:GPSSpeed
000e=exif:GPSTrackRef 000f=exif:GPSTrack 0010=exif:GPSImgDirectionRef 0011=exif:GPSImgDirection 0012=exif:GPSMapDatum 0017=exif:GPSDestBearingRef
0018=exif:GPSDestBearing 0019=exif:GPSDestDistanceRef 001a=exif:GPSDestDistance 001b=exif:GPSProcessingMethod 001c=exif:GPSAreaInformation 001e=exif:GPSDifferential`

func stdFormOf(name string) *stdForm {
	for _, s := range stdForms {
		if i := strings.Index(name, ":"); s.prefix == name[:i] {
			return s.forms[name[i+1:]]
		}
	}
	return nil
}

// tagsOut sets single tags in the notation of EXIF tools. The packet has the property of the tag
// with the same meaning.
func tagsOut(c *Case) {
	r := c.R
	e := &exif.ExifInfo{}
	want := map[string]*val{}
	// decimals are kept with the precision of a float32
	decimal := map[string]*big.Rat{}
	var log []string
	all := strings.Fields(exifTagProps)
	for i := 1 + r.Intn(6); i > 0; i-- {
		x := all[r.Intn(len(all))]
		if r.Intn(4) == 0 {
			x = pick(r, "9209=exif:Flash", "a302=exif:CFAPattern", "8828=exif:OECF", "a20c=exif:SpatialFrequencyResponse", "a40b=exif:DeviceSettingDescription")
		}
		tag, prop := "0x"+x[:4], x[5:]
		if want[prop] != nil {
			continue
		}
		f := stdFormOf(prop)
		var text string
		var v *val
		word := func() string { return fmt.Sprintf("w%d", r.Intn(1000)) }
		fields := func(kv ...interface{}) *val {
			t := &val{kind: 't', fields: map[qname]*val{}}
			for i := 0; i < len(kv); i += 2 {
				q := qname{stdURI("exif"), kv[i].(string)}
				switch x := kv[i+1].(type) {
				case string:
					t.fields[q] = newScalar(x)
				case []string:
					a := &val{kind: 'a', typ: "Seq"}
					for _, s := range x {
						a.items = append(a.items, newScalar(s))
					}
					t.fields[q] = a
				}
			}
			return t
		}
		boolText := func(b bool) string {
			if b {
				return "True"
			}
			return "False"
		}
		cols, rows := 1+r.Intn(3), 1+r.Intn(3)
		sep := pick(r, " ", " ", "  ")
		switch prop {
		case "exif:Flash":
			// bit 0 fired, 1-2 return, 3-4 mode, 5 no function, 6 red eye
			n := 1 + r.Intn(127)
			text = strconv.Itoa(n)
			v = fields("Fired", boolText(n&1 == 1), "Return", strconv.Itoa(n/2%4), "Mode", strconv.Itoa(n/8%4), "Function", boolText(n/32%2 == 1), "RedEyeMode", boolText(n/64 == 1))
		case "exif:CFAPattern":
			var l []string
			for i := 0; i < cols*rows; i++ {
				l = append(l, strconv.Itoa(pickInt(r.Intn, 0, 1, 2, 6, 255)))
			}
			text = strings.Join(append([]string{strconv.Itoa(cols), strconv.Itoa(rows)}, l...), sep)
			v = fields("Columns", strconv.Itoa(cols), "Rows", strconv.Itoa(rows), "Values", l)
		case "exif:OECF", "exif:SpatialFrequencyResponse":
			var n, l []string
			for i := 0; i < cols; i++ {
				n = append(n, word())
			}
			for i := 0; i < cols*rows; i++ {
				l = append(l, fmt.Sprintf("%d/%d", 1+r.Intn(100), 1+r.Intn(100)))
			}
			text = strings.Join(append(append([]string{strconv.Itoa(cols), strconv.Itoa(rows)}, n...), l...), sep)
			v = fields("Columns", strconv.Itoa(cols), "Rows", strconv.Itoa(rows), "Names", n, "Values", l)
		case "exif:DeviceSettingDescription":
			var l []string
			for i := 0; i < cols*rows; i++ {
				l = append(l, word())
			}
			text = strings.Join(append([]string{strconv.Itoa(cols), strconv.Itoa(rows)}, l...), sep)
			v = fields("Columns", strconv.Itoa(cols), "Rows", strconv.Itoa(rows), "Settings", l)
		default:
			switch f.k {
			case 'T', 'I', '(', 'Q':
			default:
				continue
			}
			v = f.make(r)
			if f.k == 'T' {
				v = newScalar(name26(r))
			}
			text = v.text
			if f.k == 'Q' && r.Intn(3) == 0 {
				// a decimal
				k := 1 + r.Intn(4)
				d := []int64{1, 10, 100, 1000, 10000}[k]
				// decimals below one may become the next 1/n
				q := big.NewRat(d+int64(r.Intn(1000000)), d)
				text = q.FloatString(k)
				v = newScalar(q.Num().String() + "/" + q.Denom().String())
				decimal[prop] = q
			}
		}
		if f.zero(v) {
			continue
		}
		if r.Intn(4) == 0 {
			tag = strings.ToUpper(tag[2:])
			tag = "0x" + tag
		}
		log = append(log, fmt.Sprintf("%s=%q", tag, text))
		if err := e.SetTag(tag, text); err != nil {
			c.Fail("set "+prop, "SetTag(%q,%q): %v", tag, text, err)
			return
		}
		want[prop] = v
		c.Event("tag " + prop)
		c.Seen(prop, text)
	}
	if len(want) == 0 {
		return
	}
	d := xmp.NewDocument()
	defer func() { d.Close() }()
	if _, err := d.AddModel(e); err != nil {
		c.Fail("add", "AddModel: %v", err)
		return
	}
	for pass := 0; pass < 2; pass++ {
		b, err := xmp.Marshal(d)
		if err != nil {
			c.Fail("encode", "%v after %v", err, log)
			return
		}
		c.Art("packet", b)
		p, err := readXMP(b)
		if err != nil {
			c.Fail("output", "%v", err)
			return
		}
		for _, n := range sortedKeys(want) {
			f := stdFormOf(n)
			c.Eval(1)
			q := qname{stdURI(n[:4]), n[5:]}
			if w := decimal[n]; w != nil {
				g, ok := new(big.Rat).SetString(textOf(p.props[q]))
				if ok {
					g.Sub(g, w)
					ok = g.Abs(g).Cmp(new(big.Rat).Mul(w, big.NewRat(1, 4000000))) < 0
				}
				if !ok {
					c.Fail("decimal", "%s is %v, want %s after %v", n, p.props[q], want[n], log)
					return
				}
				continue
			}
			if s := f.same(want[n], p.props[q], n, map[string]string{}); s != "" {
				c.Fail("tag:"+n, "%s; want %s, got %v after %v", s, want[n], p.props[q], log)
				return
			}
		}
		// properties of other tags stay away
		for q, v := range p.props {
			if (q.uri == stdURI("exif") || q.uri == stdURI("tiff")) && want[prefixOf(q.uri)+":"+q.local] == nil {
				if v.text == "0" {
					continue // defaults of the model
				}
				c.Fail("other:"+q.local, "%s = %s appeared after %v", q, v, log)
				return
			}
		}
		d.Close()
		if d, err = decodeXML(b); err != nil {
			c.Fail("reread", "%v", err)
			return
		}
		d.SetDirty()
	}
}

func pickInt(n func(int) int, l ...int) int { return l[n(len(l))] }

func prefixOf(uri string) string {
	if uri == stdURI("tiff") {
		return "tiff"
	}
	return "exif"
}
