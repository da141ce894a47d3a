package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
)

// Forms of the standard properties, written from the standards (XMP part 1 and 2, Exif for XMP)
// and independent of the types the models use:
//
//	T text, I integer, R real, Q rational, D date, B boolean, U uri, L texts by language, G coordinate,
//	b:X s:X a:X unordered, ordered, alternative array, (a|b|c) choice, {name=X name=X} structure
var standards = []string{
	`dc http://purl.org/dc/elements/1.1/ contributor=b:T coverage=T creator=s:T date=s:D description=L format=T identifier=T language=b:(en|de|fr-CA|x-klingon)
	publisher=b:T relation=b:T rights=L source=T subject=b:T title=L type=b:T`,
	`xmp http://ns.adobe.com/xap/1.0/ CreateDate=D CreatorTool=T Identifier=b:T Label=T MetadataDate=D ModifyDate=D Rating=(-1|1|2|3|4|5) BaseURL=U Nickname=T
	Advisory=b:T Thumbnails=a:{xmpGImg:format=(JPEG) xmpGImg:height=I xmpGImg:width=I xmpGImg:image=(/9j/4AAQ|AAEC)}`,
	`xmpRights http://ns.adobe.com/xap/1.0/rights/ Certificate=U Marked=B Owner=b:T UsageTerms=L WebStatement=U`,
	`xmpMM http://ns.adobe.com/xap/1.0/mm/ DerivedFrom=%ref DocumentID=N InstanceID=N OriginalDocumentID=N RenditionClass=(default|draft|low-res|proof|screen|thumbnail) RenditionParams=T
	History=s:%evt Ingredients=b:%ref ManagedFrom=%ref Manager=T ManagerVariant=T ManageTo=U ManageUI=U VersionID=T Versions=s:{stVer:comments=T stVer:event=%evt stVer:modifier=T stVer:modifyDate=D stVer:version=T}`,
	`xmpBJ http://ns.adobe.com/xap/1.0/bj/ JobRef=b:{stJob:id=T stJob:name=T stJob:url=U}`,
	`xmpTPg http://ns.adobe.com/xap/1.0/t/pg/ Colorants=s:%col Fonts=b:{stFnt:childFontFiles=s:T stFnt:composite=B stFnt:fontFace=T stFnt:fontFamily=T stFnt:fontFileName=T stFnt:fontName=T stFnt:fontType=(TrueType|Type 1|Open Type) stFnt:versionString=T}
	MaxPageSize=%dim NPages=I PlateNames=s:T`,
	`xmpDM http://ns.adobe.com/xmp/1.0/DynamicMedia/ absPeakAudioFilePath=U album=T altTapeName=T altTimecode=%tc artist=T audioChannelType=(Mono|Stereo|5.1|7.1|16 Channel)
	audioCompressor=T audioSampleRate=I audioSampleType=(8Int|16Int|24Int|32Int|32Float|Compressed|Packed|Other) cameraAngle=(Low Angle|Eye Level|High Angle|Overhead Shot|Birds Eye Shot|Dutch Angle|POV|Over the Shoulder|Reaction Shot)
	cameraLabel=T cameraModel=T cameraMove=(Aerial|Boom Up|Boom Down|Crane Up|Crane Down|Dolly In|Dolly Out|Pan Left|Pan Right|Pedestal Up|Pedestal Down|Tilt Up|Tilt Down|Tracking|Truck Left|Truck Right|Zoom In|Zoom Out)
	client=T comment=T composer=T director=T directorPhotography=T discNumber=I duration=%time engineer=T genre=T good=B instrument=T introTime=%time
	key=(C|C#|D|D#|E|F|F#|G|G#|A|A#|B) logComment=T loop=B lyrics=T numberOfBeats=R outCue=%time partOfCompilation=B projectName=T projectRef={xmpDM:path=U xmpDM:type=(movie|still|audio|custom)}
	pullDown=(WSSWW|SSWWW|SWWWS|WWWSS|WWSSW|WWWSW|WWSWW|WSWWW|SWWWW|WWWWS) relativePeakAudioFilePath=U relativeTimestamp=%time releaseDate=D
	scaleType=(Major|Minor|Both|Neither) scene=T shotDate=D shotDay=T shotLocation=T shotName=T shotNumber=T shotSize=(ECU|MCU|CU|MS|WS|MWS|EWS)
	speakerPlacement=T startTimecode=%tc stretchMode=(Fixed length|Time-Scale|Resample|Beat Splice|Hybrid) takeNumber=I tapeName=T tempo=R timeSignature=(2/4|3/4|4/4|5/4|7/4|6/8|9/8|12/8|other)
	trackNumber=I videoAlphaMode=(straight|pre-multiplied|none) videoAlphaUnityIsTransparent=B videoColorSpace=(sRGB|CCIR-601|CCIR-709) videoCompressor=T
	videoFieldOrder=(Upper|Lower|Progressive) videoFrameSize=%dim videoPixelDepth=(8Int|16Int|24Int|32Int|32Float|Other)
	contributedMedia=b:{xmpDM:duration=%time xmpDM:managed=B xmpDM:path=U xmpDM:startTime=%time xmpDM:track=T xmpDM:webStatement=U}
	markers=s:%mark Tracks=b:{xmpDM:frameRate=(f25|f24000s1001) xmpDM:markers=s:%mark xmpDM:trackName=T xmpDM:trackType=(Chapter|Comment|Cue|Index)}`,
	`photoshop http://ns.adobe.com/photoshop/1.0/ AuthorsPosition=T CaptionWriter=T Category=T City=T ColorMode=(1|2|3|4|7|8|9) Country=T Credit=T DateCreated=D
	DocumentAncestors=b:T Headline=T History=T ICCProfile=T Instructions=T Source=T State=T SupplementalCategories=b:T TextLayers=s:{photoshop:LayerName=T photoshop:LayerText=T}
	TransmissionReference=T Urgency=(1|2|3|4|5|6|7|8)`,
	`pdf http://ns.adobe.com/pdf/1.3/ Keywords=T PDFVersion=(1.3|1.7|2.0) Producer=T`,
	`crs http://ns.adobe.com/camera-raw-settings/1.0/ AutoBrightness=B AutoContrast=B AutoExposure=B AutoShadows=B BlueHue=P BlueSaturation=P Brightness=P CameraProfile=T
	ChromaticAberrationB=P ChromaticAberrationR=P ColorNoiseReduction=I Contrast=P CropTop=R CropLeft=R CropBottom=R CropRight=R CropAngle=R CropWidth=R CropHeight=R
	CropUnits=(1|2) Exposure=R GreenHue=P GreenSaturation=P HasCrop=B HasSettings=B LuminanceSmoothing=I RawFileName=T RedHue=P RedSaturation=P Saturation=P Shadows=P
	ShadowTint=P Sharpness=I Temperature=I Tint=P ToneCurve=s:(0, 0|32, 22|64, 56|128, 128|255, 255) ToneCurveName=(Linear|Medium Contrast|Strong Contrast|Custom) Version=T VignetteAmount=P VignetteMidpoint=I
	WhiteBalance=(As Shot|Auto|Daylight|Cloudy|Shade|Tungsten|Fluorescent|Flash|Custom) RetouchInfo=s:T RedEyeInfo=s:T ToneCurvePV2012=s:(0, 0|64, 56|128, 128|255, 255)`,
	`tiff http://ns.adobe.com/tiff/1.0/ ImageWidth=I ImageLength=I BitsPerSample=s:I Compression=(1|6) PhotometricInterpretation=(2|6) Orientation=(1|2|3|4|5|6|7|8) SamplesPerPixel=I
	PlanarConfiguration=(1|2) YCbCrSubSampling=s:(1|2) YCbCrPositioning=(1|2) XResolution=Q YResolution=Q ResolutionUnit=(2|3) TransferFunction=s:I WhitePoint=s:Q
	PrimaryChromaticities=s:Q YCbCrCoefficients=s:Q ReferenceBlackWhite=s:Q Make=T Model=T ImageDescription=L Copyright=L DateTime=D Software=T`,
	`exif http://ns.adobe.com/exif/1.0/ ExifVersion=(0210|0220|0230) FlashpixVersion=(0100) ColorSpace=(1|65535) ComponentsConfiguration=s:(1|2|3|4|5|6) CompressedBitsPerPixel=Q
	PixelXDimension=I PixelYDimension=I UserComment=L RelatedSoundFile=T DateTimeOriginal=D DateTimeDigitized=D ExposureTime=Q FNumber=Q ExposureProgram=(1|2|3|4|5|6|7|8)
	SpectralSensitivity=T ISOSpeedRatings=s:I OECF=%oecf ShutterSpeedValue=Q ApertureValue=Q BrightnessValue=Q ExposureBiasValue=Q MaxApertureValue=Q SubjectDistance=Q
	MeteringMode=(1|2|3|4|5|6|255) LightSource=(1|2|3|4|9|10|17|24|255) Flash={exif:Fired=B exif:Function=B exif:Mode=(1|2|3) exif:RedEyeMode=B exif:Return=(2|3)} FocalLength=Q SubjectArea=s:I FlashEnergy=Q
	SpatialFrequencyResponse=%oecf FocalPlaneXResolution=Q FocalPlaneYResolution=Q FocalPlaneResolutionUnit=(2|3) SubjectLocation=s:I ExposureIndex=Q SensingMethod=(1|2|3|4|5|7|8)
	FileSource=(3) SceneType=(1) CFAPattern={exif:Columns=I exif:Rows=I exif:Values=s:(1|2|0|255)} CustomRendered=(1) ExposureMode=(1|2) WhiteBalance=(1) DigitalZoomRatio=Q FocalLengthIn35mmFilm=I
	SceneCaptureType=(1|2|3) GainControl=(1|2|3|4) Contrast=(1|2) Saturation=(1|2) Sharpness=(1|2) DeviceSettingDescription={exif:Columns=I exif:Rows=I exif:Settings=s:T} SubjectDistanceRange=(1|2|3)
	ImageUniqueID=T GPSVersionID=(2.0.0.0|2.2.0.0) GPSLatitude=G GPSLongitude=G GPSAltitudeRef=(0|1) GPSAltitude=Q GPSTimeStamp=D GPSSatellites=T GPSStatus=(A|V) GPSMeasureMode=(2|3)
	GPSDOP=Q GPSSpeedRef=(K|M|N) GPSSpeed=Q GPSTrackRef=(T|M) GPSTrack=Q GPSImgDirectionRef=(T|M) GPSImgDirection=Q GPSMapDatum=T GPSDestLatitude=G GPSDestLongitude=G
	GPSDestBearingRef=(T|M) GPSDestBearing=Q GPSDestDistanceRef=(K|M|N) GPSDestDistance=Q GPSProcessingMethod=T GPSAreaInformation=T GPSDifferential=(1)`,
	`aux http://ns.adobe.com/exif/1.0/aux/ Lens=T SerialNumber=T`,
}

var stdStructs = map[string]string{
	"ref": `{stRef:alternatePaths=s:U stRef:documentID=N stRef:filePath=U stRef:fromPart=(all|metadata|content) stRef:instanceID=N stRef:lastModifyDate=D stRef:manager=T stRef:managerVariant=T stRef:manageTo=U
	stRef:manageUI=U stRef:maskMarkers=(All|None) stRef:originalDocumentID=N stRef:partMapping=T stRef:renditionClass=(default|draft) stRef:renditionParams=T stRef:toPart=(all|metadata|content) stRef:versionID=T}`,
	"evt":  `{stEvt:action=(converted|copied|created|cropped|edited|filtered|formatted|version_updated|printed|published|managed|produced|resized|saved) stEvt:changed=(/|/metadata|/content;/metadata) stEvt:instanceID=N stEvt:parameters=T stEvt:softwareAgent=T stEvt:when=D}`,
	"col":  `{xmpG:swatchName=T xmpG:mode=(CMYK|RGB|LAB) xmpG:type=(PROCESS|SPOT) xmpG:cyan=R xmpG:magenta=R xmpG:yellow=R xmpG:black=R xmpG:red=I xmpG:green=I xmpG:blue=I}`,
	"dim":  `{stDim:h=R stDim:w=R stDim:unit=(inch|mm|pixel|pica|point)}`,
	"tc":   `{xmpDM:timeFormat=(24Timecode|25Timecode|2997DropTimecode|2997NonDropTimecode|30Timecode|50Timecode|5994DropTimecode|5994NonDropTimecode|60Timecode|23976Timecode) xmpDM:timeValue=(01:02:03:04|10:59:00:12)}`,
	"time": `{xmpDM:scale=Q xmpDM:value=I}`,
	"mark": `{xmpDM:comment=T xmpDM:duration=(100f25|7f24000s1001|1f30) xmpDM:location=U xmpDM:name=T xmpDM:probability=R xmpDM:speaker=T xmpDM:startTime=(100f25|7f24000s1001) xmpDM:target=T xmpDM:type=(Chapter|Cue|Comment|Index|Speech|Track)}`,
	"oecf": `{exif:Columns=I exif:Rows=I exif:Names=s:T exif:Values=s:Q}`,
}

// stdMoved: properties the models write under another name.
var stdMoved = map[string]string{
	"tiff:ImageDescription": "dc:description", "tiff:Copyright": "dc:rights", "tiff:DateTime": "xmp:ModifyDate", "tiff:Software": "xmp:CreatorTool",
	"exif:DateTimeOriginal": "photoshop:DateCreated", "exif:ISOSpeedRatings": "exif:PhotographicSensitivity",
}

// stdForm is a parsed form.
type stdForm struct {
	k       byte
	choices []string
	elem    *stdForm
	names   []string
	fields  map[string]*stdForm
}

func parseForm(s string, i *int) *stdForm {
	c := s[*i]
	*i++
	switch c {
	case 'b', 's', 'a':
		*i++ // :
		return &stdForm{k: c, elem: parseForm(s, i)}
	case '(':
		e := *i + strings.IndexByte(s[*i:], ')')
		f := &stdForm{k: '(', choices: strings.Split(s[*i:e], "|")}
		*i = e + 1
		return f
	case '%':
		e := *i
		for e < len(s) && s[e] >= 'a' && s[e] <= 'z' {
			e++
		}
		n := s[*i:e]
		*i = e
		j := 0
		return parseForm(stdStructs[n], &j)
	case '{':
		f := &stdForm{k: '{'}
		f.names, f.fields = parseForms(s, i)
		*i++
		return f
	}
	return &stdForm{k: c}
}

func parseForms(s string, i *int) (names []string, l map[string]*stdForm) {
	l = map[string]*stdForm{}
	for {
		for *i < len(s) && strings.IndexByte(" \t\n", s[*i]) >= 0 {
			*i++
		}
		if *i >= len(s) || s[*i] == '}' {
			return
		}
		e := *i + strings.IndexByte(s[*i:], '=')
		n := s[*i:e]
		*i = e + 1
		names = append(names, n)
		l[n] = parseForm(s, i)
	}
}

type standard struct {
	prefix, uri string
	names       []string
	forms       map[string]*stdForm
}

var stdForms = func() (l []*standard) {
	for _, s := range standards {
		f := strings.SplitN(s, " ", 3)
		i := 0
		d := &standard{prefix: f[0], uri: f[1]}
		d.names, d.forms = parseForms(f[2], &i)
		l = append(l, d)
	}
	return
}()

var stdURIs = map[string]string{
	"stRef": "http://ns.adobe.com/xap/1.0/sType/ResourceRef#", "stEvt": "http://ns.adobe.com/xap/1.0/sType/ResourceEvent#",
	"stVer": "http://ns.adobe.com/xap/1.0/sType/Version#", "stJob": "http://ns.adobe.com/xap/1.0/sType/Job#",
	"stDim": "http://ns.adobe.com/xap/1.0/sType/Dimensions#", "stFnt": "http://ns.adobe.com/xap/1.0/sType/Font#",
	"xmpG": "http://ns.adobe.com/xap/1.0/g/", "xmpGImg": "http://ns.adobe.com/xap/1.0/g/img/",
}

func stdURI(p string) string {
	if u := stdURIs[p]; u != "" {
		return u
	}
	for _, s := range stdForms {
		if s.prefix == p {
			return s.uri
		}
	}
	return ""
}

func (f *stdForm) make(r *rand.Rand) *val {
	t := func(s string) *val { return &val{kind: 's', text: s} }
	switch f.k {
	case 'T':
		return t(genText(r))
	case 'I':
		return t(strconv.Itoa(1 + r.Intn(1<<uint(1+r.Intn(15)))))
	case 'P': // integers with a sign as Camera Raw writes them
		n := 1 + r.Intn(150)
		switch r.Intn(3) {
		case 0:
			return t(fmt.Sprintf("+%d", n))
		case 1:
			return t(fmt.Sprintf("-%d", n))
		}
		return t(strconv.Itoa(n))
	case 'R':
		return t(pick(r, "0.5", "1.25", "+0.75", "-3.5", "12", "0.0625", "100.125", "2.5"))
	case 'Q':
		return t(fmt.Sprintf("%d/%d", 1+r.Intn(10000), 1+r.Intn(10000)))
	case 'D':
		d := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", 1970+r.Intn(80), 1+r.Intn(12), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60))
		switch r.Intn(8) {
		case 0:
			return t(d[:10])
		case 1:
			return t(d[:7])
		case 2:
			return t(d[:4])
		case 3:
			return t(d[:16] + pick(r, "Z", "+02:00", "-05:30"))
		}
		return t(d + pick(r, "Z", "+02:00", "-05:30", ".25Z", ".125+01:00"))
	case 'B':
		return t(pick(r, "True", "False"))
	case 'U':
		return t(pick(r, "http://example.com/a?b=c&d=e", "file:///a/b c", "x:y", "http://example.com/"+genToken(r), "../a/b.wav"))
	case 'N':
		return t(pick(r, "xmp.iid:", "xmp.did:", "uuid:", "adobe:docid:photoshop:", "") + fmt.Sprintf("%08X-%04x-%04x-8000-%012x", r.Int31(), r.Intn(65536), r.Intn(65536), r.Int63n(1<<48)))
	case 'G':
		if r.Intn(2) == 0 {
			return t(fmt.Sprintf("%d,%d.%04d%s", r.Intn(90), r.Intn(60), r.Intn(10000), pick(r, "N", "S", "E", "W")))
		}
		return t(fmt.Sprintf("%d,%d,%d%s", r.Intn(90), r.Intn(60), r.Intn(60), pick(r, "N", "S", "E", "W")))
	case '(':
		return t(f.choices[r.Intn(len(f.choices))])
	case 'L':
		a := &val{kind: 'a', typ: "Alt", items: []*val{{kind: 's', text: genText(r), lang: "x-default"}}}
		p := r.Perm(len(langs))
		for i := r.Intn(3); i > 0; i-- {
			a.items = append(a.items, &val{kind: 's', text: genText(r), lang: langs[p[i]]})
		}
		return a
	case 'b', 's', 'a':
		a := &val{kind: 'a', typ: map[byte]string{'b': "Bag", 's': "Seq", 'a': "Alt"}[f.k]}
		for i := 1 + r.Intn(4); i > 0; i-- {
			a.items = append(a.items, f.elem.make(r))
		}
		return a
	}
	s := &val{kind: 't', fields: map[qname]*val{}}
	for len(s.fields) == 0 {
		for _, n := range f.names {
			if r.Intn(len(f.names)) < 4 {
				i := strings.Index(n, ":")
				s.fields[qname{stdURI(n[:i]), n[i+1:]}] = f.fields[n].make(r)
			}
		}
	}
	return s
}

// anyDate reads dates of any precision.
func anyDate(s string) (t time.Time, err error) {
	for _, f := range []string{time.RFC3339Nano, "2006-01-02T15:04Z07:00", "2006-01-02", "2006-01", "2006"} {
		if t, err = time.Parse(f, s); err == nil {
			break
		}
	}
	return
}

// zero: values the models cannot tell from none
func (f *stdForm) zero(v *val) bool {
	switch f.k {
	case 'B':
		return v.text == "False"
	case '(':
		return v.text == "0"
	case 'b', 's', 'a':
		for _, w := range v.items {
			if !f.elem.zero(w) {
				return false
			}
		}
		return true
	case '{':
		for n, g := range f.fields {
			i := strings.Index(n, ":")
			if w := v.fields[qname{stdURI(n[:i]), n[i+1:]}]; w != nil && !g.zero(w) {
				return false
			}
		}
		return true
	}
	return false
}

// same compares a value to the one written; "" if they mean the same.
// Arrays of the wrong kind are noted in kinds.
func (f *stdForm) same(want, got *val, at string, kinds map[string]string) string {
	if got == nil {
		if f.zero(want) {
			return ""
		}
		return at + " is missing"
	}
	switch f.k {
	case 'L':
		if got.kind != 'a' {
			return fmt.Sprintf("%s is no list of texts by language: %s", at, got)
		}
		if got.typ != "Alt" {
			kinds[at] = "no list of texts by language: " + got.String()
			for i, v := range want.items {
				if len(got.items) != len(want.items) || v.text != got.items[i].text {
					return fmt.Sprintf("%s has other texts: %s", at, got)
				}
			}
			return ""
		}
		w, g := map[string]string{}, map[string]string{}
		for _, v := range want.items {
			w[strings.ToLower(v.lang)] = v.text
		}
		for _, v := range got.items {
			g[strings.ToLower(v.lang)] = v.text
		}
		if fmt.Sprint(w) != fmt.Sprint(g) {
			return fmt.Sprintf("%s is %v, not %v", at, g, w)
		}
		return ""
	case 'b', 's', 'a':
		if got.kind != 'a' {
			return fmt.Sprintf("%s is not a %s: %s", at, want.typ, got)
		}
		if got.typ != want.typ {
			kinds[at[strings.LastIndex(at, "/")+1:]] = fmt.Sprintf("a %s, not a %s: %s", got.typ, want.typ, got)
		}
		if len(got.items) != len(want.items) {
			return fmt.Sprintf("%s has %d items, not %d", at, len(got.items), len(want.items))
		}
		for i := range want.items {
			if s := f.elem.same(want.items[i], got.items[i], fmt.Sprintf("%s[%d]", at, i), kinds); s != "" {
				return s
			}
		}
		return ""
	case '{':
		if got.kind != 't' {
			if len(want.fields) > 0 && f.zero(want) {
				return ""
			}
			return fmt.Sprintf("%s is no structure: %s", at, got)
		}
		for _, n := range f.names {
			i := strings.Index(n, ":")
			q := qname{stdURI(n[:i]), n[i+1:]}
			if w := want.fields[q]; w != nil {
				if s := f.fields[n].same(w, got.fields[q], at+"/"+n, kinds); s != "" {
					return s
				}
			}
		}
		return ""
	}
	if got.kind != 's' {
		return fmt.Sprintf("%s is not simple: %s", at, got)
	}
	a, b := want.text, got.text
	ok := a == b
	switch f.k {
	case 'I', 'P':
		x, e1 := strconv.Atoi(a)
		y, e2 := strconv.Atoi(b)
		ok = e1 == nil && e2 == nil && x == y
	case 'R':
		x, e1 := strconv.ParseFloat(a, 64)
		y, e2 := strconv.ParseFloat(b, 64)
		ok = e1 == nil && e2 == nil && x == y
	case 'Q':
		x, ok1 := new(big.Rat).SetString(a)
		y, ok2 := new(big.Rat).SetString(b)
		ok = ok1 && ok2 && x.Cmp(y) == 0
	case 'D':
		x, e1 := anyDate(a)
		y, e2 := anyDate(b)
		ok = e1 == nil && e2 == nil && x.Equal(y)
	case 'B':
		ok = strings.EqualFold(a, b)
	}
	if !ok {
		return fmt.Sprintf("%s is %q, not %q", at, b, a)
	}
	return ""
}

// standardForms reads and writes standard properties in their standard form.
func standardForms(c *Case) {
	r := c.R
	d := newGdoc()
	for p, u := range stdURIs {
		d.pfx[u] = p
	}
	for _, s := range stdForms {
		d.pfx[s.uri] = s.prefix
	}
	type one struct {
		n string
		q qname
		f *stdForm
	}
	var l []one
	s := stdForms[r.Intn(len(stdForms))]
	for i := 1 + r.Intn(3); i > 0; i-- {
		n := s.names[r.Intn(len(s.names))]
		q := qname{s.uri, n}
		if d.props[q] != nil {
			continue
		}
		v := s.forms[n].make(r)
		if n == "YCbCrSubSampling" {
			v.items = []*val{{kind: 's', text: "2"}, {kind: 's', text: pick(r, "1", "2")}}
		}
		uniqAlts(c, v)
		d.props[q] = v
		l = append(l, one{s.prefix + ":" + n, q, s.forms[n]})
	}
	b := writeXMP(d, randStyle(r), r)
	c.Art("input", b)
	doc, err := decodeXML(b)
	if err != nil {
		c.Fail("refused:"+l[0].n, "%v", err)
		return
	}
	defer doc.Close()
	out, err := xmp.Marshal(doc)
	if err != nil {
		c.Fail("write:"+l[0].n, "%v", err)
		return
	}
	c.Art("output", out)
	x, err := readXMP(out)
	if err != nil {
		c.Fail("output", "%v", err)
		return
	}
	kinds := map[string]string{}
	defer func() {
		for _, n := range sortedKeys(kinds) {
			c.Fail("kind:"+n, "%s is %s", n, kinds[n])
		}
	}()
	for _, o := range l {
		c.Eval(1)
		c.Event(string(o.f.k))
		c.Seen(o.n, d.props[o.q].String())
		want := d.props[o.q]
		if m, ok := stdMoved[o.n]; ok {
			// written in another place, nothing to see by path before it is saved
			to := x.props[golden.q(m)]
			if o.n == "exif:ISOSpeedRatings" {
				want, o.f = want.items[0], &stdForm{k: 'I'}
			}
			if e := o.f.same(want, to, m, kinds); e != "" {
				c.Fail("form:"+o.n, "%s as %s: %s (written as %s)", o.n, m, e, want)
			}
			continue
		}
		if e := o.f.same(want, x.props[o.q], o.n, kinds); e != "" {
			c.Fail("form:"+o.n, "%s (written as %s)", e, want)
			continue
		}
		// by path
		at := xmp.Path(o.n)
		switch {
		case want.kind == 'a' && o.f.k != 'L' && o.f.elem.k != '{':
			for i, v := range want.items {
				if o.f.elem.zero(v) {
					continue
				}
				p := xmp.Path(fmt.Sprintf("%s[%d]", o.n, i))
				c.Eval(1)
				g, err := doc.GetPath(p)
				if err != nil {
					c.Fail("path:"+o.n, "GetPath(%s): %v", p, err)
				} else if e := o.f.elem.same(v, &val{kind: 's', text: g}, string(p), kinds); e != "" {
					c.Fail("path:"+o.n, "GetPath: %s", e)
				}
			}
		case want.kind == 's' && !o.f.zero(want):
			g, err := doc.GetPath(at)
			if err != nil {
				c.Fail("path:"+o.n, "GetPath(%s): %v", at, err)
			} else if e := o.f.same(want, &val{kind: 's', text: g}, string(at), kinds); e != "" {
				c.Fail("path:"+o.n, "GetPath: %s", e)
			}
		}
	}
}

func init() {
	register(&Property{
		ID:   "P28",
		Rule: "a standard property does not keep the form and value the standards give it",
		Scenarios: []Scenario{
			{"standard forms", 30000, 600000, standardForms},
		},
	})
}
