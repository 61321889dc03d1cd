package mp4

import (
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
)

// The wire layouts of contracts/layouts.txt with an encoder and a generator of their own.

type vLayField struct {
	name, kind  string // u i b str bstr varint none, or the name of a structure
	width       int    // -1: by rule
	count       string // "" one, "*", "?", a number, "=Field"
	ver         string
	need, bar   uint32
	rule        bool
	ext, ptr    bool
	dev         int // the width this library is known to use instead
}

type vLayStruct struct {
	name   string
	fields []vLayField
	counts map[string]bool
}

type vLayBox struct {
	types    []string
	st       *vLayStruct
	versions []uint8
	full     bool
	ctx      string
}

type vLayouts struct {
	structs map[string]*vLayStruct
	boxes   []*vLayBox
}

func vLoadLayouts(t *testing.T) *vLayouts {
	d, err := os.ReadFile(os.Getenv("VERIF_LAYOUTS"))
	if err != nil {
		t.Fatal(err)
	}
	l := &vLayouts{structs: map[string]*vLayStruct{}}
	var cur *vLayStruct
	for _, line := range strings.Split(string(d), "\n") {
		if i := strings.Index(line, "# "); i == 0 || line == "#" {
			continue
		}
		w := strings.Fields(line)
		if len(w) == 0 || strings.HasPrefix(line, "#") {
			continue
		}
		if line[0] != ' ' {
			cur = &vLayStruct{name: w[1], counts: map[string]bool{}}
			if w[0] == "box" {
				cur.name = w[2]
				b := &vLayBox{types: strings.Split(w[1], ","), st: cur}
				if w[3] != "*" {
					for _, x := range strings.Split(w[3], ",") {
						n, _ := strconv.Atoi(x)
						b.versions = append(b.versions, uint8(n))
					}
				}
				for _, x := range w[4:] {
					if x == "full" {
						b.full = true
					}
					if strings.HasPrefix(x, "ctx=") {
						b.ctx = x[4:]
					}
				}
				l.boxes = append(l.boxes, b)
			}
			l.structs[cur.name] = cur
			continue
		}
		f := vLayField{name: w[0], kind: w[1]}
		if k := w[1]; len(k) > 1 && strings.Contains("uib", k[:1]) && strings.Contains("0123456789?", k[1:2]) {
			f.kind, f.width = k[:1], -1
			if k[1] != '?' {
				f.width, _ = strconv.Atoi(k[1:])
			}
		}
		for _, x := range w[2:] {
			switch {
			case x[0] == '[':
				f.count = x[1 : len(x)-1]
				if f.count[0] == '=' {
					cur.counts[f.count[1:]] = true
				}
			case x == "?":
				f.rule = true
			case x == "ext":
				f.ext = true
			case x == "ptr":
				f.ptr = true
			case x == "size?" || x == "size~" || x == "hook":
			case strings.HasPrefix(x, "dev="):
				f.dev, _ = strconv.Atoi(x[4:])
			case strings.HasPrefix(x, "f:"):
				n, _ := strconv.ParseUint(x[2:], 16, 32)
				f.need = uint32(n)
			case strings.HasPrefix(x, "!f:"):
				n, _ := strconv.ParseUint(x[3:], 16, 32)
				f.bar = uint32(n)
			default:
				f.ver = x
			}
		}
		cur.fields = append(cur.fields, f)
	}
	return l
}

func vLayType(s string, k int) BoxType {
	if s[0] == '#' {
		return Uint32ToBoxType(uint32(k))
	}
	if s[0] == '@' {
		return BoxType{0xa9, s[1], s[2], s[3]}
	}
	return vT(strings.ReplaceAll(s, "_", " "))
}

func (b *vLayBox) applies(c Context) bool {
	switch b.ctx {
	case "meta":
		return c.UnderIlstMeta
	case "free":
		return c.UnderIlstFreeMeta
	case "ilst":
		return c.UnderIlst && !c.UnderIlstMeta
	case "item":
		return c.UnderIlst && c.QuickTimeKeysMetaEntryCount >= 1
	case "udta":
		return c.UnderUdta
	}
	return true
}

// vLayEnv is one box being laid out.
type vLayEnv struct {
	l     *vLayouts
	box   reflect.Value // the box structure
	ver   uint8
	flags uint32
	ctx   Context
	dev   bool
	long  bool // some list has more items than its count
}

func vU(s reflect.Value, f string) uint64 {
	x := s.FieldByName(f)
	switch x.Kind() {
	case reflect.Bool:
		if x.Bool() {
			return 1
		}
		return 0
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		return uint64(x.Int())
	}
	return x.Uint()
}

func v4(s reflect.Value, f string) string {
	b := s.FieldByName(f).Interface().([4]byte)
	return string(b[:])
}

// present, width and count by rule
func (e *vLayEnv) ruled(st string, f string, s reflect.Value) bool {
	switch st {
	case "Colr":
		switch v4(s, "ColourType") {
		case "nclx":
			return f != "Profile" && f != "Unknown"
		case "rICC", "prof":
			return f == "Profile"
		}
		return f == "Unknown"
	case "Saiz":
		return vU(s, "DefaultSampleInfoSize") == 0
	case "AudioSampleEntry":
		if f == "QuickTimeData" {
			n := vU(s, "EntryVersion")
			return e.ctx.IsQuickTimeCompatible && (e.ctx.UnderWave || n == 1 || n == 2)
		}
		return !(e.ctx.IsQuickTimeCompatible && e.ctx.UnderWave)
	case "AVCDecoderConfiguration":
		return s.FieldByName("HighProfileFieldsEnabled").Bool()
	case "Sgpd":
		own := e.ver == 1 && vU(s, "DefaultLength") == 0
		var base string
		switch v4(s, "GroupingType") {
		case "roll", "prol":
			base = "RollDistances"
		case "alst":
			base = "AlternativeStartupEntries"
		case "rap ":
			base = "VisualRandomAccessEntries"
		case "tele":
			base = "TemporalLevelEntries"
		default:
			return f == "Unsupported"
		}
		if own {
			base += "L"
		}
		return f == base
	case "Descriptor":
		switch vU(s, "Tag") {
		case 3:
			return f == "ESDescriptor"
		case 4:
			return f == "DecoderConfigDescriptor"
		}
		return f == "Data"
	case "ESDescriptor":
		switch f {
		case "DependsOnESID":
			return s.FieldByName("StreamDependenceFlag").Bool()
		case "OCRESID":
			return s.FieldByName("OcrStreamFlag").Bool()
		}
		return s.FieldByName("UrlFlag").Bool()
	case "Tenc":
		return vU(s, "DefaultIsProtected") == 1 && vU(s, "DefaultPerSampleIVSize") == 0
	case "DOps":
		return vU(s, "ChannelMappingFamily") != 0
	}
	panic("no rule for " + st + "." + f)
}

func (e *vLayEnv) has(st *vLayStruct, f *vLayField, s reflect.Value) bool {
	switch f.ver {
	case "v0", "v1", "v2":
		if e.ver != f.ver[1]-'0' {
			return false
		}
	case "!v0":
		if e.ver == 0 {
			return false
		}
	}
	if f.need != 0 && e.flags&f.need == 0 || f.bar != 0 && e.flags&f.bar != 0 {
		return false
	}
	return !f.rule || e.ruled(st.name, f.name, s)
}

func (e *vLayEnv) width(st *vLayStruct, f *vLayField) uint {
	if e.dev && f.dev > 0 {
		return uint(f.dev)
	}
	if f.width >= 0 {
		return uint(f.width)
	}
	return 8 * uint(vU(e.box, map[string]string{"TrafNumber": "LengthSizeOfTrafNum", "TrunNumber": "LengthSizeOfTrunNum", "SampleNumber": "LengthSizeOfSampleNum"}[f.name])+1)
}

// count gives the number of items, -1 up to the end of the box.
func (e *vLayEnv) count(st *vLayStruct, f *vLayField, s reflect.Value) int {
	switch f.count[0] {
	case '*':
		return -1
	case '=':
		return int(vU(s, f.count[1:]))
	case '?':
		switch st.name + "." + f.name {
		case "AudioSampleEntry.QuickTimeData":
			if e.ctx.UnderWave {
				return -1
			}
			return map[uint64]int{1: 16, 2: 36}[vU(s, "EntryVersion")]
		case "Stsz.EntrySize":
			if vU(s, "SampleSize") != 0 {
				return 0
			}
			return int(vU(s, "SampleCount"))
		case "Key.KeyValue":
			return int(vU(s, "KeySize")) - 8
		}
		panic("no count for " + f.name)
	}
	n, _ := strconv.Atoi(f.count)
	return n
}

// put lays a structure out; it reports a list shorter than its count.
func (e *vLayEnv) put(b *vBits, st *vLayStruct, s reflect.Value) bool {
	for i := range st.fields {
		f := &st.fields[i]
		if !e.has(st, f, s) {
			continue
		}
		x := s.FieldByName(f.name)
		if f.ptr {
			x = x.Elem()
		}
		if f.count == "" {
			if !e.one(b, st, f, x) {
				return false
			}
			continue
		}
		n := e.count(st, f, s)
		if n < 0 {
			n = x.Len()
		}
		if x.Len() < n {
			return false
		}
		for j := 0; j < n; j++ {
			if !e.one(b, st, f, x.Index(j)) {
				return false
			}
		}
	}
	return true
}

func (e *vLayEnv) one(b *vBits, st *vLayStruct, f *vLayField, x reflect.Value) bool {
	switch f.kind {
	case "none":
	case "u", "i":
		if k := x.Kind(); k >= reflect.Int && k <= reflect.Int64 {
			b.num(uint64(x.Int()), e.width(st, f))
		} else {
			b.num(x.Uint(), e.width(st, f))
		}
	case "b":
		b.flag(x.Bool(), e.width(st, f))
	case "str", "bstr":
		b.str(x.String(), f.kind == "str")
	case "varint":
		for i := 3; i >= 0; i-- {
			more := uint64(0x80)
			if i == 0 {
				more = 0
			}
			b.num(x.Uint()>>(7*uint(i))&0x7f|more, 8)
		}
	default:
		return e.put(b, e.l.structs[f.kind], x)
	}
	return true
}

// fill draws values for the fields of a structure that are present.
func (v *vctx) fill(e *vLayEnv, st *vLayStruct, s reflect.Value) {
	for i := range st.fields {
		f := &st.fields[i]
		if !e.has(st, f, s) {
			continue
		}
		x := s.FieldByName(f.name)
		if v.special(e, st, f, s, x) {
			continue
		}
		if st.counts[f.name] {
			n := v.r.Intn(4)
			if v.r.Intn(12) == 0 {
				n = v.r.Intn(30)
			}
			if x.Kind() >= reflect.Int && x.Kind() <= reflect.Int64 {
				x.SetInt(int64(n))
			} else {
				x.SetUint(uint64(n))
			}
			continue
		}
		if f.ptr {
			x.Set(reflect.New(x.Type().Elem()))
			x = x.Elem()
		}
		if f.count == "" {
			v.one(e, st, f, x)
			continue
		}
		n := e.count(st, f, s)
		if n < 0 {
			n = v.r.Intn(5)
		} else if x.Kind() == reflect.Slice && f.count[0] == '=' && v.r.Intn(20) == 0 {
			n++
			e.long = true
		}
		if x.Kind() == reflect.Slice {
			x.Set(reflect.MakeSlice(x.Type(), n, n))
		}
		for j := 0; j < n; j++ {
			v.one(e, st, f, x.Index(j))
		}
	}
}

func (v *vctx) one(e *vLayEnv, st *vLayStruct, f *vLayField, x reflect.Value) {
	switch f.kind {
	case "none":
	case "u", "i":
		if k := x.Kind(); k >= reflect.Int && k <= reflect.Int64 {
			x.SetInt(v.fitsI(e.width(st, f)))
		} else {
			x.SetUint(v.fitsU(e.width(st, f)))
		}
	case "b":
		x.SetBool(v.r.Intn(2) == 0)
	case "str":
		x.SetString(vText(v.r))
	case "bstr":
		x.SetString(vText(v.r))
	case "varint":
		x.SetUint(v.fitsU(28))
	default:
		v.fill(e, e.l.structs[f.kind], x)
	}
}

func (v *vctx) word(a ...string) string { return a[v.r.Intn(len(a))] }

func set4(x reflect.Value, s string) { x.Set(reflect.ValueOf([4]byte{s[0], s[1], s[2], s[3]})) }

func (v *vctx) startup(e *vLayEnv, x reflect.Value, octets int) {
	k := octets/4 - 1
	rc := v.r.Intn(k + 1)
	en := AlternativeStartupEntry{RollCount: uint16(rc), FirstOutputSample: uint16(v.u64())}
	for i := 0; i < rc; i++ {
		en.SampleOffset = append(en.SampleOffset, uint32(v.u64()))
	}
	for i := rc; i < k; i++ {
		en.Opts = append(en.Opts, AlternativeStartupEntryOpt{uint16(v.u64()), uint16(v.u64())})
	}
	x.Set(reflect.ValueOf(en))
}

// special draws the fields that decide others.
func (v *vctx) special(e *vLayEnv, st *vLayStruct, f *vLayField, s, x reflect.Value) bool {
	half := v.r.Intn(2) == 0
	switch st.name + "." + f.name {
	case "Colr.ColourType":
		set4(x, v.word("nclx", "rICC", "prof", "nclc", "ncly", "RICC", "    "))
	case "Saiz.DefaultSampleInfoSize", "Stsz.SampleSize", "DOps.ChannelMappingFamily", "Tenc.DefaultPerSampleIVSize":
		if !half {
			return false
		}
		x.SetUint(0)
	case "Stsz.SampleCount":
		if vU(s, "SampleSize") != 0 {
			return false
		}
		x.SetUint(uint64(v.r.Intn(5)))
	case "Tenc.DefaultIsProtected":
		if !half {
			return false
		}
		x.SetUint(1)
	case "AudioSampleEntry.EntryVersion":
		x.SetUint(uint64(v.r.Intn(4)))
	case "AVCDecoderConfiguration.Profile":
		x.SetUint(uint64([]int{66, 77, 88, 100, 110, 122, 144, 244, 101}[v.r.Intn(9)]))
	case "AVCDecoderConfiguration.HighProfileFieldsEnabled":
		switch vU(s, "Profile") {
		case 100, 110, 122, 144:
			x.SetBool(half)
		}
	case "Sgpd.GroupingType":
		set4(x, v.word("roll", "prol", "alst", "rap ", "tele", "seig", "Roll", "teles"))
	case "Sgpd.DefaultLength":
		if half {
			break
		}
		switch v4(s, "GroupingType") {
		case "roll", "prol":
			x.SetUint(2)
		case "alst":
			x.SetUint(uint64(4 * (1 + v.r.Intn(5))))
		case "rap ", "tele":
			x.SetUint(1)
		default:
			return false
		}
	case "Sgpd.EntryCount":
		x.SetUint(uint64(v.r.Intn(4)))
		switch v4(s, "GroupingType") {
		case "alst":
			if e.ver == 2 { // the only entry extends to the end
				x.SetUint(uint64(v.r.Intn(2)))
			}
		case "roll", "prol", "rap ", "tele":
		default:
			return false
		}
	case "Sgpd.AlternativeStartupEntries":
		n := int(vU(s, "EntryCount"))
		x.Set(reflect.MakeSlice(x.Type(), n, n))
		for i := 0; i < n; i++ {
			k := int(vU(s, "DefaultLength"))
			if e.ver == 2 {
				k = 4 * (1 + v.r.Intn(5))
			}
			v.startup(e, x.Index(i), k)
		}
	case "AlternativeStartupEntryL.DescriptionLength":
		x.SetUint(uint64(4 * (1 + v.r.Intn(5))))
	case "AlternativeStartupEntryL.AlternativeStartupEntry":
		v.startup(e, x, int(vU(s, "DescriptionLength")))
	case "RollDistanceWithLength.DescriptionLength":
		x.SetUint(2)
	case "VisualRandomAccessEntryL.DescriptionLength", "TemporalLevelEntryL.DescriptionLength":
		x.SetUint(1)
	case "Descriptor.Tag":
		x.SetInt(int64([]int{3, 4, 5, 6, 0x0e, -2, 0}[v.r.Intn(7)]))
	case "Descriptor.Size":
		if vU(s, "Tag") == 3 || vU(s, "Tag") == 4 {
			x.SetUint(v.fitsU(28))
			break
		}
		return false
	case "Key.KeySize":
		x.SetInt(int64(8 + v.r.Intn(9)))
	case "Hdlr.PreDefined":
		if !half {
			return false
		}
		x.SetUint(0)
	case "Hdlr.Name":
		n := vText(v.r)
		if vU(s, "PreDefined") != 0 && len(n) > 0 && int(n[0]) == len(n) { // would be the QuickTime form
			n = ""
		}
		x.SetString(n)
	default:
		return false
	}
	return true
}

// layCase draws a box of the layout.
func (v *vctx) layCase(l *vLayouts, b *vLayBox, t string) (IBox, *vLayEnv, BoxType, error) {
	ctx := v.ctx()
	switch b.ctx {
	case "meta":
		ctx.UnderIlstMeta = true
	case "free":
		ctx.UnderIlstFreeMeta = true
	case "ilst":
		ctx.UnderIlst, ctx.UnderIlstMeta, ctx.UnderUdta = true, false, false
	case "item":
		ctx.UnderIlst, ctx.QuickTimeKeysMetaEntryCount = true, 1+v.r.Intn(300)
	case "udta":
		ctx.UnderUdta, ctx.UnderIlst = true, false
	}
	k := 1
	if b.ctx == "item" {
		k = 1 + v.r.Intn(ctx.QuickTimeKeysMetaEntryCount)
	}
	bt := vLayType(t, k)
	box, err := bt.New(ctx)
	if err != nil {
		return nil, nil, bt, err
	}
	s := reflect.ValueOf(box).Elem()
	e := &vLayEnv{l: l, box: s, ctx: ctx}
	if s.Type().Name() != b.st.name {
		return box, e, bt, nil
	}
	if b.full {
		e.ver = uint8(v.u64())
		if len(b.versions) > 0 {
			e.ver = b.versions[v.r.Intn(len(b.versions))]
		}
		e.flags = uint32(v.u64()) & 0xffffff
		if v.r.Intn(2) == 0 {
			e.flags = uint32(v.r.Intn(0x1000))
		}
		if b.st.name == "Meta" {
			e.flags = 0 // anything else is the QuickTime form
		}
		if b.st.name == "Trun" && v.r.Intn(4) == 0 {
			e.flags |= 0xf00
		}
		fb := s.FieldByName("FullBox").Addr().Interface().(*FullBox)
		fb.Version = e.ver
		fb.Flags = [3]byte{byte(e.flags >> 16), byte(e.flags >> 8), byte(e.flags)}
	}
	v.fill(e, b.st, s)
	return box, e, bt, nil
}

func (e *vLayEnv) bits(b *vLayBox) (r vBits, whole bool) {
	if b.full {
		r.num(uint64(e.ver), 8)
		r.num(uint64(e.flags), 24)
	}
	whole = e.put(&r, b.st, e.box)
	return r, whole
}

// vSame compares two values; an empty list equals a missing one.
func vSame(a, b reflect.Value, path string) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %s and %s", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return path + ": missing"
		}
		if a.IsNil() {
			return ""
		}
		return vSame(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if m := vSame(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); m != "" {
				return m
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d items", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if m := vSame(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); m != "" {
				return m
			}
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q and %q", path, a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v and %v", path, a.Bool(), b.Bool())
		}
	default:
		x, y := vNum(a), vNum(b)
		if x != y {
			return fmt.Sprintf("%s: %#x and %#x", path, x, y)
		}
	}
	return ""
}

func vNum(a reflect.Value) uint64 {
	if k := a.Kind(); k >= reflect.Int && k <= reflect.Int64 {
		return uint64(a.Int())
	}
	return a.Uint()
}

// mutate changes, cuts, extends or replaces octets.
func (v *vctx) mutate(d []byte) []byte {
	d = append([]byte{}, d...)
	switch v.r.Intn(6) {
	case 0:
	case 1:
		d = append(d, v.bytes(1+v.r.Intn(12))...)
	case 2:
		d = d[:v.r.Intn(len(d)+1)]
	case 3:
		d = v.bytes(v.r.Intn(64))
	default:
		for k := v.r.Intn(6); k >= 0 && len(d) > 0; k-- {
			i := v.r.Intn(len(d))
			switch v.r.Intn(3) {
			case 0:
				d[i] ^= 1 << uint(v.r.Intn(8))
			case 1:
				d[i] = byte(v.u64())
			default:
				d = append(d[:i], append(v.bytes(v.r.Intn(3)), d[i:]...)...)
			}
		}
	}
	return d
}
