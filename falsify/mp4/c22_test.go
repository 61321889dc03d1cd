package mp4

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"
)

// A printer of its own, from the layouts (which fields are there), the struct tags (how each is shown)
// and the fields with a form of their own.

func vEscape(s string) string {
	var b strings.Builder
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		s = s[n:]
		if !unicode.IsGraphic(r) {
			r = '.'
		}
		b.WriteRune(r)
	}
	return b.String()
}

func vQuote(b []byte) (string, bool) { return `"` + vEscape(string(b)) + `"`, true }

func vFixed(x int64, frac uint, digits int) (string, bool) {
	if x&(1<<frac-1) == 0 {
		return strconv.FormatInt(x>>frac, 10), true
	}
	return fmt.Sprintf("%.*f", digits, float64(x)/float64(int64(1)<<frac)), true
}

func vUUID(b []byte) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
}

// ownForm gives the text of the fields that are not shown by their type.
func ownForm(st, f string, s reflect.Value) (string, bool) {
	switch st + "." + f {
	case "Mvhd.Rate":
		return vFixed(s.FieldByName(f).Int(), 16, 5)
	case "Tkhd.Width", "Tkhd.Height", "AudioSampleEntry.SampleRate":
		return vFixed(int64(s.FieldByName(f).Uint()), 16, 5)
	case "Smhd.Balance":
		return vFixed(s.FieldByName(f).Int(), 8, 3)
	case "VisualSampleEntry.Compressorname":
		n := s.FieldByName(f).Interface().([32]byte)
		if n[0] < 32 {
			return vQuote(n[1 : 1+n[0]])
		}
	case "Descriptor.Tag":
		m := map[int64]string{3: "ESDescr", 4: "DecoderConfigDescr", 5: "DecSpecificInfo", 6: "SLConfigDescr"}
		t, ok := m[s.FieldByName(f).Int()]
		return t, ok
	case "Pssh.KIDs":
		k := s.FieldByName(f)
		t := "["
		for i := 0; i < k.Len(); i++ {
			if i > 0 {
				t += ", "
			}
			id := k.Index(i).Field(0).Interface().([16]byte)
			t += vUUID(id[:])
		}
		return t + "]", true
	case "Data.DataType":
		m := map[uint64]string{0: "BINARY", 1: "UTF8", 2: "UTF16", 3: "MAC_STR", 14: "JPEG", 21: "INT", 22: "FLOAT32", 23: "FLOAT64"}
		t, ok := m[s.FieldByName(f).Uint()]
		return t, ok
	case "Data.Data":
		if s.FieldByName("DataType").Uint() == 1 {
			return vQuote(s.FieldByName(f).Bytes())
		}
	case "StringData.Data", "Item.ItemName", "Key.KeyNamespace", "Key.KeyValue":
		return vQuote(s.FieldByName(f).Bytes())
	}
	return "", false
}

type vPrint struct {
	*vLayEnv
	b      strings.Builder
	indent string
	first  bool // nothing yet between the braces
	flaw   bool // numbered items show their flags as zero (KNOWN_FINDINGS.txt)
}

func (p *vPrint) name(n string, depth int) {
	if p.indent != "" {
		p.b.WriteString(strings.Repeat(p.indent, depth))
	} else if !p.first {
		p.b.WriteString(" ")
	}
	p.first = false
	p.b.WriteString(n + "=")
}

func (p *vPrint) end() {
	if p.indent != "" {
		p.b.WriteString("\n")
	}
}

// fields shows the fields of one structure at a depth.
func (p *vPrint) fields(st *vLayStruct, s reflect.Value, depth int) {
	declared := func(i int) int { // the place the struct gives a field
		sf, _ := s.Type().FieldByName(st.fields[i].name)
		n, _ := strconv.Atoi(strings.Split(sf.Tag.Get("mp4"), ",")[0])
		return n
	}
	order := make([]int, len(st.fields))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return declared(order[a]) < declared(order[b]) })
	for _, i := range order {
		f := &st.fields[i]
		sf, _ := s.Type().FieldByName(f.name)
		tags := strings.Split(sf.Tag.Get("mp4"), ",")[1:]
		opt := map[string]bool{}
		for _, t := range tags {
			opt[strings.SplitN(t, "=", 2)[0]] = true
		}
		if !p.has(st, f, s) || opt["hidden"] || opt["const"] {
			continue
		}
		x := s.FieldByName(f.name)
		if f.ext {
			if f.ptr {
				x = x.Elem()
			}
			p.fields(p.l.structs[f.kind], x, depth)
			continue
		}
		p.name(f.name, depth)
		if t, ok := ownForm(st.name, f.name, s); ok {
			p.b.WriteString(t)
		} else if st.name == "Item" && f.name == "Flags" {
			if p.flaw {
				p.b.WriteString("0x000000")
			} else {
				fmt.Fprintf(&p.b, "0x%02x%02x%02x", x.Index(0).Uint(), x.Index(1).Uint(), x.Index(2).Uint())
			}
		} else if f.name == "Version" {
			p.b.WriteString(fmt.Sprint(x.Uint()))
		} else {
			if f.ptr {
				x = x.Elem()
			}
			p.value(st, f, s, x, opt, depth)
		}
		p.end()
	}
}

func (p *vPrint) value(st *vLayStruct, f *vLayField, s, x reflect.Value, opt map[string]bool, depth int) {
	if f.count == "" {
		p.item(f, x, opt, depth)
		return
	}
	n := x.Len()
	if k := p.count(st, f, s); k >= 0 && k < n {
		n = k
	}
	raw := make([]byte, n)
	if opt["string"] || opt["iso639-2"] || opt["uuid"] {
		for i := range raw {
			raw[i] = byte(x.Index(i).Uint())
		}
	}
	switch {
	case opt["string"]:
		t, _ := vQuote(raw)
		p.b.WriteString(t)
	case opt["iso639-2"]:
		for i := range raw {
			raw[i] += 0x60
		}
		t, _ := vQuote(raw)
		p.b.WriteString(t)
	case opt["uuid"]:
		p.b.WriteString(vUUID(raw))
	default:
		p.b.WriteString("[")
		for i := 0; i < n; i++ {
			if i > 0 {
				p.b.WriteString(", ")
			}
			p.item(f, x.Index(i), opt, depth+1)
		}
		p.b.WriteString("]")
	}
}

func (p *vPrint) item(f *vLayField, x reflect.Value, opt map[string]bool, depth int) {
	switch k := x.Kind(); {
	case k == reflect.Struct:
		in := p.l.structs[f.kind]
		if in == nil { // the entry of a count by rule
			panic("no layout for " + f.kind)
		}
		p.b.WriteString("{")
		p.first = true
		p.end()
		p.fields(in, x, depth+1)
		if p.indent != "" {
			p.b.WriteString(strings.Repeat(p.indent, depth))
		}
		p.first = false
		p.b.WriteString("}")
	case k == reflect.Bool:
		p.b.WriteString(fmt.Sprint(x.Bool()))
	case k == reflect.String:
		t, _ := vQuote([]byte(x.String()))
		p.b.WriteString(t)
	case k >= reflect.Int && k <= reflect.Int64:
		if opt["hex"] {
			fmt.Fprintf(&p.b, "%#x", x.Int())
		} else {
			fmt.Fprintf(&p.b, "%d", x.Int())
		}
	default:
		if opt["hex"] || k == reflect.Uint8 && !opt["dec"] {
			fmt.Fprintf(&p.b, "%#x", x.Uint())
		} else {
			fmt.Fprintf(&p.b, "%d", x.Uint())
		}
	}
}

func (e *vLayEnv) print(b *vLayBox, indent string, flaw bool) string {
	p := &vPrint{vLayEnv: e, indent: indent, first: true, flaw: flaw}
	if b.full {
		p.name("Version", 1)
		fmt.Fprintf(&p.b, "%d", e.ver)
		p.end()
		p.name("Flags", 1)
		fmt.Fprintf(&p.b, "0x%06x", e.flags)
		p.end()
	}
	p.fields(b.st, e.box, 1)
	return p.b.String()
}

func TestVerifC22Print(t *testing.T) {
	v := newV(t)
	defer v.done()
	l := vLoadLayouts(t)
	for i := 0; i < v.rounds(60) && !v.late(); i++ {
		for _, b := range l.boxes {
			n := len(b.st.fields)
			for j := 0; j <= n && j < 1+2*n/3 || j < len(b.types) && i < 2; j++ {
				v.prints(l, b, b.types[(i+j)%len(b.types)])
			}
		}
	}
}

func (v *vctx) prints(l *vLayouts, b *vLayBox, t string) {
	key := b.st.name
	v.guard(key, "box type "+t, func() {
		box, e, _, err := v.layCase(l, b, t)
		if err != nil || e.box.Type().Name() != b.st.name {
			return
		}
		for i := range b.st.fields { // values with a name or a fraction of their own
			f := b.st.fields[i].name
			x := e.box.FieldByName(f)
			switch b.st.name + "." + f {
			case "Data.DataType":
				x.SetUint(uint64(v.r.Intn(26)))
			case "Mvhd.Rate", "Smhd.Balance":
				if v.r.Intn(2) == 0 {
					x.SetInt(x.Int() &^ 0xff &^ (0xff00 * int64(v.r.Intn(2))))
				}
			case "Tkhd.Width", "Tkhd.Height", "AudioSampleEntry.SampleRate":
				if v.r.Intn(2) == 0 {
					x.SetUint(x.Uint() &^ 0xffff)
				}
			case "VisualSampleEntry.Compressorname":
				x.Index(0).SetUint(uint64(v.r.Intn(36)))
			}
		}
		desc := fmt.Sprintf("%s %+v in %+v", t, e.box.Interface(), e.ctx)
		v.eval("%s", desc)
		before := reflect.New(e.box.Type()).Elem()
		before.Set(e.box)
		var img, img2 bytes.Buffer
		Marshal(&img, box, e.ctx)
		indent := v.word("", "", " ", "\t", "--")
		var got string
		if indent == "" && v.r.Intn(2) == 0 {
			got, err = Stringify(box, e.ctx)
		} else {
			got, err = StringifyWithIndent(box, indent, e.ctx)
		}
		if err != nil {
			v.fail(key, "%.1500s: %v", desc, err)
			return
		}
		if want := e.print(b, indent, false); got != want {
			if got == e.print(b, indent, true) {
				key += ".flags"
			}
			v.fail(key, "%.1200s: printed (indent %q) %.1200q, want %.1200q", desc, indent, got, want)
			return
		}
		Marshal(&img2, box, e.ctx)
		if !bytes.Equal(img.Bytes(), img2.Bytes()) || vSame(before, e.box, "") != "" {
			v.fail(key, "%.1500s: printing changed the box to %+v", desc, e.box.Interface())
		}
	})
}

// Whatever decodes prints.
func TestVerifC22Decoded(t *testing.T) {
	v := newV(t)
	defer v.done()
	l := vLoadLayouts(t)
	for i := 0; i < v.rounds(40) && !v.late(); i++ {
		for _, b := range l.boxes {
			ty := b.types[i%len(b.types)]
			key := b.st.name + ".decoded"
			v.guard(key, "box type "+ty, func() {
				_, e, bt, err := v.layCase(l, b, ty)
				if err != nil || e.box.Type().Name() != b.st.name {
					return
				}
				bits, _ := e.bits(b)
				d := v.mutate(bits.bytes())
				if b.st.name == "Trun" && len(d) >= 8 && d[2]&0xf == 0 {
					d[4], d[5] = 0, 0
				}
				got, _ := bt.New(e.ctx)
				if _, err := Unmarshal(bytes.NewReader(d), uint64(len(d)), got, e.ctx); err != nil {
					return
				}
				desc := fmt.Sprintf("%s %x in %+v", ty, d, e.ctx)
				v.eval("%s", desc)
				s := reflect.ValueOf(got).Elem()
				g := &vLayEnv{l: l, box: s, ctx: e.ctx}
				if b.full {
					g.ver, g.flags = got.GetVersion(), got.GetFlags()
				}
				out, err := Stringify(got, e.ctx)
				if err != nil {
					v.fail(key, "%.1500s: decodes but does not print: %v", desc, err)
					return
				}
				if want := g.print(b, "", false); out != want && out != g.print(b, "", true) {
					v.fail(key, "%.1200s: printed %.1200q, want %.1200q", desc, out, want)
				}
			})
		}
	}
}
