package mp4

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"testing"
)

// Every box value whose counts agree with its lists survives being written and read.
func TestVerifC06RoundTrip(t *testing.T) {
	v := newV(t)
	defer v.done()
	l := vLoadLayouts(t)
	for i := 0; i < v.rounds(60) && !v.late(); i++ {
		for _, b := range l.boxes {
			n := len(b.st.fields)
			for j := 0; j <= n && j < 1+2*n/3 || j < len(b.types) && i < 2; j++ {
				v.roundTrip(l, b, b.types[(i+j)%len(b.types)])
			}
		}
	}
}

func (v *vctx) roundTrip(l *vLayouts, b *vLayBox, t string) {
	key := b.st.name
	v.guard(key, "box type "+t, func() {
		box, e, bt, err := v.layCase(l, b, t)
		if err != nil || e.box.Type().Name() != b.st.name || e.long {
			return
		}
		if h, ok := box.(*HvcC); ok { // the widths this library gives these two
			h.NumTemporalLayers &= 3
			h.TemporalIdNested &= 3
		}
		desc := fmt.Sprintf("%s %+v in %+v", t, e.box.Interface(), e.ctx)
		v.eval("%s", desc)
		pre := v.bytes(v.r.Intn(4))
		w := bytes.NewBuffer(append([]byte{}, pre...))
		n, err := Marshal(w, box, e.ctx)
		if err != nil {
			v.fail(key, "%.1500s: %v", desc, err)
			return
		}
		out := w.Bytes()[len(pre):]
		if n != uint64(len(out)) {
			v.fail(key, "%.1500s: Marshal wrote %d octets and says %d", desc, len(out), n)
			return
		}
		tail := v.bytes(v.r.Intn(9))
		src := bytes.NewReader(append(append([]byte{}, w.Bytes()...), tail...))
		src.Seek(int64(len(pre)), io.SeekStart)
		var got IBox
		if v.r.Intn(2) == 0 {
			got, _ = bt.New(e.ctx)
			n, err = Unmarshal(src, uint64(len(out)), got, e.ctx)
		} else {
			got, n, err = UnmarshalAny(src, bt, uint64(len(out)), e.ctx)
		}
		if err != nil || n != uint64(len(out)) {
			v.fail(key, "%.1500s: marshalled as %x, read back with %d octets, %v", desc, out, n, err)
			return
		}
		if src.Len() != len(tail) {
			v.fail(key, "%.1500s: %d octets left behind %x, want %d", desc, src.Len(), out, len(tail))
			return
		}
		if m := vSame(e.box, reflect.ValueOf(got).Elem(), ""); m != "" {
			v.fail(key, "%.1500s: %x reads back as %.1500s: %s", desc, out, fmt.Sprintf("%+v", reflect.ValueOf(got).Elem().Interface()), m)
		}
	})
}

// plain tells whether a structure has only integers, single bits, arrays, counted lists and byte runs.
func (l *vLayouts) plain(st *vLayStruct) bool {
	for i := range st.fields {
		f := &st.fields[i]
		switch f.kind {
		case "u", "i", "none":
		case "b":
			if f.width != 1 {
				return false
			}
		case "str", "bstr", "varint":
			return false
		default:
			if !l.plain(l.structs[f.kind]) {
				return false
			}
		}
	}
	return true
}

// Whatever is accepted for such a box is reproduced exactly.
func TestVerifC06Reproduce(t *testing.T) {
	v := newV(t)
	defer v.done()
	l := vLoadLayouts(t)
	for i := 0; i < v.rounds(90) && !v.late(); i++ {
		for _, b := range l.boxes {
			if !l.plain(b.st) || b.st.name == "Meta" { // its QuickTime form is read as the ISO form
				continue
			}
			n := len(b.st.fields)
			for j := 0; j <= n && j < 1+2*n/3 || j < len(b.types) && i < 2; j++ {
				v.reproduce(l, b, b.types[(i+j)%len(b.types)])
			}
		}
	}
}

func (v *vctx) reproduce(l *vLayouts, b *vLayBox, t string) {
	key := b.st.name + ".bytes"
	v.guard(key, "box type "+t, func() {
		_, e, bt, err := v.layCase(l, b, t)
		if err != nil || e.box.Type().Name() != b.st.name {
			return
		}
		bits, _ := e.bits(b)
		d := bits.bytes()
		d = v.mutate(d)
		if b.full && len(b.versions) > 0 && len(d) > 0 && v.r.Intn(4) > 0 {
			d[0] = b.versions[v.r.Intn(len(b.versions))]
		}
		if b.st.name == "Trun" && len(d) >= 8 && d[2]&0xf == 0 { // items without any octet: only the count bounds them
			d[4], d[5] = 0, 0
		}
		desc := fmt.Sprintf("%s %x in %+v", t, d, e.ctx)
		v.eval("%s", desc)
		got, _ := bt.New(e.ctx)
		n, err := Unmarshal(bytes.NewReader(d), uint64(len(d)), got, e.ctx)
		if err != nil {
			return
		}
		var w bytes.Buffer
		k, err := Marshal(&w, got, e.ctx)
		if err != nil || k != n || n > uint64(len(d)) || !bytes.Equal(w.Bytes(), d[:n]) {
			v.fail(key, "%.1500s: %d octets accepted as %.1000s and marshalled as %x (%d, %v)", desc, n, fmt.Sprintf("%+v", reflect.ValueOf(got).Elem().Interface()), w.Bytes(), k, err)
		}
	})
}
