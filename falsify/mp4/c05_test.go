package mp4

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"
)

func TestVerifC05Layouts(t *testing.T) {
	v := newV(t)
	defer v.done()
	l := vLoadLayouts(t)
	for i := 0; i < v.rounds(60) && !v.late(); i++ {
		for _, b := range l.boxes {
			n := len(b.st.fields)
			for j := 0; j <= n && j < 1+2*n/3 || j < len(b.types) && i < 2; j++ {
				v.layout(l, b, b.types[(i+j)%len(b.types)], i)
			}
		}
	}
}

func (v *vctx) layout(l *vLayouts, b *vLayBox, t string, round int) {
	key := b.st.name
	v.guard(key, "box type "+t, func() {
		box, e, bt, err := v.layCase(l, b, t)
		if err != nil {
			v.fail(key, "%s is not registered", t)
			return
		}
		if e.box.Type().Name() != b.st.name {
			v.fail(key, "%s is a %s, want %s", t, e.box.Type(), b.st.name)
			return
		}
		if round < 2 {
			vs, err := bt.GetSupportedVersions(e.ctx)
			want := fmt.Sprint(b.versions)
			if err != nil || fmt.Sprint(vs) != want {
				v.fail(key, "%s: supported versions %v (%v), want %s", t, vs, err, want)
				return
			}
			for k := 0; k < 256; k++ {
				ok := len(b.versions) == 0 || bytes.IndexByte(b.versions, byte(k)) >= 0
				if bt.IsSupportedVersion(uint8(k), e.ctx) != ok {
					v.fail(key, "%s: version %d supported %v, want %v", t, k, !ok, ok)
					return
				}
			}
		}
		bits, _ := e.bits(b)
		want := bits.bytes()
		desc := fmt.Sprintf("%s %+v in %+v", t, e.box.Interface(), e.ctx)
		v.eval("%s", desc)
		if len(bits)%8 != 0 {
			v.fail("harness", "%s: layout of %d bits", desc, len(bits))
			return
		}
		var w bytes.Buffer
		n, err := Marshal(&w, box, e.ctx)
		if err != nil || !bytes.Equal(w.Bytes(), want) || n != uint64(len(want)) {
			e.dev = true
			if d, _ := e.bits(b); err == nil && bytes.Equal(w.Bytes(), d.bytes()) {
				key += ".width"
			}
			v.fail(key, "%.1500s: marshalled as %x (%d, %v), the layout gives %x", desc, w.Bytes(), n, err, want)
			return
		}
		if e.long {
			return
		}
		got, _ := bt.New(e.ctx)
		tail := v.bytes(v.r.Intn(3))
		n, err = Unmarshal(bytes.NewReader(append(append([]byte{}, want...), tail...)), uint64(len(want)), got, e.ctx)
		if err != nil || n != uint64(len(want)) {
			v.fail(key, "%.1500s: %x decodes with %d octets, %v", desc, want, n, err)
			return
		}
		if m := vSame(e.box, reflect.ValueOf(got).Elem(), ""); m != "" {
			v.fail(key, "%.1500s: %x decodes as %+v: %s", desc, want, got, m)
		}
	})
}

// The answers of the rules for the whole range of the fields they depend on.
func TestVerifC05Rules(t *testing.T) {
	v := newV(t)
	defer v.done()
	l := vLoadLayouts(t)
	for i := 0; i < v.rounds(400) && !v.late(); i++ {
		for _, b := range l.boxes {
			box, e, _, err := v.layCase(l, b, b.types[0])
			if err != nil || e.box.Type().Name() != b.st.name {
				continue
			}
			v.rules(l, e, b.st, e.box, box, 0)
		}
	}
}

func (v *vctx) rules(l *vLayouts, e *vLayEnv, st *vLayStruct, s reflect.Value, box IBox, depth int) {
	if depth > 4 {
		return
	}
	who, ok := s.Addr().Interface().(ICustomFieldObject)
	if !ok {
		who = box
	}
	if v.r.Intn(2) == 0 { // unconstrained values
		for j := range st.fields {
			f := &st.fields[j]
			if (f.kind == "u" || f.kind == "i") && f.count == "" && f.width > 0 && !(st.name == "Sgpd" && f.name == "GroupingType") {
				v.one(e, st, f, s.FieldByName(f.name))
			}
		}
	}
	for j := range st.fields {
		f := &st.fields[j]
		x := s.FieldByName(f.name)
		if f.ptr {
			if x.IsNil() {
				continue
			}
			x = x.Elem()
		}
		key := st.name + "." + f.name
		if f.rule {
			want := e.ruled(st.name, f.name, s)
			v.guard(key, key, func() {
				if got := who.IsOptFieldEnabled(f.name, e.ctx); got != want {
					v.fail(key, "%s present %v, want %v: %+v in %+v", f.name, got, want, s.Interface(), e.ctx)
				}
			})
		}
		if f.width < 0 {
			want := e.width(st, f)
			v.guard(key, key, func() {
				if got := who.GetFieldSize(f.name, e.ctx); got != want {
					v.fail(key, "%s width %d, want %d: %.800s", f.name, got, want, fmt.Sprintf("%+v", e.box.Interface()))
				}
			})
		}
		if f.count != "" && (f.count[0] == '=' || f.count == "?" && (!f.rule || e.ruled(st.name, f.name, s))) {
			want := uint(0xffffffff)
			if n := e.count(st, f, s); n != -1 || st.name != "AudioSampleEntry" {
				want = uint(n)
			}
			v.eval("%s %d", key, want)
			v.guard(key, key, func() {
				if got := who.GetFieldLength(f.name, e.ctx); got != want {
					v.fail(key, "%s has %d items, want %d: %.800s", f.name, got, want, fmt.Sprintf("%+v", s.Interface()))
				}
			})
		}
		if key == "Sgpd.AlternativeStartupEntries" || key == "AlternativeStartupEntryL.AlternativeStartupEntry" {
			n := vU(s, map[bool]string{true: "DefaultLength", false: "DescriptionLength"}[st.name == "Sgpd"])
			v.guard(key, key, func() {
				if got := who.GetFieldSize(f.name, e.ctx); got != uint(8*n) {
					v.fail(key, "%s takes %d bits, want %d", f.name, got, 8*n)
				}
			})
		}
		if in := l.structs[f.kind]; in != nil {
			if f.count == "" {
				v.rules(l, e, in, x, box, depth+1)
			} else if x.Len() > 0 {
				v.rules(l, e, in, x.Index(0), box, depth+1)
			}
		}
	}
}
