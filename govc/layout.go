package main

// Layout clauses: the structure declarations with their mp4 tags, which decide what the
// coders put on the wire, compared with the layouts the specifications give (layouts.txt).
// One obligation per field: its place, kind, width, number and presence; decided by
// evaluation of the declaration (the presence rule for every version and flag word).

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type layField struct {
	name, kind, count, ver string
	width, dev             int
	need, bar              uint32
	rule, ext, ptr, hook   bool
	size                   string // "", "?", "~"
}

type layStruct struct {
	name     string
	fields   []layField
	box      bool
	full     bool
	versions map[int]bool // nil: any
	loc      string
}

func loadLayouts(path string) (map[string]*layStruct, []string, error) {
	d, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	m := map[string]*layStruct{}
	var order []string
	var cur *layStruct
	for n, line := range strings.Split(string(d), "\n") {
		w := strings.Fields(line)
		if len(w) == 0 || line[0] == '#' {
			continue
		}
		if line[0] != ' ' {
			name := w[1]
			if w[0] == "box" {
				name = w[2]
			}
			cur = m[name]
			if cur == nil {
				cur = &layStruct{name: name, loc: fmt.Sprintf("layouts.txt:%d", n+1)}
				m[name] = cur
				order = append(order, name)
			}
			if w[0] == "box" {
				cur.box = true
				cur.fields = nil
				if w[3] != "*" {
					cur.versions = map[int]bool{}
					for _, x := range strings.Split(w[3], ",") {
						k, _ := strconv.Atoi(x)
						cur.versions[k] = true
					}
				}
				for _, x := range w[4:] {
					if x == "full" {
						cur.full = true
					}
				}
			}
			continue
		}
		f := layField{name: w[0], kind: w[1]}
		if k := w[1]; len(k) > 1 && strings.Contains("uib", k[:1]) && strings.Contains("0123456789?", k[1:2]) {
			f.kind, f.width = k[:1], -1
			if k[1] != '?' {
				f.width, _ = strconv.Atoi(k[1:])
			}
		}
		for _, x := range w[2:] {
			switch {
			case x[0] == '[':
				f.count = x[1 : len(x)-1]
			case x == "?":
				f.rule = true
			case x == "ext":
				f.ext = true
			case x == "ptr":
				f.ptr = true
			case x == "hook":
				f.hook = true
			case x == "size?" || x == "size~":
				f.size = x[4:]
			case strings.HasPrefix(x, "dev="):
				f.dev, _ = strconv.Atoi(x[4:])
			case strings.HasPrefix(x, "f:"):
				k, _ := strconv.ParseUint(x[2:], 16, 32)
				f.need = uint32(k)
			case strings.HasPrefix(x, "!f:"):
				k, _ := strconv.ParseUint(x[3:], 16, 32)
				f.bar = uint32(k)
			default:
				f.ver = x
			}
		}
		cur.fields = append(cur.fields, f)
	}
	return m, order, nil
}

// what C04 proves buildField makes of a tag
type tagField struct {
	name         string
	typ          types.Type
	order        int
	opts         map[string]string
	ver, nver    int
	need, bar    uint32
	size, length int // -1: by rule, -2: none
	optDyn       bool
	bad          string
}

func readTag(name string, typ types.Type, tag string) tagField {
	f := tagField{name: name, typ: typ, opts: map[string]string{}, ver: 255, nver: 255, size: -2, length: -2}
	for _, e := range strings.Split(tag, ",") {
		k, v, _ := strings.Cut(e, "=")
		f.opts[strings.Trim(k, " ")] = strings.Trim(v, " ")
	}
	num := func(key string, base int) int {
		s := f.opts[key]
		if base == 16 && strings.HasPrefix(s, "0x") {
			s = s[2:]
		} else {
			base = 10
		}
		n, err := strconv.ParseInt(s, base, 64)
		if err != nil || n < 0 || n > 0xffffffff {
			f.bad = "tag value " + key + "=" + f.opts[key]
		}
		return int(n)
	}
	has := func(k string) bool { _, ok := f.opts[k]; return ok }
	var nums []int
	for k, v := range f.opts {
		if n, err := strconv.Atoi(k); err == nil && v == "" {
			nums = append(nums, n)
		}
	}
	if len(nums) > 1 {
		f.bad = "two order numbers"
	}
	if len(nums) == 1 {
		f.order = nums[0]
	}
	if has("ver") {
		f.ver = num("ver", 10)
	}
	if has("nver") {
		f.nver = num("nver", 10)
	}
	if f.opts["opt"] == "dynamic" {
		f.optDyn = true
	} else if has("opt") {
		f.need = uint32(num("opt", 16))
	}
	if has("nopt") {
		f.bar = uint32(num("nopt", 16))
	}
	for k, p := range map[string]*int{"size": &f.size, "len": &f.length} {
		if f.opts[k] == "dynamic" {
			*p = -1
		} else if has(k) {
			*p = num(k, 10)
		}
	}
	return f
}

type layCheck struct {
	w       *World
	pkg     *types.Package
	m       map[string]*layStruct
	vers    map[string]map[int]bool // versions a structure is used under; nil: any
	reached map[string]bool
	owners  map[string][]string // structure -> boxes that hold it
}

func (l *layCheck) reach(name, box string, vs map[int]bool, depth int) {
	st := l.m[name]
	if st == nil || depth > 8 {
		return
	}
	if !l.reached[name] {
		l.reached[name] = true
		l.vers[name] = vs
	} else if l.vers[name] != nil {
		if vs == nil {
			l.vers[name] = nil
		} else {
			u := map[int]bool{}
			for k := range l.vers[name] {
				u[k] = true
			}
			for k := range vs {
				u[k] = true
			}
			l.vers[name] = u
		}
	}
	l.owners[name] = append(l.owners[name], box)
	for _, f := range st.fields {
		l.reach(f.kind, box, vs, depth+1)
	}
}

// fixed gives the width of a structure that always has the same.
func (l *layCheck) fixed(name string, depth int) int {
	st := l.m[name]
	if st == nil || depth > 8 {
		return -1
	}
	sum := 0
	for _, f := range st.fields {
		k := f.width
		switch f.kind {
		case "u", "i", "b":
		case "none":
			k = 0
		case "str", "bstr", "varint":
			return -1
		default:
			k = l.fixed(f.kind, depth+1)
		}
		if k < 0 || f.ver != "" || f.need != 0 || f.bar != 0 || f.rule {
			return -1
		}
		if f.count != "" {
			n, err := strconv.Atoi(f.count)
			if err != nil {
				return -1
			}
			k *= n
		}
		sum += k
	}
	return sum
}

// cover: with fields of alternative versions, the width under each version (for a size on a list of structures)
func (l *layCheck) widthAt(name string, ver int) int {
	st := l.m[name]
	sum := 0
	for _, f := range st.fields {
		if !wantVer(f.ver, ver) {
			continue
		}
		g := f
		g.ver = ""
		t := &layStruct{name: "$", fields: []layField{g}}
		l.m["$"] = t
		k := l.fixed("$", 0)
		delete(l.m, "$")
		if k < 0 {
			return -1
		}
		sum += k
	}
	return sum
}

func wantVer(cond string, ver int) bool {
	switch {
	case cond == "":
		return true
	case cond[0] == '!':
		k, _ := strconv.Atoi(cond[2:])
		return ver != k
	default:
		k, _ := strconv.Atoi(cond[1:])
		return ver == k
	}
}

func (l *layCheck) field(st *layStruct, want *layField, got *tagField) string {
	var bad []string
	no := func(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }
	if got.bad != "" {
		no("%s", got.bad)
	}
	// presence, for every version
	for v := 0; v < 255; v++ {
		if vs := l.vers[st.name]; vs != nil && !vs[v] {
			continue
		}
		on := (got.ver == 255 || got.ver == v) && (got.nver == 255 || got.nver != v)
		if on != wantVer(want.ver, v) {
			no("in version %d present %v, want %v", v, on, !on)
			break
		}
	}
	if got.need != want.need || got.bar != want.bar {
		no("flags %06x/!%06x, want %06x/!%06x", got.need, got.bar, want.need, want.bar)
	}
	if got.optDyn != want.rule {
		no("present by rule %v, want %v", got.optDyn, want.rule)
	}
	if _, ext := got.opts["extend"]; ext != want.ext {
		no("extend %v, want %v", ext, want.ext)
	}
	// number
	t := got.typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if !want.ptr {
			no("held by pointer")
		}
		t = p.Elem()
	} else if want.ptr {
		no("not held by pointer")
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		if want.count != strconv.FormatInt(u.Len(), 10) {
			no("%d items, want [%s]", u.Len(), want.count)
		}
		t = u.Elem()
	case *types.Slice:
		switch {
		case want.count == "":
			no("a list, want one value")
		case want.count == "*":
			if got.length != -2 {
				no("counted, want up to the end of the box")
			}
		case want.count[0] == '=' || want.count == "?":
			if got.length != -1 {
				no("not counted by the rule, want [%s]", want.count)
			}
		default:
			if strconv.Itoa(got.length) != want.count {
				no("length %d, want [%s]", got.length, want.count)
			}
		}
		t = u.Elem()
	default:
		if want.count != "" {
			no("one value, want [%s]", want.count)
		}
	}
	// kind and width
	basic, _ := t.Underlying().(*types.Basic)
	_, vi := got.opts["varint"]
	_, bs := got.opts["boxstring"]
	if vi != (want.kind == "varint") {
		no("varint %v", vi)
	}
	width := got.size
	switch want.kind {
	case "u", "i", "b":
		info := types.BasicInfo(0)
		if basic != nil {
			info = basic.Info()
		}
		if basic == nil || (want.kind == "b") != (info&types.IsBoolean != 0) || want.kind != "b" && info&types.IsInteger == 0 {
			no("%s, want %s", t, want.kind)
		} else if want.kind != "b" && (info&types.IsUnsigned != 0) != (want.kind == "u") {
			no("%s, want %s", t, map[string]string{"u": "unsigned", "i": "signed"}[want.kind])
		} else if width != want.width {
			no("width %d, want %d", width, want.width)
		} else if want.kind != "b" && width > int(8*types.SizesFor("gc", "amd64").Sizeof(basic)) {
			no("width %d in %s", width, t)
		}
	case "none":
		if width > 0 {
			no("width %d, want none", width)
		}
	case "varint":
		if basic == nil || basic.Info()&types.IsUnsigned == 0 {
			no("%s, want unsigned", t)
		}
	case "str", "bstr":
		if basic == nil || basic.Kind() != types.String || bs != (want.kind == "bstr") || got.opts["string"] == "c_p" {
			no("%s boxstring %v, want %s", t, bs, want.kind)
		}
	default:
		n, _ := t.(*types.Named)
		if n == nil || n.Obj().Name() != want.kind || n.Obj().Pkg() != l.pkg {
			no("%s, want %s", t, want.kind)
		}
		switch {
		case width == -1:
			if want.size == "" {
				no("extent by rule")
			}
		case want.size == "?":
			no("extent %d, want by rule", width)
		case width > 0 && want.size == "":
			for v := 0; v < 255; v++ {
				if vs := l.vers[st.name]; vs != nil && !vs[v] {
					continue
				}
				if k := l.widthAt(want.kind, v); k != width {
					no("extent %d, want %d", width, k)
					break
				}
			}
		}
	}
	return strings.Join(bad, "; ")
}

// ruled says whether the answer for a field comes from a method with a contract of the property.
func (l *layCheck) ruled(prop, st, method string) string {
	look := func(name string) (string, bool) {
		o, _ := l.pkg.Scope().Lookup(name).(*types.TypeName)
		if o == nil {
			return "", false
		}
		ms := types.NewMethodSet(types.NewPointer(o.Type()))
		s := ms.Lookup(l.pkg, method)
		if s == nil {
			return "", false
		}
		f := s.Obj().(*types.Func)
		rt := f.Type().(*types.Signature).Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
			return "(*" + l.pkg.Path() + "." + rt.(*types.Named).Obj().Name() + ")." + method, true
		}
		return "(" + l.pkg.Path() + "." + rt.(*types.Named).Obj().Name() + ")." + method, true
	}
	names, ok := look(st)
	all := []string{names}
	if !ok {
		all = nil
		for _, b := range l.owners[st] {
			if n, ok := look(b); ok {
				all = append(all, n)
			} else {
				return "nobody answers " + method
			}
		}
	}
	for _, n := range all {
		c := l.w.contracts[n]
		ok := c != nil && !c.Trusted
		if ok {
			ok = false
			for _, p := range c.Props {
				ok = ok || p == prop
			}
		}
		if !ok {
			return n + " has no contract here"
		}
	}
	return ""
}

func (w *World) checkLayouts(prop, path string) (frs []FuncReport, failed []OblReport, total int) {
	m, order, err := loadLayouts(path)
	var pkg *types.Package
	for p, q := range w.pkgs {
		if p == modPath || q.Path() == modPath {
			pkg = q
		}
	}
	if err != nil || pkg == nil {
		return nil, []OblReport{{Func: "layouts", Name: "layouts", Kind: "layout", Status: "unknown", Detail: fmt.Sprint("no layouts: ", err)}}, 1
	}
	l := &layCheck{w, pkg, m, map[string]map[int]bool{}, map[string]bool{}, map[string][]string{}}
	for _, n := range order {
		if m[n].box {
			l.reach(n, n, m[n].versions, 0)
		}
	}
	for _, n := range order {
		st := m[n]
		fr := FuncReport{Name: "layout:" + n, Contract: st.loc, Kind: "layout"}
		obl := func(name, detail string) {
			total++
			fr.Obligations++
			if detail == "" {
				fr.Discharged++
				return
			}
			fr.Failed = append(fr.Failed, name)
			failed = append(failed, OblReport{Func: "layout:" + n, Name: name, Kind: "layout", Pos: st.loc, Status: "refuted", Solver: "evaluation", Detail: detail})
		}
		o, _ := pkg.Scope().Lookup(n).(*types.TypeName)
		var s *types.Struct
		if o != nil {
			s, _ = o.Type().Underlying().(*types.Struct)
		}
		if s == nil {
			obl("declared", "no structure "+n)
			frs = append(frs, fr)
			continue
		}
		var got []tagField
		for i := 0; i < s.NumFields(); i++ {
			if tag, ok := reflect.StructTag(s.Tag(i)).Lookup("mp4"); ok {
				got = append(got, readTag(s.Field(i).Name(), s.Field(i).Type(), tag))
			}
		}
		sort.SliceStable(got, func(i, j int) bool { return got[i].order < got[j].order })
		want := st.fields
		if st.full {
			want = append([]layField{{name: "FullBox", kind: "FullBox", ext: true}}, want...)
		}
		var ws []layField
		moved := map[string]bool{}
		for _, f := range want {
			if f.hook {
				if moved[f.name] {
					continue // the second place is the hooks' work
				}
				moved[f.name] = true
				f.ver = ""
				for _, h := range []string{"OnReadField", "OnWriteField"} {
					obl(f.name+" "+h, l.ruled(prop, n, h))
				}
			}
			ws = append(ws, f)
		}
		want = ws
		for i := range want {
			f := &want[i]
			if i >= len(got) {
				obl(f.name, "not in the structure at this place")
				continue
			}
			g := &got[i]
			if g.name != f.name {
				// a field the specification lists twice (by version) has one declaration
				obl(f.name, "field "+g.name+" at the place of "+f.name)
				continue
			}
			d := l.field(st, f, g)
			name := f.name
			if f.dev > 0 && d != "" {
				k := *f
				k.width = f.dev
				if l.field(st, &k, g) == "" {
					name += ".width"
				}
			}
			obl(name, d)
			if f.count != "" && (f.count[0] == '=' || f.count == "?") {
				obl(f.name+" count rule", l.ruled(prop, n, "GetFieldLength"))
			}
			if f.rule {
				obl(f.name+" presence rule", l.ruled(prop, n, "IsOptFieldEnabled"))
			}
			if f.width < 0 || f.size == "?" {
				obl(f.name+" width rule", l.ruled(prop, n, "GetFieldSize"))
			}
		}
		d := ""
		if len(got) > len(want) {
			d = "further field " + got[len(want)].name
		}
		obl("complete", d)
		frs = append(frs, fr)
	}
	return frs, failed, total
}
