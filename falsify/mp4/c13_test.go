package mp4

import (
	"fmt"
	"reflect"
	"testing"
)

func c13diff(k *vTrak, t *Track) string {
	if t.TrackID != k.id || t.Timescale != k.scale || t.Duration != k.dur {
		return fmt.Sprintf("id %d timescale %d duration %d", t.TrackID, t.Timescale, t.Duration)
	}
	if len(t.EditList) != len(k.elst) {
		return fmt.Sprintf("%d edits", len(t.EditList))
	}
	for i, e := range t.EditList {
		if e.MediaTime != k.elst[i][0] || e.SegmentDuration != uint64(k.elst[i][1]) {
			return fmt.Sprintf("edit %d: %v", i, *e)
		}
	}
	codec := map[string]Codec{"": CodecUnknown, "avc1": CodecAVC1, "encv": CodecAVC1, "mp4a": CodecMP4A, "enca": CodecMP4A}[k.codec]
	if t.Codec != codec || t.Encrypted != (k.codec == "encv" || k.codec == "enca") {
		return fmt.Sprintf("codec %d encrypted %v", t.Codec, t.Encrypted)
	}
	if k.codec == "avc1" && k.avcc != nil {
		w := AVCDecConfigInfo{1, k.avcc[1], k.avcc[2], k.avcc[0], uint16(k.avcc[3]) + 1, k.w, k.h}
		if t.AVC == nil || *t.AVC != w {
			return fmt.Sprintf("AVC %v want %v", t.AVC, w)
		}
	} else if k.codec != "encv" && t.AVC != nil {
		return fmt.Sprintf("AVC %v want none", *t.AVC)
	}
	if (k.codec == "mp4a" || k.codec == "enca") && !k.noesds {
		w := MP4AInfo{0x40, 2, k.chans}
		if t.MP4A == nil || *t.MP4A != w {
			return fmt.Sprintf("MP4A %v want %v", t.MP4A, w)
		}
	} else if t.MP4A != nil {
		return fmt.Sprintf("MP4A %v want none", *t.MP4A)
	}
	// samples
	var ss Samples
	for _, e := range k.stts {
		for i := uint32(0); i < e[0]; i++ {
			ss = append(ss, &Sample{TimeDelta: e[1]})
		}
	}
	si := uint64(0)
	for _, e := range k.ctts {
		for i := si; i < si+uint64(e[0]) && i < uint64(len(ss)); i++ {
			ss[i].CompositionTimeOffset = int64(e[1])
			if k.ctver == 1 {
				ss[i].CompositionTimeOffset = int64(int32(e[1]))
			}
		}
		si += uint64(e[0])
	}
	for i, s := range ss {
		if i < len(k.stsz) {
			s.Size = k.stsz[i]
		}
	}
	if len(ss) != len(t.Samples) {
		return fmt.Sprintf("%d samples want %d", len(t.Samples), len(ss))
	}
	for i := range ss {
		if !reflect.DeepEqual(ss[i], t.Samples[i]) {
			return fmt.Sprintf("sample %d: %v want %v", i, *t.Samples[i], *ss[i])
		}
	}
	// chunks
	offs := []uint64{}
	for _, o := range k.stco {
		offs = append(offs, uint64(o))
	}
	if k.stco == nil {
		offs = k.co64
	}
	if len(offs) != len(t.Chunks) {
		return fmt.Sprintf("%d chunks want %d", len(t.Chunks), len(offs))
	}
	for i, o := range offs {
		w := Chunk{DataOffset: o}
		for _, e := range k.stsc {
			if e[0] >= 1 && e[0]-1 <= uint32(i) {
				w.SamplesPerChunk = e[1]
			}
		}
		if *t.Chunks[i] != w {
			return fmt.Sprintf("chunk %d: %v want %v", i, *t.Chunks[i], w)
		}
	}
	return ""
}

func TestVerifC13(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(3000) && !v.late(); i++ {
		var ks []*vTrak
		var traks [][]byte
		for n := 1 + v.r.Intn(2); n > 0; n-- {
			k := v.genTrak()
			ks = append(ks, k)
			traks = append(traks, v.trak(k))
		}
		ver, scale, dur := byte(v.r.Intn(2)), v.pick(1000), v.u64()
		if ver == 0 {
			dur = uint64(uint32(dur))
		}
		moov := vBox("moov", vCat(append([][]byte{vMvhd(ver, scale, dur)}, traks...)...))
		mdat := vBox("mdat", v.bytes(v.r.Intn(9)))
		fast := v.r.Intn(2) == 0
		brands := v.r.Intn(4)
		ftyp := vCat([]byte("iso5"), vU32(scale+1))
		var cb [][4]byte
		for j := 0; j < brands; j++ {
			b := [4]byte{'m', 'p', '4', byte('0' + j)}
			cb = append(cb, b)
			ftyp = append(ftyp, b[:]...)
		}
		data := vCat(vBox("ftyp", ftyp), mdat, moov)
		if fast {
			data = vCat(vBox("ftyp", ftyp), moov, mdat)
		}
		desc := fmt.Sprint(ks)
		v.eval("%s", desc)
		v.guard("Probe", desc, func() {
			p, err := Probe(&vFile{data: data, short: v.n%3 == 0})
			ok := true
			for _, k := range ks {
				ok = ok && k.complete()
			}
			if (err == nil) != ok {
				v.fail("Probe-error", "%s: error %v", desc, err)
				return
			}
			if err != nil {
				return
			}
			if p.MajorBrand != [4]byte{'i', 's', 'o', '5'} || p.MinorVersion != scale+1 || len(p.CompatibleBrands) != len(cb) || p.Timescale != scale || p.Duration != dur || p.FastStart != fast || len(p.Tracks) != len(ks) || len(p.Segments) != 0 {
				v.fail("Probe-movie", "%s: movie %v %d %v timescale %d duration %d fast %v; want %d %d %v", desc, p.MajorBrand, p.MinorVersion, p.CompatibleBrands, p.Timescale, p.Duration, p.FastStart, scale, dur, fast)
				return
			}
			for j := range cb {
				if cb[j] != p.CompatibleBrands[j] {
					v.fail("Probe-brands", "brands %v want %v", p.CompatibleBrands, cb)
				}
			}
			for j, k := range ks {
				if d := c13diff(k, p.Tracks[j]); d != "" {
					v.fail("Probe-track", "track %s: %s", k, d)
				}
			}
		})
	}
}
