package mp4

import "testing"

func c15rate(size uint64, scale uint32, dur uint64) uint64 {
	if dur == 0 {
		return 0
	}
	return 8 * size * uint64(scale) / dur
}

func TestVerifC15Samples(t *testing.T) {
	v := newV(t)
	defer v.done()
	num := func() uint32 {
		switch v.r.Intn(5) {
		case 0:
			return 0
		case 1:
			return uint32(v.r.Intn(4))
		case 2:
			return uint32(v.u64())
		}
		return uint32(v.r.Intn(2000))
	}
	for i := 0; i < v.rounds(6000) && !v.late(); i++ {
		n := v.r.Intn(12)
		s := make(Samples, n)
		var sz, du uint64
		zero := v.r.Intn(4) == 0
		for j := range s {
			s[j] = &Sample{Size: num(), TimeDelta: num(), CompositionTimeOffset: int64(v.r.Intn(5))}
			if zero {
				s[j].TimeDelta = 0
			}
			sz += uint64(s[j].Size)
			du += uint64(s[j].TimeDelta)
		}
		scale := num()
		td := uint64(num())
		if v.r.Intn(10) == 0 {
			td = v.u64()
		}
		desc := ""
		for _, x := range s {
			desc += "(" + itoaV(uint64(x.Size)) + "," + itoaV(uint64(x.TimeDelta)) + ")"
		}
		v.eval("samples=%s scale=%d delta=%d", desc, scale, td)
		v.guard("GetBitrate", desc, func() {
			if r, w := s.GetBitrate(scale), c15rate(sz, scale, du); r != w {
				v.fail("Samples.GetBitrate", "samples %s timescale %d: got %d want %d", desc, scale, r, w)
			}
		})
		if td == 0 {
			v.guard("GetMaxBitrate", desc, func() { s.GetMaxBitrate(scale, 0) })
			continue
		}
		// for every end, the longest run whose duration without its last sample stays below td
		var want uint64
		for e := 1; e <= n; e++ {
			for b := 0; b < e; b++ {
				var d, z uint64
				for k := b; k < e-1; k++ {
					d += uint64(s[k].TimeDelta)
					z += uint64(s[k].Size)
				}
				var dl uint64
				if b > 0 {
					dl = d + uint64(s[b-1].TimeDelta)
				}
				if d >= td || (b > 0 && dl < td) {
					continue
				}
				d += uint64(s[e-1].TimeDelta)
				z += uint64(s[e-1].Size)
				if d < td && e != n {
					continue
				}
				if r := c15rate(z, scale, d); r > want {
					want = r
				}
			}
		}
		v.guard("GetMaxBitrate", desc, func() {
			if r := s.GetMaxBitrate(scale, td); r != want {
				v.fail("Samples.GetMaxBitrate", "samples %s timescale %d timeDelta %d: got %d want %d", desc, scale, td, r, want)
			}
		})
	}
}

func itoaV(x uint64) string {
	if x == 0 {
		return "0"
	}
	s := ""
	for x > 0 {
		s = string(rune('0'+x%10)) + s
		x /= 10
	}
	return s
}

func TestVerifC15Segments(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(6000) && !v.late(); i++ {
		n := v.r.Intn(8)
		s := make(Segments, n)
		id := uint32(1 + v.r.Intn(3))
		var sz, du, mx uint64
		scale := uint32(v.u64())
		for j := range s {
			s[j] = &Segment{TrackID: uint32(1 + v.r.Intn(3)), Size: uint32(v.u64()), Duration: uint32(v.u64())}
			if v.r.Intn(3) == 0 {
				s[j].Duration = 0
			}
			if v.r.Intn(2) == 0 {
				s[j].Size = uint32(v.r.Intn(10))
			}
			if s[j].TrackID == id {
				sz += uint64(s[j].Size)
				du += uint64(s[j].Duration)
				if r := c15rate(uint64(s[j].Size), scale, uint64(s[j].Duration)); r > mx {
					mx = r
				}
			}
		}
		desc := ""
		for _, x := range s {
			desc += "(track " + itoaV(uint64(x.TrackID)) + " size " + itoaV(uint64(x.Size)) + " duration " + itoaV(uint64(x.Duration)) + ")"
		}
		v.eval("segments=%s track=%d scale=%d", desc, id, scale)
		v.guard("Segments.GetBitrate", desc, func() {
			if r, w := s.GetBitrate(id, scale), c15rate(sz, scale, du); r != w {
				v.fail("Segments.GetBitrate", "segments %s track %d timescale %d: got %d want %d", desc, id, scale, r, w)
			}
		})
		v.guard("Segments.GetMaxBitrate", desc, func() {
			if r := s.GetMaxBitrate(id, scale); r != mx {
				v.fail("Segments.GetMaxBitrate", "segments %s track %d timescale %d: got %d want %d", desc, id, scale, r, mx)
			}
		})
	}
}
