package github.com/abema/go-mp4

// C14 - fragment summaries (32-bit arithmetic, as the summary's fields are 32 bits wide).

// the last of the first n boxes that has a type, or -1
rec 1 lastOf(bs []*BoxInfoWithPayload, a byte, b byte, c byte, d byte, n int) int = n <= 0 ? int(-1) : is4(bs[n - 1].Info.Type, a, b, c, d) ? n - 1 : lastOf(bs, a, b, c, d, n - 1)

logic lastTfhd(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x74, 0x66, 0x68, 0x64, n)
logic lastTfdt(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x74, 0x66, 0x64, 0x74, n)
logic lastTrun(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x74, 0x72, 0x75, 0x6e, n)

// sums over the first n entries of a run
rec 1 runDur(es []TrunEntry, n int) uint32 = n <= 0 ? uint32(0) : runDur(es, n - 1) + es[n - 1].SampleDuration
rec 1 runSize(es []TrunEntry, n int) uint32 = n <= 0 ? uint32(0) : runSize(es, n - 1) + es[n - 1].SampleSize
logic trunFlags(t *Trun) uint32 = (uint32(t.Flags[0]) << 16) | (uint32(t.Flags[1]) << 8) | uint32(t.Flags[2])
logic hasDur(t *Trun) bool = trunFlags(t) & 0x100 != 0
logic hasSize(t *Trun) bool = trunFlags(t) & 0x200 != 0
rec 1 elapsed(es []TrunEntry, each bool, def uint32, n int) uint32 = n <= 0 ? uint32(0) : elapsed(es, each, def, n - 1) + (each ? es[n - 1].SampleDuration : def)

// the composition offset of sample i of a run
logic ctoOf(t *Trun, i int) int32 = t.Version == 0 ? int32(t.Entries[i].SampleCompositionTimeOffsetV0) : t.Version == 1 ? t.Entries[i].SampleCompositionTimeOffsetV1 : int32(0)
rec 1 sampleAt(t *Trun, def uint32, i int) int32 = int32(elapsed(t.Entries, hasDur(t), def, i)) + ctoOf(t, i)

func probeMoof(r, bi) (seg, err)
  prop C14
  apart C14 ExtractBoxesWithPayload
  requires sane(bi)
  modifies all(pos), all(wr), all(fdat), all(wok), all(walign), all(wcont), all(calls), heap(Context)
  capture bips = ExtractBoxesWithPayload.bs
  check ExtractBoxesWithPayload : [place] $r == r && $parent == bi
  ensures [fresh] err == nil ==> fresh(seg)
  ensures [tfhd] err == nil ==> lastTfhd(bips, len(bips)) >= 0
  ensures [header] err == nil ==> seg.MoofOffset == bi.Offset && seg.TrackID == bips[lastTfhd(bips, len(bips))].Payload.(*Tfhd).TrackID && seg.DefaultSampleDuration == bips[lastTfhd(bips, len(bips))].Payload.(*Tfhd).DefaultSampleDuration
  ensures [time0] err == nil && lastTfdt(bips, len(bips)) < 0 ==> seg.BaseMediaDecodeTime == 0
  ensures [time1] err == nil && lastTfdt(bips, len(bips)) >= 0 && bips[lastTfdt(bips, len(bips))].Payload.(*Tfdt).Version == 0 ==> seg.BaseMediaDecodeTime == uint64(bips[lastTfdt(bips, len(bips))].Payload.(*Tfdt).BaseMediaDecodeTimeV0)
  ensures [time2] err == nil && lastTfdt(bips, len(bips)) >= 0 && bips[lastTfdt(bips, len(bips))].Payload.(*Tfdt).Version != 0 ==> seg.BaseMediaDecodeTime == bips[lastTfdt(bips, len(bips))].Payload.(*Tfdt).BaseMediaDecodeTimeV1
  ensures [norun] err == nil && lastTrun(bips, len(bips)) < 0 ==> seg.SampleCount == 0 && seg.Duration == 0 && seg.Size == 0 && seg.CompositionTimeOffset == 0
  ensures [run] err == nil && lastTrun(bips, len(bips)) >= 0 ==> runOK(seg, bips[lastTfhd(bips, len(bips))].Payload.(*Tfhd), bips[lastTrun(bips, len(bips))].Payload.(*Trun))
  loop 0
    invariant tfhd == (lastTfhd(bips, $k) < 0 ? nil : bips[lastTfhd(bips, $k)].Payload.(*Tfhd)) && lastTfhd(bips, $k) < $k
    invariant tfdt == (lastTfdt(bips, $k) < 0 ? nil : bips[lastTfdt(bips, $k)].Payload.(*Tfdt)) && lastTfdt(bips, $k) < $k && (lastTfdt(bips, $k) >= 0 ==> tfdt != nil)
    invariant trun == (lastTrun(bips, $k) < 0 ? nil : bips[lastTrun(bips, $k)].Payload.(*Trun)) && lastTrun(bips, $k) < $k && (lastTrun(bips, $k) >= 0 ==> trun != nil)
  loop 1
    invariant segment.Duration == runDur(trun.Entries, $k)
  loop 2
    invariant segment.Size == runSize(trun.Entries, $k)
  loop 3
    entry sampleAt(trun, tfhd.DefaultSampleDuration, $k) == int32(duration) + ctoOf(trun, $k)
    invariant duration == elapsed(trun.Entries, hasDur(trun), tfhd.DefaultSampleDuration, $k)
    invariant $k == 0 ==> segment.CompositionTimeOffset == 0
    invariant forall i int :: {sampleAt(trun, tfhd.DefaultSampleDuration, i)} 0 <= i && i < $k ==> segment.CompositionTimeOffset <= sampleAt(trun, tfhd.DefaultSampleDuration, i)
    invariant $k > 0 ==> exists i int :: {sampleAt(trun, tfhd.DefaultSampleDuration, i)} 0 <= i && i < $k && segment.CompositionTimeOffset == sampleAt(trun, tfhd.DefaultSampleDuration, i)

// the figures of a run
logic runOK(s *Segment, h *Tfhd, t *Trun) bool =
    s.SampleCount == t.SampleCount
    && s.Duration == (hasDur(t) ? runDur(t.Entries, len(t.Entries)) : h.DefaultSampleDuration * t.SampleCount)
    && s.Size == (hasSize(t) ? runSize(t.Entries, len(t.Entries)) : h.DefaultSampleSize * t.SampleCount)
    && (len(t.Entries) == 0 ==> s.CompositionTimeOffset == 0)
    && (forall i int :: {sampleAt(t, h.DefaultSampleDuration, i)} 0 <= i && i < len(t.Entries) ==> s.CompositionTimeOffset <= sampleAt(t, h.DefaultSampleDuration, i))
    && (len(t.Entries) > 0 ==> exists i int :: {sampleAt(t, h.DefaultSampleDuration, i)} 0 <= i && i < len(t.Entries) && s.CompositionTimeOffset == sampleAt(t, h.DefaultSampleDuration, i))
