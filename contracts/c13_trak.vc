package github.com/abema/go-mp4

// C13 - track summaries.

logic lastTkhd(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x74, 0x6b, 0x68, 0x64, n)
logic lastElst(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x65, 0x6c, 0x73, 0x74, n)
logic lastMdhd(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x6d, 0x64, 0x68, 0x64, n)
logic lastAvc1(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x61, 0x76, 0x63, 0x31, n)
logic lastAvcC(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x61, 0x76, 0x63, 0x43, n)
logic lastEsds(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x65, 0x73, 0x64, 0x73, n)
logic lastStco(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x73, 0x74, 0x63, 0x6f, n)
logic lastCo64(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x63, 0x6f, 0x36, 0x34, n)
logic lastStts(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x73, 0x74, 0x74, 0x73, n)
logic lastStsc(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x73, 0x74, 0x73, 0x63, n)
logic lastCtts(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x63, 0x74, 0x74, 0x73, n)
logic lastStsz(bs []*BoxInfoWithPayload, n int) int = lastOf(bs, 0x73, 0x74, 0x73, 0x7a, n)

logic isEncv(t BoxType) bool = is4(t, 0x65, 0x6e, 0x63, 0x76)
logic isEnca(t BoxType) bool = is4(t, 0x65, 0x6e, 0x63, 0x61)
logic isMp4a(t BoxType) bool = is4(t, 0x6d, 0x70, 0x34, 0x61)
logic isAvc1(t BoxType) bool = is4(t, 0x61, 0x76, 0x63, 0x31)
rec 1 lastAudio(bs []*BoxInfoWithPayload, n int) int = n <= 0 ? int(-1) : isMp4a(bs[n - 1].Info.Type) || isEnca(bs[n - 1].Info.Type) ? n - 1 : lastAudio(bs, n - 1)
rec 1 codecOf(bs []*BoxInfoWithPayload, n int) Codec = n <= 0 ? Codec(0) : isAvc1(bs[n - 1].Info.Type) || isEncv(bs[n - 1].Info.Type) ? Codec(1) : isMp4a(bs[n - 1].Info.Type) || isEnca(bs[n - 1].Info.Type) ? Codec(2) : codecOf(bs, n - 1)
rec 1 encrypted(bs []*BoxInfoWithPayload, n int) bool = n > 0 && (isEncv(bs[n - 1].Info.Type) || isEnca(bs[n - 1].Info.Type) || encrypted(bs, n - 1))

// the samples of the first k runs, and the duration of sample i
rec 1 sampleN(es []SttsEntry, k int) int = k <= 0 ? int(0) : sampleN(es, k - 1) + int(es[k - 1].SampleCount)
rec 1 deltaOf(es []SttsEntry, k int, i int) uint32 = k <= 0 ? uint32(0) : i >= sampleN(es, k - 1) ? es[k - 1].SampleDelta : deltaOf(es, k - 1, i)

// the samples that the first k runs of composition offsets reach (of n), and the offset of sample i
rec 1 cttsN(es []CttsEntry, k int, n int) int = k <= 0 ? int(0) : capAt(cttsN(es, k - 1, n) + int(es[k - 1].SampleCount), n)
logic cttsVal(c *Ctts, k int) int64 = c.Version == 0 ? int64(c.Entries[k].SampleOffsetV0) : c.Version == 1 ? int64(c.Entries[k].SampleOffsetV1) : int64(0)
rec 1 cttsOf(c *Ctts, k int, n int, i int) int64 = k <= 0 ? int64(0) : cttsN(c.Entries, k - 1, n) <= i && i < cttsN(c.Entries, k, n) ? cttsVal(c, k - 1) : cttsOf(c, k - 1, n, i)

// the samples per chunk of chunk c: the last of the first k entries that starts at or before it
rec 1 spcOf(es []StscEntry, k int, c int) uint32 = k <= 0 ? uint32(0) : int(es[k - 1].FirstChunk - 1) <= c ? es[k - 1].SamplesPerChunk : spcOf(es, k - 1, c)

logic elstTime(e *Elst, i int) int64 = e.Version == 0 ? int64(e.Entries[i].MediaTimeV0) : e.Version == 1 ? e.Entries[i].MediaTimeV1 : int64(0)
logic elstDur(e *Elst, i int) uint64 = e.Version == 0 ? uint64(e.Entries[i].SegmentDurationV0) : e.Version == 1 ? e.Entries[i].SegmentDurationV1 : uint64(0)

func probeTrak(r, bi) (track, err)
  prop C13
  apart C13 ExtractBoxesWithPayload detectAACProfile
  requires sane(bi)
  modifies all(pos), all(wr), all(fdat), all(wok), all(walign), all(wcont), all(calls), heap(Context), all(rok), all(wid)
  capture bips = ExtractBoxesWithPayload.bs
  capture oti = detectAACProfile.oti
  capture aot = detectAACProfile.audOTI
  check ExtractBoxesWithPayload : [place] $r == r && $parent == bi
  check detectAACProfile : [esds] $esds == esds
  ensures [fresh] err == nil ==> fresh(track)
  ensures [mandatory] err == nil ==> lastTkhd(bips, len(bips)) >= 0 && lastMdhd(bips, len(bips)) >= 0 && (lastStco(bips, len(bips)) >= 0 || lastCo64(bips, len(bips)) >= 0) && lastStts(bips, len(bips)) >= 0 && lastStsc(bips, len(bips)) >= 0
  ensures [id] err == nil ==> track.TrackID == bips[lastTkhd(bips, len(bips))].Payload.(*Tkhd).TrackID
  ensures [mdhd] err == nil ==> track.Timescale == bips[lastMdhd(bips, len(bips))].Payload.(*Mdhd).Timescale
  ensures [duration] err == nil ==> track.Duration == (bips[lastMdhd(bips, len(bips))].Payload.(*Mdhd).Version == 0 ? uint64(bips[lastMdhd(bips, len(bips))].Payload.(*Mdhd).DurationV0) : bips[lastMdhd(bips, len(bips))].Payload.(*Mdhd).Version == 1 ? bips[lastMdhd(bips, len(bips))].Payload.(*Mdhd).DurationV1 : uint64(0))
  ensures [codec] err == nil ==> track.Codec == codecOf(bips, len(bips)) && track.Encrypted == encrypted(bips, len(bips))
  ensures [noedits] err == nil && lastElst(bips, len(bips)) < 0 ==> len(track.EditList) == 0
  ensures [edits] err == nil && lastElst(bips, len(bips)) >= 0 ==> editsOK(track.EditList, bips[lastElst(bips, len(bips))].Payload.(*Elst))
  ensures [avc] err == nil && lastAvc1(bips, len(bips)) >= 0 && lastAvcC(bips, len(bips)) >= 0 ==> avcOK(track.AVC, bips[lastAvc1(bips, len(bips))].Payload.(*VisualSampleEntry), bips[lastAvcC(bips, len(bips))].Payload.(*AVCDecoderConfiguration))
  ensures [noavc] err == nil && (lastAvc1(bips, len(bips)) < 0 || lastAvcC(bips, len(bips)) < 0) ==> track.AVC == nil
  ensures [aac] err == nil && lastEsds(bips, len(bips)) >= 0 && lastAudio(bips, len(bips)) >= 0 ==> track.MP4A != nil && track.MP4A.OTI == oti && track.MP4A.AudOTI == aot && track.MP4A.ChannelCount == bips[lastAudio(bips, len(bips))].Payload.(*AudioSampleEntry).ChannelCount
  ensures [noaac] err == nil && (lastEsds(bips, len(bips)) < 0 || lastAudio(bips, len(bips)) < 0) ==> track.MP4A == nil
  ensures [stco] err == nil && lastStco(bips, len(bips)) >= 0 ==> len(track.Chunks) == len(bips[lastStco(bips, len(bips))].Payload.(*Stco).ChunkOffset) && forall i int :: {track.Chunks[i]} 0 <= i && i < len(track.Chunks) ==> track.Chunks[i] != nil && track.Chunks[i].DataOffset == uint64(bips[lastStco(bips, len(bips))].Payload.(*Stco).ChunkOffset[i])
  ensures [co64] err == nil && lastStco(bips, len(bips)) < 0 ==> len(track.Chunks) == len(bips[lastCo64(bips, len(bips))].Payload.(*Co64).ChunkOffset) && forall i int :: {track.Chunks[i]} 0 <= i && i < len(track.Chunks) ==> track.Chunks[i] != nil && track.Chunks[i].DataOffset == bips[lastCo64(bips, len(bips))].Payload.(*Co64).ChunkOffset[i]
  ensures [perchunk] err == nil && len(track.Chunks) <= 0xffffffff ==> forall i int :: {track.Chunks[i]} 0 <= i && i < len(track.Chunks) ==> track.Chunks[i].SamplesPerChunk == spcOf(bips[lastStsc(bips, len(bips))].Payload.(*Stsc).Entries, len(bips[lastStsc(bips, len(bips))].Payload.(*Stsc).Entries), i)
  ensures [samples] err == nil ==> len(track.Samples) == sampleN(bips[lastStts(bips, len(bips))].Payload.(*Stts).Entries, len(bips[lastStts(bips, len(bips))].Payload.(*Stts).Entries)) && forall i int :: {track.Samples[i]} 0 <= i && i < len(track.Samples) ==> track.Samples[i] != nil && track.Samples[i].TimeDelta == deltaOf(bips[lastStts(bips, len(bips))].Payload.(*Stts).Entries, len(bips[lastStts(bips, len(bips))].Payload.(*Stts).Entries), i)
  ensures [noctts] err == nil && lastCtts(bips, len(bips)) < 0 ==> forall i int :: {track.Samples[i]} 0 <= i && i < len(track.Samples) ==> track.Samples[i].CompositionTimeOffset == 0
  ensures [ctts] err == nil && lastCtts(bips, len(bips)) >= 0 && len(track.Samples) <= 0xffffffff ==> forall i int :: {track.Samples[i]} 0 <= i && i < len(track.Samples) ==> track.Samples[i].CompositionTimeOffset == cttsOf(bips[lastCtts(bips, len(bips))].Payload.(*Ctts), len(bips[lastCtts(bips, len(bips))].Payload.(*Ctts).Entries), len(track.Samples), i)
  ensures [sizes] err == nil ==> forall i int :: {track.Samples[i]} 0 <= i && i < len(track.Samples) ==> track.Samples[i].Size == (lastStsz(bips, len(bips)) >= 0 && i < len(bips[lastStsz(bips, len(bips))].Payload.(*Stsz).EntrySize) ? bips[lastStsz(bips, len(bips))].Payload.(*Stsz).EntrySize[i] : uint32(0))
  loop 0
    invariant tkhd == (lastTkhd(bips, $k) < 0 ? nil : bips[lastTkhd(bips, $k)].Payload.(*Tkhd)) && lastTkhd(bips, $k) < $k && (lastTkhd(bips, $k) >= 0 ==> tkhd != nil)
    invariant elst == (lastElst(bips, $k) < 0 ? nil : bips[lastElst(bips, $k)].Payload.(*Elst)) && lastElst(bips, $k) < $k && (lastElst(bips, $k) >= 0 ==> elst != nil)
    invariant mdhd == (lastMdhd(bips, $k) < 0 ? nil : bips[lastMdhd(bips, $k)].Payload.(*Mdhd)) && lastMdhd(bips, $k) < $k && (lastMdhd(bips, $k) >= 0 ==> mdhd != nil)
    invariant avc1 == (lastAvc1(bips, $k) < 0 ? nil : bips[lastAvc1(bips, $k)].Payload.(*VisualSampleEntry)) && lastAvc1(bips, $k) < $k && (lastAvc1(bips, $k) >= 0 ==> avc1 != nil)
    invariant avcC == (lastAvcC(bips, $k) < 0 ? nil : bips[lastAvcC(bips, $k)].Payload.(*AVCDecoderConfiguration)) && lastAvcC(bips, $k) < $k && (lastAvcC(bips, $k) >= 0 ==> avcC != nil)
    invariant esds == (lastEsds(bips, $k) < 0 ? nil : bips[lastEsds(bips, $k)].Payload.(*Esds)) && lastEsds(bips, $k) < $k && (lastEsds(bips, $k) >= 0 ==> esds != nil)
    invariant stco == (lastStco(bips, $k) < 0 ? nil : bips[lastStco(bips, $k)].Payload.(*Stco)) && lastStco(bips, $k) < $k && (lastStco(bips, $k) >= 0 ==> stco != nil)
    invariant co64 == (lastCo64(bips, $k) < 0 ? nil : bips[lastCo64(bips, $k)].Payload.(*Co64)) && lastCo64(bips, $k) < $k && (lastCo64(bips, $k) >= 0 ==> co64 != nil)
    invariant stts == (lastStts(bips, $k) < 0 ? nil : bips[lastStts(bips, $k)].Payload.(*Stts)) && lastStts(bips, $k) < $k && (lastStts(bips, $k) >= 0 ==> stts != nil)
    invariant stsc == (lastStsc(bips, $k) < 0 ? nil : bips[lastStsc(bips, $k)].Payload.(*Stsc)) && lastStsc(bips, $k) < $k && (lastStsc(bips, $k) >= 0 ==> stsc != nil)
    invariant ctts == (lastCtts(bips, $k) < 0 ? nil : bips[lastCtts(bips, $k)].Payload.(*Ctts)) && lastCtts(bips, $k) < $k && (lastCtts(bips, $k) >= 0 ==> ctts != nil)
    invariant stsz == (lastStsz(bips, $k) < 0 ? nil : bips[lastStsz(bips, $k)].Payload.(*Stsz)) && lastStsz(bips, $k) < $k && (lastStsz(bips, $k) >= 0 ==> stsz != nil)
    invariant audioSampleEntry == (lastAudio(bips, $k) < 0 ? nil : bips[lastAudio(bips, $k)].Payload.(*AudioSampleEntry)) && lastAudio(bips, $k) < $k && (lastAudio(bips, $k) >= 0 ==> audioSampleEntry != nil)
    invariant track.Codec == codecOf(bips, $k) && track.Encrypted == encrypted(bips, $k)
  loop 1
    invariant fresh(editList) && len(editList) == $k
    invariant forall i int :: {editList[i]} 0 <= i && i < $k ==> editList[i] != nil && editList[i].MediaTime == elstTime(elst, i) && editList[i].SegmentDuration == elstDur(elst, i)
  loop 2
    invariant fresh(track.Chunks) && len(track.Chunks) == $k
    invariant forall i int :: {track.Chunks[i]} 0 <= i && i < $k ==> track.Chunks[i] != nil && fresh(track.Chunks[i]) && track.Chunks[i].DataOffset == uint64(stco.ChunkOffset[i]) && track.Chunks[i].SamplesPerChunk == 0
    invariant forall i int, j int :: {track.Chunks[i], track.Chunks[j]} 0 <= i && i < j && j < $k ==> track.Chunks[i] != track.Chunks[j]
  loop 3
    invariant fresh(track.Chunks) && len(track.Chunks) == $k
    invariant forall i int :: {track.Chunks[i]} 0 <= i && i < $k ==> track.Chunks[i] != nil && fresh(track.Chunks[i]) && track.Chunks[i].DataOffset == co64.ChunkOffset[i] && track.Chunks[i].SamplesPerChunk == 0
    invariant forall i int, j int :: {track.Chunks[i], track.Chunks[j]} 0 <= i && i < j && j < $k ==> track.Chunks[i] != track.Chunks[j]
  loop 4
    invariant fresh(track.Samples) && len(track.Samples) == sampleN(stts.Entries, $k)
    invariant forall i int :: {track.Samples[i]} 0 <= i && i < len(track.Samples) ==> track.Samples[i] != nil && fresh(track.Samples[i]) && track.Samples[i].TimeDelta == deltaOf(stts.Entries, $k, i) && track.Samples[i].CompositionTimeOffset == 0 && track.Samples[i].Size == 0
    invariant forall i int, j int :: {track.Samples[i], track.Samples[j]} 0 <= i && i < j && j < len(track.Samples) ==> track.Samples[i] != track.Samples[j]
  loop 5
    invariant i <= entry.SampleCount && fresh(track.Samples) && len(track.Samples) == sampleN(stts.Entries, $k4) + int(i)
    invariant forall i int :: {track.Samples[i]} 0 <= i && i < len(track.Samples) ==> track.Samples[i] != nil && fresh(track.Samples[i]) && track.Samples[i].TimeDelta == deltaOf(stts.Entries, $k4 + 1, i) && track.Samples[i].CompositionTimeOffset == 0 && track.Samples[i].Size == 0
    invariant forall i int, j int :: {track.Samples[i], track.Samples[j]} 0 <= i && i < j && j < len(track.Samples) ==> track.Samples[i] != track.Samples[j]
    decreases entry.SampleCount - i
  loop 6
    invariant len(track.Chunks) <= 0xffffffff ==> forall i int :: {track.Chunks[i]} 0 <= i && i < len(track.Chunks) && ($k == len(stsc.Entries) || i < int(stsc.Entries[$k].FirstChunk - 1)) ==> track.Chunks[i].SamplesPerChunk == spcOf(stsc.Entries, $k, i)
  loop 7
    invariant end <= uint32(len(track.Chunks)) && entry.FirstChunk - 1 <= ci && (ci <= end || ci == entry.FirstChunk - 1)
    invariant len(track.Chunks) <= 0xffffffff ==> forall i int :: {track.Chunks[i]} 0 <= i && i < len(track.Chunks) && i < int(ci) ==> track.Chunks[i].SamplesPerChunk == spcOf(stsc.Entries, $k6 + 1, i)
    decreases end - ci
  loop 8
    invariant len(track.Samples) <= 0xffffffff ==> int(si) == cttsN(ctts.Entries, $k, len(track.Samples)) && int(si) <= len(track.Samples)
    invariant len(track.Samples) <= 0xffffffff ==> forall i int :: {track.Samples[i]} 0 <= i && i < len(track.Samples) ==> track.Samples[i].CompositionTimeOffset == cttsOf(ctts, $k, len(track.Samples), i)
    invariant len(track.Samples) <= 0xffffffff ==> forall i int :: {cttsOf(ctts, $k, len(track.Samples), i)} int(si) <= i ==> cttsOf(ctts, $k, len(track.Samples), i) == 0
  loop 9
    invariant i <= entry.SampleCount
    invariant len(track.Samples) <= 0xffffffff ==> int(si) == cttsN(ctts.Entries, $k8, len(track.Samples)) + int(i) && int(si) <= len(track.Samples)
    invariant len(track.Samples) <= 0xffffffff ==> forall i int :: {track.Samples[i]} 0 <= i && i < len(track.Samples) ==> track.Samples[i].CompositionTimeOffset == (i < int(si) ? cttsOf(ctts, $k8 + 1, len(track.Samples), i) : int64(0))
    decreases entry.SampleCount - i
  loop 10
    invariant 0 <= i && i <= len(track.Samples) && i <= len(stsz.EntrySize)
    invariant forall j int :: {track.Samples[j]} 0 <= j && j < len(track.Samples) ==> track.Samples[j].Size == (j < i ? stsz.EntrySize[j] : uint32(0))
    decreases len(track.Samples) - i

logic editsOK(l EditList, e *Elst) bool = len(l) == len(e.Entries) && forall i int :: {l[i]} 0 <= i && i < len(l) ==> l[i] != nil && l[i].MediaTime == elstTime(e, i) && l[i].SegmentDuration == elstDur(e, i)
logic avcOK(a *AVCDecConfigInfo, v *VisualSampleEntry, c *AVCDecoderConfiguration) bool =
    a != nil && a.ConfigurationVersion == c.ConfigurationVersion && a.Profile == c.Profile && a.ProfileCompatibility == c.ProfileCompatibility && a.Level == c.Level
    && a.LengthSize == uint16(c.LengthSizeMinusOne) + 1 && a.Width == v.Width && a.Height == v.Height
