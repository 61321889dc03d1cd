package github.com/abema/go-mp4

// C15 - bitrate figures (all arithmetic in 64 bits).

rec 1 sumSize(s Samples, n int) uint64 = n <= 0 ? 0 : sumSize(s, n - 1) + uint64(s[n - 1].Size)
rec 1 sumDelta(s Samples, n int) uint64 = n <= 0 ? 0 : sumDelta(s, n - 1) + uint64(s[n - 1].TimeDelta)

// duration and size of the window of samples b..e-1
rec 1 winDur(s Samples, b int, e int) uint64 = sumDelta(s, e) - sumDelta(s, b)
rec 1 winSize(s Samples, b int, e int) uint64 = sumSize(s, e) - sumSize(s, b)

logic rate(size uint64, scale uint32, dur uint64) uint64 = dur == 0 ? 0 : 8 * size * uint64(scale) / dur

logic okSamples(s Samples) bool = len(s) <= 0xffffffff && forall i int :: 0 <= i && i < len(s) ==> s[i] != nil

lemma monoDelta(s Samples, n int)
  prop C15
  requires 0 <= n && n <= len(s) && len(s) <= 0xffffffff
  induct n
  ensures forall a int, b int :: {sumDelta(s, a), sumDelta(s, b)} 0 <= a && a <= b && b <= n ==> sumDelta(s, a) <= sumDelta(s, b) && sumDelta(s, b) <= uint64(b) << 32

// a window inside a window is not longer
lemma monoWin(s Samples, n int)
  prop C15
  requires 0 <= n && n <= len(s) && len(s) <= 0xffffffff
  unfold 0
  use monoDelta(s, n)
  ensures forall b int, e int, c int, f int :: {winDur(s, b, e), winDur(s, c, f)} 0 <= b && b <= c && c <= f && f <= e && e <= n ==> winDur(s, c, f) <= winDur(s, b, e)

func (samples Samples).GetBitrate(timescale) (r)
  prop C15
  pure
  noalloc
  requires okSamples(samples)
  ensures r == rate(sumSize(samples, len(samples)), timescale, sumDelta(samples, len(samples)))
  loop 0
    invariant totalSize == sumSize(samples, $k)
    invariant totalDuration == sumDelta(samples, $k)

// extending and shrinking a window by one sample
lemma winStep(s Samples, b int, e int)
  prop C15
  requires 0 <= b && b <= e && e < len(s)
  ensures winDur(s, b, e + 1) == winDur(s, b, e) + uint64(s[e].TimeDelta)
  ensures winSize(s, b, e + 1) == winSize(s, b, e) + uint64(s[e].Size)

lemma winDrop(s Samples, b int, e int)
  prop C15
  requires 0 <= b && b < e && e <= len(s)
  ensures winDur(s, b, e) == winDur(s, b + 1, e) + uint64(s[b].TimeDelta)
  ensures winSize(s, b, e) == winSize(s, b + 1, e) + uint64(s[b].Size)

lemma winEmpty(s Samples, e int)
  prop C15
  ensures winDur(s, e, e) == 0 && winSize(s, e, e) == 0

// the windows considered: for every end e, the longest run of samples ending at e whose duration
// without its last sample is below timeDelta, when it reaches timeDelta or the list ends there
rec 1 window(s Samples, d uint64, b int, e int) bool =
    0 <= b && b < e && e <= len(s) && winDur(s, b, e - 1) < d && (b == 0 || winDur(s, b - 1, e - 1) >= d)
    && (winDur(s, b, e) >= d || e == len(s))

func (samples Samples).GetMaxBitrate(timescale, timeDelta) (r)
  prop C15
  pure
  noalloc
  opaque winDur, winSize
  requires okSamples(samples)
  ensures [upper] timeDelta != 0 ==> forall b int, e int :: {window(samples, timeDelta, b, e)} window(samples, timeDelta, b, e) ==> rate(winSize(samples, b, e), timescale, winDur(samples, b, e)) <= r
  ensures [attained] r == 0 || timeDelta != 0 && exists b int, e int :: window(samples, timeDelta, b, e) && r == rate(winSize(samples, b, e), timescale, winDur(samples, b, e))
  entry monoWin(samples, len(samples)), winEmpty(samples, 0)
  loop 0
    invariant 0 <= begin && begin <= end && end <= len(samples)
    invariant size == winSize(samples, begin, end) && duration == winDur(samples, begin, end)
    invariant duration < timeDelta && (end == len(samples) || begin == 0 || winDur(samples, begin - 1, end) >= timeDelta)
    invariant [upper] forall b int, e int :: {window(samples, timeDelta, b, e)} window(samples, timeDelta, b, e) && e <= end ==> rate(winSize(samples, b, e), timescale, winDur(samples, b, e)) <= maxBitrate
    invariant [attained] maxBitrate == 0 || exists b int, e int :: window(samples, timeDelta, b, e) && maxBitrate == rate(winSize(samples, b, e), timescale, winDur(samples, b, e))
    decreases len(samples) - end
  loop 1
    invariant 0 <= begin && begin <= end && end < len(samples) && $init_end <= end
    invariant size == winSize(samples, begin, end) && duration == winDur(samples, begin, end)
    invariant duration < timeDelta && (begin == 0 || winDur(samples, begin - 1, end) >= timeDelta)
    invariant [upper] forall b int, e int :: {window(samples, timeDelta, b, e)} window(samples, timeDelta, b, e) && e <= end ==> rate(winSize(samples, b, e), timescale, winDur(samples, b, e)) <= maxBitrate
    entry winStep(samples, begin, end), window(samples, timeDelta, begin, end + 1) || winDur(samples, begin, end + 1) < timeDelta && end + 1 < len(samples)
    decreases len(samples) - end
  loop 2
    invariant 0 <= begin && begin < end && end <= len(samples)
    invariant size == winSize(samples, begin, end) && duration == winDur(samples, begin, end)
    invariant duration >= timeDelta || end == len(samples)
    entry winDrop(samples, begin, end), winEmpty(samples, end)
    decreases end - begin

rec segSize(s Segments, id uint32, n int) uint64 = n <= 0 ? 0 : segSize(s, id, n - 1) + (s[n - 1].TrackID == id ? uint64(s[n - 1].Size) : 0)
rec segDur(s Segments, id uint32, n int) uint64 = n <= 0 ? 0 : segDur(s, id, n - 1) + (s[n - 1].TrackID == id ? uint64(s[n - 1].Duration) : 0)

logic okSegments(s Segments) bool = forall i int :: 0 <= i && i < len(s) ==> s[i] != nil

func (segments Segments).GetBitrate(trackID, timescale) (r)
  prop C15
  pure
  noalloc
  requires okSegments(segments)
  ensures r == rate(segSize(segments, trackID, len(segments)), timescale, segDur(segments, trackID, len(segments)))
  loop 0
    invariant totalSize == segSize(segments, trackID, $k)
    invariant totalDuration == segDur(segments, trackID, $k)

logic segRate(s *Segment, scale uint32) uint64 = rate(uint64(s.Size), scale, uint64(s.Duration))

func (segments Segments).GetMaxBitrate(trackID, timescale) (r)
  prop C15
  pure
  noalloc
  requires okSegments(segments)
  ensures [upper] forall i int :: 0 <= i && i < len(segments) && segments[i].TrackID == trackID ==> segRate(segments[i], timescale) <= r
  ensures [attained] r == 0 || exists i int :: 0 <= i && i < len(segments) && segments[i].TrackID == trackID && r == segRate(segments[i], timescale)
  loop 0
    invariant forall i int :: 0 <= i && i < $k && segments[i].TrackID == trackID ==> segRate(segments[i], timescale) <= maxBitrate
    invariant maxBitrate == 0 || exists i int :: 0 <= i && i < $k && segments[i].TrackID == trackID && maxBitrate == segRate(segments[i], timescale)
