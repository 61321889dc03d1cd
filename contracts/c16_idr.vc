package github.com/abema/go-mp4

// C16 - IDR frame search.

// the first sample of chunk c, and one past the last of chunk c-1
rec 1 chunkFirst(cs Chunks, c int, n int) int = c <= 0 ? int(0) : capAt(chunkFirst(cs, c - 1, n) + int(cs[c - 1].SamplesPerChunk), n)
logic capAt(x int, n int) int = x < n ? x : n

// big-endian number of w octets at p
logic lenAt(s ref, p int64, w uint64) uint64 =
    w == 1 ? uint64(byteAt(s, p)) : w == 2 ? uint64(byteAt(s, p)) << 8 | uint64(byteAt(s, p + 1))
    : w == 3 ? uint64(byteAt(s, p)) << 16 | uint64(byteAt(s, p + 1)) << 8 | uint64(byteAt(s, p + 2))
    : uint64(byteAt(s, p)) << 24 | uint64(byteAt(s, p + 1)) << 16 | uint64(byteAt(s, p + 2)) << 8 | uint64(byteAt(s, p + 3))

// whether a NAL unit of type 5 is found from offset o of the sample at base, following the length prefixes
rec 1 hasIDR(s ref, base uint64, o uint64, size uint64, w uint64) bool =
    w >= 1 && w <= 4 && size <= 0xffffffff && o <= 0xffffffff && o + w + 1 <= size
    && (byteAt(s, int64(base + o) + int64(w)) & 0x1f == 5 || hasIDR(s, base, o + w + lenAt(s, int64(base + o), w), size, w))

rec 1 isHit(s ref, cs Chunks, ss Samples, w uint64, c int, i int) bool =
    0 <= c && c < len(cs) && chunkFirst(cs, c, len(ss)) <= i && i < chunkFirst(cs, c + 1, len(ss))
    && hasIDR(s, cs[c].DataOffset + sumSize(ss, i) - sumSize(ss, chunkFirst(cs, c, len(ss))), 0, uint64(ss[i].Size), w)

lemma chunkFirstMono(cs Chunks, m int, n int)
  prop C16
  requires 0 <= m && m <= len(cs) && 0 <= n && n <= 1 << 47
  induct m
  ensures forall a int, b int :: {chunkFirst(cs, a, n), chunkFirst(cs, b, n)} 0 <= a && a <= b && b <= m ==> 0 <= chunkFirst(cs, a, n) && chunkFirst(cs, a, n) <= chunkFirst(cs, b, n) && chunkFirst(cs, b, n) <= n

func FindIDRFrames(r, trackInfo) (idxs, err)
  prop C16
  requires trackInfo.AVC != nil ==> 1 <= trackInfo.AVC.LengthSize && trackInfo.AVC.LengthSize <= 4
  requires forall i int :: {trackInfo.Samples[i]} 0 <= i && i < len(trackInfo.Samples) ==> trackInfo.Samples[i] != nil
  requires forall i int :: {trackInfo.Chunks[i]} 0 <= i && i < len(trackInfo.Chunks) ==> trackInfo.Chunks[i] != nil
  modifies pos(under(r))
  let cs = trackInfo.Chunks
  let ss = trackInfo.Samples
  let w = uint64(trackInfo.AVC.LengthSize)
  let s = under(r)
  ensures [notavc] trackInfo.AVC == nil ==> err == nil && len(idxs) == 0
  ensures [order] err == nil ==> forall j int, k int :: {idxs[j], idxs[k]} 0 <= j && j < k && k < len(idxs) ==> idxs[j] < idxs[k]
  ensures [sound] err == nil ==> forall k int :: {idxs[k]} 0 <= k && k < len(idxs) ==> exists c int :: isHit(s, cs, ss, w, c, idxs[k])
  ensures [complete] err == nil && trackInfo.AVC != nil ==> forall c int, i int :: {isHit(s, cs, ss, w, c, i)} isHit(s, cs, ss, w, c, i) ==> exists k int :: 0 <= k && k < len(idxs) && idxs[k] == i
  check io.Seeker.Seek : [extent] $whence == 0 && nalOffset + w + 1 <= uint64(sample.Size) && uint64($offset) == dataOffset + nalOffset
  check io.ReadFull : [extent] $r == r && uint64(pos(s)) == dataOffset + nalOffset && uint64(len($p)) == w + 1
  entry chunkFirstMono(cs, len(cs), len(ss))
  loop 0
    invariant si == chunkFirst(cs, $k, len(ss)) && 0 <= si && si <= len(ss) && fresh(idxs)
    invariant forall j int, k int :: {idxs[j], idxs[k]} 0 <= j && j < k && k < len(idxs) ==> idxs[j] < idxs[k]
    invariant forall k int :: {idxs[k]} 0 <= k && k < len(idxs) ==> idxs[k] < si
    invariant forall k int :: {idxs[k]} 0 <= k && k < len(idxs) ==> exists c int :: isHit(s, cs, ss, w, c, idxs[k])
    invariant forall c int, i int :: {isHit(s, cs, ss, w, c, i)} c < $k && isHit(s, cs, ss, w, c, i) ==> exists k int :: 0 <= k && k < len(idxs) && idxs[k] == i
  loop 1
    invariant $init_si <= si && si <= len(ss) && end == $init_si + int(chunk.SamplesPerChunk) && (si <= end || si == $init_si)
    invariant dataOffset == chunk.DataOffset + sumSize(ss, si) - sumSize(ss, $init_si) && fresh(idxs)
    invariant forall j int, k int :: {idxs[j], idxs[k]} 0 <= j && j < k && k < len(idxs) ==> idxs[j] < idxs[k]
    invariant forall k int :: {idxs[k]} 0 <= k && k < len(idxs) ==> idxs[k] < si
    invariant forall k int :: {idxs[k]} 0 <= k && k < len(idxs) ==> exists c int :: isHit(s, cs, ss, w, c, idxs[k])
    invariant forall c int, i int :: {isHit(s, cs, ss, w, c, i)} isHit(s, cs, ss, w, c, i) && i < si && c <= $k0 ==> exists k int :: 0 <= k && k < len(idxs) && idxs[k] == i
    decreases len(ss) - si
  loop 2
    entry isHit(s, cs, ss, w, $k0, si) == hasIDR(s, dataOffset, 0, uint64(sample.Size), w)
    invariant nalOffset <= 0x1ffffffff && lengthSize == w
    invariant hasIDR(s, dataOffset, 0, uint64(sample.Size), w) == hasIDR(s, dataOffset, nalOffset, uint64(sample.Size), w)
    decreases 0x3ffffffff - nalOffset
  loop 3
    invariant 0 <= i && i <= int(w)
    invariant uint64(length) == (i == 0 ? uint64(0) : lenAt(s, int64(dataOffset + nalOffset), uint64(i)))
    decreases int(w) - i
