package github.com/abema/go-mp4

// C17 - AAC profile detection.

// the n bits of d from bit p, as a number
rec 1 dU(d []byte, p int64, n uint64) uint64 = n == 0 ? 0 : dU(d, p, n - 1) << 1 | uint64(d[int((p + int64(n) - 1) >> 3)] >> (7 - uint((p + int64(n) - 1) & 7))) & 1

lemma dUsame(s ref, d []byte, n uint64)
  prop C17
  requires n <= 64 && forall i int64 :: {byteAt(s, i)} 0 <= i && i < int64(len(d)) ==> byteAt(s, i) == d[int(i)]
  induct n
  ensures forall p int64 :: {rdU(s, p, n)} 0 <= p && p <= 1 << 60 && p + int64(n) <= 8 * int64(len(d)) ==> rdU(s, p, n) == dU(d, p, n)

lemma rdUbound(s ref, p int64, n uint64)
  prop C17
  requires n <= 24
  induct n
  ensures rdU(s, p, n) < 1 << n

lemma rdUhigh(s ref, p int64, n uint64, k uint64)
  prop C17
  requires n <= 8 && k <= 16
  induct k
  use rdUbound(s, p, k == 0 ? uint64(0) : n + k - 1)
  ensures rdU(s, p, n + k) >> k == rdU(s, p, n)

// the first descriptor with a tag
logic noTag(ds []Descriptor, t int8) bool = forall i int :: {ds[i].Tag} 0 <= i && i < len(ds) ==> ds[i].Tag != t
logic firstTag(ds []Descriptor, t int8, i int) bool = 0 <= i && i < len(ds) && ds[i].Tag == t && forall j int :: {ds[j].Tag} 0 <= j && j < i ==> ds[j].Tag != t

func findDescriptorByTag(dscrs, tag) (r)
  prop C17 C21
  ensures noTag(dscrs, tag) ==> r == nil
  ensures r == nil ==> noTag(dscrs, tag)
  ensures r != nil ==> fresh(r) && exists i int :: {dscrs[i].Tag} firstTag(dscrs, tag, i) && *r == dscrs[i]
  loop 0
    invariant forall j int :: {dscrs[j].Tag} 0 <= j && j < $k ==> dscrs[j].Tag != tag

// the audio object type at bit p: 5 bits, or after 31 another 6 bits plus 32
logic objType(d []byte, p int64) byte = byte(dU(d, p, 5)) == 31 ? byte(dU(d, p + 5, 6)) + 32 : byte(dU(d, p, 5))
logic objLen(d []byte, p int64) int64 = byte(dU(d, p, 5)) == 31 ? int64(11) : int64(5)

// a sampling frequency: 4 bits, after 15 another 24 bits
logic freqLen(d []byte, p int64) int64 = byte(dU(d, p, 4)) == 15 ? int64(28) : int64(4)

// p: the end of the sampling frequency; q: the end of the sync extension type
logic nbits(d []byte) int64 = 8 * int64(len(d))
logic baseEnd(d []byte) int64 = objLen(d, 0) + freqLen(d, objLen(d, 0))
logic hasExt(d []byte) bool = objType(d, 0) == 2 && baseEnd(d) + 20 <= nbits(d) && dU(d, baseEnd(d) + 4, 11) == 0x2b7
logic extSBR(d []byte, q int64) bool = (objType(d, q) == 5 || objType(d, q) == 22) && byte(dU(d, q + objLen(d, q), 1)) != 0
logic extPS(d []byte, s int64) bool = objType(d, s - 6) == 5 && s + freqLen(d, s) + 12 <= nbits(d) && dU(d, s + freqLen(d, s), 11) == 0x548 && byte(dU(d, s + freqLen(d, s) + 11, 1)) != 0
logic profile(d []byte) byte = !hasExt(d) || !extSBR(d, baseEnd(d) + 15) ? objType(d, 0) : extPS(d, baseEnd(d) + 21) ? byte(29) : byte(5)

// every field that the description announces is there
logic complete(d []byte) bool = objLen(d, 0) + 4 <= nbits(d) && 5 <= nbits(d) && baseEnd(d) <= nbits(d) && (hasExt(d) ==> extFits(d, baseEnd(d) + 15))
logic extFits(d []byte, q int64) bool = q + 5 <= nbits(d) && q + objLen(d, q) <= nbits(d) && (objType(d, q) == 5 || objType(d, q) == 22 ==> q + objLen(d, q) + 1 <= nbits(d)) && (objType(d, q) == 5 && byte(dU(d, q + 5, 1)) != 0 ==> q + 10 <= nbits(d) && q + 6 + freqLen(d, q + 6) <= nbits(d))

func getAudioObjectType(r) (t, n, err)
  prop C17 C21
  requires rok(r) && 0 <= wid(r) && wid(r) <= 7 && 0 <= pos(under(r)) && pos(under(r)) <= size(under(r))
  modifies rok(r), wid(r), pos(under(r))
  let s = under(r)
  let p = 8 * pos(under(r)) - wid(r)
  ensures err == nil ==> rok(r) && 0 <= wid(r) && wid(r) <= 7 && 0 <= pos(s) && pos(s) <= size(s) && 8 * pos(s) - wid(r) == p + int64(n)
  ensures err == nil ==> n == (byte(rdU(s, p, 5)) == 31 ? int(11) : int(5))
  ensures err == nil ==> t == (byte(rdU(s, p, 5)) == 31 ? byte(rdU(s, p + 5, 6)) + 32 : byte(rdU(s, p, 5)))
  ensures err == nil && n == 11 ==> t >= 32
  ensures solid(s) && p + 5 <= 8 * size(s) && p + (byte(rdU(s, p, 5)) == 31 ? int64(11) : int64(5)) <= 8 * size(s) ==> err == nil
  use rdUbound(s, p + 5, 6)

func detectAACProfile(esds) (oti, audOTI, err)
  prop C17 C21
  let ds = esds.Descriptors
  ensures [noconfig] noTag(ds, DecoderConfigDescrTag) ==> oti == 0 && audOTI == 0 && err == nil
  ensures [empty] forall i int :: {ds[i].Tag} firstTag(ds, DecoderConfigDescrTag, i) && ds[i].DecoderConfigDescriptor == nil ==> oti == 0 && audOTI == 0 && err == nil
  ensures [other] forall i int :: {ds[i].Tag} firstTag(ds, DecoderConfigDescrTag, i) && ds[i].DecoderConfigDescriptor != nil && ds[i].DecoderConfigDescriptor.ObjectTypeIndication != 0x40 ==> oti == ds[i].DecoderConfigDescriptor.ObjectTypeIndication && audOTI == 0 && err == nil
  ensures [nospecific] forall i int :: {ds[i].Tag} firstTag(ds, DecoderConfigDescrTag, i) && ds[i].DecoderConfigDescriptor != nil && ds[i].DecoderConfigDescriptor.ObjectTypeIndication == 0x40 && noTag(ds, DecSpecificInfoTag) ==> err != nil
  ensures [profile] forall i int, j int :: {ds[i].Tag, ds[j].Tag} firstTag(ds, DecoderConfigDescrTag, i) && ds[i].DecoderConfigDescriptor != nil && ds[i].DecoderConfigDescriptor.ObjectTypeIndication == 0x40 && firstTag(ds, DecSpecificInfoTag, j) && err == nil ==> oti == 0x40 && audOTI == profile(ds[j].Data)
  ensures [complete] forall i int, j int :: {ds[i].Tag, ds[j].Tag} firstTag(ds, DecoderConfigDescrTag, i) && ds[i].DecoderConfigDescriptor != nil && ds[i].DecoderConfigDescriptor.ObjectTypeIndication == 0x40 && firstTag(ds, DecSpecificInfoTag, j) && complete(ds[j].Data) ==> err == nil
  hint bytes.NewReader : dUsame(under($r), $b, 1)
  hint bytes.NewReader : dUsame(under($r), $b, 4)
  hint bytes.NewReader : dUsame(under($r), $b, 5)
  hint bytes.NewReader : dUsame(under($r), $b, 6)
  hint bytes.NewReader : dUsame(under($r), $b, 11)
  hint bitio.Reader.ReadBits : $err == nil && $size == 11 ==> rdUbound(under($r), 8 * pos(under($r)) - wid($r) - 11, 11)
  hint bitio.Reader.ReadBits : $err == nil && $size == 11 ==> rdUhigh(under($r), 8 * pos(under($r)) - wid($r) - 11, 3, 8)
