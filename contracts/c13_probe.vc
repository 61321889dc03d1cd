package github.com/abema/go-mp4

// C13, C14 - Probe: one track per trak box and one fragment per moof box, in file order.

rec 1 countOf(bs []*BoxInfo, a byte, b byte, c byte, d byte, n int) int = n <= 0 ? int(0) : countOf(bs, a, b, c, d, n - 1) + (is4(bs[n - 1].Type, a, b, c, d) ? int(1) : int(0))
logic traks(bs []*BoxInfo, n int) int = countOf(bs, 0x74, 0x72, 0x61, 0x6b, n)
logic moofs(bs []*BoxInfo, n int) int = countOf(bs, 0x6d, 0x6f, 0x6f, 0x66, n)
logic mdats(bs []*BoxInfo, n int) int = countOf(bs, 0x6d, 0x64, 0x61, 0x74, n)
// whether no media data came before the (last) movie box
rec 1 faststart(bs []*BoxInfo, n int) bool = n > 0 && (is4(bs[n - 1].Type, 0x6d, 0x6f, 0x6f, 0x76) ? mdats(bs, n - 1) == 0 : faststart(bs, n - 1))

func Probe(r) (info, err)
  prop C13 C14
  apart C14 probeTrak ExtractBoxes
  apart C13 probeMoof ExtractBoxes
  modifies all(pos), all(wr), all(fdat), all(wok), all(walign), all(wcont), all(calls), heap(Context), all(rok), all(wid)
  capture bis = ExtractBoxes.boxes
  check ExtractBoxes : [file] $r == r && $parent == nil
  check probeTrak : [trak] $r == r && $bi == bi && is4(bi.Type, 0x74, 0x72, 0x61, 0x6b)
  check probeMoof : [moof] $r == r && $bi == bi && is4(bi.Type, 0x6d, 0x6f, 0x6f, 0x66)
  check Unmarshal : [header] $r == r && $payloadSize == bi.Size - bi.HeaderSize && pos(under(r)) == int64(bi.Offset + bi.HeaderSize)
  ensures [fresh] err == nil ==> fresh(info)
  ensures [tracks] err == nil ==> len(info.Tracks) == traks(bis, len(bis))
  ensures [segments] err == nil ==> len(info.Segments) == moofs(bis, len(bis))
  ensures [faststart] err == nil ==> info.FastStart == faststart(bis, len(bis))
  loop 0
    invariant fresh(probeInfo.Tracks) && fresh(probeInfo.Segments) && len(probeInfo.Tracks) == traks(bis, $k) && len(probeInfo.Segments) == moofs(bis, $k)
    invariant mdatAppeared == (mdats(bis, $k) != 0) && mdats(bis, $k) >= 0 && mdats(bis, $k) <= $k
    invariant probeInfo.FastStart == faststart(bis, $k)
  loop 1
    invariant fresh(probeInfo.Tracks) && fresh(probeInfo.Segments) && len(probeInfo.Tracks) == traks(bis, $k0) && len(probeInfo.Segments) == moofs(bis, $k0)
    invariant mdatAppeared == (mdats(bis, $k0) != 0) && mdats(bis, $k0) >= 0 && mdats(bis, $k0) <= $k0
    invariant probeInfo.FastStart == faststart(bis, $k0)
