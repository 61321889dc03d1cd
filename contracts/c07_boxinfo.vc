package github.com/abema/go-mp4

// C07 - box headers.

logic be32(s ref, p int64) uint32 = uint32(byteAt(s, p)) << 24 | uint32(byteAt(s, p + 1)) << 16 | uint32(byteAt(s, p + 2)) << 8 | uint32(byteAt(s, p + 3))

// a type name is its four octets
func StrToBoxType(code) (r)
  prop C07 C14 C13
  pure
  requires len(code) == 4
  ensures r[0] == code[0] && r[1] == code[1] && r[2] == code[2] && r[3] == code[3]
logic be64(s ref, p int64) uint64 = uint64(be32(s, p)) << 32 | uint64(be32(s, p + 4))

func ReadBoxInfo(r) (bi, err)
  prop C07 C09 C21
  modifies pos(under(r))
  let s = under(r)
  let p = pos(under(r))
  ensures err == nil ==> bi != nil && fresh(bi) && bi.Offset == uint64(old(p)) && pos(s) == old(p) + int64(bi.HeaderSize)
  ensures [type] err == nil ==> bi.Type[0] == byteAt(s, p + 4) && bi.Type[1] == byteAt(s, p + 5) && bi.Type[2] == byteAt(s, p + 6) && bi.Type[3] == byteAt(s, p + 7)
  ensures [form] err == nil ==> (bi.HeaderSize == (be32(s, p) == 1 ? uint64(16) : uint64(8))) && bi.ExtendToEOF == (be32(s, p) == 0)
  ensures [size] err == nil ==> bi.Size == (be32(s, p) == 0 ? uint64(size(s) - p) : be32(s, p) == 1 ? be64(s, p + 8) : uint64(be32(s, p)))
  ensures [sane] err == nil ==> bi.Size >= bi.HeaderSize && bi.Offset <= 0x7fffffffffffffff && bi.Size <= 0x7fffffffffffffff - bi.Offset
  ensures [within] err == nil ==> old(p) >= 0 && old(p) + 8 <= size(s)
  ensures [nocontext] err == nil ==> bi.Context == zero(Context)
  ensures err != nil ==> bi == nil

func (bi *BoxInfo).SeekToStart(s) (n, err)
  prop C07 C21
  modifies pos(under(s))
  ensures err == nil ==> pos(under(s)) == int64(bi.Offset) && n == int64(bi.Offset)

func (bi *BoxInfo).SeekToPayload(s) (n, err)
  prop C07 C21
  modifies pos(under(s))
  ensures err == nil ==> pos(under(s)) == int64(bi.Offset + bi.HeaderSize) && n == int64(bi.Offset + bi.HeaderSize)

func (bi *BoxInfo).SeekToEnd(s) (n, err)
  prop C07 C21
  modifies pos(under(s))
  ensures err == nil ==> pos(under(s)) == int64(bi.Offset + bi.Size) && n == int64(bi.Offset + bi.Size)

logic hdrLen(bi *BoxInfo) uint64 = bi.ExtendToEOF || bi.Size <= 0xffffffff && bi.HeaderSize != 16 ? uint64(8) : uint64(16)
logic hdrByte(bi *BoxInfo, i int) byte =
    i >= 4 && i < 8 ? (i == 4 ? bi.Type[0] : i == 5 ? bi.Type[1] : i == 6 ? bi.Type[2] : bi.Type[3])
    : bi.ExtendToEOF ? byte(0)
    : hdrLen(bi) == 8 ? byte(bi.Size >> (24 - 8 * uint(i)))
    : i < 4 ? (i == 3 ? byte(1) : byte(0))
    : byte(bi.Size >> (120 - 8 * uint(i)))

func WriteBoxInfo(w, bi) (r, err)
  prop C07 C08
  requires under(w) == sink(w)
  modifies wr(sink(w)), fdat(sink(w)), pos(sink(w))
  let s = sink(w)
  let p = pos(sink(w))
  ensures err == nil ==> r != nil && fresh(r) && r.Offset == uint64(p) && r.HeaderSize == hdrLen(bi) && r.Size == bi.Size - bi.HeaderSize + r.HeaderSize
  ensures err == nil ==> r.Type == bi.Type && r.ExtendToEOF == bi.ExtendToEOF && r.Context == zero(Context)
  ensures [octets] err == nil ==> pos(s) == p + int64(r.HeaderSize) && forall i int :: {at(fdat(s), i)} at(fdat(s), i) == (i >= int(p) && i < int(pos(s)) ? hdrByte(bi, i - int(p)) : old(at(fdat(s), i)))
  ensures err != nil ==> r == nil
