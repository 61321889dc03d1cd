package github.com/abema/go-mp4

// C20 - boxes with wire rules of their own.

// an event message of version 1 has its strings where its numbers end
func (emsg *Emsg).OnReadField(name, r, leftBits, ctx) (rbits, override, err)
  prop C20 C05 C21
  requires ready(r) && size(under(r)) <= 1 << 46
  modifies emsg.SchemeIdUri, emsg.Value, pos(under(r))
  let s = under(r)
  let p = pos(under(r))
  let late = emsg.FullBox.Version != 0 && name == "MessageData"
  ensures [account] err == nil ==> ready(r) && bp(r) == old(bp(r)) + int64(rbits)
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  ensures [leave] !late ==> err == nil && rbits == 0 && emsg.SchemeIdUri == old(emsg.SchemeIdUri) && emsg.Value == old(emsg.Value)
  ensures [skip] override == (emsg.FullBox.Version != 0 && (name == "SchemeIdUri" || name == "Value"))
  ensures [strings] late && err == nil ==> textAt(s, p, emsg.SchemeIdUri) && textAt(s, p + int64(len(emsg.SchemeIdUri)) + 1, emsg.Value) && rbits == 8 * uint64(len(emsg.SchemeIdUri) + len(emsg.Value) + 2)

func (emsg *Emsg).OnWriteField(name, w, ctx) (wbits, override, err)
  prop C20 C05
  modifies wr(sink(w)), fdat(sink(w)), pos(sink(w))
  let late = emsg.FullBox.Version != 0 && name == "MessageData"
  ensures [leave] !late ==> err == nil && wbits == 0 && wr(sink(w)) == old(wr(sink(w)))
  ensures [skip] override == (emsg.FullBox.Version != 0 && (name == "SchemeIdUri" || name == "Value"))
  ensures [strings] late && err == nil ==> wr(sink(w)) == cat(cat(cat(cat(old(wr(sink(w))), encChars(emsg.SchemeIdUri, len(emsg.SchemeIdUri))), uintBits(0, 8)), encChars(emsg.Value, len(emsg.Value))), uintBits(0, 8))
  ensures [count] late && err == nil ==> wbits == 8 * uint64(len(emsg.SchemeIdUri) + len(emsg.Value) + 2)

// a handler name takes the whole rest of its box
func (hdlr *Hdlr).OnReadName(r, leftBits, ctx) (rbits, override, err)
  prop C20 C21
  requires ready(r) && size(under(r)) <= 1 << 46
  modifies hdlr.Name, rok(r), wid(r), pos(under(r))
  let s = under(r)
  let p = pos(under(r))
  let n = int64(leftBits >> 3)
  let prefixed = hdlr.PreDefined != 0 && n >= 2 && int64(byteAt(s, p)) + 1 == n
  ensures [whole] err == nil && leftBits & 7 == 0 ==> override && rbits == leftBits && ready(r) && bp(r) == old(bp(r)) + int64(rbits)
  check make : [room] uint64($cap) <= uint64(size(s) - pos(s))
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  ensures [fits] err == nil && leftBits >= 8 ==> leftBits >> 3 <= uint64(size(s) - p)
  ensures [none] leftBits < 8 ==> err == nil && len(hdlr.Name) == 0
  ensures [prefixed] err == nil && leftBits >= 8 && prefixed ==> int64(len(hdlr.Name)) == n - 1 && forall j int :: {hdlr.Name[j]} 0 <= j && j < len(hdlr.Name) ==> hdlr.Name[j] == byteAt(s, p + 1 + int64(j))
  ensures [zeroEnded] err == nil && leftBits >= 8 && !prefixed ==> int64(len(hdlr.Name)) <= n && (int64(len(hdlr.Name)) < n ==> byteAt(s, p + int64(len(hdlr.Name))) == 0) && forall j int :: {hdlr.Name[j]} 0 <= j && j < len(hdlr.Name) ==> hdlr.Name[j] != 0 && hdlr.Name[j] == byteAt(s, p + int64(j))
  loop 0
    invariant clen == $k
    invariant forall j int :: {buf[j]} 0 <= j && j < $k ==> buf[j] != 0

func (hdlr *Hdlr).OnReadField(name, r, leftBits, ctx) (rbits, override, err)
  prop C20 C21
  requires ready(r) && size(under(r)) <= 1 << 46
  modifies hdlr.Name, rok(r), wid(r), pos(under(r))
  let s = under(r)
  let p = pos(under(r))
  let n = int64(leftBits >> 3)
  let prefixed = hdlr.PreDefined != 0 && n >= 2 && int64(byteAt(s, p)) + 1 == n
  ensures [other] name != "Name" ==> err == nil && !override && rbits == 0 && hdlr.Name == old(hdlr.Name) && ready(r) && bp(r) == old(bp(r))
  ensures [whole] name == "Name" && err == nil && leftBits & 7 == 0 ==> override && rbits == leftBits && ready(r) && bp(r) == old(bp(r)) + int64(rbits)
  ensures [forward] err == nil ==> bp(r) >= old(bp(r))
  ensures [none] name == "Name" && leftBits < 8 ==> err == nil && len(hdlr.Name) == 0
  ensures [prefixed] name == "Name" && err == nil && leftBits >= 8 && prefixed ==> int64(len(hdlr.Name)) == n - 1 && forall j int :: {hdlr.Name[j]} 0 <= j && j < len(hdlr.Name) ==> hdlr.Name[j] == byteAt(s, p + 1 + int64(j))
  ensures [zeroEnded] name == "Name" && err == nil && leftBits >= 8 && !prefixed ==> int64(len(hdlr.Name)) <= n && (int64(len(hdlr.Name)) < n ==> byteAt(s, p + int64(len(hdlr.Name))) == 0) && forall j int :: {hdlr.Name[j]} 0 <= j && j < len(hdlr.Name) ==> hdlr.Name[j] != 0 && hdlr.Name[j] == byteAt(s, p + int64(j))

// the QuickTime form of a meta box has no version and flags
func (meta *Meta).BeforeUnmarshal(r, size, ctx) (n, override, err)
  prop C20 C21
  modifies meta.FullBox.Version, meta.FullBox.Flags, pos(under(r))
  let s = under(r)
  let p = pos(under(r))
  let zero = byteAt(s, p) == 0 && byteAt(s, p + 1) == 0 && byteAt(s, p + 2) == 0 && byteAt(s, p + 3) == 0
  ensures [stay] err == nil ==> n == 0 && pos(s) == p
  ensures [form] err == nil ==> override == !zero
  ensures [bare] err == nil && override ==> meta.FullBox.Version == 0 && meta.FullBox.Flags[0] == 0 && meta.FullBox.Flags[1] == 0 && meta.FullBox.Flags[2] == 0
  ensures [full] !override ==> meta.FullBox.Version == old(meta.FullBox.Version) && meta.FullBox.Flags == old(meta.FullBox.Flags)

// high profiles of ISO/IEC 14496-15
logic highProfile(p uint8) bool = p == 100 || p == 110 || p == 122 || p == 144

func (avcc *AVCDecoderConfiguration).OnReadField(name, r, leftBits, ctx) (rbits, override, err)
  prop C20 C21
  modifies avcc.HighProfileFieldsEnabled
  ensures err == nil && rbits == 0
  ensures [other] name != "HighProfileFieldsEnabled" ==> !override && avcc.HighProfileFieldsEnabled == old(avcc.HighProfileFieldsEnabled)
  ensures [high] name == "HighProfileFieldsEnabled" ==> override && avcc.HighProfileFieldsEnabled == (highProfile(avcc.Profile) && leftBits >= 32)

func (avcc *AVCDecoderConfiguration).OnWriteField(name, w, ctx) (wbits, override, err)
  prop C20
  pure
  ensures wbits == 0
  ensures [other] name != "HighProfileFieldsEnabled" ==> !override && err == nil
  ensures [high] name == "HighProfileFieldsEnabled" ==> (err != nil) == (avcc.HighProfileFieldsEnabled && !highProfile(avcc.Profile)) && (err == nil ==> override)

func (avcc *AVCDecoderConfiguration).IsOptFieldEnabled(name, ctx) (r)
  prop C20 C05 C21
  pure
  ensures [high] name == "Reserved3" || name == "ChromaFormat" || name == "Reserved4" || name == "BitDepthLumaMinus8" || name == "Reserved5" || name == "BitDepthChromaMinus8" || name == "NumOfSequenceParameterSetExt" || name == "SequenceParameterSetsExt" ==> r == avcc.HighProfileFieldsEnabled

func (c *BaseCustomFieldObject).OnReadField(name, r, leftBits, ctx) (rbits, override, err)
  prop C20 C21
  pure
  ensures rbits == 0 && !override && err == nil

func (c *BaseCustomFieldObject).OnWriteField(name, w, ctx) (wbits, override, err)
  prop C20
  pure
  ensures wbits == 0 && !override && err == nil

func (c *BaseCustomFieldObject).BeforeUnmarshal(r, size, ctx) (n, override, err)
  prop C20 C21
  pure
  ensures n == 0 && !override && err == nil
