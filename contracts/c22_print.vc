package github.com/abema/go-mp4/internal/util

// C22 - printing.  The text of a string, as bits, is txt; text that went through EscapeUnprintables is escT of it.

logic txt(s string) Bits = encChars(s, len(s))
logic runeMapped(f ref, s string) string
logic graphic(r rune) bool
logic escaped(s string) string = runeMapped(ref(EscapeUnprintable), s)
logic escT(b Bits) Bits
axiom escText: forall s string :: {escaped(s)} txt(escaped(s)) == escT(txt(s))
logic intText(v int64, base int) string
logic uintText(v uint64, base int) string
axiom sameText: forall v int64, base int :: {intText(v, base)} 0 <= v ==> intText(v, base) == uintText(uint64(v), base)
logic floatText(f float64, fmt byte, prec int, bits int) string

extern strings.Map(mapping, s) (r)
  pure
  ensures r == runeMapped(ref(mapping), s)
extern unicode.IsGraphic(r) (b)
  pure
  ensures b == graphic(r)
extern strconv.FormatInt(i, base) (r)
  pure
  ensures r == intText(i, base)
extern strconv.FormatUint(i, base) (r)
  pure
  ensures r == uintText(i, base)
extern strconv.Itoa(i) (r)
  pure
  ensures r == intText(int64(i), 10)
extern strconv.FormatBool(b) (r)
  pure
  ensures b ? r == "true" : r == "false"
extern strconv.FormatFloat(f, fmt, prec, bits) (r)
  pure
  ensures r == floatText(f, fmt, prec, bits)

// a fixed-point number: the integer if it has no fraction
logic fixed(whole bool, n int64, f float64, prec int, bits int) string = whole ? intText(n, 10) : floatText(f, 'f', prec, bits)

func FormatSignedFixedFloat1616(val) (r)
  prop C22
  pure
  ensures r == fixed(val & 0xffff == 0, int64(val >> 16), float64(val) / 65536, 5, 64)

func FormatUnsignedFixedFloat1616(val) (r)
  prop C22
  pure
  ensures r == fixed(val & 0xffff == 0, int64(val >> 16), float64(val) / 65536, 5, 64)

func FormatSignedFixedFloat88(val) (r)
  prop C22
  pure
  ensures r == fixed(val & 0xff == 0, int64(val >> 8), float64(val) / 256, 3, 32)

func EscapeUnprintable(r) (q)
  prop C22
  pure
  ensures q == (graphic(r) ? r : '.')

func EscapeUnprintables(src) (r)
  prop C22
  pure
  ensures r == escaped(src)
