package github.com/abema/go-mp4

// C06 - what the leaf decoders read back from what the leaf encoders write, and the other way round.
// The coders are tied to encUint, encInt, encBool, encVar and encChars by C02's contracts, the decoders to
// rdU, signed and groups by C03's; these lemmas say that the two sides are inverse.

// the n bits of a stream from bit p
rec 1 bitsFrom(s ref, p int64, n uint64) Bits = n == 0 ? emp() : cat(bitsFrom(s, p, n - 1), uintBits(bitAt(s, p + int64(n) - 1) ? uint64(1) : uint64(0), 1))

// the value of a bit string of up to 64 bits, its last n bits and what stands before them
logic valOf(b Bits) uint64
logic tailVal(b Bits, n uint64) uint64
logic headBits(b Bits, n uint64) Bits
axiom valUint: forall v uint64, n uint64 :: {uintBits(v, n)} n <= 64 && mask(v, n) == v ==> valOf(uintBits(v, n)) == v
axiom lastCat: forall a Bits, v uint64, n uint64 :: {cat(a, uintBits(v, n))} n <= 64 && mask(v, n) == v ==> tailVal(cat(a, uintBits(v, n)), n) == v && headBits(cat(a, uintBits(v, n)), n) == a

lemma bitsAre(s ref, p int64, n uint64)
  prop C06
  requires n <= 64
  induct n
  ensures bitsFrom(s, p, n) == uintBits(rdU(s, p, n), n) && mask(rdU(s, p, n), n) == rdU(s, p, n)

// unsigned integers
lemma uintReadBack(s ref, p int64, n uint, val uint64)
  prop C06
  requires 1 <= n && n <= 64 && val >> n == 0 && bitsFrom(s, p, uint64(n)) == encUint(val, n)
  use bitsAre(s, p, uint64(n))
  use uintExact(val, n)
  ensures rdU(s, p, uint64(n)) == val

lemma uintWriteBack(s ref, p int64, n uint)
  prop C06
  requires 1 <= n && n <= 64
  use bitsAre(s, p, uint64(n))
  use uintExact(rdU(s, p, uint64(n)), n)
  ensures encUint(rdU(s, p, uint64(n)), n) == bitsFrom(s, p, uint64(n))

// signed integers
lemma intReadBack(s ref, p int64, n uint, v int64)
  prop C06
  requires 1 <= n && n <= 64 && (v >> (n - 1) == 0 || v >> (n - 1) == -1) && bitsFrom(s, p, uint64(n)) == encInt(v, n)
  use bitsAre(s, p, uint64(n))
  use intExact(v, n)
  ensures signed(rdU(s, p, uint64(n)), uint64(n)) == uint64(v)

lemma intWriteBack(s ref, p int64, n uint)
  prop C06
  requires 1 <= n && n <= 64
  use bitsAre(s, p, uint64(n))
  use intExact(int64(signed(rdU(s, p, uint64(n)), uint64(n))), n)
  ensures encInt(int64(signed(rdU(s, p, uint64(n)), uint64(n))), n) == bitsFrom(s, p, uint64(n))

// booleans; only a single bit has no other form
lemma boolReadBack(s ref, p int64, n uint, b bool)
  prop C06
  requires 1 <= n && n <= 8 && bitsFrom(s, p, uint64(n)) == encBool(b, n)
  use bitsAre(s, p, uint64(n))
  ensures (rdU(s, p, uint64(n)) != 0) == b

lemma boolWriteBack(s ref, p int64)
  prop C06
  use bitsAre(s, p, 1)
  ensures encBool(rdU(s, p, 1) != 0, 1) == bitsFrom(s, p, 1)

// the octets of a longer value
lemma rdTail(s ref, p int64, n uint64, k uint64)
  prop C06
  requires k <= 8 && n <= 1 << 32
  induct k
  ensures mask(rdU(s, p, n + k), k) == rdU(s, p + int64(n), k)

lemma rdTailOctet(s ref, p int64, n uint64)
  prop C06
  requires n <= 1 << 32
  use rdTail(s, p, n, 8)
  use rdOctet(s, p, n)
  ensures rdU(s, p, n + 8) == rdU(s, p, n) << 8 | rdU(s, p + int64(n), 8) && rdU(s, p + int64(n), 8) <= 0xff

// variable-length integers of up to 28 bits: four octets, the first three continuing
lemma varOctets(s ref, p int64, u uint64)
  prop C06
  requires u < 1 << 28 && bitsFrom(s, p, 32) == encVar(u)
  use bitsAre(s, p, 32)
  use rdTailOctet(s, p, 0)
  use rdTailOctet(s, p, 8)
  use rdTailOctet(s, p, 16)
  use rdTailOctet(s, p, 24)
  ensures rdU(s, p, 8) == u >> 21 & 0x7f | 0x80
  ensures rdU(s, p + 8, 8) == u >> 14 & 0x7f | 0x80
  ensures rdU(s, p + 16, 8) == u >> 7 & 0x7f | 0x80
  ensures rdU(s, p + 24, 8) == u & 0x7f

lemma varLength(s ref, p int64, u uint64, k int64)
  prop C06
  requires u < 1 << 28 && bitsFrom(s, p, 32) == encVar(u)
  requires 1 <= k && k <= 1 << 40 && byte(rdU(s, p + 8 * (k - 1), 8)) & 0x80 == 0
  requires forall j int64 :: {groups(s, p, j)} 0 <= j && j < k - 1 ==> byte(rdU(s, p + 8 * j, 8)) & 0x80 != 0
  use varOctets(s, p, u)
  use groupsStep(s, p, 4)
  ensures k == 4

lemma groupsNone(s ref, p int64, n int64)
  prop C06
  requires n <= 0
  ensures groups(s, p, n) == 0

lemma varHalf(s ref, p int64, u uint64)
  prop C06
  requires u < 1 << 28 && bitsFrom(s, p, 32) == encVar(u)
  use varOctets(s, p, u)
  use groupsNone(s, p, 0)
  use groupsStep(s, p, 1)
  use groupsStep(s, p, 2)
  ensures groups(s, p, 1) == u >> 21
  ensures groups(s, p, 2) == u >> 14

lemma varReadBack(s ref, p int64, u uint64)
  prop C06
  requires u < 1 << 28 && bitsFrom(s, p, 32) == encVar(u)
  use varOctets(s, p, u)
  use varHalf(s, p, u)
  use groupsStep(s, p, 3)
  use groupsStep(s, p, 4)
  ensures groups(s, p, 3) == u >> 7
  ensures groups(s, p, 4) == u

// strings
lemma octetBits(s ref, p int64, n int64, k uint64)
  prop C06
  requires 0 <= n && n <= 1 << 40 && k <= 8
  induct k
  ensures bitsFrom(s, p, 8 * uint64(n) + k) == cat(bitsFrom(s, p, 8 * uint64(n)), bitsFrom(s, p + 8 * n, k))

lemma octetEnd(s ref, p int64, n int64)
  prop C06
  requires 0 <= n && n <= 1 << 40
  use octetBits(s, p, n, 8)
  use bitsAre(s, p + 8 * n, 8)
  ensures bitsFrom(s, p, 8 * uint64(n) + 8) == cat(bitsFrom(s, p, 8 * uint64(n)), uintBits(rdU(s, p + 8 * n, 8), 8)) && rdU(s, p + 8 * n, 8) <= 0xff

lemma charsReadBack(s ref, p int64, t string, n int)
  prop C06
  requires 0 <= n && n <= len(t) && len(t) <= 1 << 40 && bitsFrom(s, p, 8 * uint64(n)) == encChars(t, n)
  induct n
  use n > 0 ==> octetEnd(s, p, int64(n) - 1)
  ensures forall j int :: {t[j]} 0 <= j && j < n ==> rdU(s, p + 8 * int64(j), 8) == uint64(t[j])

lemma charsWriteBack(s ref, p int64, t string, n int)
  prop C06
  requires 0 <= n && n <= len(t) && len(t) <= 1 << 40
  requires forall j int :: {t[j]} 0 <= j && j < len(t) ==> t[j] == byte(rdU(s, p + 8 * int64(j), 8))
  induct n
  use n > 0 ==> octetEnd(s, p, int64(n) - 1)
  ensures encChars(t, n) == bitsFrom(s, p, 8 * uint64(n))

lemma charsReadAt(s ref, p int64, t string, j int)
  prop C06
  requires 0 <= j && j < len(t) && len(t) <= 1 << 40 && bitsFrom(s, p, 8 * uint64(len(t))) == encChars(t, len(t))
  use charsReadBack(s, p, t, len(t))
  ensures rdU(s, p + 8 * int64(j), 8) == uint64(t[j])

// a string without a zero octet, written with its terminator, is the only text the decoder can return
lemma stringLength(s ref, p int64, t string, x string)
  prop C06
  requires len(t) <= 1 << 40 && len(x) <= 1 << 40
  requires forall j int :: {t[j]} 0 <= j && j < len(t) ==> t[j] != 0
  requires bitsFrom(s, p, 8 * uint64(len(t)) + 8) == cat(encChars(t, len(t)), uintBits(0, 8))
  requires forall j int :: {x[j]} 0 <= j && j < len(x) ==> x[j] != 0 && x[j] == byte(rdU(s, p + 8 * int64(j), 8))
  requires byte(rdU(s, p + 8 * int64(len(x)), 8)) == 0
  use octetEnd(s, p, int64(len(t)))
  use len(x) < len(t) ==> charsReadAt(s, p, t, len(x))
  ensures len(x) < len(t) ==> t[len(x)] == 0
  ensures len(x) > len(t) ==> x[len(t)] == 0

lemma stringReadBack(s ref, p int64, t string, x string, j int)
  prop C06
  requires len(t) <= 1 << 40 && len(x) <= 1 << 40
  requires forall j int :: {t[j]} 0 <= j && j < len(t) ==> t[j] != 0
  requires bitsFrom(s, p, 8 * uint64(len(t)) + 8) == cat(encChars(t, len(t)), uintBits(0, 8))
  requires forall j int :: {x[j]} 0 <= j && j < len(x) ==> x[j] != 0 && x[j] == byte(rdU(s, p + 8 * int64(j), 8))
  requires byte(rdU(s, p + 8 * int64(len(x)), 8)) == 0
  use stringLength(s, p, t, x)
  use octetEnd(s, p, int64(len(t)))
  use 0 <= j && j < len(t) ==> charsReadAt(s, p, t, j)
  ensures len(x) == len(t) && (0 <= j && j < len(x) ==> x[j] == t[j])
