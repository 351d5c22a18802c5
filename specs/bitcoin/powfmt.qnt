// Compact targets, difficulty retargeting and the 80-byte block header, as exact values.
module powfmt {
  import bytes.* from "./bytes"

  pure val TWO_WEEKS: int = 1209600
  pure val POW_LIMIT: int = 2 ^ 224 - 1
  pure val MAX256: int = 2 ^ 256

  // nBits -> target; -1: not a target (negative or beyond 256 bits).
  pure def decodeBits(bits: int): int = {
    pure val exponent = bits / 16777216
    pure val mantissa = bits % 8388608
    pure val negative = (bits / 8388608) % 2 == 1
    pure val word = if (exponent <= 3) mantissa / 256 ^ (3 - exponent) else mantissa
    if (word == 0) 0
    else if (negative) -1
    else if (exponent <= 3) word
    else {
      pure val t = mantissa * 256 ^ min(exponent - 3, 40)
      if (t >= MAX256) -1 else t
    }
  }

  pure def byteLen(t: int): int = range(0, 33).foldl(0, (n, i) => if (t >= 256 ^ i) i + 1 else n)

  // target -> canonical nBits: three most significant bytes, never with the sign bit set.
  pure def encodeTarget(t: int): int = {
    pure val n = if (t == 0) 0 else byteLen(t)
    pure val m = if (n <= 3) t * 256 ^ (3 - n) else t / 256 ^ (n - 3)
    if (m >= 8388608) (n + 1) * 16777216 + m / 256 else n * 16777216 + m
  }

  pure def clampSpan(s: int): int = max(TWO_WEEKS / 4, min(TWO_WEEKS * 4, s))

  // nBits required after an interval that began at t0 and ended at t1 with target `prev`
  pure def nextBits(prev: int, t0: int, t1: int): int = {
    pure val span = clampSpan(max(0, t1 - t0))
    encodeTarget(min(POW_LIMIT, (prev * span) / TWO_WEEKS))
  }

  type Header = { version: int, prev: List[int], root: List[int], time: int, bits: int, nonce: int }

  pure def headerImage(h: Header): List[int] =
    le(h.version, 4).concat(h.prev).concat(h.root).concat(le(h.time, 4)).concat(le(h.bits, 4)).concat(le(h.nonce, 4))

  pure def canonical(h: Header): Header =
    h.with("bits", encodeTarget(decodeBits(h.bits)))

  pure def readHeader(bs: List[int]): { ok: bool, h: Header } = {
    pure val none = { version: 0, prev: [], root: [], time: 0, bits: 0, nonce: 0 }
    if (length(bs) < 80) { ok: false, h: none }
    else {
      pure val h = { version: unLeSigned(bs.slice(0, 4)), prev: bs.slice(4, 36), root: bs.slice(36, 68),
                     time: unLe(bs.slice(68, 72)), bits: unLe(bs.slice(72, 76)), nonce: unLe(bs.slice(76, 80)) }
      if (decodeBits(h.bits) == -1) { ok: false, h: none } else { ok: true, h: h }
    }
  }
}
