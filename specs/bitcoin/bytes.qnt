// Bytes, little-endian integers and Bitcoin's CompactSize, as exact values.
module bytes {
  pure def min(a: int, b: int): int = if (a < b) a else b
  pure def max(a: int, b: int): int = if (a > b) a else b

  pure val U8: int = 256
  pure val U16: int = 65536
  pure val U32: int = 4294967296
  pure val U64: int = 18446744073709551616

  // n low bytes of v, least significant first; negative v in two's complement.
  pure def le(v: int, n: int): List[int] = {
    pure val w = if (v < 0) v + 256 ^ n else v
    range(0, n).foldl([], (acc, i) => acc.append((w / (256 ^ i)) % 256))
  }

  pure def unLe(b: List[int]): int =
    range(0, length(b)).foldl(0, (acc, i) => acc + b[i] * 256 ^ i)

  // Two's complement reading of an n-byte little-endian integer.
  pure def unLeSigned(b: List[int]): int = {
    pure val v = unLe(b)
    pure val m = 256 ^ length(b)
    if (v >= m / 2) v - m else v
  }

  // CompactSize: the unique shortest encoding.
  pure def compactSize(v: int): List[int] =
    if (v < 253) [v]
    else if (v < U16) [253].concat(le(v, 2))
    else if (v < U32) [254].concat(le(v, 4))
    else [255].concat(le(v, 8))

  pure def compactLen(v: int): int =
    if (v < 253) 1 else if (v < U16) 3 else if (v < U32) 5 else 9

  // A possibly over-long form: width in {1,3,5,9}
  pure def compactWith(v: int, width: int): List[int] =
    if (width == 1) [v]
    else if (width == 3) [253].concat(le(v, 2))
    else if (width == 5) [254].concat(le(v, 4))
    else [255].concat(le(v, 8))

  // Minimal CScriptNum bytes of a non-negative height, at least one byte, sign bit clear.
  pure def scriptNum(h: int): List[int] =
    if (h < 128) [h]
    else if (h < 32768) le(h, 2)
    else if (h < 8388608) le(h, 3)
    else if (h < 2147483648) le(h, 4)
    else le(h, 5)

  pure def joinBytes(parts: List[List[int]]): List[int] =
    parts.foldl([], (acc, p) => acc.concat(p))
}
