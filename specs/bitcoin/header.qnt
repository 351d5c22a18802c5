// C05: block headers: 80-byte image, identity and the version gate.
module header {
  import bytes.* from "./bytes"
  import powfmt.* from "./powfmt"

  var image: List[int]
  var outcome: { ok: bool, h: Header }
  var target: int          // decoded target (0 if refused)
  var normal: List[int]    // the canonical image: what re-encoding yields
  var modern: bool         // BIP-65 version gate

  action present(bs: List[int]): bool = {
    pure val r = readHeader(bs)
    all {
      image' = bs,
      outcome' = r,
      target' = if (r.ok) decodeBits(r.h.bits) else 0,
      normal' = if (r.ok) headerImage(canonical(r.h)) else [],
      modern' = (r.ok and r.h.version >= 4),
    }
  }

  pure def fill(seed: int, n: int): List[int] = range(0, n).foldl([], (a, i) => a.append((seed * (i + 3) + i * i + seed / 7) % 256))

  action fresh = {
    nondet version = oneOf(Set(-2147483648, -1, 0, 1, 2, 3, 4, 5, 536870912, 545259520, 2147483647, 67108864, 16777216))
    nondet p = oneOf(0.to(100000))
    nondet r = oneOf(0.to(100000))
    nondet time = oneOf(Set(0, 1, 255, 256, 1231006505, 1700000000, 2147483647, 2147483648, 4294967295))
    nondet bits = oneOf(Set(0, 486604799, 403108008, 386985211, 545259519, 453281356, 16842752, 33620224, 50397184, 67174400,
                            67108882, 83923508, 553713663, 570425343, 587202559, 620756991, 92164660, 25360858, 4278190080))
    nondet nonce = oneOf(Set(0, 1, 256, 65536, 2083236893, 4294967295))
    present(headerImage({ version: version, prev: fill(p, 32), root: fill(r, 32), time: time, bits: bits, nonce: nonce }))
  }
  action random = {
    nondet e = oneOf(0.to(34))
    nondet m = oneOf(0.to(16777215))
    nondet version = oneOf((-2147483648).to(2147483647))
    nondet time = oneOf(0.to(4294967295))
    nondet nonce = oneOf(0.to(4294967295))
    nondet p = oneOf(0.to(100000))
    present(headerImage({ version: version, prev: fill(p, 32), root: fill(p + 1, 32), time: time, bits: e * 16777216 + m, nonce: nonce }))
  }
  action overwrite = {
    nondet k = oneOf(0.to(79))
    nondet b = oneOf(Set(0, 1, 3, 4, 127, 128, 255))
    all { k < length(image), present(image.replaceAt(k, b)) }
  }
  action truncate = {
    nondet k = oneOf(Set(0, 1, 4, 35, 36, 67, 68, 71, 72, 75, 76, 78, 79))
    all { k < length(image), present(image.slice(0, k)) }
  }
  action extend = {
    nondet b = oneOf(Set(0, 255))
    all { length(image) < 82, present(image.append(b)) }
  }
  action init = present([])
  action step = any { fresh, fresh, random, random, overwrite, overwrite, truncate, extend }

  val roundTrip = outcome.ok implies headerImage(outcome.h) == image.slice(0, 80)
  val stable = outcome.ok implies readHeader(normal).ok and decodeBits(readHeader(normal).h.bits) <= target
  val inv = roundTrip and stable
}
