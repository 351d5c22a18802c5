// C06: output scripts: exactly four standard forms name an address; a null-data output carries exactly its bytes.
module script {
  import bytes.* from "./bytes"

  type Addr = { kind: str, hash: List[int] }   // kind "none": no address
  pure val noAddr: Addr = { kind: "none", hash: [] }

  pure def scriptOf(a: Addr): List[int] =
    if (a.kind == "p2pkh") [118, 169, 20].concat(a.hash).concat([136, 172])
    else if (a.kind == "p2sh") [169, 20].concat(a.hash).concat([135])
    else if (a.kind == "p2wpkh") [0, 20].concat(a.hash)
    else if (a.kind == "p2wsh") [0, 32].concat(a.hash)
    else []

  pure def addrOf(s: List[int]): Addr = {
    pure val n = length(s)
    if (n == 25 and s.slice(0, 3) == [118, 169, 20] and s.slice(23, 25) == [136, 172]) { kind: "p2pkh", hash: s.slice(3, 23) }
    else if (n == 23 and s.slice(0, 2) == [169, 20] and s[22] == 135) { kind: "p2sh", hash: s.slice(2, 22) }
    else if (n == 22 and s.slice(0, 2) == [0, 20]) { kind: "p2wpkh", hash: s.slice(2, 22) }
    else if (n == 34 and s.slice(0, 2) == [0, 32]) { kind: "p2wsh", hash: s.slice(2, 34) }
    else noAddr
  }

  type Data = { ok: bool, data: List[int] }
  // OP_RETURN <one push of exactly the rest>, at most 83 bytes in all
  pure def dataOf(s: List[int]): Data =
    if (length(s) >= 2 and length(s) <= 83 and s[0] == 106 and s[1] == length(s) - 2) { ok: true, data: s.slice(2, length(s)) }
    else { ok: false, data: [] }

  var image: List[int]
  var addr: Addr
  var nullData: Data
  var built: { from: Addr, payload: List[int], isData: bool }   // what the image was built from, if anything

  pure val nothing = { from: noAddr, payload: [], isData: false }
  action present(s: List[int], b: { from: Addr, payload: List[int], isData: bool }): bool = all {
    image' = s, addr' = addrOf(s), nullData' = dataOf(s), built' = b,
  }
  pure def fill(seed: int, n: int): List[int] = range(0, n).foldl([], (a, i) => a.append((seed * (i + 1) + i) % 256))

  action standard = {
    nondet kind = oneOf(Set("p2pkh", "p2sh", "p2wpkh", "p2wsh"))
    nondet seed = oneOf(0.to(255))
    pure val a = { kind: kind, hash: fill(seed, if (kind == "p2wsh") 32 else 20) }
    present(scriptOf(a), { from: a, payload: [], isData: false })
  }
  action opReturn = {
    nondet n = oneOf(Set(0, 1, 20, 31, 32, 33, 75, 76, 79, 80, 81, 82, 83, 100))
    nondet seed = oneOf(0.to(255))
    present([106, n].concat(fill(seed, n)), { from: noAddr, payload: fill(seed, n), isData: true })
  }
  action overwrite = {
    nondet k = oneOf(Set(0, 0, 1, 1, 2, 3, 12, 21, 22, 23, 24, 33))
    nondet b = oneOf(Set(0, 1, 19, 20, 21, 31, 32, 33, 76, 80, 81, 106, 118, 135, 136, 169, 172, 255))
    all { k < length(image), present(image.replaceAt(k, b), nothing) }
  }
  action cut = {
    nondet k = oneOf(Set(0, 1, 2, 3, 20, 21, 22, 23, 24, 25, 33, 34))
    all { k < length(image), present(image.slice(0, k), nothing) }
  }
  action extend = {
    nondet b = oneOf(Set(0, 20, 135, 172, 255))
    present(image.append(b), nothing)
  }
  action prepend = {
    nondet b = oneOf(Set(0, 106, 118, 169))
    present([b].concat(image), nothing)
  }
  action fixLen = all {
    length(image) >= 2, length(image) <= 200,
    present(image.replaceAt(1, length(image) - 2), nothing)
  }
  // the right opcodes at every length around the standard ones
  action shaped = {
    nondet kind = oneOf(Set("p2pkh", "p2sh", "p2wpkh", "p2wsh"))
    nondet n = oneOf(Set(0, 1, 18, 19, 20, 21, 22, 31, 32, 33))
    nondet honest = oneOf(Set(true, false))
    pure val s = scriptOf({ kind: kind, hash: fill(9, n) })
    pure val at = if (kind == "p2pkh") 2 else 1
    present(if (honest) s.replaceAt(at, n) else s, nothing)
  }
  action init = present([], nothing)
  action step = any { standard, standard, opReturn, opReturn, overwrite, overwrite, cut, extend, prepend, fixLen, shaped, shaped }

  val inverse = addr.kind != "none" implies scriptOf(addr) == image
  val builtBack = built.from.kind != "none" implies addr == built.from
  val exclusive = not(nullData.ok and addr.kind != "none")
  val inv = inverse and builtBack and exclusive
}
