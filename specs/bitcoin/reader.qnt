// C02: what a reader of untrusted Bitcoin bytes must do: every byte string is either one value or refused.
// The reader is written as a cursor machine over the bytes; `feed` presents arbitrary and damaged images.
module reader {
  import bytes.* from "./bytes"
  import txfmt.* from "./txfmt"

  // ---- the grammar -------------------------------------------------------------------------------------------
  type RIn = { coinbase: bool, height: int, prev: List[int], index: int, script: List[int], seq: int,
               wit: List[List[int]] }
  type ROut = { value: int, script: List[int] }
  type RTx = { version: int, ins: List[RIn], outs: List[ROut], lock: int, isTime: bool }

  // A cursor: bytes [0, pos) are consumed; ok turns false at the first refusal and stays false.
  type Cur = { ok: bool, pos: int }
  type Num = { c: Cur, v: int }
  type Bytes = { c: Cur, v: List[int] }

  pure def bad(c: Cur): Cur = { ok: false, pos: c.pos }

  pure def take(bs: List[int], c: Cur, n: int): Bytes =
    if (not(c.ok) or c.pos + n > length(bs)) { c: bad(c), v: [] }
    else { c: { ok: true, pos: c.pos + n }, v: bs.slice(c.pos, c.pos + n) }

  pure def takeUint(bs: List[int], c: Cur, n: int): Num = {
    pure val t = take(bs, c, n)
    { c: t.c, v: unLe(t.v) }
  }
  pure def takeInt(bs: List[int], c: Cur, n: int): Num = {
    pure val t = take(bs, c, n)
    { c: t.c, v: if (t.c.ok) unLeSigned(t.v) else 0 }
  }

  pure def takeCompact(bs: List[int], c: Cur): Num =
    if (not(c.ok) or c.pos >= length(bs)) { c: bad(c), v: 0 }
    else {
      pure val h = bs[c.pos]
      pure val n = if (h < 253) 0 else if (h == 253) 2 else if (h == 254) 4 else 8
      if (n == 0) { c: { ok: true, pos: c.pos + 1 }, v: h }
      else takeUint(bs, { ok: true, pos: c.pos + 1 }, n)
    }

  // More elements than remaining bytes can never be read: each takes at least one byte.
  pure def bounded(bs: List[int], n: Num): int = min(n.v, length(bs) - n.c.pos + 1)

  pure def readIn(bs: List[int], c: Cur, version: int): { c: Cur, v: RIn } = {
    pure val prev = take(bs, c, 32)
    pure val index = takeUint(bs, prev.c, 4)
    pure val zero = prev.v.foldl(true, (a, x) => a and x == 0)
    pure val ssize = takeCompact(bs, index.c)
    pure val withHeight = zero and version == 2
    pure val hsize = if (withHeight) takeCompact(bs, ssize.c) else { c: ssize.c, v: 0 }
    pure val room = if (withHeight) ssize.v - hsize.v - 1 else ssize.v
    pure val hbytes = if (withHeight and hsize.c.ok and hsize.v <= 4) take(bs, hsize.c, hsize.v)
                      else { c: hsize.c, v: [] }
    pure val fine = and {
      hbytes.c.ok,
      zero implies index.v == 4294967295,
      withHeight implies hsize.v <= 4,
      room >= 0,
      zero implies room <= 100,
    }
    pure val script = if (fine) take(bs, hbytes.c, room) else { c: bad(c), v: [] }
    pure val seq = takeUint(bs, script.c, 4)
    { c: seq.c, v: { coinbase: zero, height: if (withHeight) unLe(hbytes.v) else -1, prev: prev.v, index: index.v,
                     script: script.v, seq: seq.v, wit: [] } }
  }

  pure def readIns(bs: List[int], c: Cur, version: int): { c: Cur, v: List[RIn] } = {
    pure val n = takeCompact(bs, c)
    if (not(n.c.ok)) { c: n.c, v: [] }
    else range(0, bounded(bs, n)).foldl({ c: n.c, v: [] }, (acc, i) =>
      if (not(acc.c.ok)) acc
      else {
        pure val r = readIn(bs, acc.c, version)
        { c: r.c, v: acc.v.append(r.v) }
      })
  }

  pure def readBlob(bs: List[int], c: Cur, cap: int): Bytes = {
    pure val n = takeCompact(bs, c)
    if (not(n.c.ok) or (cap >= 0 and n.v > cap)) { c: bad(c), v: [] } else take(bs, n.c, n.v)
  }

  pure def readOuts(bs: List[int], c: Cur): { c: Cur, v: List[ROut] } = {
    pure val n = takeCompact(bs, c)
    if (not(n.c.ok)) { c: n.c, v: [] }
    else range(0, bounded(bs, n)).foldl({ c: n.c, v: [] }, (acc, i) =>
      if (not(acc.c.ok)) acc
      else {
        pure val value = takeInt(bs, acc.c, 8)
        pure val script = readBlob(bs, value.c, 10000)
        { c: script.c, v: acc.v.append({ value: value.v, script: script.v }) }
      })
  }

  pure def readStack(bs: List[int], c: Cur): { c: Cur, v: List[List[int]] } = {
    pure val n = takeCompact(bs, c)
    if (not(n.c.ok)) { c: n.c, v: [] }
    else range(0, bounded(bs, n)).foldl({ c: n.c, v: [] }, (acc, i) =>
      if (not(acc.c.ok)) acc
      else {
        pure val elem = readBlob(bs, acc.c, -1)
        { c: elem.c, v: acc.v.append(elem.v) }
      })
  }

  pure def readTx(bs: List[int]): { c: Cur, v: RTx } = {
    pure val version = takeInt(bs, { ok: true, pos: 0 }, 4)
    pure val start = if (version.v == 1 or version.v == 2) version.c else bad(version.c)
    pure val ins1 = readIns(bs, start, version.v)
    pure val segwit = ins1.c.ok and length(ins1.v) == 0
    pure val flag = if (segwit) takeUint(bs, ins1.c, 1) else { c: ins1.c, v: 0 }
    pure val ins2 = if (segwit) readIns(bs, flag.c, version.v) else ins1
    pure val outs = if (ins2.c.ok) readOuts(bs, ins2.c) else { c: ins2.c, v: [] }
    pure val witnessed = flag.v % 2 == 1
    pure val wits = if (not(witnessed) or not(outs.c.ok)) { c: outs.c, v: ins2.v }
      else ins2.v.foldl({ c: outs.c, v: [] }, (acc, i) =>
        if (not(acc.c.ok)) acc
        else {
          pure val s = readStack(bs, acc.c)
          { c: s.c, v: acc.v.append(i.with("wit", s.v)) }
        })
    pure val lock = takeUint(bs, wits.c, 4)
    pure val fine = and {
      lock.c.ok,
      // no flag bit other than the witness bit
      flag.v == 0 or flag.v == 1,
      // a set witness flag must come with a witness
      witnessed implies wits.v.foldl(false, (a, i) => a or length(i.wit) > 0),
    }
    { c: if (fine) lock.c else bad(lock.c),
      v: { version: version.v, ins: wits.v, outs: outs.v, lock: lock.v, isTime: lock.v >= 500000000 } }
  }

  // ---- untrusted inputs --------------------------------------------------------------------------------------
  var image: List[int]
  var outcome: { c: Cur, v: RTx }
  var history: str

  action present(bs: List[int], how: str): bool = all {
    image' = bs,
    outcome' = readTx(bs),
    history' = how,
  }

  // A small well-formed transaction, from independent choices.
  pure def mkTx(version: int, nIn: int, kind: int, height: int, slen: int, nOut: int, olen: int, wit: int, lock: int): Tx = {
    pure val input = { src: if (kind == 0) { coinbase: true, height: if (version == 2) height else -1, prev: 0, index: 4294967295 }
                            else { coinbase: false, height: -1, prev: kind, index: slen },
                       script: { len: slen, fill: 7 }, seq: 4294967294,
                       wit: if (wit == 0) [] else if (wit == 1) [{ len: 0, fill: 0 }] else [{ len: wit, fill: 3 }, { len: 1, fill: 2 }] }
    { version: version, ins: [{ rep: nIn, i: input }],
      outs: [{ rep: nOut, o: { value: 5000 + olen, script: { len: olen, fill: 81 } } }], lock: lock }
  }

  action fresh = {
    nondet version = oneOf(Set(1, 2))
    nondet nIn = oneOf(Set(1, 1, 2, 0))
    nondet kind = oneOf(Set(0, 0, 1, 200))
    nondet height = oneOf(Set(0, 5, 127, 128, 700000, 16777216, 2147483647))
    nondet slen = oneOf(Set(0, 1, 5, 24))
    nondet nOut = oneOf(Set(0, 1, 2, 3))
    nondet olen = oneOf(Set(0, 1, 22, 34))
    nondet wit = oneOf(Set(0, 0, 1, 2, 5))
    nondet lock = oneOf(Set(0, 1, 499999999, 500000000, 4294967295))
    present(expand(full(mkTx(version, nIn, kind, height, slen, nOut, olen, wit, lock))), "fresh")
  }

  pure val BYTES = Set(0, 1, 2, 3, 4, 5, 6, 8, 16, 32, 76, 80, 81, 96, 100, 101, 105, 127, 128, 129, 200, 251, 252, 253, 254, 255)

  action truncate = {
    nondet k = oneOf(0.to(200))
    all { k < length(image), present(image.slice(0, k), "truncate") }
  }
  action cutTail = {
    nondet k = oneOf(1.to(12))
    all { k <= length(image), present(image.slice(0, length(image) - k), "cutTail") }
  }
  action overwrite = {
    nondet k = oneOf(0.to(260))
    nondet b = oneOf(BYTES)
    all { k < length(image), present(image.replaceAt(k, b), "overwrite") }
  }
  // the length prefixes live here: after version, after the first outpoint, the marker
  action overwriteHot = {
    nondet k = oneOf(Set(0, 3, 4, 5, 6, 7, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46))
    nondet b = oneOf(BYTES)
    all { k < length(image), present(image.replaceAt(k, b), "overwriteHot") }
  }
  action insertByte = {
    nondet k = oneOf(0.to(120))
    nondet b = oneOf(BYTES)
    all { k < length(image), length(image) < 400,
      present(image.slice(0, k).append(b).concat(image.slice(k, length(image))), "insertByte") }
  }
  action deleteByte = {
    nondet k = oneOf(0.to(120))
    all { k < length(image),
      present(image.slice(0, k).concat(image.slice(k + 1, length(image))), "deleteByte") }
  }
  // over-long or enormous length prefix in place of one byte
  action widenPrefix = {
    nondet k = oneOf(Set(4, 5, 6, 41, 42, 43, 46, 47, 51, 52))
    nondet w = oneOf(Set(3, 5, 9))
    nondet v = oneOf(Set(-1, 0, 1, 5, 100, 105, 253, 65535, 65536, 4294967295, 4294967296, 9223372036854775807,
                         18446744073709551614, 18446744073709551615))
    all { k < length(image), length(image) < 400,
      present(image.slice(0, k)
        .concat(compactWith(if (v == -1) image[k] else if (w == 3) v % U16 else if (w == 5) v % U32 else v, w))
        .concat(image.slice(k + 1, length(image))), "widenPrefix") }
  }
  action extend = {
    nondet b = oneOf(BYTES)
    all { length(image) < 400, present(image.append(b), "extend") }
  }
  // a coinbase whose script size and height push are hostile, with enough bytes behind them
  action hostileCoinbase = {
    nondet sz = oneOf(Set(0, 1, 2, 5, 6, 9, 81, 100, 104, 105, 106, 252))
    nondet hsize = oneOf(Set(0, 1, 3, 4, 5, 8, 9, 33, 80, 96, 100, 104, 252))
    nondet wide = oneOf(Set(0, 0, 0, 3, 5, 9))
    nondet hv = oneOf(Set(4, 5, 65535, 4294967295, 4294967296, 18446744073709551615, 18446744073709551611))
    present(le(2, 4).concat([1]).concat(range(0, 32).foldl([], (a, i) => a.append(0))).concat([255, 255, 255, 255])
      .concat([sz]).concat(if (wide == 0) [hsize] else compactWith(if (wide == 3) hv % U16 else if (wide == 5) hv % U32 else hv, wide))
      .concat(range(0, 240).foldl([], (a, i) => a.append(i))), "hostileCoinbase")
  }
  action noise = {
    nondet seed = oneOf(1.to(1000000))
    nondet n = oneOf(Set(0, 1, 2, 5, 10, 40, 60, 120))
    present(range(0, n).foldl({ s: seed, o: [] }, (acc, i) => {
      s: (acc.s * 1103515245 + 12345) % 2147483648,
      o: acc.o.append((acc.s / 65536) % (if (acc.s % 3 == 0) 256 else 4)) }).o, "noise")
  }

  action init = present([], "init")
  action step = any {
    fresh, fresh, fresh, fresh, truncate, cutTail, overwrite, overwriteHot, overwriteHot, insertByte, deleteByte,
    widenPrefix, widenPrefix, extend, hostileCoinbase, noise,
  }

  // ---- design properties ---------------------------------------------------------------------------------------
  val cursorInside = outcome.c.pos <= length(image)
  // the reader is deterministic in the consumed prefix: trailing bytes never change what was read
  val prefixOnly = outcome.c.ok implies
    readTx(image.slice(0, outcome.c.pos)) == outcome
  // nothing shorter is accepted with the same content
  val noShorter = (outcome.c.ok and outcome.c.pos > 0) implies not(readTx(image.slice(0, outcome.c.pos - 1)).c.ok)
  val inv = cursorInside and prefixOnly and noShorter
}
