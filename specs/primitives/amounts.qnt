// C11: amounts.  Conversion between integers and 18-decimal fixed point, amounts as decimal text in JSON, and the
// stored layout of issue, redeem and replace requests.
module amounts {
  import bytes.* from "../bitcoin/bytes"

  pure val ONE = 10 ^ 18
  pure val I128MAX = 2 ^ 127 - 1
  pure val U128MAX = 2 ^ 128 - 1
  pure def abs(x: int): int = if (x < 0) -x else x
  // integer part, towards zero
  pure def whole(inner: int): int = if (inner < 0) -((-inner) / ONE) else inner / ONE
  // the fixed point number equal to v, unless it does not fit
  pure def toFixed(v: int): Set[int] = if (v * ONE <= I128MAX) Set(v * ONE) else Set()

  // Decimal digits of v >= 0, as ASCII.
  pure def digits(v: int): List[int] =
    if (v == 0) [48] else range(0, 40).foldl([], (acc, i) => if (v >= 10 ^ i) [48 + (v / 10 ^ i) % 10].concat(acc) else acc)
  // What a text says as an unsigned amount of at most `limit`: an optional plus sign and at least one digit.
  pure def amountIn(t: List[int], limit: int): Set[int] = {
    pure val d = if (t.length() > 0 and t[0] == 43) t.slice(1, t.length()) else t
    pure val ok = d.length() > 0 and d.foldl(true, (a, c) => a and c >= 48 and c <= 57)
    pure val v = if (ok) d.foldl(0, (a, c) => 10 * a + (c - 48)) else -1
    if (ok and v <= limit) Set(v) else Set()
  }

  // Currencies and Bitcoin addresses as opaque stored bytes (C10 gives the former's meaning).
  type Request = {
    kind: str,
    vault: int, coll: List[int], other: int,         // accounts are one repeated byte
    time: int, period: int, amounts: List[int], griefing: List[int], who: int,
    addr: int, hash: int, key: int, height: int, status: int,
  }
  type Op = {
    what: str, v: int, fixed: Set[int], whole: int, text: List[int], parsed: Set[int],
    req: Request, image: List[int],
  }

  pure def times(b: int, n: int): List[int] = range(0, n).foldl([], (a, i) => a.append(b))
  pure def vaultBytes(a: int, coll: List[int]): List[int] = times(a, 32).concat(coll).concat([0, 1])   // wrapped: IBTC
  pure def addrBytes(kind: int, h: int): List[int] = [kind].concat(times(h, if (kind == 3) 32 else 20))
  pure def u128s(l: List[int]): List[int] = l.foldl([], (a, v) => a.concat(le(v, 16)))

  pure def issueBytes(r: Request): List[int] = joinBytes([
    vaultBytes(r.vault, r.coll), le(r.time, 4), le(r.period, 4), le(r.amounts[0], 16), r.griefing,
    le(r.amounts[1], 16), le(r.amounts[2], 16), times(r.who, 32), addrBytes(r.addr, r.hash), times(r.key, 33),
    le(r.height, 4), [r.status % 3]])
  pure def redeemBytes(r: Request): List[int] = joinBytes([
    vaultBytes(r.vault, r.coll), le(r.time, 4), le(r.period, 4), u128s(r.amounts),
    times(r.who, 32), addrBytes(r.addr, r.hash), le(r.height, 4),
    // pending, completed, reimbursed without and with minting, retried
    if (r.status < 2) [r.status] else if (r.status < 4) [2, r.status - 2] else [3]])
  pure def replaceBytes(r: Request): List[int] = joinBytes([
    vaultBytes(r.vault, r.coll), vaultBytes(r.other, [0, 10]), u128s(r.amounts.slice(0, 3)),
    le(r.time, 4), le(r.period, 4), addrBytes(r.addr, r.hash), le(r.height, 4), [r.status % 3]])
  pure def image(r: Request): List[int] =
    if (r.kind == "issue") issueBytes(r) else if (r.kind == "redeem") redeemBytes(r) else replaceBytes(r)

  pure val noReq: Request = { kind: "issue", vault: 0, coll: [0, 0], other: 0, time: 0, period: 0, amounts: [0, 0, 0, 0],
    griefing: [0, 0], who: 0, addr: 0, hash: 0, key: 0, height: 0, status: 0 }
  pure val none: Op = { what: "none", v: 0, fixed: Set(), whole: 0, text: [], parsed: Set(), req: noReq, image: [] }
  var op: Op
  action init = op' = none

  // around the edges of the representations
  pure val EDGES = Set(0, 1, 2, 9, 10, ONE - 1, ONE, ONE + 1, 2 * ONE - 1, 170141183460469231731 , 170141183460469231732,
    2 ^ 63, 2 ^ 64 - 1, 2 ^ 64, 10 ^ 38, I128MAX - 1, I128MAX, I128MAX + 1, U128MAX - 1, U128MAX, 340282366920938463463)
  action fixed(v: int): bool = all { v >= 0, v <= U128MAX, op' = { ...none, what: "fixed", v: v, fixed: toFixed(v) } }
  action fixedEdge = { nondet e = oneOf(EDGES) nondet d = oneOf(Set(-1, 0, 1)) fixed(e + d) }
  action fixedRandom = { nondet e = oneOf(0.to(340000000000000000000)) fixed(e) }
  action cut(inner: int): bool = all { inner >= -(I128MAX + 1), inner <= U128MAX,
    op' = { ...none, what: "cut", v: inner, whole: whole(inner) } }
  action cutEdge = { nondet e = oneOf(EDGES) nondet d = oneOf(Set(-1, 0, 1)) nondet s = oneOf(Set(-1, 1)) cut(s * (e + d)) }
  action cutRandom = { nondet w = oneOf((-1000).to(1000)) nondet f = oneOf((-1000000000000000000).to(1000000000000000000)) cut(w * ONE + f) }

  action write(v: int): bool = all { v >= 0, v <= U128MAX, op' = { ...none, what: "write", v: v, text: digits(v), parsed: Set(v) } }
  action writeEdge = { nondet e = oneOf(EDGES) nondet d = oneOf(Set(-1, 0, 1)) write(e + d) }
  action readText(t: List[int]): bool = op' = { ...none, what: "read", text: t, parsed: amountIn(t, U128MAX) }
  action readDamaged = {
    nondet e = oneOf(EDGES)
    nondet d = oneOf(0.to(9))
    nondet how = oneOf(0.to(9))
    nondet c = oneOf(32.to(126))
    pure val t = digits(e + d)
    readText(
      if (how == 0) t
      else if (how == 1) [43].concat(t)
      else if (how == 2) [45].concat(t)
      else if (how == 3) [48, 48].concat(t)
      else if (how == 4) t.append(c)
      else if (how == 5) [c].concat(t)
      else if (how == 6) []
      else if (how == 7) t.replaceAt(t.length() - 1, c)
      else if (how == 8) [43]
      else t.append(48))
  }

  action request(kind: str): bool = {
    nondet vault = oneOf(0.to(255))
    nondet coll = oneOf(Set([0, 0], [0, 10], [0, 12], [1, 5, 0, 0, 0], [2, 7, 1, 0, 0], [4, 255, 255, 255, 255], [3, 0, 0, 1, 9, 0, 0, 0]))
    nondet other = oneOf(0.to(255))
    nondet time = oneOf(0.to(4294967295))
    nondet period = oneOf(Set(0, 1, 14400, 4294967295))
    nondet a = oneOf(EDGES)
    nondet b = oneOf(0.to(1000000000000))
    nondet c = oneOf(EDGES)
    nondet d = oneOf(0.to(255))
    nondet g = oneOf(Set([0, 2], [0, 12], [1, 0, 1, 0, 0]))
    nondet who = oneOf(0.to(255))
    nondet addr = oneOf(0.to(3))
    nondet hash = oneOf(0.to(255))
    nondet key = oneOf(0.to(255))
    nondet height = oneOf(Set(0, 1, 800000, 4294967295))
    nondet status = oneOf(0.to(4))
    pure val r = { kind: kind, vault: vault, coll: coll, other: other, time: time, period: period,
      amounts: [min(a, U128MAX), b, min(c, U128MAX), d], griefing: g, who: who, addr: addr, hash: hash, key: key, height: height, status: status }
    op' = { ...none, what: "request", req: r, image: image(r) }
  }
  action step = any {
    fixedEdge, fixedRandom, cutEdge, cutRandom, writeEdge, readDamaged, readDamaged,
    request("issue"), request("redeem"), request("replace"),
  }

  val exact = op.what == "fixed" implies op.fixed.forall(f => whole(f) == op.v and f % ONE == 0)
  val total = op.what == "fixed" implies ((op.fixed == Set()) iff (op.v > 170141183460469231731))
  val towardsZero = op.what == "cut" implies (abs(op.whole) * ONE <= abs(op.v) and abs(op.v) < (abs(op.whole) + 1) * ONE)
  val text = op.what == "write" implies amountIn(op.text, U128MAX) == Set(op.v)
  val inv = exact and total and towardsZero and text
}
