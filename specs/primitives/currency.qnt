// C10: identities of assets.  Every asset has one identifier: which currencies may form a pool, the one canonical
// pool share of an unordered pair, the fixed numbering of the native tokens, and the bytes identifiers are stored as.
module currency {
  import bytes.* from "../bitcoin/bytes"

  // kind: "token" | "foreign" | "lend" | "lp" | "stable"; id is the token's number or the asset's; x and y make an lp
  type Part = { kind: str, id: int }
  type Cur = { kind: str, id: int, x: Part, y: Part }
  type Symbol = { number: int, name: List[int], decimals: int }

  pure val noPart: Part = { kind: "token", id: 0 }
  pure def plain(k: str, i: int): Cur = { kind: k, id: i, x: noPart, y: noPart }
  pure def share(x: Part, y: Part): Cur = { kind: "lp", id: 0, x: x, y: y }

  // The native tokens: stored number, symbol (ASCII) and decimals.
  pure val SYMBOLS: Set[Symbol] = Set(
    { number: 0, name: [68, 79, 84], decimals: 10 },          // DOT
    { number: 1, name: [73, 66, 84, 67], decimals: 8 },       // IBTC
    { number: 2, name: [73, 78, 84, 82], decimals: 10 },      // INTR
    { number: 10, name: [75, 83, 77], decimals: 12 },         // KSM
    { number: 11, name: [75, 66, 84, 67], decimals: 8 },      // KBTC
    { number: 12, name: [75, 73, 78, 84], decimals: 12 }      // KINT
  )
  pure val NUMBERS: Set[int] = SYMBOLS.map(s => s.number)
  pure def symbol(n: int): Symbol = SYMBOLS.filter(s => s.number == n).fold({ number: -1, name: [], decimals: 0 }, (a, s) => s)
  pure def numberNamed(name: List[int]): int = SYMBOLS.filter(s => s.name == name).fold(-1, (a, s) => s.number)

  // A pool is made of native tokens, foreign assets and stable pool shares only.
  pure def poolable(c: Cur): bool = c.kind.in(Set("token", "foreign", "stable"))
  pure def part(c: Cur): Part = { kind: c.kind, id: c.id }
  pure def whole(p: Part): Cur = plain(p.kind, p.id)
  pure def rank(k: str): int = if (k == "token") 0 else if (k == "foreign") 1 else 2
  pure def before(p: Part, q: Part): bool = rank(p.kind) < rank(q.kind) or (p.kind == q.kind and p.id < q.id)
  pure def canonical(c: Cur): Cur = if (c.kind == "lp" and before(c.y, c.x)) share(c.y, c.x) else c
  // the share of a pair, in the order given
  pure def joined(a: Cur, b: Cur): Set[Cur] = if (poolable(a) and poolable(b)) Set(share(part(a), part(b))) else Set()

  pure def partBytes(p: Part): List[int] =
    if (p.kind == "token") [0, p.id] else if (p.kind == "foreign") [1].concat(le(p.id, 4)) else [2].concat(le(p.id, 4))
  pure def curBytes(c: Cur): List[int] =
    if (c.kind == "token") [0, c.id]
    else if (c.kind == "foreign") [1].concat(le(c.id, 4))
    else if (c.kind == "lend") [2].concat(le(c.id, 4))
    else if (c.kind == "lp") [3].concat(partBytes(c.x)).concat(partBytes(c.y))
    else [4].concat(le(c.id, 4))

  // Reading: what a prefix of the bytes says, and how many bytes that took; none when it says nothing.
  type ReadPart = { ok: bool, p: Part, used: int }
  type Read = { ok: bool, c: Cur, used: int }
  pure val badPart: ReadPart = { ok: false, p: noPart, used: 0 }
  pure val bad: Read = { ok: false, c: plain("token", 0), used: 0 }
  pure def readPart(b: List[int], at: int): ReadPart =
    if (at >= b.length()) badPart
    else if (b[at] == 0) (if (at + 1 < b.length() and b[at + 1].in(NUMBERS)) { ok: true, p: { kind: "token", id: b[at + 1] }, used: 2 } else badPart)
    else if (b[at].in(Set(1, 2))) (
      if (at + 5 <= b.length()) { ok: true, p: { kind: if (b[at] == 1) "foreign" else "stable", id: unLe(b.slice(at + 1, at + 5)) }, used: 5 }
      else badPart)
    else badPart
  pure def read(b: List[int]): Read =
    if (b.length() == 0) bad
    else if (b[0] == 0) (if (b.length() > 1 and b[1].in(NUMBERS)) { ok: true, c: plain("token", b[1]), used: 2 } else bad)
    else if (b[0].in(Set(1, 2, 4))) (
      if (b.length() >= 5)
        { ok: true, c: plain(if (b[0] == 1) "foreign" else if (b[0] == 2) "lend" else "stable", unLe(b.slice(1, 5))), used: 5 }
      else bad)
    else if (b[0] == 3) {
      pure val x = readPart(b, 1)
      pure val y = if (x.ok) readPart(b, 1 + x.used) else badPart
      if (x.ok and y.ok) { ok: true, c: share(x.p, y.p), used: 1 + x.used + y.used } else bad
    }
    else bad

  type Op = {
    what: str,                                   // "pair" | "bytes" | "number" | "name" | "key"
    a: Cur, b: Cur, join: Set[Cur], canon: Set[Cur],
    aBytes: List[int], joinBytes: List[int],
    raw: List[int], value: Read,
    number: int, name: List[int], sym: Symbol,
  }
  var op: Op
  var shares: Set[Cur]       // the canonical shares of the pools asked for so far
  var pairs: Set[Set[Cur]]   // the unordered pairs they were asked for

  pure val none: Op = {
    what: "none", a: plain("token", 0), b: plain("token", 0), join: Set(), canon: Set(), aBytes: [], joinBytes: [],
    raw: [], value: bad, number: 0, name: [], sym: symbol(0),
  }
  action init = all { op' = none, shares' = Set(), pairs' = Set() }

  action pair(a: Cur, b: Cur): bool = {
    val j = joined(a, b)
    val c = j.map(s => canonical(s))
    all {
      op' = { ...none, what: "pair", a: a, b: b, join: j, canon: c, aBytes: curBytes(a), joinBytes: j.fold([], (acc, s) => curBytes(s)) },
      shares' = shares.union(c),
      pairs' = if (j == Set()) pairs else pairs.union(Set(Set(a, b))),
    }
  }
  action quiet(o: Op): bool = all { op' = o, shares' = shares, pairs' = pairs }

  pure val IDS = Set(0, 1, 2, 3, 127, 128, 255, 256, 257, 65535, 65536, 2 ^ 31, 2 ^ 32 - 2, 2 ^ 32 - 1)
  pure val PARTKINDS = Set("token", "foreign", "stable")

  action pairSome = {
    nondet k1 = oneOf(Set("token", "foreign", "stable", "lend", "lp"))
    nondet k2 = oneOf(Set("token", "foreign", "stable", "token", "foreign", "stable", "lend"))
    nondet n1 = oneOf(NUMBERS)
    nondet n2 = oneOf(NUMBERS)
    nondet i1 = oneOf(IDS)
    nondet i2 = oneOf(IDS)
    nondet px = oneOf(PARTKINDS)
    pure val id1 = if (k1 == "token") n1 else i1
    pure val id2 = if (k2 == "token") n2 else i2
    pure val a = if (k1 == "lp") share({ kind: px, id: if (px == "token") n1 else i1 }, { kind: "foreign", id: i2 }) else plain(k1, id1)
    pair(a, plain(k2, id2))
  }
  // the same kind on both sides: the order within a kind
  action pairAlike = {
    nondet k = oneOf(PARTKINDS)
    nondet n1 = oneOf(NUMBERS)
    nondet n2 = oneOf(NUMBERS)
    nondet i = oneOf(IDS)
    nondet j = oneOf(IDS)
    pair(plain(k, if (k == "token") n1 else i), plain(k, if (k == "token") n2 else j))
  }
  // an earlier pair the other way round
  action pairAgain = all { op.what == "pair", pair(op.b, op.a) }

  action bytesOf(b: List[int]): bool = quiet({ ...none, what: "bytes", raw: b, value: read(b) })
  action bytesStructured = {
    nondet t = oneOf(0.to(5))
    nondet t1 = oneOf(0.to(3))
    nondet t2 = oneOf(0.to(3))
    nondet n = oneOf(0.to(13))
    nondet m = oneOf(NUMBERS)
    nondet i = oneOf(IDS)
    nondet j = oneOf(0.to(4294967295))
    nondet cut = oneOf(Set(0, 0, 0, 0, 1, 2, 5))
    nondet extra = oneOf(Set(0, 0, 1))
    pure val p1 = if (t1 == 0) [0, n] else [t1].concat(le(i, 4))
    pure val p2 = if (t2 == 0) [0, m] else [t2].concat(le(j, 4))
    pure val full = if (t == 0) [0, n] else if (t == 3) [3].concat(p1).concat(p2) else [t].concat(le(j, 4))
    pure val b = if (extra == 1) full.append(7) else full.slice(0, max(0, full.length() - cut))
    bytesOf(b)
  }
  action number = {
    nondet n = oneOf(0.to(255))
    quiet({ ...none, what: "number", number: n, sym: symbol(n) })
  }
  action numberNear = {
    nondet n = oneOf(0.to(14))
    quiet({ ...none, what: "number", number: n, sym: symbol(n) })
  }
  action name = {
    nondet n = oneOf(NUMBERS)
    nondet dmg = oneOf(Set(0, 0, 1, 2, 3, 4))
    nondet c = oneOf(0.to(255))
    pure val w = symbol(n).name
    pure val t = if (dmg == 0) w else if (dmg == 1) w.append(c) else if (dmg == 2) w.slice(0, w.length() - 1)
      else if (dmg == 3) w.replaceAt(0, w[0] + 32) else w.replaceAt(w.length() - 1, c)
    quiet({ ...none, what: "name", name: t, number: numberNamed(t), sym: symbol(numberNamed(t)) })
  }
  action step = any { pairSome, pairSome, pairAlike, pairAlike, pairAgain, bytesStructured, bytesStructured, number, numberNear, name }

  // one share per unordered pair, and one pair per share
  val oneEach = shares.size() == pairs.size()
  val sortedShares = shares.forall(s => canonical(s) == s and canonical(share(s.y, s.x)) == s)
  val parts = shares.forall(s => pairs.contains(Set(whole(s.x), whole(s.y))))
  val codec = op.what == "pair" implies and {
    read(op.aBytes) == { ok: true, c: op.a, used: op.aBytes.length() },
    op.join.forall(s => read(op.joinBytes) == { ok: true, c: s, used: op.joinBytes.length() }),
  }
  val reading = op.what == "bytes" implies (op.value.ok implies curBytes(op.value.c) == op.raw.slice(0, op.value.used))
  val inv = oneEach and sortedShares and parts and codec and reading
}
