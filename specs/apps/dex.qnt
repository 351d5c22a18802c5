// Exchange of tokens: pools of two tokens with a constant product, shares in them, fees on swaps of which the protocol can take a
// part, and pools that are first filled by contributions until a target is met (bootstrap), with rewards for those who contribute.
module dex {
  pure val PEOPLE = 1.to(4)
  pure val TAKER = 5
  // of contributions and rewards, and of pair ab
  pure val BOOT = 99
  pure def home(p: int): int = 100 + p
  pure val ASSETS = 1.to(3)
  // pair ab of assets a < b is also the name of its share token
  pure val PAIRS = Set(12, 13, 23)
  pure val ACCOUNTS = PEOPLE.union(Set(TAKER, BOOT)).union(PAIRS.map(p => home(p)))
  pure val ALL = ASSETS.union(PAIRS)
  pure val LIMIT = 2 ^ 128
  pure val FULL = 10000
  pure val NONE = -1

  type Boot = { target: (int, int), most: (int, int), got: (int, int), end: int }
  // kind: nothing, filling or open
  type Pair = { kind: str, supply: int, rate: int, boot: Boot }
  type Dex = {
    ok: bool, h: int, bal: (int, int) -> int, pairs: int -> Pair, shares: Set[int], past: int -> Pair, given: (int, int) -> (int, int), part: Set[(int, int)],
    prizes: int -> (int -> int), paid: int -> (int -> int), needs: int -> (int -> int), taker: int, point: int, last: int -> int,
  }
  type Op = { what: str, ok: bool, who: int, to: int, a: int, b: int, x: int, y: int, lx: int, ly: int, path: List[int], list: int -> int, till: int, root: bool, out: int }
  type View = { sells: List[int], buys: List[int] }

  var w: Dex
  var prior: Dex
  var op: Op
  var seen: View

  pure val nopair = { kind: "nothing", supply: 0, rate: 0, boot: { target: (0, 0), most: (0, 0), got: (0, 0), end: 0 } }
  pure val none = { what: "none", ok: true, who: 0, to: 0, a: 1, b: 2, x: 0, y: 0, lx: 0, ly: 0, path: [], list: Map(), till: 0, root: true, out: 0 }
  pure def wrong(s: Dex): Dex = { ...s, ok: false }
  pure def need(s: Dex, b: bool): Dex = if (b) s else wrong(s)
  pure def least(a: int, b: int): int = if (a < b) a else b
  pure def below(a: int): int = if (a < 0) 0 else a
  pure def pairOf(a: int, b: int): int = if (a < b) 10 * a + b else 10 * b + a
  pure def one(p: int): int = p / 10
  pure def two(p: int): int = p % 10
  pure def root(n: int): int = range(0, 90).foldl(0, (r, i) => { val x = r + 2 ^ (89 - i) if (x * x <= n) x else r })
  // --- tokens
  pure def has(s: Dex, t: int, a: int): int = if (ALL.contains(t) and ACCOUNTS.contains(a)) s.bal.get((t, a)) else 0
  pure def mint(s: Dex, t: int, a: int, x: int): Dex = { ...s, bal: s.bal.setBy((t, a), y => y + x) }
  pure def burn(s: Dex, t: int, a: int, x: int): Dex = if (s.has(t, a) < x) wrong(s) else s.mint(t, a, -x)
  // to oneself, anything
  pure def move(s: Dex, t: int, a: int, b: int, x: int): Dex = if (a == b or x == 0) s else if (s.has(t, a) < x) wrong(s) else s.mint(t, a, -x).mint(t, b, x)
  pure def issued(s: Dex, t: int): int = ACCOUNTS.fold(0, (n, a) => n + s.has(t, a))
  // --- arithmetic of a pool
  pure def share(x: int, of_: int, all_: int): int = if (of_ == 0 or x * all_ / of_ >= LIMIT) 0 else x * all_ / of_
  pure def liquidity(x: int, y: int, rx: int, ry: int, total: int): int = if (total == 0) root(x * y) else least(share(x, rx, total), share(y, ry, total))
  pure def pair(s: Dex, p: int): Pair = if (PAIRS.contains(p)) s.pairs.get(p) else nopair
  pure def price(s: Dex, a: int, b: int): int = { val p = s.pair(pairOf(a, b)) if (p.kind == "open") p.rate else 30 }
  pure def kept(r0: int, r1: int, x: int, y: int): bool = y <= r1 and (r0 + x) * (r1 - y) >= r0 * r1
  // what one step of a path gives for x, or takes for y: NONE if it cannot be
  pure def gives(s: Dex, a: int, b: int, x: int): int = {
    val r0 = s.has(a, home(pairOf(a, b)))
    val r1 = s.has(b, home(pairOf(a, b)))
    val f = x * (FULL - s.price(a, b))
    if (a == b or r0 == 0 or r1 == 0 or x <= 0) NONE else { val y = f * r1 / (r0 * FULL + f) if (y > 0 and kept(r0, r1, x, y)) y else NONE }
  }
  pure def takes(s: Dex, a: int, b: int, y: int): int = {
    val r0 = s.has(a, home(pairOf(a, b)))
    val r1 = s.has(b, home(pairOf(a, b)))
    if (a == b or r0 == 0 or r1 == 0 or y <= 0 or y >= r1) NONE
    else { val x = r0 * y * FULL / ((r1 - y) * (FULL - s.price(a, b))) + 1 if (x < LIMIT and kept(r0, r1, x, y)) x else NONE }
  }
  pure def sold(s: Dex, path: List[int], x: int): List[int] =
    range(1, path.length()).foldl([x], (l, i) => l.append(s.gives(path[i - 1], path[i], l[i - 1])))
  // from the last to the first
  pure def bought(s: Dex, path: List[int], y: int): List[int] = {
    val n = path.length()
    range(1, n).foldl([y], (l, i) => l.append(s.takes(path[n - 1 - i], path[n - i], l[i - 1])))
  }
  pure def turned(l: List[int]): List[int] = range(0, l.length()).foldl([], (r, i) => r.append(l[l.length() - 1 - i]))
  pure def proper(l: List[int]): bool = range(0, l.length()).foldl(true, (b, i) => b and l[i] > 0)
  pure def swap(s: Dex, a: int, path: List[int], xs: List[int], dst: int): Dex = {
    val n = path.length()
    if (n < 2 or not(proper(xs)) or not(range(0, n).foldl(true, (b, i) => b and ASSETS.contains(path[i])))) wrong(s)
    else range(1, n).foldl(s.move(path[0], a, home(pairOf(path[0], path[1])), xs[0]), (t, i) => {
      val p = pairOf(path[i - 1], path[i])
      t.need(t.pair(p).kind == "open" and t.has(path[i], home(p)) >= xs[i]).move(path[i], home(p), if (i == n - 1) dst else home(pairOf(path[i], path[i + 1])), xs[i])
    })
  }
  pure def sell(s: Dex, a: int, x: int, atLeast: int, path: List[int], dst: int): Dex =
    if (path.length() < 2) wrong(s) else { val xs = s.sold(path, x) s.swap(a, path, xs, dst).need(xs[xs.length() - 1] >= atLeast) }
  pure def buy(s: Dex, a: int, y: int, atMost: int, path: List[int], dst: int): Dex =
    if (path.length() < 2) wrong(s) else { val xs = turned(s.bought(path, y)) s.swap(a, path, xs, dst).need(xs[0] <= atMost) }
  // the protocol's part of what a pool grew by, in shares
  pure def fee(s: Dex, p: int): { w: Dex, x: int } = {
    val r = root(s.has(one(p), home(p)) * s.has(two(p), home(p)))
    val l = root(s.last.get(p))
    val x = if (s.taker == NONE or s.last.get(p) == 0 or r <= l) 0 else s.pairs.get(p).supply * (r - l) / (r * s.point + l)
    val t = if (s.taker == NONE) { ...s, last: s.last.set(p, 0) } else s.mint(p, s.taker, x)
    { w: { ...t, pairs: t.pairs.setBy(p, q => { ...q, supply: q.supply + x }) }, x: x }
  }
  pure def mark(s: Dex, p: int): Dex = if (s.taker == NONE) s else { ...s, last: s.last.set(p, s.has(one(p), home(p)) * s.has(two(p), home(p))) }
  pure def wanted(x: int, y: int, lx: int, ly: int, rx: int, ry: int): { ok: bool, x: int, y: int } = {
    val oy = share(x, rx, ry)
    val ox = share(y, ry, rx)
    if (rx == 0 or ry == 0) { ok: true, x: x, y: y }
    else if (oy <= y) { ok: oy >= ly, x: x, y: oy }
    else { ok: ox >= lx and ox <= x, x: ox, y: y }
  }
  pure def add(s: Dex, a: int, ta: int, tb: int, x: int, y: int, lx: int, ly: int): Dex = {
    val p = pairOf(ta, tb)
    val rx = s.has(ta, home(p))
    val ry = s.has(tb, home(p))
    val d = wanted(x, y, lx, ly, rx, ry)
    if (s.pairs.get(p).kind != "open" or not(d.ok)) wrong(s)
    else {
      val f = s.fee(p).w
      val m = liquidity(d.x, d.y, rx, ry, f.pairs.get(p).supply)
      { ...f, pairs: f.pairs.setBy(p, q => { ...q, supply: q.supply + m }) }.need(m > 0)
        .mint(p, a, m).move(ta, a, home(p), d.x).move(tb, a, home(p), d.y).mark(p)
    }
  }
  pure def remove(s: Dex, a: int, ta: int, tb: int, n: int, lx: int, ly: int, dst: int): Dex = {
    val p = pairOf(ta, tb)
    if (s.pairs.get(p).kind != "open") wrong(s)
    else {
      val f = s.fee(p).w
      val x = share(n, f.pairs.get(p).supply, s.has(ta, home(p)))
      val y = share(n, f.pairs.get(p).supply, s.has(tb, home(p)))
      if (x < lx or y < ly or f.pairs.get(p).supply < n) wrong(s)
      else { ...f, pairs: f.pairs.setBy(p, q => { ...q, supply: q.supply - n }) }.burn(p, a, n).move(ta, home(p), dst, x).move(tb, home(p), dst, y).mark(p)
    }
  }
  // --- pools and who sets what
  pure def failed(s: Dex, q: Pair): bool = q.kind == "filling" and s.h > q.boot.end and (q.boot.got._1 < q.boot.target._1 or q.boot.got._2 < q.boot.target._2)
  pure def create(s: Dex, a: int, b: int, rate: int): Dex = {
    val p = pairOf(a, b)
    if (a == b or not(ASSETS.contains(a)) or not(ASSETS.contains(b)) or rate >= FULL) wrong(s)
    else {
      val q = s.pairs.get(p)
      { ...s, past: if (q.kind == "filling") s.past.set(p, q) else s.past, shares: s.shares.union(Set(p)), pairs: s.pairs.set(p, { ...nopair, kind: "open", rate: rate }) }
        .need(q.kind == "nothing" or s.failed(q))
    }
  }
  pure def setRate(s: Dex, a: int, b: int, rate: int): Dex = {
    val p = pairOf(a, b)
    { ...s, pairs: s.pairs.setBy(p, q => { ...q, rate: rate }) }.need(rate < FULL and s.pairs.get(p).kind == "open")
  }
  pure def ordered(a: int, b: int, x: int, y: int): (int, int) = if (a < b) (x, y) else (y, x)
  // o.x, o.y the targets, o.lx, o.ly the most; o.path the rewards, o.list the tokens needed
  pure def start(s: Dex, o: Op, again: bool): Dex = {
    val p = pairOf(o.a, o.b)
    val q = s.pairs.get(p)
    val free = if (again) q.kind == "filling" else q.kind == "nothing" or s.failed(q)
    val empty = s.prizes.get(p).keys().forall(t => s.prizes.get(p).get(t) == 0)
    { ...s, pairs: s.pairs.set(p, { ...nopair, kind: "filling", boot: { target: ordered(o.a, o.b, o.x, o.y), most: ordered(o.a, o.b, o.lx, o.ly), got: q.boot.got, end: o.till } }),
      prizes: s.prizes.set(p, o.path.foldl(Set(), (r, t) => r.union(Set(t))).mapBy(t => 0)), paid: s.paid.set(p, Map()), needs: s.needs.set(p, o.list) }
      .need(free and (q.kind == "nothing" or empty))
  }
  pure def room(x: int, most: int, got: int): int = if (x + got > most) most - got else x
  pure def contribute(s: Dex, a: int, ta: int, tb: int, x: int, y: int): Dex = {
    val p = pairOf(ta, tb)
    val b = s.pairs.get(p).boot
    val d = ordered(ta, tb, x, y)
    val gx = room(d._1, b.most._1, b.got._1)
    val gy = room(d._2, b.most._2, b.got._2)
    if (s.pairs.get(p).kind != "filling" or s.h >= b.end or gx < 0 or gy < 0 or gx + gy == 0 or s.needs.get(p).keys().exists(t => s.has(t, a) < s.needs.get(p).get(t))) wrong(s)
    else { ...s, given: s.given.setBy((p, a), g => (g._1 + gx, g._2 + gy)), part: s.part.union(Set((p, a))),
      pairs: s.pairs.setBy(p, q => { ...q, boot: { ...q.boot, got: (q.boot.got._1 + gx, q.boot.got._2 + gy) } }) }.move(one(p), a, BOOT, gx).move(two(p), a, BOOT, gy)
  }
  pure def open(s: Dex, a: int, b: int): Dex = {
    val p = pairOf(a, b)
    val q = s.pairs.get(p)
    val m = root(q.boot.got._1 * q.boot.got._2)
    { ...s, shares: s.shares.union(Set(p)), past: s.past.set(p, q), pairs: s.pairs.set(p, { ...nopair, kind: "open", supply: m, rate: 30 }) }
      .need(q.kind == "filling" and s.h >= q.boot.end and q.boot.got._1 >= q.boot.target._1 and q.boot.got._2 >= q.boot.target._2 and m > 0)
      .move(one(p), BOOT, home(p), q.boot.got._1).move(two(p), BOOT, home(p), q.boot.got._2).mint(p, home(p), m)
  }
  // the shares somebody gets who contributed to what became a pool
  pure def due(s: Dex, p: int, a: int): int = {
    val g = s.given.get((p, a))
    val b = s.past.get(p).boot.got
    val x = g._1 * b._2 + g._2 * b._1
    if (b._1 == 0 or b._2 == 0) 0 else root((x / (2 * b._2)) * (x / (2 * b._1)))
  }
  pure def claim(s: Dex, a: int, ta: int, tb: int, dst: int): Dex = {
    val p = pairOf(ta, tb)
    val b = s.past.get(p)
    if (s.pairs.get(p).kind != "open" or not(s.part.contains((p, a))) or b.kind != "filling" or s.failed(b)) wrong(s)
    else {
      val n = s.due(p, a)
      val all_ = root(b.boot.got._1 * b.boot.got._2)
      val t = { ...s, given: s.given.set((p, a), (0, 0)), part: s.part.exclude(Set((p, a))) }.move(p, home(p), dst, n)
      s.prizes.get(p).keys().fold(t, (r, k) => {
        val x = n * s.prizes.get(p).get(k) / all_
        val was = r.paid.get(p)
        { ...r, paid: r.paid.set(p, was.put(k, (if (was.keys().contains(k)) was.get(k) else 0) + x)) }.move(k, BOOT, a, x)
      })
    }
  }
  pure def refund(s: Dex, a: int, ta: int, tb: int): Dex = {
    val p = pairOf(ta, tb)
    val q = s.pairs.get(p)
    val g = s.given.get((p, a))
    if (not(s.failed(if (q.kind == "filling") q else s.past.get(p))) or not(s.part.contains((p, a)))) wrong(s)
    else { ...s, given: s.given.set((p, a), (0, 0)), part: s.part.exclude(Set((p, a))),
      pairs: if (q.kind == "filling") s.pairs.set(p, { ...q, boot: { ...q.boot, got: (q.boot.got._1 - g._1, q.boot.got._2 - g._2) } }) else s.pairs }
      .move(one(p), BOOT, a, g._1).move(two(p), BOOT, a, g._2)
  }
  // every reward token once
  pure def charge(s: Dex, a: int, ta: int, tb: int, l: int -> int): Dex = {
    val p = pairOf(ta, tb)
    if (s.prizes.get(p).keys().size() != l.keys().size() or not(l.keys().subseteq(s.prizes.get(p).keys()))) wrong(s)
    else l.keys().fold(s, (t, k) => { ...t, prizes: t.prizes.set(p, t.prizes.get(p).setBy(k, x => x + l.get(k))) }.move(k, a, BOOT, l.get(k)))
  }
  pure def left(s: Dex, p: int, k: int): int = s.prizes.get(p).get(k) - (if (s.paid.get(p).keys().contains(k)) s.paid.get(p).get(k) else 0)
  pure def takeBack(s: Dex, ta: int, tb: int, dst: int): Dex = {
    val p = pairOf(ta, tb)
    val ks = s.prizes.get(p).keys()
    val t = ks.fold(s, (r, k) => r.move(k, BOOT, dst, s.left(p, k)))
    { ...t, prizes: s.prizes.set(p, ks.mapBy(k => 0)), paid: s.paid.set(p, Map()) }
  }

  pure def apply(s: Dex, o: Op): Dex = {
    val wh = o.what
    val intime = o.till > s.h
    if (wh == "wait") { ...s, h: s.h + o.x }
    else if (wh == "send") s.move(o.a, o.who, o.to, o.x)
    else if (wh == "sell") s.sell(o.who, o.x, o.y, o.path, o.to).need(intime)
    else if (wh == "buy") s.buy(o.who, o.x, o.y, o.path, o.to).need(intime)
    else if (wh == "add") s.add(o.who, o.a, o.b, o.x, o.y, o.lx, o.ly).need(intime)
    else if (wh == "remove") s.remove(o.who, o.a, o.b, o.x, o.lx, o.ly, o.to).need(intime)
    else if (wh == "contribute") s.contribute(o.who, o.a, o.b, o.x, o.y).need(intime)
    else if (wh == "claim") s.claim(o.who, o.a, o.b, o.to).need(intime)
    else if (wh == "open") s.open(o.a, o.b)
    else if (wh == "refund") s.refund(o.who, o.a, o.b)
    else if (wh == "charge") s.charge(o.who, o.a, o.b, o.list)
    else if (not(o.root)) wrong(s)
    else if (wh == "create") s.create(o.a, o.b, o.x)
    else if (wh == "rate") s.setRate(o.a, o.b, o.x)
    else if (wh == "taker") { ...s, taker: o.to }
    else if (wh == "point") { ...s, point: o.x }
    else if (wh == "start") s.start(o, false)
    else if (wh == "amend") s.start(o, true)
    else s.takeBack(o.a, o.b, o.to)
  }
  pure val ASKED = [[1, 2], [2, 1], [2, 3], [3, 1], [1, 2, 3], [3, 2, 1]]
  pure def last_(l: List[int]): int = if (proper(l)) l[l.length() - 1] else 0
  pure def view(s: Dex): View = {
    sells: ASKED.foldl([], (l, p) => l.append(last_(s.sold(p, 1000)))),
    buys: ASKED.foldl([], (l, p) => l.append(last_(s.bought(p, 1000)))),
  }
  action finish(n: Dex, o: Op): bool = all {
    w' = if (n.ok) n else w, prior' = w, op' = { ...o, ok: n.ok }, seen' = if (n.ok) view(n) else seen,
  }
  action doit(o: Op): bool = finish(w.apply(o), o)

  action begin(ps: Set[int], rate: int, x: int, y: int, taker: int, point: int): bool = {
    val s = { ok: true, h: 1, bal: tuples(ALL, ACCOUNTS).mapBy(((t, a)) => if (ASSETS.contains(t) and PEOPLE.contains(a)) 10 ^ 15 else 0),
      pairs: PAIRS.mapBy(p => nopair), shares: Set(), past: PAIRS.mapBy(p => nopair), given: tuples(PAIRS, PEOPLE).mapBy(k => (0, 0)), part: Set(),
      prizes: PAIRS.mapBy(p => Map()), paid: PAIRS.mapBy(p => Map()), needs: PAIRS.mapBy(p => Map()), taker: taker, point: point, last: PAIRS.mapBy(p => 0) }
    val t = ps.fold(s, (r, p) => r.create(one(p), two(p), rate).add(1, one(p), two(p), x, y, 0, 0))
    all { w' = t, prior' = t, op' = { ...none, what: "init", x: x, y: y, list: ps.mapBy(p => rate) }, seen' = view(t) }
  }
  action init = {
    nondet rate = Set(0, 30, 100, 2500).oneOf()
    nondet x = Set(1000, 123456, 10 ^ 6, 10 ^ 12 + 7).oneOf()
    nondet y = Set(1500, 99991, 10 ^ 6, 10 ^ 9).oneOf()
    nondet taker = Set(NONE, 4, TAKER, TAKER).oneOf()
    nondet point = Set(0, 1, 5, 255).oneOf()
    begin(Set(12, 23), rate, x, y, taker, point)
  }
  action initEmpty = {
    nondet taker = Set(NONE, TAKER).oneOf()
    begin(Set(), 30, 0, 0, taker, 5)
  }

  val opened = PAIRS.filter(p => w.pairs.get(p).kind == "open")
  pure val PATHS = [[1, 2], [2, 1], [2, 3], [3, 2], [1, 2, 3], [3, 2, 1], [1, 2, 1], [1, 3, 2, 1], [1, 2, 3, 2], [1, 1], [2], [1, 12], [1, 3], [3, 1], [2, 1, 3], [1, 2, 1, 2]]
  def till(k: int): int = if (k == 0) w.h else if (k == 1) w.h - 1 else w.h + k
  action actSell = {
    nondet a = PEOPLE.oneOf()
    nondet b = PEOPLE.union(Set(TAKER)).oneOf()
    nondet i = 0.to(39).oneOf()
    nondet k = 0.to(11).oneOf()
    nondet m = 0.to(6).oneOf()
    nondet l = 0.to(30).oneOf()
    nondet z = 1.to(400).oneOf()
    val path = PATHS[if (i < 16) i else i % 8]
    val r = w.has(path[0], home(pairOf(path[0], if (path.length() > 1) path[1] else 3)))
    val x = if (k == 0) 0 else if (k == 1) 1 else if (k == 2) w.has(path[0], a) else if (k == 3) w.has(path[0], a) + 1 else if (k == 4) r else if (k < 8) z else r * z / 2000
    val y = last_(w.sold(path, x))
    doit({ ...none, what: "sell", who: a, to: b, x: x, path: path, y: if (m == 0) y + 1 else if (m < 4) y else 0, till: till(l) })
  }
  action actBuy = {
    nondet a = PEOPLE.oneOf()
    nondet b = PEOPLE.union(Set(TAKER)).oneOf()
    nondet i = 0.to(39).oneOf()
    nondet k = 0.to(11).oneOf()
    nondet m = 0.to(6).oneOf()
    nondet l = 0.to(30).oneOf()
    nondet z = 1.to(400).oneOf()
    val path = PATHS[if (i < 16) i else i % 8]
    val n = path.length()
    val r = w.has(path[n - 1], home(pairOf(path[n - 1], if (n > 1) path[n - 2] else 3)))
    val y = if (k == 0) 0 else if (k == 1) 1 else if (k == 2) r else if (k == 3) below(r - 1) else if (k < 8) z else r * z / 800
    val x = last_(w.bought(path, y))
    doit({ ...none, what: "buy", who: a, to: b, x: y, path: path, y: if (m == 0) below(x - 1) else if (m < 4) x else 10 ^ 15, till: till(l) })
  }
  action actAdd = {
    nondet i = 0.to(9).oneOf()
    nondet p = (if (opened == Set() or i == 0) PAIRS else opened).oneOf()
    nondet flip = Set(true, false).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet k = 0.to(9).oneOf()
    nondet z = 1.to(3000).oneOf()
    nondet v = 1.to(3000).oneOf()
    nondet m = 0.to(7).oneOf()
    nondet l = 0.to(30).oneOf()
    val ta = if (flip) two(p) else one(p)
    val tb = if (flip) one(p) else two(p)
    val rx = w.has(ta, home(p))
    val ry = w.has(tb, home(p))
    val x = if (k < 4) z else if (k == 4) w.has(ta, a) + 1 else if (k == 5) 1 else rx * z / 2000
    val y = if (k < 3) v else if (k == 4) w.has(tb, a) else if (k == 5) 10 ^ 6 else ry * v / 2000 + 1
    val d = wanted(x, y, 0, 0, rx, ry)
    doit({ ...none, what: "add", who: a, a: ta, b: tb, x: x, y: y, lx: if (m == 0) d.x + 1 else if (m < 3) d.x else 0, ly: if (m == 1) d.y + 1 else if (m < 4) d.y else 0, till: till(l) })
  }
  action actRemove = {
    nondet i = 0.to(9).oneOf()
    nondet p = (if (opened == Set() or i == 0) PAIRS else opened).oneOf()
    val those = PEOPLE.union(Set(TAKER)).filter(a => w.has(p, a) > 0)
    nondet flip = Set(true, false).oneOf()
    nondet a = (if (those == Set() or i == 1) PEOPLE else those).oneOf()
    nondet b = PEOPLE.oneOf()
    nondet k = 0.to(9).oneOf()
    nondet z = 1.to(3000).oneOf()
    nondet m = 0.to(5).oneOf()
    nondet l = 0.to(30).oneOf()
    val n = w.has(p, a)
    val ta = if (flip) two(p) else one(p)
    val tb = if (flip) one(p) else two(p)
    val x = if (k < 3) n else if (k == 3) n + 1 else if (k == 4) 0 else if (k == 5) 1 else n * z / 3000
    val f = w.fee(p).w.pairs.get(p).supply
    val ex = share(x, f, w.has(ta, home(p)))
    val ey = share(x, f, w.has(tb, home(p)))
    doit({ ...none, what: "remove", who: a, to: b, a: ta, b: tb, x: x, lx: if (m == 0) ex + 1 else if (m < 3) ex else 0, ly: if (m == 1) ey + 1 else if (m < 4) ey else 0, till: till(l) })
  }
  action actSend = {
    nondet a = PEOPLE.oneOf()
    nondet t = ALL.oneOf()
    nondet b = PEOPLE.union(PAIRS.map(p => home(p))).oneOf()
    nondet z = 1.to(1000).oneOf()
    nondet k = 0.to(3).oneOf()
    doit({ ...none, what: "send", who: a, to: b, a: t, x: if (k == 0) w.has(t, a) / 2 else z })
  }
  action actRoot = {
    nondet root = Set(1, 2, 3, 4).oneOf()
    nondet k = 0.to(8).oneOf()
    nondet a = ASSETS.oneOf()
    nondet b = ASSETS.oneOf()
    nondet rate = Set(0, 5, 30, 9999, 10000, 20000).oneOf()
    nondet dst = Set(NONE, 4, TAKER, TAKER).oneOf()
    nondet z = Set(0, 1, 5, 200).oneOf()
    val o = { ...none, root: root > 1, a: a, b: b }
    if (k < 2) doit({ ...o, what: "create", x: rate, b: if (z == 1) 12 else b })
    else if (k < 5) doit({ ...o, what: "rate", x: rate, b: if (a == b) a % 3 + 1 else b })
    else if (k < 8) doit({ ...o, what: "taker", to: dst })
    else doit({ ...o, what: "point", x: z })
  }
  action actWait = {
    nondet k = 1.to(8).oneOf()
    doit({ ...none, what: "wait", x: k })
  }
  action step = any { actSell, actSell, actSell, actBuy, actBuy, actAdd, actAdd, actAdd, actRemove, actRemove, actRemove, actSend, actRoot, actWait }

  // --- before a pool opens
  val filling = PAIRS.filter(p => w.pairs.get(p).kind == "filling")
  val vacant = PAIRS.filter(p => w.pairs.get(p).kind == "nothing" or w.failed(w.pairs.get(p)))
  action actStart = {
    nondet i = 0.to(9).oneOf()
    nondet p = (if (vacant == Set() or i == 0) PAIRS else vacant).oneOf()
    nondet f = (if (filling == Set() or i == 1) PAIRS else filling).oneOf()
    nondet flip = Set(true, false).oneOf()
    nondet x = Set(0, 1, 500, 2000, 30000).oneOf()
    nondet y = Set(1, 100, 700, 2000).oneOf()
    nondet m = Set(0, 1, 3, 10, 10).oneOf()
    nondet e = 0.to(20).oneOf()
    nondet rewards = Set([], [1], [3], [1, 2], [3, 1]).oneOf()
    nondet needs = Set(Map(), Map(1 -> 10 ^ 15 - 500), Map(3 -> 1), Map(2 -> 10 ^ 16)).oneOf()
    nondet k = 0.to(11).oneOf()
    nondet root = 0.to(14).oneOf()
    val q = if (k < 2) f else p
    doit({ ...none, what: if (k < 2) "amend" else "start", a: if (flip) two(q) else one(q), b: if (flip) one(q) else two(q), x: x, y: y, lx: x * m + 10, ly: y * m + 10,
      till: below(w.h + e - 2), path: rewards, list: if (k < 9) Map() else needs, root: root > 0 })
  }
  action actGive = {
    nondet i = 0.to(14).oneOf()
    val those = filling.filter(p => w.h < w.pairs.get(p).boot.end)
    nondet p = (if (those == Set() or i == 0) PAIRS else those).oneOf()
    nondet flip = Set(true, false).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet k = 0.to(13).oneOf()
    nondet z = 0.to(1500).oneOf()
    nondet v = 0.to(1500).oneOf()
    nondet l = 0.to(30).oneOf()
    val b = w.pairs.get(p).boot
    val rx = below(b.target._1 - b.got._1)
    val ry = below(b.target._2 - b.got._2)
    val x = if (k == 0) 0 else if (k < 4) rx else if (k == 4) below(b.most._1 - b.got._1) + 1 else if (k == 5) w.has(one(p), a) + 1 else if (k < 10) rx * z / 1500 + 1 else z
    val y = if (k == 1) 0 else if (k < 4) ry else if (k == 4) below(b.most._2 - b.got._2) + 1 else if (k < 10) ry * v / 1500 + 1 else v
    if (those == Set() and i > 0 and vacant != Set()) actStart else doit({ ...none, what: "contribute", who: a, a: if (flip) two(p) else one(p), b: if (flip) one(p) else two(p), x: if (flip) y else x, y: if (flip) x else y, till: till(l) })
  }
  action actOpen = {
    nondet i = 0.to(5).oneOf()
    val those = filling.filter(p => w.h >= w.pairs.get(p).boot.end)
    nondet p = (if (those == Set() or i == 0) PAIRS else those).oneOf()
    nondet flip = Set(true, false).oneOf()
    if (those == Set() and i > 0) actGive else doit({ ...none, what: "open", a: if (flip) two(p) else one(p), b: if (flip) one(p) else two(p) })
  }
  action actClaim = {
    nondet i = 0.to(9).oneOf()
    val those = w.part.filter(k => w.pairs.get(k._1).kind == "open" or w.failed(w.pairs.get(k._1)))
    nondet k = (if (those == Set() or i == 0) tuples(PAIRS, PEOPLE) else those).oneOf()
    nondet b = PEOPLE.oneOf()
    nondet l = 0.to(20).oneOf()
    nondet flip = Set(true, false).oneOf()
    nondet j = 0.to(3).oneOf()
    val p = k._1
    val back = w.pairs.get(p).kind == "filling" or w.failed(w.past.get(p))
    val o = { ...none, who: k._2, to: b, a: if (flip) two(p) else one(p), b: if (flip) one(p) else two(p), till: till(l) }
    if (those == Set() and i > 0) actGive else doit({ ...o, what: if (back == (j > 0)) "refund" else "claim" })
  }
  action actCharge = {
    nondet i = 0.to(9).oneOf()
    val those = PAIRS.filter(p => w.prizes.get(p) != Map())
    nondet p = (if (those == Set() or i == 0) PAIRS else those).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet b = PEOPLE.oneOf()
    nondet z = Set(0, 7, 1000, 10 ^ 6).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet root = 0.to(9).oneOf()
    val ks = w.prizes.get(p).keys()
    val l = if (k == 0) ks.union(Set(2)).mapBy(t => z) else if (k == 1) ks.exclude(Set(1)).mapBy(t => z) else if (k == 2) ks.mapBy(t => w.has(t, a) + 1) else ks.mapBy(t => z + t)
    if (k < 7) doit({ ...none, what: "charge", who: a, a: one(p), b: two(p), list: l })
    else doit({ ...none, what: "take back", to: b, a: one(p), b: two(p), root: root > 0 })
  }
  action actMake = {
    nondet i = 0.to(6).oneOf()
    val those = PAIRS.filter(p => w.failed(w.pairs.get(p)))
    nondet p = (if (those == Set() or i == 0) PAIRS else those).oneOf()
    if ((those == Set() and i > 0) or i > 3) actGive else doit({ ...none, what: "create", a: one(p), b: two(p), x: 30 })
  }
  action actLeap = {
    val ends = filling.map(p => w.pairs.get(p).boot.end - w.h).filter(n => n > 0)
    nondet k = 1.to(6).oneOf()
    nondet i = 0.to(4).oneOf()
    nondet e = (if (ends == Set()) Set(k) else ends).oneOf()
    doit({ ...none, what: "wait", x: if (i == 0) k else if (i == 1) e + 1 else e })
  }
  action stepBoot = any { actStart, actGive, actGive, actGive, actGive, actGive, actGive, actOpen, actOpen, actClaim, actClaim, actClaim, actClaim, actCharge, actCharge, actMake, actLeap, actLeap, actSell, actAdd, actRemove, actSend }

  // tokens are only moved, and the shares of a pool are what it says
  val kept_ = and {
    ASSETS.forall(t => w.issued(t) == 4 * 10 ^ 15),
    PAIRS.forall(p => w.issued(p) == w.pairs.get(p).supply),
    w.bal.keys().forall(k => w.bal.get(k) >= 0),
  }
  // shares stand for something
  val backed = PAIRS.forall(p => w.pairs.get(p).supply > 0 implies w.has(one(p), home(p)) > 0 and w.has(two(p), home(p)) > 0)
  // no share is ever worth less, but for the protocol's part of what the pool grew by
  val grows = PAIRS.forall(p => {
    val n = w.pairs.get(p).supply
    val m = prior.pairs.get(p).supply
    val now = w.has(one(p), home(p)) * w.has(two(p), home(p))
    val was = prior.has(one(p), home(p)) * prior.has(two(p), home(p))
    val l = root(prior.last.get(p))
    val least_ = if (w.taker != NONE and prior.last.get(p) != 0 and l * l < was and op.ok and (op.what == "add" or op.what == "remove") and pairOf(op.a, op.b) == p) l * l else was
    m == 0 or n == 0 or prior.pairs.get(p).kind != "open" or now * m * m >= least_ * n * n
  })
  // who trades pays what was said at most and gets what was said at least
  val fair = op.ok implies and {
    op.what == "sell" implies w.has(op.path[op.path.length() - 1], op.to) - prior.has(op.path[op.path.length() - 1], op.to) >= op.y - (if (op.path[0] == op.path[op.path.length() - 1] and op.who == op.to) op.x else 0),
    op.what == "buy" implies prior.has(op.path[0], op.who) - w.has(op.path[0], op.who) <= op.y,
    Set("sell", "buy", "add", "remove", "contribute", "claim").contains(op.what) implies op.till > w.h,
  }
  // contributions not in a pool yet and rewards not given yet are there
  val safe = ASSETS.forall(t => w.has(t, BOOT) >= PAIRS.fold(0, (n, p) => {
    val back = w.pairs.get(p).kind == "filling" or w.failed(w.past.get(p))
    val mine = if (not(back)) 0 else PEOPLE.fold(0, (m, a) => m + (if (one(p) == t) w.given.get((p, a))._1 else 0) + (if (two(p) == t) w.given.get((p, a))._2 else 0))
    n + mine + (if (w.prizes.get(p).keys().contains(t)) w.left(p, t) else 0)
  }))
  // what was contributed adds up, within the limits, and everyone's shares are there
  val shared = PAIRS.forall(p => and {
    w.pairs.get(p).kind == "filling" implies and {
      PEOPLE.fold(0, (m, a) => m + w.given.get((p, a))._1) == w.pairs.get(p).boot.got._1,
      PEOPLE.fold(0, (m, a) => m + w.given.get((p, a))._2) == w.pairs.get(p).boot.got._2,
    },
    w.pairs.get(p).kind == "open" and not(w.failed(w.past.get(p))) implies PEOPLE.fold(0, (m, a) => m + w.due(p, a)) <= w.has(p, home(p)),
    prior.prizes.get(p).keys().forall(k => w.prizes.get(p).keys().contains(k) implies w.left(p, k) >= 0),
  })
  val inv = and { kept_, backed, grows, fair, safe, shared }
}
