// The price oracle: reports by authorized reporters, medians of the fresh ones, expiry, conversions at the price.
module oracle {
  import fixed.* from "../pools/fixed"

  // what is priced: two currencies (in units of collateral per unit of wrapped), and the Bitcoin fee
  pure val THINGS = 0.to(2)
  pure val RATES = 0.to(1)
  pure val WRAPPED = 2
  pure val REPORTERS = 1.to(5)
  pure val MOST = 2 ^ 128 - 1
  pure val NONE = -1

  type Report = { at: int, value: int }
  // told: the rates whose users were told of a change
  type Op = { what: str, ok: bool, who: int, those: List[(int, int)], x: int, y: int, amount: int, out: int, changed: Set[int] }

  var clock: int
  var delay: int
  var trusted: Set[int]
  // the latest of every reporter, on anything
  var reports: (int, int) -> Report
  // what was reported on since it was last looked at
  var fresh: Set[int]
  var price: int -> int
  // when the oldest report in the price runs out
  var until: int -> int
  var op: Op

  pure val none = { what: "none", ok: true, who: 0, those: [], x: 0, y: 0, amount: 0, out: 0, changed: Set() }

  // in order, with repetitions
  pure def insert(l: List[int], x: int): List[int] = l.select(y => y <= x).append(x).concat(l.select(y => y > x))
  pure def median(l: List[int]): int = {
    pure val n = l.length()
    if (n % 2 == 1) l[n / 2] else (l[n / 2 - 1] + l[n / 2]) / 2
  }
  pure def usable(rs: (int, int) -> Report, k: int, t: int, d: int): Set[(int, int)] =
    rs.keys().filter(i => i._1 == k and rs.get(i).at + d >= t)
  pure def valuesOf(rs: (int, int) -> Report, those: Set[(int, int)]): List[int] =
    REPORTERS.fold([], (l, a) => those.filter(i => i._2 == a).fold(l, (m, i) => insert(m, rs.get(i).value)))
  pure def priceOf(rs: (int, int) -> Report, k: int, t: int, d: int): int = {
    pure val those = usable(rs, k, t, d)
    if (those == Set()) NONE else median(valuesOf(rs, those))
  }
  pure def endOf(rs: (int, int) -> Report, k: int, t: int, d: int): int =
    usable(rs, k, t, d).fold(-1, (m, i) => { val e = rs.get(i).at + d if (m < 0 or e < m) e else m })

  // amounts at a price round down; nothing is worth nothing, if there is a price
  pure def toCollateral(x: int, p: int): int = if (p < 0 or x < 0 or x * p / ONE > MOST) NONE else x * p / ONE
  pure def toWrapped(x: int, p: int): int = if (p < 0 or x < 0) NONE else if (x == 0) 0 else if (p == 0 or x * ONE / p > MOST) NONE else x * ONE / p
  pure def convert(p: int -> int, x: int, a: int, b: int): int =
    if (a == b) x
    else if (a == WRAPPED) toCollateral(x, p.get(b))
    else if (b == WRAPPED) toWrapped(x, p.get(a))
    else toCollateral(toWrapped(x, p.get(a)), p.get(b))

  action same = all { clock' = clock, delay' = delay, trusted' = trusted, reports' = reports, fresh' = fresh, price' = price, until' = until }

  action init = all {
    nondet d = Set(0, 1, 50, 1000).oneOf()
    nondet who = Set(Set(), Set(1), Set(1, 2, 3), 1.to(4)).oneOf()
    nondet t = Set(0, 100000).oneOf()
    all { delay' = d, trusted' = who, clock' = t, reports' = Map(), fresh' = Set(), price' = THINGS.mapBy(k => NONE), until' = THINGS.mapBy(k => NONE),
      op' = { ...none, what: "init" } },
  }

  action feed(who: int, those: List[(int, int)]): bool = {
    val ok = trusted.contains(who)
    all {
      clock' = clock, delay' = delay, trusted' = trusted, price' = price, until' = until,
      reports' = if (ok) those.foldl(reports, (m, r) => m.put((r._1, who), { at: clock, value: r._2 })) else reports,
      fresh' = if (ok) those.foldl(fresh, (s, r) => s.union(Set(r._1))) else fresh,
      op' = { ...none, what: "feed", ok: ok, who: who, those: those },
    }
  }
  pure def value(k: int, r: int, p: int): int =
    if (k == 0) 0 else if (k == 1) 1 else if (k == 2) MOST else if (k == 3) 2 ^ 127 + r else if (k == 4) ONE else if (k < 8 and p > 0 and p < MOST - r) p + r
    else if (k < 11 and p > r) p - r else r * 10 ^ 17 + r
  action actFeed = {
    nondet stranger = 0.to(9).oneOf()
    nondet who = (if (stranger > 0 and trusted != Set()) trusted else REPORTERS).oneOf()
    nondet k1 = THINGS.oneOf()
    nondet k2 = THINGS.oneOf()
    nondet a = 0.to(13).oneOf()
    nondet b = 0.to(13).oneOf()
    nondet r = 1.to(1000).oneOf()
    nondet n = Set(0, 1, 2).oneOf()
    val v1 = value(a, r, price.get(k1))
    val v2 = value(b, r, price.get(k2))
    feed(who, if (n == 2) [(k1, v1), (k2, v2)] else if (n == 1) [(k1, v1)] else [(0, v1), (0, v2), (1, v2), (2, v1)])
  }
  // several reports on one thing
  action actBusy = {
    nondet who = trusted.oneOf()
    nondet a = 2.to(13).oneOf()
    nondet r = 1.to(1000).oneOf()
    feed(who, [(0, value(a, r, price.get(0)))])
  }
  action actTrust = {
    nondet root = 0.to(9).oneOf()
    nondet who = REPORTERS.oneOf()
    nondet yes = 0.to(2).oneOf()
    all {
      clock' = clock, delay' = delay, reports' = reports, fresh' = fresh, price' = price, until' = until,
      trusted' = if (root == 0) trusted else if (yes > 0) trusted.union(Set(who)) else trusted.exclude(Set(who)),
      op' = { ...none, what: if (yes > 0) "trust" else "distrust", ok: root > 0, who: who, x: root },
    }
  }
  // a block begins: prices with new reports, or with reports that ran out, are made anew
  action actBlock = {
    val due = THINGS.filter(k => fresh.contains(k) or until.get(k) >= 0 and until.get(k) < clock)
    val after = THINGS.mapBy(k => if (due.contains(k)) priceOf(reports, k, clock, delay) else price.get(k))
    all {
      clock' = clock, delay' = delay, trusted' = trusted, reports' = reports,
      fresh' = Set(),
      price' = after,
      until' = THINGS.mapBy(k => if (due.contains(k)) endOf(reports, k, clock, delay) else until.get(k)),
      op' = { ...none, what: "block", changed: RATES.filter(k => after.get(k) != price.get(k)) },
    }
  }
  // later, or when some report runs out
  action actTime = {
    nondet soon = 0.to(2).oneOf()
    nondet i = (if (soon > 0 and reports.keys() != Set()) reports.keys() else Set((0, 0))).oneOf()
    nondet e = Set(0, 1, 2).oneOf()
    nondet r = Set(0, 1, 7, 20, 500, 3000).oneOf()
    val aim = if (i._2 == 0) clock + r else reports.get(i).at + delay + e
    all {
      clock' = if (aim > clock) aim else clock,
      delay' = delay, trusted' = trusted, reports' = reports, fresh' = fresh, price' = price, until' = until,
      op' = { ...none, what: "time", x: if (aim > clock) aim else clock },
    }
  }
  action actConvert = {
    nondet a = 0.to(2).oneOf()
    nondet b = 0.to(2).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(10 ^ 12).oneOf()
    val p = if (a != WRAPPED) price.get(a) else if (b != WRAPPED) price.get(b) else NONE
    val x = if (k == 0) 0 else if (k == 1) 1 else if (k == 2) MOST else if (k == 3) ONE else if (k == 4 and p > 0) p / ONE + 1 else if (k == 5 and p > 0 and MOST * ONE / p < MOST) MOST * ONE / p else if (k == 6 and p > 0) p else r
    val out = convert(price, x, a, b)
    all { same, op' = { ...none, what: "convert", ok: out >= 0, x: a, y: b, amount: x, out: out } }
  }
  action step = any { actFeed, actFeed, actBusy, actBusy, actBlock, actBlock, actBlock, actTime, actConvert, actTrust }

  // what the price is, said without computing it: as many fresh reports on either side, by of who were trusted
  val right = THINGS.forall(k => op.what != "block" or {
    val those = usable(reports, k, clock, delay)
    if (those == Set()) price.get(k) == NONE
    else {
      val p = price.get(k)
      val lower = those.filter(i => reports.get(i).value <= p).size()
      val upper = those.filter(i => reports.get(i).value >= p).size()
      // the mean of the two in the middle may round down to below both
      and { p >= 0, 2 * lower >= those.size() or 2 * those.filter(i => reports.get(i).value <= p + 1).size() >= those.size(), 2 * upper >= those.size() }
    }
  })
  // no price outlives a report in it by more than the block in which that ran out
  val alive = op.what != "block" or THINGS.forall(k => price.get(k) == NONE or until.get(k) >= clock)
  val inv = right and alive and THINGS.forall(k => (price.get(k) == NONE) == (until.get(k) == NONE))
}
