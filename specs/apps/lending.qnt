// Lending: pools of one currency each, whose lenders hold a token of the pool and whose borrowers are held to the worth
// of what they lend; interest, liquidation, reserves, and the rewards of both sides.
module lending {
  import fixed.* from "../pools/fixed"

  // what is lent; what everything is worth is said in terms of the last
  pure val POOLS = 0.to(2)
  pure val WRAPPED = 2
  // rewards are paid in this one
  pure val NATIVE = 1
  pure val PEOPLE = 1.to(3)
  // where the pool's share of liquidations goes
  pure val SHARE = 9
  pure val HOLDERS = Set(1, 2, 3, 9)
  pure val WEALTH = 10 ^ 15
  pure val MILLION = 10 ^ 6
  pure val YEAR = 31536000
  pure val SCALE = 10 ^ 12
  // the worth of a fresh pool's token, and what it can never reach
  pure val LEAST = 2 * 10 ^ 16
  pure val MOST = 10 ^ 18
  pure val NONE = -1
  pure val HUGE = 2 ^ 128

  // state: -1 none, 0 not open yet, 1 open, 2 suspended. Parts are in millionths, rates have 18 decimals.
  type Terms = { state: int, cf: int, lt: int, rf: int, close: int, irf: int, inc: int, scap: int, bcap: int,
    curve: bool, base: int, jump: int, full: int, ju: int }
  // due and got: what lenders and borrowers should have been given at most, and were
  type Pool = { terms: Terms, last: int, index: int, borrows: int, reserves: int, util: int, brate: int, srate: int, xrate: int,
    cash: int, issued: int, ss: int, bs: int, si: int, sb: int, bi: int, bb: int, dueS: int, gotS: int, dueB: int, gotB: int }
  // free and locked tokens, those locked as collateral, the debt when the index was at, the currency itself, rewards seen
  type Place = { free: int, locked: int, dep: int, debt: int, at: int, bal: int, si: int, bi: int }
  type World = { ok: bool, pools: int -> Pool, places: int -> Place, accrued: int -> int, pot: int }
  type Env = { t: int, b: int, price: int -> int }
  type Op = { what: str, ok: bool, root: bool, who: int, m: int, x: int, c: int, y: int, terms: Terms }
  type Liq = { w: World, v: int }

  var t: int
  var block: int
  var price: int -> int
  var w: World
  var op: Op
  // how the world was before
  var script: List[Op]
  var prior: { w: World }

  pure val noTerms = { state: -1, cf: 0, lt: 0, rf: 0, close: 0, irf: 0, inc: 0, scap: 0, bcap: 0, curve: false, base: 0, jump: 0, full: 0, ju: 0 }
  pure val noPool = { terms: noTerms, last: 0, index: 0, borrows: 0, reserves: 0, util: 0, brate: 0, srate: 0, xrate: 0,
    cash: 0, issued: 0, ss: 0, bs: 0, si: 0, sb: 0, bi: 0, bb: 0, dueS: 0, gotS: 0, dueB: 0, gotB: 0 }
  pure val noPlace = { free: 0, locked: 0, dep: 0, debt: 0, at: 0, bal: 0, si: 0, bi: 0 }
  pure val none = { what: "none", ok: true, root: false, who: 0, m: 0, x: 0, c: 0, y: 0, terms: noTerms }

  pure def spot(m: int, a: int): int = m * 10 + a
  pure def up(a: int, b: int): int = (a + b - 1) / b
  pure def dead(s: World): World = { ...s, ok: false }
  pure def require(s: World, c: bool): World = { ...s, ok: s.ok and c }
  pure def setPool(s: World, m: int, k: Pool): World = { ...s, pools: s.pools.set(m, k) }
  pure def setPlace(s: World, m: int, a: int, q: Place): World = { ...s, places: s.places.set(spot(m, a), q) }
  pure def place(s: World, m: int, a: int): Place = s.places.get(spot(m, a))
  pure def open(s: World, m: int): bool = s.pools.get(m).terms.state == 1

  // interest
  pure def pow(x: int, n: int): int =
    0.to(31).fold({ r: ONE, p: x, e: n }, (s, i) =>
      if (s.e == 0) s else { r: if (s.e % 2 == 1) s.r * s.p / ONE else s.r, p: s.p * s.p / ONE, e: s.e / 2 }).r
  pure def borrowRate(k: Terms, util: int): int =
    if (k.curve) pow(util * SCALE, 9) + k.base
    else if (util <= k.ju) (if (k.ju == 0) NONE else ((k.jump - k.base) * (util * SCALE) / ONE) * ONE / (k.ju * SCALE) + k.base)
    else ((k.full - k.jump) * ((util - k.ju) * SCALE) / ONE) * ONE / ((MILLION - k.ju) * SCALE) + k.jump
  pure def supplyRate(k: Terms, rate: int, util: int): int = (rate * ((MILLION - k.rf) * SCALE) / ONE) * (util * SCALE) / ONE
  pure def usage(k: Pool): int = {
    val total = k.cash + k.borrows - k.reserves
    if (k.borrows == 0) 0 else if (total < 0) NONE else if (total == 0 or k.borrows > total) MILLION else k.borrows * MILLION / total
  }
  // what a token is worth; nothing outside of what it may be
  pure def worth(k: Pool): int =
    if (k.issued == 0) LEAST
    else {
      val total = k.cash + k.borrows - k.reserves
      val r = if (total < 0) NONE else total * ONE / k.issued
      if (r < LEAST or r >= MOST) NONE else r
    }
  pure def accrue(s: World, m: int, e: Env): World = {
    val k = s.pools.get(m)
    if (not(s.ok)) s
    else if (k.last == 0) s.setPool(m, { ...k, last: e.t })
    else if (e.t <= k.last) s
    else if (k.terms.state < 0) dead(s)
    else {
      val util = usage(k)
      val rate = borrowRate(k.terms, util)
      if (util < 0 or rate < 0) dead(s)
      else {
        val index = k.index * pow(ONE + rate / YEAR, e.t - k.last) / ONE
        val borrows = k.borrows * (index * ONE / k.index) / ONE
        val reserves = k.reserves + (borrows - k.borrows) * k.terms.rf / MILLION
        val after = { ...k, last: e.t, index: index, borrows: borrows, reserves: reserves, util: util, brate: rate,
          srate: supplyRate(k.terms, rate, util) }
        val x = worth(after)
        if (x < 0) dead(s) else s.setPool(m, { ...after, xrate: x })
      }
    }
  }
  pure def debt(s: World, m: int, a: int): int = {
    val q = s.place(m, a)
    if (q.debt == 0 or q.at == 0) 0 else up(q.debt * (s.pools.get(m).index * ONE / q.at), ONE)
  }

  // what amounts are worth to each other; with interest up to now
  pure def value(e: Env, m: int, x: int): int =
    if (m == WRAPPED) x
    else {
      val p = e.price.get(m)
      if (p < 0 or x < 0) NONE else if (x == 0) 0 else if (p == 0) NONE else x * ONE / p
    }
  pure def ofValue(e: Env, m: int, x: int): int =
    if (m == WRAPPED) x else if (e.price.get(m) < 0 or x < 0) NONE else x * e.price.get(m) / ONE
  pure def brought(s: World, m: int, e: Env): World = accrue(s.require(s.open(m)), m, e)
  pure def toTokens(s: World, m: int, x: int, e: Env): Liq = {
    val n = s.brought(m, e)
    val r = worth(n.pools.get(m))
    if (not(n.ok) or r < 0 or x < 0) { w: dead(n), v: 0 } else { w: n, v: x * ONE / r }
  }
  pure def toAmount(s: World, m: int, v: int, e: Env): Liq = {
    val n = s.brought(m, e)
    val r = worth(n.pools.get(m))
    if (not(n.ok) or r < 0 or v < 0) { w: dead(n), v: 0 } else { w: n, v: v * r / ONE }
  }
  // what tokens count for as collateral
  pure def counts(s: World, m: int, v: int, part: int, e: Env): Liq = {
    val u = s.toAmount(m, v, e)
    val x = value(e, m, up(u.v * part, MILLION))
    if (not(u.w.ok) or x < 0) { w: dead(u.w), v: 0 } else { w: u.w, v: x }
  }
  pure def collateral(s: World, a: int, threshold: bool, e: Env): Liq =
    POOLS.fold({ w: s, v: 0 }, (n, m) => {
      val d = n.w.place(m, a).dep
      val k = n.w.pools.get(m).terms
      if (not(n.w.ok) or k.state != 1 or d == 0) n
      else { val c = n.w.counts(m, d, if (threshold) k.lt else k.cf, e) { w: c.w, v: n.v + c.v } }
    })
  pure def owed(s: World, a: int, e: Env): int =
    POOLS.fold(0, (n, m) => {
      val d = s.debt(m, a)
      if (n < 0 or s.pools.get(m).terms.state != 1 or d == 0) n
      else { val v = value(e, m, d) if (v < 0) NONE else n + v }
    })

  // rewards
  pure def lendersUp(s: World, m: int, e: Env): World = {
    val k = s.pools.get(m)
    if (not(s.ok) or e.b <= k.sb) s
    else if (k.ss > 0 and k.terms.state < 0) dead(s)
    else s.setPool(m, { ...k, sb: e.b, si: if (k.ss > 0 and k.issued > 0) k.si + (e.b - k.sb) * k.ss * SCALE / k.issued else k.si })
  }
  pure def borrowersUp(s: World, m: int, e: Env): World = {
    val k = s.pools.get(m)
    if (not(s.ok) or e.b <= k.bb) s
    else if (k.bs > 0 and k.index == 0) dead(s)
    else {
      val share = if (k.index == 0) 0 else k.borrows * ONE / k.index
      s.setPool(m, { ...k, bb: e.b, bi: if (k.bs > 0 and share > 0) k.bi + (e.b - k.bb) * k.bs * SCALE / share else k.bi })
    }
  }
  pure def lender(s: World, m: int, a: int): World = {
    val k = s.pools.get(m)
    val q = s.place(m, a)
    val x = (q.free + q.locked) * (k.si - q.si) / SCALE
    if (not(s.ok)) s else if (k.terms.state < 0) dead(s)
    else { ...s.setPlace(m, a, { ...q, si: k.si }).setPool(m, { ...k, gotS: k.gotS + x }), accrued: s.accrued.set(a, s.accrued.get(a) + x) }
  }
  pure def borrower(s: World, m: int, a: int): World = {
    val k = s.pools.get(m)
    val q = s.place(m, a)
    if (not(s.ok)) s else if (k.index == 0) dead(s)
    else {
      val x = (s.debt(m, a) * ONE / k.index) * (k.bi - q.bi) / SCALE
      { ...s.setPlace(m, a, { ...q, bi: k.bi }).setPool(m, { ...k, gotB: k.gotB + x }), accrued: s.accrued.set(a, s.accrued.get(a) + x) }
    }
  }

  // movements
  pure def lock(s: World, m: int, a: int, v: int): World = {
    val q = s.place(m, a)
    if (not(s.ok) or q.free < v or not(s.open(m))) dead(s)
    else s.setPlace(m, a, { ...q, free: q.free - v, locked: q.locked + v, dep: q.dep + v })
  }
  // whoever uses a token as collateral uses all of it
  pure def received(s: World, m: int, a: int, v: int): World =
    if (s.ok and s.place(m, a).dep > 0) s.lock(m, a, v) else s
  pure def give(s: World, m: int, a: int, b: int, v: int, e: Env): World =
    if (not(s.ok) or v == 0 or a == b) s
    else {
      val n = s.lendersUp(m, e).lender(m, a).lender(m, b)
      val q = n.place(m, a)
      if (q.free < v) dead(n)
      else {
        val g = n.setPlace(m, a, { ...q, free: q.free - v })
        val r = g.place(m, b)
        g.setPlace(m, b, { ...r, free: r.free + v }).received(m, b, v)
      }
    }
  pure def payIn(s: World, m: int, a: int, x: int): World = {
    val q = s.place(m, a)
    val k = s.pools.get(m)
    if (not(s.ok) or q.bal < x) dead(s) else s.setPlace(m, a, { ...q, bal: q.bal - x }).setPool(m, { ...k, cash: k.cash + x })
  }
  pure def payOut(s: World, m: int, a: int, x: int): World = {
    val q = s.place(m, a)
    val k = s.pools.get(m)
    if (not(s.ok) or k.cash < x) dead(s) else s.setPlace(m, a, { ...q, bal: q.bal + x }).setPool(m, { ...k, cash: k.cash - x })
  }
  pure def enough(s: World, m: int, x: int): bool = { val k = s.pools.get(m) k.cash - k.reserves >= x and k.cash >= k.reserves }

  // what lenders and borrowers do
  pure def mint(s: World, a: int, m: int, x: int, e: Env): World = {
    val n = s.require(x > 0 and s.pools.get(m).cash + x <= s.pools.get(m).terms.scap).brought(m, e).lendersUp(m, e).lender(m, a)
    val u = n.toTokens(m, x, e)
    val p = u.w.require(u.v > 0).payIn(m, a, x)
    val q = p.place(m, a)
    val k = p.pools.get(m)
    if (not(p.ok)) p
    else p.setPlace(m, a, { ...q, free: q.free + u.v }).setPool(m, { ...k, issued: k.issued + u.v }).received(m, a, u.v)
  }
  pure def unlock(s: World, a: int, m: int, v: int): World = {
    val q = s.place(m, a)
    if (not(s.ok) or q.locked < v or q.dep < v) dead(s) else s.setPlace(m, a, { ...q, free: q.free + v, locked: q.locked - v, dep: q.dep - v })
  }
  pure def withdraw(s: World, a: int, m: int, v: int, e: Env): World = {
    val sum = s.require(s.open(m)).collateral(a, false, e)
    val those = sum.w.counts(m, v, sum.w.pools.get(m).terms.cf, e)
    val d = those.w.owed(a, e)
    those.w.require(d >= 0 and sum.v >= d + those.v).unlock(a, m, v)
  }
  // tokens for an amount
  pure def burn(s: World, a: int, m: int, x: int, v: int, e: Env): World = {
    val n = (if (s.place(m, a).dep > 0) s.withdraw(a, m, v, e) else s).brought(m, e)
    val held = n.place(m, a)
    val u = n.require(v > 0 and held.free + held.locked >= v).toAmount(m, v, e)
    val r = u.w.require(u.w.enough(m, u.v) and held.free >= v).lendersUp(m, e).lender(m, a)
    if (not(r.ok)) r
    else {
      val q = r.place(m, a)
      val k = r.pools.get(m)
      r.setPlace(m, a, { ...q, free: q.free - v }).setPool(m, { ...k, issued: k.issued - v }).payOut(m, a, x)
    }
  }
  pure def redeem(s: World, a: int, m: int, x: int, e: Env): World = {
    val u = s.require(x > 0).toTokens(m, x, e)
    if (u.w.ok) u.w.burn(a, m, x, u.v, e) else u.w
  }
  pure def redeemAll(s: World, a: int, m: int, e: Env): World = {
    val q = s.place(m, a)
    val u = s.toAmount(m, q.free + q.locked, e)
    if (u.w.ok) u.w.burn(a, m, u.v, q.free + q.locked, e) else u.w
  }
  pure def owes(s: World, a: int, m: int, x: int): World = {
    val q = s.place(m, a)
    s.setPlace(m, a, { ...q, debt: x, at: s.pools.get(m).index })
  }
  pure def borrow(s: World, a: int, m: int, x: int, e: Env): World = {
    val n = s.require(x > 0).brought(m, e)
    val k = n.pools.get(m)
    val v = value(e, m, x)
    val c = n.require(k.borrows + x <= k.terms.bcap and n.enough(m, x) and v >= 0).collateral(a, false, e)
    val d = c.w.owed(a, e)
    val r = c.w.require(d >= 0 and c.v >= d + v).borrowersUp(m, e).borrower(m, a)
    if (not(r.ok)) r
    else {
      val p = r.pools.get(m)
      r.owes(a, m, r.debt(m, a) + x).setPool(m, { ...p, borrows: p.borrows + x }).payOut(m, a, x)
    }
  }
  pure def repay(s: World, a: int, m: int, x: int, e: Env): World = {
    val n = s.require(x > 0).brought(m, e)
    val d = n.debt(m, a)
    val r = n.require(x <= d).borrowersUp(m, e).borrower(m, a).payIn(m, a, x)
    if (not(r.ok)) r
    else { val k = r.pools.get(m) r.owes(a, m, d - x).setPool(m, { ...k, borrows: max0(k.borrows - x) }) }
  }
  pure def repayAll(s: World, a: int, m: int, e: Env): World = {
    val n = s.brought(m, e)
    if (n.ok) n.repay(a, m, n.debt(m, a), e) else n
  }
  pure def deposit(s: World, a: int, m: int): World = {
    val q = s.place(m, a)
    s.require(s.pools.get(m).terms.state >= 0 and q.free > 0 and q.locked == 0).lock(m, a, q.free)
  }
  pure def withdrawAll(s: World, a: int, m: int, e: Env): World = {
    val d = s.place(m, a).dep
    s.require(s.pools.get(m).terms.state >= 0 and d > 0).withdraw(a, m, d, e)
  }
  // by repays x of m for a, and takes tokens of c for it
  pure def liquidate(s: World, by: int, a: int, m: int, x: int, c: int, e: Env): World = {
    val n = s.accrue(m, e).accrue(c, e).require(x > 0 and by != a)
    val k = n.pools.get(m).terms
    val thr = n.require(n.open(m) and n.open(c)).collateral(a, true, e)
    val sum = thr.w.owed(a, e)
    val mine = value(e, m, thr.w.debt(m, a))
    val v = value(e, m, x)
    val dep = thr.w.place(c, a).dep
    val held = thr.w.require(sum > thr.v and mine >= 0 and v >= 0 and up(mine * k.close, MILLION) >= v and dep > 0).toAmount(c, dep, e)
    val has = value(e, c, held.v)
    val cost = v * k.inc / ONE
    val seized = ofValue(e, c, cost)
    val r = held.w.require(has >= cost and seized >= 0).borrowersUp(m, e).borrower(m, a)
    val d = r.debt(m, a)
    val paid = r.payIn(m, by, x).require(d >= x)
    if (not(paid.ok)) dead(paid)
    else {
      val p = paid.pools.get(m)
      val owing = paid.owes(a, m, d - x).setPool(m, { ...p, borrows: max0(p.borrows - x) })
        .lendersUp(c, e).lender(c, by).lender(c, a).lender(c, SHARE)
      val u = owing.toTokens(c, seized, e)
      val freed = u.w.unlock(a, c, u.v).require(k.inc > 0)
      if (not(freed.ok)) freed
      else {
        val share = (u.v * ONE / k.inc) * k.irf / MILLION
        freed.require(share <= u.v).give(c, a, by, u.v - share, e).give(c, a, SHARE, share, e)
      }
    }
  }

  // what the authority does
  pure def reserve(s: World, a: int, m: int, x: int, e: Env): World = {
    val n = s.brought(m, e).require(x > 0).payIn(m, a, x)
    val k = n.pools.get(m)
    n.setPool(m, { ...k, reserves: k.reserves + x })
  }
  pure def unreserve(s: World, a: int, m: int, x: int, e: Env): World = {
    val n = s.brought(m, e)
    val k = n.pools.get(m)
    n.require(x > 0 and x <= k.reserves).setPool(m, { ...k, reserves: k.reserves - x }).payOut(m, a, x)
  }
  pure def unshare(s: World, a: int, m: int, x: int, e: Env): World = {
    val n = s.require(x > 0).brought(m, e)
    val u = n.toTokens(m, x, e)
    val r = if (u.w.ok) u.w.burn(SHARE, m, x, u.v, e) else u.w
    val q = r.place(m, SHARE)
    val p = r.place(m, a)
    if (not(r.ok)) r else r.setPlace(m, SHARE, { ...q, bal: q.bal - x }).setPlace(m, a, { ...p, bal: p.bal + x })
  }
  pure def sound(k: Terms): bool = k.cf < MILLION and k.lt < MILLION and k.lt >= k.cf and k.rf > 0 and k.rf < MILLION and k.irf < MILLION and k.scap > 0
  pure def modelled(k: Terms): bool =
    if (k.curve) k.base <= ONE / 10
    else k.base <= ONE / 10 and k.jump <= ONE and k.full <= 5 * ONE and k.base <= k.jump and k.jump <= k.full and k.ju > 0
  pure def add(s: World, m: int, k: Terms): World = {
    val p = s.pools.get(m)
    s.require(p.terms.state < 0 and k.state == 0 and modelled(k) and sound(k)).setPool(m, { ...p, terms: k, xrate: LEAST, index: ONE })
  }
  pure def activate(s: World, m: int): World = {
    val p = s.pools.get(m)
    s.require(p.terms.state >= 0 and p.terms.state != 1).setPool(m, { ...p, terms: { ...p.terms, state: 1 } })
  }
  pure def retune(s: World, m: int, k: Terms): World = {
    val p = s.pools.get(m)
    val n = { ...k, state: p.terms.state, curve: p.terms.curve, base: p.terms.base, jump: p.terms.jump, full: p.terms.full, ju: p.terms.ju }
    s.require(p.terms.state >= 0 and sound(k)).setPool(m, { ...p, terms: n })
  }
  pure def remodel(s: World, m: int, k: Terms): World = {
    val p = s.pools.get(m)
    s.require(p.terms.state >= 0 and modelled(k)).setPool(m, { ...p, terms: { ...p.terms, curve: k.curve, base: k.base, jump: k.jump, full: k.full, ju: k.ju } })
  }
  pure def force(s: World, m: int, k: Terms): World = {
    val p = s.pools.get(m)
    s.require(p.terms.state >= 0 and modelled(k)).setPool(m, { ...p, terms: k })
  }
  pure def speeds(s: World, m: int, x: int, y: int, e: Env): World = {
    val k = s.pools.get(m)
    val n = if (x != k.ss) s.require(s.open(m)).lendersUp(m, e) else s.require(s.open(m))
    val g = n.setPool(m, { ...n.pools.get(m), ss: x })
    val r = if (y != k.bs) g.borrowersUp(m, e) else g
    r.setPool(m, { ...r.pools.get(m), bs: y })
  }
  pure def fund(s: World, a: int, x: int): World = {
    val q = s.place(NATIVE, a)
    { ...s.require(x > 0 and q.bal >= x).setPlace(NATIVE, a, { ...q, bal: q.bal - x }), pot: s.pot + x }
  }
  pure def collect(s: World, a: int, m: int, e: Env): World = s.lendersUp(m, e).lender(m, a).borrowersUp(m, e).borrower(m, a)
  pure def paid(s: World, a: int): World = {
    val x = s.accrued.get(a)
    val q = s.place(NATIVE, a)
    if (x == 0) s
    else { ...s.require(s.pot >= x).setPlace(NATIVE, a, { ...q, bal: q.bal + x }), pot: s.pot - x, accrued: s.accrued.set(a, 0) }
  }
  pure def claim(s: World, a: int, e: Env): World =
    POOLS.fold(s, (n, m) => if (n.ok and n.pools.get(m).terms.state >= 0) n.collect(a, m, e) else n).paid(a)

  pure def apply(s: World, o: Op, e: Env): World = {
    val root = s.require(o.root)
    val wh = o.what
    if (wh == "mint") s.mint(o.who, o.m, o.x, e)
    else if (wh == "redeem") s.redeem(o.who, o.m, o.x, e)
    else if (wh == "redeem all") s.redeemAll(o.who, o.m, e)
    else if (wh == "borrow") s.borrow(o.who, o.m, o.x, e)
    else if (wh == "repay") s.repay(o.who, o.m, o.x, e)
    else if (wh == "repay all") s.repayAll(o.who, o.m, e)
    else if (wh == "deposit") s.deposit(o.who, o.m)
    else if (wh == "withdraw") s.withdrawAll(o.who, o.m, e)
    else if (wh == "liquidate") s.liquidate(o.who, o.y, o.m, o.x, o.c, e)
    else if (wh == "give") s.give(o.m, o.who, o.y, o.x, e)
    else if (wh == "donate") s.payIn(o.m, o.who, o.x)
    else if (wh == "reserve") root.reserve(o.who, o.m, o.x, e)
    else if (wh == "unreserve") root.unreserve(o.who, o.m, o.x, e)
    else if (wh == "unshare") root.unshare(o.who, o.m, o.x, e)
    else if (wh == "add") root.add(o.m, o.terms)
    else if (wh == "activate") root.activate(o.m)
    else if (wh == "retune") root.retune(o.m, o.terms)
    else if (wh == "remodel") root.remodel(o.m, o.terms)
    else if (wh == "force") root.force(o.m, o.terms)
    else if (wh == "speeds") root.speeds(o.m, o.x, o.y, e)
    else if (wh == "fund") s.fund(o.who, o.x)
    else if (wh == "claim") s.claim(o.who, e)
    else s.collect(o.who, o.m, e).paid(o.who)
  }

  val env = { t: t, b: block, price: price }
  action doit(o: Op): bool = {
    val n = if (o.what == "give" and (o.x == 0 or o.who == o.y)) w else apply(w, o, env)
    all {
      t' = t, block' = block, price' = price, script' = [],
      w' = if (n.ok) n else w,
      prior' = { w: w },
      op' = { ...o, ok: n.ok },
    }
  }

  pure def termsBy(i: int, j: int): Terms =
    if (i == 0) { state: 0, cf: 500000, lt: 550000, rf: 150000, close: 500000, irf: 30000, inc: 11 * ONE / 10, scap: 10 ^ 17, bcap: 10 ^ 17,
      curve: false, base: ONE / 50, jump: ONE / 10, full: 32 * ONE / 100, ju: 800000 }
    else if (i == 1) { state: 0, cf: 800000, lt: 850001, rf: 1, close: 1000000, irf: 999999, inc: ONE, scap: 10 ^ 15, bcap: 4 * 10 ^ 14,
      curve: false, base: 0, jump: ONE / 3, full: 5 * ONE, ju: 333333 }
    else if (i == 2) { state: 0, cf: 650000, lt: 650000, rf: 999999, close: 333333, irf: 0, inc: ONE + 123456789, scap: 10 ^ 16, bcap: 10 ^ 15,
      curve: true, base: ONE / 10, jump: 0, full: 0, ju: 0 }
    else if (i == 3) { state: 0, cf: 0, lt: 999999, rf: 200000, close: 900000, irf: 500000, inc: 3 * ONE / 2, scap: 10 ^ 17, bcap: 10 ^ 17,
      curve: false, base: ONE / 10, jump: ONE / 10, full: ONE / 10, ju: 1000000 }
    else { state: j, cf: 700000, lt: 750000, rf: 300000, close: 750000, irf: 250000, inc: 105 * ONE / 100, scap: 10 ^ 17, bcap: 10 ^ 17,
      curve: false, base: 0, jump: ONE, full: 5 * ONE, ju: 1 + j }
  // what should not pass
  pure def unsound(k: Terms, i: int): Terms =
    if (i == 0) { ...k, cf: MILLION, lt: MILLION } else if (i == 1) { ...k, lt: MILLION } else if (i == 2) { ...k, cf: k.lt + 1 } else if (i == 3) { ...k, rf: 0 }
    else if (i == 4) { ...k, rf: MILLION } else if (i == 5) { ...k, irf: MILLION } else if (i == 6) { ...k, scap: 0 } else if (i == 7) { ...k, base: ONE / 10 + 1, jump: ONE, full: ONE }
    else if (i == 8) { ...k, jump: ONE + 1, full: 5 * ONE } else if (i == 9) { ...k, full: 5 * ONE + 1 } else if (i == 10) { ...k, base: 2, jump: 1 }
    else if (i == 11) { ...k, jump: ONE / 2, full: ONE / 2 - 1 } else if (i == 12) { ...k, ju: 0 } else k

  action init = {
    nondet i = 0.to(4).oneOf()
    nondet j = 0.to(4).oneOf()
    nondet k = Set(0, 1, 2, 3, 4, -1).oneOf()
    nondet p = Set(ONE, 3 * 10 ^ 18, 5 * 10 ^ 22, 7 * 10 ^ 17).oneOf()
    nondet q = Set(ONE, 10 ^ 18 + 3, 2 * 10 ^ 21, NONE).oneOf()
    nondet warm = 0.to(3).oneOf()
    nondet rewards = 0.to(2).oneOf()
    val adds = [(0, i), (1, j), (2, k)].select(x => x._2 >= 0)
      .foldl([], (l, x) => l.append({ ...none, root: true, what: "add", m: x._1, terms: termsBy(x._2, 0) }).append({ ...none, root: true, what: "activate", m: x._1 }))
    val speed = if (rewards == 0) [] else [{ ...none, root: true, what: "speeds", m: 0, x: 10 ^ 9, y: 7 }, { ...none, root: true, what: "speeds", m: 1, x: 333, y: 10 ^ 9 },
      { ...none, what: "fund", who: 3, x: 10 ^ 14 }]
    val stock = if (warm == 0) []
      else [{ ...none, what: "mint", who: 1, m: 0, x: 10 ^ 14 }, { ...none, what: "mint", who: 2, m: 1, x: 123456789012 }, { ...none, what: "deposit", who: 1, m: 0 },
        { ...none, what: "mint", who: 3, m: if (k < 0) 1 else 2, x: 10 ^ 13 + 1 }]
    val both = if (warm < 2) [] else [{ ...none, what: "deposit", who: 2, m: 1 }, { ...none, what: "deposit", who: 3, m: if (k < 0) 1 else 2 }]
    val all4 = adds.concat(speed).concat(stock).concat(both)
    val start = { ok: true, pools: POOLS.mapBy(m => noPool), places: tuples(POOLS, HOLDERS).map(x => spot(x._1, x._2)).mapBy(x => { ...noPlace, bal: if (x % 10 == 9) 0 else WEALTH }),
      accrued: HOLDERS.mapBy(a => 0), pot: 0 }
    val e = { t: 6, b: 1, price: Map(0 -> p, 1 -> q) }
    val done = all4.foldl(start, (s, o) => { val n = apply(s, o, e) if (n.ok) n else s })
    all { t' = 6, block' = 1, price' = Map(0 -> p, 1 -> q), w' = done, prior' = { w: done }, script' = all4, op' = { ...none, what: "init" } }
  }

  pure def amount(k: int, r: int, x: int): int =
    if (k == 0) 0 else if (k == 1) 1 else if (k == 2) r else if (k == 3) max0(x) else if (k == 4) max0(x + 1) else if (k == 5) max0(x - 1)
    else if (k == 6) max0(x) / 2 else if (k < 10) max0(x) * r / 1000 else r * 10 ^ 12
  action actMint = {
    nondet a = PEOPLE.oneOf()
    nondet m = POOLS.oneOf()
    nondet k = 0.to(14).oneOf()
    nondet r = 1.to(1000).oneOf()
    val p = w.pools.get(m)
    val room = p.terms.scap - p.cash
    doit({ ...none, what: "mint", who: a, m: m, x: amount(k, r, if (room < w.place(m, a).bal) room else w.place(m, a).bal) })
  }
  action actRedeem = {
    nondet i = (w.places.keys().filter(i => w.places.get(i).free + w.places.get(i).locked > 0)).oneOf()
    nondet k = Set(0, 1, 2, 3, 3, 4, 6, 7, 8, 9).oneOf()
    nondet r = 1.to(1000).oneOf()
    val m = i / 10
    val q = w.places.get(i)
    val rate = w.pools.get(m).xrate
    doit({ ...none, what: "redeem", who: if (i % 10 == 9) 1 else i % 10, m: m, x: amount(k, r, (q.free + q.locked) * rate / ONE) })
  }
  action actRedeemAll = {
    nondet a = PEOPLE.oneOf()
    nondet m = POOLS.oneOf()
    doit({ ...none, what: "redeem all", who: a, m: m })
  }
  action actBorrow = {
    nondet i = (PEOPLE.filter(a => POOLS.exists(m => w.place(m, a).dep > 0))).oneOf()
    nondet m = POOLS.oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(1000).oneOf()
    nondet cash = 0.to(3).oneOf()
    val c = w.collateral(i, false, env)
    val d = c.w.owed(i, env)
    val p = w.pools.get(m)
    val limit = if (c.w.ok and d >= 0) ofValue(env, m, c.v - d) else 0
    doit({ ...none, what: "borrow", who: i, m: m, x: amount(k, r, if (cash == 0 or p.cash - p.reserves < limit) p.cash - p.reserves else limit) })
  }
  action actRepay = {
    nondet i = (w.places.keys().filter(i => w.places.get(i).debt > 0)).oneOf()
    nondet all1 = 0.to(2).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(1000).oneOf()
    val n = w.accrue(i / 10, env)
    doit({ ...none, what: if (all1 == 0) "repay all" else "repay", who: i % 10, m: i / 10, x: if (all1 == 0) 0 else amount(k, r, n.debt(i / 10, i % 10)) })
  }
  action actDeposit = {
    nondet any1 = 0.to(4).oneOf()
    nondet i = w.places.keys().filter(i => i % 10 != SHARE and (any1 == 0 or w.places.get(i).free > 0)).oneOf()
    doit({ ...none, what: "deposit", who: i % 10, m: i / 10 })
  }
  action actWithdraw = {
    nondet any1 = 0.to(4).oneOf()
    nondet i = w.places.keys().filter(i => i % 10 != SHARE and (any1 == 0 or w.places.get(i).dep > 0)).oneOf()
    doit({ ...none, what: "withdraw", who: i % 10, m: i / 10 })
  }
  // a price moves until somebody is under
  action actCrash = {
    nondet i = (w.places.keys().filter(i => w.places.get(i).debt > 0)).oneOf()
    nondet j = (POOLS.filter(m => w.place(m, i % 10).dep > 0)).oneOf()
    nondet k = 101.to(130).oneOf()
    val e = env
    val c = w.collateral(i % 10, true, e)
    val d = c.w.owed(i % 10, e)
    // so much dearer has the debt to be, or cheaper the collateral
    val p = if (d <= 0 or c.v == 0) 1000000 else c.v * 1000000 / d
    val m = if (j != WRAPPED) j else i / 10
    val now = if (m == WRAPPED) NONE else price.get(m)
    val n = if (p > 10000000 or now < 0) now else if (j != WRAPPED) now * p / 1000000 * k / 100 else now * 1000000 / (p + 1) * 100 / k
    all {
      m != WRAPPED,
      t' = t, block' = block, script' = [], w' = w, prior' = { w: w }, price' = price.set(m, if (n == 0) 1 else n), op' = { ...none, what: "price", m: m, x: if (n == 0) 1 else n },
    }
  }
  action actLiquidate = {
    nondet any1 = 0.to(4).oneOf()
    nondet i = (w.places.keys().filter(i => w.places.get(i).debt > 0 and (any1 == 0 or {
      val c = w.collateral(i % 10, true, env)
      c.w.owed(i % 10, env) > c.v
    }))).oneOf()
    nondet j = (POOLS.filter(m => w.place(m, i % 10).dep > 0)).oneOf()
    nondet by = PEOPLE.oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(1000).oneOf()
    nondet other = 0.to(9).oneOf()
    val m = i / 10
    val n = w.accrue(m, env)
    val most = up(n.debt(m, i % 10) * w.pools.get(m).terms.close, MILLION)
    // as much as there is to seize
    val kept = value(env, j, w.place(j, i % 10).dep * w.pools.get(j).xrate / ONE)
    val inc = w.pools.get(m).terms.inc
    val cap = if (kept < 0 or inc == 0) most else ofValue(env, m, kept * ONE / inc)
    doit({ ...none, what: "liquidate", who: if (by == i % 10 and other > 0) by % 3 + 1 else by, y: i % 10, m: m, c: j,
      x: amount(k, r, if (cap < most and other > 3) cap else most) })
  }
  action actGive = {
    nondet a = PEOPLE.oneOf()
    nondet b = HOLDERS.oneOf()
    nondet m = POOLS.oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(1000).oneOf()
    doit({ ...none, what: "give", who: a, y: b, m: m, x: amount(k, r, w.place(m, a).free) })
  }
  action actDonate = {
    nondet a = PEOPLE.oneOf()
    nondet m = POOLS.oneOf()
    nondet k = Set(0, 1, 2, 10).oneOf()
    nondet r = 1.to(1000).oneOf()
    doit({ ...none, what: "donate", who: a, m: m, x: amount(k, r, 0) })
  }
  action actReserves = {
    nondet root = 0.to(9).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet j = 0.to(3).oneOf()
    nondet any1 = 0.to(3).oneOf()
    nondet m = POOLS.filter(m => any1 == 0 or j == 0 or (if (j < 3) w.pools.get(m).reserves else w.place(m, SHARE).free) > 0).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(1000).oneOf()
    val n = w.accrue(m, env)
    val held = w.place(m, SHARE).free * w.pools.get(m).xrate / ONE
    doit({ ...none, root: root > 0, what: if (j == 0) "reserve" else if (j < 3) "unreserve" else "unshare", who: a, m: m,
      x: if (j == 0) amount(if (k < 3) k else 10, r, 0) else if (j < 3) amount(k, r, n.pools.get(m).reserves) else amount(k, r, held) })
  }
  action actTerms = {
    nondet root = 0.to(9).oneOf()
    nondet m = POOLS.oneOf()
    nondet i = 0.to(4).oneOf()
    nondet bad = 0.to(30).oneOf()
    nondet st = Set(0, 1, 1, 1, 2).oneOf()
    nondet j = 0.to(5).oneOf()
    val k = unsound(termsBy(i, 0), bad)
    doit({ ...none, root: root > 0, m: m, what: if (w.pools.get(m).terms.state < 0) "add" else if (w.pools.get(m).terms.state != 1) "activate"
        else if (j == 0) "add" else if (j == 1) "activate" else if (j == 2) "remodel" else if (j == 3 and sound(k)) "force" else "retune",
      terms: if (j == 3 and sound(k) and w.pools.get(m).terms.state == 1) { ...k, state: st } else if (w.pools.get(m).terms.state < 0 and st == 2) { ...k, state: 1 } else k })
  }
  action actSpeeds = {
    nondet root = 0.to(9).oneOf()
    nondet m = POOLS.oneOf()
    nondet x = Set(0, 1, 77, 10 ^ 9, 10 ^ 10, -1).oneOf()
    nondet y = Set(0, 1, 55, 10 ^ 9, 10 ^ 10, -1).oneOf()
    val k = w.pools.get(m)
    doit({ ...none, root: root > 0, what: "speeds", m: m, x: if (x < 0) k.ss else x, y: if (y < 0) k.bs else y })
  }
  action actFund = {
    nondet a = PEOPLE.oneOf()
    nondet k = 0.to(12).oneOf()
    nondet r = 1.to(1000).oneOf()
    doit({ ...none, what: "fund", who: a, x: amount(if (k > 2) 10 else k, r, 0) })
  }
  action actClaim = {
    nondet a = PEOPLE.oneOf()
    nondet m = POOLS.oneOf()
    nondet k = 0.to(1).oneOf()
    doit({ ...none, what: if (k == 0) "claim" else "claim for", who: a, m: m })
  }
  action actPrice = {
    nondet m = Set(0, 1).oneOf()
    nondet k = 0.to(11).oneOf()
    val p = price.get(m)
    // the more a unit of the wrapped currency costs, the less the other is worth
    val n = if (k == 0) NONE else if (p < 0) ONE else if (k < 3) p * 11 / 10 else if (k < 5) p * 3 / 2 else if (k < 7) p * 9 / 10 else if (k < 9) p * 2 / 3 else if (k == 9) p + 1 else if (k == 10) p * 101 / 100 else p * 3
    all { t' = t, block' = block, script' = [], w' = w, prior' = { w: w }, price' = price.set(m, if (n == 0) 1 else n), op' = { ...none, what: "price", m: m, x: if (n == 0) 1 else n } }
  }
  action actTime = {
    nondet s = Set(0, 1, 6, 12, 600, 86400, 2592000, 31536000).oneOf()
    nondet n = Set(0, 1, 1, 2, 10, 1000).oneOf()
    all {
      t' = t + s, block' = block + n, price' = price, script' = [], prior' = { w: w },
      w' = { ...w, pools: POOLS.mapBy(m => { val k = w.pools.get(m) { ...k, dueS: k.dueS + n * k.ss, dueB: k.dueB + n * k.bs } }) },
      op' = { ...none, what: "time", x: t + s, y: block + n },
    }
  }
  action step = any { actMint, actMint, actRedeem, actRedeem, actRedeemAll, actBorrow, actBorrow, actBorrow, actRepay, actRepay, actDeposit, actDeposit, actWithdraw,
    actCrash, actLiquidate, actLiquidate, actGive, actDonate, actReserves, actTerms, actSpeeds, actClaim, actPrice, actTime, actTime, actTime }
  // debts that go bad
  action stepCrisis = any { actMint, actDeposit, actBorrow, actBorrow, actBorrow, actBorrow, actPrice, actCrash, actCrash, actCrash, actLiquidate, actLiquidate, actLiquidate, actLiquidate,
    actTime, actRepay, actWithdraw, actClaim, actReserves, actRedeem, actTime }
  action stepRewards = any { actMint, actRedeem, actBorrow, actBorrow, actRepay, actDeposit, actGive, actGive, actSpeeds, actSpeeds, actClaim, actClaim, actClaim, actFund, actTime, actTime, actTime,
    actLiquidate, actCrash, actPrice, actTerms }
  // small amounts, where roundings show
  action stepDust = any { actMint, actRedeem, actRedeem, actRedeem, actRedeemAll, actBorrow, actRepay, actRepay, actDonate, actTime, actTime, actReserves, actDeposit }

  // nobody owes less than the pool counts on; what is issued is held; what is deposited is locked
  val backed = POOLS.forall(m => {
    val k = w.pools.get(m)
    and {
      k.borrows <= HOLDERS.fold(0, (s, a) => s + w.debt(m, a)),
      k.issued == HOLDERS.fold(0, (s, a) => s + w.place(m, a).free + w.place(m, a).locked),
      HOLDERS.forall(a => { val q = w.place(m, a) q.locked == q.dep and q.free >= 0 and q.locked >= 0 and q.bal >= 0 and (q.dep == 0 or q.free == 0) }),
      k.cash >= 0, k.reserves >= 0, k.terms.state < 0 or k.index >= ONE,
    }
  })
  // a token never loses worth, but for one unit that is rounded
  val kept = POOLS.forall(m => {
    val k = w.pools.get(m)
    val p = prior.w.pools.get(m)
    val total = k.cash + k.borrows - k.reserves
    val before = p.cash + p.borrows - p.reserves
    p.issued == 0 or k.issued == 0 or (total + 1) * p.issued >= before * k.issued
  })
  // tokens are worth what they may be worth
  val alive = POOLS.forall(m => {
    val k = w.pools.get(m)
    k.issued == 0 or (k.cash + k.borrows - k.reserves) * ONE >= LEAST * k.issued
  })
  // whoever takes something away leaves enough behind, but for what is rounded
  val covered = (op.ok and Set("borrow", "withdraw", "redeem", "redeem all").contains(op.what)) implies {
    val c = w.collateral(op.who, false, env)
    or {
      op.what != "borrow" and prior.w.place(op.m, op.who).dep == 0,
      c.w.ok and c.v + 3 >= c.w.owed(op.who, env),
    }
  }
  // rewards are not more than was promised; what lenders get exactly so
  val promised = POOLS.forall(m => w.pools.get(m).gotS <= w.pools.get(m).dueS)
  val inv = and { backed, kept, covered, promised }
}
