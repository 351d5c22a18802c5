// Stake to vote: tokens locked for a time give voting power that decays to nothing at the end of it, and a share of what the
// chain emits: yearly inflation, an annuity that pays it out block by block, and the pool it is paid into.
module escrow {
  import fixed.* from "../pools/fixed"
  import rewardcore.* from "../pools/rewardcore"

  pure val SPAN = 10
  pure val MOST = 100
  pure val EMISSION = 40
  pure val YEAR = 60
  pure val PEOPLE = 1.to(4)
  pure val ANNUITY = 8
  pure val SUPPLY = 9
  pure val HOLDERS = PEOPLE.union(Set(ANNUITY, SUPPLY))
  // the part of new tokens the annuity gets
  pure val PART = 375 * 10 ^ 15
  pure val NONE = -1

  type Lock = { amount: int, end: int }
  type Chain = {
    ok: bool, h: int, locks: int -> Lock, bal: int -> int, reserved: int -> int, limits: int -> (int, int), barred: Set[int],
    pool: World, rpb: int, rpw: int, wrapped: int, start: int, inflation: int, last: int,
  }
  type Op = { what: str, ok: bool, who: int, to: int, x: int, y: int, out: int, root: bool }

  var w: Chain
  var prior: Chain
  var op: Op
  // what the pool ever got and gave
  var given: int
  var taken: int
  // what is seen of it: power now and at later heights, of everyone and of all together
  var seen: { power: int -> List[int], total: List[int], free: int -> int, room: int -> int, claims: int -> int, pays: int }
  pure val AHEAD = [0, 1, 10, 37, 60, 99, 100]

  pure val none = { what: "none", ok: true, who: 0, to: 0, x: 0, y: 0, out: 0, root: false }
  pure def wrong(s: Chain): Chain = { ...s, ok: false }
  pure def round(x: int): int = x / SPAN * SPAN

  // --- locks
  pure def power(s: Chain, a: int, at: int): int = {
    pure val k = s.locks.get(a)
    if (k.end <= at) 0 else k.amount / MOST * (k.end - at)
  }
  pure def supply(s: Chain, at: int): int = PEOPLE.fold(0, (n, a) => n + s.power(a, at))
  // what could be locked at all
  pure def lockable(s: Chain, a: int): int = {
    pure val l = s.limits.get(a)
    pure val span = max0(l._2 - l._1)
    pure val per = if (span == 0) 0 else s.bal.get(a) / span
    if (s.barred.contains(a)) 0
    else if (l._1 == NONE) s.bal.get(a)
    else max0(per * span - per * max0(l._2 - s.h))
  }
  pure def stakeOf(s: Chain, a: int): int = whole(s.pool.stake.get((1, a)))
  // the stake in the pool becomes what the power is now
  pure def restake(s: Chain, a: int, x: int): Chain = {
    pure val out = withdraw(s.pool, 1, a, s.stakeOf(a))
    pure val in_ = deposit(out.w, 1, a, x)
    if (s.ok and out.ok and in_.ok) { ...s, pool: in_.w } else wrong(s)
  }
  pure def lock(s: Chain, a: int, x: int, end: int): Chain = {
    pure val k = { amount: s.locks.get(a).amount + x, end: if (end > 0) end else s.locks.get(a).end }
    if (k.amount < MOST or s.lockable(a) < k.amount) wrong(s)
    else {
      pure val n = { ...s, locks: s.locks.set(a, k) }
      n.restake(a, n.power(a, n.h))
    }
  }
  pure def create(s: Chain, a: int, x: int, e: int): Chain = {
    pure val end = round(e)
    if (x == 0 or s.locks.get(a).amount != 0 or end <= s.h or end > s.h + MOST) wrong(s) else s.lock(a, x, end)
  }
  pure def add(s: Chain, a: int, x: int): Chain =
    if (x == 0 or s.locks.get(a).amount == 0 or s.locks.get(a).end <= s.h) wrong(s) else s.lock(a, x, 0)
  pure def extend(s: Chain, a: int, e: int): Chain = {
    pure val end = round(e)
    pure val k = s.locks.get(a)
    if (k.end <= s.h or k.amount == 0 or end <= k.end or end > s.h + MOST) wrong(s) else s.lock(a, 0, end)
  }
  pure def unlock(s: Chain, a: int): Chain =
    if (s.h < s.locks.get(a).end) wrong(s) else { ...s, locks: s.locks.set(a, { amount: 0, end: 0 }) }.restake(a, 0)
  pure def free(s: Chain, a: int): int = max0(s.power(a, s.h) - s.reserved.get(a))
  pure def reserve(s: Chain, a: int, x: int): Chain =
    if (s.free(a) < x) wrong(s) else { ...s, reserved: s.reserved.setBy(a, r => r + x) }
  pure def release(s: Chain, a: int, x: int): Chain = { ...s, reserved: s.reserved.setBy(a, r => max0(r - x)) }
  // --- tokens
  pure def send(s: Chain, a: int, b: int, x: int): Chain =
    if (s.bal.get(a) < x + (if (PEOPLE.contains(a)) s.locks.get(a).amount else 0)) wrong(s)
    else if (a == b) s
    else { ...s, bal: s.bal.setBy(a, y => y - x).setBy(b, y => y + x) }
  // --- what is emitted
  pure def perBlock(s: Chain): int = if (s.rpw == NONE or s.rpb < s.rpw * s.wrapped) s.rpb else s.rpw * s.wrapped
  pure def renew(s: Chain): Chain = { ...s, rpb: s.bal.get(ANNUITY) / EMISSION }
  pure def claim_(s: Chain, a: int): { w: Chain, out: int } = {
    pure val r = collect(s.pool, 1, a, 1)
    pure val n = { ...s, pool: r.w }.send(ANNUITY, a, r.out)
    if (r.ok and n.ok) { w: n, out: r.out } else { w: wrong(s), out: 0 }
  }
  pure def inflate(s: Chain): Chain =
    if (s.start == NONE or s.h != s.start) s
    else {
      pure val x = HOLDERS.fold(0, (n, a) => n + s.bal.get(a)) * s.inflation / ONE
      pure val got = { ...s, start: s.h + YEAR, last: x, bal: s.bal.setBy(SUPPLY, y => y + x) }
      got.send(SUPPLY, ANNUITY, x * PART / ONE).renew()
    }
  pure def block(s: Chain): Chain = {
    pure val n = { ...s, h: s.h + 1 }.inflate()
    pure val d = distribute(n.pool, 1, 1, n.perBlock())
    if (d.ok) { ...n, pool: d.w } else n
  }
  pure def given_(s: Chain): int = {
    pure val n = { ...s, h: s.h + 1 }.inflate()
    if (distribute(n.pool, 1, 1, n.perBlock()).ok) n.perBlock() else 0
  }
  pure def blocks(s: Chain, n: int): { w: Chain, given: int } =
    range(0, n).foldl({ w: s, given: 0 }, (r, i) => { w: r.w.block(), given: r.given + r.w.given_() })

  pure def apply(s: Chain, o: Op): Chain = {
    pure val wh = o.what
    if (wh == "create") s.create(o.who, o.x, o.y)
    else if (wh == "add") s.add(o.who, o.x)
    else if (wh == "extend") s.extend(o.who, o.y)
    else if (wh == "unlock") s.unlock(o.who)
    else if (wh == "refresh") s.lock(o.to, 0, 0)
    else if (wh == "reserve") s.reserve(o.who, o.x)
    else if (wh == "release") s.release(o.who, o.x)
    else if (wh == "send") s.send(o.who, o.to, o.x)
    else if (wh == "wrapped") { ...s, wrapped: o.x }
    else if (not(o.root)) wrong(s)
    else if (wh == "limit") { ...s, limits: s.limits.set(o.who, (o.x, o.y)) }
    else if (wh == "bar") { ...s, barred: s.barred.union(Set(o.who)) }
    else if (wh == "renew") s.renew()
    else if (wh == "per wrapped") { ...s, rpw: o.x }
    else { ...s, start: o.y, inflation: o.x }
  }
  pure def look(s: Chain): { power: int -> List[int], total: List[int], free: int -> int, room: int -> int, claims: int -> int, pays: int } = {
    power: PEOPLE.mapBy(a => AHEAD.foldl([], (l, d) => l.append(s.power(a, s.h + d)))),
    total: AHEAD.foldl([], (l, d) => l.append(s.supply(s.h + d))),
    free: PEOPLE.mapBy(a => s.free(a)),
    room: PEOPLE.mapBy(a => max0(s.lockable(a) - s.locks.get(a).amount)),
    claims: PEOPLE.mapBy(a => claim(s.pool, 1, 1, a)),
    pays: s.perBlock(),
  }
  action finish(n: Chain, o: Op, g: int, t: int): bool = all {
    w' = if (n.ok) n else w, prior' = w, op' = { ...o, ok: n.ok }, given' = given + g, taken' = taken + t,
    seen' = if (n.ok) look(n) else seen,
  }
  action doit(o: Op): bool = finish(w.apply(o), o, 0, 0)

  action init = {
    nondet h = Set(0, 1, 7, 10, 123).oneOf()
    nondet b1 = Set(10 ^ 3, 12345, 10 ^ 6, 10 ^ 13).oneOf()
    nondet b2 = Set(150, 99, 54321, 10 ^ 9 + 7).oneOf()
    nondet an = Set(0, 39, 40, 10 ^ 5, 10 ^ 12 + 3).oneOf()
    nondet p = 0.to(3).oneOf()
    val s = { ok: true, h: h, locks: PEOPLE.mapBy(a => { amount: 0, end: 0 }),
      bal: HOLDERS.mapBy(a => if (a == 1 or a == 3) b1 else if (PEOPLE.contains(a)) b2 else if (a == ANNUITY) an + 10 else 1000), reserved: PEOPLE.mapBy(a => 0),
      limits: PEOPLE.mapBy(a => (NONE, NONE)), barred: Set(), pool: empty(Set(1), PEOPLE, Set(1), 1), rpb: 0, rpw: NONE, wrapped: 500,
      start: if (p == 0) NONE else h + 5 * p * p, inflation: if (p == 1) ONE / 10 else if (p == 2) 0 else ONE / 3, last: 0 }
    all { w' = s, prior' = s, op' = { ...none, what: "init" }, given' = 0, taken' = 0, seen' = look(s) }
  }

  action actCreate = {
    nondet a = PEOPLE.oneOf()
    nondet k = 0.to(9).oneOf()
    nondet e = (-15).to(115).oneOf()
    nondet i = 0.to(9).oneOf()
    val b = if (i < 2) w.lockable(a) else w.bal.get(a)
    val x = if (k == 0) 99 else if (k == 1) 100 else if (k == 2) b else if (k == 3) b + 1 else if (k == 4) 0 else if (k == 5) 101 else b * k / 11
    doit({ ...none, what: "create", who: a, x: x, y: max0(w.h + e) })
  }
  val live = PEOPLE.filter(a => w.locks.get(a).end > w.h)
  action actAdd = {
    nondet a = (if (live == Set()) PEOPLE else live).oneOf()
    nondet k = 0.to(8).oneOf()
    val r = max0(w.lockable(a) - w.locks.get(a).amount)
    doit({ ...none, what: "add", who: a, x: if (k == 0) 0 else if (k == 1) r + 1 else if (k == 2) r else if (k == 3) 1 else if (k == 4) 50 else r * k / 20 })
  }
  action actExtend = {
    nondet i = 0.to(6).oneOf()
    nondet a = (if (live == Set() or i == 0) PEOPLE else live).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet e = 0.to(115).oneOf()
    val end = w.locks.get(a).end
    doit({ ...none, what: "extend", who: a, y: if (k == 0) end else if (k == 1) end + SPAN else if (k == 2) end + SPAN - 1 else if (k == 3) w.h + MOST else if (k == 4) w.h + MOST + SPAN else w.h + e })
  }
  action actUnlock = {
    nondet a = PEOPLE.oneOf()
    doit({ ...none, what: "unlock", who: a })
  }
  action actRefresh = {
    nondet i = 0.to(5).oneOf()
    val those = PEOPLE.filter(a => w.locks.get(a).amount > 0)
    nondet a = (if (those == Set() or i == 0) PEOPLE else those).oneOf()
    nondet b = PEOPLE.oneOf()
    doit({ ...none, what: "refresh", who: b, to: a })
  }
  action actReserve = {
    nondet a = PEOPLE.oneOf()
    nondet k = 0.to(7).oneOf()
    val f = w.free(a)
    val r = w.reserved.get(a)
    if (k < 4) doit({ ...none, what: "reserve", who: a, x: if (k == 0) f else if (k == 1) f + 1 else f / 3 })
    else {
      val x = if (k == 4) r else if (k == 5) r + 3 else r / 2
      finish(w.apply({ ...none, what: "release", who: a, x: x }), { ...none, what: "release", who: a, x: x, out: max0(x - r) }, 0, 0)
    }
  }
  action actSend = {
    nondet a = PEOPLE.oneOf()
    nondet b = PEOPLE.oneOf()
    nondet k = 0.to(4).oneOf()
    val r = w.bal.get(a) - w.locks.get(a).amount
    val x = if (k == 0) r - 1 else if (k == 1) r + 1 else if (k == 2) w.bal.get(a) else r / 2
    all { a != b, x > 0, x < w.bal.get(a), doit({ ...none, what: "send", who: a, to: b, x: x }) }
  }
  action actRoot = {
    nondet root = Set(1, 2, 3, 4).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet k = 0.to(9).oneOf()
    nondet i = (-60).to(30).oneOf()
    nondet j = 0.to(120).oneOf()
    nondet x = Set(0, 1, 3, 100, 10 ^ 8).oneOf()
    nondet f = Set(0, 1, ONE / 50, ONE / 3, 2 * ONE).oneOf()
    val o = { ...none, root: root > 1, who: a }
    if (k < 3) doit({ ...o, what: "limit", x: max0(w.h + i), y: max0(w.h + i + j - 10) })
    else if (k == 3) all { j < 15, doit({ ...o, what: "bar" }) }
    else if (k < 6) doit({ ...o, what: "renew" })
    else if (k == 6) doit({ ...o, what: "per wrapped", x: x })
    else if (k == 7) doit({ ...o, what: "inflate", x: f, y: max0(w.h + j / 8) })
    else doit({ ...none, what: "wrapped", x: x })
  }
  action actClaim = {
    nondet a = PEOPLE.oneOf()
    val r = w.claim_(a)
    finish(r.w, { ...none, what: "claim", who: a, out: r.out }, 0, r.out)
  }
  action actBlocks = {
    nondet k = Set(1, 2, 5, 9, 10, 11, 24, 30).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet i = 0.to(3).oneOf()
    val e = w.locks.get(a).end - w.h
    val n = if (i == 0 and e > 1 and e < 40) e - 1 else if (i == 1 and e > 0 and e < 40) e else k
    val r = w.blocks(n)
    finish(r.w, { ...none, what: "blocks", x: n }, r.given, 0)
  }
  action step = any { actCreate, actCreate, actCreate, actAdd, actAdd, actExtend, actExtend, actExtend, actUnlock, actUnlock, actRefresh, actRefresh, actReserve, actSend, actRoot, actClaim, actClaim,
    actBlocks, actBlocks, actBlocks, actBlocks, actBlocks }
  // long lives of locks
  action stepLocks = any { actCreate, actCreate, actAdd, actExtend, actExtend, actUnlock, actRefresh, actBlocks, actBlocks, actBlocks }

  // what is locked is there, what is reserved was power
  val held = PEOPLE.forall(a => w.locks.get(a).amount <= w.bal.get(a) and w.bal.get(a) >= 0 and w.reserved.get(a) >= 0) and w.bal.get(ANNUITY) >= 0
  // power is at most what is locked, decays, and is gone at the end
  val decays = PEOPLE.forall(a => {
    val k = w.locks.get(a)
    and {
      w.power(a, w.h) <= k.amount, k.amount == 0 or k.amount >= MOST,
      k.end % SPAN == 0, max0(k.end - w.h) <= MOST,
      range(1, AHEAD.length()).foldl(true, (b, i) => b and seen.power.get(a)[i] <= seen.power.get(a)[i - 1]),
      w.power(a, max0(k.end)) == 0,
    }
  })
  // nobody changes anybody else's power, and time only takes
  val own = PEOPLE.forall(a => or {
    w.power(a, w.h) == prior.power(a, w.h),
    op.who == a and Set("create", "add", "extend").contains(op.what) and w.power(a, w.h) > prior.power(a, w.h),
  })
  // the stake is the power at some earlier time: not less than it is now, not more than is locked
  val staked = and {
    PEOPLE.forall(a => w.stakeOf(a) >= w.power(a, w.h) and w.stakeOf(a) <= w.locks.get(a).amount),
    w.pool.total.get(1) == PEOPLE.fold(0, (s, a) => s + w.pool.stake.get((1, a))),
  }
  // what can be claimed was given
  val covered = PEOPLE.fold(0, (s, a) => s + max0(seen.claims.get(a))) <= given - taken
  val inv = and { held, decays, own, staked, covered }
}
