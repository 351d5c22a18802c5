// C12: reward pools.  Stakes are deposited into pools; what is distributed to a pool belongs to its stakers in
// proportion to their stake at that moment, whenever and in whatever order they collect it.
module reward {
  import fixed.* from "./fixed"
  import rewardcore.* from "./rewardcore"

  pure val POOLS = Set(1, 2)
  pure val STAKERS = Set(1, 2, 3)
  pure val CURRENCIES = Set(0, 1, 2)

  type Op = { what: str, pool: int, staker: int, cur: int, amount: int, ok: bool, out: int }

  var w: World
  var op: Op
  var claims: (int, int, int) -> int          // claimable after this step, -1 where it cannot be computed
  var claimsBefore: (int, int, int) -> int
  var given: int -> int                       // ghost: ever distributed per currency
  var taken: int -> int                       // ghost: ever collected per currency
  var huge: bool                              // a behaviour in which amounts may reach the limits of the representation

  pure val none: Op = { what: "none", pool: 0, staker: 0, cur: 0, amount: 0, ok: true, out: 0 }
  pure val start = empty(POOLS, STAKERS, CURRENCIES, 2)
  action apply(o: Op, r: Res): bool = all {
    w' = r.w, op' = { ...o, ok: r.ok, out: r.out }, claims' = allClaims(r.w), claimsBefore' = claims,
    given' = if (o.what == "distribute" and r.ok) given.setBy(o.cur, g => g + o.amount) else given,
    taken' = if (o.what == "collect" and r.ok) taken.setBy(o.cur, g => g + r.out) else taken,
    huge' = huge,
  }

  action init = {
    nondet h = oneOf(Set(true, false, false, false))
    all { w' = start, op' = none, claims' = allClaims(start), claimsBefore' = allClaims(start),
      given' = CURRENCIES.mapBy(c => 0), taken' = CURRENCIES.mapBy(c => 0), huge' = h }
  }

  pure val EDGES = Set(1, 10 ^ 18, 170141183460469231731, 170141183460469231732, 2 ^ 127, 2 ^ 128 - 1, 10 ^ 19, 10 ^ 20)
  action amountFor(use: int => bool): bool = any {
    { nondet a = oneOf(Set(0, 1, 2, 3, 7, 10, 1000)) use(a) },
    { nondet a = oneOf(1.to(1000000)) use(a) },
    { nondet a = oneOf(1.to(10 ^ 15)) all { not(huge), use(a) } },
    { nondet a = oneOf(EDGES) all { huge, use(a) } },
  }
  action depositSome = {
    nondet p = oneOf(POOLS)
    nondet s = oneOf(STAKERS)
    amountFor(a => apply({ ...none, what: "deposit", pool: p, staker: s, amount: a }, deposit(w, p, s, a)))
  }
  action withdrawSome = {
    nondet p = oneOf(POOLS)
    nondet s = oneOf(STAKERS)
    amountFor(a => apply({ ...none, what: "withdraw", pool: p, staker: s, amount: a }, withdraw(w, p, s, a)))
  }
  action withdrawPart = {
    nondet p = oneOf(POOLS)
    nondet s = oneOf(STAKERS)
    nondet q = oneOf(Set(1, 1, 2, 3))
    nondet d = oneOf(Set(0, 0, 0, 1))
    val a = whole(w.stake.get((p, s))) / q + d
    apply({ ...none, what: "withdraw", pool: p, staker: s, amount: a }, withdraw(w, p, s, a))
  }
  action resetStake = {
    nondet p = oneOf(POOLS)
    nondet s = oneOf(STAKERS)
    amountFor(a => apply({ ...none, what: "set", pool: p, staker: s, amount: a }, setStake(w, p, s, a)))
  }
  action distributeSome = {
    nondet p = oneOf(POOLS)
    nondet c = oneOf(Set(0, 0, 0, 1, 1, 2))
    amountFor(a => apply({ ...none, what: "distribute", pool: p, cur: c, amount: a }, distribute(w, p, c, a)))
  }
  action collectSome = {
    nondet p = oneOf(POOLS)
    nondet s = oneOf(STAKERS)
    nondet c = oneOf(CURRENCIES)
    apply({ ...none, what: "collect", pool: p, staker: s, cur: c }, collect(w, p, s, c))
  }
  action step = any { depositSome, depositSome, withdrawSome, withdrawPart, resetStake, distributeSome, distributeSome, distributeSome, collectSome, collectSome }

  // the pool's total is the sum of its stakes
  val totals = POOLS.forall(p => w.total.get(p) == STAKERS.fold(0, (a, s) => a + w.stake.get((p, s))))
  // never more claimable than was distributed and not collected
  val solvent = CURRENCIES.forall(c =>
    tuples(POOLS, STAKERS).fold(0, (a, k) => a + max0(claims.get((c, k._1, k._2)))) <= given.get(c) - taken.get(c))
  val account = CURRENCIES.forall(c => w.undistributed.get(c) == (given.get(c) - taken.get(c)) * ONE)
  // moving stake changes nobody's claim, and collecting only the collector's, to nothing
  val steady = op.what.in(Set("deposit", "withdraw", "set")) implies
    claims.keys().forall(k => claims.get(k) == claimsBefore.get(k) or claims.get(k) == -1 or claimsBefore.get(k) == -1)
  val collected = (op.what == "collect" and op.ok) implies
    claims.keys().forall(k => claims.get(k) == (if (k == (op.cur, op.pool, op.staker)) 0 else claimsBefore.get(k)))
  // a distribution reaches the pool's stakers in proportion, short by rounding only
  val proportional = (op.what == "distribute" and op.ok and op.amount > 0 and not(huge)) implies
    STAKERS.forall(s =>
      val k = (op.cur, op.pool, s)
      val gain = claims.get(k) - claimsBefore.get(k)
      val st = whole(w.stake.get((op.pool, s)))
      val tot = whole(w.total.get(op.pool))
      and { gain * tot <= op.amount * st + tot, (gain + 2) * tot >= op.amount * st })
  val others = (op.what == "distribute" and op.ok) implies
    claims.keys().forall(k => (k._1 == op.cur and k._2 == op.pool) or claims.get(k) == claimsBefore.get(k))
  val inv = totals and solvent and account and steady and collected and proportional and others
}
