// C13: a vault's staking pool.  Vault and nominators stake together; slashing takes from all in proportion; rewards
// belong to the stakers of the moment; a forced refund closes the pool for a new one and leaves every nominator able
// to take what the old pool owes them.
module staking {
  import fixed.* from "./fixed"
  import stakingcore.* from "./stakingcore"

  pure val VAULTS = Set(1, 2)
  pure val ACCOUNTS = Set(1, 2, 3, 4)        // 1 and 2 operate the vaults, 3 and 4 only nominate

  type Op = { what: str, vault: int, acc: int, cur: int, amount: int, nonce: int, ok: bool, out: int }
  type View = { stakes: int -> int, rewards: (int, int) -> int, current: int }   // -1: not computable

  var pools: (int, int) -> Pool               // (vault, nonce)
  var nonces: int -> int
  var op: Op
  var views: (int, int) -> View
  var before: (int, int) -> View
  var paidIn: (int, int) -> int               // ghost, per currency and vault: rewards distributed
  var paidOut: (int, int) -> int              // ghost: rewards collected
  var huge: bool
  var uneven: Set[(int, int)]                 // ghost: pools where a slash was not charged by what stakers have

  pure val none: Op = { what: "none", vault: 0, acc: 0, cur: 0, amount: 0, nonce: 0, ok: true, out: 0 }
  pure val blank = empty(ACCOUNTS)

  // Slashes are charged by recorded stake.  That is in proportion to what stakers have only where the two go together
  // (they drift apart when some stakers settle and others do not: see the known finding).
  pure def evenly(p: Pool): bool = ACCOUNTS.forall(a => {
    pure val d = (p.stake.get(a) - toSlash(p, a)) * p.total - p.stake.get(a) * p.current
    d <= 10 ^ 12 * p.total and d >= -(10 ^ 12) * p.total
  })
  pure def view(p: Pool): View = {
    stakes: ACCOUNTS.mapBy(a => stakeOf(p, a)), rewards: p.rewardTally.keys().mapBy(k => rewardOf(p, k._1, k._2)), current: whole(p.current) }

  action record(o: Op, ps: (int, int) -> Pool, ns: int -> int): bool = all {
    pools' = ps, nonces' = ns, op' = o,
    views' = ps.keys().mapBy(k => view(ps.get(k))), before' = views, huge' = huge,
    uneven' = if (o.what == "slash" and o.ok and not(evenly(pools.get((o.vault, o.nonce))))) uneven.union(Set((o.vault, o.nonce))) else uneven,
    paidIn' = if (o.what == "distribute" and o.ok and pools.get((o.vault, nonces.get(o.vault))).current != 0) paidIn.setBy((o.cur, o.vault), x => x + o.amount) else paidIn,
    paidOut' = if (o.what == "collect" and o.ok) paidOut.setBy((o.cur, o.vault), x => x + o.out) else paidOut,
  }
  action at(o: Op, r: Res): bool =
    record({ ...o, ok: r.ok, out: r.out }, pools.set((o.vault, o.nonce), r.p), nonces)

  action init = {
    nondet h = oneOf(Set(true, false, false, false))
    val ps = VAULTS.map(v => (v, 0)).mapBy(k => blank)
    all { pools' = ps, nonces' = VAULTS.mapBy(v => 0), op' = none, views' = ps.keys().mapBy(k => view(blank)),
      before' = ps.keys().mapBy(k => view(blank)), huge' = h, uneven' = Set(),
      paidIn' = tuples(CURRENCIES, VAULTS).mapBy(k => 0), paidOut' = tuples(CURRENCIES, VAULTS).mapBy(k => 0) }
  }

  action refundVault(v: int): bool = {
    val n = nonces.get(v)
    val r = refund(pools.get((v, n)), v)
    if (r.ok) record({ ...none, what: "refund", vault: v, nonce: n, ok: true, out: r.out },
      pools.put((v, n), r.old).put((v, n + 1), r.new), nonces.set(v, n + 1))
    else record({ ...none, what: "refund", vault: v, nonce: n, ok: false }, pools, nonces)
  }

  pure val EDGES = Set(10 ^ 18, 1152923504604516976, 170141183460469231731, 170141183460469231732, 2 ^ 127, 10 ^ 19, 10 ^ 20)
  action amountFor(use: int => bool): bool = any {
    { nondet a = oneOf(Set(0, 1, 2, 3, 7, 10, 50, 100, 1000)) use(a) },
    { nondet a = oneOf(1.to(1000000)) use(a) },
    { nondet a = oneOf(1.to(10 ^ 12)) all { not(huge), use(a) } },
    { nondet a = oneOf(EDGES) all { huge, use(a) } },
  }
  action someDeposit = {
    nondet v = oneOf(VAULTS)
    nondet a = oneOf(ACCOUNTS)
    val n = nonces.get(v)
    amountFor(x => at({ ...none, what: "deposit", vault: v, acc: a, amount: x, nonce: n }, deposit(pools.get((v, n)), a, x)))
  }
  action someWithdraw = {
    nondet v = oneOf(VAULTS)
    nondet a = oneOf(ACCOUNTS)
    nondet n = oneOf(0.to(nonces.get(v)))
    nondet q = oneOf(Set(1, 1, 2, 3))
    nondet d = oneOf(Set(0, 0, 0, 1))
    val x = max0(stakeOf(pools.get((v, n)), a)) / q + d
    at({ ...none, what: "withdraw", vault: v, acc: a, amount: x, nonce: n }, withdraw(pools.get((v, n)), a, x))
  }
  action someWithdrawAll = {
    nondet v = oneOf(VAULTS)
    nondet a = oneOf(ACCOUNTS)
    nondet n = oneOf(0.to(nonces.get(v)))
    at({ ...none, what: "withdrawAll", vault: v, acc: a, nonce: n }, withdrawAll(pools.get((v, n)), a))
  }
  // the callers never slash more than there is
  action someSlash = {
    nondet v = oneOf(VAULTS)
    nondet q = oneOf(Set(1, 2, 3, 10, 97))
    val n = nonces.get(v)
    val x = max0(whole(pools.get((v, n)).current)) / q
    at({ ...none, what: "slash", vault: v, amount: x, nonce: n }, slash(pools.get((v, n)), x))
  }
  action smallSlash = {
    nondet v = oneOf(VAULTS)
    nondet x = oneOf(0.to(60))
    val n = nonces.get(v)
    all { x <= max0(whole(pools.get((v, n)).current)) or pools.get((v, n)).total == 0,
      at({ ...none, what: "slash", vault: v, amount: x, nonce: n }, slash(pools.get((v, n)), x)) }
  }
  action someDistribute = {
    nondet v = oneOf(VAULTS)
    nondet c = oneOf(CURRENCIES)
    val n = nonces.get(v)
    amountFor(x => at({ ...none, what: "distribute", vault: v, cur: c, amount: x, nonce: n }, distribute(pools.get((v, n)), c, x)))
  }
  action someCollect = {
    nondet v = oneOf(VAULTS)
    nondet a = oneOf(ACCOUNTS)
    nondet c = oneOf(CURRENCIES)
    nondet n = oneOf(0.to(nonces.get(v)))
    at({ ...none, what: "collect", vault: v, acc: a, cur: c, nonce: n }, collect(pools.get((v, n)), a, c))
  }
  action someRefund = { nondet v = oneOf(VAULTS) all { nonces.get(v) < 3, refundVault(v) } }
  action step = any {
    someDeposit, someDeposit, someDeposit, someWithdraw, someWithdrawAll, someSlash, smallSlash, someDistribute, someDistribute,
    someDistribute, someCollect, someCollect, someRefund,
  }

  // Rounding: a unit per staker for truncation, and one part in 10^18 of the amounts (at most 40 * 10^12 in all) per
  // operation; of a stake's error a reward makes rewardPer times as much.
  val slack = 8
  def slackOf(k: (int, int), c: int): int = pools.get(k).rewardPer.get(c) / (25 * 10 ^ 21)
  val poolKeys = pools.keys()
  def sumStakes(k: (int, int)): int = ACCOUNTS.fold(0, (s, a) => s + views.get(k).stakes.get(a))
  // the stakes add up to what the pool says it holds
  val stakesAddUp = huge or poolKeys.exclude(uneven).forall(k =>
    sumStakes(k) <= views.get(k).current + slack and sumStakes(k) >= views.get(k).current - slack)
  // never more claimable than was paid in and not taken out
  val solvent = huge or CURRENCIES.forall(c => VAULTS.filter(v => uneven.forall(k => k._1 != v)).forall(v =>
    poolKeys.filter(k => k._1 == v).fold(0, (s, k) => s + ACCOUNTS.fold(0, (t, a) => t + views.get(k).rewards.get((c, a))))
      <= paidIn.get((c, v)) - paidOut.get((c, v)) + slack + poolKeys.filter(k => k._1 == v).fold(0, (s, k) => s + slackOf(k, c))))
  def near(a: int, b: int): bool = a <= b + 2 and b <= a + 2
  val here = (op.vault, op.nonce)
  def nearly(c: int, a: int, b: int): bool = a <= b + 2 + slackOf(here, c) and b <= a + 2 + slackOf(here, c)
  // an operation on one pool leaves the others alone (a refund opens one)
  val local = op.what.in(Set("none")) or before.keys().forall(k => k == here or views.get(k) == before.get(k))
  // slashing takes from all in proportion and no one's reward
  val slashFair = (op.what == "slash" and op.ok and not(huge) and not(here.in(uneven)) and before.get(here).current > 0) implies
    ACCOUNTS.forall(a =>
      val b = before.get(here)
      val n = views.get(here)
      and {
        n.stakes.get(a) * b.current <= b.stakes.get(a) * (b.current - op.amount) + 4 * b.current,
        (n.stakes.get(a) + 4) * b.current >= b.stakes.get(a) * (b.current - op.amount),
        b.current > op.amount implies CURRENCIES.forall(c => nearly(c, n.rewards.get((c, a)), b.rewards.get((c, a)))),
      })
  // moving stake moves exactly that stake and no one's reward
  val moves = (op.what.in(Set("deposit", "withdraw")) and op.ok and not(huge) and not(here.in(uneven))) implies
    ACCOUNTS.forall(a =>
      val b = before.get(here)
      val n = views.get(here)
      val d = if (op.what == "deposit") op.amount else -op.amount
      near(n.stakes.get(a), b.stakes.get(a) + (if (a == op.acc) d else 0))
      and CURRENCIES.forall(c => nearly(c, n.rewards.get((c, a)), b.rewards.get((c, a)))))
  val collects = (op.what == "collect" and op.ok and not(huge) and not(here.in(uneven))) implies and {
    nearly(op.cur, op.out, before.get(here).rewards.get((op.cur, op.acc))),
    nearly(op.cur, views.get(here).rewards.get((op.cur, op.acc)), 0),
  }
  // whatever a pool owes a staker can be taken, also from a pool that was closed
  val open = (op.what == "withdrawAll" and not(huge) and not(here.in(uneven))) implies op.ok
  val withdrawable = (op.what == "withdraw" and not(huge) and not(here.in(uneven))) implies (op.ok iff op.amount <= before.get(here).stakes.get(op.acc))
  val refunds = (op.what == "refund" and op.ok and not(huge) and not(here.in(uneven))) implies and {
    near(views.get((op.vault, op.nonce + 1)).stakes.get(op.vault), before.get(here).stakes.get(op.vault)),
    near(views.get((op.vault, op.nonce + 1)).current, before.get(here).stakes.get(op.vault)),
    ACCOUNTS.forall(a => a == op.vault or near(views.get(here).stakes.get(a), before.get(here).stakes.get(a))),
  }
  val inv = stakesAddUp and solvent and local and slashFair and moves and collects and open and withdrawable and refunds
}
