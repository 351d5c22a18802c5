// A family of reward pools.  Stakes are deposited into pools; what is distributed to a pool belongs to its stakers in
// proportion to their stake at that moment.
module rewardcore {
  import fixed.* from "./fixed"

  type World = {
    stake: (int, int) -> int, total: int -> int,
    perToken: (int, int) -> int,             // (currency, pool): reward per unit of stake so far
    tally: (int, int, int) -> int,           // (currency, pool, staker): what of that is not theirs
    undistributed: int -> int,               // per currency: distributed and not collected
    tracked: int -> Set[int],
    limit: int,                              // currencies a pool may pay
  }
  type Res = { ok: bool, w: World, out: int }

  pure def empty(pools: Set[int], stakers: Set[int], currencies: Set[int], limit: int): World = {
    stake: tuples(pools, stakers).mapBy(k => 0), total: pools.mapBy(k => 0),
    perToken: tuples(currencies, pools).mapBy(k => 0), tally: tuples(currencies, pools, stakers).mapBy(k => 0),
    undistributed: currencies.mapBy(k => 0), tracked: pools.mapBy(k => Set()), limit: limit,
  }
  pure def refused(x: World): Res = { ok: false, w: x, out: 0 }

  // move `d` (a whole number of units, possibly negative) in or out of a stake
  pure def moveStake(x: World, p: int, s: int, d: int): Res = {
    pure val f = d * ONE
    pure val tr = x.tracked.get(p)
    pure val nt = x.tally.keys().mapBy(k => if (k._2 == p and k._3 == s and tr.contains(k._1)) x.tally.get(k) + mulF(x.perToken.get((k._1, p)), f) else x.tally.get(k))
    pure val ok = and {
      fits(f), fits(x.stake.get((p, s)) + f), fits(x.total.get(p) + f),
      tr.forall(c => fits(mulF(x.perToken.get((c, p)), f)) and fits(nt.get((c, p, s)))),
    }
    if (not(ok)) refused(x) else
      { ok: true, out: 0, w: { ...x, stake: x.stake.setBy((p, s), o => o + f), total: x.total.setBy(p, o => o + f), tally: nt } }
  }
  pure def deposit(x: World, p: int, s: int, d: int): Res = moveStake(x, p, s, d)
  pure def withdraw(x: World, p: int, s: int, d: int): Res =
    if (fits(d * ONE) and d * ONE <= x.stake.get((p, s))) moveStake(x, p, s, -d) else refused(x)

  pure def distribute(x: World, p: int, c: int, d: int): Res = {
    pure val f = d * ONE
    pure val tr = x.tracked.get(p).union(Set(c))
    if (not(fits(f))) refused(x)
    else if (d == 0) { ok: true, w: x, out: 0 }
    else if (x.total.get(p) == 0) refused(x)
    else if (tr.size() > x.limit) refused(x)
    else {
      pure val r = divF(f, x.total.get(p))
      if (fits(r) and fits(x.perToken.get((c, p)) + r) and fits(x.undistributed.get(c) + f))
        { ok: true, out: 0, w: { ...x, tracked: x.tracked.set(p, tr), perToken: x.perToken.setBy((c, p), o => o + r),
            undistributed: x.undistributed.setBy(c, o => o + f) } }
      else refused(x)
    }
  }
  // -1 when it cannot be computed
  pure def claim(x: World, c: int, p: int, s: int): int = {
    pure val m = mulF(x.stake.get((p, s)), x.perToken.get((c, p)))
    pure val r = m - x.tally.get((c, p, s))
    if (fits(m) and fits(r) and whole(r) >= 0) whole(r) else -1
  }
  pure def collect(x: World, p: int, s: int, c: int): Res = {
    pure val r = claim(x, c, p, s)
    if (r < 0 or not(fits(r * ONE)) or not(fits(x.undistributed.get(c) - r * ONE))) refused(x)
    else { ok: true, out: r, w: { ...x, undistributed: x.undistributed.setBy(c, o => o - r * ONE),
      tally: x.tally.set((c, p, s), mulF(x.stake.get((p, s)), x.perToken.get((c, p)))) } }
  }
  pure def setStake(x: World, p: int, s: int, d: int): Res = {
    pure val now = whole(x.stake.get((p, s)))
    if (now < d) deposit(x, p, s, d - now) else if (now > d) withdraw(x, p, s, now - d) else { ok: true, w: x, out: 0 }
  }
  pure def allClaims(x: World): (int, int, int) -> int = x.tally.keys().mapBy(k => claim(x, k._1, k._2, k._3))
}
