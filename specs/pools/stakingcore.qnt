// One staking pool: the stakes as recorded (`stake`), what slashes have taken per unit of recorded stake, and per staker
// what of that is not theirs (`slashTally`); likewise for rewards, in the currencies 0 (wrapped) and 1 (native).
module stakingcore {
  import fixed.* from "./fixed"

  pure val CURRENCIES = Set(0, 1)
  type Pool = {
    total: int, current: int, slashPer: int, rewardPer: int -> int, unpaid: int -> int,
    stake: int -> int, slashTally: int -> int, rewardTally: (int, int) -> int,
  }
  type Res = { ok: bool, p: Pool, out: int }

  pure def empty(accounts: Set[int]): Pool = {
    total: 0, current: 0, slashPer: 0, rewardPer: CURRENCIES.mapBy(c => 0), unpaid: CURRENCIES.mapBy(c => 0),
    stake: accounts.mapBy(a => 0), slashTally: accounts.mapBy(a => 0), rewardTally: tuples(CURRENCIES, accounts).mapBy(k => 0),
  }
  pure def refused(p: Pool): Res = { ok: false, p: p, out: 0 }

  pure def toSlash(p: Pool, a: int): int = mulF(p.stake.get(a), p.slashPer) - p.slashTally.get(a)
  pure def sound(p: Pool, a: int): bool =
    fits(mulF(p.stake.get(a), p.slashPer)) and fits(toSlash(p, a)) and fits(p.stake.get(a) - toSlash(p, a))
  // what the staker still has, exactly
  pure def precise(p: Pool, a: int): int = max0(p.stake.get(a) - toSlash(p, a))
  pure def stakeOf(p: Pool, a: int): int = if (sound(p, a)) whole(precise(p, a)) else -1
  pure def rewardOf(p: Pool, c: int, a: int): int = {
    pure val m = mulF(precise(p, a), p.rewardPer.get(c))
    pure val r = m - p.rewardTally.get((c, a))
    if (sound(p, a) and fits(m) and fits(r)) max0(whole(r)) else -1
  }

  // books the slashes a staker has not been charged for
  pure def settle(p: Pool, a: int): Res = {
    pure val s = p.stake.get(a) - toSlash(p, a)
    if (not(sound(p, a)) or not(fits(p.total - toSlash(p, a))) or not(fits(mulF(s, p.slashPer)))) refused(p)
    else { ok: true, out: s, p: { ...p, total: p.total - toSlash(p, a), stake: p.stake.set(a, s), slashTally: p.slashTally.set(a, mulF(s, p.slashPer)) } }
  }
  // moves x (possibly negative) in a settled pool
  pure def move(p: Pool, a: int, x: int): Res = {
    pure val st = p.slashTally.get(a) + mulF(p.slashPer, x)
    pure val rt = p.rewardTally.keys().mapBy(k => if (k._2 == a) p.rewardTally.get(k) + mulF(p.rewardPer.get(k._1), x) else p.rewardTally.get(k))
    pure val ok = and {
      fits(p.stake.get(a) + x), fits(p.total + x), fits(p.current + x), fits(mulF(p.slashPer, x)), fits(st),
      CURRENCIES.forall(c => fits(mulF(p.rewardPer.get(c), x)) and fits(rt.get((c, a)))),
    }
    if (not(ok)) refused(p) else
      { ok: true, out: 0, p: { ...p, stake: p.stake.setBy(a, s => s + x), total: p.total + x,
          current: if (x < 0 and p.total + x == 0) 0 else p.current + x, slashTally: p.slashTally.set(a, st), rewardTally: rt } }
  }
  pure def depositF(p: Pool, a: int, x: int): Res = {
    pure val q = settle(p, a)
    if (q.ok) move(q.p, a, x) else refused(p)
  }
  pure def withdrawF(p: Pool, a: int, x: int): Res = {
    pure val q = settle(p, a)
    if (not(q.ok)) refused(p)
    else if (x == 0) { ok: true, p: q.p, out: 0 }
    else if (x > q.out) refused(p)
    else move(q.p, a, -x)
  }
  pure def deposit(p: Pool, a: int, d: int): Res = {
    pure val r = if (fits(d * ONE)) depositF(p, a, d * ONE) else refused(p)
    if (r.ok) r else refused(p)
  }
  pure def withdraw(p: Pool, a: int, d: int): Res = {
    pure val r = if (fits(d * ONE)) withdrawF(p, a, d * ONE) else refused(p)
    if (r.ok) r else refused(p)
  }
  pure def withdrawAll(p: Pool, a: int): Res = {
    pure val r = if (sound(p, a)) withdrawF(p, a, precise(p, a)) else refused(p)
    if (r.ok) { ...r, out: whole(precise(p, a)) } else refused(p)
  }
  pure def raise(p: Pool, c: int, f: int): Res =
    if (p.current == 0) { ok: true, p: p, out: 0 }
    else if (not(fits(divF(f, p.current))) or not(fits(p.rewardPer.get(c) + divF(f, p.current)))) refused(p)
    else { ok: true, out: f, p: { ...p, rewardPer: p.rewardPer.setBy(c, r => r + divF(f, p.current)) } }
  // what a slash makes unreachable of the rewards is given to the stake that is left
  pure def slash(p: Pool, d: int): Res = {
    pure val f = d * ONE
    if (not(fits(f))) refused(p)
    else if (d == 0) { ok: true, p: p, out: 0 }
    else if (p.total == 0) refused(p)
    else {
      pure val per = divF(f, p.total)
      pure val q = { ...p, slashPer: p.slashPer + per, current: p.current - f }
      pure val m0 = mulF(p.rewardPer.get(0), f)
      pure val m1 = mulF(p.rewardPer.get(1), f)
      pure val r0 = raise(q, 0, m0)
      pure val r1 = raise(r0.p, 1, m1)
      if (fits(per) and fits(q.slashPer) and fits(q.current) and fits(m0) and fits(m1) and r0.ok and r1.ok) { ok: true, p: r1.p, out: 0 }
      else refused(p)
    }
  }
  pure def distribute(p: Pool, c: int, d: int): Res = {
    pure val r = raise(p, c, d * ONE)
    if (not(fits(d * ONE)) or not(r.ok) or not(fits(p.unpaid.get(c) + r.out))) refused(p)
    else { ok: true, out: 0, p: { ...r.p, unpaid: r.p.unpaid.setBy(c, u => u + r.out) } }
  }
  pure def collect(p: Pool, a: int, c: int): Res = {
    pure val q = settle(p, a)
    pure val r = rewardOf(q.p, c, a)
    pure val t = mulF(q.p.stake.get(a), q.p.rewardPer.get(c))
    if (not(q.ok) or r == -1 or not(fits(r * ONE)) or not(fits(q.p.unpaid.get(c) - r * ONE)) or not(fits(t))) refused(p)
    else { ok: true, out: r, p: { ...q.p, unpaid: q.p.unpaid.setBy(c, u => u - r * ONE), rewardTally: q.p.rewardTally.set((c, a), t) } }
  }

  // The operator's own stake moves on to a fresh pool; the others' stays behind (`out`).
  pure def refund(p: Pool, operator: int): { ok: bool, old: Pool, new: Pool, out: int } = {
    pure val s = stakeOf(p, operator)
    pure val taken = withdraw(p, operator, s)
    pure val fresh = empty(p.stake.keys())
    pure val into = deposit(fresh, operator, s)
    pure val left = whole(p.current - s * ONE)
    if (s >= 0 and fits(s * ONE) and taken.ok and into.ok and left >= 0) { ok: true, old: taken.p, new: into.p, out: left }
    else { ok: false, old: p, new: fresh, out: 0 }
  }
}
