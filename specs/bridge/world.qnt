// The bridge's assets: balances, vaults with their staking pools, the reward pools that follow them, prices and
// thresholds, and what the vault registry, the nomination and the fee pallets do to them.
//
// Every operation takes a world and returns one; `ok` turns false at the first condition that fails, after which the
// rest of the operation does nothing and its caller restores the world it started from.
module world {
  import fixed.* from "../pools/fixed"
  import stakingcore as st from "../pools/stakingcore"
  import rewardcore as rw from "../pools/rewardcore"

  // currencies: 0 and 1 serve as collateral, 1 also as griefing collateral; 2 is the wrapped one
  pure val NATIVE = 1
  pure val WRAPPED = 2
  pure val COLLATERALS = Set(0, 1)
  // accounts: 1 to 3 operate vaults, 4 and 5 are users and nominators
  pure val FEES = 10
  pure val LIQUIDATION = 11
  pure val TREASURY = 12
  pure val PEOPLE = 1.to(5)
  pure val ACCOUNTS = PEOPLE.union(Set(FEES, LIQUIDATION, TREASURY))
  // vaults: an operator with a collateral
  pure val VAULTS = 1.to(4)
  pure val OPERATOR = Map(1 -> 1, 2 -> 2, 3 -> 3, 4 -> 1)
  pure val COLLATERAL = Map(1 -> 0, 2 -> 0, 3 -> 1, 4 -> 1)
  pure def owner(v: int): int = OPERATOR.get(v)
  pure def col(v: int): int = COLLATERAL.get(v)

  // status 0: not registered, 1: accepts issue requests, 2: does not, 3: liquidated
  type Vault = {
    status: int, banned: int, custom: int, toIssue: int, issued: int, toRedeem: int, toReplace: int,
    replaceCol: int, activeReplace: int, liquidated: int,
  }
  type Liq = { toIssue: int, issued: int, toRedeem: int, collateral: int }
  type Issue = { who: int, vault: int, amount: int, fee: int, grief: int, cur: int, opened: int, height: int, period: int, status: str }
  type Redeem = { who: int, vault: int, amount: int, fee: int, transfer: int, premium: int, opened: int, height: int, period: int, status: str }
  type Replace = { old: int, new: int, amount: int, collateral: int, grief: int, opened: int, height: int, period: int, status: str }
  // what the chain is set up with
  type Params = {
    issueFee: int, issueGrief: int, redeemFee: int, premiumFee: int, punishment: int, replaceGrief: int,
    inclusionFee: int, redeemDust: int, issueDust: int, replaceDust: int, delay: int, perBlock: int,
  }
  type World = {
    ok: bool, par: Params,
    free: (int, int) -> int, res: (int, int) -> int,           // (account, currency)
    vaults: int -> Vault, liq: int -> Liq, total: int -> int,  // total: locked collateral per currency
    pools: (int, int) -> st::Pool, nonces: int -> int,         // (vault, nonce)
    cap: rw::World, rew: rw::World,
    rate: int -> int,                                          // collateral per wrapped unit, -1 when not known
    ceiling: int -> int, minimum: int -> int, secure: int -> int, premium: int -> int, liquidation: int -> int,
    nomination: bool, opted: Set[int], limits: int -> int, commission: int -> int,
    issues: int -> Issue, redeems: int -> Redeem, replaces: int -> Replace,
    issuePeriod: int, redeemPeriod: int, replacePeriod: int,
    now: int, height: int,
  }

  pure def need(w: World, c: bool): World = if (c or not(w.ok)) w else { ...w, ok: false }
  pure def smaller(a: int, b: int): int = if (a < b) a else b
  pure def larger(a: int, b: int): int = if (a > b) a else b
  // products with an 18-decimal factor
  pure def down(x: int, f: int): int = x * f / ONE
  pure def up(x: int, f: int): int = (x * f + ONE - 1) / ONE
  pure def nearest(x: int, f: int): int = (x * f + ONE / 2) / ONE
  pure def over(x: int, f: int): int = x * ONE / f

  // -1 when there is no price
  pure def convert(w: World, x: int, a: int, b: int): int =
    if (x < 0) -1
    else if (a == b) x
    else if (a != WRAPPED and w.rate.get(a) < 0 or b != WRAPPED and w.rate.get(b) < 0) -1
    else {
      pure val base = if (a == WRAPPED) x else if (x == 0) 0 else over(x, w.rate.get(a))
      if (b == WRAPPED) base else down(base, w.rate.get(b))
    }
  // c * n / d; all of it when both are zero; -1 when it cannot be computed
  pure def share(c: int, n: int, d: int): int = if (c < 0 or n < 0 or d < 0) -1 else if (n == 0 and d == 0) c else if (d == 0) -1 else c * n / d

  // balances
  pure def lock(w: World, a: int, c: int, x: int): World =
    if (not(w.ok)) w else if (x < 0 or w.free.get((a, c)) < x) { ...w, ok: false }
    else { ...w, free: w.free.setBy((a, c), b => b - x), res: w.res.setBy((a, c), b => b + x) }
  pure def unlock(w: World, a: int, c: int, x: int): World =
    if (not(w.ok)) w else if (x < 0 or w.res.get((a, c)) < x) { ...w, ok: false }
    else { ...w, free: w.free.setBy((a, c), b => b + x), res: w.res.setBy((a, c), b => b - x) }
  pure def burn(w: World, a: int, c: int, x: int): World =
    if (not(w.ok)) w else if (x < 0 or w.res.get((a, c)) < x) { ...w, ok: false }
    else { ...w, res: w.res.setBy((a, c), b => b - x) }
  pure def mint(w: World, a: int, c: int, x: int): World =
    if (not(w.ok)) w else { ...w, free: w.free.setBy((a, c), b => b + x) }
  pure def move(w: World, a: int, b: int, c: int, x: int): World =
    if (not(w.ok) or x == 0 or a == b) w else if (x < 0 or w.free.get((a, c)) < x) { ...w, ok: false }
    else { ...w, free: w.free.setBy((a, c), y => y - x).setBy((b, c), y => y + x) }

  // staking pools
  pure def pool(w: World, v: int): st::Pool = w.pools.get((v, w.nonces.get(v)))
  pure def backing(w: World, v: int): int = whole(pool(w, v).current)
  pure def own(w: World, v: int): int = st::stakeOf(pool(w, v), owner(v))
  pure def secureOf(w: World, v: int): int = larger(w.secure.get(col(v)), w.vaults.get(v).custom)
  pure def store(w: World, v: int, n: int, r: st::Res): World =
    if (not(w.ok)) w else if (r.ok) { ...w, pools: w.pools.set((v, n), r.p) } else { ...w, ok: false }

  // rewards trickle down: capacity pool (by collateral), then vaults of that collateral, then their stakers
  pure def rewardCurrency(rc: int): int = if (rc == 0) WRAPPED else NATIVE
  pure def trickleOne(w: World, v: int, rc: int): World =
    if (not(w.ok)) w else {
      pure val c = col(v)
      pure val a = rw::collect(w.cap, 0, c, rc)
      pure val b = rw::distribute(w.rew, c, rc, a.out)
      pure val d = rw::collect(b.w, c, v, rc)
      pure val cut = down(d.out, w.commission.get(v))
      pure val w1 = move({ ...w, cap: a.w, rew: d.w }, FEES, owner(v), rewardCurrency(rc), cut)
      if (not(a.ok) or not(b.ok) or not(d.ok)) { ...w, ok: false }
      else store(w1, v, w.nonces.get(v), st::distribute(pool(w, v), rc, d.out - cut))
    }
  pure def trickle(w: World, v: int): World = trickleOne(trickleOne(w, v, 0), v, 1)
  // the capacity pool follows the rewards pool's total, in wrapped units
  pure def capacity(w: World, c: int): World = {
    pure val x = convert(w, whole(w.rew.total.get(c)), c, WRAPPED)
    if (not(w.ok)) w else if (x < 0) { ...w, ok: false } else {
      pure val r = rw::setStake(w.cap, 0, c, x)
      { ...w, ok: r.ok, cap: r.w }
    }
  }
  // the rewards pool follows a vault's collateral as far as it can back new tokens
  pure def follow(w: World, v: int): World =
    if (not(w.ok)) w else if (w.vaults.get(v).status == 0) { ...w, ok: false } else {
      pure val x = if (w.vaults.get(v).status == 1) over(backing(w, v), secureOf(w, v)) else 0
      pure val r = rw::setStake(w.rew, col(v), v, x)
      capacity({ ...w, ok: r.ok, rew: r.w }, col(v))
    }
  pure def depositStake(w: World, v: int, a: int, x: int): World = {
    pure val w1 = trickle(w, v)
    follow(store(w1, v, w1.nonces.get(v), st::deposit(pool(w1, v), a, x)), v)
  }
  pure def withdrawStake(w: World, v: int, a: int, n: int, x: int): World = {
    pure val w1 = trickle(w, v)
    follow(store(w1, v, n, st::withdraw(w1.pools.get((v, n)), a, x)), v)
  }
  pure def withdrawAllStake(w: World, v: int, a: int, n: int): World = {
    pure val w1 = trickle(w, v)
    follow(store(w1, v, n, st::withdrawAll(w1.pools.get((v, n)), a)), v)
  }
  pure def slashStake(w: World, v: int, x: int): World = {
    pure val w1 = trickle(w, v)
    follow(store(w1, v, w1.nonces.get(v), st::slash(pool(w1, v), x)), v)
  }

  // locked collateral
  pure def more(w: World, c: int, x: int): World =
    if (not(w.ok)) w else if (w.total.get(c) + x > w.ceiling.get(c)) { ...w, ok: false } else { ...w, total: w.total.setBy(c, t => t + x) }
  // what moves between holders within the bridge is not held against the ceiling
  pure def moreMoved(w: World, c: int, x: int): World = if (not(w.ok)) w else { ...w, total: w.total.setBy(c, t => t + x) }
  pure def less(w: World, c: int, x: int): World =
    if (not(w.ok)) w else if (x < 0 or w.total.get(c) < x) { ...w, ok: false } else { ...w, total: w.total.setBy(c, t => t - x) }

  pure def setVault(w: World, v: int, x: Vault): World =
    if (not(w.ok)) w
    else if (x.toIssue < 0 or x.issued < 0 or x.toRedeem < 0 or x.toReplace < 0 or x.replaceCol < 0 or x.activeReplace < 0 or x.liquidated < 0) { ...w, ok: false }
    else { ...w, vaults: w.vaults.set(v, x) }
  pure def setLiq(w: World, c: int, x: Liq): World =
    if (not(w.ok)) w else if (x.toIssue < 0 or x.issued < 0 or x.toRedeem < 0 or x.collateral < 0) { ...w, ok: false }
    else { ...w, liq: w.liq.set(c, x) }
  pure def vault(w: World, v: int): Vault = w.vaults.get(v)
  pure def liquidated(w: World, v: int): bool = vault(w, v).status == 3
  pure def active(w: World, v: int): bool = vault(w, v).status == 1 or vault(w, v).status == 2
  pure def banned(w: World, v: int): bool = w.now <= vault(w, v).banned
  pure def known(w: World, v: int): bool = vault(w, v).status > 0

  // tokens: a liquidated vault's issued and to-be-issued ones are the liquidation vault's
  pure def addIssued(w: World, v: int, x: int): World =
    if (liquidated(w, v)) setLiq(w, col(v), { ...w.liq.get(col(v)), issued: w.liq.get(col(v)).issued + x })
    else setVault(w, v, { ...vault(w, v), issued: vault(w, v).issued + x })
  pure def addToIssue(w: World, v: int, x: int): World =
    if (x >= 0 and liquidated(w, v)) need(w, false)
    else if (liquidated(w, v)) setLiq(w, col(v), { ...w.liq.get(col(v)), toIssue: w.liq.get(col(v)).toIssue + x })
    else setVault(w, v, { ...vault(w, v), toIssue: vault(w, v).toIssue + x })
  pure def takeToIssue(w: World, v: int, x: int): World =
    if (liquidated(w, v)) setLiq(w, col(v), { ...w.liq.get(col(v)), toIssue: w.liq.get(col(v)).toIssue - x })
    else setVault(w, v, { ...vault(w, v), toIssue: vault(w, v).toIssue - x })
  pure def takeToRedeem(w: World, v: int, x: int): World = {
    pure val w1 = if (liquidated(w, v)) setLiq(w, col(v), { ...w.liq.get(col(v)), toRedeem: w.liq.get(col(v)).toRedeem - x }) else w
    setVault(w1, v, { ...vault(w, v), toRedeem: vault(w, v).toRedeem - x })
  }
  pure def issueTokens(w: World, v: int, x: int): World = addIssued(takeToIssue(w, v, x), v, x)
  pure def burnTokens(w: World, v: int, x: int): World = addIssued(takeToRedeem(w, v, x), v, -x)

  // how much of it a collateral can back, and whether that is less than x
  pure def maxTokens(w: World, c: int, x: int, threshold: int): int = {
    pure val b = convert(w, x, c, WRAPPED)
    if (b < 0) -1 else over(b, threshold)
  }
  pure def below(w: World, c: int, collateral: int, x: int, threshold: int): bool = maxTokens(w, c, collateral, threshold) < x
  pure def backed(w: World, v: int): int = vault(w, v).issued + vault(w, v).toIssue
  pure def priced(w: World, v: int): bool = w.rate.get(col(v)) >= 0
  pure def used(w: World, v: int, threshold: int): int = {
    pure val x = convert(w, backed(w, v), WRAPPED, col(v))
    if (x < 0) -1 else smaller(backing(w, v), down(x, threshold))
  }
  // what the vault can still issue, -1 when that cannot be told
  pure def issuable(w: World, v: int): int =
    if (banned(w, v)) 0
    else if (not(priced(w, v))) -1
    else maxTokens(w, col(v), backing(w, v) - used(w, v, secureOf(w, v)), secureOf(w, v))
  pure def requestIssueTokens(w: World, v: int, x: int): World =
    addToIssue(need(w, active(w, v) and issuable(w, v) >= x), v, x)
  pure def requestRedeemTokens(w: World, v: int, x: int): World =
    setVault(need(w, active(w, v) and vault(w, v).issued - vault(w, v).toRedeem >= x), v, { ...vault(w, v), toRedeem: vault(w, v).toRedeem + x })
  pure def underLiquidation(w: World, v: int): bool = below(w, col(v), backing(w, v), vault(w, v).issued, w.liquidation.get(col(v)))
  pure def underSecure(w: World, v: int): bool = below(w, col(v), backing(w, v), vault(w, v).issued, secureOf(w, v))
  // the most that is paid as premium: what takes the vault back to the secure threshold.  -1 when it cannot be told
  pure def maxPremium(w: World, v: int): int = {
    pure val s = w.secure.get(col(v))
    pure val required = convert(w, up(backed(w, v) - vault(w, v).toRedeem, s), WRAPPED, col(v))
    if (not(active(w, v)) or required < 0 or w.par.premiumFee >= s) -1
    else down(max0(required - backing(w, v)), over(w.par.premiumFee, s - w.par.premiumFee))
  }

  // whether the collateral may go down by x (all of it: -1); -1 refused, 0 no, 1 yes
  pure def mayWithdraw(w: World, v: int, x: int): int = {
    pure val left = if (x < 0) 0 else backing(w, v) - x
    if (not(known(w, v))) -1
    else if (left < 0) 0
    else if (left > 0 and left < w.minimum.get(col(v))) -1
    else if (not(priced(w, v))) -1
    else if (below(w, col(v), left, backed(w, v), secureOf(w, v))) 0
    else 1
  }

  pure def nominated(w: World, v: int): int = backing(w, v) - own(w, v)
  pure def deposit(w: World, v: int, a: int, x: int): World = {
    pure val c = col(v)
    pure val w1 = if (a == owner(v)) w else move(
      need(w, own(w, v) >= 0 and nominated(w, v) >= 0 and w.nomination and w.opted.contains(v) and nominated(w, v) + x <= w.limits.get(v)), a, owner(v), c, x)
    more(lock(depositStake(w1, v, a, x), owner(v), c, x), c, x)
  }
  // x = -1: all of it
  pure def withdraw(w: World, v: int, a: int, x: int, index: int): World = {
    pure val nonce = w.nonces.get(v)
    pure val n = smaller(index, nonce)
    pure val c = col(v)
    pure val open = n < nonce or (mayWithdraw(w, v, x) == 1 and (a == owner(v) or (w.nomination and w.opted.contains(v))))
    pure val w1 = need(w, open)
    pure val out = if (x >= 0) x else st::withdrawAll(w.pools.get((v, n)), a).out
    pure val w2 = if (x >= 0) withdrawStake(w1, v, a, n, x) else withdrawAllStake(w1, v, a, n)
    pure val w3 = move(unlock(w2, owner(v), c, out), owner(v), a, c, out)
    if (n == nonce) less(w3, c, out) else w3
  }
  // takes from all stakers; the collateral is the operator's to give away then
  pure def slashBacking(w: World, v: int, x: int): World = slashStake(less(unlock(w, owner(v), col(v), x), col(v), x), v, x)

  // replace: what is asked for goes down by up to x; the collateral put up for it comes free in proportion
  pure def replaced(w: World, v: int, x: int): { tokens: int, grief: int } = {
    pure val u = smaller(x, vault(w, v).toReplace)
    { tokens: u, grief: smaller(share(vault(w, v).replaceCol, u, vault(w, v).toReplace), vault(w, v).replaceCol) }
  }
  pure def lessToReplace(w: World, v: int, x: int): World =
    setVault(w, v, { ...vault(w, v), toReplace: vault(w, v).toReplace - replaced(w, v, x).tokens })
  // out of the collateral put up for a replacement not yet accepted
  pure def freeReplaceCol(w: World, v: int, x: int): World =
    unlock(setVault(need(w, active(w, v)), v, { ...vault(w, v), replaceCol: vault(w, v).replaceCol - x }), owner(v), NATIVE, x)
  pure def freeActiveReplace(w: World, v: int, x: int): World =
    unlock(setVault(w, v, { ...vault(w, v), activeReplace: vault(w, v).activeReplace - x }), owner(v), NATIVE, x)
  pure def withdrawReplace(w: World, v: int, x: int): World =
    freeReplaceCol(lessToReplace(w, v, x), v, replaced(w, v, x).grief)
  pure def releaseReplace(w: World, v: int, x: int): World = {
    pure val g = replaced(w, v, x).grief
    pure val w1 = lessToReplace(w, v, x)
    if (g == 0) w1 else freeReplaceCol(w1, v, g)
  }

  // a vault below its threshold loses the collateral that backs its tokens, its own before its nominators'
  pure def liquidate(w: World, v: int): World = {
    pure val c = col(v)
    pure val take = used(w, v, w.liquidation.get(c))
    pure val w1 = withdrawReplace(w, v, vault(w, v).toReplace)
    pure val x = vault(w1, v)
    pure val b = x.issued + x.toIssue
    pure val away = share(take, b - x.toRedeem, b)
    pure val kept = smaller(own(w1, v), max0(take - away))
    if (take < 0 or away < 0 or not(w1.ok)) { ...w, ok: false } else {
      pure val w2 = withdrawStake(setVault(w1, v, { ...x, liquidated: x.liquidated + kept }), v, owner(v), w1.nonces.get(v), kept)
      pure val mine = own(w2, v)
      pure val w3 = withdrawStake(w2, v, owner(v), w2.nonces.get(v), smaller(away, mine))
      pure val w4 = if (away >= mine) slashStake(w3, v, away - mine) else w3
      pure val w5 = unlock(less(w4, c, away), owner(v), c, away)
      pure val l = w5.liq.get(c)
      pure val w6 = lock(moreMoved(move(w5, owner(v), LIQUIDATION, c, away), c, away), LIQUIDATION, c, away)
      pure val w7 = setLiq(w6, c, { collateral: l.collateral + away, issued: l.issued + x.issued, toIssue: l.toIssue + x.toIssue, toRedeem: l.toRedeem + x.toRedeem })
      follow(setVault(w7, v, { ...vault(w7, v), toIssue: 0, issued: 0, status: 3 }), v)
    }
  }

  // fees go to the capacity pool, or to the treasury when it has no stake
  pure def shareFees(w: World, x: int): World = {
    pure val r = rw::distribute(w.cap, 0, 0, x)
    if (not(w.ok)) w else if (r.ok) { ...w, cap: r.w } else move(w, FEES, TREASURY, WRAPPED, x)
  }
  pure def expired(w: World, opened: int, height: int, period: int): bool =
    w.now > opened + period and w.height > height + (period + w.par.perBlock - 1) / w.par.perBlock
}
