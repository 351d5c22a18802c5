// Histories of the bridge.
module bridge {
  import fixed.* from "../pools/fixed"
  import stakingcore as st from "../pools/stakingcore"
  import rewardcore as rw from "../pools/rewardcore"
  import world.* from "./world"
  import ops.* from "./ops"

  type Op = { what: str, ok: bool, who: int, v: int, v2: int, x: int, y: int, c: int, id: int }
  type Look = { issuable: int, premium: int, secure: int, capacity: int, required: int, collateralization: int, below: int, low: int, stake: (int, int) -> int, reward: (int, int, int) -> int }

  var w: World
  var op: Op
  var look: int -> Look
  // what the reward pools owe: (pool, staker, currency)
  var owed: (int, int, int) -> int
  // how often a part of a unit may have been left behind
  var rounded: int
  // the redeems whose burnt tokens were minted again
  var minted: Set[int]

  pure val NONCES = 0.to(2)
  pure val none = { what: "none", ok: true, who: 0, v: 0, v2: 0, x: 0, y: 0, c: 0, id: 0 }

  pure def lookAt(w: World, v: int): Look = {
    pure val required = convert(w, up(backed(w, v), secureOf(w, v)), WRAPPED, col(v))
    pure val value = convert(w, backing(w, v), col(v), WRAPPED)
    // the stakers of its pools so far: the others have nothing
    pure val seen = tuples(0.to(w.nonces.get(v)), PEOPLE).filter(k => {
      pure val p = w.pools.get((v, k._1))
      p.stake.get(k._2) != 0 or p.slashTally.get(k._2) != 0 or p.rewardTally.get((0, k._2)) != 0 or p.rewardTally.get((1, k._2)) != 0
    })
    {
      issuable: if (not(active(w, v))) -1 else if (vault(w, v).status == 2) 0 else issuable(w, v),
      premium: maxPremium(w, v),
      secure: if (known(w, v)) secureOf(w, v) else 0,
      capacity: if (known(w, v) and own(w, v) >= 0) maxTokens(w, col(v), own(w, v), secureOf(w, v)) else -1,
      required: if (active(w, v)) required else -1,
      collateralization: if (not(active(w, v)) or backed(w, v) == 0 or value < 0) -1 else over(value, backed(w, v)),
      below: if (not(known(w, v)) or not(priced(w, v))) -1 else if (underLiquidation(w, v)) 1 else 0,
      low: if (not(known(w, v)) or not(priced(w, v)) or vault(w, v).toRedeem > backed(w, v)) -1 else if (below(w, col(v), backing(w, v), backed(w, v) - vault(w, v).toRedeem, w.premium.get(col(v)))) 1 else 0,
      stake: seen.mapBy(k => st::stakeOf(w.pools.get((v, k._1)), k._2)),
      reward: tuples(seen, Set(0, 1)).map(k => (k._1._1, k._1._2, k._2)).mapBy(k => st::rewardOf(w.pools.get((v, k._1)), k._3, k._2)),
    }
  }
  pure def owing(w: World): (int, int, int) -> int = {
    pure val caps = tuples(Set(-1), COLLATERALS, Set(0, 1)).mapBy(k => rw::claim(w.cap, k._3, 0, k._2))
    pure val rest = tuples(VAULTS.filter(v => known(w, v)), Set(0, 1)).map(k => (col(k._1), k._1, k._2)).mapBy(k => rw::claim(w.rew, k._3, k._1, k._2))
    caps.keys().union(rest.keys()).mapBy(k => if (k._1 < 0) caps.get(k) else rest.get(k))
  }

  action see(x: World, o: Op): bool = all {
    w' = x,
    op' = o,
    look' = VAULTS.filter(v => known(x, v)).mapBy(v => lookAt(x, v)),
    owed' = owing(x),
  }
  action done(x: World, o: Op): bool = {
    val after = if (x.ok) x else w
    all {
      see(after, { ...o, ok: x.ok }),
      rounded' = rounded + 1,
      minted' = if (x.ok and o.what == "mint reimbursed") minted.union(Set(o.id)) else minted,
    }
  }

  pure val fees = Set(0, 15 * 10 ^ 14, 5 * 10 ^ 15, 10 ^ 17, 333333333333333333)
  pure val rates = Set(5 * 10 ^ 17, 10 ^ 18, 137 * 10 ^ 16, 2 * 10 ^ 18, 7333333333333333333)
  action init = all {
    nondet issueFee = fees.oneOf()
    nondet issueGrief = fees.oneOf()
    nondet redeemFee = fees.oneOf()
    nondet premiumFee = Set(0, 5 * 10 ^ 16, 3 * 10 ^ 17).oneOf()
    nondet punishment = fees.oneOf()
    nondet replaceGrief = fees.oneOf()
    nondet inclusionFee = Set(0, 3, 40).oneOf()
    nondet dusts = Set((0, 0, 0), (2, 10, 5), (100, 1, 50)).oneOf()
    nondet delay = Set(0, 5, 40).oneOf()
    nondet perBlock = Set(1, 5, 100).oneOf()
    nondet r0 = rates.oneOf()
    nondet r1 = rates.oneOf()
    nondet ceiling = Set(60000, 1000000, 1000000000).oneOf()
    nondet minimum = Set(0, 100, 3000).oneOf()
    nondet secure = Set(15 * 10 ^ 17, 26 * 10 ^ 17).oneOf()
    nondet premium = Set(12 * 10 ^ 17, 1350000000000000001).oneOf()
    nondet sizes = Set(List(20000, 5000, 20000, 5000), List(33333, 20000, 5000, 0), List(5000, 5000, 33333, 33333), List(12345, 0, 12345, 0)).oneOf()
    nondet periods = Set((10, 10, 10), (30, 7, 20), (0, 15, 3)).oneOf()
    nondet nomination = Set(true, false).oneOf()
    {
      val par = { issueFee: issueFee, issueGrief: issueGrief, redeemFee: redeemFee, premiumFee: premiumFee, punishment: punishment, replaceGrief: replaceGrief,
        inclusionFee: inclusionFee, redeemDust: dusts._1, issueDust: dusts._2, replaceDust: dusts._3, delay: delay, perBlock: perBlock }
      val fresh = { status: 0, banned: 0, custom: 0, toIssue: 0, issued: 0, toRedeem: 0, toReplace: 0, replaceCol: 0, activeReplace: 0, liquidated: 0 }
      val genesis = {
        ok: true, par: par,
        free: tuples(ACCOUNTS, 0.to(2)).mapBy(k => if (PEOPLE.contains(k._1) and k._2 != WRAPPED) 100000 else 0), res: tuples(ACCOUNTS, 0.to(2)).mapBy(k => 0),
        vaults: VAULTS.mapBy(v => fresh), liq: COLLATERALS.mapBy(c => { toIssue: 0, issued: 0, toRedeem: 0, collateral: 0 }), total: COLLATERALS.mapBy(c => 0),
        pools: tuples(VAULTS, NONCES).mapBy(k => st::empty(PEOPLE)), nonces: VAULTS.mapBy(v => 0),
        cap: rw::empty(Set(0), COLLATERALS, Set(0, 1), 10), rew: rw::empty(COLLATERALS, VAULTS, Set(0, 1), 10),
        rate: Map(0 -> r0, 1 -> r1), ceiling: COLLATERALS.mapBy(c => ceiling), minimum: COLLATERALS.mapBy(c => minimum),
        secure: COLLATERALS.mapBy(c => secure), premium: COLLATERALS.mapBy(c => premium), liquidation: COLLATERALS.mapBy(c => 11 * 10 ^ 17),
        nomination: nomination, opted: Set(), limits: VAULTS.mapBy(v => 0), commission: VAULTS.mapBy(v => 0),
        issues: Map(), redeems: Map(), replaces: Map(),
        issuePeriod: periods._1, redeemPeriod: periods._2, replacePeriod: periods._3, now: 1, height: 100,
      }
      val start = List(0, 1, 2, 3).foldl(genesis, (acc, i) => if (sizes[i] == 0) acc else { val r = register(acc, i + 1, sizes[i]) if (r.ok) r else acc })
      all { see(start, none), rounded' = 0, minted' = Set() }
    },
  }

  pure def pick(k: int, edge: int, r: int): int =
    if (k == 0) max0(edge) else if (k == 1) max0(edge + 1) else if (k == 2) max0(edge - 1) else if (k == 3) 0 else if (k == 4) max0(edge / 2) else r
  pure def half(k: int, a: Set[int], b: Set[int]): Set[int] = if (k == 0) b else a
  val registered = VAULTS.filter(v => known(w, v))
  val working = registered.filter(v => active(w, v))

  // vaults
  action actRegister = {
    nondet v = VAULTS.filter(v => not(known(w, v))).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(40000).oneOf()
    val x = pick(k, w.minimum.get(col(v)), r)
    done(register(w, v, x), { ...none, what: "register", v: v, x: x })
  }
  action actAccept = {
    nondet v = VAULTS.oneOf()
    nondet yes = Set(true, false).oneOf()
    done(accept(w, v, yes), { ...none, what: "accept", v: v, x: if (yes) 1 else 0 })
  }
  action actCustomize = {
    nondet v = VAULTS.oneOf()
    nondet x = Set(0, w.secure.get(col(v)), w.secure.get(col(v)) + 1, 3 * 10 ^ 18, 17 * 10 ^ 17).oneOf()
    done(customize(w, v, x), { ...none, what: "customize", v: v, x: x })
  }
  action actReport = {
    nondet v = half(0, Set(), registered).oneOf()
    done(report(w, v), { ...none, what: "report", v: v })
  }
  action actReportBad = {
    nondet v = working.filter(v => priced(w, v) and underLiquidation(w, v)).oneOf()
    done(report(w, v), { ...none, what: "report", v: v })
  }
  // vaults with requests under way wait until they are settled
  action actRecover = {
    nondet rare = 0.to(9).oneOf()
    nondet v = half(rare, registered.filter(v => liquidated(w, v)), registered).filter(v => and {
      not(w.issues.keys().exists(i => w.issues.get(i).vault == v and w.issues.get(i).status == "pending")),
      not(w.replaces.keys().exists(i => w.replaces.get(i).new == v and w.replaces.get(i).status == "pending")) }).oneOf()
    done(recover(w, v), { ...none, what: "recover", v: v })
  }
  action actPrice = {
    nondet c = COLLATERALS.oneOf()
    nondet f = Set(0, 7, 9, 11, 13, 15, 30).oneOf()
    nondet r = rates.oneOf()
    val now = w.rate.get(c)
    val x = if (now > 0 and f > 0 and now * f / 10 > 10 ^ 16 and now * f / 10 < 10 ^ 20) now * f / 10 else if (f == 0 and now > 0) -1 else r
    done(price(w, c, x), { ...none, what: "price", c: c, x: x })
  }
  // a price that takes a vault to one of its thresholds
  action actEdge = {
    nondet v = working.filter(v => backed(w, v) > 0 and backing(w, v) > 0).oneOf()
    nondet t = Set(w.secure.get(col(v)), w.premium.get(col(v)), w.liquidation.get(col(v))).oneOf()
    nondet f = Set(950, 999, 1000, 1001, 1020, 1300).oneOf()
    val x = backing(w, v) * ONE * ONE / (backed(w, v) * t) * f / 1000
    val c = col(v)
    all { x > 10 ^ 16, x < 10 ^ 20, done(price(w, c, x), { ...none, what: "price", c: c, x: x }) }
  }
  // when the ban is over and the price good, a vault can mint what it reimbursed
  action actRelief = {
    nondet id = w.redeems.keys().filter(i => w.redeems.get(i).status == "burnt").oneOf()
    nondet f = Set(20, 40).oneOf()
    val v = w.redeems.get(id).vault
    val x = w.rate.get(col(v)) * 10 / f
    if (vault(w, v).banned >= w.now) done(tick(w, vault(w, v).banned - w.now + 1, 0), { ...none, what: "tick", x: vault(w, v).banned - w.now + 1 })
    else all { issuable(w, v) < w.redeems.get(id).amount, x > 10 ^ 16, done(price(w, col(v), x), { ...none, what: "price", c: col(v), x: x }) }
  }
  // the time at which a request under way runs out, or is about to
  pure def wait(w: World, opened: int, height: int, period: int, a: int, b: int): { x: int, y: int } =
    { x: max0(opened + period - w.now + a), y: max0(height + (period + w.par.perBlock - 1) / w.par.perBlock - w.height + b) }
  action waited(r: { x: int, y: int }): bool = done(tick(w, r.x, r.y), { ...none, what: "tick", x: r.x, y: r.y })
  action actWait = {
    nondet a = Set(0, 1, 2).oneOf()
    nondet b = Set(0, 1, 2).oneOf()
    any {
      { nondet id = w.issues.keys().filter(i => w.issues.get(i).status == "pending").oneOf()
        val r = w.issues.get(id)
        waited(wait(w, r.opened, r.height, larger(r.period, w.issuePeriod), a, b)) },
      { nondet id = w.redeems.keys().filter(i => w.redeems.get(i).status == "pending").oneOf()
        val r = w.redeems.get(id)
        waited(wait(w, r.opened, r.height, larger(r.period, w.redeemPeriod), a, b)) },
      { nondet id = w.replaces.keys().filter(i => w.replaces.get(i).status == "pending").oneOf()
        val r = w.replaces.get(id)
        waited(wait(w, r.opened, r.height, larger(r.period, w.replacePeriod), a, b)) },
    }
  }
  action actTick = {
    nondet x = Set(0, 1, 3, 8, 25, 120).oneOf()
    nondet y = Set(0, 1, 2, 3).oneOf()
    done(tick(w, x, y), { ...none, what: "tick", x: x, y: y })
  }
  action actRoot = {
    nondet c = COLLATERALS.oneOf()
    nondet id = 0.to(8).oneOf()
    nondet k = 0.to(3).oneOf()
    val x =
      if (id == 0) List(15 * 10 ^ 17, 2 * 10 ^ 18, 26 * 10 ^ 17, 1500000000000000001)[k]
      else if (id == 1) List(12 * 10 ^ 17, 135 * 10 ^ 16, 1200000000000000001, 14 * 10 ^ 17)[k]
      else if (id == 2) List(11 * 10 ^ 17, 10 ^ 18, 1100000000000000001, 13 * 10 ^ 17)[k]
      else if (id == 3) List(0, 100, 3000, 20000)[k]
      else if (id == 4) List(w.total.get(c), w.total.get(c) / 2, 1000000, w.total.get(c) + 1000)[k]
      else if (id < 8) List(0, 5, 20, 60)[k]
      else k % 2
    val next_ =
      if (id == 0) { ...w, secure: w.secure.set(c, x) } else if (id == 1) { ...w, premium: w.premium.set(c, x) }
      else if (id == 2) { ...w, liquidation: w.liquidation.set(c, x) } else if (id == 3) { ...w, minimum: w.minimum.set(c, x) }
      else if (id == 4) { ...w, ceiling: w.ceiling.set(c, x) } else if (id == 5) { ...w, issuePeriod: x }
      else if (id == 6) { ...w, redeemPeriod: x } else if (id == 7) { ...w, replacePeriod: x }
      else { ...w, nomination: x == 1 }
    done(next_, { ...none, what: "root", id: id, c: c, x: x })
  }

  // collateral
  action actDeposit = {
    nondet v = VAULTS.oneOf()
    nondet mine = Set(true, false).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(9000).oneOf()
    val who = if (mine) owner(v) else a
    val edge = if (mine) w.ceiling.get(col(v)) - w.total.get(col(v)) else w.limits.get(v) - nominated(w, v)
    val x = pick(k, edge, r)
    done(deposit(w, v, who, x), { ...none, what: "deposit", v: v, who: who, x: x })
  }
  action actWithdraw = {
    nondet v = half(0, Set(), registered).oneOf()
    nondet mine = Set(true, false).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet k = 0.to(12).oneOf()
    nondet r = 1.to(9000).oneOf()
    nondet index = 0.to(3).oneOf()
    val who = if (mine) owner(v) else a
    val free_ = backing(w, v) - up(convert(w, backed(w, v), WRAPPED, col(v)), secureOf(w, v))
    val edge = if (k % 2 == 0) st::stakeOf(w.pools.get((v, smaller(index, w.nonces.get(v)))), who) else free_
    val x = if (k > 9) -1 else pick(k / 2, edge, r)
    done(withdraw(w, v, who, x, index), { ...none, what: "withdraw", v: v, who: who, x: x, id: index })
  }
  action actOpt = {
    nondet v = VAULTS.oneOf()
    nondet out = 0.to(3).oneOf()
    if (out == 0 and w.nonces.get(v) < 2) done(optOut(w, v), { ...none, what: "opt out", v: v }) else done(optIn(w, v), { ...none, what: "opt in", v: v })
  }
  action actLimit = {
    nondet v = VAULTS.oneOf()
    nondet x = Set(0, 500, 20000).oneOf()
    done({ ...w, limits: w.limits.set(v, x) }, { ...none, what: "limit", v: v, x: x })
  }
  action actCommission = {
    nondet rare = 0.to(9).oneOf()
    nondet v = (if (rare > 0 and w.opted != Set()) w.opted else VAULTS).oneOf()
    nondet x = Set(0, 10 ^ 17, 7 * 10 ^ 17, 10 ^ 18, 10 ^ 18 + 1).oneOf()
    done(setCommission(w, v, x), { ...none, what: "commission", v: v, x: x })
  }
  action actCollect = {
    nondet v = half(0, Set(), registered).oneOf()
    nondet mine = Set(true, false).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet index = Set(-1, 0, 1, 2).oneOf()
    val who = if (mine) owner(v) else a
    done(collect(w, v, who, smaller(index, w.nonces.get(v))), { ...none, what: "collect", v: v, who: who, x: smaller(index, w.nonces.get(v)) })
  }
  action actReward = {
    nondet x = 1.to(3000).oneOf()
    done(reward(w, x), { ...none, what: "reward", x: x })
  }

  // issue
  action actIssue = {
    nondet v = half(0, Set(), registered).oneOf()
    nondet who = PEOPLE.oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(3000).oneOf()
    nondet c = Set(0, 1).oneOf()
    val x = pick(k, if (active(w, v)) issuable(w, v) else 100, r)
    done(requestIssue(w, who, v, x, c), { ...none, what: "issue", who: who, v: v, x: x, c: c })
  }
  action actExecuteIssue = {
    nondet rare = 0.to(9).oneOf()
    nondet id = half(rare, w.issues.keys().filter(i => w.issues.get(i).status != "completed"), w.issues.keys()).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(900).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet mine = 0.to(3).oneOf()
    nondet wrong = 0.to(12).oneOf()
    val i = w.issues.get(id)
    val due = i.amount + i.fee
    val x = larger(1, if (k < 4) due else if (k == 4) due - 1 else if (k == 5) due + 1 else if (k < 8) due + r else due - r)
    val who = if (mine < 3) i.who else a
    done(need(executeIssue(w, who, id, x), wrong != 1), { ...none, what: "execute issue", who: who, id: id, x: x, y: if (wrong == 1) 1 else 0 })
  }
  action actCancelIssue = {
    nondet rare = 0.to(9).oneOf()
    nondet id = half(rare, w.issues.keys().filter(i => w.issues.get(i).status == "pending"), w.issues.keys()).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet mine = Set(true, false).oneOf()
    val who = if (mine) w.issues.get(id).who else a
    done(cancelIssue(w, who, id), { ...none, what: "cancel issue", who: who, id: id })
  }
  // an issue from its request to its payment
  action actMint = {
    nondet v = working.filter(v => issuable(w, v) >= w.par.issueDust and vault(w, v).status == 1).oneOf()
    nondet who = PEOPLE.oneOf()
    nondet part = 1.to(9).oneOf()
    val x = larger(larger(1, w.par.issueDust), issuable(w, v) * part / 9)
    val a = requestIssue(w, who, v, x, NATIVE)
    val b = if (a.ok) executeIssue(a, who, w.issues.keys().size(), x) else a
    done(b, { ...none, what: "mint", who: who, v: v, x: x })
  }

  // redeem
  action actRedeem = {
    nondet v = half(0, Set(), registered).oneOf()
    nondet who = PEOPLE.filter(a => w.free.get((a, WRAPPED)) > 0).oneOf()
    nondet k = 0.to(12).oneOf()
    nondet r = 1.to(3000).oneOf()
    val most = vault(w, v).issued - vault(w, v).toRedeem
    val x = pick(if (k > 9) 4 else k / 2, if (k % 2 == 0) w.free.get((who, WRAPPED)) else smaller(w.free.get((who, WRAPPED)), most), r)
    done(requestRedeem(w, who, v, x), { ...none, what: "redeem", who: who, v: v, x: x })
  }
  action actExecuteRedeem = {
    nondet rare = 0.to(9).oneOf()
    nondet id = half(rare, w.redeems.keys().filter(i => w.redeems.get(i).status == "pending"), w.redeems.keys()).oneOf()
    // 1: not to the address that was asked for, 2: for another request, 3: a unit less, 4: for no request
    nondet wrong = 0.to(25).oneOf()
    val bad = if (wrong < 5 and not(wrong == 3 and w.redeems.get(id).amount == 0)) wrong else 0
    done(need(executeRedeem(w, id), bad == 0), { ...none, what: "execute redeem", id: id, y: bad })
  }
  action actCancelRedeem = {
    nondet rare = 0.to(9).oneOf()
    nondet id = half(rare, w.redeems.keys().filter(i => { val r = w.redeems.get(i) r.status == "pending" and expired(w, r.opened, r.height, larger(r.period, w.redeemPeriod)) }), w.redeems.keys()).oneOf()
    nondet a = PEOPLE.oneOf()
    nondet mine = 0.to(9).oneOf()
    nondet y = Set(0, 1).oneOf()
    val who = if (mine > 0) w.redeems.get(id).who else a
    done(cancelRedeem(w, who, id, y == 1), { ...none, what: "cancel redeem", who: who, id: id, y: y })
  }
  action actMintReimbursed = {
    nondet rare = 0.to(4).oneOf()
    nondet id = half(rare, w.redeems.keys().filter(i => w.redeems.get(i).status == "burnt"), w.redeems.keys().filter(i => w.redeems.get(i).status == "reimbursed")).oneOf()
    nondet other = 0.to(9).oneOf()
    nondet u = VAULTS.oneOf()
    val v = if (other > 0) w.redeems.get(id).vault else u
    done(mintReimbursed(w, v, id), { ...none, what: "mint reimbursed", v: v, id: id })
  }
  def mintable(id: int): bool = {
    val r = w.redeems.get(id)
    active(w, r.vault) and not(banned(w, r.vault)) and issuable(w, r.vault) >= r.amount + r.transfer
  }
  action actMintReady = {
    nondet id = w.redeems.keys().filter(i => w.redeems.get(i).status == "burnt" and mintable(i)).oneOf()
    val v = w.redeems.get(id).vault
    done(mintReimbursed(w, v, id), { ...none, what: "mint reimbursed", v: v, id: id })
  }
  action actMintAgain = {
    nondet id = minted.filter(mintable).oneOf()
    val v = w.redeems.get(id).vault
    done(mintReimbursed(w, v, id), { ...none, what: "mint reimbursed", v: v, id: id })
  }
  action actSelfRedeem = {
    nondet v = registered.filter(v => vault(w, v).issued > 0).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(2000).oneOf()
    val x = pick(k, smaller(w.free.get((owner(v), WRAPPED)), vault(w, v).issued - vault(w, v).toRedeem), r)
    done(selfRedeem(w, v, x), { ...none, what: "self redeem", v: v, x: x })
  }
  action actLiquidationRedeem = {
    nondet c = half(0, Set(), COLLATERALS.filter(c => w.liq.get(c).issued > 0)).oneOf()
    nondet who = PEOPLE.filter(a => w.free.get((a, WRAPPED)) > 0).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(2000).oneOf()
    val x = pick(k, smaller(w.free.get((who, WRAPPED)), w.liq.get(c).issued - w.liq.get(c).toRedeem), r)
    done(liquidationRedeem(w, who, c, x), { ...none, what: "liquidation redeem", who: who, c: c, x: x })
  }

  // replace
  action actReplace = {
    nondet v = registered.filter(v => vault(w, v).issued > 0).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(3000).oneOf()
    val x = pick(k, vault(w, v).issued - vault(w, v).toReplace - vault(w, v).toRedeem, r)
    done(requestReplace(w, v, x), { ...none, what: "replace", v: v, x: x })
  }
  action actWithdrawReplace = {
    nondet rare = 0.to(9).oneOf()
    nondet v = half(rare, registered.filter(v => vault(w, v).toReplace > 0), registered).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(2000).oneOf()
    val x = pick(k, vault(w, v).toReplace, r)
    done(withdrawReplaceRequest(w, v, x), { ...none, what: "withdraw replace", v: v, x: x })
  }
  action actAcceptReplace = {
    nondet rare = 0.to(9).oneOf()
    nondet old = half(rare, registered.filter(v => vault(w, v).toReplace > 0), registered).oneOf()
    nondet new = VAULTS.oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r = 1.to(3000).oneOf()
    nondet y = Set(0, 1, 1000, 8000).oneOf()
    val x = pick(k, vault(w, old).toReplace, r)
    done(acceptReplace(w, old, new, x, y), { ...none, what: "accept replace", v: old, v2: new, x: x, y: y })
  }
  action actExecuteReplace = {
    nondet rare = 0.to(9).oneOf()
    nondet id = half(rare, w.replaces.keys().filter(i => w.replaces.get(i).status != "completed"), w.replaces.keys()).oneOf()
    nondet wrong = 0.to(25).oneOf()
    val bad = if (wrong < 5 and not(wrong == 3 and w.replaces.get(id).amount == 0)) wrong else 0
    done(need(executeReplace(w, id), bad == 0), { ...none, what: "execute replace", id: id, y: bad })
  }
  action actCancelReplace = {
    nondet rare = 0.to(9).oneOf()
    nondet id = half(rare, w.replaces.keys().filter(i => { val r = w.replaces.get(i) r.status == "pending" and expired(w, r.opened, r.height, larger(r.period, w.replacePeriod)) }), w.replaces.keys()).oneOf()
    done(cancelReplace(w, id), { ...none, what: "cancel replace", id: id })
  }

  action world_ = any { actRegister, actAccept, actCustomize, actReport, actReportBad, actRecover, actPrice, actEdge, actTick, actWait, actRoot }
  action staking_ = any { actDeposit, actWithdraw, actOpt, actLimit, actCommission, actCollect, actReward }
  action step = any {
    actRegister, actAccept, actCustomize, actReport, actReportBad, actRecover, actPrice, actEdge, actTick, actWait, actRoot,
    actDeposit, actWithdraw, actOpt, actLimit, actCommission, actCollect, actReward,
    actIssue, actExecuteIssue, actCancelIssue, actMint,
    actRedeem, actExecuteRedeem, actCancelRedeem, actMintReimbursed, actSelfRedeem, actLiquidationRedeem,
    actReplace, actWithdrawReplace, actAcceptReplace, actExecuteReplace, actCancelReplace,
  }
  action stepIssue = any { world_, staking_, actMint, actIssue, actIssue, actIssue, actExecuteIssue, actExecuteIssue, actExecuteIssue, actCancelIssue, actCancelIssue, actWait, actEdge, actReportBad, actAccept, actRedeem, actExecuteRedeem }
  action stepRedeem = any { world_, staking_, actMint, actMint, actRedeem, actRedeem, actRedeem, actRedeem, actExecuteRedeem, actExecuteRedeem, actCancelRedeem, actCancelRedeem, actCancelRedeem, actMintReimbursed, actMintReimbursed, actRelief, actRelief, actRelief, actRelief,
    actSelfRedeem, actWait, actWait, actEdge, actEdge, actReportBad, actDeposit }
  action stepReplace = any { world_, staking_, actMint, actMint, actReplace, actReplace, actReplace, actWithdrawReplace, actAcceptReplace, actAcceptReplace, actAcceptReplace, actExecuteReplace, actExecuteReplace, actCancelReplace, actCancelReplace,
    actWait, actWait, actEdge, actReportBad, actRedeem, actDeposit, actWithdraw, actOpt }
  action stepLiquidate = any { world_, staking_, actMint, actMint, actIssue, actExecuteIssue, actCancelIssue, actRedeem, actRedeem, actExecuteRedeem, actCancelRedeem, actReplace, actAcceptReplace, actExecuteReplace, actCancelReplace,
    actEdge, actEdge, actReportBad, actReportBad, actReportBad, actLiquidationRedeem, actLiquidationRedeem, actRecover, actRecover, actWait, actMintReimbursed, actRelief }
  action stepStaking = any { staking_, staking_, staking_, actOpt, actLimit, actDeposit, actDeposit, actWithdraw, actWithdraw, actCollect, actReward, actMint, actMint, actCancelRedeem, actRedeem, actExecuteRedeem, actWait, actEdge, actReportBad, world_ }
  action stepCollateral = any { world_, actDeposit, actDeposit, actDeposit, actWithdraw, actWithdraw, actWithdraw, actWithdraw, actMint, actMint, actIssue, actCustomize, actEdge, actEdge, actRoot, actAccept, actRegister, actRedeem, actExecuteRedeem, actCancelRedeem,
    actOpt, actLimit, actReplace, actAcceptReplace, actReportBad, actWait }
  action stepFees = any { staking_, actReward, actReward, actReward, actCollect, actCollect, actMint, actMint, actIssue, actExecuteIssue, actRedeem, actRedeem, actExecuteRedeem, actCancelRedeem, actSelfRedeem, actWait, actPrice, actEdge, actAccept, actCustomize,
    actDeposit, actWithdraw, actOpt, actLimit, actOpt, actCommission, actCommission, actReportBad, actRecover, actCancelIssue }

  // vaults that fail with requests under way, and what becomes of those
  val pendingIssues = w.issues.keys().filter(i => w.issues.get(i).status == "pending").map(i => w.issues.get(i).vault)
  val pendingRedeems = w.redeems.keys().filter(i => w.redeems.get(i).status == "pending").map(i => w.redeems.get(i).vault)
  val pendingReplaces = w.replaces.keys().filter(i => w.replaces.get(i).status == "pending").map(i => w.replaces.get(i).old)
    .union(w.replaces.keys().filter(i => w.replaces.get(i).status == "pending").map(i => w.replaces.get(i).new))
  val engaged = pendingIssues.union(pendingRedeems).union(pendingReplaces)
  // a price between two of the thresholds, or below all of them
  action actSqueeze = {
    nondet v = engaged.filter(v => active(w, v) and backed(w, v) > 0 and backing(w, v) > 0).oneOf()
    nondet t = Set(w.secure.get(col(v)), w.secure.get(col(v)), w.premium.get(col(v)), w.liquidation.get(col(v))).oneOf()
    val c = col(v)
    val x = backing(w, v) * ONE * ONE / (backed(w, v) * t) * 1010 / 1000
    all { x > 10 ^ 16, x < 10 ^ 20, done(price(w, c, x), { ...none, what: "price", c: c, x: x }) }
  }
  action settle_ = any { actWait, actWait, actExecuteIssue, actCancelIssue, actExecuteRedeem, actCancelRedeem, actCancelRedeem, actExecuteReplace, actCancelReplace }
  action stepDrama = if (w.redeems.keys().exists(i => w.redeems.get(i).status == "burnt")) any { actRelief, actRelief, actMintReady, actMintReady, actMintReimbursed, settle_, step }
    else if (op.ok and op.what == "mint reimbursed") any { actMintAgain, actMintAgain, actMint }
    else if (engaged.exists(v => liquidated(w, v))) any { settle_, settle_, settle_, step, actLiquidationRedeem }
    else if (engaged.size() > 1) any { actSqueeze, actReportBad, actWait, actCancelRedeem, actMintAgain, step }
    else any { actMint, actMint, actIssue, actRedeem, actRedeem, actReplace, actAcceptReplace, actMintAgain, actDeposit, step }

  // periods that change while requests are under way, and what can be done just before and after either runs out
  action actPeriods = {
    nondet k = 0.to(3).oneOf()
    nondet x = Set(0, 3, 12, 25, 60).oneOf()
    val next_ = if (k == 0) { ...w, issuePeriod: x } else if (k == 1) { ...w, redeemPeriod: x } else { ...w, replacePeriod: x }
    done(next_, { ...none, what: "root", id: if (k == 0) 5 else if (k == 1) 6 else 7, x: x })
  }
  action actWaitEither = {
    nondet a = Set(0, 1, 1, 2).oneOf()
    nondet b = Set(0, 1, 1, 2).oneOf()
    nondet own_ = Set(true, false).oneOf()
    any {
      { nondet id = w.issues.keys().filter(i => w.issues.get(i).status == "pending").oneOf()
        val r = w.issues.get(id)
        waited(wait(w, r.opened, r.height, if (own_) r.period else w.issuePeriod, a, b)) },
      { nondet id = w.redeems.keys().filter(i => w.redeems.get(i).status == "pending").oneOf()
        val r = w.redeems.get(id)
        waited(wait(w, r.opened, r.height, if (own_) r.period else w.redeemPeriod, a, b)) },
      { nondet id = w.replaces.keys().filter(i => w.replaces.get(i).status == "pending").oneOf()
        val r = w.replaces.get(id)
        waited(wait(w, r.opened, r.height, if (own_) r.period else w.replacePeriod, a, b)) },
    }
  }
  // on behalf of anybody
  action actCancelAny = any {
    { nondet id = w.issues.keys().filter(i => w.issues.get(i).status == "pending").oneOf()
      nondet who = PEOPLE.oneOf()
      done(cancelIssue(w, who, id), { ...none, what: "cancel issue", who: who, id: id }) },
    { nondet id = w.redeems.keys().filter(i => w.redeems.get(i).status == "pending").oneOf()
      nondet y = Set(0, 1).oneOf()
      val who = w.redeems.get(id).who
      done(cancelRedeem(w, who, id, y == 1), { ...none, what: "cancel redeem", who: who, id: id, y: y }) },
    { nondet id = w.replaces.keys().filter(i => w.replaces.get(i).status == "pending").oneOf()
      done(cancelReplace(w, id), { ...none, what: "cancel replace", id: id }) },
  }
  action actFinish = any { actExecuteIssue, actExecuteRedeem, actExecuteReplace }
  action stepPeriods = if (op.what == "tick" and engaged != Set()) any { actCancelAny, actCancelAny, actCancelAny, actFinish, actPeriods }
    else if (op.what == "root" and engaged != Set()) any { actWaitEither, actWaitEither, actIssue, actFinish }
    else if (engaged.size() > 1) any { actPeriods, actPeriods, actWaitEither, actSqueeze, actReportBad, actFinish }
    else any { actMint, actIssue, actIssue, actRedeem, actRedeem, actReplace, actAcceptReplace, actMint, actWait, step }

  // pools that are closed and opened again with nominators in them, and operators who lower what they take
  val nominators = w.opted.filter(v => active(w, v) and nominated(w, v) > 0)
  val closed = tuples(registered, NONCES, PEOPLE).filter(k => k._2 < w.nonces.get(k._1) and st::stakeOf(w.pools.get((k._1, k._2)), k._3) > 0)
  action actLimitBelow = {
    nondet v = nominators.oneOf()
    nondet k = 1.to(4).oneOf()
    val x = nominated(w, v) * (k - 1) / 4
    done({ ...w, limits: w.limits.set(v, x) }, { ...none, what: "limit", v: v, x: x })
  }
  action actNominate = {
    nondet v = w.opted.filter(v => w.limits.get(v) > nominated(w, v)).oneOf()
    nondet who = PEOPLE.oneOf()
    nondet k = 1.to(4).oneOf()
    val x = larger(1, (w.limits.get(v) - nominated(w, v)) * k / 4)
    done(deposit(w, v, who, x), { ...none, what: "deposit", v: v, who: who, x: x })
  }
  // a price at which a vault needs a part of what is nominated
  action actLean = {
    nondet v = nominators.filter(v => backed(w, v) > 0).oneOf()
    nondet k = 1.to(5).oneOf()
    val need_ = backing(w, v) - nominated(w, v) * (k - 1) / 4
    val c = col(v)
    val x = if (need_ > 0) need_ * ONE * ONE / (backed(w, v) * secureOf(w, v)) * 1005 / 1000 else 0
    all { x > 10 ^ 16, x < 10 ^ 20, done(price(w, c, x), { ...none, what: "price", c: c, x: x }) }
  }
  action actOptOut = {
    nondet v = w.opted.filter(v => w.nonces.get(v) < 2).oneOf()
    done(optOut(w, v), { ...none, what: "opt out", v: v })
  }
  action actOptIn = {
    nondet v = working.filter(v => not(w.opted.contains(v))).oneOf()
    done(optIn(w, v), { ...none, what: "opt in", v: v })
  }
  action actWithdrawClosed = {
    nondet k = closed.oneOf()
    nondet part = Set(1, 3, 4, 5).oneOf()
    val x = if (part == 5) -1 else st::stakeOf(w.pools.get((k._1, k._2)), k._3) * part / 4
    done(withdraw(w, k._1, k._3, x, k._2), { ...none, what: "withdraw", v: k._1, who: k._3, x: x, id: k._2 })
  }
  action actCollectClosed = {
    nondet v = registered.filter(v => w.nonces.get(v) > 0).oneOf()
    nondet who = PEOPLE.union(Set(owner(v))).oneOf()
    nondet n = 0.to(w.nonces.get(v) - 1).oneOf()
    done(collect(w, v, who, n), { ...none, what: "collect", v: v, who: who, x: n })
  }
  action actFill = {
    nondet v = w.opted.filter(v => active(w, v) and issuable(w, v) >= larger(1, w.par.issueDust) and vault(w, v).status == 1).oneOf()
    nondet who = PEOPLE.oneOf()
    nondet part = Set(5, 8, 9).oneOf()
    val x = larger(larger(1, w.par.issueDust), issuable(w, v) * part / 9)
    val a = requestIssue(w, who, v, x, NATIVE)
    val b = if (a.ok) executeIssue(a, who, w.issues.keys().size(), x) else a
    done(b, { ...none, what: "mint", who: who, v: v, x: x })
  }
  action stepNominate = if (closed != Set() and w.opted != Set()) any { actWithdrawClosed, actWithdrawClosed, actNominate, actNominate, actCollectClosed, actFill, actReward, actReportBad, actOptOut, actCommission, step }
    else if (closed != Set()) any { actOptIn, actOptIn, actWithdrawClosed, actCollectClosed, actReward, actFill, actEdge, actReportBad, step }
    else if (w.opted == Set()) any { actOptIn, actOptIn, actOptIn, actMint, { nondet x = Set(true).oneOf() done({ ...w, nomination: x }, { ...none, what: "root", id: 8, x: 1 }) } }
    else if (nominators == Set()) any { actNominate, actNominate, actFill, { nondet v = w.opted.oneOf() done({ ...w, limits: w.limits.set(v, 6000) }, { ...none, what: "limit", v: v, x: 6000 }) } }
    else if (op.what == "limit" or op.what == "price") any { actOptOut, actLean, actFill, actNominate, actReportBad }
    else any { actLimitBelow, actLean, actLean, actFill, actFill, actReward, actOptOut, actWithdraw, actNominate, actSqueeze, step }

  // replaces whose vaults fail
  val handovers = w.replaces.keys().filter(i => w.replaces.get(i).status == "pending")
  action actHandover = {
    nondet id = handovers.filter(i => liquidated(w, w.replaces.get(i).old) or liquidated(w, w.replaces.get(i).new)).oneOf()
    nondet y = 0.to(2).oneOf()
    if (y > 0) done(executeReplace(w, id), { ...none, what: "execute replace", id: id })
    else done(cancelReplace(w, id), { ...none, what: "cancel replace", id: id })
  }
  action actTakeOver = {
    nondet old = registered.filter(v => vault(w, v).toReplace > 0).oneOf()
    nondet new = working.filter(v => v != old and not(vault(w, v).status == 2) and issuable(w, v) > 0).oneOf()
    nondet k = 1.to(3).oneOf()
    val x = larger(1, smaller(issuable(w, new), vault(w, old).toReplace) * k / 4)
    done(acceptReplace(w, old, new, x, 0), { ...none, what: "accept replace", v: old, v2: new, x: x })
  }
  action actAway = {
    nondet id = handovers.oneOf()
    nondet who = PEOPLE.filter(a => w.free.get((a, WRAPPED)) > 0).oneOf()
    val v = w.replaces.get(id).old
    val x = smaller(w.free.get((who, WRAPPED)), (vault(w, v).issued - vault(w, v).toRedeem) / 2)
    done(requestRedeem(w, who, v, x), { ...none, what: "redeem", who: who, v: v, x: x })
  }
  action stepTakeover = if (handovers.exists(i => liquidated(w, w.replaces.get(i).old) or liquidated(w, w.replaces.get(i).new))) any { actHandover, actHandover, actWait, actExecuteRedeem, actCancelRedeem, actLiquidationRedeem }
    else if (handovers.size() > 1) any { actSqueeze, actReportBad, actReportBad, actAway, actExecuteReplace, actExecuteRedeem }
    else if (registered.exists(v => vault(w, v).toReplace > 0)) any { actTakeOver, actTakeOver, actTakeOver, actAway, actMint, actRedeem, actDeposit, actRelax }
    else any { actMint, actReplace, actReplace, actMint, actRelax, step }
  // better prices, so that there are vaults to take over
  action actRelax = {
    nondet c = COLLATERALS.oneOf()
    val x = w.rate.get(c) * 2 / 3
    all { x > 10 ^ 16, done(price(w, c, x), { ...none, what: "price", c: c, x: x }) }
  }

  // sums (not to be nested: the simulator would mix up what is summed)
  def over_(s: Set[int], f: int => int): int = s.fold(0, (t, v) => t + f(v))
  // every token in anyone's hands is one that a vault, or the liquidation vault, stands for
  val backed_ = ACCOUNTS.fold(0, (t, a) => t + w.free.get((a, WRAPPED)) + w.res.get((a, WRAPPED)))
    == over_(VAULTS, v => vault(w, v).issued) + over_(COLLATERALS, c => w.liq.get(c).issued)
  // what is promised is what the requests under way say
  val promised = and {
    VAULTS.forall(v => vault(w, v).toRedeem == over_(w.redeems.keys().filter(i => w.redeems.get(i).vault == v and w.redeems.get(i).status == "pending"), i => w.redeems.get(i).amount + w.redeems.get(i).transfer)
      + over_(w.replaces.keys().filter(i => w.replaces.get(i).old == v and w.replaces.get(i).status == "pending"), i => w.replaces.get(i).amount)),
    COLLATERALS.forall(c => w.liq.get(c).toRedeem == over_(VAULTS.filter(v => col(v) == c and liquidated(w, v)), v => vault(w, v).toRedeem)),
    VAULTS.forall(v => not(active(w, v)) or vault(w, v).toIssue == under_way(v)),
    COLLATERALS.forall(c => w.liq.get(c).toIssue == VAULTS.filter(v => col(v) == c and liquidated(w, v)).fold(0, (t, v) => t + under_way(v))),
    VAULTS.forall(v => not(active(w, v)) or vault(w, v).toRedeem <= vault(w, v).issued),
    COLLATERALS.forall(c => w.liq.get(c).toRedeem <= w.liq.get(c).issued),
  }
  def under_way(v: int): int =
    over_(w.issues.keys().filter(i => w.issues.get(i).vault == v and w.issues.get(i).status == "pending"), i => w.issues.get(i).amount + w.issues.get(i).fee)
      + over_(w.replaces.keys().filter(i => w.replaces.get(i).new == v and w.replaces.get(i).status == "pending"), i => w.replaces.get(i).amount)
  // the locked collateral is accounted for, to within what withdrawals round off
  def holds(c: int): int = over_(VAULTS.filter(v => col(v) == c), v => backing(w, v) + vault(w, v).liquidated) + w.liq.get(c).collateral
  val accounted = COLLATERALS.forall(c => w.total.get(c) >= holds(c) and w.total.get(c) <= holds(c) + rounded)
  // and is there, with what is put up against griefing
  val locked = and {
    tuples(1.to(3), COLLATERALS).forall(k => w.res.get(k) >= over_(VAULTS.filter(v => owner(v) == k._1 and col(v) == k._2), v => backing(w, v) + vault(w, v).liquidated)
      + (if (k._2 == NATIVE) over_(VAULTS.filter(v => owner(v) == k._1), v => vault(w, v).replaceCol + vault(w, v).activeReplace) else 0)
      + over_(w.issues.keys().filter(i => w.issues.get(i).who == k._1 and w.issues.get(i).cur == k._2 and w.issues.get(i).status == "pending"), i => w.issues.get(i).grief)),
    COLLATERALS.forall(c => w.res.get((LIQUIDATION, c)) == w.liq.get(c).collateral),
    PEOPLE.forall(a => w.res.get((a, WRAPPED)) == over_(w.redeems.keys().filter(i => w.redeems.get(i).who == a and w.redeems.get(i).status == "pending"), i => w.redeems.get(i).amount + w.redeems.get(i).transfer + w.redeems.get(i).fee)),
  }
  // what is new is secure, to within the rounding of what a unit of collateral is worth
  val secured = not(op.ok and Set("issue", "withdraw", "mint reimbursed").contains(op.what)) or {
    val v = op.v
    op.what == "withdraw" and op.id < w.nonces.get(v) or not(priced(w, v)) or op.what != "withdraw" and op.x == 0 or
      not(below(w, col(v), backing(w, v), backed(w, v) - 2 - 2 * ONE / w.rate.get(col(v)), secureOf(w, v)))
  }
  // a liquidated vault stands for nothing and earns nothing
  val retired = VAULTS.forall(v => not(liquidated(w, v)) or {
    val x = vault(w, v)
    x.issued == 0 and x.toIssue == 0 and x.toReplace == 0 and x.replaceCol == 0 and w.rew.stake.get((col(v), v)) == 0
  })
  // rewards follow what a vault can back, and can be paid
  val following = VAULTS.forall(v => vault(w, v).status != 2 or w.rew.stake.get((col(v), v)) == 0)
  def payable(rc: int): int = owed.keys().filter(k => k._3 == rc).fold(0, (t, k) => t + owed.get(k))
    + look.keys().fold(0, (s, v) => s + look.get(v).reward.keys().filter(k => k._3 == rc).fold(0, (t, k) => t + max0(look.get(v).reward.get(k))))
  val paid_ = payable(0) <= w.free.get((FEES, WRAPPED)) and payable(1) <= w.free.get((FEES, NATIVE))
  val positive = tuples(ACCOUNTS, 0.to(2)).forall(k => w.free.get(k) >= 0 and w.res.get(k) >= 0)
  // all of the above, and what the pools owe
  val solvent = inv and paid_
  val inv = backed_ and promised and accounted and locked and secured and retired and following and positive
}
