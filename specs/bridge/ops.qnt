// What the bridge's calls do: issue, redeem, replace, nomination, vault settings and rewards.  A call that is refused
// changes nothing; the callers of these operations see to that.
module ops {
  import fixed.* from "../pools/fixed"
  import stakingcore as st from "../pools/stakingcore"
  import rewardcore as rw from "../pools/rewardcore"
  import world.* from "./world"

  // vaults
  pure def register(w: World, v: int, x: int): World = {
    pure val fresh = { status: 1, banned: 0, custom: 0, toIssue: 0, issued: 0, toRedeem: 0, toReplace: 0, replaceCol: 0, activeReplace: 0, liquidated: 0 }
    deposit(setVault(need(w, vault(w, v).status == 0 and x >= w.minimum.get(col(v))), v, fresh), v, owner(v), x)
  }
  pure def accept(w: World, v: int, yes: bool): World =
    follow(trickle(setVault(need(w, active(w, v)), v, { ...vault(w, v), status: if (yes) 1 else 2 }), v), v)
  // 0: the common one
  pure def customize(w: World, v: int, x: int): World =
    follow(trickle(setVault(need(w, known(w, v) and (x == 0 or x > w.secure.get(col(v)))), v, { ...vault(w, v), custom: x }), v), v)
  pure def report(w: World, v: int): World = liquidate(need(w, active(w, v) and priced(w, v) and underLiquidation(w, v)), v)
  pure def recover(w: World, v: int): World =
    follow(trickle(setVault(need(w, liquidated(w, v) and vault(w, v).toRedeem == 0), v, { ...vault(w, v), status: 1 }), v), v)
  // the price: -1 when it has run out.  A pool that cannot follow it is left as it was
  pure def price(w: World, c: int, x: int): World = {
    pure val w1 = { ...w, rate: w.rate.set(c, x) }
    pure val w2 = capacity(w1, c)
    if (w2.ok) w2 else w1
  }
  pure def tick(w: World, blocks: int, headers: int): World = { ...w, now: w.now + blocks, height: w.height + headers }

  // nomination
  pure def optIn(w: World, v: int): World =
    if (w.nomination and known(w, v) and not(w.opted.contains(v))) { ...w, opted: w.opted.union(Set(v)) } else { ...w, ok: false }
  pure def optOut(w: World, v: int): World = {
    pure val w1 = trickle(need(w, w.opted.contains(v) and nominated(w, v) >= 0 and mayWithdraw(w, v, nominated(w, v)) == 1), v)
    pure val n = w.nonces.get(v)
    pure val r = st::refund(pool(w1, v), owner(v))
    if (not(w1.ok) or not(r.ok)) { ...w, ok: false } else
      less(follow({ ...w1, pools: w1.pools.set((v, n), r.old).set((v, n + 1), r.new), nonces: w1.nonces.set(v, n + 1), opted: w.opted.exclude(Set(v)) }, v), col(v), r.out)
  }
  // what was earned until now is shared by the commission it was earned under
  pure def setCommission(w: World, v: int, x: int): World = {
    pure val w1 = trickle(need(w, w.opted.contains(v) and x <= ONE), v)
    { ...w1, commission: w1.commission.set(v, x) }
  }
  pure def collect(w: World, v: int, who: int, index: int): World = {
    pure val n = if (index < 0) w.nonces.get(v) else index
    pure def one(x: World, rc: int): World = {
      pure val x1 = trickleOne(x, v, rc)
      pure val r = st::collect(x1.pools.get((v, n)), who, rc)
      move(store(x1, v, n, r), FEES, who, rewardCurrency(rc), r.out)
    }
    if (n > w.nonces.get(v)) need(w, false) else one(one(w, 0), 1)
  }
  pure def reward(w: World, x: int): World = {
    pure val w1 = mint(w, FEES, NATIVE, x)
    pure val r = rw::distribute(w1.cap, 0, 1, x)
    { ...w1, ok: w.ok and r.ok, cap: r.w }
  }

  // issue
  pure def repriced(w: World, r: Issue, x: int): Issue = { ...r, fee: nearest(x, w.par.issueFee), amount: x - nearest(x, w.par.issueFee) }
  pure def requestIssue(w: World, who: int, v: int, x: int, cur: int): World = {
    pure val inCur = convert(w, x, WRAPPED, cur)
    pure val grief = if (inCur < 0) -1 else nearest(inCur, w.par.issueGrief)
    pure val fee = nearest(x, w.par.issueFee)
    pure val w1 = need(w, vault(w, v).status == 1 and not(banned(w, v)) and x >= w.par.issueDust and fee <= x)
    pure val w2 = requestIssueTokens(lock(w1, who, cur, grief), v, x)
    if (not(w2.ok)) w2 else
      { ...w2, issues: w2.issues.put(w2.issues.keys().size(), { who: who, vault: v, amount: x - fee, fee: fee, grief: grief, cur: cur, opened: w.now, height: w.height, period: w.issuePeriod, status: "pending" }) }
  }
  pure def executeIssue(w: World, who: int, id: int, paid: int): World =
    if (not(w.issues.keys().contains(id)) or w.issues.get(id).status == "completed") need(w, false) else {
      pure val r = w.issues.get(id)
      pure val v = r.vault
      pure val due = r.amount + r.fee
      pure val whole_ = paid >= due or who == r.who
      pure val step =
        if (r.status == "cancelled") {
          w: requestIssueTokens(need(w, vault(w, v).status == 1 and whole_), v, paid),
          r: if (paid == due) r else repriced(w, r, paid),
        }
        else if (paid < due) {
          pure val released = share(r.grief, paid, due)
          pure val w1 = takeToIssue(need(w, whole_), v, due - paid)
          { w: unlock(move(unlock(w1, r.who, r.cur, r.grief - released), r.who, TREASURY, r.cur, r.grief - released), r.who, r.cur, released), r: repriced(w, r, paid) }
        }
        else if (paid > due and not(liquidated(w, v))) {
          // as much of the surplus as the vault can back
          pure val room = if (vault(w, v).status == 1) issuable(w, v) else 0
          pure val extra = smaller(paid - due, room)
          pure val w1 = requestIssueTokens(w, v, extra)
          pure val taken = w1.ok
          { w: need(unlock(if (taken) w1 else w, r.who, r.cur, r.grief), room >= 0), r: if (taken) repriced(w, r, due + extra) else r }
        }
        else { w: unlock(w, r.who, r.cur, r.grief), r: r }
      pure val done = shareFees(mint(mint(issueTokens(step.w, v, step.r.amount + step.r.fee), r.who, WRAPPED, step.r.amount), FEES, WRAPPED, step.r.fee), step.r.fee)
      if (done.ok) { ...done, issues: done.issues.set(id, { ...step.r, status: "completed" }) } else done
    }
  pure def cancelIssue(w: World, who: int, id: int): World =
    if (not(w.issues.keys().contains(id)) or w.issues.get(id).status != "pending") need(w, false) else {
      pure val r = w.issues.get(id)
      pure val period = larger(r.period, w.issuePeriod)
      pure val late = expired(w, r.opened, r.height, period)
      pure val part = share(r.grief, w.now - r.opened, period)
      pure val slashed = if (late) r.grief else smaller(part, r.grief)
      pure val w1 = unlock(need(w, (late or who == r.who) and slashed >= 0), r.who, r.cur, r.grief)
      pure val w2 = if (liquidated(w, r.vault)) w1 else move(w1, r.who, TREASURY, r.cur, slashed)
      pure val w3 = takeToIssue(w2, r.vault, r.amount + r.fee)
      { ...w3, issues: w3.issues.set(id, { ...r, status: "cancelled" }) }
    }

  // redeem
  pure def requestRedeem(w: World, who: int, v: int, x: int): World = {
    pure val fee = if (who == owner(v)) 0 else nearest(x, w.par.redeemFee)
    pure val burned = x - fee
    pure val btc = burned - w.par.inclusionFee
    pure val most = maxPremium(w, v)
    pure val value = convert(w, btc, WRAPPED, col(v))
    pure val premium = smaller(most, down(value, w.par.premiumFee))
    pure val fine = and {
      w.free.get((who, WRAPPED)) >= x, burned >= 0, btc >= 0, btc >= w.par.redeemDust, active(w, v), not(banned(w, v)), most >= 0, value >= 0,
    }
    pure val w1 = releaseReplace(lock(requestRedeemTokens(need(w, fine), v, burned), who, WRAPPED, x), v, burned)
    if (not(w1.ok)) w1 else
      { ...w1, redeems: w1.redeems.put(w1.redeems.keys().size(), { who: who, vault: v, amount: btc, fee: fee, transfer: w.par.inclusionFee, premium: premium,
        opened: w.now, height: w.height, period: w.redeemPeriod, status: "pending" }) }
  }
  pure def openRedeem(w: World, id: int): bool = w.redeems.keys().contains(id) and w.redeems.get(id).status == "pending"
  pure def settleRedeem(w: World, id: int, s: str): World = if (not(w.ok)) w else { ...w, redeems: w.redeems.setBy(id, r => { ...r, status: s }) }
  pure def payFee(w: World, who: int, x: int): World = shareFees(move(unlock(w, who, WRAPPED, x), who, FEES, WRAPPED, x), x)
  // out of what a liquidated vault's operator kept, in proportion to the tokens
  pure def outOfKept(w: World, v: int, x: int): int = share(vault(w, v).liquidated, x, vault(w, v).toRedeem)
  pure def lessKept(w: World, v: int, x: int): World = setVault(need(w, x >= 0), v, { ...vault(w, v), liquidated: vault(w, v).liquidated - x })

  pure def executeRedeem(w: World, id: int): World =
    if (not(openRedeem(w, id))) need(w, false) else {
      pure val r = w.redeems.get(id)
      pure val v = r.vault
      pure val x = r.amount + r.transfer
      pure val kept = outOfKept(w, v, x)
      pure val w1 = burnTokens(payFee(burn(w, r.who, WRAPPED, x), r.who, r.fee), v, x)
      pure val w2 =
        if (liquidated(w, v)) unlock(lessKept(less(w1, col(v), kept), v, kept), owner(v), col(v), kept)
        else if (r.premium == 0) w1
        else move(slashBacking(w1, v, r.premium), owner(v), r.who, col(v), r.premium)
      settleRedeem(w2, id, "completed")
    }
  pure def cancelRedeem(w: World, who: int, id: int, reimburse: bool): World =
    if (not(openRedeem(w, id))) need(w, false) else {
      pure val r = w.redeems.get(id)
      pure val v = r.vault
      pure val c = col(v)
      pure val x = r.amount + r.transfer
      pure val value = convert(w, x, WRAPPED, c)
      pure val w0 = need(w, who == r.who and expired(w, r.opened, r.height, larger(r.period, w.redeemPeriod)) and value >= 0)
      pure val kept = outOfKept(w, v, x)
      pure val w1 =
        if (liquidated(w, v)) {
          pure val u = unlock(less(lessKept(w0, v, kept), c, kept), owner(v), c, kept)
          if (reimburse) move(u, owner(v), who, c, kept)
          else {
            pure val m = lock(moreMoved(move(u, owner(v), LIQUIDATION, c, kept), c, kept), LIQUIDATION, c, kept)
            setLiq(m, c, { ...m.liq.get(c), collateral: m.liq.get(c).collateral + kept })
          }
        }
        else {
          pure val fine = nearest(value, w.par.punishment)
          pure val x1 = smaller(backing(w, v), if (reimburse) value + fine else fine)
          pure val m = move(slashBacking(w0, v, x1), owner(v), who, c, x1)
          setVault(m, v, { ...vault(m, v), banned: w.now + w.par.delay })
        }
      if (not(reimburse)) settleRedeem(takeToRedeem(unlock(w1, who, WRAPPED, x + r.fee), v, x), id, "retried")
      else {
        pure val w2 = payFee(w1, who, r.fee)
        if (liquidated(w, v)) settleRedeem(burnTokens(burn(w2, who, WRAPPED, x), v, x), id, "reimbursed")
        else if (underSecure(w2, v)) settleRedeem(burnTokens(burn(w2, who, WRAPPED, x), v, x), id, "burnt")
        else settleRedeem(takeToRedeem(move(unlock(w2, who, WRAPPED, x), who, owner(v), WRAPPED, x), v, x), id, "reimbursed")
      }
    }
  pure def mintReimbursed(w: World, v: int, id: int): World =
    if (not(w.redeems.keys().contains(id)) or w.redeems.get(id).status != "burnt" or w.redeems.get(id).vault != v) need(w, false) else {
      pure val x = w.redeems.get(id).amount + w.redeems.get(id).transfer
      settleRedeem(mint(issueTokens(requestIssueTokens(w, v, x), v, x), owner(v), WRAPPED, x), id, "reimbursed")
    }
  pure def selfRedeem(w: World, v: int, x: int): World = {
    pure val fee = if (x == vault(w, v).issued - vault(w, v).toRedeem) 0 else nearest(x, w.par.redeemFee)
    pure val net = x - fee
    pure val w0 = need(w, active(w, v) and not(banned(w, v)) and x > 0 and net >= 0)
    pure val w1 = shareFees(move(burn(lock(w0, owner(v), WRAPPED, net), owner(v), WRAPPED, net), owner(v), FEES, WRAPPED, fee), fee)
    releaseReplace(burnTokens(requestRedeemTokens(w1, v, net), v, net), v, net)
  }
  pure def liquidationRedeem(w: World, who: int, c: int, x: int): World = {
    pure val l = w.liq.get(c)
    pure val out = share(l.collateral, x, l.issued + l.toIssue - l.toRedeem)
    pure val w0 = need(w, x > 0 and l.issued - l.toRedeem >= x and out >= 0 and l.issued + l.toIssue >= l.toRedeem)
    pure val w1 = burn(lock(w0, who, WRAPPED, x), who, WRAPPED, x)
    setLiq(move(unlock(less(w1, c, out), LIQUIDATION, c, out), LIQUIDATION, who, c, out), c, { ...l, collateral: l.collateral - out, issued: l.issued - x })
  }

  // replace
  pure def requestReplace(w: World, v: int, x: int): World = {
    pure val y = vault(w, v)
    pure val room = y.issued - y.toReplace - y.toRedeem
    pure val n = smaller(x, room)
    pure val value = convert(w, n, WRAPPED, NATIVE)
    pure val grief = if (value < 0) -1 else nearest(value, w.par.replaceGrief)
    pure val fine = and { active(w, v), not(banned(w, v)), not(w.opted.contains(v)), room >= 0, n > 0, y.toReplace + n >= w.par.replaceDust, grief >= 0 }
    lock(setVault(need(w, fine), v, { ...y, toReplace: y.toReplace + n, replaceCol: y.replaceCol + grief }), owner(v), NATIVE, grief)
  }
  pure def withdrawReplaceRequest(w: World, v: int, x: int): World =
    withdrawReplace(need(w, known(w, v) and replaced(w, v, x).tokens > 0), v, x)
  pure def acceptReplace(w: World, old: int, new: int, x: int, extra: int): World = {
    pure val g = replaced(w, old, x)
    pure val add = share(extra, g.tokens, x)
    pure val w0 = need(w, old != new and known(w, old) and active(w, new) and not(banned(w, new)) and g.tokens >= w.par.replaceDust and add >= 0)
    pure val w1 = deposit(lessToReplace(w0, old, x), new, owner(new), add)
    pure val w2 = requestIssueTokens(requestRedeemTokens(w1, old, g.tokens), new, g.tokens)
    pure val w3 = setVault(w2, old, { ...vault(w2, old), replaceCol: vault(w2, old).replaceCol - g.grief, activeReplace: vault(w2, old).activeReplace + g.grief })
    if (not(w3.ok)) w3 else
      { ...w3, replaces: w3.replaces.put(w3.replaces.keys().size(), { old: old, new: new, amount: g.tokens, collateral: add, grief: g.grief,
        opened: w.now, height: w.height, period: w.replacePeriod, status: "pending" }) }
  }
  pure def executeReplace(w: World, id: int): World =
    if (not(w.replaces.keys().contains(id)) or w.replaces.get(id).status == "completed") need(w, false) else {
      pure val r = w.replaces.get(id)
      pure val w1 =
        if (r.status == "pending") freeActiveReplace(w, r.old, r.grief)
        else requestIssueTokens(requestRedeemTokens(w, r.old, r.amount), r.new, r.amount)
      pure val kept = outOfKept(w1, r.old, r.amount)
      pure val w2 = if (liquidated(w1, r.old)) depositStake(lessKept(w1, r.old, kept), r.old, owner(r.old), kept) else w1
      pure val w3 = issueTokens(burnTokens(w2, r.old, r.amount), r.new, r.amount)
      if (w3.ok) { ...w3, replaces: w3.replaces.set(id, { ...r, status: "completed" }) } else w3
    }
  pure def cancelReplace(w: World, id: int): World =
    if (not(w.replaces.keys().contains(id)) or w.replaces.get(id).status != "pending") need(w, false) else {
      pure val r = w.replaces.get(id)
      pure val c = col(r.old)
      pure val w0 = need(w, expired(w, r.opened, r.height, larger(r.period, w.replacePeriod)))
      pure val kept = outOfKept(w0, r.old, r.amount)
      pure val w1 =
        if (not(liquidated(w0, r.old))) w0
        else {
          pure val u = unlock(less(lessKept(w0, r.old, kept), c, kept), owner(r.old), c, kept)
          pure val m = lock(moreMoved(move(u, owner(r.old), LIQUIDATION, c, kept), c, kept), LIQUIDATION, c, kept)
          setLiq(m, c, { ...m.liq.get(c), collateral: m.liq.get(c).collateral + kept })
        }
      pure val w2 = takeToIssue(takeToRedeem(w1, r.old, r.amount), r.new, r.amount)
      pure val w3 = move(freeActiveReplace(w2, r.old, r.grief), owner(r.old), owner(r.new), NATIVE, r.grief)
      // the collateral that came with it is given back where it can be
      pure val back = w3.ok and not(liquidated(w3, r.new)) and own(w3, r.new) >= r.collateral and mayWithdraw(w3, r.new, r.collateral) == 1
      pure val w4 = if (back) withdrawStake(less(unlock(w3, owner(r.new), col(r.new), r.collateral), col(r.new), r.collateral), r.new, owner(r.new), w3.nonces.get(r.new), r.collateral) else w3
      if (w4.ok) { ...w4, replaces: w4.replaces.set(id, { ...r, status: "cancelled" }) } else w4
    }
}
