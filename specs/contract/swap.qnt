// C09: the swap contract.  A maker locks native currency against a Bitcoin payment of at least `min` satoshis to an
// address of theirs; whoever shows a verified payment receives what that order locked, once.
// What the chain extension says about a proof is input here (the verification itself is C03 and C10).
module swap {
  type Order = { addr: int, min: int, locked: int }
  // A proof the extension knows: `what` is "paid" (sats to addr), "unpaid" (verified, but pays none of the addresses)
  // or "rejected" (not proven).
  type Proof = { what: str, addr: int, sats: int }
  type Op = { what: str, caller: int, maker: int, addr: int, min: int, value: int, proof: int, known: Proof, ok: bool }

  pure val ACCOUNTS = Set(1, 2, 3, 4)
  pure val ADDRS = 0.to(5)
  pure val FUNDS = 2 ^ 100
  // the satoshi values around which orders and payments are placed, up to the whole of u64
  pure val SATS = Set(1, 2, 999, 1000, 1001, 2 ^ 32 - 1, 2 ^ 32, 2 ^ 32 + 1, 2 ^ 63, 2 ^ 64 - 2, 2 ^ 64 - 1)

  var orders: int -> Order
  var balance: int -> int
  var held: int            // what the contract account holds
  var paidOut: int         // total ever paid out
  var justified: int       // total locked by the orders that were paid out
  var abandoned: int       // locked by orders their makers replaced
  var proofs: int -> Proof
  var op: Op

  pure val noProof: Proof = { what: "none", addr: 0, sats: 0 }
  pure val noOp: Op = { what: "none", caller: 0, maker: 0, addr: 0, min: 0, value: 0, proof: 0, known: noProof, ok: true }

  // What the extension answers about proof `p` for address `a`: how much it proves was paid there, or a refusal.
  pure def proven(p: Proof, a: int): int =
    if (p.what == "rejected") -1
    else if (p.what == "paid" and p.addr == a) p.sats
    else 0

  pure def executable(os: int -> Order, m: int, p: Proof): bool =
    os.keys().contains(m) and proven(p, os.get(m).addr) >= os.get(m).min

  action init = all {
    orders' = Map(), balance' = ACCOUNTS.mapBy(a => FUNDS), held' = 0, paidOut' = 0, justified' = 0, abandoned' = 0,
    proofs' = Map(), op' = noOp,
  }

  action create(caller: int, addr: int, min: int, value: int): bool =
    val ok = min > 0
    all {
      orders' = if (ok) orders.put(caller, { addr: addr, min: min, locked: value }) else orders,
      balance' = if (ok) balance.setBy(caller, b => b - value) else balance,
      held' = if (ok) held + value else held,
      abandoned' = if (ok and orders.keys().contains(caller)) abandoned + orders.get(caller).locked else abandoned,
      paidOut' = paidOut, justified' = justified, proofs' = proofs,
      op' = { ...noOp, what: "create", caller: caller, addr: addr, min: min, value: value, ok: ok },
    }

  action execute(caller: int, maker: int, pid: int, p: Proof): bool =
    val ok = executable(orders, maker, p)
    val amount = if (ok) orders.get(maker).locked else 0
    all {
      orders' = if (ok) orders.keys().exclude(Set(maker)).mapBy(k => orders.get(k)) else orders,
      balance' = balance.setBy(caller, b => b + amount),
      held' = held - amount,
      paidOut' = paidOut + amount,
      justified' = justified + amount,
      abandoned' = abandoned,
      proofs' = proofs.put(pid, p),
      op' = { ...noOp, what: "execute", caller: caller, maker: maker, proof: pid, known: p, ok: ok },
    }

  action createSome = {
    nondet c = oneOf(ACCOUNTS)
    nondet a = oneOf(ADDRS)
    nondet m = oneOf(SATS.union(Set(0)))
    nondet v = oneOf(Set(0, 1, 7, 1000, 2 ^ 64, 2 ^ 90))
    all { balance.get(c) >= v, create(c, a, m, v) }
  }
  action createRandom = {
    nondet c = oneOf(ACCOUNTS)
    nondet a = oneOf(ADDRS)
    nondet m = oneOf(1.to(100000))
    nondet v = oneOf(1.to(1000000))
    all { balance.get(c) >= v, create(c, a, m, v) }
  }
  // a proof aimed at an open order: exactly enough, one off on either side, to another address, or refused
  action executeAimed = {
    nondet c = oneOf(ACCOUNTS)
    nondet m = oneOf(orders.keys())
    nondet d = oneOf(Set(-1, 0, 0, 0, 1, 1000))
    nondet what = oneOf(Set("paid", "paid", "paid", "rejected", "unpaid"))
    nondet shift = oneOf(Set(0, 0, 0, 1))
    val o = orders.get(m)
    val s = o.min + d
    all {
      s >= 0, s < 2 ^ 64,
      execute(c, m, proofs.keys().size(), { what: what, addr: (o.addr + shift) % 6, sats: s })
    }
  }
  action executePaid = {
    nondet c = oneOf(ACCOUNTS)
    nondet m = oneOf(orders.keys())
    nondet d = oneOf(Set(0, 0, 5))
    val o = orders.get(m)
    all { o.min + d < 2 ^ 64, execute(c, m, proofs.keys().size(), { what: "paid", addr: o.addr, sats: o.min + d }) }
  }
  // the same proof again, perhaps against another order
  action executeAgain = {
    nondet c = oneOf(ACCOUNTS)
    nondet m = oneOf(ACCOUNTS)
    nondet k = oneOf(proofs.keys())
    execute(c, m, k, proofs.get(k))
  }
  action executeAnything = {
    nondet c = oneOf(ACCOUNTS)
    nondet m = oneOf(ACCOUNTS)
    nondet a = oneOf(ADDRS)
    nondet s = oneOf(SATS)
    execute(c, m, proofs.keys().size(), { what: "paid", addr: a, sats: s })
  }
  action step = any { createSome, createRandom, createRandom, executeAimed, executePaid, executeAgain, executeAgain, executeAnything }

  // Every unit the contract holds belongs to an open or a replaced order, and everything paid out was some order's.
  val locked = orders.keys().fold(0, (s, k) => s + orders.get(k).locked)
  val solvent = held == locked + abandoned
  val once = paidOut == justified
  val conserved = held + ACCOUNTS.fold(0, (s, a) => s + balance.get(a)) == 4 * FUNDS
  val inv = solvent and once and conserved
}
