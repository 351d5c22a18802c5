// C15: what the relay accepts as a Bitcoin payment.  Blocks hold transactions; anyone may claim anything about them.
// Merkle roots are ideal: equal exactly for equal lists of transactions (how proofs are read is C03's).
module payment {
  import bytes.* from "../bitcoin/bytes"
  import headers.* from "./headers"

  // kind: "pay" to an address, "ret" data number `addr` of `len` bytes, "odd" neither
  type Out = { kind: str, addr: int, value: int, len: int }
  type Tx = { salt: int, coin: bool, ins: int, outs: List[Out] }
  // transaction `tx` is claimed to be number `pos` of the list `txs` of block `block`
  type Proof = { block: int, txs: List[Tx], pos: int, tx: Tx, slack: int }
  type Op = { what: str, id: int, parent: int, txs: List[Tx], user: Proof, coin: Proof, who: int, amount: int, data: int,
              conf: int, span: int, ok: bool, out: int }

  var tree: Tree
  var blocks: int -> List[Tx]
  var now: int
  var confs: int
  var paraConfs: int
  var trusting: bool       // set up not to ask for proofs
  var count: int           // transactions so far
  var op: Op

  pure val noTx: Tx = { salt: 0, coin: false, ins: 1, outs: [] }
  pure val noProof: Proof = { block: -1, txs: [], pos: 0, tx: noTx, slack: 0 }
  pure val none: Op = { what: "none", id: -1, parent: -1, txs: [], user: noProof, coin: noProof, who: 0, amount: 0, data: 0, conf: -1, span: 1, ok: true, out: 0 }

  pure def proven(p: Proof): bool = p.pos < length(p.txs) and p.slack >= 0 and p.txs[p.pos] == p.tx
  pure def isCoinbase(t: Tx): bool = t.coin and t.ins == 1

  // u is included, and the coinbase proof c shows how deep the tree of that block is
  def shown(u: Proof, c: Proof, conf: int): bool = trusting or and {
    proven(u), proven(c), c.pos == 0, u.block == c.block, u.txs == c.txs, isCoinbase(c.tx),
    tree.best != -1, u.block.in(tree.es.keys()),
    included(tree, confs, paraConfs, now, if (conf == -1) confs else conf, u.block),
    blocks.get(u.block) == u.txs,
  }
  // the first payment to that address; -1: none
  pure def paid(t: Tx, who: int): int = {
    pure val l = t.outs.select(o => o.kind == "pay" and o.addr == who)
    if (length(l) == 0) -1 else if (l[0].value < 0) -1 else l[0].value
  }
  // exactly `amount` to `to`, nothing else but the number and at most one other payee
  pure def settles(t: Tx, who: int, amount: int, data: int): bool = {
    pure val pays = t.outs.select(o => o.kind == "pay")
    pure val rets = t.outs.select(o => o.kind == "ret")
    and {
      length(t.outs) <= 3, length(pays) + length(rets) == length(t.outs),
      length(rets) == 1, rets[0].len == 32 and rets[0].value == 0 and rets[0].addr == data,
      length(pays) == 1 or (length(pays) == 2 and pays[0].addr != pays[1].addr),
      pays.select(o => o.addr == who).length() > 0, pays.select(o => o.addr == who).head().value == amount,
      amount < U64 / 2,
    }
  }

  action init = {
    nondet k = oneOf(Set(1, 2, 3))
    nondet pk = oneOf(Set(0, 1))
    nondet open = oneOf(1.to(8))
    all { tree' = bare, blocks' = Map(), now' = 1, confs' = k, paraConfs' = pk, trusting' = (open == 1), count' = 0, op' = none }
  }
  action remain(o: Op): bool = all {
    op' = o, tree' = tree, blocks' = blocks, now' = now, confs' = confs, paraConfs' = paraConfs, trusting' = trusting, count' = count,
  }

  pure val OUTS: Set[Out] = tuples(Set(0, 1, 2, 4, 5), Set(0, 1, 500, 1000)).map(t => { kind: "pay", addr: t._1, value: t._2, len: 0 })
  pure val SOME: Set[Out] = OUTS.filter(o => o.addr < 3 and o.value.in(Set(500, 1000)))
  pure val RETS: Set[Out] = Set(0, 1, 2).map(i => { kind: "ret", addr: i, value: 0, len: 32 })
  pure val ODD: Set[Out] = Set({ kind: "odd", addr: 0, value: 0, len: 0 }, { kind: "odd", addr: 1, value: 7, len: 0 },
    { kind: "pay", addr: 1, value: -1, len: 0 }, { kind: "pay", addr: 0, value: U64 / 2 - 1, len: 0 }, { kind: "pay", addr: 0, value: -(U64 / 2), len: 0 },
    { kind: "ret", addr: 0, value: 1, len: 32 }, { kind: "ret", addr: 1, value: 0, len: 31 }, { kind: "ret", addr: 1, value: 0, len: 33 },
    { kind: "ret", addr: 2, value: 0, len: 0 }, { kind: "ret", addr: 2, value: 0, len: 75 })

  // outputs of one transaction
  action someOuts(use: List[Out] => bool): bool = {
    nondet a = oneOf(OUTS)
    nondet b = oneOf(SOME)
    nondet c = oneOf(OUTS.union(SOME))
    nondet r = oneOf(RETS)
    nondet x = oneOf(ODD.union(RETS).union(SOME))
    nondet shape = oneOf(0.to(13))
    { val l = if (shape == 0) [a] else if (shape == 1) [a, b] else if (shape == 2) [b, r] else if (shape == 3) [r, a]
      else if (shape == 4) [b, r, a] else if (shape == 5) [a, b, r] else if (shape == 6) [r, b, a] else if (shape == 7) [b, r, x]
      else if (shape == 8) [x, a] else if (shape == 9) [a, r, b, x] else if (shape == 10) [x, r, b] else if (shape == 11) [r] 
      else if (shape == 12) [a, b, c, r] else []
      use(l) }
  }
  action someTx(salt: int, use: Tx => bool): bool = someOuts(o => {
    nondet ins = oneOf(Set(1, 1, 2))
    use({ salt: salt, coin: false, ins: ins, outs: o })
  })
  pure def coinbase(salt: int, ins: int): Tx = { salt: salt, coin: true, ins: ins, outs: [{ kind: "pay", addr: 9, value: 5000, len: 0 }] }

  action mine(parent: int, txs: List[Tx]): bool = {
    val id = size(tree.es.keys())
    val p = entry(tree, parent)
    val e = { ...nothing, id: id, parent: parent, height: if (tree.best == -1) 100 else p.height + 1, para: now }
    all {
      op' = { ...none, what: "mine", id: id, parent: parent, txs: txs },
      tree' = if (tree.best == -1) { es: Map(id -> e), tips: Set(id), best: id, on: Set(id) } else add(tree, confs, e),
      blocks' = blocks.put(id, txs), count' = count + length(txs), now' = now,
      confs' = confs, paraConfs' = paraConfs, trusting' = trusting,
    }
  }
  action someBlock(parent: int): bool = {
    nondet n = oneOf(Set(1, 2, 3, 4))
    nondet first0 = oneOf(Set("coin", "coin ", "coin  ", "coin   ", "not", "two"))
    someTx(count + 1, a => someTx(count + 2, b => someTx(count + 3, c => {
      val first = if (first0 == "not") { ...a, salt: count } else coinbase(count, if (first0 == "two") 2 else 1)
      mine(parent, [first, a, b, c].slice(0, n))
    })))
  }
  action grow = someBlock(tree.best)
  action fork = {
    nondet p = oneOf(tree.es.keys().filter(i => entry(tree, i).height + 2 >= entry(tree, tree.best).height))
    all { tree.best != -1, someBlock(p) }
  }
  action tick = {
    nondet n = oneOf(Set(1, 1, 3))
    all { op' = { ...none, what: "tick", span: n }, tree' = tree, blocks' = blocks, now' = now + n, confs' = confs, paraConfs' = paraConfs, trusting' = trusting, count' = count }
  }

  // claims: mostly about a real transaction, with at most a few things wrong
  action someProofs(use: (Proof, Proof) => bool): bool = {
    nondet b = oneOf(tree.es.keys())
    nondet near = oneOf(tree.on)
    nondet pick = oneOf(Set(1, 2, 3))
    nondet pos = oneOf(0.to(3))
    nondet wrong = oneOf(Set("no", "no ", "no  ", "no   ", "no    ", "other tx", "other block", "coin pos", "coin tx", "coin block", "forged", "unknown", "short", "long", "coin short", "list"))
    nondet other = oneOf(tree.es.keys())
    nondet o = oneOf(SOME)
    val at = if (pick == 1) b else near
    val l = blocks.get(at)
    val i = pos % length(l)
    val u = { block: at, txs: l, pos: i, tx: l[i], slack: 0 }
    val c = { block: at, txs: l, pos: 0, tx: l[0], slack: 0 }
    val mineOwn = [coinbase(count + 7, 1), { salt: count + 8, coin: false, ins: 1, outs: [o, { kind: "ret", addr: 0, value: 0, len: 32 }] }]
    val fc = { block: at, txs: mineOwn, pos: 0, tx: mineOwn[0], slack: 0 }
    val fu = { ...fc, pos: 1, tx: mineOwn[1] }
    val ol = blocks.get(other)
    val oc = { block: other, txs: ol, pos: 0, tx: ol[0], slack: 0 }
    val p: (Proof, Proof) = if (wrong == "other tx") ({ ...u, tx: { ...u.tx, outs: u.tx.outs.append(o) } }, c)
    else if (wrong == "other block") ({ ...u, block: other }, { ...c, block: other })
    else if (wrong == "coin pos") (u, u)
    else if (wrong == "coin tx") (u, { ...c, tx: coinbase(count + 9, 1) })
    else if (wrong == "coin block") (u, oc)
    else if (wrong == "forged") (fu, fc)
    else if (wrong == "unknown") ({ ...fu, block: -1 }, { ...fc, block: -1 })
    else if (wrong == "short") ({ ...u, slack: -1 }, c)
    else if (wrong == "long") ({ ...u, slack: 9 }, { ...c, slack: 9 })
    else if (wrong == "coin short") (u, { ...c, slack: -1 })
    else if (wrong == "list") (u, { ...oc, block: at })
    else (u, c)
    use(p._1, p._2)
  }
  action included_ = someProofs((u, c) => {
    nondet k = oneOf(Set(-1, 0, 1, 2, 5))
    remain({ ...none, what: "included", user: u, coin: c, conf: k, ok: shown(u, c, k) })
  })
  // the payees of a transaction, and others
  def payees(t: Tx): Set[int] = t.outs.foldl(Set(3), (s, o) => if (o.kind == "pay") s.union(Set(o.addr)) else s)
  def data0(t: Tx): int = { val rets = t.outs.select(o => o.kind == "ret") if (length(rets) > 0) rets[0].addr else -1 }
  action issue = someProofs((u, c) => {
    nondet who = oneOf(payees(u.tx))
    val out = paid(u.tx, who)
    val ok = shown(u, c, -1) and out >= 0
    remain({ ...none, what: "issue", user: u, coin: c, who: who, ok: ok, out: if (ok) out else 0 })
  })
  action settle = someProofs((u, c) => {
    nondet who = oneOf(payees(u.tx))
    nondet d = oneOf(Set(0, 1, 2))
    nondet off = oneOf(Set(0, 1, -1, U64))
    val rets = u.tx.outs.select(o => o.kind == "ret")
    nondet right = oneOf(Set(true, false))
    val data = if (right and length(rets) > 0) rets[0].addr else d
    val amount = max(0, paid(u.tx, who)) + off
    all { amount >= 0, remain({ ...none, what: "settle", user: u, coin: c, who: who, amount: amount, data: data,
      ok: shown(u, c, -1) and settles(u.tx, who, amount, data) }) }
  })
  // an honest payment, or one that is a little off
  action settleWell = {
    val good = tree.on.map(b => 0.to(3).filter(i => i < length(blocks.get(b))).map(i => (b, i))).flatten().filter(x =>
      blocks.get(x._1)[x._2].outs.select(o => o.kind == "ret").length() == 1)
    nondet x = oneOf(good)
    val l = blocks.get(x._1)
    val t = l[x._2]
    nondet who = oneOf(payees(t))
    nondet off = oneOf(Set(0, 2, 4, 1, -1))
    val amount = max(0, paid(t, who)) + (if (off > 1) 0 else off)
    val data = data0(t)
    val u = { block: x._1, txs: l, pos: x._2, tx: t, slack: 0 }
    val c = { block: x._1, txs: l, pos: 0, tx: l[0], slack: 0 }
    all { amount >= 0, remain({ ...none, what: "settle", user: u, coin: c, who: who, amount: amount, data: data,
      ok: shown(u, c, -1) and settles(t, who, amount, data) }) }
  }
  action step = any {
    all { tree.best == -1, someBlock(-1) },
    all { tree.best != -1, any { grow, grow, grow, fork, tick, included_, issue, issue, settle, settle, settleWell, settleWell } },
  }

  // a payment that settles a request gives that request's payee its amount, once, and carries its number
  val exact = op.what == "settle" and op.ok implies and {
    op.user.tx.outs.select(o => o.kind == "pay" and o.addr == op.who).length() == 1,
    op.user.tx.outs.select(o => o.kind == "pay" and o.addr == op.who).head().value == op.amount,
    op.user.tx.outs.select(o => o.kind == "ret" and o.addr == op.data).length() == 1,
  }
  // and nothing is accepted that is not in a block the whole relay agrees on
  val real = op.what.in(Set("included", "issue", "settle")) and op.ok and not(trusting) implies and {
    op.user.block.in(tree.on), blocks.get(op.user.block)[op.user.pos] == op.user.tx,
    op.what == "included" or tree.tips.forall(j => j == tree.best or entry(tree, j).height + confs <= entry(tree, tree.best).height),
  }
  val inv = exact and real
}
