// C14, C15: the relay's view of Bitcoin.  Any relayer may submit any header.  What is kept is a tree; the main chain is
// the path to `best`, which moves along when it is extended and jumps to a fork that gets `confs` blocks ahead.
// Hashes are ideal: each header carries its own, chosen here.  An entry may stand for a run of equal blocks.
module chain {
  import bytes.* from "../bitcoin/bytes"
  import powfmt.* from "../bitcoin/powfmt"
  import headers.* from "./headers"

  pure val PERIOD = 2016

  // parent -1: none known
  type Op = { what: str, id: int, parent: int, height: int, span: int, hash: int, target: int, time: int, bound: int,
              conf: int, open: int, period: int, ok: bool, yes: bool }
  type View = { best: int, height: int, full: bool, included: int -> bool, firstIncluded: int -> bool }

  var tree: Tree
  var start: int
  var chains: int            // forks ever seen
  var now: int               // active parachain block
  var active: bool
  var confs: int
  var paraConfs: int
  var checked: bool          // difficulty checks on
  var op: Op
  var view: View
  var wasOn: Set[int]        // ghost: main chain before the last operation

  pure val none: Op = { what: "none", id: -1, parent: -1, height: 0, span: 1, hash: 0, target: 0, time: 0, bound: 0, conf: -1, open: 0, period: 0, ok: true, yes: false }
  // difficulty a block on top of `p` must have
  pure def required(t: Tree, p: Entry): int =
    if ((p.height + 1) % PERIOD != 0) p.target
    else
      // -1: the period's first block is not known
      path(t, p.id).filter(i => t.es.get(i).height - t.es.get(i).span + 1 == p.height + 1 - PERIOD).fold(-1, (a, i) => decodeBits(nextBits(p.target, t.es.get(i).time, p.time)))

  pure def viewOf(t: Tree, s: int, k: int, pk: int, n: int): View = {
    pure val top = entry(t, t.best).height
    pure val calm = t.best != -1 and settled(t, k)
    {
      best: t.best, height: top, full: t.best != -1 and top >= s + k,
      included: t.es.keys().mapBy(i => calm and i.in(t.on) and top + 1 >= t.es.get(i).height + k and t.es.get(i).para + pk <= n),
      firstIncluded: t.es.keys().mapBy(i => calm and i.in(t.on) and top + 1 >= t.es.get(i).height - t.es.get(i).span + 1 + k and t.es.get(i).para + pk <= n),
    }
  }

  action become(o: Op, t: Tree, s: int, c: int, n: int, a: bool): bool = all {
    op' = o, tree' = t, start' = s, chains' = c, now' = n, active' = a,
    confs' = confs, paraConfs' = paraConfs, checked' = checked,
    view' = viewOf(t, s, confs, paraConfs, n), wasOn' = tree.on,
  }

  action init = {
    nondet k = oneOf(Set(1, 2, 3, 6))
    nondet pk = oneOf(Set(0, 0, 1, 5))
    nondet d = oneOf(Set(true, true, false))
    all { op' = none, tree' = bare, start' = 0, chains' = 0, now' = 1, active' = true, confs' = k, paraConfs' = pk,
      checked' = d, view' = viewOf(bare, 0, k, pk, 1), wasOn' = Set() }
  }

  pure val BASE = 1500000000
  pure def targetAt(n: int): int = decodeBits(encodeTarget(2 ^ n + 2 ^ max(0, n - 7)))
  pure def fresh(t: Tree): int = size(t.es.keys())
  val best = tree.best

  action initialize(height: int, target: int, t: int): bool = {
    val ok = best == -1 and (not(checked) or height % PERIOD == 0)
    val id = fresh(tree)
    val h = target - 1000 - id
    val o = { ...none, what: "initialize", id: id, height: height, hash: h, target: target, time: t, ok: ok }
    if (ok) become(o, { es: Map(id -> { id: id, parent: -1, height: height, span: 1, hash: h, target: target, time: t, para: now }),
      tips: Set(id), best: id, on: Set(id) }, height, 1, now, active)
    else become(o, tree, start, chains, now, active)
  }
  action someInit = {
    nondet m = oneOf(Set(0, 1, 300, 100000))
    nondet d = oneOf(Set(0, 0, 0, 1, 2010, 2015))
    nondet n = oneOf(Set(180, 200, 223))
    nondet t = oneOf(Set(0, 1, -1))
    initialize(m * PERIOD + d, targetAt(n), BASE + t * 1000000)
  }

  // A header: on a parent (or on nothing known), with a target, and a hash `h`.
  action submit(parent: int, target: int, h: int, t: int, span: int, bound: int): bool = {
    val p = entry(tree, parent)
    val id = fresh(tree)
    val known = tree.es.keys().exists(i => tree.es.get(i).hash == h)
    val ok = and {
      best != -1, bound >= chains + 1, p.id != -1, not(known), h <= target, p.height + 1 < U32,
      not(checked) or target == required(tree, p),
    }
    val e = { id: id, parent: parent, height: p.height + span, span: span, hash: h, target: target, time: t, para: now }
    val o = { ...none, what: "submit", id: id, parent: parent, height: p.height + span, span: span, hash: h, target: target, time: t, bound: bound, ok: ok }
    if (ok) become(o, add(tree, confs, e), start, if (leaf(tree, parent)) chains else chains + 1, now, active)
    else become(o, tree, start, chains, now, active)
  }
  def need(parent: int): int = {
    val r = required(tree, entry(tree, parent))
    if (r == -1) entry(tree, parent).target else r
  }
  def span(t: int): int = t + BASE
  action someTime(use: int => bool): bool = any {
    { nondet t = oneOf(0.to(100000)) use(BASE + t) },
    { nondet t = oneOf(Set(302399, 302400, 604800, 1209600, 2000000, 4838400, 4838401, -1000000, 20000000)) use(BASE + t) },
  }
  // the next honest block on any branch, often one of the longest
  action grow = {
    nondet p = oneOf(tree.es.keys())
    all { best != -1, someTime(t => submit(p, need(p), need(p) - 1 - fresh(tree), t, 1, chains + 1)) }
  }
  action growLeaf = {
    nondet p = oneOf(tree.tips)
    all { best != -1, someTime(t => submit(p, need(p), need(p) - 1 - fresh(tree), t, 1, chains + 1)) }
  }
  action growMain = all { best != -1, someTime(t => submit(best, need(best), need(best) - 1 - fresh(tree), t, 1, chains + 1)) }
  // a fork near the tip
  action forkNear = {
    val near = tree.es.keys().filter(i => tree.es.get(i).height + 3 >= tree.es.get(best).height and not(leaf(tree, i)))
    nondet p = oneOf(near)
    all { best != -1, someTime(t => submit(p, need(p), need(p) - 1 - fresh(tree), t, 1, chains + 1)) }
  }
  // many blocks at once, up to the end of the period
  action manyBlocks = {
    nondet p = oneOf(tree.tips)
    nondet short = oneOf(Set(0, 0, 1, 2))
    val e = entry(tree, p)
    val n = PERIOD - 1 - e.height % PERIOD - short
    all { best != -1, n >= 2, someTime(t => submit(p, e.target, e.target - 1000000 * (fresh(tree) + 1), t, n, chains + 1)) }
  }
  action fewBlocks = {
    nondet p = oneOf(tree.tips)
    nondet n = oneOf(Set(2, 3, 5))
    val e = entry(tree, p)
    all { best != -1, (not(checked) or e.height % PERIOD + n < PERIOD - 1), someTime(t => submit(p, e.target, e.target - 1000000 * (fresh(tree) + 1), t, n, chains + 1)) }
  }
  // what no honest relayer sends
  action hostile = {
    nondet p = oneOf(tree.es.keys().union(Set(-1)))
    nondet kind = oneOf(Set("hash", "equal", "above", "easier", "harder", "known", "bound", "parent target"))
    val r = if (p == -1) targetAt(200) else need(p)
    val h = r - 1 - fresh(tree)
    all { best != -1, someTime(t =>
      if (kind == "hash") submit(p, r, 2 ^ 255 + fresh(tree), t, 1, chains + 1)
      else if (kind == "equal") submit(p, r, r, t, 1, chains + 1)
      else if (kind == "above") submit(p, r, r + 1, t, 1, chains + 1)
      else if (kind == "easier") submit(p, targetAt(223), h, t, 1, chains + 1)
      else if (kind == "harder") submit(p, r / 2, r / 2 - 1 - fresh(tree), t, 1, chains + 1)
      else if (kind == "known") submit(p, r, entry(tree, max(p, 0)).hash, t, 1, chains + 1)
      else if (kind == "parent target") submit(p, entry(tree, max(p, 0)).target, entry(tree, max(p, 0)).target - 1 - fresh(tree), t, 1, chains + 1)
      else submit(p, r, h, t, 1, chains)) }
  }
  action tick = {
    nondet n = oneOf(Set(1, 1, 1, 5))
    become({ ...none, what: "tick", span: n }, tree, start, chains, if (active) now + n else now, active)
  }
  action pause = {
    nondet a = oneOf(Set(true, false))
    nondet root = oneOf(Set(true, true, false))
    become({ ...none, what: "activate", yes: a, id: if (root) 1 else 0, ok: root }, tree, start, chains, now, if (root) a else active)
  }
  // is this block settled, with so many confirmations?
  action ask = {
    nondet i = oneOf(tree.es.keys().union(Set(-1)))
    nondet conf = oneOf(Set(-1, 0, 1, 2, 3, 7, 2015, 4294967295))
    become({ ...none, what: "ask", id: i, conf: conf, ok: included(tree, confs, paraConfs, now, if (conf == -1) confs else conf, i) },
      tree, start, chains, now, active)
  }
  // has a request made at parachain block `open` and bitcoin height `height` expired?
  pure val PER = 100          // parachain blocks per bitcoin block
  action expiry = {
    nondet d = oneOf(0.to(12))
    nondet p = oneOf(Set(0, 1, 2, 5, 99, 100, 101, 200, 201))
    nondet h = oneOf(0.to(3))
    val open = max(0, now - d)
    val from = max(0, view.height - h)
    val out = now > open + p and view.height > from + (p + PER - 1) / PER
    all { best != -1, become({ ...none, what: "expired", open: open, period: p, height: from, yes: out }, tree, start, chains, now, active) }
  }
  action step = any {
    all { best == -1, someInit }, all { best == -1, someInit }, all { best == -1, someInit }, someInit,
    grow, growLeaf, growLeaf, growLeaf, growMain, growMain, forkNear, manyBlocks, fewBlocks, hostile, hostile, tick, pause, ask, ask, expiry,
  }
  // many competing forks around the tip
  action stepForks = any {
    all { best == -1, someInit }, all { best == -1, someInit }, all { best == -1, someInit },
    growLeaf, growLeaf, growLeaf, growMain, forkNear, forkNear, ask, tick,
  }

  // every block has the work its branch demands, and a known parent one below
  val valid = op.what == "submit" and op.ok implies and {
    op.hash <= op.target, op.parent.in(tree.es.keys()), op.height == entry(tree, op.parent).height + op.span,
    not(checked) or op.span > 1 or op.target == required(tree, entry(tree, op.parent)),
  }
  val mainIsAPath = best == -1 or tree.on == path(tree, best)
  // no branch is ahead of the main chain by the confirmations a payment needs
  val leads = tree.es.keys().forall(i => tree.es.get(i).height < entry(tree, best).height + confs)
  // a settled block stays on the main chain until a fork overtakes it by `confs` blocks
  val stable = wasOn.subseteq(tree.on) or (op.what == "submit" and best == op.id and op.ok)
  val settledMeansBuried = view.included.keys().forall(i => view.included.get(i) implies and {
    i.in(tree.on), tree.tips.forall(j => j == best or entry(tree, j).height + confs <= entry(tree, best).height),
    entry(tree, best).height + 1 >= entry(tree, i).height + confs,
  })
  val inv = valid and mainIsAPath and leads and stable and settledMeansBuried
}
