// The tree of block headers the relay keeps, and which of them it takes for Bitcoin's main chain.
module headers {
  import bytes.* from "../bitcoin/bytes"

  type Entry = { id: int, parent: int, height: int, span: int, hash: int, target: int, time: int, para: int }
  // what is known of Bitcoin; ids count from 0, a parent has a smaller one
  type Tree = { es: int -> Entry, tips: Set[int], best: int, on: Set[int] }   // best -1: not initialized

  pure val bare: Tree = { es: Map(), tips: Set(), best: -1, on: Set() }
  pure val nothing: Entry = { id: -1, parent: -1, height: -1, span: 1, hash: 0, target: 0, time: 0, para: 0 }

  pure def entry(t: Tree, id: int): Entry = if (id.in(t.es.keys())) t.es.get(id) else nothing
  // the entries on the way from id to the root
  pure def path(t: Tree, id: int): Set[int] =
    range(0, id + 1).foldl({ at: id, s: Set() }, (a, i) =>
      if (a.at == id - i) { at: entry(t, a.at).parent, s: a.s.union(Set(a.at)) } else a).s

  pure def leaf(t: Tree, id: int): bool = id.in(t.tips)
  // where the chain goes with block e: only an extension of a fork (or of the main chain) can become best
  pure def add(t: Tree, k: int, e: Entry): Tree = {
    pure val es = t.es.put(e.id, e)
    pure val tips = t.tips.exclude(Set(e.parent)).union(Set(e.id))
    if (e.parent == t.best) { es: es, tips: tips, best: e.id, on: t.on.union(Set(e.id)) }
    else if (leaf(t, e.parent) and e.height >= t.es.get(t.best).height + k) {
      pure val u = { es: es, tips: tips, best: e.id, on: Set() }
      { ...u, on: path(u, e.id) }
    }
    else { ...t, es: es, tips: tips }
  }

  // the main chain is far enough ahead of every other branch
  pure def settled(t: Tree, k: int): bool = t.tips.forall(i => i == t.best or t.es.get(t.best).height >= t.es.get(i).height + k)
  // inclusion of a block with so many confirmations
  pure def included(t: Tree, k: int, pk: int, n: int, conf: int, id: int): bool = and {
    id.in(t.on), settled(t, k),
    t.es.get(id).height + conf < U32, t.es.get(t.best).height + 1 >= t.es.get(id).height + conf,
    t.es.get(id).para + pk <= n,
  }
}
