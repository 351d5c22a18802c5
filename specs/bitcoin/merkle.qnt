// C03: inclusion proofs over Bitcoin's merkle tree, with an ideal (injective) hash.
// A hash is its construction in postfix form: [k] is the id of transaction k, -1 joins the two values before it,
// -2 joins the value before it with itself.  Two hashes are equal exactly when their constructions are.
module merkle {
  import bytes.* from "./bytes"

  type Hash = List[int]
  pure def leaf(k: int): Hash = [k]
  pure def node(l: Hash, r: Hash): Hash = if (l == r) l.append(-2) else l.concat(r).append(-1)

  pure val MAX_TX: int = 16666     // 4,000,000 weight units / (4 * 60)

  pure def width(n: int, h: int): int = (n + 2 ^ h - 1) / 2 ^ h
  pure def heightOf(n: int): int = range(0, 33).foldl(0, (acc, h) => if (width(n, h) > 1) h + 1 else acc)

  // All levels of the tree over `txs`, level 0 first.
  pure def levels(txs: List[int]): List[List[Hash]] =
    range(0, heightOf(length(txs))).foldl([txs.foldl([], (a, k) => a.append(leaf(k)))], (lv, h) => {
      pure val below = lv[h]
      lv.append(range(0, width(length(txs), h + 1)).foldl([], (a, i) =>
        a.append(node(below[2 * i], if (2 * i + 1 < length(below)) below[2 * i + 1] else below[2 * i]))))
    })

  pure def rootOf(txs: List[int]): Hash = {
    pure val lv = levels(txs)
    lv[length(lv) - 1][0]
  }

  type Proof = { count: int, bits: List[bool], hashes: List[Hash] }

  type Task = { h: int, pos: int }

  // The honest proof: a depth-first walk that descends exactly into subtrees containing a wanted transaction.
  pure def prove(txs: List[int], want: Set[int]): Proof = {
    pure val n = length(txs)
    pure val lv = levels(txs)
    pure val start: { todo: List[Task], p: Proof } =
      { todo: [{ h: heightOf(n), pos: 0 }], p: { count: n, bits: [], hashes: [] } }
    range(0, 2 * n + 40).foldl(start, (st, i) =>
      if (length(st.todo) == 0) st
      else {
        pure val t = st.todo[length(st.todo) - 1]
        pure val rest = st.todo.slice(0, length(st.todo) - 1)
        pure val inside = range(t.pos * 2 ^ t.h, min(n, (t.pos + 1) * 2 ^ t.h)).foldl(false, (a, j) => a or want.contains(txs[j]))
        pure val bits2 = st.p.bits.append(inside)
        if (t.h == 0 or not(inside)) { todo: rest, p: { count: n, bits: bits2, hashes: st.p.hashes.append(lv[t.h][t.pos]) } }
        else {
          pure val left: Task = { h: t.h - 1, pos: 2 * t.pos }
          pure val right: Task = { h: t.h - 1, pos: 2 * t.pos + 1 }
          { todo: if (right.pos < width(n, t.h - 1)) rest.append(right).append(left) else rest.append(left),
            p: { count: n, bits: bits2, hashes: st.p.hashes } }
        }
      }).p
  }

  // The verifier, as a machine with a task stack and a value stack.
  type Step = { kind: int, h: int, pos: int }      // kind 0: visit; 1: join two values; 2: join one with itself
  type Run = { ok: bool, todo: List[Step], vals: List[Hash], bitsUsed: int, hashesUsed: int, at: int, hashAt: int }
  type Verdict = { ok: bool, root: Hash, leafHash: Hash, position: int }
  pure val REFUSED: Verdict = { ok: false, root: [], leafHash: [], position: -1 }

  pure def walk(p: Proof): Run = {
    pure val start: Run = { ok: true, todo: [{ kind: 0, h: heightOf(p.count), pos: 0 }], vals: [], bitsUsed: 0, hashesUsed: 0, at: -1, hashAt: -1 }
    range(0, 2 * length(p.bits) + 2).foldl(start, (r, i) =>
      if (not(r.ok) or length(r.todo) == 0) r
      else {
        pure val t = r.todo[length(r.todo) - 1]
        pure val rest = r.todo.slice(0, length(r.todo) - 1)
        pure val nv = length(r.vals)
        if (t.kind == 1) r.with("todo", rest).with("vals", r.vals.slice(0, nv - 2).append(node(r.vals[nv - 2], r.vals[nv - 1])))
        else if (t.kind == 2) r.with("todo", rest).with("vals", r.vals.slice(0, nv - 1).append(node(r.vals[nv - 1], r.vals[nv - 1])))
        else if (r.bitsUsed >= length(p.bits)) r.with("ok", false)
        else {
          pure val bit = p.bits[r.bitsUsed]
          pure val r1 = r.with("bitsUsed", r.bitsUsed + 1).with("todo", rest)
          if (t.h == 0 or not(bit)) {
            if (r.hashesUsed >= length(p.hashes)) r1.with("ok", false)
            else {
              pure val r2 = r1.with("vals", r.vals.append(p.hashes[r.hashesUsed])).with("hashesUsed", r.hashesUsed + 1)
              if (t.h == 0 and bit) r2.with("at", t.pos).with("hashAt", r.hashesUsed) else r2
            }
          } else {
            pure val left: Step = { kind: 0, h: t.h - 1, pos: 2 * t.pos }
            pure val right: Step = { kind: 0, h: t.h - 1, pos: 2 * t.pos + 1 }
            if (right.pos < width(p.count, t.h - 1)) r1.with("todo", rest.append({ kind: 1, h: 0, pos: 0 }).append(right).append(left))
            else r1.with("todo", rest.append({ kind: 2, h: 0, pos: 0 }).append(left))
          }
        }
      })
  }

  // `claimed`: the id of the transaction handed over with the proof, `slack`: declared minus actual encoded length
  pure def verify(p: Proof, claimed: Hash, slack: int): Verdict =
    if (p.count == 0 or p.count > MAX_TX or length(p.bits) < length(p.hashes)) REFUSED
    else {
      pure val r = walk(p)
      if (not(r.ok) or length(r.todo) > 0 or r.at < 0) REFUSED
      else if (r.hashesUsed != length(p.hashes)) REFUSED
      else if ((r.bitsUsed + 7) / 8 != (length(p.bits) + 7) / 8) REFUSED
      else if (slack < 0) REFUSED
      else if (p.hashes[r.hashAt] != claimed) REFUSED
      else { ok: true, root: r.vals[0], leafHash: claimed, position: r.at }
    }

  // ---- the machine: a block, a prover (honest or not) and the verifier ------------------------------------------
  var txs: List[int]           // the block: transaction k at position i
  var proof: Proof
  var claim: int               // the transaction handed over
  var spare: int               // declared minus actual length
  var verdict: Verdict
  var blockRoot: Hash
  var honest: bool             // proof is exactly what the block's prover yields for `claim` alone or more
  var shape: str
  var wanted: List[int]        // non-empty: `proof` is the block's own proof for these transactions
  var flagBytes: List[int]     // the flag bits as they travel: eight per byte, least significant first

  pure def pack(bits: List[bool]): List[int] =
    range(0, (length(bits) + 7) / 8).foldl([], (acc, i) =>
      acc.append(range(0, min(8, length(bits) - 8 * i)).foldl(0, (b, j) => b + (if (bits[8 * i + j]) 2 ^ j else 0))))

  action judge(b: List[int], p: Proof, k: int, sl: int, h: bool, s: str): bool = judgeFor(b, p, k, sl, h, s, [])

  action judgeFor(b: List[int], p: Proof, k: int, sl: int, h: bool, s: str, w: List[int]): bool = all {
    txs' = b, proof' = p, claim' = k, spare' = sl,
    wanted' = w, flagBytes' = pack(p.bits),
    verdict' = verify(p, leaf(k), sl),
    blockRoot' = rootOf(b),
    honest' = h, shape' = s,
  }

  pure def ids(n: int): List[int] = range(1, n + 1)

  action newBlock = {
    nondet n = oneOf(Set(1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 21, 23, 31, 32, 33, 37))
    nondet i = oneOf(0.to(36))
    nondet sl = oneOf(Set(0, 0, 1, 1000, -1))
    all { i < n, judgeFor(ids(n), prove(ids(n), Set(i + 1)), i + 1, sl, true, "single", [i + 1]) }
  }
  action several = {
    nondet n = oneOf(Set(2, 3, 5, 6, 7, 9, 12, 17))
    nondet want = oneOf(powerset(1.to(6)))
    nondet k = oneOf(1.to(6))
    all { k <= n, want.contains(k),
      judgeFor(ids(n), prove(ids(n), want.intersect(1.to(n))), k, 0, false, "several",
        ids(n).foldl([], (a, x) => if (want.contains(x)) a.append(x) else a)) }
  }
  action flip = {
    nondet i = oneOf(0.to(14))
    all { i < length(proof.bits),
      judge(txs, proof.with("bits", proof.bits.replaceAt(i, not(proof.bits[i]))), claim, spare, false, "flip") }
  }
  action addBits = {
    nondet n = oneOf(Set(1, 2, 3, 4, 5, 6, 7, 8, 9, 16))
    nondet v = oneOf(Set(true, false))
    all { length(proof.bits) < 60,
      judge(txs, proof.with("bits", proof.bits.concat(range(0, n).foldl([], (a, i) => a.append(v)))), claim, spare, false, "addBits") }
  }
  action padBits = {     // what the wire format does: whole bytes of flags
    val n = ((length(proof.bits) + 7) / 8) * 8 - length(proof.bits)
    judge(txs, proof.with("bits", proof.bits.concat(range(0, n).foldl([], (a, i) => a.append(false)))), claim, spare, false, "padBits")
  }
  action dropBit = all { length(proof.bits) > 0,
    judge(txs, proof.with("bits", proof.bits.slice(0, length(proof.bits) - 1)), claim, spare, false, "dropBit") }
  action dropHash = {
    nondet i = oneOf(0.to(6))
    all { i < length(proof.hashes),
      judge(txs, proof.with("hashes", proof.hashes.slice(0, i).concat(proof.hashes.slice(i + 1, length(proof.hashes)))), claim, spare, false, "dropHash") }
  }
  action dupHash = {
    nondet i = oneOf(0.to(6))
    all { i < length(proof.hashes), length(proof.hashes) < 12,
      judge(txs, proof.with("hashes", proof.hashes.slice(0, i + 1).concat(proof.hashes.slice(i, length(proof.hashes)))), claim, spare, false, "dupHash") }
  }
  action replaceHash = {
    nondet i = oneOf(0.to(6))
    nondet k = oneOf(Set(1, 2, 3, 900, 901))
    all { i < length(proof.hashes),
      judge(txs, proof.with("hashes", proof.hashes.replaceAt(i, leaf(k))), claim, spare, false, "replaceHash") }
  }
  action swapHashes = {
    nondet i = oneOf(0.to(5))
    all { i + 1 < length(proof.hashes),
      judge(txs, proof.with("hashes", proof.hashes.replaceAt(i, proof.hashes[i + 1]).replaceAt(i + 1, proof.hashes[i])), claim, spare, false, "swapHashes") }
  }
  action miscount = {
    nondet n = oneOf(Set(0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 16665, 16666, 16667, 20000, 4294967295))
    judge(txs, proof.with("count", n), claim, spare, false, "miscount")
  }
  action otherClaim = {
    nondet k = oneOf(Set(1, 2, 3, 4, 900))
    judge(txs, proof, k, spare, false, "otherClaim")
  }
  action slackened = {
    nondet sl = oneOf(Set(-60, -2, -1, 0, 1, 5))
    judge(txs, proof, claim, sl, false, "slackened")
  }
  // a single-leaf path through the largest admissible tree (and just beyond), with opaque siblings
  action giant = {
    nondet n = oneOf(Set(8192, 8193, 16384, 16665, 16666, 16667, 16668, 32768, 65536))
    nondet b = oneOf(Set(true, false))
    pure val h = heightOf(n)
    // leftmost path: h descents, the leaf, then one stored hash per level
    pure val bits2 = range(0, h).foldl([], (a, i) => a.append(true)).append(true).concat(range(0, h).foldl([], (a, i) => a.append(false)))
    pure val hs = [leaf(1)].concat(range(0, h).foldl([], (a, i) => a.append(leaf(910 + i))))
    judge([1], { count: n, bits: if (b) bits2 else bits2.append(false), hashes: hs }, 1, 0, false, "giant")
  }
  action empty = judge(txs, { count: 1, bits: [], hashes: [] }, claim, 0, false, "empty")
  // a forged inner node presented as a transaction, by lowering the count
  action shallower = {
    nondet n = oneOf(Set(4, 5, 8, 12))
    nondet i = oneOf(0.to(5))
    pure val b = ids(n)
    pure val lv = levels(b)
    pure val up = lv[1]
    all {
      i < length(up),
      judge(b, { count: length(up), bits: [true].concat(range(0, 8).foldl([], (a, j) => a.append(j == 0))),
                 hashes: up }, 1, 0, false, "shallower")
    }
  }

  action init = judgeFor([1], prove([1], Set(1)), 1, 0, true, "single", [1])
  action step = any {
    newBlock, newBlock, newBlock, several, several, flip, flip, addBits, padBits, dropBit, dropHash, dupHash, replaceHash, replaceHash,
    swapHashes, miscount, miscount, otherClaim, slackened, giant, empty, shallower,
  }

  // Completeness: an honest proof always verifies, at the right place, under the block's root.
  val complete = (honest and spare >= 0) implies and {
    verdict.ok, verdict.root == blockRoot, verdict.leafHash == leaf(claim),
    verdict.position >= 0 and verdict.position < length(txs), txs[verdict.position] == claim,
  }
  // Soundness: whatever was tampered with, acceptance under the block's root and size means inclusion at that place.
  val sound = (verdict.ok and verdict.root == blockRoot and proof.count == length(txs)) implies
    and { verdict.position < length(txs), txs[verdict.position] == claim }
  // ... and acceptance under the block's root alone still means the transaction is in the block.
  val included = (verdict.ok and verdict.root == blockRoot) implies txs.foldl(false, (a, k) => a or k == claim)
  val inv = complete and sound and included
}
