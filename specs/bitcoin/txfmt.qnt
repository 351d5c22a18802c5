// Bitcoin transaction wire format (BIP-144 / BIP-34).  The wire image is exact; runs of equal bytes and repeated
// elements are kept symbolic so that the length-prefix boundaries (253, 65535/65536, ...) are reachable.
module txfmt {
  import bytes.* from "./bytes"

  type Blob = { len: int, fill: int }
  type Source = { coinbase: bool, height: int, prev: int, index: int }   // height -1: none; prev: the byte repeated in the hash
  type TxIn = { src: Source, script: Blob, seq: int, wit: List[Blob] }
  type TxOut = { value: int, script: Blob }
  type Tx = { version: int, ins: List[{ rep: int, i: TxIn }], outs: List[{ rep: int, o: TxOut }], lock: int }

  // A wire image: `body` (runs of n equal bytes b) repeated rep times.
  type Run = { n: int, b: int }
  type Seg = { rep: int, body: List[Run] }

  pure def lit(bs: List[int]): List[Run] = bs.foldl([], (acc, b) => acc.append({ n: 1, b: b }))
  pure def blob(s: Blob): List[Run] = if (s.len == 0) [] else [{ n: s.len, b: s.fill }]
  pure def varBlob(s: Blob): List[Run] = lit(compactSize(s.len)).concat(blob(s))
  pure def runsLen(r: List[Run]): int = r.foldl(0, (acc, x) => acc + x.n)
  pure def segsLen(s: List[Seg]): int = s.foldl(0, (acc, x) => acc + x.rep * runsLen(x.body))

  pure def nIns(tx: Tx): int = tx.ins.foldl(0, (a, x) => a + x.rep)
  pure def nOuts(tx: Tx): int = tx.outs.foldl(0, (a, x) => a + x.rep)
  pure def hasWitness(tx: Tx): bool = tx.ins.foldl(false, (a, x) => a or (x.rep > 0 and length(x.i.wit) > 0))

  // BIP-34: a version 2 coinbase starts its script with a push of the height.
  pure def heightPush(h: int): List[int] = {
    pure val n = scriptNum(h)
    List(length(n)).concat(n)
  }

  pure def encSource(s: Source): List[Run] =
    if (s.coinbase) [{ n: 32, b: 0 }, { n: 4, b: 255 }]
    else [{ n: 32, b: s.prev }].concat(lit(le(s.index, 4)))

  pure def encIn(t: TxIn): List[Run] = {
    pure val push = if (t.src.coinbase and t.src.height >= 0) heightPush(t.src.height) else []
    encSource(t.src)
      .concat(lit(compactSize(length(push) + t.script.len)))
      .concat(lit(push)).concat(blob(t.script))
      .concat(lit(le(t.seq, 4)))
  }

  pure def encOut(o: TxOut): List[Run] = lit(le(o.value, 8)).concat(varBlob(o.script))

  pure def encWit(w: List[Blob]): List[Run] =
    w.foldl(lit(compactSize(length(w))), (acc, x) => acc.concat(varBlob(x)))

  pure def body(tx: Tx): List[Seg] =
    [{ rep: 1, body: lit(compactSize(nIns(tx))) }]
      .concat(tx.ins.foldl([], (acc, x) => acc.append({ rep: x.rep, body: encIn(x.i) })))
      .concat([{ rep: 1, body: lit(compactSize(nOuts(tx))) }])
      .concat(tx.outs.foldl([], (acc, x) => acc.append({ rep: x.rep, body: encOut(x.o) })))

  pure def seg1(bs: List[int]): List[Seg] = [{ rep: 1, body: lit(bs) }]

  // What the transaction id commits to: never the witness, marker or flag.
  pure def stripped(tx: Tx): List[Seg] =
    seg1(le(tx.version, 4)).concat(body(tx)).concat(seg1(le(tx.lock, 4)))

  pure def full(tx: Tx): List[Seg] =
    if (not(hasWitness(tx))) stripped(tx)
    else seg1(le(tx.version, 4)).concat(seg1([0, 1])).concat(body(tx))
      .concat(tx.ins.foldl([], (acc, x) => acc.append({ rep: x.rep, body: encWit(x.i.wit) })))
      .concat(seg1(le(tx.lock, 4)))

  // Which values the wire can carry back unchanged, and which images a reader must refuse.
  pure def ambiguous(tx: Tx): bool = or {
    nIns(tx) == 0,
    tx.ins.foldl(false, (a, x) => a or (x.rep > 0 and or {
      x.i.src.coinbase and (tx.version == 2) != (x.i.src.height >= 0),
      not(x.i.src.coinbase) and x.i.src.prev == 0,
    })),
  }
  pure def refused(tx: Tx): bool = or {
    tx.version != 1 and tx.version != 2,
    tx.outs.foldl(false, (a, x) => a or (x.rep > 0 and x.o.script.len > 10000)),
    tx.ins.foldl(false, (a, x) => a or (x.rep > 0 and x.i.src.coinbase and
       (x.i.script.len > 100 or x.i.src.height >= 2147483648))),
  }

  pure def expandRuns(r: List[Run]): List[int] =
    r.foldl([], (acc, x) => acc.concat(range(0, x.n).foldl([], (a, i) => a.append(x.b))))
  pure def expand(s: List[Seg]): List[int] =
    s.foldl([], (acc, x) => {
      pure val e = expandRuns(x.body)
      acc.concat(range(0, x.rep).foldl([], (a, i) => a.concat(e)))
    })
}
