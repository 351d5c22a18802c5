// C01: a wallet grows a transaction step by step; at every step the wire images, the size and the transaction id
// are determined by the transaction alone.
module wire {
  import bytes.* from "./bytes"
  import txfmt.* from "./txfmt"

  var cur: Tx
  var strippedImg: List[Seg]
  var fullImg: List[Seg]
  var wireLen: int
  var fate: str        // what a reader does with the full image: "same" | "refuse" | "any"

  action publish(t: Tx): bool = all {
    cur' = t,
    strippedImg' = stripped(t),
    fullImg' = full(t),
    wireLen' = segsLen(stripped(t)),
    fate' = if (ambiguous(t)) "any" else if (refused(t)) "refuse" else "same",
  }

  pure val emptyTx: Tx = { version: 2, ins: [], outs: [], lock: 0 }

  pure val LENS = Set(0, 1, 2, 20, 25, 75, 76, 100, 101, 107, 127, 128, 252, 253, 254, 255, 256, 257, 520,
                      9999, 10000, 10001, 65534, 65535, 65536, 65537, 70000)
  pure val SMALL = Set(0, 1, 2, 22, 72, 100, 252, 253, 255, 256)
  pure val U32S = Set(0, 1, 2, 255, 256, 65535, 65536, 499999999, 500000000, 500000001, 2147483647, 2147483648,
                      4294967294, 4294967295)
  pure val HEIGHTS = Set(-1, 0, 1, 7, 16, 17, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 700000, 8388607,
                         8388608, 16777215, 16777216, 2147483647, 2147483648, 4294967295)
  pure val VALUES = Set(0, 1, 255, 256, 546, 4294967295, 4294967296, 2100000000000000, 9223372036854775807,
                        -1, -2, -9223372036854775808)

  action init = publish(emptyTx)

  action addInput = {
    nondet prev = oneOf(Set(0, 1, 17, 127, 254, 255))
    nondet index = oneOf(U32S)
    nondet len = oneOf(LENS)
    nondet fill = oneOf(Set(0, 1, 170, 255))
    nondet seq = oneOf(U32S)
    nondet rep = oneOf(Set(1, 1, 2, 3))
    publish(cur.with("ins", cur.ins.append({ rep: rep, i: {
      src: { coinbase: false, height: -1, prev: prev, index: index },
      script: { len: len, fill: fill }, seq: seq, wit: [] } })))
  }

  action addCoinbase = {
    nondet height = oneOf(HEIGHTS)
    nondet len = oneOf(Set(0, 1, 4, 50, 94, 95, 96, 99, 100, 101, 252, 253))
    nondet fill = oneOf(Set(0, 1, 3, 170, 255))
    nondet seq = oneOf(U32S)
    all {
      length(cur.ins) < 3,
      publish(cur.with("ins", cur.ins.append({ rep: 1, i: {
        src: { coinbase: true, height: height, prev: 0, index: 4294967295 },
        script: { len: len, fill: fill }, seq: seq, wit: [] } })))
    }
  }

  action manyInputs = {
    nondet n = oneOf(Set(250, 251, 252, 253, 254, 1000))
    nondet len = oneOf(SMALL)
    all {
      nIns(cur) < 2000,
      publish(cur.with("ins", cur.ins.append({ rep: n, i: {
        src: { coinbase: false, height: -1, prev: 9, index: 3 },
        script: { len: len, fill: 5 }, seq: 4294967295, wit: [] } })))
    }
  }

  action addWitness = {
    nondet k = oneOf(0.to(3))
    nondet len = oneOf(LENS)
    nondet fill = oneOf(Set(0, 1, 48, 255))
    all {
      k < length(cur.ins),
      cur.ins[k].rep < 300,
      len < 300 or cur.ins[k].rep < 4,
      publish(cur.with("ins", cur.ins.replaceAt(k, cur.ins[k].with("i",
        cur.ins[k].i.with("wit", cur.ins[k].i.wit.append({ len: len, fill: fill })))))),
    }
  }

  action manyWitness = {
    nondet k = oneOf(0.to(3))
    nondet n = oneOf(Set(251, 252, 253, 254))
    all {
      k < length(cur.ins), cur.ins[k].rep < 4, length(cur.ins[k].i.wit) < 3,
      publish(cur.with("ins", cur.ins.replaceAt(k, cur.ins[k].with("i",
        cur.ins[k].i.with("wit", range(0, n).foldl([], (acc, x) => acc.append({ len: 0, fill: 0 })))))))
    }
  }

  action addOutput = {
    nondet value = oneOf(VALUES)
    nondet len = oneOf(LENS)
    nondet fill = oneOf(Set(0, 1, 106, 255))
    nondet rep = oneOf(Set(1, 1, 2, 5))
    publish(cur.with("outs", cur.outs.append({ rep: rep, o: { value: value, script: { len: len, fill: fill } } })))
  }

  action manyOutputs = {
    nondet n = oneOf(Set(248, 249, 250, 251, 252, 253, 254, 65530, 65534, 65535, 65536))
    nondet len = oneOf(Set(0, 1, 22))
    all {
      nOuts(cur) < 2000,
      publish(cur.with("outs", cur.outs.append({ rep: n, o: { value: 7, script: { len: len, fill: 2 } } })))
    }
  }

  action setVersion = {
    nondet v = oneOf(Set(-2147483648, -1, 0, 1, 2, 3, 256, 1073741825, 1073741826, 2147483647))
    publish(cur.with("version", v))
  }
  action setLock = {
    nondet l = oneOf(U32S)
    publish(cur.with("lock", l))
  }

  action step = any {
    addInput, addInput, addOutput, addOutput, addWitness, addWitness, addCoinbase, manyInputs, manyOutputs,
    manyWitness, setLock,
    publish(cur.with("version", 1)), publish(cur.with("version", 2)), setVersion,
  }

  // Design properties of the format itself.
  val witnessFree = strippedImg == stripped(cur.with("ins",
      cur.ins.foldl([], (acc, x) => acc.append(x.with("i", x.i.with("wit", []))))))
  val marker = hasWitness(cur) iff segsLen(fullImg) > wireLen
  val sized = wireLen == 4 + compactLen(nIns(cur)) + compactLen(nOuts(cur)) + 4
    + cur.ins.foldl(0, (a, x) => a + x.rep * runsLen(encIn(x.i)))
    + cur.outs.foldl(0, (a, x) => a + x.rep * (8 + compactLen(x.o.script.len) + x.o.script.len))
  val inv = witnessFree and marker and sized
}
