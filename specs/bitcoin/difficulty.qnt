// C04: a chain of difficulty periods.  `target` is what a header must beat; each retarget is forced.
module difficulty {
  import bytes.* from "./bytes"
  import powfmt.* from "./powfmt"

  var bits: int            // the last compact value looked at, possibly hostile
  var decoded: int         // its target, -1 when refused
  var recoded: int         // canonical compact of that target, -1 when refused
  var target: int          // current target of the modelled chain
  var call: { prev: int, t0: int, t1: int, next: int }   // the last retarget

  pure val noCall = { prev: 0, t0: 0, t1: 0, next: -1 }

  action look(b: int): bool = all {
    bits' = b,
    decoded' = decodeBits(b),
    recoded' = if (decodeBits(b) == -1) -1 else encodeTarget(decodeBits(b)),
    target' = target,
    call' = noCall,
  }

  action init = all {
    bits' = 486604799, decoded' = decodeBits(486604799), recoded' = 486604799,
    target' = decodeBits(486604799), call' = noCall,
  }

  action lookStructured = {
    nondet e = oneOf(Set(0, 1, 2, 3, 4, 5, 24, 28, 29, 30, 31, 32, 33, 34, 35, 36, 127, 128, 255))
    nondet m = oneOf(Set(0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8323072, 8388607, 8388608, 8388609,
                         8388735, 8421376, 9437184, 16711680, 16777215))
    look(e * 16777216 + m)
  }
  action lookRandom = {
    nondet e = oneOf(0.to(36))
    nondet m = oneOf(0.to(16777215))
    look(e * 16777216 + m)
  }
  action retarget(span: int, start: int): bool = all {
    start >= 0, start < U32, start + span >= 0, start + span < U32,
    bits' = nextBits(target, start, start + span),
    decoded' = decodeBits(nextBits(target, start, start + span)),
    recoded' = nextBits(target, start, start + span),
    target' = decodeBits(nextBits(target, start, start + span)),
    call' = { prev: target, t0: start, t1: start + span, next: nextBits(target, start, start + span) },
  }
  action period = {
    nondet d = oneOf(Set(-1, 0, 1))
    nondet span = oneOf(Set(0, 1, 302400, 604800, 1209600, 2419200, 4838400, -1, -1209600, 9676800, 1, 302401))
    nondet start = oneOf(Set(0, 1231006505, 4200000000, 4294967295, 1632234876, 302399, 302400, 302401))
    retarget(span + d, start)
  }
  action periodRandom = {
    nondet span = oneOf(250000.to(5000000))
    nondet start = oneOf(1231006505.to(1900000000))
    retarget(span, start)
  }
  // start another chain at an arbitrary admissible target
  action rebase = {
    nondet n = oneOf(1.to(223))
    nondet m = oneOf(0.to(16777215))
    pure val t = min(POW_LIMIT, 2 ^ n + m * 2 ^ max(0, n - 24))
    all { bits' = encodeTarget(t), decoded' = decodeBits(encodeTarget(t)), recoded' = encodeTarget(t),
          target' = t, call' = noCall }
  }

  action step = any { lookStructured, lookRandom, period, period, periodRandom, periodRandom, rebase }

  val canonicalFix = (decoded >= 0) implies and {
    decodeBits(recoded) == decoded or decoded >= 2 ^ 24 and decodeBits(recoded) <= decoded,
    encodeTarget(decodeBits(recoded)) == recoded,
    (recoded / 8388608) % 2 == 0,
  }
  val withinLimit = target <= POW_LIMIT
  // one retarget moves the target by at most a factor of four (up to the precision of nBits)
  val clamped = (call.next != -1) implies and {
    decodeBits(call.next) <= 4 * call.prev,
    call.prev >= 4 implies decodeBits(call.next) + decodeBits(call.next) / 32768 + 1 >= min(POW_LIMIT, call.prev / 4),
  }
  val inv = canonicalFix and withinLimit and clamped
}
