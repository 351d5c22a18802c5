// C07: on-chain key derivation.  A vault registers V = v*G; the deposit key of request `id` is c*V with c = H(V, id).
// The group is ideal here (scalars modulo the curve's order, points represented by their discrete logarithm) and the
// hash uninterpreted; the conformance driver interprets both with an independent SHA-256 and curve implementation.
module okd {
  pure val N: int = 115792089237316195423570985008687907852837564279074904382605163141518161494337

  // A point is its discrete logarithm; multiplying a point by a scalar multiplies logarithms.
  pure def scale(c: int, p: int): int = (c * p) % N
  // A stand-in for the hash with the one thing the argument needs: it is a function of key and id.
  pure def h(key: int, id: int): int = ((key * 6364136223846793005 + id * 1442695040888963407 + 12345) % 340282366920938463463374607431768211297) + 1

  type Derive = { what: str, secret: int, raw: List[int], id: List[int] }
  type Deposit = { secret: int, id: int, point: int }

  var registered: Set[int]
  var deposits: Set[Deposit]
  var nonce: int
  var derive: Derive

  pure def idBytes(k: int): List[int] = range(0, 32).foldl([], (a, i) => a.append(((k + 1) * (i * 37 + 11) + k / 256 + i) % 256))

  action init = all {
    registered' = Set(), deposits' = Set(), nonce' = 0,
    derive' = { what: "none", secret: 0, raw: [], id: [] },
  }
  action register(v: int): bool = all {
    registered' = registered.union(Set(v)), deposits' = deposits, nonce' = nonce,
    derive' = { what: "none", secret: 0, raw: [], id: [] },
  }
  action registerSome = {
    nondet v = oneOf(Set(1, 2, 3, 7, 255, 65537, 4294967296, N - 1, N - 2, N / 2, 2 ^ 255, 2 ^ 128 + 1, 2 ^ 200 + 12345))
    register(v)
  }
  action registerRandom = {
    nondet a = oneOf(1.to(1000000))
    nondet b = oneOf(1.to(1000000))
    register((a * 2 ^ 200 + b * 2 ^ 90 + a * b + 1) % N)
  }
  // an issue request: a fresh id, or the same id at another vault
  action request = {
    nondet v = oneOf(registered)
    nondet k = oneOf(0.to(nonce))
    all {
      registered' = registered,
      nonce' = nonce + 1,
      deposits' = deposits.union(Set({ secret: v, id: k, point: scale(h(v, k), v) })),
      derive' = { what: "key", secret: v, raw: [], id: idBytes(k) },
    }
  }
  // what anyone may register instead of a key
  action junk = {
    nondet first = oneOf(Set(0, 1, 2, 3, 4, 5, 255))
    nondet fill = oneOf(Set(0, 1, 5, 127, 255))
    nondet last = oneOf(0.to(255))
    all {
      registered' = registered, deposits' = deposits, nonce' = nonce,
      derive' = { what: "raw", secret: 0, id: idBytes(last),
                  raw: [first].concat(range(0, 31).foldl([], (a, i) => a.append(fill))).append(last) },
    }
  }
  action step = any { registerSome, registerRandom, request, request, request, request, junk }

  // The vault owns every deposit: its private key times the public scalar opens it.
  val owned = deposits.forall(d => d.point == (d.secret * h(d.secret, d.id)) % N and d.point != 0)
  // No two (vault, request) pairs share a deposit.
  val distinct = deposits.forall(a => deposits.forall(b => a.point == b.point implies (a.secret == b.secret and a.id == b.id)))
  val inv = owned and distinct
}
