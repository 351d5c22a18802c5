// 18-decimal signed fixed point on 128 bits, as its integer representation: results round towards zero, and
// whatever does not fit is refused.
module fixed {
  pure val ONE = 10 ^ 18
  pure def fits(x: int): bool = x >= -(2 ^ 127) and x < 2 ^ 127
  pure def trunc(a: int, b: int): int =
    if (a >= 0 and b > 0) a / b else if (a < 0 and b < 0) (-a) / (-b) else if (a < 0) -((-a) / b) else -(a / (-b))
  pure def mulF(a: int, b: int): int = trunc(a * b, ONE)
  pure def divF(a: int, b: int): int = trunc(a * ONE, b)
  pure def whole(a: int): int = trunc(a, ONE)
  pure def max0(a: int): int = if (a < 0) 0 else a
}
