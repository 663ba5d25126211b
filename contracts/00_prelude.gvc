// Arithmetic used by every contract file.

define pow2(k: int): int decreases k = k <= 0 ? 1 : 2 * pow2(k - 1);
define popcount(x: int): int decreases x = x <= 0 ? 0 : x % 2 + popcount(x / 2);
define bit(x: int, k: int): bool decreases 0 = (x / pow2(k)) % 2 == 1;
declare isnan(x: real): bool;

lemma mul_mono(a: int, b: int, c: int)
  requires a <= b && 0 <= c;
  ensures a * c <= b * c;
{ }

lemma mul_nonneg(a: int, b: int)
  requires 0 <= a && 0 <= b;
  ensures 0 <= a * b;
{ }

lemma mul_pos(a: int, b: int)
  requires 1 <= a && 1 <= b;
  ensures 1 <= a * b && a <= a * b && b <= a * b;
{ use mul_mono(1, a, b); use mul_mono(1, b, a); }

// a quotient-remainder pair is unique
lemma divmod_unique(a: int, m: int, q: int, r: int)
  requires 0 < m && 0 <= r < m && a == q * m + r;
  ensures a / m == q && a % m == r;
{ }
