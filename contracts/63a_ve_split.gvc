// The solver's factors, split into those with and those without utility variables.

// product of the factors without utility variables (except, if skip, the one with id ex)
define prodN(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, skip: bool, ex: int, b: int, a: [int]int): real decreases b =
  b <= 0 ? 1.0 : prodN(G, D, V, n, skip, ex, b - 1, a) * (D[b - 1] && !hasU(G[b - 1], V, n, skip, ex) ? fval(G[b - 1], a) : 1.0);
// weighted sum of the factors with utility variables
define addU(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, W: [int]real, hw: bool, b: int, a: [int]int): real decreases b =
  b <= 0 ? 0.0 : addU(G, D, V, n, W, hw, b - 1, a) + (D[b - 1] && hasU(G[b - 1], V, n, false, 0) ? fval(G[b - 1], a) * wgt(G[b - 1], V, n, W, hw) : 0.0);
// the variable occurs in a factor without utility variables
define occN(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, skip: bool, ex: int, id: int): bool decreases 0 =
  exists k: int {D[k]} {G[k]} :: D[k] && !hasU(G[k], V, n, skip, ex) && hasV(G[k], id);
// F and F2 depend on the same variables, except possibly the one with id x
define sameV(F: Fac, F2: Fac, x: int): bool decreases 0 = forall id: int {hasV(F, id)} {hasV(F2, id)} :: id != x ==> (hasV(F, id) <==> hasV(F2, id));
define notU(V: [int]ve.Variable, n: int, x: int): bool decreases 0 = forall i: int {V[i]} :: 0 <= i < n && V[i].id == x ==> V[i].nodeType != 2;

lemma hasU_same(F: Fac, F2: Fac, V: [int]ve.Variable, n: int, skip: bool, ex: int, x: int)
  requires sameV(F, F2, x) && notU(V, n, x);
  ensures hasU(F, V, n, skip, ex) <==> hasU(F2, V, n, skip, ex);
{
  if hasU(F, V, n, skip, ex) { obtain i: int :: 0 <= i < n && V[i].nodeType == 2 && !(skip && V[i].id == ex) && hasV(F, V[i].id); assert hasV(F2, V[i].id); }
  if hasU(F2, V, n, skip, ex) { obtain i: int :: 0 <= i < n && V[i].nodeType == 2 && !(skip && V[i].id == ex) && hasV(F2, V[i].id); assert hasV(F, V[i].id); }
}
lemma wOf_same(F: Fac, F2: Fac, V: [int]ve.Variable, n: int, i: int, W: [int]real, x: int)
  requires sameV(F, F2, x) && notU(V, n, x) && 0 <= i;
  ensures wOf(F, V, n, i, W) == wOf(F2, V, n, i, W);
  decreases n - i;
{ if i < n { use wOf_same(F, F2, V, n, i + 1, W, x); assert V[i].nodeType == 2 ==> V[i].id != x; assert V[i].id != x ==> (hasV(F, V[i].id) <==> hasV(F2, V[i].id)); } }
lemma wgt_same(F: Fac, F2: Fac, V: [int]ve.Variable, n: int, W: [int]real, hw: bool, x: int)
  requires sameV(F, F2, x) && notU(V, n, x);
  ensures wgt(F, V, n, W, hw) == wgt(F2, V, n, W, hw);
{ use wOf_same(F, F2, V, n, 0, W, x); }

lemma prodN_R(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, skip: bool, ex: int, b: int, a: [int]int, E: [int]bool)
  requires forall k: int {E[k]} {D[k]} :: 0 <= k < b ==> (E[k] <==> D[k] && !hasU(G[k], V, n, skip, ex));
  ensures prodN(G, D, V, n, skip, ex, b, a) == prodR(G, E, b, a);
  decreases b;
{ if b > 0 { use prodN_R(G, D, V, n, skip, ex, b - 1, a, E); assert E[b - 1] <==> D[b - 1] && !hasU(G[b - 1], V, n, skip, ex); } }
lemma addU_R(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, W: [int]real, hw: bool, b: int, a: [int]int, E: [int]bool, WK: [int]real)
  requires forall k: int {E[k]} {D[k]} :: 0 <= k < b ==> (E[k] <==> D[k] && hasU(G[k], V, n, false, 0)) && WK[k] == wgt(G[k], V, n, W, hw);
  ensures addU(G, D, V, n, W, hw, b, a) == addR(G, E, WK, b, a);
  decreases b;
{ if b > 0 { use addU_R(G, D, V, n, W, hw, b - 1, a, E, WK); assert E[b - 1] <==> D[b - 1] && hasU(G[b - 1], V, n, false, 0); } }

lemma prodN_ext(G: [int]Fac, D: [int]bool, G2: [int]Fac, D2: [int]bool, V: [int]ve.Variable, n: int, skip: bool, ex: int, b: int, a: [int]int)
  requires forall k: int {D[k]} {D2[k]} :: 0 <= k < b ==> (D[k] <==> D2[k]) && (D[k] ==> G[k] == G2[k]);
  ensures prodN(G, D, V, n, skip, ex, b, a) == prodN(G2, D2, V, n, skip, ex, b, a);
  decreases b;
{ if b > 0 { use prodN_ext(G, D, G2, D2, V, n, skip, ex, b - 1, a); assert D[b - 1] <==> D2[b - 1]; } }
lemma addU_ext(G: [int]Fac, D: [int]bool, G2: [int]Fac, D2: [int]bool, V: [int]ve.Variable, n: int, W: [int]real, hw: bool, b: int, a: [int]int)
  requires forall k: int {D[k]} {D2[k]} :: 0 <= k < b ==> (D[k] <==> D2[k]) && (D[k] ==> G[k] == G2[k]);
  ensures addU(G, D, V, n, W, hw, b, a) == addU(G2, D2, V, n, W, hw, b, a);
  decreases b;
{ if b > 0 { use addU_ext(G, D, G2, D2, V, n, W, hw, b - 1, a); assert D[b - 1] <==> D2[b - 1]; } }
lemma prodN_add(G: [int]Fac, D: [int]bool, D2: [int]bool, V: [int]ve.Variable, n: int, skip: bool, ex: int, b: int, k: int, a: [int]int)
  requires 0 <= k < b && !D[k] && D2[k] && (forall j: int {D[j]} {D2[j]} :: 0 <= j < b && j != k ==> (D[j] <==> D2[j]));
  ensures prodN(G, D2, V, n, skip, ex, b, a) == prodN(G, D, V, n, skip, ex, b, a) * (hasU(G[k], V, n, skip, ex) ? 1.0 : fval(G[k], a));
  decreases b;
{
  if b - 1 == k { use prodN_ext(G, D, G, D2, V, n, skip, ex, b - 1, a); }
  else {
    use prodN_add(G, D, D2, V, n, skip, ex, b - 1, k, a);
    assert D[b - 1] <==> D2[b - 1];
    let p = prodN(G, D, V, n, skip, ex, b - 1, a); let z = fval(G[k], a); let y = fval(G[b - 1], a);
    assert (p * z) * y == (p * y) * z;
  }
}
lemma addU_add(G: [int]Fac, D: [int]bool, D2: [int]bool, V: [int]ve.Variable, n: int, W: [int]real, hw: bool, b: int, k: int, a: [int]int)
  requires 0 <= k < b && !D[k] && D2[k] && (forall j: int {D[j]} {D2[j]} :: 0 <= j < b && j != k ==> (D[j] <==> D2[j]));
  ensures addU(G, D2, V, n, W, hw, b, a) == addU(G, D, V, n, W, hw, b, a) + (hasU(G[k], V, n, false, 0) ? fval(G[k], a) * wgt(G[k], V, n, W, hw) : 0.0);
  decreases b;
{
  if b - 1 == k { use addU_ext(G, D, G, D2, V, n, W, hw, b - 1, a); }
  else { use addU_add(G, D, D2, V, n, W, hw, b - 1, k, a); assert D[b - 1] <==> D2[b - 1]; }
}
// factor k0 replaced by a factor at key b with the same value at a, and the same variables except x
lemma prodN_swap(G: [int]Fac, D: [int]bool, G1: [int]Fac, D1: [int]bool, V: [int]ve.Variable, n: int, skip: bool, ex: int, b: int, k0: int, a: [int]int, x: int)
  requires 0 <= k0 < b && D[k0] && !D1[k0] && D1[b] && sameV(G[k0], G1[b], x) && notU(V, n, x) && fval(G1[b], a) == fval(G[k0], a);
  requires forall k: int {D[k]} {D1[k]} :: 0 <= k < b && k != k0 ==> (D[k] <==> D1[k]) && (D[k] ==> G[k] == G1[k]);
  ensures prodN(G1, D1, V, n, skip, ex, b + 1, a) == prodN(G, D, V, n, skip, ex, b, a);
{
  let DM = D[k0 := false];
  use prodN_add(G, DM, D, V, n, skip, ex, b, k0, a);
  use prodN_ext(G1, D1, G, DM, V, n, skip, ex, b, a);
  use hasU_same(G[k0], G1[b], V, n, skip, ex, x);
}
lemma addU_swap(G: [int]Fac, D: [int]bool, G1: [int]Fac, D1: [int]bool, V: [int]ve.Variable, n: int, W: [int]real, hw: bool, b: int, k0: int, a: [int]int, x: int)
  requires 0 <= k0 < b && D[k0] && !D1[k0] && D1[b] && sameV(G[k0], G1[b], x) && notU(V, n, x) && fval(G1[b], a) == fval(G[k0], a);
  requires forall k: int {D[k]} {D1[k]} :: 0 <= k < b && k != k0 ==> (D[k] <==> D1[k]) && (D[k] ==> G[k] == G1[k]);
  ensures addU(G1, D1, V, n, W, hw, b + 1, a) == addU(G, D, V, n, W, hw, b, a);
{
  let DM = D[k0 := false];
  use addU_add(G, DM, D, V, n, W, hw, b, k0, a);
  use addU_ext(G1, D1, G, DM, V, n, W, hw, b, a);
  use hasU_same(G[k0], G1[b], V, n, false, 0, x);
  use wgt_same(G[k0], G1[b], V, n, W, hw, x);
}
lemma prodN_indep(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, skip: bool, ex: int, b: int, a: [int]int, id: int, c: int)
  requires forall k: int {D[k]} :: 0 <= k < b && D[k] ==> !hasV(G[k], id);
  ensures prodN(G, D, V, n, skip, ex, b, a[id := c]) == prodN(G, D, V, n, skip, ex, b, a);
  decreases b;
{ if b > 0 { use prodN_indep(G, D, V, n, skip, ex, b - 1, a, id, c); if D[b - 1] { use fac_indep(G[b - 1], a, id, c); } } }
lemma addU_indep(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, W: [int]real, hw: bool, b: int, a: [int]int, id: int, c: int)
  requires forall k: int {D[k]} :: 0 <= k < b && D[k] ==> !hasV(G[k], id);
  ensures addU(G, D, V, n, W, hw, b, a[id := c]) == addU(G, D, V, n, W, hw, b, a);
  decreases b;
{ if b > 0 { use addU_indep(G, D, V, n, W, hw, b - 1, a, id, c); if D[b - 1] { use fac_indep(G[b - 1], a, id, c); } } }
