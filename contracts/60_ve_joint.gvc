// ve/ve.go: the factors a solver holds, as a function of assignments.

// product of the values of the factors with keys in D below b
define prodR(G: [int]Fac, D: [int]bool, b: int, a: [int]int): real decreases b =
  b <= 0 ? 1.0 : prodR(G, D, b - 1, a) * (D[b - 1] ? fval(G[b - 1], a) : 1.0);
// factor F depends on the variable with this id
define hasV(F: Fac, id: int): bool decreases 0 = exists j: int {F.v[j]} :: 0 <= j < F.n && F.v[j].id == id;
// all factors agree on what a variable is
define consD(G: [int]Fac, D: [int]bool, vf: [int]ve.Variable): bool decreases 0 =
  forall k: int, q: int {G[k].v[q]} :: D[k] && 0 <= q < G[k].n ==> G[k].v[q] == vf[G[k].v[q].id];
// the variables of all factors are among the solver's variables
define inV(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int): bool decreases 0 =
  forall k: int, q: int {G[k].v[q]} :: D[k] && 0 <= q < G[k].n ==> 0 <= G[k].v[q].index < n && V[G[k].v[q].index].id == G[k].v[q].id && V[G[k].v[q].index].outcomes == G[k].v[q].outcomes;
// assignments in range for all of the solver's variables
define fitsV(V: [int]ve.Variable, n: int, a: [int]int): bool decreases 0 =
  forall i: int {V[i]} :: 0 <= i < n ==> 0 <= a[V[i].id] < V[i].outcomes;
// the variable occurs in some factor
define occ(G: [int]Fac, D: [int]bool, id: int): bool decreases 0 = exists k: int {D[k]} {G[k]} :: D[k] && hasV(G[k], id);

macro gs(m) = lam k: int :: Fac(len(vals(m)[k].variables), seq(vals(m)[k].variables), seq(vals(m)[k].data));
macro and2(D, E) = lam k: int :: D[k] && E[k];
macro minus(D, E) = lam k: int :: D[k] && !E[k];

lemma prodR_ext(G: [int]Fac, G2: [int]Fac, D: [int]bool, D2: [int]bool, b: int, a: [int]int)
  requires forall k: int {D[k]} {D2[k]} :: 0 <= k < b ==> (D[k] <==> D2[k]) && (D[k] ==> G[k] == G2[k]);
  ensures prodR(G, D, b, a) == prodR(G2, D2, b, a);
  decreases b;
{ if b > 0 { use prodR_ext(G, G2, D, D2, b - 1, a); assert D[b - 1] <==> D2[b - 1]; } }

lemma prodR_yes(G: [int]Fac, D: [int]bool, b: int, a: [int]int, F: Fac)
  requires 0 <= b && D[b] && G[b] == F;
  ensures prodR(G, D, b + 1, a) == prodR(G, D, b, a) * fval(F, a);
{ }
lemma prodR_no(G: [int]Fac, D: [int]bool, b: int, a: [int]int)
  requires 0 <= b && !D[b];
  ensures prodR(G, D, b + 1, a) == prodR(G, D, b, a);
{ }

lemma prodR_gap(G: [int]Fac, D: [int]bool, b: int, c: int, a: [int]int)
  requires 0 <= b <= c && (forall k: int {D[k]} :: b <= k < c ==> !D[k]);
  ensures prodR(G, D, c, a) == prodR(G, D, b, a);
  decreases c;
{ if b < c { use prodR_gap(G, D, b, c - 1, a); assert !D[c - 1]; } }
lemma prodR_split(G: [int]Fac, D: [int]bool, E: [int]bool, D1: [int]bool, D2: [int]bool, b: int, a: [int]int)
  requires forall k: int {D[k]} {D1[k]} {D2[k]} :: 0 <= k < b ==> (D1[k] <==> D[k] && E[k]) && (D2[k] <==> D[k] && !E[k]);
  ensures prodR(G, D, b, a) == prodR(G, D1, b, a) * prodR(G, D2, b, a);
  decreases b;
{
  if b > 0 {
    use prodR_split(G, D, E, D1, D2, b - 1, a);
    let p = prodR(G, D1, b - 1, a); let q = prodR(G, D2, b - 1, a); let z = fval(G[b - 1], a);
    assert (D1[b - 1] <==> D[b - 1] && E[b - 1]) && (D2[b - 1] <==> D[b - 1] && !E[b - 1]);
    assert (p * q) * z == (p * z) * q;
    assert (p * q) * z == p * (q * z);
  }
}

lemma prodR_none(G: [int]Fac, D: [int]bool, b: int, a: [int]int)
  requires forall k: int {D[k]} :: 0 <= k < b ==> !D[k];
  ensures prodR(G, D, b, a) == 1.0;
  decreases b;
{ if b > 0 { use prodR_none(G, D, b - 1, a); assert !D[b - 1]; } }

lemma prodR_add(G: [int]Fac, D: [int]bool, D2: [int]bool, b: int, k: int, a: [int]int)
  requires 0 <= k < b && !D[k] && D2[k];
  requires forall j: int {D[j]} {D2[j]} :: 0 <= j < b && j != k ==> (D[j] <==> D2[j]);
  ensures prodR(G, D2, b, a) == prodR(G, D, b, a) * fval(G[k], a);
  decreases b;
{
  if b - 1 == k { use prodR_ext(G, G, D, D2, b - 1, a); }
  else {
    use prodR_add(G, D, D2, b - 1, k, a);
    assert D[b - 1] <==> D2[b - 1];
    let p = prodR(G, D, b - 1, a); let z = fval(G[k], a); let y = fval(G[b - 1], a);
    assert (p * z) * y == (p * y) * z;
  }
}

lemma fac_indep(F: Fac, a: [int]int, id: int, c: int)
  requires !hasV(F, id);
  ensures fval(F, a[id := c]) == fval(F, a);
{
  fix j: int | 0 <= j < F.n { assert F.v[j].id != id; } show dig(F.v, a[id := c])[j] == dig(F.v, a)[j];
  use S_ext(F.v, F.n, dig(F.v, a[id := c]), dig(F.v, a), 0);
}
lemma prodR_indep(G: [int]Fac, D: [int]bool, b: int, a: [int]int, id: int, c: int)
  requires forall k: int {D[k]} :: 0 <= k < b && D[k] ==> !hasV(G[k], id);
  ensures prodR(G, D, b, a[id := c]) == prodR(G, D, b, a);
  decreases b;
{ if b > 0 { use prodR_indep(G, D, b - 1, a, id, c); if D[b - 1] { use fac_indep(G[b - 1], a, id, c); } } }

lemma prodA_ext(F: [int]Fac, F2: [int]Fac, m: int, a: [int]int)
  requires forall j: int {F[j]} {F2[j]} :: 0 <= j < m ==> F[j] == F2[j];
  ensures prodA(F, m, a) == prodA(F2, m, a);
  decreases m;
{ if m > 0 { use prodA_ext(F, F2, m - 1, a); assert F[m - 1] == F2[m - 1]; } }

// sum of the joint over the outcomes below c of one variable
define sumJ(G: [int]Fac, D: [int]bool, b: int, a: [int]int, id: int, c: int): real decreases c =
  c <= 0 ? 0.0 : sumJ(G, D, b, a, id, c - 1) + prodR(G, D, b, a[id := c - 1]);

lemma sum_out(G: [int]Fac, D: [int]bool, E: [int]bool, D1: [int]bool, D2: [int]bool, b: int, a: [int]int, id: int, F: Fac, c: int)
  requires forall k: int {D[k]} {D1[k]} {D2[k]} :: 0 <= k < b ==> (D1[k] <==> D[k] && E[k]) && (D2[k] <==> D[k] && !E[k]);
  requires forall k: int {D2[k]} :: 0 <= k < b && D2[k] ==> !hasV(G[k], id);
  requires forall i: int {a[id := i]} :: 0 <= i < c ==> fval(F, a[id := i]) == prodR(G, D1, b, a[id := i]);
  ensures sumJ(G, D, b, a, id, c) == sumA(F.d, F.v, F.n, a, id, c) * prodR(G, D2, b, a);
  decreases c;
{
  if c > 0 {
    use sum_out(G, D, E, D1, D2, b, a, id, F, c - 1);
    use prodR_split(G, D, E, D1, D2, b, a[id := c - 1]);
    use prodR_indep(G, D2, b, a, id, c - 1);
    let s = sumA(F.d, F.v, F.n, a, id, c - 1); let z = fval(F, a[id := c - 1]); let q = prodR(G, D2, b, a);
    assert fval(F, a[id := c - 1]) == prodR(G, D1, b, a[id := c - 1]);
    assert s * q + z * q == (s + z) * q;
  }
}
