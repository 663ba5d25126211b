// ve/ve.go: solving queries.

// J summed over the outcomes of the first m variables of H (the last of them up to outcome c)
define sumF(J: [[int]int]real, H: [int]ve.Variable, m: int, c: int, a: [int]int): real decreases m, c =
  m <= 0 ? J[a] : (c <= 0 ? 0.0 : sumF(J, H, m, c - 1, a) + sumF(J, H, m - 1, H[m - 2].outcomes, a[H[m - 1].id := c - 1]));
lemma sumH_F(G: [int]Fac, D: [int]bool, b: int, J: [[int]int]real, V: [int]ve.Variable, n: int, H: [int]ve.Variable, m: int, c: int, a: [int]int)
  requires distinct(V, n) && fitsV(V, n, a);
  requires forall q: int {H[q]} :: 0 <= q < m ==> 0 <= H[q].index < n && V[H[q].index] == H[q];
  requires m > 0 ==> c <= H[m - 1].outcomes;
  requires forall a2: [int]int {fitsV(V, n, a2)} :: fitsV(V, n, a2) ==> prodR(G, D, b, a2) == J[a2];
  ensures sumH(G, D, b, H, m, c, a) == sumF(J, H, m, c, a);
  decreases m, c;
{
  if m > 0 {
    if c > 0 {
      use sumH_F(G, D, b, J, V, n, H, m, c - 1, a);
      let x = H[m - 1];
      let a3 = a[x.id := c - 1];
      assert V[x.index] == x;
      fix i: int | 0 <= i < n { if V[i].id == x.id { assert i == x.index; } } show 0 <= a3[V[i].id] < V[i].outcomes;
      assert fitsV(V, n, a3);
      use sumH_F(G, D, b, J, V, n, H, m - 1, H[m - 2].outcomes, a3);
    }
  }
}
// what is summed: 0 the joint probability, 1 total utility, 2 utility of one variable
define jointQ(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, W: [int]real, hw: bool, b: int, mode: int, ex: int, a: [int]int): real decreases 0 =
  mode == 2 ? prodN(G, D, V, n, true, ex, b, a) :
  (mode == 1 && nU(V, n) > 0 ? addU(G, D, V, n, W, hw, b, a) * prodN(G, D, V, n, false, 0, b, a) : prodN(G, D, V, n, false, 0, b, a));
define isJ(J: [[int]int]real, G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, W: [int]real, hw: bool, b: int, mode: int, ex: int, E: [int]ve.Evidence, ne: int): bool decreases 0 =
  forall a: [int]int {J[a]} :: J[a] == jointQ(G, D, V, n, W, hw, b, mode, ex, updE(E, ne, a));
define isU(V: [int]ve.Variable, n: int, id: int): bool decreases 0 = exists i: int {V[i]} :: 0 <= i < n && V[i].nodeType == 2 && V[i].id == id;
define occQ(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, mode: int, ex: int, id: int): bool decreases 0 =
  mode == 2 ? occN(G, D, V, n, true, ex, id) : (mode == 1 ? occ(G, D, id) && !isU(V, n, id) : occN(G, D, V, n, false, 0, id));
macro modeOf(utility, uv) = utility ? (uv == nil ? 1 : 2) : 0;

lemma hidList_el(V: [int]ve.Variable, n: int, el: [int]bool, el2: [int]bool, PP: [int]bool, E: [int]ve.Evidence, ne: int, Q: [int]ve.Variable, nq: int, H: [int]ve.Variable, m: int)
  requires hidList(V, n, el, PP, E, ne, Q, nq, H, m) && (forall i: int {V[i]} :: 0 <= i < n && V[i].nodeType == 0 ==> el[i] == el2[i]);
  ensures hidList(V, n, el2, PP, E, ne, Q, nq, H, m);
{
  fix q: int | 0 <= q < m { assert hidV(V, el, PP, E, ne, Q, nq, H[q].index); assert V[H[q].index] == H[q]; } show 0 <= H[q].index < n && V[H[q].index] == H[q] && hidV(V, el2, PP, E, ne, Q, nq, H[q].index);
  fix i: int | 0 <= i < n && hidV(V, el2, PP, E, ne, Q, nq, i) { assert hidV(V, el, PP, E, ne, Q, nq, i); } show inIds(H, m, V[i].id);
}
lemma hasU_skip(F: Fac, V: [int]ve.Variable, n: int, ex: int)
  ensures hasU(F, V, n, true, ex) ==> hasU(F, V, n, false, 0);
{ if hasU(F, V, n, true, ex) { obtain i: int :: 0 <= i < n && V[i].nodeType == 2 && V[i].id != ex && hasV(F, V[i].id); } }

// what solving needs: every chance variable has a table of its own, utility variables are known
macro solvable(s, E, ne) = okVE(s) && agree(s) && okDeps(s) && utilsKnown(s)
  && (forall i: int {V(s)[i]} :: 0 <= i < nV(s) && V(s)[i].nodeType == 0 && !seq(s.eliminated)[i] && !inEv(E, ne, V(s)[i].id) ==> occN(G(s), D(s), V(s), nV(s), false, 0, V(s)[i].id));
macro utilsOne(s) = (forall i: int {V(s)[i]} :: 0 <= i < nV(s) && V(s)[i].nodeType == 2 ==> V(s)[i].outcomes == 1 && occ(G(s), D(s), V(s)[i].id))
  && (s.weights != nil ==> len(s.weights) == nU(V(s), nV(s)));

lemma rmul_cong(a: real, b: real, c: real, d: real)
  requires a == c && b == d;
  ensures a * b == c * d;
{ }
func ve.VE.solve(s, evidence, query, utility, utilityVar) returns (r)
  property C01 C03;
  requires solvable(s, seq(evidence), len(evidence)) && okE(G(s), D(s), V(s), nV(s), seq(evidence), len(evidence)) && notUE(V(s), nV(s), seq(evidence), len(evidence));
  requires @utils utility && utilityVar == nil ==> utilsOne(s);
  modifies *s.variables, s.factors, s.eliminated;
  ensures @wf r != nil && fresh(r) && wfD(r);
  ensures @keep s.variables == old(s.variables) && s.variables.variables == old(s.variables.variables);
  ensures @inv forall q: int {seq(r.variables)[q]} :: 0 <= q < len(r.variables) ==> isV(s, seq(r.variables)[q]);
  ensures @agree forall w: [int]ve.Variable, q: int {old(consD(G(s), D(s), w)), seq(r.variables)[q]} :: old(consD(G(s), D(s), w)) && 0 <= q < len(r.variables) ==> seq(r.variables)[q] == w[seq(r.variables)[q].id];
  ensures @result exists J: [[int]int]real, PP: [int]bool, H: [int]ve.Variable, m: int
      {old(isJ(J, G(s), D(s), V(s), nV(s), seq(s.weights), s.weights != nil, cnt0(s), modeOf(utility, utilityVar), exid(utilityVar), seq(evidence), len(evidence))), old(hidList(V(s), nV(s), seq(s.eliminated), PP, seq(evidence), len(evidence), seq(query), len(query), H, m))} ::
    old(isJ(J, G(s), D(s), V(s), nV(s), seq(s.weights), s.weights != nil, cnt0(s), modeOf(utility, utilityVar), exid(utilityVar), seq(evidence), len(evidence)))
    && old(hidList(V(s), nV(s), seq(s.eliminated), PP, seq(evidence), len(evidence), seq(query), len(query), H, m))
    && parentsOf(old(dl(s.dependencies)), old(dom(s.dependencies)), old(V(s)), nV(s), false, PP)
    && (forall a: [int]int {fitsV(V(s), nV(s), a)} :: fitsV(V(s), nV(s), a) ==> fval(fac(r), a) == sumF(J, H, m, H[m - 1].outcomes, a))
    && (forall id: int {hasV(fac(r), id)} :: hasV(fac(r), id) <==> old(occQ(G(s), D(s), V(s), nV(s), modeOf(utility, utilityVar), exid(utilityVar), id) && !inEv(seq(evidence), len(evidence), id)) && !inIds(H, m, id));
  entry {
    let G0 = G(s); let D0 = D(s); let b = cnt0(s); let V0 = V(s); let n = nV(s); let el0 = seq(s.eliminated);
    let E = seq(evidence); let ne = len(evidence); let Q = seq(query); let nq = len(query); let W = seq(s.weights); let hw = s.weights != nil;
    let L = dl(s.dependencies); let DD = dom(s.dependencies);
    let mode = modeOf(utility, utilityVar); let ex = exid(utilityVar);
    obtain vf: [int]ve.Variable :: consD(G0, D0, vf);
    let J = lam a: [int]int :: jointQ(G0, D0, V0, n, W, hw, b, mode, ex, updE(E, ne, a));
    assert isJ(J, G0, D0, V0, n, W, hw, b, mode, ex, E, ne);
  }
  aftercall eliminateEvidence {
    let G1 = G(s); let D1 = D(s); let b1 = cnt0(s); let m1 = vals(s.factors);
    assert V(s) == V0 && seq(s.eliminated) == el0 && dl(s.dependencies) == L && dom(s.dependencies) == DD && seq(s.weights) == W && seq(query) == Q && seq(evidence) == E;
    fix i: int | 0 <= i < n && V0[i].nodeType == 2 {
      let vx = vf[V0[i].id := V0[i]];
      fix k: int, q: int | D0[k] && 0 <= q < G0[k].n { } show G0[k].v[q] == vx[G0[k].v[q].id];
      assert consD(G0, D0, vx);
      assert consD(G1, D1, vx);
    } show isx(G1, D1, V0[i]);
    fix i: int | 0 <= i < n && V0[i].nodeType == 0 && !el0[i] && !inEv(E, ne, V0[i].id) { } show occN(G1, D1, V0, n, false, 0, V0[i].id);
    fix i: int | 0 <= i < n && V0[i].nodeType == 2 { if inEv(E, ne, V0[i].id) { obtain q: int :: 0 <= q < ne && E[q].Variable.id == V0[i].id; assert notU(V0, n, E[q].Variable.id); } } show !inEv(E, ne, V0[i].id);
    assert consD(G1, D1, vf);
  }
  beforecall sumUtilities {
    let DE = and2(D(s), utilSet(G(s), V(s), nV(s))); let DN = minus(D(s), utilSet(G(s), V(s), nV(s))); let WK = weightsOf(G(s), V(s), nV(s), seq(s.weights), s.weights != nil);
    fix a: [int]int | fitsV(V0, n, a) {
      use prodN_R(G1, D1, V0, n, false, 0, b1, a, DN);
      use addU_R(G1, D1, V0, n, W, hw, b1, a, DE, WK);
    } show addR(G1, DE, WK, b1, a) == addU(G1, D1, V0, n, W, hw, b1, a) && prodR(G1, DN, b1, a) == prodN(G1, D1, V0, n, false, 0, b1, a);
    if nU(V0, n) == 0 {
      fix i: int | 0 <= i < n { use nU_bound(V0, i, n); use nU_bound(V0, 0, i); } show V0[i].nodeType != 2;
      fix k: int | true { } show !hasU(G1[k], V0, n, false, 0);
      fix a: [int]int | fitsV(V0, n, a) { use prodN_R(G1, D1, V0, n, false, 0, b1, a, D1); } show prodR(G1, D1, b1, a) == prodN(G1, D1, V0, n, false, 0, b1, a);
    } else { use nU_bound(V0, 0, n); }
  }
  aftercall sumUtilities {
    let G2 = G(s); let D2 = D(s); let b2 = cnt0(s); let el2 = seq(s.eliminated);
    assert V(s) == V0 && dl(s.dependencies) == L && dom(s.dependencies) == DD && seq(query) == Q && seq(evidence) == E;
    assert consD(G2, D2, vf);
    fix a: [int]int | fitsV(V0, n, a) {
      let pN = prodN(G1, D1, V0, n, false, 0, b1, a); let sU = addU(G1, D1, V0, n, W, hw, b1, a);
      assert pN == prodN(G0, D0, V0, n, false, 0, b, updE(E, ne, a));
      assert sU == addU(G0, D0, V0, n, W, hw, b, updE(E, ne, a));
      use rmul_cong(sU, pN, addU(G0, D0, V0, n, W, hw, b, updE(E, ne, a)), prodN(G0, D0, V0, n, false, 0, b, updE(E, ne, a)));
      if nU(V0, n) > 0 { use rmul_cong(addR(G1, DE, WK, b1, a), prodR(G1, DN, b1, a), sU, pN); assert prodR(G2, D2, b2, a) == sU * pN; } else { assert nU(V0, n) == 0; assert prodR(G2, D2, b2, a) == pN; }
      assert J[a] == jointQ(G0, D0, V0, n, W, hw, b, mode, ex, updE(E, ne, a));
    } show prodR(G2, D2, b2, a) == J[a];
    fix id: int | true { assert isU(V0, n, id) <==> (exists i: int {V0[i]} :: 0 <= i < n && V0[i].nodeType == 2 && V0[i].id == id); } show occ(G2, D2, id) <==> occQ(G0, D0, V0, n, mode, ex, id) && !inEv(E, ne, id);
    fix i: int | 0 <= i < n && V0[i].nodeType == 0 && !el0[i] && !inEv(E, ne, V0[i].id) {
      obtain k: int :: D1[k] && hasV(G1[k], V0[i].id);
      assert occ(G1, D1, V0[i].id);
    } show occ(G2, D2, V0[i].id);
  }
  aftercall removeUtilities {
    let G2 = G(s); let D2 = D(s); let b2 = cnt0(s); let el2 = seq(s.eliminated);
    let sk = $a1 != nil; let ek = exid($a1);
    assert V(s) == V0 && dl(s.dependencies) == L && dom(s.dependencies) == DD && seq(query) == Q && seq(evidence) == E;
    assert G2 == G1 && b2 == b1;
    fix k: int | true { } show D2[k] <==> D1[k] && !hasU(G1[k], V0, n, sk, ek);
    fix w: [int]ve.Variable | consD(G1, D1, w) { fix k: int, q: int | D2[k] && 0 <= q < G2[k].n { assert D1[k]; assert G1[k].v[q] == w[G1[k].v[q].id]; } show G2[k].v[q] == w[G2[k].v[q].id]; } show consD(G2, D2, w);
    fix k: int, q: int | D2[k] && 0 <= q < G2[k].n { assert D1[k]; assert G1[k].v[q] == G2[k].v[q]; } show 0 <= G2[k].v[q].index < n && V0[G2[k].v[q].index].id == G2[k].v[q].id && V0[G2[k].v[q].index].outcomes == G2[k].v[q].outcomes;
    assert inV(G2, D2, V0, n);
    assert okVE(s);
    fix a: [int]int | fitsV(V0, n, a) { use prodN_R(G1, D1, V0, n, sk, ek, b1, a, D2); assert prodR(G2, D2, b2, a) == prodN(G1, D1, V0, n, sk, ek, b1, a); } show prodR(G2, D2, b2, a) == J[a];
    fix id: int | true {
      if occ(G2, D2, id) { obtain k: int :: D2[k] && hasV(G2[k], id); assert D1[k]; assert occN(G1, D1, V0, n, sk, ek, id); }
      if occN(G1, D1, V0, n, sk, ek, id) { obtain k: int :: D1[k] && !hasU(G1[k], V0, n, sk, ek) && hasV(G1[k], id); assert D2[k] && hasV(G2[k], id); assert occ(G2, D2, id); }
    } show occ(G2, D2, id) <==> occN(G1, D1, V0, n, sk, ek, id);
    fix id: int | true { } show occ(G2, D2, id) <==> occQ(G0, D0, V0, n, mode, ex, id) && !inEv(E, ne, id);
    fix i: int | 0 <= i < n && V0[i].nodeType == 0 && !el0[i] && !inEv(E, ne, V0[i].id) {
      obtain k: int :: D1[k] && !hasU(G1[k], V0, n, false, 0) && hasV(G1[k], V0[i].id);
      use hasU_skip(G1[k], V0, n, ek);
      assert D2[k] && hasV(G2[k], V0[i].id);
    } show occ(G2, D2, V0[i].id);
  }
  aftercall eliminateHidden {
    let G3 = G(s); let D3 = D(s); let b3 = cnt0(s);
    obtain PP: [int]bool, H: [int]ve.Variable, m: int ::
      hidList(V0, n, el2, PP, E, ne, Q, nq, H, m) && parentsOf(L, DD, V0, n, false, PP)
      && (forall a: [int]int {fitsV(V0, n, a)} :: fitsV(V0, n, a) ==> prodR(G3, D3, b3, a) == sumH(G2, D2, b2, H, m, H[m - 1].outcomes, a))
      && (forall id: int {occ(G3, D3, id)} {occ(G2, D2, id)} :: occ(G3, D3, id) <==> occ(G2, D2, id) && !inIds(H, m, id));
    use hidList_el(V0, n, el2, el0, PP, E, ne, Q, nq, H, m);
    fix a: [int]int | fitsV(V0, n, a) { use sumH_F(G2, D2, b2, J, V0, n, H, m, H[m - 1].outcomes, a); } show prodR(G3, D3, b3, a) == sumF(J, H, m, H[m - 1].outcomes, a);
    assert V(s) == V0;
    assert consD(G3, D3, vf);
  }
  exit { assert V(s) == V0; }
