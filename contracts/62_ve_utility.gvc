// ve/ve.go: sumUtilities.

// number of utility variables before position i
define nU(V: [int]ve.Variable, i: int): int decreases i = i <= 0 ? 0 : nU(V, i - 1) + (V[i - 1].nodeType == 2 ? 1 : 0);
// weight of the first utility variable from position i on that the factor contains
define wOf(F: Fac, V: [int]ve.Variable, n: int, i: int, W: [int]real): real decreases n - i =
  i >= n ? 0.0 : (V[i].nodeType == 2 && hasV(F, V[i].id) ? W[nU(V, i)] : wOf(F, V, n, i + 1, W));
define wgt(F: Fac, V: [int]ve.Variable, n: int, W: [int]real, hw: bool): real decreases 0 = hw ? wOf(F, V, n, 0, W) : 1.0;
// weighted sum of the factors with keys in D below b
define addR(G: [int]Fac, D: [int]bool, WK: [int]real, b: int, a: [int]int): real decreases b =
  b <= 0 ? 0.0 : addR(G, D, WK, b - 1, a) + (D[b - 1] ? fval(G[b - 1], a) * WK[b - 1] : 0.0);
macro weightsOf(G, V, n, W, hw) = lam k: int :: wgt(G[k], V, n, W, hw);
macro utilSet(G, V, n) = lam k: int :: hasU(G[k], V, n, false, 0);

lemma nU_bound(V: [int]ve.Variable, i: int, j: int)
  requires 0 <= i <= j;
  ensures 0 <= nU(V, i) <= nU(V, j);
  ensures i < j && V[i].nodeType == 2 ==> nU(V, i) < nU(V, j);
  decreases j;
{ if i < j { use nU_bound(V, i, j - 1); } else { if i > 0 { use nU_bound(V, i - 1, i - 1); } } }
lemma wOf_first(F: Fac, V: [int]ve.Variable, n: int, i: int, W: [int]real, i0: int)
  requires 0 <= i <= i0 && i0 < n && V[i0].nodeType == 2 && hasV(F, V[i0].id);
  requires forall j: int {V[j]} :: 0 <= j < i0 && V[j].nodeType == 2 ==> !hasV(F, V[j].id);
  ensures wOf(F, V, n, i, W) == W[nU(V, i0)];
  decreases i0 - i;
{ if i < i0 { use wOf_first(F, V, n, i + 1, W, i0); assert V[i].nodeType == 2 ==> !hasV(F, V[i].id); } }

lemma addR_ext(G: [int]Fac, D: [int]bool, D2: [int]bool, WK: [int]real, b: int, a: [int]int)
  requires forall k: int {D[k]} {D2[k]} :: 0 <= k < b ==> (D[k] <==> D2[k]);
  ensures addR(G, D, WK, b, a) == addR(G, D2, WK, b, a);
  decreases b;
{ if b > 0 { use addR_ext(G, D, D2, WK, b - 1, a); assert D[b - 1] <==> D2[b - 1]; } }
lemma addR_none(G: [int]Fac, D: [int]bool, WK: [int]real, b: int, a: [int]int)
  requires forall k: int {D[k]} :: 0 <= k < b ==> !D[k];
  ensures addR(G, D, WK, b, a) == 0.0;
  decreases b;
{ if b > 0 { use addR_none(G, D, WK, b - 1, a); assert !D[b - 1]; } }
lemma addR_add(G: [int]Fac, D: [int]bool, D2: [int]bool, WK: [int]real, b: int, k: int, a: [int]int)
  requires 0 <= k < b && !D[k] && D2[k];
  requires forall j: int {D[j]} {D2[j]} :: 0 <= j < b && j != k ==> (D[j] <==> D2[j]);
  ensures addR(G, D2, WK, b, a) == addR(G, D, WK, b, a) + fval(G[k], a) * WK[k];
  decreases b;
{
  if b - 1 == k { use addR_ext(G, D, D2, WK, b - 1, a); }
  else { use addR_add(G, D, D2, WK, b - 1, k, a); assert D[b - 1] <==> D2[b - 1]; }
}
lemma addA_ext(F: [int]Fac, F2: [int]Fac, m: int, a: [int]int)
  requires forall j: int {F[j]} {F2[j]} :: 0 <= j < m ==> F[j] == F2[j];
  ensures addA(F, m, a) == addA(F2, m, a);
  decreases m;
{ if m > 0 { use addA_ext(F, F2, m - 1, a); assert F[m - 1] == F2[m - 1]; } }

func ve.VE.sumUtilities(s) returns ()
  property C03;
  requires okVE(s) && agree(s) && utilsKnown(s);
  requires @single forall i: int {V(s)[i]} :: 0 <= i < nV(s) && V(s)[i].nodeType == 2 ==> V(s)[i].outcomes == 1 && occ(G(s), D(s), V(s)[i].id);
  requires @weights s.weights != nil ==> len(s.weights) == nU(V(s), nV(s));
  modifies *s.variables, s.factors, s.eliminated;
  ensures @ok okVE(s);
  ensures @keep keepVars(s);
  ensures @agree keepAgree(s);
  ensures @none nU(V(s), nV(s)) == 0 ==> D(s) == old(D(s)) && vals(s.factors) == old(vals(s.factors)) && cnt0(s) == old(cnt0(s)) && seq(s.eliminated) == old(seq(s.eliminated));
  ensures @joint forall a: [int]int {fitsV(V(s), nV(s), a)} :: nU(V(s), nV(s)) > 0 && fitsV(V(s), nV(s), a) ==>
    joint(s, a) == old(addR(G(s), and2(D(s), utilSet(G(s), V(s), nV(s))), weightsOf(G(s), V(s), nV(s), seq(s.weights), s.weights != nil), cnt0(s), a)
                       * prodR(G(s), minus(D(s), utilSet(G(s), V(s), nV(s))), cnt0(s), a));
  ensures @occ nU(V(s), nV(s)) > 0 ==> (forall id: int {occ(G(s), D(s), id)} {old(occ(G(s), D(s), id))} :: occ(G(s), D(s), id) <==> old(occ(G(s), D(s), id)) && !(exists i: int {V(s)[i]} :: 0 <= i < nV(s) && V(s)[i].nodeType == 2 && V(s)[i].id == id));
  ensures @elim nU(V(s), nV(s)) > 0 ==> (forall i: int {seq(s.eliminated)[i]} :: 0 <= i < nV(s) ==> (seq(s.eliminated)[i] <==> V(s)[i].nodeType == 2 || old(seq(s.eliminated)[i])));
  entry {
    let G0 = G(s); let D0 = D(s); let b = cnt0(s); let m0 = vals(s.factors); let V0 = V(s); let n = nV(s); let W = seq(s.weights); let hw = s.weights != nil; let el0 = seq(s.eliminated);
    let E = utilSet(G0, V0, n);
    let DN = minus(D(s), utilSet(G(s), V(s), nV(s)));
    let DE = and2(D(s), utilSet(G(s), V(s), nV(s)));
    let WK = weightsOf(G(s), V(s), nV(s), seq(s.weights), s.weights != nil);
    assert forall k: int {DN[k]} {DE[k]} {E[k]} :: (DN[k] <==> D0[k] && !E[k]) && (DE[k] <==> D0[k] && E[k]);
    assert forall k: int {WK[k]} :: WK[k] == wgt(G0[k], V0, n, W, hw);
    obtain vf: [int]ve.Variable :: consD(G0, D0, vf);
  }
  loop 0 {
    modifies utils;
    invariant fresh(utils) && (ref(utils) == pre(ref(utils)) || ref(utils) > pre(alloc()));
    invariant @len len(utils) == nU(V0, $k);
    invariant @all forall i: int {V0[i]} :: 0 <= i < $k && V0[i].nodeType == 2 ==> 0 <= nU(V0, i) < len(utils) && seq(utils)[nU(V0, i)] == V0[i];
    invariant @in forall j: int {seq(utils)[j]} :: 0 <= j < len(utils) ==> 0 <= seq(utils)[j].index < $k && seq(utils)[j] == V0[seq(utils)[j].index] && seq(utils)[j].nodeType == 2 && nU(V0, seq(utils)[j].index) == j;
    before { use nU_bound(V0, 0, 0); }
    begin { use nU_bound(V0, $k, $k + 1); }
    after { let U = seq(utils); let nu = len(utils); }
  }
  loop 1 {
    modifies indices, factors, *s.variables;
    invariant fresh(indices) && fresh(factors) && (ref(indices) == pre(ref(indices)) || ref(indices) > pre(alloc())) && (ref(factors) == pre(ref(factors)) || ref(factors) > pre(alloc()));
    invariant @counter s.variables.variables == old(s.variables.variables) && cnt0(s) >= b;
    invariant @len len(indices) == len(factors);
    invariant @in forall j: int {seq(indices)[j]} {seq(factors)[j]} :: 0 <= j < len(indices) ==> $seen[seq(indices)[j]] && E[seq(indices)[j]];
    invariant @all forall k: int {$seen[k]} :: $seen[k] && E[k] ==> (exists j: int {seq(indices)[j]} :: 0 <= j < len(indices) && seq(indices)[j] == k);
    invariant @ok forall j: int {seq(factors)[j]} :: 0 <= j < len(factors) ==> seq(factors)[j] != nil && allocated(seq(factors)[j]) && allocated(seq(factors)[j].variables) && allocated(seq(factors)[j].data) && wfD(seq(factors)[j]);
    invariant @vars forall j: int, id: int {hasV(facs(factors)[j], id)} :: 0 <= j < len(factors) ==> (hasV(facs(factors)[j], id) <==> hasV(G0[seq(indices)[j]], id));
    invariant @agree forall w: [int]ve.Variable {consD(G0, D0, w)} :: consD(G0, D0, w) ==> consistent(facs(factors), len(factors), w);
    invariant @inv forall j: int, q: int {facs(factors)[j].v[q]} :: 0 <= j < len(factors) && 0 <= q < facs(factors)[j].n ==> 0 <= facs(factors)[j].v[q].index < n && V0[facs(factors)[j].v[q].index].id == facs(factors)[j].v[q].id && V0[facs(factors)[j].v[q].index].outcomes == facs(factors)[j].v[q].outcomes;
    invariant @sum forall a: [int]int {addA(facs(factors), len(factors), a)} :: fitsV(V0, n, a) ==> addA(facs(factors), len(factors), a) == addR(G0, and2($seen, E), WK, b, a);
    before { use forall a: [int]int {addA(facs(factors), 0, a)} :: addR_none(G0, and2($seen, E), WK, b, a); }
    begin { let F0 = facs(factors); let n0 = len(factors); let S0 = $seen; let FO = G0[$key]; let kq = $key; let ix0 = seq(indices); let fp0 = seq(factors); let al0 = alloc(); }
    end {
      let F1 = facs(factors);
      let S1 = $seen;
      assert forall j: int {ix0[j]} {seq(indices)[j]} :: 0 <= j < n0 ==> seq(indices)[j] == ix0[j];
      assert forall j: int {fp0[j]} {seq(factors)[j]} :: 0 <= j < n0 ==> seq(factors)[j] == fp0[j];
      assert forall j: int {F0[j]} {F1[j]} :: 0 <= j < n0 ==> F0[j] == F1[j];
      assert forall j: int {seq(factors)[j]} :: 0 <= j < n0 ==> seq(factors)[j] != nil && allocated(seq(factors)[j]) && allocated(seq(factors)[j].variables) && allocated(seq(factors)[j].data);
      assert forall j: int {seq(factors)[j]} :: 0 <= j < n0 ==> wfD(seq(factors)[j]);
      if $k2 >= nu {
        if E[kq] {
          obtain i: int :: 0 <= i < n && V0[i].nodeType == 2 && hasV(FO, V0[i].id);
          assert U[nU(V0, i)] == V0[i] && 0 <= nU(V0, i) < nu;
          assert !hasV(FO, U[nU(V0, i)].id);
          assert false;
        }
        assert len(factors) == n0;
        fix a: [int]int | fitsV(V0, n, a) {
          use addA_ext(F0, F1, n0, a);
          assert addA(F0, n0, a) == addR(G0, and2(S0, E), WK, b, a);
          use addR_ext(G0, and2(S0, E), and2(S1, E), WK, b, a);
        } show addA(F1, n0, a) == addR(G0, and2(S1, E), WK, b, a);
        fix w: [int]ve.Variable | consD(G0, D0, w) {
          assert consistent(F0, n0, w);
          fix j: int, q: int | 0 <= j < n0 && 0 <= q < F1[j].n { assert F0[j].v[q] == F1[j].v[q]; } show F1[j].v[q] == w[F1[j].v[q].id];
        } show consistent(F1, n0, w);
      } else {
        let FN = F1[n0];
        ifdef FW { assert FN == FW; }
        if !hw { assert FN == FO; }
        let fn = seq(factors)[n0];
        assert fn != nil && allocated(fn) && allocated(fn.variables) && allocated(fn.data);
        assert outpos(FN.v, FN.n) && distinct(FN.v, FN.n);
        assert len(fn.data) == P(FN.v, FN.n, 0);
        assert wfD(fn);
        let i0 = U[$k2].index;
        assert len(factors) == n0 + 1 && seq(indices)[n0] == kq;
        assert hasV(FO, U[$k2].id) && V0[i0] == U[$k2] && nU(V0, i0) == $k2;
        assert E[kq];
        fix j: int | 0 <= j < i0 && V0[j].nodeType == 2 {
          use nU_bound(V0, j, i0);
          assert U[nU(V0, j)] == V0[j];
        } show !hasV(FO, V0[j].id);
        use wOf_first(FO, V0, n, 0, W, i0);
        assert WK[kq] == (hw ? W[$k2] : 1.0);
        fix a: [int]int | fitsV(V0, n, a) {
          use addA_ext(F0, F1, n0, a);
          assert addA(F0, n0, a) == addR(G0, and2(S0, E), WK, b, a);
          use addR_add(G0, and2(S0, E), and2(S1, E), WK, b, kq, a);
          assert fval(FN, a) == fval(FO, a) * WK[kq];
          assert addA(F1, n0 + 1, a) == addA(F1, n0, a) + fval(FN, a);
        } show addA(F1, n0 + 1, a) == addR(G0, and2(S1, E), WK, b, a);
        assert forall q: int {FN.v[q]} :: 0 <= q < FN.n ==> 0 <= FN.v[q].index < n && V0[FN.v[q].index].id == FN.v[q].id && V0[FN.v[q].index].outcomes == FN.v[q].outcomes;
        fix w: [int]ve.Variable | consD(G0, D0, w) {
          assert consistent(F0, n0, w);
          fix j: int, q: int | 0 <= j < n0 + 1 && 0 <= q < F1[j].n { if j < n0 { assert F0[j].v[q] == F1[j].v[q]; } else { assert FN.v[q] == w[FN.v[q].id]; } } show F1[j].v[q] == w[F1[j].v[q].id];
        } show consistent(F1, n0 + 1, w);
        fix id: int | true { } show hasV(FN, id) <==> hasV(FO, id);
      }
    }
    after {
      let F = facs(factors); let M = len(factors); let ix = seq(indices);
      assert forall j: int {ix[j]} {F[j]} :: 0 <= j < M ==> D0[ix[j]] && E[ix[j]];
      assert consistent(F, M, vf);
      fix a: [int]int | fitsV(V0, n, a) {
        use addR_ext(G0, and2($seen, E), DE, WK, b, a);
        fix j: int, q: int | 0 <= j < M && 0 <= q < F[j].n { assert V0[F[j].v[q].index].id == F[j].v[q].id; } show 0 <= a[F[j].v[q].id] < F[j].v[q].outcomes;
        assert fitsAll(F, M, a);
      } show fitsAll(F, M, a) && addA(F, M, a) == addR(G0, DE, WK, b, a);
    }
  }
  beforecall Product {
    let FL = facs($a1);
    assert len($a1) == 2 && FL[0] == FO;
    assert FL[1].n == 0 && FL[1].d[0] == W[$k2];
    assert consistent(FL, 2, vf) by {
      fix j: int, q: int | 0 <= j < 2 && 0 <= q < FL[j].n { assert j == 0 && FO.v[q] == vf[FO.v[q].id]; } show FL[j].v[q] == vf[FL[j].v[q].id];
    }
  }
  aftercall Product {
    let FW = Fac(len($r.variables), seq($r.variables), seq($r.data));
    fix a: [int]int | fitsV(V0, n, a) {
      fix j: int, q: int | 0 <= j < 2 && 0 <= q < FL[j].n { assert j == 0 && G0[kq].v[q] == FL[j].v[q]; assert V0[FO.v[q].index].id == FO.v[q].id; } show 0 <= a[FL[j].v[q].id] < FL[j].v[q].outcomes;
      assert fitsAll(FL, 2, a);
      assert S(FL[1].v, 0, dig(FL[1].v, a), 0) == 0;
      assert fval(FL[1], a) == W[$k2];
      assert prodA(FL, 0, a) == 1.0;
      assert prodA(FL, 1, a) == fval(FO, a);
      assert prodA(FL, 2, a) == fval(FO, a) * W[$k2];
    } show fval(FW, a) == fval(FO, a) * W[$k2];
    fix q: int | 0 <= q < FW.n {
      obtain j: int, k: int :: 0 <= j < 2 && 0 <= k < FL[j].n && FW.v[q] == FL[j].v[k];
      assert j == 0 && G0[kq].v[k] == FW.v[q];
    } show 0 <= FW.v[q].index < n && V0[FW.v[q].index].id == FW.v[q].id && V0[FW.v[q].index].outcomes == FW.v[q].outcomes && hasV(FO, FW.v[q].id);
    fix w: [int]ve.Variable, q: int | consD(G0, D0, w) && 0 <= q < FW.n {
      obtain j: int, k: int :: 0 <= j < 2 && 0 <= k < FL[j].n && FW.v[q] == FL[j].v[k];
      assert j == 0 && G0[kq].v[k] == FW.v[q];
    } show FW.v[q] == w[FW.v[q].id];
    fix id: int | true {
      if hasV(FW, id) { obtain q: int :: 0 <= q < FW.n && FW.v[q].id == id; }
      if hasV(FO, id) { obtain q: int :: 0 <= q < FO.n && FO.v[q].id == id; assert FL[0].v[q] == FO.v[q]; obtain q2: int :: 0 <= q2 < FW.n && FW.v[q2] == FL[0].v[q]; }
    } show hasV(FW, id) <==> hasV(FO, id);
  }
  loop 2 {
    modifies indices, factors, *s.variables;
    invariant @none forall j: int {U[j]} :: 0 <= j < $k ==> !hasV(G0[$key1], U[j].id);
    begin {
      fix q: int | 0 <= q < FO.n && FO.v[q].id == U[$k].id { assert G0[kq].v[q] == FO.v[q]; } show FO.v[q] == U[$k];
    }
    invariant @same indices == pre(indices) && seq(indices) == pre(seq(indices)) && factors == pre(factors) && seq(factors) == pre(seq(factors)) && *s.variables == pre(*s.variables);
  }
  aftercall Sum {
    let FT = Fac(len($r.variables), seq($r.variables), seq($r.data));
    fix q: int | 0 <= q < FT.n {
      obtain j: int, k: int :: 0 <= j < M && 0 <= k < F[j].n && FT.v[q] == F[j].v[k];
      assert F[j].v[k].id == FT.v[q].id;
      assert hasV(F[j], FT.v[q].id);
      assert hasV(G0[ix[j]], FT.v[q].id);
      assert D0[ix[j]];
    } show 0 <= FT.v[q].index < n && V0[FT.v[q].index].id == FT.v[q].id && V0[FT.v[q].index].outcomes == FT.v[q].outcomes && occ(G0, D0, FT.v[q].id);
    fix w: [int]ve.Variable, q: int | consD(G0, D0, w) && 0 <= q < FT.n {
      obtain j: int, k: int :: 0 <= j < M && 0 <= k < F[j].n && FT.v[q] == F[j].v[k];
      assert consistent(F, M, w);
    } show FT.v[q] == w[FT.v[q].id];
    fix k: int, id: int | DE[k] && hasV(G0[k], id) {
      obtain j: int :: 0 <= j < M && ix[j] == k;
      assert hasV(F[j], id);
      obtain q: int :: 0 <= q < F[j].n && F[j].v[q].id == id;
      obtain q2: int :: 0 <= q2 < FT.n && FT.v[q2] == F[j].v[q];
    } show hasV(FT, id);
    fix j: int | 0 <= j < nu {
      obtain k: int :: D0[k] && hasV(G0[k], U[j].id);
      assert V0[U[j].index] == U[j] && E[k] && DE[k];
    } show hasV(FT, U[j].id);
    fix a: [int]int | fitsV(V0, n, a) { } show fval(FT, a) == addR(G0, DE, WK, b, a);
  }
  loop 3 {
    modifies *s.variables, s.eliminated;
    invariant @counter s.variables.variables == old(s.variables.variables) && cnt0(s) > b && sum.id == cnt0(s) - 1;
    invariant @wf wfD(sum) && fresh(sum.variables);
    invariant @inv forall q: int {seq(sum.variables)[q]} :: 0 <= q < len(sum.variables) ==> 0 <= seq(sum.variables)[q].index < n && V0[seq(sum.variables)[q].index].id == seq(sum.variables)[q].id && V0[seq(sum.variables)[q].index].outcomes == seq(sum.variables)[q].outcomes;
    invariant @agree forall w: [int]ve.Variable, q: int {consD(G0, D0, w), seq(sum.variables)[q]} :: consD(G0, D0, w) && 0 <= q < len(sum.variables) ==> seq(sum.variables)[q] == w[seq(sum.variables)[q].id];
    invariant @vars forall id: int {hasV(fac(sum), id)} {hasV(FT, id)} :: hasV(fac(sum), id) <==> hasV(FT, id) && !(exists j: int {U[j]} :: 0 <= j < $k && U[j].id == id);
    invariant @value forall a: [int]int {fitsV(V0, n, a)} :: fitsV(V0, n, a) ==> fval(fac(sum), a) == addR(G0, DE, WK, b, a);
    invariant @elim forall i: int {seq(s.eliminated)[i]} :: 0 <= i < n ==> (seq(s.eliminated)[i] <==> el0[i] || (V0[i].nodeType == 2 && nU(V0, i) < $k));
    begin { let FB = fac(sum); let u = U[$k];
      assert V0[u.index] == u;
      fix j: int | 0 <= j < $k && U[j].id == u.id { assert V0[U[j].index] == U[j] && U[j].index == u.index; } show false;
      assert hasV(FB, u.id);
    }
    end {
      let FC = fac(sum);
      obtain p: int :: 0 <= p < FB.n && FB.v[p].id == u.id && FC.n == FB.n - 1 && without(FB.v, FC.v, FB.n, p);
      fix q: int | 0 <= q < FC.n { } show FC.v[q] == FB.v[q < p ? q : q + 1];
      fix id: int | true {
        if id != u.id && hasV(FB, id) {
          obtain q: int :: 0 <= q < FB.n && FB.v[q].id == id;
          assert q != p;
          let q3 = q < p ? q : q - 1;
          assert FC.v[q3] == FB.v[q3 < p ? q3 : q3 + 1];
        }
        if hasV(FC, id) {
          obtain q: int :: 0 <= q < FC.n && FC.v[q].id == id;
          assert FC.v[q] == FB.v[q < p ? q : q + 1];
        }
      } show hasV(FC, id) <==> id != u.id && hasV(FB, id);
      fix a: [int]int | fitsV(V0, n, a) {
        assert V0[u.index].id == u.id && a[u.id] == 0;
        assert a[u.id := 0] == a;
        fix j: int | 0 <= j < FB.n { assert V0[FB.v[j].index].id == FB.v[j].id; } show 0 <= a[FB.v[j].id] < FB.v[j].outcomes;
        assert sumA(FB.d, FB.v, FB.n, a, u.id, 0) == 0.0;
        assert sumA(FB.d, FB.v, FB.n, a, u.id, 1) == fval(FB, a);
      } show fval(FC, a) == addR(G0, DE, WK, b, a);
    }
    after {
      let FS = fac(sum); let bs = cnt0(s) - 1;
      fix id: int | true {
        if exists i: int {V0[i]} :: 0 <= i < n && V0[i].nodeType == 2 && V0[i].id == id {
          obtain i: int :: 0 <= i < n && V0[i].nodeType == 2 && V0[i].id == id;
          assert U[nU(V0, i)] == V0[i];
        }
        if exists j: int {U[j]} :: 0 <= j < nu && U[j].id == id {
          obtain j: int :: 0 <= j < nu && U[j].id == id;
          assert V0[U[j].index] == U[j];
        }
      } show hasV(FS, id) <==> hasV(FT, id) && !(exists i: int {V0[i]} :: 0 <= i < n && V0[i].nodeType == 2 && V0[i].id == id);
      assert forall i: int {V0[i]} :: 0 <= i < n && V0[i].nodeType == 2 ==> nU(V0, i) < nu;
    }
  }
  loop 4 {
    modifies s.factors;
    invariant @vals vals(s.factors) == m0;
    invariant @dom forall k: int {dom(s.factors)[k]} {D0[k]} :: dom(s.factors)[k] <==> D0[k] && !(exists j: int {ix[j]} :: 0 <= j < $k && ix[j] == k);
    after { assert forall k: int {dom(s.factors)[k]} {DN[k]} :: dom(s.factors)[k] <==> DN[k]; assert dom(s.factors) == DN; }
  }
  exit {
    ifdef FS {
      let D1 = D(s); let G1 = G(s); let b1 = cnt0(s);
      assert V(s) == V0 && nV(s) == n;
      assert b1 == bs + 1 && bs >= b && D1 == DN[bs := true] && G1[bs] == FS;
      assert forall k: int {m0[k]} {G1[k]} :: 0 <= k < b ==> vals(s.factors)[k] == m0[k];
      assert forall k: int {G1[k]} {G0[k]} :: D0[k] ==> G1[k] == G0[k];
      fix a: [int]int | fitsV(V0, n, a) {
        use prodR_ext(G1, G0, D1, DN, b, a);
        use prodR_gap(G1, D1, b, bs, a);
        use prodR_yes(G1, D1, bs, a, FS);
        let pn = prodR(G0, DN, b, a); let fs = fval(FS, a);
        assert fs * pn == pn * fs;
      } show prodR(G1, D1, b1, a) == addR(G0, DE, WK, b, a) * prodR(G0, DN, b, a);
      fix id: int | true {
        let isU = exists i: int {V0[i]} :: 0 <= i < n && V0[i].nodeType == 2 && V0[i].id == id;
        if occ(G1, D1, id) {
          obtain k: int :: D1[k] && hasV(G1[k], id);
          if k == bs {
            assert hasV(FT, id) && !isU;
            obtain q: int :: 0 <= q < FT.n && FT.v[q].id == id;
            assert occ(G0, D0, id);
          } else { assert DN[k] && D0[k] && G1[k] == G0[k]; assert !isU by { if isU { obtain i: int :: 0 <= i < n && V0[i].nodeType == 2 && V0[i].id == id; assert hasU(G0[k], V0, n, false, 0); } } }
        }
        if occ(G0, D0, id) && !isU {
          obtain k: int :: D0[k] && hasV(G0[k], id);
          if E[k] {
            assert DE[k];
            assert hasV(FT, id) && hasV(FS, id) && D1[bs];
          } else { assert D1[k] && G1[k] == G0[k]; }
        }
      } show occ(G1, D1, id) <==> occ(G0, D0, id) && !(exists i: int {V0[i]} :: 0 <= i < n && V0[i].nodeType == 2 && V0[i].id == id);
      fix k: int, q: int | D1[k] && 0 <= q < G1[k].n {
        if k == bs { assert FS.v[q] == seq(vals(s.factors)[bs].variables)[q]; } else { assert D0[k] && G1[k] == G0[k]; assert G0[k].v[q] == G1[k].v[q]; }
      } show 0 <= G1[k].v[q].index < nV(s) && V(s)[G1[k].v[q].index].id == G1[k].v[q].id && V(s)[G1[k].v[q].index].outcomes == G1[k].v[q].outcomes;
      assert inV(G1, D1, V(s), nV(s));
      fix w: [int]ve.Variable | consD(G0, D0, w) {
        fix k: int, q: int | D1[k] && 0 <= q < G1[k].n {
          if k == bs { } else { assert D0[k] && G1[k] == G0[k]; assert G0[k].v[q] == G1[k].v[q]; }
        } show G1[k].v[q] == w[G1[k].v[q].id];
      } show consD(G1, D1, w);
      fix k: int | D1[k] { if k != bs { assert D0[k] && wfD(m0[k]); } } show 0 <= k < b1 && vals(s.factors)[k] != nil && wfD(vals(s.factors)[k]) && ref(vals(s.factors)[k].variables) != ref(s.variables.variables);
      fix a: [int]int | fitsV(V(s), nV(s), a) { assert fitsV(V0, n, a); } show joint(s, a) == old(addR(G(s), and2(D(s), utilSet(G(s), V(s), nV(s))), weightsOf(G(s), V(s), nV(s), seq(s.weights), s.weights != nil), cnt0(s), a)
                       * prodR(G(s), minus(D(s), utilSet(G(s), V(s), nV(s))), cnt0(s), a));
      assert forall id: int {occ(G(s), D(s), id)} {occ(G0, D0, id)} :: occ(G(s), D(s), id) <==> occ(G0, D0, id) && !(exists i: int {V(s)[i]} :: 0 <= i < nV(s) && V(s)[i].nodeType == 2 && V(s)[i].id == id);
    }
  }
