// ve/ve.go: the steps of variable elimination.

macro G(s) = gs(s.factors);
macro D(s) = dom(s.factors);
macro cnt0(s) = s.variables.factorCounter;
macro V(s) = seq(s.variables.variables);
macro nV(s) = len(s.variables.variables);
// the value the solver's factors give an assignment
macro joint(s, a) = prodR(G(s), D(s), cnt0(s), a);
macro okVars(s) = s.variables != nil && distinct(V(s), nV(s)) && (forall i: int {V(s)[i]} :: 0 <= i < nV(s) ==> V(s)[i].index == i && 1 <= V(s)[i].outcomes);
macro okFacs(s) = (forall k: int {D(s)[k]} :: D(s)[k] ==> 0 <= k < cnt0(s) && vals(s.factors)[k] != nil && wfD(vals(s.factors)[k]) && ref(vals(s.factors)[k].variables) != ref(s.variables.variables)) && inV(G(s), D(s), V(s), nV(s));
macro okVE(s) = s != nil && s.factors != nil && okVars(s) && okFacs(s) && len(s.eliminated) == nV(s);
macro allocF(s) = forall k: int {D(s)[k]} :: D(s)[k] ==> allocated(vals(s.factors)[k]);
macro agree(s) = exists vf: [int]ve.Variable {consD(G(s), D(s), vf)} :: consD(G(s), D(s), vf);
macro keepVars(s) = s.variables == old(s.variables) && s.variables.variables == old(s.variables.variables) && s.eliminated == old(s.eliminated) && s.factors == old(s.factors) && s.dependencies == old(s.dependencies) && s.weights == old(s.weights) && cnt0(s) >= old(cnt0(s));
macro keepAgree(s) = forall vf: [int]ve.Variable {old(consD(G(s), D(s), vf))} :: old(consD(G(s), D(s), vf)) ==> consD(G(s), D(s), vf);

func ve.VE.removeHidden(s, x) returns ()
  property C01 C03;
  requires okVE(s) && agree(s) && 0 <= x.index < nV(s) && V(s)[x.index].id == x.id && V(s)[x.index].outcomes == x.outcomes && occ(G(s), D(s), x.id);
  modifies *s.variables, s.factors, s.eliminated;
  ensures @ok okVE(s);
  ensures @alloc allocF(s);
  ensures @keep keepVars(s);
  ensures @agree keepAgree(s);
  ensures @joint forall a: [int]int {fitsV(V(s), nV(s), a)} :: fitsV(V(s), nV(s), a) ==> joint(s, a) == old(sumJ(G(s), D(s), cnt0(s), a, x.id, x.outcomes));
  ensures @occ forall id: int {occ(G(s), D(s), id)} {old(occ(G(s), D(s), id))} :: id != x.id ==> (occ(G(s), D(s), id) <==> old(occ(G(s), D(s), id)));
  ensures @gone !occ(G(s), D(s), x.id);
  ensures @elim forall i: int {seq(s.eliminated)[i]} :: 0 <= i < nV(s) ==> (seq(s.eliminated)[i] <==> i == x.index || old(seq(s.eliminated)[i]));
  entry {
    let G0 = G(s); let D0 = D(s); let b = cnt0(s); let m0 = vals(s.factors);
    let E = lam k: int :: hasV(G0[k], x.id);
    let DN = minus(D0, E);
    let DE = and2(D0, E);
    obtain vf: [int]ve.Variable :: consD(G0, D0, vf);
  }
  loop 0 {
    modifies indices, factors;
    invariant fresh(indices) && fresh(factors) && (ref(indices) == pre(ref(indices)) || ref(indices) > pre(alloc())) && (ref(factors) == pre(ref(factors)) || ref(factors) > pre(alloc()));
    invariant @len len(indices) == len(factors);
    invariant @in forall j: int {seq(indices)[j]} {seq(factors)[j]} :: 0 <= j < len(indices) ==> $seen[seq(indices)[j]] && E[seq(indices)[j]] && seq(factors)[j] == m0[seq(indices)[j]];
    invariant @all forall k: int {$seen[k]} :: $seen[k] && E[k] ==> (exists j: int {seq(indices)[j]} :: 0 <= j < len(indices) && seq(indices)[j] == k);
    invariant @prod forall a: [int]int {prodA(facs(factors), len(factors), a)} :: prodA(facs(factors), len(factors), a) == prodR(G0, and2($seen, E), b, a);
    before { use forall a: [int]int {prodA(facs(factors), 0, a)} :: prodR_none(G0, and2($seen, E), b, a); }
    begin { let F0 = facs(factors); let n0 = len(factors); let S0 = $seen; let i0 = seq(indices); }
    end {
      let F1 = facs(factors);
      assert forall j: int {F0[j]} {F1[j]} :: 0 <= j < n0 ==> F0[j] == F1[j];
      assert forall j: int {i0[j]} {seq(indices)[j]} :: 0 <= j < n0 ==> i0[j] == seq(indices)[j];
      fix k: int | $seen[k] && E[k] && k != $key { assert S0[k]; obtain j: int :: 0 <= j < n0 && i0[j] == k; assert seq(indices)[j] == k; } show exists j: int {seq(indices)[j]} :: 0 <= j < len(indices) && seq(indices)[j] == k;
      if E[$key] {
        assert seq(indices)[n0] == $key;
        assert len(factors) == n0 + 1 && F1[n0] == G0[$key];
        fix a: [int]int | true {
          use prodA_ext(F0, F1, n0, a);
          assert prodA(F0, n0, a) == prodR(G0, and2(S0, E), b, a);
          use prodR_add(G0, and2(S0, E), and2($seen, E), b, $key, a);
          assert prodA(F1, n0 + 1, a) == prodA(F1, n0, a) * fval(F1[n0], a);
        } show prodA(F1, n0 + 1, a) == prodR(G0, and2($seen, E), b, a);
      } else {
        assert len(factors) == n0;
        fix a: [int]int | true {
          use prodA_ext(F0, F1, n0, a);
          assert prodA(F0, n0, a) == prodR(G0, and2(S0, E), b, a);
          use prodR_ext(G0, G0, and2(S0, E), and2($seen, E), b, a);
        } show prodA(F1, n0, a) == prodR(G0, and2($seen, E), b, a);
      }
    }
    after {
      let F = facs(factors);
      let M = len(factors);
      let ix = seq(indices);
      assert forall j: int {F[j]} {ix[j]} :: 0 <= j < M ==> D0[ix[j]] && F[j] == G0[ix[j]];
      assert forall k: int {DE[k]} :: DE[k] ==> (exists j: int {ix[j]} :: 0 <= j < M && ix[j] == k);
      fix a: [int]int | true {
        use prodR_ext(G0, G0, and2($seen, E), DE, b, a);
      } show prodA(F, M, a) == prodR(G0, DE, b, a);
      assert consistent(F, M, vf) by {
        fix j: int, q: int | 0 <= j < M && 0 <= q < F[j].n { assert D0[ix[j]] && G0[ix[j]].v[q] == vf[G0[ix[j]].v[q].id]; } show F[j].v[q] == vf[F[j].v[q].id];
      }
    }
  }
  aftercall Product {
    let FP = Fac(len($r.variables), seq($r.variables), seq($r.data));
    fix a: [int]int | fitsV(V(s), nV(s), a) {
      fix j: int, q: int | 0 <= j < M && 0 <= q < F[j].n {
        assert D0[ix[j]] && G0[ix[j]].v[q] == F[j].v[q];
        assert 0 <= G0[ix[j]].v[q].index < nV(s) && V(s)[G0[ix[j]].v[q].index].id == G0[ix[j]].v[q].id;
      } show 0 <= a[F[j].v[q].id] < F[j].v[q].outcomes;
      assert fitsAll(F, M, a);
    } show fval(FP, a) == prodR(G0, DE, b, a);
    fix q: int | 0 <= q < FP.n {
      obtain j: int, k: int :: 0 <= j < M && 0 <= k < F[j].n && FP.v[q] == F[j].v[k];
      assert D0[ix[j]] && G0[ix[j]].v[k] == F[j].v[k];
    } show 0 <= FP.v[q].index < nV(s) && V(s)[FP.v[q].index].id == FP.v[q].id && V(s)[FP.v[q].index].outcomes == FP.v[q].outcomes;
    fix w: [int]ve.Variable, q: int | consD(G0, D0, w) && 0 <= q < FP.n {
      obtain j: int, k: int :: 0 <= j < M && 0 <= k < F[j].n && FP.v[q] == F[j].v[k];
      assert D0[ix[j]] && G0[ix[j]].v[k] == F[j].v[k];
    } show FP.v[q] == w[FP.v[q].id];
    fix k: int, q: int | DE[k] && 0 <= q < G0[k].n {
      obtain j: int :: 0 <= j < M && ix[j] == k;
      assert F[j] == G0[k];
      obtain q2: int :: 0 <= q2 < FP.n && FP.v[q2] == F[j].v[q];
    } show hasV(FP, G0[k].v[q].id);
  }
  aftercall SumOut {
    let FS = Fac(len($r.variables), seq($r.variables), seq($r.data));
    obtain p: int :: 0 <= p < FP.n && FP.v[p].id == x.id && FS.n == FP.n - 1 && without(FP.v, FS.v, FP.n, p);
    assert forall q: int {FS.v[q]} :: 0 <= q < FS.n ==> FS.v[q] == FP.v[q < p ? q : q + 1];
    fix id: int | true {
      if id != x.id && hasV(FP, id) {
        obtain q: int :: 0 <= q < FP.n && FP.v[q].id == id;
        assert q != p && FS.v[q < p ? q : q - 1] == FP.v[q];
      }
      if hasV(FS, id) {
        obtain q: int :: 0 <= q < FS.n && FS.v[q].id == id;
        assert FS.v[q] == FP.v[q < p ? q : q + 1];
      }
    } show hasV(FS, id) <==> id != x.id && hasV(FP, id);
    fix a: [int]int | fitsV(V(s), nV(s), a) {
      fix j: int | 0 <= j < FP.n { assert V(s)[FP.v[j].index].id == FP.v[j].id; } show 0 <= a[FP.v[j].id] < FP.v[j].outcomes;
      fix c: int | 0 <= c < x.outcomes {
        fix i: int | 0 <= i < nV(s) { } show 0 <= a[x.id := c][V(s)[i].id] < V(s)[i].outcomes;
        assert fitsV(V(s), nV(s), a[x.id := c]);
      } show fval(FP, a[x.id := c]) == prodR(G0, DE, b, a[x.id := c]);
      use sum_out(G0, D0, E, DE, DN, b, a, x.id, FP, x.outcomes);
      assert fval(FS, a) == sumA(FP.d, FP.v, FP.n, a, x.id, x.outcomes);
    } show fval(FS, a) * prodR(G0, DN, b, a) == sumJ(G0, D0, b, a, x.id, x.outcomes);
  }
  loop 1 {
    modifies s.factors;
    invariant @vals vals(s.factors) == m0;
    invariant @dom forall k: int {dom(s.factors)[k]} {D0[k]} :: dom(s.factors)[k] <==> D0[k] && !(exists j: int {ix[j]} :: 0 <= j < $k && ix[j] == k);
    after { assert forall k: int {dom(s.factors)[k]} {DN[k]} :: dom(s.factors)[k] <==> DN[k]; assert dom(s.factors) == DN; }
  }
  exit {
    let D1 = D(s); let G1 = G(s); let b1 = cnt0(s);
    assert D1 == DN[b + 1 := true];
    assert forall k: int {m0[k]} {G1[k]} :: 0 <= k < b ==> vals(s.factors)[k] == m0[k];
    assert forall k: int {G1[k]} {G0[k]} :: D0[k] ==> G1[k] == G0[k];
    assert b1 == b + 2 && D1[b + 1] && !D1[b] && G1[b + 1] == FS;
    assert forall k: int {D1[k]} {DN[k]} :: 0 <= k < b ==> (D1[k] <==> DN[k]) && (DN[k] ==> G1[k] == G0[k]);
    assert forall k: int {D1[k]} :: D1[k] ==> (0 <= k < b && DN[k] && G1[k] == G0[k]) || k == b + 1;
    fix a: [int]int | fitsV(V(s), nV(s), a) {
      use prodR_ext(G1, G0, D1, DN, b, a);
      use prodR_no(G1, D1, b, a);
      use prodR_yes(G1, D1, b + 1, a, FS);
      let pn = prodR(G0, DN, b, a); let fs = fval(FS, a);
      assert fs * pn == pn * fs;
    } show prodR(G1, D1, b1, a) == sumJ(G0, D0, b, a, x.id, x.outcomes);
    fix id: int | id != x.id {
      if occ(G1, D1, id) {
        obtain k: int :: D1[k] && hasV(G1[k], id);
        if k == b + 1 {
          assert hasV(FP, id);
          obtain q: int :: 0 <= q < FP.n && FP.v[q].id == id;
          obtain j: int, k2: int :: 0 <= j < M && 0 <= k2 < F[j].n && FP.v[q] == F[j].v[k2];
          assert D0[ix[j]] && hasV(G0[ix[j]], id);
        } else { assert D0[k] && hasV(G0[k], id); }
      }
      if occ(G0, D0, id) {
        obtain k: int :: D0[k] && hasV(G0[k], id);
        if E[k] {
          assert DE[k];
          obtain q: int :: 0 <= q < G0[k].n && G0[k].v[q].id == id;
          assert hasV(FP, id) && hasV(FS, id) && D1[b + 1];
        } else { assert D1[k] && G1[k] == G0[k]; }
      }
    } show occ(G1, D1, id) <==> occ(G0, D0, id);
    fix k: int, q: int | D1[k] && 0 <= q < G1[k].n {
      if k == b + 1 { assert FS.v[q] == FP.v[q < p ? q : q + 1]; } else { assert D0[k] && G1[k] == G0[k]; assert G0[k].v[q] == G1[k].v[q]; }
    } show 0 <= G1[k].v[q].index < nV(s) && V(s)[G1[k].v[q].index].id == G1[k].v[q].id && V(s)[G1[k].v[q].index].outcomes == G1[k].v[q].outcomes;
    assert inV(G1, D1, V(s), nV(s));
    fix w: [int]ve.Variable | consD(G0, D0, w) {
      fix k: int, q: int | D1[k] && 0 <= q < G1[k].n {
        if k == b + 1 { assert FS.v[q] == FP.v[q < p ? q : q + 1]; } else { assert D0[k] && G1[k] == G0[k]; assert G0[k].v[q] == G1[k].v[q]; }
      } show G1[k].v[q] == w[G1[k].v[q].id];
    } show consD(G1, D1, w);
    fix k: int | D1[k] {
      if k == b + 1 { assert !hasV(FS, x.id); } else { assert DN[k] && !E[k]; }
    } show !hasV(G1[k], x.id);
    assert !occ(G1, D1, x.id);
    fix k: int | D1[k] { if k != b + 1 { assert D0[k] && wfD(m0[k]); } } show 0 <= k < b1 && vals(s.factors)[k] != nil && wfD(vals(s.factors)[k]);
  }

// x is the variable the factors know under its id
define isx(G: [int]Fac, D: [int]bool, x: ve.Variable): bool decreases 0 =
  forall k: int, q: int {G[k].v[q]} :: D[k] && 0 <= q < G[k].n && G[k].v[q].id == x.id ==> G[k].v[q] == x;
macro isV(s, x) = 0 <= x.index < nV(s) && V(s)[x.index].id == x.id && V(s)[x.index].outcomes == x.outcomes;

func ve.VE.restrictEvidence(s, ev) returns ()
  property C01 C03;
  requires okVE(s) && agree(s) && isV(s, ev.Variable) && isx(G(s), D(s), ev.Variable) && 0 <= ev.Value < ev.Variable.outcomes;
  modifies *s.variables, s.factors;
  ensures @ok okVE(s);
  ensures @keep keepVars(s);
  ensures @agree keepAgree(s);
  ensures @joint forall a: [int]int {fitsV(V(s), nV(s), a)} :: fitsV(V(s), nV(s), a) ==> joint(s, a) == old(joint(s, a[ev.Variable.id := ev.Value]));
  ensures @occ forall id: int {occ(G(s), D(s), id)} {old(occ(G(s), D(s), id))} :: id != ev.Variable.id ==> (occ(G(s), D(s), id) <==> old(occ(G(s), D(s), id)));
  ensures @gone !occ(G(s), D(s), ev.Variable.id);
  ensures @prodN forall skip: bool, ex: int, a: [int]int {prodN(G(s), D(s), V(s), nV(s), skip, ex, cnt0(s), a)} :: fitsV(V(s), nV(s), a) && notU(V(s), nV(s), ev.Variable.id) ==>
    prodN(G(s), D(s), V(s), nV(s), skip, ex, cnt0(s), a) == old(prodN(G(s), D(s), V(s), nV(s), skip, ex, cnt0(s), a[ev.Variable.id := ev.Value]));
  ensures @addU forall W: [int]real, hw: bool, a: [int]int {addU(G(s), D(s), V(s), nV(s), W, hw, cnt0(s), a)} :: fitsV(V(s), nV(s), a) && notU(V(s), nV(s), ev.Variable.id) ==>
    addU(G(s), D(s), V(s), nV(s), W, hw, cnt0(s), a) == old(addU(G(s), D(s), V(s), nV(s), W, hw, cnt0(s), a[ev.Variable.id := ev.Value]));
  ensures @occN forall skip: bool, ex: int, id: int {occN(G(s), D(s), V(s), nV(s), skip, ex, id)} {old(occN(G(s), D(s), V(s), nV(s), skip, ex, id))} :: id != ev.Variable.id && notU(V(s), nV(s), ev.Variable.id) ==>
    (occN(G(s), D(s), V(s), nV(s), skip, ex, id) <==> old(occN(G(s), D(s), V(s), nV(s), skip, ex, id)));
  entry {
    let x = ev.Variable; let o = ev.Value;
    let G0 = G(s); let D0 = D(s); let b = cnt0(s); let m0 = vals(s.factors); let V0 = V(s);
    let E = lam k: int :: hasV(G0[k], x.id);
  }
  loop 0 {
    modifies indices;
    invariant fresh(indices) && (ref(indices) == pre(ref(indices)) || ref(indices) > pre(alloc()));
    invariant @in forall j: int {seq(indices)[j]} :: 0 <= j < len(indices) ==> $seen[seq(indices)[j]] && E[seq(indices)[j]];
    invariant @once forall i: int, j: int {seq(indices)[i], seq(indices)[j]} :: 0 <= i < j < len(indices) ==> seq(indices)[i] != seq(indices)[j];
    invariant @all forall k: int {$seen[k]} :: $seen[k] && E[k] ==> (exists j: int {seq(indices)[j]} :: 0 <= j < len(indices) && seq(indices)[j] == k);
    begin {
      if E[$key] { obtain q: int :: 0 <= q < G0[$key].n && G0[$key].v[q].id == x.id; assert G0[$key].v[q] == x; }
    }
    after {
      let ix = seq(indices); let M = len(indices);
      assert forall j: int {ix[j]} :: 0 <= j < M ==> D0[ix[j]] && E[ix[j]];
    }
  }
  loop 1 {
    modifies s.factors, *s.variables;
    invariant @counter s.variables.variables == old(s.variables.variables) && cnt0(s) == b + $k;
    invariant @keys forall k: int {D(s)[k]} :: D(s)[k] ==> 0 <= k < b + $k && (k < b ==> D0[k]);
    invariant @old forall k: int {vals(s.factors)[k]} {D0[k]} :: D0[k] ==> vals(s.factors)[k] == m0[k];
    invariant @todo forall j: int {ix[j]} :: $k <= j < M ==> D(s)[ix[j]];
    invariant @done forall k: int {D(s)[k]} :: D(s)[k] && hasV(G(s)[k], x.id) ==> (exists j: int {ix[j]} :: $k <= j < M && ix[j] == k);
    invariant @wf forall k: int {D(s)[k]} :: D(s)[k] ==> vals(s.factors)[k] != nil && allocated(vals(s.factors)[k]) && allocated(vals(s.factors)[k].data) && allocated(vals(s.factors)[k].variables) && wfD(vals(s.factors)[k]) && ref(vals(s.factors)[k].variables) != ref(s.variables.variables);
    invariant @inv inV(G(s), D(s), V0, nV(s));
    invariant @agree forall w: [int]ve.Variable {consD(G0, D0, w)} :: consD(G0, D0, w) ==> consD(G(s), D(s), w);
    invariant @occ forall id: int {occ(G(s), D(s), id)} {occ(G0, D0, id)} :: id != x.id ==> (occ(G(s), D(s), id) <==> occ(G0, D0, id));
    invariant @joint forall a: [int]int {fitsV(V0, nV(s), a)} :: fitsV(V0, nV(s), a) && a[x.id] == o ==> joint(s, a) == prodR(G0, D0, b, a);
    invariant @prodN forall skip: bool, ex: int, a: [int]int {prodN(G(s), D(s), V0, nV(s), skip, ex, cnt0(s), a)} :: fitsV(V0, nV(s), a) && a[x.id] == o && notU(V0, nV(s), x.id) ==>
      prodN(G(s), D(s), V0, nV(s), skip, ex, cnt0(s), a) == prodN(G0, D0, V0, nV(s), skip, ex, b, a);
    invariant @addU forall W: [int]real, hw: bool, a: [int]int {addU(G(s), D(s), V0, nV(s), W, hw, cnt0(s), a)} :: fitsV(V0, nV(s), a) && a[x.id] == o && notU(V0, nV(s), x.id) ==>
      addU(G(s), D(s), V0, nV(s), W, hw, cnt0(s), a) == addU(G0, D0, V0, nV(s), W, hw, b, a);
    invariant @occN forall skip: bool, ex: int, id: int {occN(G(s), D(s), V0, nV(s), skip, ex, id)} {occN(G0, D0, V0, nV(s), skip, ex, id)} :: id != x.id && notU(V0, nV(s), x.id) ==>
      (occN(G(s), D(s), V0, nV(s), skip, ex, id) <==> occN(G0, D0, V0, nV(s), skip, ex, id));
    begin { let Gk = G(s); let Dk = D(s); let bk = cnt0(s); let k0 = ix[$k]; let DM = Dk[k0 := false]; }
    end {
      let G1 = G(s); let D1 = D(s);
      let FO = Gk[k0]; let FR = G1[bk];
      assert D1 == DM[bk := true];
      assert forall k: int {G1[k]} {Gk[k]} :: DM[k] ==> G1[k] == Gk[k];
      obtain p: int :: 0 <= p < FO.n && FO.v[p].id == x.id && FR.n == FO.n - 1 && without(FO.v, FR.v, FO.n, p);
      fix id: int | true {
        if id != x.id && hasV(FO, id) {
          obtain q: int :: 0 <= q < FO.n && FO.v[q].id == id;
          assert q != p && FR.v[q < p ? q : q - 1] == FO.v[q];
        }
        if hasV(FR, id) {
          obtain q: int :: 0 <= q < FR.n && FR.v[q].id == id;
          assert FR.v[q] == FO.v[q < p ? q : q + 1];
        }
      } show hasV(FR, id) <==> id != x.id && hasV(FO, id);
      fix id: int | id != x.id {
        if occ(G1, D1, id) {
          obtain k: int :: D1[k] && hasV(G1[k], id);
          if k == bk { assert Dk[k0] && hasV(FO, id); } else { assert DM[k] && Dk[k] && hasV(Gk[k], id); }
        }
        if occ(Gk, Dk, id) {
          obtain k: int :: Dk[k] && hasV(Gk[k], id);
          if k == k0 { assert D1[bk] && hasV(G1[bk], id); } else { assert D1[k] && G1[k] == Gk[k]; }
        }
      } show occ(G1, D1, id) <==> occ(Gk, Dk, id);
      fix a: [int]int | fitsV(V0, nV(s), a) && a[x.id] == o {
        fix j: int | 0 <= j < FO.n { assert Gk[k0].v[j] == FO.v[j]; assert V0[FO.v[j].index].id == FO.v[j].id; } show 0 <= a[FO.v[j].id] < FO.v[j].outcomes;
        assert fval(FR, a) == fval(FO, a);
        use prodR_add(Gk, DM, Dk, bk, k0, a);
        use prodR_ext(G1, Gk, D1, DM, bk, a);
        use prodR_yes(G1, D1, bk, a, FR);
      } show fval(FR, a) == fval(FO, a) && prodR(G1, D1, bk + 1, a) == prodR(Gk, Dk, bk, a);
      assert sameV(FO, FR, x.id);
      if notU(V0, nV(s), x.id) {
        fix skip: bool, ex: int, a: [int]int | fitsV(V0, nV(s), a) && a[x.id] == o {
          use prodN_swap(Gk, Dk, G1, D1, V0, nV(s), skip, ex, bk, k0, a, x.id);
        } show prodN(G1, D1, V0, nV(s), skip, ex, bk + 1, a) == prodN(Gk, Dk, V0, nV(s), skip, ex, bk, a);
        fix W: [int]real, hw: bool, a: [int]int | fitsV(V0, nV(s), a) && a[x.id] == o {
          use addU_swap(Gk, Dk, G1, D1, V0, nV(s), W, hw, bk, k0, a, x.id);
        } show addU(G1, D1, V0, nV(s), W, hw, bk + 1, a) == addU(Gk, Dk, V0, nV(s), W, hw, bk, a);
        fix skip: bool, ex: int, id: int | id != x.id {
          use hasU_same(FO, FR, V0, nV(s), skip, ex, x.id);
          if occN(G1, D1, V0, nV(s), skip, ex, id) {
            obtain k: int :: D1[k] && !hasU(G1[k], V0, nV(s), skip, ex) && hasV(G1[k], id);
            if k == bk { assert Dk[k0] && hasV(FO, id) && !hasU(Gk[k0], V0, nV(s), skip, ex); } else { assert DM[k] && Dk[k] && hasV(Gk[k], id); }
          }
          if occN(Gk, Dk, V0, nV(s), skip, ex, id) {
            obtain k: int :: Dk[k] && !hasU(Gk[k], V0, nV(s), skip, ex) && hasV(Gk[k], id);
            if k == k0 { assert D1[bk] && hasV(G1[bk], id) && !hasU(G1[bk], V0, nV(s), skip, ex); } else { assert D1[k] && G1[k] == Gk[k]; }
          }
        } show occN(G1, D1, V0, nV(s), skip, ex, id) <==> occN(Gk, Dk, V0, nV(s), skip, ex, id);
      }
    }
    after {
      let G2 = G(s); let D2 = D(s); let b2 = cnt0(s);
      assert forall k: int {D2[k]} :: D2[k] ==> !hasV(G2[k], x.id);
      fix a: [int]int | fitsV(V0, nV(s), a) {
        fix i: int | 0 <= i < nV(s) { if V0[i].id == x.id { assert V0[x.index].id == x.id; assert i == x.index; } } show 0 <= a[x.id := o][V0[i].id] < V0[i].outcomes;
        assert fitsV(V0, nV(s), a[x.id := o]);
        use prodR_indep(G2, D2, b2, a, x.id, o);
        assert prodR(G2, D2, b2, a[x.id := o]) == prodR(G0, D0, b, a[x.id := o]);
      } show fitsV(V0, nV(s), a[x.id := o]) && prodR(G2, D2, b2, a) == prodR(G0, D0, b, a[x.id := o]);
      if notU(V0, nV(s), x.id) {
        fix skip: bool, ex: int, a: [int]int | fitsV(V0, nV(s), a) {
          use prodN_indep(G2, D2, V0, nV(s), skip, ex, b2, a, x.id, o);
          assert prodN(G2, D2, V0, nV(s), skip, ex, b2, a[x.id := o]) == prodN(G0, D0, V0, nV(s), skip, ex, b, a[x.id := o]);
        } show prodN(G2, D2, V0, nV(s), skip, ex, b2, a) == prodN(G0, D0, V0, nV(s), skip, ex, b, a[x.id := o]);
        fix W: [int]real, hw: bool, a: [int]int | fitsV(V0, nV(s), a) {
          use addU_indep(G2, D2, V0, nV(s), W, hw, b2, a, x.id, o);
          assert addU(G2, D2, V0, nV(s), W, hw, b2, a[x.id := o]) == addU(G0, D0, V0, nV(s), W, hw, b, a[x.id := o]);
        } show addU(G2, D2, V0, nV(s), W, hw, b2, a) == addU(G0, D0, V0, nV(s), W, hw, b, a[x.id := o]);
      }
    }
  }

func ve.VE.multiplyAll(s) returns (r)
  property C01 C03;
  requires okVE(s) && agree(s);
  modifies *s.variables, s.factors;
  ensures @keep keepVars(s);
  ensures @wf r != nil && fresh(r) && wfD(r);
  ensures @vars forall id: int {hasV(fac(r), id)} {old(occ(G(s), D(s), id))} :: hasV(fac(r), id) <==> old(occ(G(s), D(s), id));
  ensures @agree forall w: [int]ve.Variable, q: int {old(consD(G(s), D(s), w)), seq(r.variables)[q]} :: old(consD(G(s), D(s), w)) && 0 <= q < len(r.variables) ==> seq(r.variables)[q] == w[seq(r.variables)[q].id];
  ensures @inv forall q: int {seq(r.variables)[q]} :: 0 <= q < len(r.variables) ==> isV(s, seq(r.variables)[q]);
  ensures @value forall a: [int]int {fitsV(V(s), nV(s), a)} :: fitsV(V(s), nV(s), a) ==> fval(fac(r), a) == old(joint(s, a));
  entry {
    let G0 = G(s); let D0 = D(s); let b = cnt0(s); let m0 = vals(s.factors); let V0 = V(s);
    obtain vf: [int]ve.Variable :: consD(G0, D0, vf);
  }
  loop 0 {
    modifies factors;
    invariant fresh(factors) && (ref(factors) == pre(ref(factors)) || ref(factors) > pre(alloc()));
    invariant @in forall j: int {seq(factors)[j]} :: 0 <= j < len(factors) ==> (exists k: int {m0[k]} :: $seen[k] && seq(factors)[j] == m0[k]);
    invariant @all forall k: int {$seen[k]} :: $seen[k] ==> (exists j: int {seq(factors)[j]} :: 0 <= j < len(factors) && seq(factors)[j] == m0[k]);
    invariant @prod forall a: [int]int {prodA(facs(factors), len(factors), a)} :: prodA(facs(factors), len(factors), a) == prodR(G0, $seen, b, a);
    before { use forall a: [int]int {prodA(facs(factors), 0, a)} :: prodR_none(G0, $seen, b, a); }
    begin { let F0 = facs(factors); let n0 = len(factors); let S0 = $seen; }
    end {
      let F1 = facs(factors);
      assert forall j: int {F0[j]} {F1[j]} :: 0 <= j < n0 ==> F0[j] == F1[j];
      assert len(factors) == n0 + 1 && seq(factors)[n0] == m0[$key] && F1[n0] == G0[$key];
      fix a: [int]int | true {
        use prodA_ext(F0, F1, n0, a);
        assert prodA(F0, n0, a) == prodR(G0, S0, b, a);
        use prodR_add(G0, S0, $seen, b, $key, a);
        assert prodA(F1, n0 + 1, a) == prodA(F1, n0, a) * fval(F1[n0], a);
      } show prodA(F1, n0 + 1, a) == prodR(G0, $seen, b, a);
    }
    after {
      let F = facs(factors);
      let M = len(factors);
      let fp = seq(factors);
      fix j: int | 0 <= j < M { obtain k: int :: $seen[k] && fp[j] == m0[k]; assert D0[k] && F[j] == G0[k]; } show exists k: int {G0[k]} :: D0[k] && F[j] == G0[k];
      fix k: int | D0[k] { assert $seen[k]; obtain j: int :: 0 <= j < M && fp[j] == m0[k]; assert F[j] == G0[k]; } show exists j: int {F[j]} :: 0 <= j < M && F[j] == G0[k];
      fix a: [int]int | true {
        use prodR_ext(G0, G0, $seen, D0, b, a);
      } show prodA(F, M, a) == prodR(G0, D0, b, a);
      assert consistent(F, M, vf) by {
        fix j: int, q: int | 0 <= j < M && 0 <= q < F[j].n { obtain k: int :: D0[k] && F[j] == G0[k]; assert G0[k].v[q] == vf[G0[k].v[q].id]; } show F[j].v[q] == vf[F[j].v[q].id];
      }
    }
  }
  aftercall Product {
    let FP = Fac(len($r.variables), seq($r.variables), seq($r.data));
    fix a: [int]int | fitsV(V(s), nV(s), a) {
      fix j: int, q: int | 0 <= j < M && 0 <= q < F[j].n {
        obtain k: int :: D0[k] && F[j] == G0[k];
        assert 0 <= G0[k].v[q].index < nV(s) && V(s)[G0[k].v[q].index].id == G0[k].v[q].id;
      } show 0 <= a[F[j].v[q].id] < F[j].v[q].outcomes;
      assert fitsAll(F, M, a);
    } show fval(FP, a) == prodR(G0, D0, b, a);
    fix q: int | 0 <= q < FP.n {
      obtain j: int, k: int :: 0 <= j < M && 0 <= k < F[j].n && FP.v[q] == F[j].v[k];
      obtain k2: int :: D0[k2] && F[j] == G0[k2];
      assert G0[k2].v[k] == FP.v[q];
      assert hasV(G0[k2], FP.v[q].id);
    } show isV(s, FP.v[q]) && occ(G0, D0, FP.v[q].id);
    fix w: [int]ve.Variable, q: int | consD(G0, D0, w) && 0 <= q < FP.n {
      obtain j: int, k: int :: 0 <= j < M && 0 <= k < F[j].n && FP.v[q] == F[j].v[k];
      obtain k2: int :: D0[k2] && F[j] == G0[k2];
      assert G0[k2].v[k] == FP.v[q];
    } show FP.v[q] == w[FP.v[q].id];
    fix id: int | true {
      if occ(G0, D0, id) {
        obtain k: int :: D0[k] && hasV(G0[k], id);
        obtain q: int :: 0 <= q < G0[k].n && G0[k].v[q].id == id;
        obtain j: int :: 0 <= j < M && F[j] == G0[k];
        assert F[j].v[q] == G0[k].v[q];
        obtain q2: int :: 0 <= q2 < FP.n && FP.v[q2] == F[j].v[q];
        assert hasV(FP, id);
      }
      if hasV(FP, id) { obtain q: int :: 0 <= q < FP.n && FP.v[q].id == id; }
    } show hasV(FP, id) <==> occ(G0, D0, id);
  }
  exit { assert fac(r) == FP; }

// the factor depends on a utility variable (other than the one with id ex, if skip)
define hasU(F: Fac, V: [int]ve.Variable, n: int, skip: bool, ex: int): bool decreases 0 =
  exists i: int {V[i]} :: 0 <= i < n && V[i].nodeType == 2 && !(skip && V[i].id == ex) && hasV(F, V[i].id);
macro utilsKnown(s) = forall i: int {V(s)[i]} :: 0 <= i < nV(s) && V(s)[i].nodeType == 2 ==> isx(G(s), D(s), V(s)[i]);
macro exid(e) = e != nil ? e.id : 0;

func ve.VE.removeUtilities(s, except) returns ()
  property C01 C03;
  requires okVE(s) && utilsKnown(s);
  modifies s.factors;
  ensures @vals vals(s.factors) == old(vals(s.factors));
  ensures @dom forall k: int {D(s)[k]} {old(D(s))[k]} :: D(s)[k] <==> old(D(s)[k] && !hasU(G(s)[k], V(s), nV(s), except != nil, exid(except)));
  entry {
    let G0 = G(s); let D0 = D(s); let V0 = V(s); let n = nV(s);
    let E = lam k: int :: hasU(G0[k], V0, n, except != nil, exid(except));
  }
  loop 0 {
    modifies utils;
    invariant fresh(utils) && (ref(utils) == pre(ref(utils)) || ref(utils) > pre(alloc()));
    invariant @in forall j: int {seq(utils)[j]} :: 0 <= j < len(utils) ==> (exists i: int {V0[i]} :: 0 <= i < $k && seq(utils)[j] == V0[i] && V0[i].nodeType == 2 && !(except != nil && V0[i].id == except.id));
    invariant @all forall i: int {V0[i]} :: 0 <= i < $k && V0[i].nodeType == 2 && !(except != nil && V0[i].id == except.id) ==> (exists j: int {seq(utils)[j]} :: 0 <= j < len(utils) && seq(utils)[j] == V0[i]);
    after { let U = seq(utils); let nu = len(utils); }
  }
  loop 1 {
    modifies indices;
    invariant fresh(indices) && (ref(indices) == pre(ref(indices)) || ref(indices) > pre(alloc()));
    invariant @in forall j: int {seq(indices)[j]} :: 0 <= j < len(indices) ==> $seen[seq(indices)[j]] && E[seq(indices)[j]];
    invariant @all forall k: int {$seen[k]} :: $seen[k] && E[k] ==> (exists j: int {seq(indices)[j]} :: 0 <= j < len(indices) && seq(indices)[j] == k);
    after { let ix = seq(indices); let M = len(indices); }
    begin { let ix0 = seq(indices); let M0 = len(indices); let S0 = $seen; }
    end {
      fix k: int | $seen[k] && E[k] && k != $key { assert S0[k]; obtain j: int :: 0 <= j < M0 && ix0[j] == k; assert seq(indices)[j] == k; } show exists j: int {seq(indices)[j]} :: 0 <= j < len(indices) && seq(indices)[j] == k;
      if $k2 < nu { assert seq(indices)[M0] == $key && M0 < len(indices); }
      if $k2 == nu && E[$key] {
        obtain i: int :: 0 <= i < n && V0[i].nodeType == 2 && !(except != nil && V0[i].id == exid(except)) && hasV(G0[$key], V0[i].id);
        obtain j: int :: 0 <= j < nu && U[j] == V0[i];
        assert !hasV(G0[$key], U[j].id);
        assert false;
      }
    }
  }
  loop 2 {
    modifies indices;
    invariant @none forall j: int {U[j]} :: 0 <= j < $k ==> !hasV(G0[$key1], U[j].id);
    invariant @same indices == pre(indices) && seq(indices) == pre(seq(indices));
  }
  loop 3 {
    modifies s.factors;
    invariant @vals vals(s.factors) == old(vals(s.factors));
    invariant @dom forall k: int {dom(s.factors)[k]} {D0[k]} :: dom(s.factors)[k] <==> D0[k] && !(exists j: int {ix[j]} :: 0 <= j < $k && ix[j] == k);
  }
