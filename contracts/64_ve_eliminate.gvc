// ve/ve.go: eliminateHidden and eliminateEvidence.

// joint after summing out the first m variables of H (the last of them up to outcome c)
define sumH(G: [int]Fac, D: [int]bool, b: int, H: [int]ve.Variable, m: int, c: int, a: [int]int): real decreases m, c =
  m <= 0 ? prodR(G, D, b, a) : (c <= 0 ? 0.0 : sumH(G, D, b, H, m, c - 1, a) + sumH(G, D, b, H, m - 1, H[m - 2].outcomes, a[H[m - 1].id := c - 1]));
define inIds(H: [int]ve.Variable, m: int, id: int): bool decreases 0 = exists q: int {H[q]} :: 0 <= q < m && H[q].id == id;
define inEv(E: [int]ve.Evidence, m: int, id: int): bool decreases 0 = exists q: int {E[q]} :: 0 <= q < m && E[q].Variable.id == id;
// variables to sum out: chance variables that are left, except parents of decisions, evidence and query
define hidV(V: [int]ve.Variable, el: [int]bool, PP: [int]bool, E: [int]ve.Evidence, ne: int, Q: [int]ve.Variable, nq: int, i: int): bool decreases 0 =
  V[i].nodeType == 0 && !el[i] && !PP[i] && !inEv(E, ne, V[i].id) && !inIds(Q, nq, V[i].id);
// H lists exactly these, once each
define hidList(V: [int]ve.Variable, n: int, el: [int]bool, PP: [int]bool, E: [int]ve.Evidence, ne: int, Q: [int]ve.Variable, nq: int, H: [int]ve.Variable, m: int): bool decreases 0 =
  0 <= m && distinct(H, m)
  && (forall q: int {H[q]} :: 0 <= q < m ==> 0 <= H[q].index < n && V[H[q].index] == H[q] && hidV(V, el, PP, E, ne, Q, nq, H[q].index))
  && (forall i: int {V[i]} :: 0 <= i < n && hidV(V, el, PP, E, ne, Q, nq, i) ==> inIds(H, m, V[i].id));
macro parentsOf(L, DD, V, n, single, PP) = (forall i: int {PP[i]} :: 0 <= i < n && PP[i] ==> isPar(L, DD, V, n, i))
  && (!single ==> (forall i: int {PP[i]} :: 0 <= i < n ==> (PP[i] <==> isPar(L, DD, V, n, i))))
  && (single && (exists j: int {V[j]} :: 0 <= j < n && V[j].nodeType == 1) ==> (exists j: int {V[j]} :: 0 <= j < n && V[j].nodeType == 1 && sinkD(L, DD, V, n, j)
     && (forall i: int {PP[i]} :: 0 <= i < n ==> (PP[i] <==> parOf(L, DD, V[j], i)))));

lemma sumH_step(G: [int]Fac, D: [int]bool, b: int, H: [int]ve.Variable, m: int, G1: [int]Fac, D1: [int]bool, b1: int, V: [int]ve.Variable, n: int, a: [int]int, c: int)
  requires m >= 0 && distinct(V, n) && 0 <= H[m].index < n && V[H[m].index] == H[m] && c <= H[m].outcomes && fitsV(V, n, a);
  requires forall a2: [int]int {fitsV(V, n, a2)} :: fitsV(V, n, a2) ==> prodR(G1, D1, b1, a2) == sumH(G, D, b, H, m, H[m - 1].outcomes, a2);
  ensures sumJ(G1, D1, b1, a, H[m].id, c) == sumH(G, D, b, H, m + 1, c, a);
  decreases c;
{
  if c > 0 {
    use sumH_step(G, D, b, H, m, G1, D1, b1, V, n, a, c - 1);
    let a3 = a[H[m].id := c - 1];
    fix i: int | 0 <= i < n { if V[i].id == H[m].id { assert i == H[m].index; } } show 0 <= a3[V[i].id] < V[i].outcomes;
    assert fitsV(V, n, a3);
  }
}

func ve.VE.eliminateHidden(s, evidence, query, singleDecision) returns ()
  property C01 C03 C04;
  requires okVE(s) && agree(s) && okDeps(s);
  requires @occ forall i: int {V(s)[i]} :: 0 <= i < nV(s) && V(s)[i].nodeType == 0 && !seq(s.eliminated)[i] && !inEv(seq(evidence), len(evidence), V(s)[i].id) ==> occ(G(s), D(s), V(s)[i].id);
  modifies *s.variables, s.factors, s.eliminated;
  ensures @ok okVE(s);
  ensures @alloc allocF(s);
  ensures @keep keepVars(s);
  ensures @agree keepAgree(s);
  ensures @result exists PP: [int]bool, H: [int]ve.Variable, m: int {old(hidList(V(s), nV(s), seq(s.eliminated), PP, seq(evidence), len(evidence), seq(query), len(query), H, m))} ::
    parentsOf(old(dl(s.dependencies)), old(dom(s.dependencies)), old(V(s)), nV(s), singleDecision, PP)
    && old(hidList(V(s), nV(s), seq(s.eliminated), PP, seq(evidence), len(evidence), seq(query), len(query), H, m))
    && (forall a: [int]int {fitsV(V(s), nV(s), a)} :: fitsV(V(s), nV(s), a) ==> joint(s, a) == old(sumH(G(s), D(s), cnt0(s), H, m, H[m - 1].outcomes, a)))
    && (forall id: int {occ(G(s), D(s), id)} {old(occ(G(s), D(s), id))} :: occ(G(s), D(s), id) <==> old(occ(G(s), D(s), id)) && !inIds(H, m, id))
    && (forall i: int {seq(s.eliminated)[i]} :: 0 <= i < nV(s) ==> (seq(s.eliminated)[i] <==> old(seq(s.eliminated)[i]) || inIds(H, m, old(V(s))[i].id)));
  entry {
    let G0 = G(s); let D0 = D(s); let b = cnt0(s); let m0 = vals(s.factors); let V0 = V(s); let n = nV(s); let el0 = seq(s.eliminated);
    let E = seq(evidence); let ne = len(evidence); let Q = seq(query); let nq = len(query);
    let L = dl(s.dependencies); let DD = dom(s.dependencies);
    obtain vf: [int]ve.Variable :: consD(G0, D0, vf);
  }
  aftercall getDecisionParents { let PP = seq($r); }
  loop 0 {
    modifies hidden;
    invariant @in forall i: int {V0[i]} :: 0 <= i < $k ==> (dom(hidden)[V0[i].id] <==> V0[i].nodeType == 0 && !el0[i] && !PP[i]);
    invariant @only forall id: int {dom(hidden)[id]} :: dom(hidden)[id] ==> 0 <= vals(hidden)[id].index < $k && V0[vals(hidden)[id].index] == vals(hidden)[id] && vals(hidden)[id].id == id;
    after { let hm0 = vals(hidden); }
  }
  loop 1 {
    modifies hidden;
    invariant @vals vals(hidden) == hm0;
    invariant @in forall i: int {V0[i]} :: 0 <= i < n ==> (dom(hidden)[V0[i].id] <==> V0[i].nodeType == 0 && !el0[i] && !PP[i] && !inEv(E, $k, V0[i].id));
    invariant @only forall id: int {dom(hidden)[id]} :: dom(hidden)[id] ==> 0 <= hm0[id].index < n && V0[hm0[id].index] == hm0[id] && hm0[id].id == id;
    begin { let k1 = $k; let h1 = dom(hidden); }
    end {
      fix i: int | 0 <= i < n {
        if inEv(E, k1 + 1, V0[i].id) { obtain q: int :: 0 <= q < k1 + 1 && E[q].Variable.id == V0[i].id; if q < k1 { assert inEv(E, k1, V0[i].id); } else { assert q == k1; } }
        if inEv(E, k1, V0[i].id) { obtain q: int :: 0 <= q < k1 && E[q].Variable.id == V0[i].id; assert inEv(E, k1 + 1, V0[i].id); }
        if E[k1].Variable.id == V0[i].id { assert inEv(E, k1 + 1, V0[i].id); }
        assert inEv(E, k1 + 1, V0[i].id) <==> inEv(E, k1, V0[i].id) || E[k1].Variable.id == V0[i].id;
      } show dom(hidden)[V0[i].id] <==> V0[i].nodeType == 0 && !el0[i] && !PP[i] && !inEv(E, k1 + 1, V0[i].id);
    }
  }
  loop 2 {
    modifies hidden;
    invariant @vals vals(hidden) == hm0;
    invariant @in forall i: int {V0[i]} :: 0 <= i < n ==> (dom(hidden)[V0[i].id] <==> V0[i].nodeType == 0 && !el0[i] && !PP[i] && !inEv(E, ne, V0[i].id) && !inIds(Q, $k, V0[i].id));
    invariant @only forall id: int {dom(hidden)[id]} :: dom(hidden)[id] ==> 0 <= hm0[id].index < n && V0[hm0[id].index] == hm0[id] && hm0[id].id == id;
    begin { let k2 = $k; let h2 = dom(hidden); }
    end {
      fix i: int | 0 <= i < n {
        if inIds(Q, k2 + 1, V0[i].id) { obtain q: int :: 0 <= q < k2 + 1 && Q[q].id == V0[i].id; if q < k2 { assert inIds(Q, k2, V0[i].id); } else { assert q == k2; } }
        if inIds(Q, k2, V0[i].id) { obtain q: int :: 0 <= q < k2 && Q[q].id == V0[i].id; assert inIds(Q, k2 + 1, V0[i].id); }
        if Q[k2].id == V0[i].id { assert inIds(Q, k2 + 1, V0[i].id); }
        assert inIds(Q, k2 + 1, V0[i].id) <==> inIds(Q, k2, V0[i].id) || Q[k2].id == V0[i].id;
      } show dom(hidden)[V0[i].id] <==> V0[i].nodeType == 0 && !el0[i] && !PP[i] && !inEv(E, ne, V0[i].id) && !inIds(Q, k2 + 1, V0[i].id);
    }
    after { let hd = dom(hidden); }
  }
  loop 3 {
    modifies hiddenList, newVars;
    invariant @new fresh(newVars) && (ref(newVars) == pre(ref(newVars)) || ref(newVars) > pre(alloc())) && len(newVars) == 0;
    invariant @idx i == $k;
    invariant @in forall j: int {seq(hiddenList)[j]} :: 0 <= j < i ==> $seen[seq(hiddenList)[j].Variable.id] && seq(hiddenList)[j].Variable == hm0[seq(hiddenList)[j].Variable.id];
    invariant @all forall id: int {$seen[id]} :: $seen[id] ==> (exists j: int {seq(hiddenList)[j]} :: 0 <= j < i && seq(hiddenList)[j].Variable.id == id);
    invariant @once forall p: int, q: int {seq(hiddenList)[p], seq(hiddenList)[q]} :: 0 <= p < q < i ==> seq(hiddenList)[p].Variable.id != seq(hiddenList)[q].Variable.id;
    begin { let hl0 = seq(hiddenList); let i0 = i; let S0 = $seen; }
    end {
      let hl1 = seq(hiddenList);
      assert forall j: int {hl0[j]} {hl1[j]} :: 0 <= j < i0 ==> hl1[j] == hl0[j];
      assert hl1[i0].Variable == hm0[$key];
      fix id: int | $seen[id] {
        if S0[id] { obtain j: int :: 0 <= j < i0 && hl0[j].Variable.id == id; assert hl1[j].Variable.id == id; }
        else { assert hl1[i0].Variable.id == id; }
      } show exists j: int {hl1[j]} :: 0 <= j < i0 + 1 && hl1[j].Variable.id == id;
    }
    after {
      let hl = seq(hiddenList); let m = len(hiddenList);
      assert forall id: int {hd[id]} :: hd[id] ==> $seen[id];
      assert $k == m;
      fix k: int | D0[k] { } show G(s)[k] == G0[k];
    }
  }
  loop 4 {
    modifies newVars;
    invariant @new fresh(newVars) && (ref(newVars) == pre(ref(newVars)) || ref(newVars) > pre(alloc()));
  }
  loop 5 {
    modifies newVars;
    invariant @new fresh(newVars) && (ref(newVars) == pre(ref(newVars)) || ref(newVars) > pre(alloc()));
  }
  loop 6 {
    modifies *s.variables, s.factors, s.eliminated;
    invariant @ok okVE(s);
    invariant @alloc allocF(s);
    invariant @keep keepVars(s) && V(s) == V0;
    invariant @agree forall w: [int]ve.Variable {consD(G0, D0, w)} :: consD(G0, D0, w) ==> consD(G(s), D(s), w);
    invariant @joint forall a: [int]int {fitsV(V0, n, a)} :: fitsV(V0, n, a) ==> joint(s, a) == sumH(G0, D0, b, H, $k, H[$k - 1].outcomes, a);
    invariant @occ forall id: int {occ(G(s), D(s), id)} {occ(G0, D0, id)} :: occ(G(s), D(s), id) <==> occ(G0, D0, id) && !inIds(H, $k, id);
    invariant @elim forall i: int {seq(s.eliminated)[i]} :: 0 <= i < n ==> (seq(s.eliminated)[i] <==> el0[i] || inIds(H, $k, V0[i].id));
    before {
      let sl = seq(hiddenList);
      let H = lam q: int :: sl[q].Variable;
      assert V(s) == V0;
      assert D(s) == D0;
      fix j: int | 0 <= j < m { } show H[j] == hm0[H[j].id] && hd[H[j].id];
      fix j: int | 0 <= j < m { assert hd[H[j].id]; assert V0[hm0[H[j].id].index] == H[j]; assert V0[H[j].index] == H[j]; assert hd[V0[H[j].index].id]; } show 0 <= H[j].index < n && V0[H[j].index] == H[j] && hidV(V0, el0, PP, E, ne, Q, nq, H[j].index);
      fix i: int | 0 <= i < n && hidV(V0, el0, PP, E, ne, Q, nq, i) {
        assert hd[V0[i].id];
        obtain j: int :: 0 <= j < m && hl[j].Variable.id == V0[i].id;
        obtain q: int :: 0 <= q < m && sl[q] == hl[j];
        assert H[q].id == V0[i].id;
      } show inIds(H, m, V0[i].id);
      assert distinct(H, m);
      assert hidList(V0, n, el0, PP, E, ne, Q, nq, H, m);
      fix a: [int]int | true { use prodR_ext(G(s), G0, D(s), D0, b, a); } show joint(s, a) == sumH(G0, D0, b, H, 0, H[0 - 1].outcomes, a);
    }
    begin { let Gk = G(s); let Dk = D(s); let bk = cnt0(s); let kk = $k; }
    end {
      fix a: [int]int | fitsV(V0, n, a) { use sumH_step(G0, D0, b, H, kk, Gk, Dk, bk, V0, n, a, H[kk].outcomes); } show joint(s, a) == sumH(G0, D0, b, H, kk + 1, H[kk].outcomes, a);
    }
  }

// the assignment with the first k pieces of evidence entered
define updE(E: [int]ve.Evidence, k: int, a: [int]int): [int]int decreases k =
  k <= 0 ? a : updE(E, k - 1, a[E[k - 1].Variable.id := E[k - 1].Value]);
define okE(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, E: [int]ve.Evidence, m: int): bool decreases 0 =
  forall q: int {E[q]} :: 0 <= q < m ==> isx(G, D, E[q].Variable) && 0 <= E[q].Variable.index < n && V[E[q].Variable.index].id == E[q].Variable.id && V[E[q].Variable.index].outcomes == E[q].Variable.outcomes && 0 <= E[q].Value < E[q].Variable.outcomes;
define notUE(V: [int]ve.Variable, n: int, E: [int]ve.Evidence, m: int): bool decreases 0 = forall q: int {E[q]} :: 0 <= q < m ==> notU(V, n, E[q].Variable.id);

func ve.VE.eliminateEvidence(s, evidence) returns ()
  property C01 C03;
  requires okVE(s) && agree(s) && okE(G(s), D(s), V(s), nV(s), seq(evidence), len(evidence));
  modifies *s.variables, s.factors;
  ensures @ok okVE(s);
  ensures @keep keepVars(s);
  ensures @agree keepAgree(s);
  ensures @joint forall a: [int]int {fitsV(V(s), nV(s), a)} :: fitsV(V(s), nV(s), a) ==> joint(s, a) == old(joint(s, updE(seq(evidence), len(evidence), a)));
  ensures @occ forall id: int {occ(G(s), D(s), id)} {old(occ(G(s), D(s), id))} :: occ(G(s), D(s), id) <==> old(occ(G(s), D(s), id)) && !inEv(seq(evidence), len(evidence), id);
  ensures @fits forall a: [int]int {fitsV(V(s), nV(s), a)} :: fitsV(V(s), nV(s), a) ==> fitsV(V(s), nV(s), updE(seq(evidence), len(evidence), a));
  ensures @prodN notUE(V(s), nV(s), seq(evidence), len(evidence)) ==> (forall skip: bool, ex: int, a: [int]int {prodN(G(s), D(s), V(s), nV(s), skip, ex, cnt0(s), a)} :: fitsV(V(s), nV(s), a) ==>
    prodN(G(s), D(s), V(s), nV(s), skip, ex, cnt0(s), a) == old(prodN(G(s), D(s), V(s), nV(s), skip, ex, cnt0(s), updE(seq(evidence), len(evidence), a))));
  ensures @addU notUE(V(s), nV(s), seq(evidence), len(evidence)) ==> (forall W: [int]real, hw: bool, a: [int]int {addU(G(s), D(s), V(s), nV(s), W, hw, cnt0(s), a)} :: fitsV(V(s), nV(s), a) ==>
    addU(G(s), D(s), V(s), nV(s), W, hw, cnt0(s), a) == old(addU(G(s), D(s), V(s), nV(s), W, hw, cnt0(s), updE(seq(evidence), len(evidence), a))));
  ensures @occN notUE(V(s), nV(s), seq(evidence), len(evidence)) ==> (forall skip: bool, ex: int, id: int {occN(G(s), D(s), V(s), nV(s), skip, ex, id)} {old(occN(G(s), D(s), V(s), nV(s), skip, ex, id))} ::
    (occN(G(s), D(s), V(s), nV(s), skip, ex, id) <==> old(occN(G(s), D(s), V(s), nV(s), skip, ex, id)) && !inEv(seq(evidence), len(evidence), id)));
  entry {
    let G0 = G(s); let D0 = D(s); let b = cnt0(s); let V0 = V(s); let n = nV(s); let E = seq(evidence); let ne = len(evidence);
    let NU = notUE(V0, n, E, ne);
    obtain vf: [int]ve.Variable :: consD(G0, D0, vf);
  }
  loop 0 {
    modifies *s.variables, s.factors;
    invariant @ok okVE(s);
    invariant @keep keepVars(s) && V(s) == V0 && seq(evidence) == E;
    invariant @agree forall w: [int]ve.Variable {consD(G0, D0, w)} :: consD(G0, D0, w) ==> consD(G(s), D(s), w);
    invariant @joint forall a: [int]int {fitsV(V0, n, a)} :: fitsV(V0, n, a) ==> joint(s, a) == prodR(G0, D0, b, updE(E, $k, a));
    invariant @fits forall a: [int]int {fitsV(V0, n, a)} :: fitsV(V0, n, a) ==> fitsV(V0, n, updE(E, $k, a));
    invariant @occ forall id: int {occ(G(s), D(s), id)} {occ(G0, D0, id)} :: occ(G(s), D(s), id) <==> occ(G0, D0, id) && !inEv(E, $k, id);
    invariant @prodN NU ==> (forall skip: bool, ex: int, a: [int]int {prodN(G(s), D(s), V0, n, skip, ex, cnt0(s), a)} :: fitsV(V0, n, a) ==> prodN(G(s), D(s), V0, n, skip, ex, cnt0(s), a) == prodN(G0, D0, V0, n, skip, ex, b, updE(E, $k, a)));
    invariant @addU NU ==> (forall W: [int]real, hw: bool, a: [int]int {addU(G(s), D(s), V0, n, W, hw, cnt0(s), a)} :: fitsV(V0, n, a) ==> addU(G(s), D(s), V0, n, W, hw, cnt0(s), a) == addU(G0, D0, V0, n, W, hw, b, updE(E, $k, a)));
    invariant @occN NU ==> (forall skip: bool, ex: int, id: int {occN(G(s), D(s), V0, n, skip, ex, id)} {occN(G0, D0, V0, n, skip, ex, id)} :: occN(G(s), D(s), V0, n, skip, ex, id) <==> occN(G0, D0, V0, n, skip, ex, id) && !inEv(E, $k, id));
    begin {
      if NU { assert notU(V0, n, E[$k].Variable.id); }
      let kk = $k; let x = E[$k].Variable; let vx = vf[x.id := x]; let Gk = G(s); let Dk = D(s); let bk = cnt0(s);
      fix k: int, q: int | D0[k] && 0 <= q < G0[k].n { } show G0[k].v[q] == vx[G0[k].v[q].id];
      assert consD(G0, D0, vx);
      assert consD(G(s), D(s), vx);
      assert isx(G(s), D(s), x);
    }
    end {
      fix a: [int]int | fitsV(V0, n, a) {
        let a3 = a[x.id := E[kk].Value];
        fix i: int | 0 <= i < n { if V0[i].id == x.id { assert V0[x.index].id == x.id; assert i == x.index; } } show 0 <= a3[V0[i].id] < V0[i].outcomes;
        assert fitsV(V0, n, a3);
        assert updE(E, kk + 1, a) == updE(E, kk, a3);
        assert joint(s, a) == prodR(Gk, Dk, bk, a3);
      } show fitsV(V0, n, a[x.id := E[kk].Value]) && updE(E, kk + 1, a) == updE(E, kk, a[x.id := E[kk].Value]) && joint(s, a) == prodR(G0, D0, b, updE(E, kk + 1, a)) && fitsV(V0, n, updE(E, kk + 1, a));
      if NU {
        fix skip: bool, ex: int, a: [int]int | fitsV(V0, n, a) {
          assert prodN(G(s), D(s), V0, n, skip, ex, cnt0(s), a) == prodN(Gk, Dk, V0, n, skip, ex, bk, a[x.id := E[kk].Value]);
        } show prodN(G(s), D(s), V0, n, skip, ex, cnt0(s), a) == prodN(G0, D0, V0, n, skip, ex, b, updE(E, kk + 1, a));
        fix W: [int]real, hw: bool, a: [int]int | fitsV(V0, n, a) {
          assert addU(G(s), D(s), V0, n, W, hw, cnt0(s), a) == addU(Gk, Dk, V0, n, W, hw, bk, a[x.id := E[kk].Value]);
        } show addU(G(s), D(s), V0, n, W, hw, cnt0(s), a) == addU(G0, D0, V0, n, W, hw, b, updE(E, kk + 1, a));
      }
      fix id: int | true {
        if inEv(E, kk + 1, id) { obtain q: int :: 0 <= q < kk + 1 && E[q].Variable.id == id; if q < kk { assert inEv(E, kk, id); } else { assert q == kk; } }
        if inEv(E, kk, id) { obtain q: int :: 0 <= q < kk && E[q].Variable.id == id; assert inEv(E, kk + 1, id); }
        if id == x.id { assert E[kk].Variable.id == id; assert inEv(E, kk + 1, id); }
      } show inEv(E, kk + 1, id) <==> inEv(E, kk, id) || id == x.id;
    }
  }
