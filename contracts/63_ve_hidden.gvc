// ve/ve.go: decisions and the elimination of hidden variables.

datatype VL {n: int, v: [int]ve.Variable}
declare noVL(k: int): VL;
macro dl(deps) = lam d: ve.Variable :: dom(deps)[d] ? VL(len(vals(deps)[d]), seq(vals(deps)[d])) : noVL(0);
define inR(r: [int]ve.Variable, n: int, x: ve.Variable): bool decreases 0 = exists q: int {r[q]} :: 0 <= q < n && r[q] == x;
// the parents of a decision, among decisions, have a lower rank
define ranked(L: [ve.Variable]VL, DD: [ve.Variable]bool, rk: [int]int): bool decreases 0 =
  forall d: ve.Variable, q: int {L[d].v[q]} :: DD[d] && 0 <= q < L[d].n && L[d].v[q].nodeType == 1 ==> rk[L[d].v[q].id] < rk[d.id];
// every decision listed as a parent of a listed decision is in the list
define closedD(L: [ve.Variable]VL, DD: [ve.Variable]bool, dec: [int]ve.Variable, n: int): bool decreases 0 =
  forall j: int, d: ve.Variable, q: int {dec[j], L[d].v[q]} :: 0 <= j < n && DD[d] && d.id == dec[j].id && 0 <= q < L[d].n && L[d].v[q].nodeType == 1 ==> inR(dec, n, L[d].v[q]);
// the decision parents of x are among the first n of r
define parentsIn(L: [ve.Variable]VL, DD: [ve.Variable]bool, r: [int]ve.Variable, n: int, x: ve.Variable): bool decreases 0 =
  forall d: ve.Variable, i: int {L[d].v[i]} :: DD[d] && d.id == x.id && 0 <= i < L[d].n && L[d].v[i].nodeType == 1 ==> inR(r, n, L[d].v[i]);
// decision parents come first
define ordered(L: [ve.Variable]VL, DD: [ve.Variable]bool, r: [int]ve.Variable, n: int): bool decreases 0 =
  forall q: int {r[q]} :: 0 <= q < n ==> parentsIn(L, DD, r, q, r[q]);
// visited, but not yet listed, only above the rank of x
define stackD(dec: [int]ve.Variable, n: int, vis: [int]bool, r: [int]ve.Variable, m: int, rk: [int]int, id: int): bool decreases 0 =
  forall j: int {vis[j]} {dec[j]} :: 0 <= j < n && vis[j] && !inR(r, m, dec[j]) ==> rk[dec[j].id] > rk[id];
define onlyVis(dec: [int]ve.Variable, n: int, vis: [int]bool, r: [int]ve.Variable, m: int): bool decreases 0 =
  forall q: int {r[q]} :: 0 <= q < m ==> (exists j: int {dec[j]} :: 0 <= j < n && vis[j] && r[q] == dec[j]);

lemma inR_snoc(r: [int]ve.Variable, r2: [int]ve.Variable, n: int, m: int, x: ve.Variable)
  requires 0 <= n <= m && (forall q: int {r2[q]} {r[q]} :: 0 <= q < n ==> r2[q] == r[q]);
  ensures inR(r, n, x) ==> inR(r2, m, x);
  ensures m == n + 1 ==> (inR(r2, m, x) <==> inR(r, n, x) || r2[n] == x);
{
  if inR(r, n, x) { obtain q: int :: 0 <= q < n && r[q] == x; assert r2[q] == x; }
  if m == n + 1 && inR(r2, m, x) { obtain q: int :: 0 <= q < m && r2[q] == x; if q < n { assert r[q] == x; } }
  if m == n + 1 && r2[n] == x { assert inR(r2, m, x); }
}
lemma ordered_ext(L: [ve.Variable]VL, DD: [ve.Variable]bool, r: [int]ve.Variable, r2: [int]ve.Variable, n: int)
  requires ordered(L, DD, r, n) && (forall q: int {r2[q]} {r[q]} :: 0 <= q < n ==> r2[q] == r[q]);
  ensures ordered(L, DD, r2, n);
{
  fix q: int | 0 <= q < n {
    assert r[q] == r2[q] && parentsIn(L, DD, r, q, r[q]);
    fix d: ve.Variable, i: int | DD[d] && d.id == r2[q].id && 0 <= i < L[d].n && L[d].v[i].nodeType == 1 {
      use inR_snoc(r, r2, q, q, L[d].v[i]);
    } show inR(r2, q, L[d].v[i]);
  } show parentsIn(L, DD, r2, q, r2[q]);
}

func ve.sortTopologicalRecursive(dec, index, deps, visited, result) returns (r)
  property C04;
  requires 0 <= index < len(dec) && len(visited) == len(dec) && distinct(seq(dec), len(dec));
  requires @own ref(result) != ref(dec) && (forall d: ve.Variable {vals(deps)[d]} :: dom(deps)[d] ==> ref(vals(deps)[d]) != ref(result));
  requires @closed closedD(dl(deps), dom(deps), seq(dec), len(dec));
  requires @only onlyVis(seq(dec), len(dec), seq(visited), seq(result), len(result));
  requires @dist distinct(seq(result), len(result));
  requires @order ordered(dl(deps), dom(deps), seq(result), len(result));
  requires @rank exists rk: [int]int {ranked(dl(deps), dom(deps), rk)} :: ranked(dl(deps), dom(deps), rk) && stackD(seq(dec), len(dec), seq(visited), seq(result), len(result), rk, seq(dec)[index].id);
  modifies visited, result;
  ensures @ref ref(r) == ref(result) || fresh(r);
  ensures @prefix len(r) >= len(result) && (forall q: int {seq(r)[q]} :: 0 <= q < len(result) ==> seq(r)[q] == old(seq(result)[q]));
  ensures @mono forall j: int {seq(visited)[j]} :: 0 <= j < len(dec) && old(seq(visited)[j]) ==> seq(visited)[j];
  ensures @self inR(seq(r), len(r), seq(dec)[index]);
  ensures @only2 onlyVis(seq(dec), len(dec), seq(visited), seq(r), len(r));
  ensures @dist2 distinct(seq(r), len(r));
  ensures @order2 ordered(dl(deps), dom(deps), seq(r), len(r));
  ensures @stack forall j: int {seq(visited)[j]} :: 0 <= j < len(dec) ==> (seq(visited)[j] && !inR(seq(r), len(r), seq(dec)[j]) <==> old(seq(visited)[j] && !inR(seq(result), len(result), seq(dec)[j])));
  entry {
    let L = dl(deps); let DD = dom(deps); let dc = seq(dec); let n = len(dec); let vis0 = seq(visited); let r0 = seq(result); let m0 = len(result); let x = dc[index];
    let res0 = result; let al0 = alloc();
    obtain rk: [int]int :: ranked(L, DD, rk) && stackD(dc, n, vis0, r0, m0, rk, x.id);
  }
  beforecall sortTopologicalRecursive { assert p == pp; assert dc[idx] == pp; }
  aftercall sortTopologicalRecursive { assert seq(dec)[idx] == pp; assert inR(seq($r), len($r), pp); }
  loop 0 {
    modifies visited, result;
    invariant @ref (ref(result) == ref(res0) || ref(result) > pre(alloc())) && seq(dec) == dc && dl(deps) == L;
    invariant @prefix len(result) >= m0 && (forall q: int {seq(result)[q]} :: 0 <= q < m0 ==> seq(result)[q] == r0[q]);
    invariant @mono forall j: int {seq(visited)[j]} :: 0 <= j < n && vis0[j] ==> seq(visited)[j];
    invariant @only onlyVis(dc, n, seq(visited), seq(result), len(result));
    invariant @dist distinct(seq(result), len(result));
    invariant @order ordered(L, DD, seq(result), len(result));
    invariant @stack forall j: int {seq(visited)[j]} :: 0 <= j < n ==> (seq(visited)[j] && !inR(seq(result), len(result), dc[j]) <==> j == index || (vis0[j] && !inR(r0, m0, dc[j])));
    invariant @done forall d: ve.Variable, i: int {L[d].v[i]} :: $seen[d] && d.id == x.id && 0 <= i < L[d].n && L[d].v[i].nodeType == 1 ==> inR(seq(result), len(result), L[d].v[i]);
    begin { let ra = seq(result); let ma = len(result); let S0 = $seen; }
    end {
      fix d: ve.Variable, i: int | $seen[d] && d.id == x.id && 0 <= i < L[d].n && L[d].v[i].nodeType == 1 {
        if S0[d] { use inR_snoc(ra, seq(result), ma, len(result), L[d].v[i]); } else { assert d == $key; }
      } show inR(seq(result), len(result), L[d].v[i]);
    }
    after {
      let rf = seq(result); let mf = len(result);
      fix d: ve.Variable, i: int | DD[d] && d.id == x.id && 0 <= i < L[d].n && L[d].v[i].nodeType == 1 { assert $seen[d]; } show inR(rf, mf, L[d].v[i]);
      assert parentsIn(L, DD, rf, mf, x);
    }
  }
  loop 1 {
    modifies visited, result;
    invariant @ref (ref(result) == ref(res0) || ref(result) > al0) && (ref(result) == pre(ref(result)) || ref(result) > pre(alloc())) && seq(dec) == dc && dl(deps) == L;
    invariant @prefix len(result) >= m0 && (forall q: int {seq(result)[q]} :: 0 <= q < m0 ==> seq(result)[q] == r0[q]);
    invariant @prefix2 len(result) >= pre(len(result)) && (forall q: int {seq(result)[q]} :: 0 <= q < pre(len(result)) ==> seq(result)[q] == pre(seq(result))[q]);
    invariant @mono forall j: int {seq(visited)[j]} :: 0 <= j < n && vis0[j] ==> seq(visited)[j];
    invariant @only onlyVis(dc, n, seq(visited), seq(result), len(result));
    invariant @dist distinct(seq(result), len(result));
    invariant @order ordered(L, DD, seq(result), len(result));
    invariant @stack forall j: int {seq(visited)[j]} :: 0 <= j < n ==> (seq(visited)[j] && !inR(seq(result), len(result), dc[j]) <==> j == index || (vis0[j] && !inR(r0, m0, dc[j])));
    invariant @done forall i: int {L[$key0].v[i]} :: 0 <= i < $k && L[$key0].v[i].nodeType == 1 ==> inR(seq(result), len(result), L[$key0].v[i]);
    begin { let rb = seq(result); let mb = len(result); let kb = $k; let pp = L[$key0].v[$k]; assert pp == seq(vars)[$k];
      if pp.nodeType == 1 { assert dc[index] == x; assert inR(dc, n, pp); obtain w: int :: 0 <= w < n && dc[w] == pp; }
    }
    end {
      fix i: int | 0 <= i < kb && L[$key0].v[i].nodeType == 1 { assert inR(rb, mb, L[$key0].v[i]); use inR_snoc(rb, seq(result), mb, len(result), L[$key0].v[i]); } show inR(seq(result), len(result), L[$key0].v[i]);
      if pp.nodeType == 1 { assert inR(seq(result), len(result), pp); }
    }
  }
  exit {
    ifdef rf {
      let re = seq(r);
      assert len(r) == mf + 1 && re[mf] == x;
      assert forall q: int {re[q]} {rf[q]} :: 0 <= q < mf ==> re[q] == rf[q];
      use ordered_ext(L, DD, rf, re, mf);
      fix d: ve.Variable, i: int | DD[d] && d.id == x.id && 0 <= i < L[d].n && L[d].v[i].nodeType == 1 {
        assert inR(rf, mf, L[d].v[i]);
        use inR_snoc(rf, re, mf, mf, L[d].v[i]);
      } show inR(re, mf, L[d].v[i]);
      assert parentsIn(L, DD, re, mf, x);
      fix y: ve.Variable | true { use inR_snoc(rf, re, mf, mf + 1, y); } show inR(re, mf + 1, y) <==> inR(rf, mf, y) || y == x;
      assert inR(re, mf + 1, x);
    }
  }

func ve.sortTopological(dec, deps) returns (r)
  property C04;
  requires distinct(seq(dec), len(dec));
  requires @closed closedD(dl(deps), dom(deps), seq(dec), len(dec));
  requires @rank exists rk: [int]int {ranked(dl(deps), dom(deps), rk)} :: ranked(dl(deps), dom(deps), rk);
  ensures @fresh fresh(r);
  ensures @all forall j: int {seq(dec)[j]} :: 0 <= j < len(dec) ==> inR(seq(r), len(r), seq(dec)[j]);
  ensures @only forall q: int {seq(r)[q]} :: 0 <= q < len(r) ==> inR(seq(dec), len(dec), seq(r)[q]);
  ensures @dist distinct(seq(r), len(r));
  ensures @order ordered(dl(deps), dom(deps), seq(r), len(r));
  entry {
    let L = dl(deps); let DD = dom(deps); let dc = seq(dec); let n = len(dec);
    obtain rk: [int]int :: ranked(L, DD, rk);
  }
  loop 0 {
    modifies visited, result;
    invariant @ref fresh(result) && (ref(result) == pre(ref(result)) || ref(result) > pre(alloc())) && seq(dec) == dc && dl(deps) == L;
    invariant @only onlyVis(dc, n, seq(visited), seq(result), len(result));
    invariant @dist distinct(seq(result), len(result));
    invariant @order ordered(L, DD, seq(result), len(result));
    invariant @stack forall j: int {seq(visited)[j]} :: 0 <= j < n && seq(visited)[j] ==> inR(seq(result), len(result), dc[j]);
    invariant @done forall j: int {dc[j]} :: 0 <= j < $k ==> inR(seq(result), len(result), dc[j]);
    begin { let ra = seq(result); let ma = len(result); let ka = $k; assert stackD(dc, n, seq(visited), ra, ma, rk, dc[$k].id); }
    end {
      fix j: int | 0 <= j < ka { use inR_snoc(ra, seq(result), ma, len(result), dc[j]); } show inR(seq(result), len(result), dc[j]);
    }
  }
  exit {
    fix q: int | 0 <= q < len(r) { obtain j: int :: 0 <= j < n && seq(r)[q] == dc[j]; } show inR(dc, n, seq(r)[q]);
  }

// decision variables depend only on variables of the solver, and not on each other in a circle
// the parents listed for decisions are variables of the solver
define depsV(V: [int]ve.Variable, n: int, L: [ve.Variable]VL, DD: [ve.Variable]bool): bool decreases 0 =
  forall i: int, d: ve.Variable, q: int {V[i], L[d].v[q]} :: 0 <= i < n && V[i].nodeType == 1 && DD[d] && d.id == V[i].id && 0 <= q < L[d].n ==> 0 <= L[d].v[q].index < n && L[d].v[q] == V[L[d].v[q].index];
macro okDeps(s) = depsV(V(s), nV(s), dl(s.dependencies), dom(s.dependencies))
  && (exists rk: [int]int {ranked(dl(s.dependencies), dom(s.dependencies), rk)} :: ranked(dl(s.dependencies), dom(s.dependencies), rk));

func ve.VE.getDecisions(s) returns (r)
  property C04;
  requires s != nil && okVars(s) && okDeps(s);
  ensures @fresh fresh(r);
  ensures @all forall i: int {V(s)[i]} :: 0 <= i < nV(s) && V(s)[i].nodeType == 1 ==> inR(seq(r), len(r), V(s)[i]);
  ensures @only forall q: int {seq(r)[q]} :: 0 <= q < len(r) ==> seq(r)[q].nodeType == 1 && 0 <= seq(r)[q].index < nV(s) && V(s)[seq(r)[q].index] == seq(r)[q];
  ensures @dist distinct(seq(r), len(r));
  ensures @order ordered(dl(s.dependencies), dom(s.dependencies), seq(r), len(r));
  entry { let V0 = V(s); let n = nV(s); let L = dl(s.dependencies); let DD = dom(s.dependencies); }
  loop 0 {
    modifies dec;
    invariant fresh(dec) && (ref(dec) == pre(ref(dec)) || ref(dec) > pre(alloc()));
    invariant @in forall j: int {seq(dec)[j]} :: 0 <= j < len(dec) ==> 0 <= seq(dec)[j].index < $k && seq(dec)[j] == V0[seq(dec)[j].index] && seq(dec)[j].nodeType == 1;
    invariant @all forall i: int {V0[i]} :: 0 <= i < $k && V0[i].nodeType == 1 ==> inR(seq(dec), len(dec), V0[i]);
    invariant @dist distinct(seq(dec), len(dec));
    begin { let da = seq(dec); let ma = len(dec); let ka = $k; }
    end {
      fix i: int | 0 <= i < ka && V0[i].nodeType == 1 { use inR_snoc(da, seq(dec), ma, len(dec), V0[i]); } show inR(seq(dec), len(dec), V0[i]);
      if V0[ka].nodeType == 1 { assert seq(dec)[ma] == V0[ka]; assert inR(seq(dec), len(dec), V0[ka]); }
    }
  }
  beforecall sortTopological {
    let dc = seq(dec); let nd = len(dec);
    assert dl(s.dependencies) == L;
    fix j: int, d: ve.Variable, q: int | 0 <= j < nd && DD[d] && d.id == dc[j].id && 0 <= q < L[d].n && L[d].v[q].nodeType == 1 {
      assert V0[dc[j].index] == dc[j];
      assert isV(s, L[d].v[q]) && L[d].v[q] == V0[L[d].v[q].index];
    } show inR(dc, nd, L[d].v[q]);
    assert closedD(L, DD, dc, nd);
  }
  exit {
    fix i: int | 0 <= i < n && V0[i].nodeType == 1 { assert inR(dc, nd, V0[i]); obtain j: int :: 0 <= j < nd && dc[j] == V0[i]; } show inR(seq(r), len(r), V0[i]);
    fix q: int | 0 <= q < len(r) { assert inR(dc, nd, seq(r)[q]); obtain j: int :: 0 <= j < nd && dc[j] == seq(r)[q]; } show seq(r)[q].nodeType == 1 && 0 <= seq(r)[q].index < n && V0[seq(r)[q].index] == seq(r)[q];
  }

// the variable at position i is a parent of decision d / of some decision
define parOf(L: [ve.Variable]VL, DD: [ve.Variable]bool, d: ve.Variable, i: int): bool decreases 0 =
  DD[d] && (exists q: int {L[d].v[q]} :: 0 <= q < L[d].n && L[d].v[q].index == i);
// decision j is not a parent of any decision
define sinkD(L: [ve.Variable]VL, DD: [ve.Variable]bool, V: [int]ve.Variable, n: int, j: int): bool decreases 0 =
  forall j2: int {V[j2]} :: 0 <= j2 < n && V[j2].nodeType == 1 ==> !parOf(L, DD, V[j2], j);
define isPar(L: [ve.Variable]VL, DD: [ve.Variable]bool, V: [int]ve.Variable, n: int, i: int): bool decreases 0 =
  exists j: int {V[j]} :: 0 <= j < n && V[j].nodeType == 1 && parOf(L, DD, V[j], i);

func ve.VE.getDecisionParents(s, single) returns (r)
  property C04;
  requires s != nil && okVars(s) && okDeps(s);
  ensures @len fresh(r) && len(r) == nV(s);
  ensures @parents forall i: int {seq(r)[i]} :: 0 <= i < nV(s) && seq(r)[i] ==> isPar(dl(s.dependencies), dom(s.dependencies), V(s), nV(s), i);
  ensures @multi !single ==> (forall i: int {seq(r)[i]} :: 0 <= i < nV(s) ==> (seq(r)[i] <==> isPar(dl(s.dependencies), dom(s.dependencies), V(s), nV(s), i)));
  ensures @single single && (exists j: int {V(s)[j]} :: 0 <= j < nV(s) && V(s)[j].nodeType == 1) ==> (exists j: int {V(s)[j]} :: 0 <= j < nV(s) && V(s)[j].nodeType == 1 && sinkD(dl(s.dependencies), dom(s.dependencies), V(s), nV(s), j)
     && (forall i: int {seq(r)[i]} :: 0 <= i < nV(s) ==> (seq(r)[i] <==> parOf(dl(s.dependencies), dom(s.dependencies), V(s)[j], i))));
  entry { let V0 = V(s); let n = nV(s); let L = dl(s.dependencies); let DD = dom(s.dependencies); }
  aftercall getDecisions { let dc = seq($r); let nd = len($r); 
    assert forall q: int {dc[q]} :: 0 <= q < nd ==> dc[q].nodeType == 1 && 0 <= dc[q].index < n && V0[dc[q].index] == dc[q];
  }
  loop 0 {
    modifies isDecisionParent;
    invariant -1 <= i < nd;
    invariant @same dl(s.dependencies) == L && V(s) == V0 && seq(decisions) == dc;
    invariant @first single ==> i == nd - 1;
    invariant @set forall t: int {seq(isDecisionParent)[t]} :: 0 <= t < n ==> (seq(isDecisionParent)[t] <==> (exists j: int {dc[j]} :: i < j < nd && parOf(L, DD, dc[j], t)));
    begin { let A = seq(isDecisionParent); let i0 = i; let dq = dc[i]; assert V0[dq.index] == dq; }
    end {
      fix t: int | 0 <= t < n {
        if A[t] { obtain j: int :: i0 < j < nd && parOf(L, DD, dc[j], t); }
      } show seq(isDecisionParent)[t] <==> (exists j: int {dc[j]} :: i0 - 1 < j < nd && parOf(L, DD, dc[j], t));
    }
  }
  loop 1 {
    modifies isDecisionParent;
    invariant @set forall t: int {seq(isDecisionParent)[t]} :: 0 <= t < n ==> (seq(isDecisionParent)[t] <==> A[t] || (exists q: int {L[dq].v[q]} :: 0 <= q < $k && L[dq].v[q].index == t));
    invariant @same dl(s.dependencies) == L && V(s) == V0 && seq(decisions) == dc;
    begin { let pp = L[dq].v[$k]; assert pp == seq(vars)[$k]; assert isV(s, pp); let B = seq(isDecisionParent); let kb = $k; }
    end {
      fix t: int | 0 <= t < n {
        if B[t] && !A[t] { obtain q: int :: 0 <= q < kb && L[dq].v[q].index == t; }
        if t == pp.index { assert L[dq].v[kb].index == t; }
      } show seq(isDecisionParent)[t] <==> A[t] || (exists q: int {L[dq].v[q]} :: 0 <= q < kb + 1 && L[dq].v[q].index == t);
    }
  }
  exit {
    fix t: int | 0 <= t < n {
      if seq(r)[t] { obtain j: int :: 0 <= j < nd && parOf(L, DD, dc[j], t); assert V0[dc[j].index] == dc[j]; }
      if isPar(L, DD, V0, n, t) { obtain j: int :: 0 <= j < n && V0[j].nodeType == 1 && parOf(L, DD, V0[j], t); assert inR(dc, nd, V0[j]); obtain q: int :: 0 <= q < nd && dc[q] == V0[j]; }
    } show (seq(r)[t] ==> isPar(L, DD, V0, n, t)) && (!single && isPar(L, DD, V0, n, t) ==> seq(r)[t]);
    if single && nd > 0 {
      let jj = dc[nd - 1].index;
      assert V0[jj] == dc[nd - 1];
      fix j2: int | 0 <= j2 < n && V0[j2].nodeType == 1 {
        assert inR(dc, nd, V0[j2]); obtain q: int :: 0 <= q < nd && dc[q] == V0[j2];
        if parOf(L, DD, V0[j2], jj) {
          obtain i: int :: 0 <= i < L[V0[j2]].n && L[V0[j2]].v[i].index == jj;
          assert L[V0[j2]].v[i] == V0[jj];
          assert parentsIn(L, DD, dc, q, dc[q]);
          assert inR(dc, q, V0[jj]);
          obtain z: int :: 0 <= z < q && dc[z] == V0[jj];
          assert z == nd - 1;
        }
      } show !parOf(L, DD, V0[j2], jj);
      fix t: int | 0 <= t < n {
        if seq(r)[t] { obtain j: int :: nd - 2 < j < nd && parOf(L, DD, dc[j], t); }
      } show seq(r)[t] <==> parOf(L, DD, V0[jj], t);
    }
  }
