// ve/ve.go: solving policies.

macro withV(G, id) = lam k: int :: hasV(G[k], id);

lemma prodA_snoc(F: [int]Fac, m: int, a: [int]int, f: Fac)
  requires 0 <= m && F[m] == f;
  ensures prodA(F, m + 1, a) == prodA(F, m, a) * fval(f, a);
{ }

func ve.VE.findDecisionFactors(s, decision, result) returns (r)
  property C04;
  requires okVE(s) && isx(G(s), D(s), decision) && len(result) == 0;
  modifies result;
  ensures @ref ref(r) == ref(result) || fresh(r);
  ensures @in forall j: int {seq(r)[j]} :: 0 <= j < len(r) ==> (exists k: int {vals(s.factors)[k]} :: D(s)[k] && hasV(G(s)[k], decision.id) && seq(r)[j] == vals(s.factors)[k]);
  ensures @all forall k: int {D(s)[k]} :: D(s)[k] && hasV(G(s)[k], decision.id) ==> (exists j: int {seq(r)[j]} :: 0 <= j < len(r) && seq(r)[j] == vals(s.factors)[k]);
  ensures @prod forall a: [int]int {prodA(facs(r), len(r), a)} :: prodA(facs(r), len(r), a) == prodR(G(s), and2(D(s), withV(G(s), decision.id)), cnt0(s), a);
  entry {
    let G0 = G(s); let D0 = D(s); let b = cnt0(s); let m0 = vals(s.factors); let x = decision; let res0 = result;
    let E = withV(G(s), decision.id);
    let DE = and2(D(s), withV(G(s), decision.id));
    assert forall k: int {DE[k]} {D0[k]} :: DE[k] <==> D0[k] && E[k];
  }
  loop 0 {
    modifies result;
    invariant ref(result) == ref(res0) || ref(result) > pre(alloc());
    invariant @in forall j: int {seq(result)[j]} :: 0 <= j < len(result) ==> (exists k: int {m0[k]} :: $seen[k] && E[k] && seq(result)[j] == m0[k]);
    invariant @all forall k: int {$seen[k]} :: $seen[k] && E[k] ==> (exists j: int {seq(result)[j]} :: 0 <= j < len(result) && seq(result)[j] == m0[k]);
    invariant @prod forall a: [int]int {prodA(facs(result), len(result), a)} :: prodA(facs(result), len(result), a) == prodR(G0, and2($seen, E), b, a);
    before { use forall a: [int]int {prodA(facs(result), 0, a)} :: prodR_none(G0, and2($seen, E), b, a); }
    begin { let F0 = facs(result); let n0 = len(result); let S0 = $seen; let r0 = seq(result);
      if E[$key] { obtain q: int :: 0 <= q < G0[$key].n && G0[$key].v[q].id == x.id; assert G0[$key].v[q] == x; }
    }
    end {
      let F1 = facs(result);
      assert forall j: int {r0[j]} {seq(result)[j]} :: 0 <= j < n0 ==> r0[j] == seq(result)[j];
      assert forall j: int {F0[j]} {F1[j]} :: 0 <= j < n0 ==> F0[j] == F1[j];
      fix k: int | $seen[k] && E[k] && k != $key { assert S0[k]; obtain j: int :: 0 <= j < n0 && r0[j] == m0[k]; assert seq(result)[j] == m0[k]; } show exists j: int {seq(result)[j]} :: 0 <= j < len(result) && seq(result)[j] == m0[k];
      fix j: int | 0 <= j < n0 { obtain k: int :: S0[k] && E[k] && r0[j] == m0[k]; assert $seen[k] && seq(result)[j] == m0[k]; } show exists k: int {m0[k]} :: $seen[k] && E[k] && seq(result)[j] == m0[k];
      if E[$key] {
        assert len(result) == n0 + 1 && seq(result)[n0] == m0[$key] && F1[n0] == G0[$key];
        fix a: [int]int | true {
          use prodA_ext(F0, F1, n0, a);
          assert prodA(F0, n0, a) == prodR(G0, and2(S0, E), b, a);
          use prodR_add(G0, and2(S0, E), and2($seen, E), b, $key, a);
          use prodA_snoc(F1, n0, a, G0[$key]);
        } show prodA(F1, n0 + 1, a) == prodR(G0, and2($seen, E), b, a);
      } else {
        assert len(result) == n0;
        fix a: [int]int | true {
          use prodA_ext(F0, F1, n0, a);
          assert prodA(F0, n0, a) == prodR(G0, and2(S0, E), b, a);
          use prodR_ext(G0, G0, and2(S0, E), and2($seen, E), b, a);
        } show prodA(F1, n0, a) == prodR(G0, and2($seen, E), b, a);
      }
    }
    after {
      let rf = result; let rs = seq(result);
      assert forall k: int {D0[k]} :: D0[k] ==> $seen[k];
      fix a: [int]int | true { use prodR_ext(G0, G0, and2($seen, E), DE, b, a); } show prodA(facs(result), len(result), a) == prodR(G0, DE, b, a);
    }
  }
  loop 1 { invariant @parent hasParent; }
  loop 2 {
    modifies result;
    invariant @same result == rf && seq(result) == rs;
    begin { if E[$key] { assert false by { obtain j: int :: 0 <= j < len(rf) && rs[j] == m0[$key]; } } }
  }

// Pf is the policy for decision z by table F: uniform over the outcomes of z that maximise F
define polOK(F: Fac, Pf: Fac, V: [int]ve.Variable, n: int, z: ve.Variable): bool decreases 0 =
  forall a: [int]int {fitsV(V, n, a)} :: fitsV(V, n, a) ==> fval(Pf, a) == polA(F.d, F.v, F.n, a, z.id, z.outcomes);
// F is all of the joint that depends on the variable with this id; the factors in R are the rest
define splitBy(G: [int]Fac, D: [int]bool, b: int, V: [int]ve.Variable, n: int, id: int, F: Fac, R: [int]bool): bool decreases 0 =
  (forall k: int {R[k]} {D[k]} :: R[k] <==> D[k] && !hasV(G[k], id))
  && (forall a: [int]int {fitsV(V, n, a)} :: fitsV(V, n, a) ==> prodR(G, D, b, a) == fval(F, a) * prodR(G, R, b, a))
  && (forall a: [int]int, c: int {a[id := c]} :: prodR(G, R, b, a[id := c]) == prodR(G, R, b, a));
macro decList(s, dc, nd) = distinct(dc, nd)
  && (forall q: int {dc[q]} :: 0 <= q < nd ==> dc[q].nodeType == 1 && 0 <= dc[q].index < nV(s) && V(s)[dc[q].index] == dc[q])
  && (forall i: int {V(s)[i]} :: 0 <= i < nV(s) && V(s)[i].nodeType == 1 ==> inR(dc, nd, V(s)[i]));
define allOcc(V: [int]ve.Variable, n: int, el: [int]bool, G: [int]Fac, D: [int]bool): bool decreases 0 =
  forall j: int {V[j]} :: 0 <= j < n && V[j].nodeType == 0 && !el[j] ==> occ(G, D, V[j].id);

lemma split_by(G: [int]Fac, D: [int]bool, E: [int]bool, DE: [int]bool, DN: [int]bool, b: int, V: [int]ve.Variable, n: int, id: int, F: Fac)
  requires forall k: int {DE[k]} {D[k]} :: DE[k] <==> D[k] && E[k];
  requires forall k: int {DN[k]} {D[k]} :: DN[k] <==> D[k] && !E[k];
  requires forall k: int {E[k]} {D[k]} :: E[k] <==> hasV(G[k], id);
  requires forall a: [int]int {fitsV(V, n, a)} :: fitsV(V, n, a) ==> fval(F, a) == prodR(G, DE, b, a);
  ensures splitBy(G, D, b, V, n, id, F, DN);
{
  fix a: [int]int | fitsV(V, n, a) { use prodR_split(G, D, E, DE, DN, b, a); } show prodR(G, D, b, a) == fval(F, a) * prodR(G, DN, b, a);
  fix a: [int]int, c: int | true { use prodR_indep(G, DN, b, a, id, c); } show prodR(G, DN, b, a[id := c]) == prodR(G, DN, b, a);
}
// adding the policy table
lemma pol_step(Gb: [int]Fac, Db: [int]bool, Vb: [int]ve.Variable, n: int, x: ve.Variable, FP: Fac, FY: Fac, G1: [int]Fac, D1: [int]bool, V1: [int]ve.Variable, t: int)
  requires inV(Gb, Db, Vb, n) && 0 <= x.index < n;
  requires forall k: int {Db[k]} :: Db[k] ==> D1[k] && G1[k] == Gb[k];
  requires forall k: int {D1[k]} :: D1[k] ==> Db[k] || (k == t && G1[k] == FY);
  requires forall j: int {V1[j]} {Vb[j]} :: 0 <= j < n ==> V1[j].id == Vb[j].id && V1[j].outcomes == Vb[j].outcomes;
  requires forall q: int {FY.v[q]} :: 0 <= q < FY.n ==> (exists u: int {FP.v[u]} :: 0 <= u < FP.n && FY.v[q] == FP.v[u]);
  requires forall q: int {FP.v[q]} :: 0 <= q < FP.n ==> 0 <= FP.v[q].index < n && Vb[FP.v[q].index].id == FP.v[q].id && Vb[FP.v[q].index].outcomes == FP.v[q].outcomes;
  requires forall w: [int]ve.Variable, q: int {consD(Gb, Db, w), FP.v[q]} :: consD(Gb, Db, w) && 0 <= q < FP.n ==> FP.v[q] == w[FP.v[q].id];
  ensures inV(G1, D1, V1, n);
  ensures forall w: [int]ve.Variable {consD(Gb, Db, w)} :: consD(Gb, Db, w) ==> consD(G1, D1, w);
  ensures forall id: int {occ(Gb, Db, id)} :: occ(Gb, Db, id) ==> occ(G1, D1, id);
{
  fix k: int, q: int | D1[k] && 0 <= q < G1[k].n {
    if Db[k] { assert G1[k].v[q] == Gb[k].v[q]; } else { obtain u: int :: 0 <= u < FP.n && FY.v[q] == FP.v[u]; }
  } show 0 <= G1[k].v[q].index < n && V1[G1[k].v[q].index].id == G1[k].v[q].id && V1[G1[k].v[q].index].outcomes == G1[k].v[q].outcomes;
  assert inV(G1, D1, V1, n);
  fix w: [int]ve.Variable | consD(Gb, Db, w) {
    fix k: int, q: int | D1[k] && 0 <= q < G1[k].n { if Db[k] { assert G1[k].v[q] == Gb[k].v[q]; } else { obtain u: int :: 0 <= u < FP.n && FY.v[q] == FP.v[u]; } } show G1[k].v[q] == w[G1[k].v[q].id];
  } show consD(G1, D1, w);
  fix id: int | occ(Gb, Db, id) { obtain k: int :: Db[k] && hasV(Gb[k], id); assert D1[k] && hasV(G1[k], id); } show occ(G1, D1, id);
}
// the decision becomes a chance variable; the others and their parents stay
lemma dec_step(Vb: [int]ve.Variable, V1: [int]ve.Variable, n: int, L: [ve.Variable]VL, DD: [ve.Variable]bool, dc: [int]ve.Variable, ib: int)
  requires 0 <= ib && distinct(dc, ib + 1) && ordered(L, DD, dc, ib + 1) && depsV(Vb, n, L, DD);
  requires forall q: int {dc[q]} :: 0 <= q < ib + 1 ==> dc[q].nodeType == 1 && 0 <= dc[q].index < n && Vb[dc[q].index] == dc[q];
  requires forall i: int {Vb[i]} :: 0 <= i < n && Vb[i].nodeType == 1 ==> inR(dc, ib + 1, Vb[i]);
  requires distinct(Vb, n) && (forall j: int {Vb[j]} :: 0 <= j < n ==> Vb[j].index == j);
  requires (forall j: int {V1[j]} :: 0 <= j < n && j != dc[ib].index ==> V1[j] == Vb[j]) && V1[dc[ib].index].nodeType == 0;
  ensures forall q: int {dc[q]} :: 0 <= q < ib ==> dc[q].nodeType == 1 && 0 <= dc[q].index < n && V1[dc[q].index] == dc[q];
  ensures forall i: int {V1[i]} :: 0 <= i < n && V1[i].nodeType == 1 ==> inR(dc, ib, V1[i]);
  ensures depsV(V1, n, L, DD);
{
  let x = dc[ib];
  fix q: int | 0 <= q < ib { assert dc[q].id != x.id; assert dc[q].index != x.index; } show V1[dc[q].index] == dc[q];
  fix j: int | 0 <= j < n && V1[j].nodeType == 1 {
    assert j != x.index && V1[j] == Vb[j];
    assert inR(dc, ib + 1, Vb[j]);
    obtain q: int :: 0 <= q < ib + 1 && dc[q] == Vb[j];
    assert q != ib;
    assert inR(dc, ib, V1[j]);
  } show inR(dc, ib, V1[j]);
  fix j: int, d: ve.Variable, q: int | 0 <= j < n && V1[j].nodeType == 1 && DD[d] && d.id == V1[j].id && 0 <= q < L[d].n {
    assert j != x.index && V1[j] == Vb[j];
    assert L[d].v[q] == Vb[L[d].v[q].index] && 0 <= L[d].v[q].index < n;
    if L[d].v[q].index == x.index {
      assert L[d].v[q] == x;
      assert inR(dc, ib, V1[j]);
      obtain u: int :: 0 <= u < ib && dc[u] == V1[j];
      assert parentsIn(L, DD, dc, u, dc[u]);
      assert inR(dc, u, x);
      obtain t: int :: 0 <= t < u && dc[t] == x;
      assert false;
    }
  } show 0 <= L[d].v[q].index < n && L[d].v[q] == V1[L[d].v[q].index];
}
lemma occ_step(Vb: [int]ve.Variable, V1: [int]ve.Variable, n: int, el: [int]bool, Gb: [int]Fac, Db: [int]bool, G1: [int]Fac, D1: [int]bool, x: ve.Variable)
  requires allOcc(Vb, n, el, Gb, Db) && occ(Gb, Db, x.id);
  requires forall id: int {occ(Gb, Db, id)} :: occ(Gb, Db, id) ==> occ(G1, D1, id);
  requires (forall j: int {V1[j]} :: 0 <= j < n && j != x.index ==> V1[j] == Vb[j]) && V1[x.index].id == x.id;
  ensures allOcc(V1, n, el, G1, D1);
{ fix j: int | 0 <= j < n && V1[j].nodeType == 0 && !el[j] { if j == x.index { assert occ(Gb, Db, x.id); } else { assert V1[j] == Vb[j]; assert occ(Gb, Db, Vb[j].id); } } show occ(G1, D1, V1[j].id); }
// what eliminating the hidden variables leaves
lemma elim_step(V: [int]ve.Variable, n: int, el1: [int]bool, el2: [int]bool, PP: [int]bool, E: [int]ve.Evidence, ne: int, Q: [int]ve.Variable, nq: int, H: [int]ve.Variable, m: int, G1: [int]Fac, D1: [int]bool, G2: [int]Fac, D2: [int]bool)
  requires allOcc(V, n, el1, G1, D1) && hidList(V, n, el1, PP, E, ne, Q, nq, H, m) && distinct(V, n) && (forall j: int {V[j]} :: 0 <= j < n ==> V[j].index == j);
  requires forall id: int {occ(G2, D2, id)} {occ(G1, D1, id)} :: occ(G2, D2, id) <==> occ(G1, D1, id) && !inIds(H, m, id);
  requires forall i: int {el2[i]} :: 0 <= i < n ==> (el2[i] <==> el1[i] || inIds(H, m, V[i].id));
  ensures allOcc(V, n, el2, G2, D2);
  ensures forall j: int {V[j]} :: 0 <= j < n && V[j].nodeType == 1 && occ(G1, D1, V[j].id) ==> occ(G2, D2, V[j].id);
{
  fix j: int | 0 <= j < n && V[j].nodeType == 0 && !el2[j] { assert occ(G1, D1, V[j].id); } show occ(G2, D2, V[j].id);
  fix j: int | 0 <= j < n && V[j].nodeType == 1 && occ(G1, D1, V[j].id) {
    if inIds(H, m, V[j].id) { obtain q: int :: 0 <= q < m && H[q].id == V[j].id; assert V[H[q].index] == H[q]; assert H[q].index == j; }
  } show occ(G2, D2, V[j].id);
}

// p is a table of its own, apart from the solver's list of variables
macro apart(p, s) = p != nil && allocated(p) && ref(p.variables) != ref(s.variables.variables);
// a decision d has been solved: its table and the policy that maximises it
macro hasPolicy(s, ps, d, V, n) = dom(ps)[d] && apart(vals(ps)[d][0], s) && apart(vals(ps)[d][1], s) && polOK(fac(vals(ps)[d][0]), fac(vals(ps)[d][1]), V, n, d);

// the variables of a policy: the decision last, all of them from the tables in G
define polVars(Y: Fac, d: ve.Variable, G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int): bool decreases 0 =
  1 <= Y.n && Y.v[Y.n - 1] == d
  && (forall q: int {Y.v[q]} :: 0 <= q < Y.n ==> 0 <= Y.v[q].index < n && V[Y.v[q].index].id == Y.v[q].id && occ(G, D, Y.v[q].id))
  && (forall w: [int]ve.Variable, q: int {consD(G, D, w), Y.v[q]} :: consD(G, D, w) && 0 <= q < Y.n ==> Y.v[q] == w[Y.v[q].id]);
macro polWf(p, s) = apart(p, s) && wfD(p) && p.data != nil && allocated(p.variables) && allocated(p.data);

func ve.VE.solvePolicies(s, decisions, single) returns (r)
  property C04;
  requires okVE(s) && agree(s) && okDeps(s) && len(decisions) >= 1;
  requires @decs decList(s, seq(decisions), len(decisions)) && ordered(dl(s.dependencies), dom(s.dependencies), seq(decisions), len(decisions));
  requires @known forall q: int {seq(decisions)[q]} :: 0 <= q < len(decisions) ==> isx(G(s), D(s), seq(decisions)[q]) && occ(G(s), D(s), seq(decisions)[q].id);
  requires @occ allOcc(V(s), nV(s), seq(s.eliminated), G(s), D(s));
  requires @own ref(decisions) != ref(s.variables.variables) && (forall d: ve.Variable {vals(s.dependencies)[d]} :: dom(s.dependencies)[d] ==> ref(vals(s.dependencies)[d]) != ref(s.variables.variables));
  modifies *s.variables, s.factors, s.eliminated, s.variables.variables;
  ensures @keep r != nil && s.variables == old(s.variables) && s.variables.variables == old(s.variables.variables);
  ensures @shape forall d: ve.Variable {dom(r)[d]} :: dom(r)[d] ==> inR(old(seq(decisions)), len(decisions), d) && polWf(vals(r)[d][1], s) && polVars(fac(vals(r)[d][1]), d, old(G(s)), old(D(s)), old(V(s)), nV(s));
  ensures @last hasPolicy(s, r, old(seq(decisions))[len(decisions) - 1], old(V(s)), nV(s));
  ensures @one single ==> (forall d: ve.Variable {dom(r)[d]} :: dom(r)[d] ==> d == old(seq(decisions))[len(decisions) - 1]);
  ensures @max exists R: [int]bool {splitBy(old(G(s)), old(D(s)), old(cnt0(s)), old(V(s)), nV(s), old(seq(decisions))[len(decisions) - 1].id, fac(vals(r)[old(seq(decisions))[len(decisions) - 1]][0]), R)} ::
    splitBy(old(G(s)), old(D(s)), old(cnt0(s)), old(V(s)), nV(s), old(seq(decisions))[len(decisions) - 1].id, fac(vals(r)[old(seq(decisions))[len(decisions) - 1]][0]), R);
  ensures @all !single ==> (forall q: int {old(seq(decisions))[q]} :: 0 <= q < len(decisions) ==> hasPolicy(s, r, old(seq(decisions))[q], old(V(s)), nV(s)));
  entry {
    let G0 = G(s); let D0 = D(s); let b = cnt0(s); let V0 = V(s); let n = nV(s); let dc = seq(decisions); let nd = len(decisions); let z = dc[nd - 1];
    let L = dl(s.dependencies); let DD = dom(s.dependencies); let vref = s.variables.variables; let vars0 = s.variables;
    obtain vf: [int]ve.Variable :: consD(G0, D0, vf);
    obtain rk: [int]int :: ranked(L, DD, rk);
  }
  loop 0 {
    modifies *s.variables, s.factors, s.eliminated, s.variables.variables, factors, policies;
    invariant @idx -1 <= i < nd && (single ==> i == nd - 1);
    invariant @keep s.variables == vars0 && s.variables.variables == vref && dl(s.dependencies) == L && dom(s.dependencies) == DD && seq(decisions) == dc;
    invariant @own fresh(factors) && len(factors) == 0 && (ref(factors) == pre(ref(factors)) || ref(factors) > pre(alloc()));
    invariant @ok okVE(s);
    invariant @alloc forall k: int {D(s)[k]} :: D(s)[k] ==> allocated(vals(s.factors)[k]);
    invariant @agree forall w: [int]ve.Variable {consD(G0, D0, w)} :: consD(G0, D0, w) ==> consD(G(s), D(s), w);
    invariant @vars forall j: int {V(s)[j]} {V0[j]} :: 0 <= j < n ==> V(s)[j].id == V0[j].id && V(s)[j].outcomes == V0[j].outcomes && V(s)[j].index == V0[j].index;
    invariant @left decList(s, dc, i + 1);
    invariant @deps depsV(V(s), n, L, DD);
    invariant @occ allOcc(V(s), n, seq(s.eliminated), G(s), D(s));
    invariant @occd forall q: int {dc[q]} :: 0 <= q <= i ==> occ(G(s), D(s), dc[q].id);
    invariant @first i == nd - 1 ==> V(s) == V0 && G(s) == G0 && D(s) == D0 && cnt0(s) == b;
    invariant @max i < nd - 1 ==> (exists R: [int]bool {splitBy(G0, D0, b, V0, n, z.id, fac(vals(policies)[z][0]), R)} :: splitBy(G0, D0, b, V0, n, z.id, fac(vals(policies)[z][0]), R));
    invariant @pols forall q: int {dc[q]} :: i < q < nd ==> hasPolicy(s, policies, dc[q], V0, n);
    invariant @occb forall id: int {occ(G(s), D(s), id)} :: occ(G(s), D(s), id) ==> occ(G0, D0, id);
    invariant @start i == nd - 1 ==> (forall d: ve.Variable {dom(policies)[d]} :: !dom(policies)[d]);
    invariant @only forall d: ve.Variable {dom(policies)[d]} :: dom(policies)[d] ==> inR(dc, nd, d) && polWf(vals(policies)[d][1], s) && polVars(fac(vals(policies)[d][1]), d, G0, D0, V0, n);
    begin {
      let PQ = lam d: ve.Variable :: fac(vals(policies)[d][1]);
      let Gb = G(s); let Db = D(s); let bb = cnt0(s); let Vb = V(s); let ib = i; let x = dc[i]; let mb = vals(s.factors); let elb = seq(s.eliminated); let pd = dom(policies); let pv = vals(policies);
      let P0 = lam q: int :: fac(vals(policies)[dc[q]][0]); let P1 = lam q: int :: fac(vals(policies)[dc[q]][1]);
      let vx = vf[x.id := x];
      fix k: int, q: int | D0[k] && 0 <= q < G0[k].n { } show G0[k].v[q] == vx[G0[k].v[q].id];
      assert consD(G0, D0, vx);
      assert consD(Gb, Db, vx);
      assert isx(Gb, Db, x);
      assert consD(Gb, Db, vf);
      fix a: [int]int | fitsV(V0, n, a) { } show fitsV(Vb, n, a);
      obtain R1: [int]bool :: ib < nd - 1 ==> splitBy(G0, D0, b, V0, n, z.id, P0[nd - 1], R1);
    }
  }
  aftercall findDecisionFactors {
    let F = facs($r); let M = len($r); let fp = seq($r);
    let E = withV(G(s), x.id); let DE = and2(D(s), withV(G(s), x.id)); let DN = minus(D(s), withV(G(s), x.id));
    assert G(s) == Gb && D(s) == Db;
    fix j: int | 0 <= j < M { obtain k: int :: Db[k] && hasV(Gb[k], x.id) && fp[j] == mb[k]; assert F[j] == Gb[k]; } show exists k: int {Gb[k]} :: Db[k] && hasV(Gb[k], x.id) && F[j] == Gb[k];
    fix k: int | DE[k] { assert Db[k] && hasV(Gb[k], x.id); obtain j: int :: 0 <= j < M && fp[j] == mb[k]; assert F[j] == Gb[k]; } show exists j: int {F[j]} :: 0 <= j < M && F[j] == Gb[k];
    assert M > 0 by { obtain k: int :: Db[k] && hasV(Gb[k], x.id); assert DE[k]; obtain j: int :: 0 <= j < M && F[j] == Gb[k]; }
    assert consistent(F, M, vf) by {
      fix j: int, q: int | 0 <= j < M && 0 <= q < F[j].n { obtain k: int :: Db[k] && F[j] == Gb[k]; assert Gb[k].v[q] == vf[Gb[k].v[q].id]; } show F[j].v[q] == vf[F[j].v[q].id];
    }
    fix j: int | 0 <= j < M { obtain k: int :: Db[k] && hasV(Gb[k], x.id) && fp[j] == mb[k]; assert wfD(mb[k]); } show fp[j] != nil && wfD(fp[j]);
    fix a: [int]int | true { } show prodA(F, M, a) == prodR(Gb, DE, bb, a);
  }
  beforecall Policy {
    let FP = Fac(len($a1.variables), seq($a1.variables), seq($a1.data));
    fix a: [int]int | fitsV(Vb, n, a) {
      if M == 1 { assert FP == F[0]; use prodA_snoc(F, 0, a, FP); assert prodA(F, 0, a) == 1.0; }
      else {
        fix j: int, q: int | 0 <= j < M && 0 <= q < F[j].n {
          obtain k: int :: Db[k] && F[j] == Gb[k];
          assert 0 <= Gb[k].v[q].index < n && Vb[Gb[k].v[q].index].id == Gb[k].v[q].id;
        } show 0 <= a[F[j].v[q].id] < F[j].v[q].outcomes;
        assert fitsAll(F, M, a);
      }
    } show fval(FP, a) == prodR(Gb, DE, bb, a);
    fix q: int | 0 <= q < FP.n {
      if M == 1 { assert FP == F[0]; obtain k: int :: Db[k] && F[0] == Gb[k]; assert Gb[k].v[q] == FP.v[q]; assert hasV(Gb[k], FP.v[q].id); }
      else {
        obtain j: int, k: int :: 0 <= j < M && 0 <= k < F[j].n && FP.v[q] == F[j].v[k];
        obtain k2: int :: Db[k2] && F[j] == Gb[k2];
        assert Gb[k2].v[k] == FP.v[q]; assert hasV(Gb[k2], FP.v[q].id);
      }
    } show 0 <= FP.v[q].index < n && Vb[FP.v[q].index].id == FP.v[q].id && Vb[FP.v[q].index].outcomes == FP.v[q].outcomes && FP.v[q] == vx[FP.v[q].id] && occ(Gb, Db, FP.v[q].id);
    fix w: [int]ve.Variable, q: int | consD(Gb, Db, w) && 0 <= q < FP.n {
      if M == 1 { assert FP == F[0]; obtain k: int :: Db[k] && F[0] == Gb[k]; assert Gb[k].v[q] == FP.v[q]; }
      else {
        obtain j: int, k: int :: 0 <= j < M && 0 <= k < F[j].n && FP.v[q] == F[j].v[k];
        obtain k2: int :: Db[k2] && F[j] == Gb[k2];
        assert Gb[k2].v[k] == FP.v[q];
      }
    } show FP.v[q] == w[FP.v[q].id];
    assert hasV(FP, x.id) by {
      obtain k: int :: Db[k] && hasV(Gb[k], x.id);
      assert DE[k];
      obtain q: int :: 0 <= q < Gb[k].n && Gb[k].v[q].id == x.id;
      obtain j: int :: 0 <= j < M && F[j] == Gb[k];
      if M == 1 { assert FP == F[0]; assert FP.v[q].id == x.id; }
      else { obtain q2: int :: 0 <= q2 < FP.n && FP.v[q2] == F[j].v[q]; }
    }
    use split_by(Gb, Db, E, DE, DN, bb, Vb, n, x.id, FP);
    assert @greedy splitBy(Gb, Db, bb, Vb, n, x.id, FP, DN);
    assume "every entry of a finite table is above -Inf" forall t: int {FP.d[t]} :: 0 <= t < len($a1.data) ==> FP.d[t] > ninf();
    fix k: int | Db[k] { } show Fac(len(mb[k].variables), seq(mb[k].variables), seq(mb[k].data)) == Gb[k];
    fix q: int | ib < q < nd { } show fac(pv[dc[q]][0]) == P0[q] && fac(pv[dc[q]][1]) == P1[q];
    fix d: ve.Variable | pd[d] { } show fac(pv[d][1]) == PQ[d] && polWf(pv[d][1], s);
    assert apart($a1, s);
  }
  aftercall Policy {
    let FY = Fac(len($r.variables), seq($r.variables), seq($r.data));
    obtain p: int :: 0 <= p < FP.n && FP.v[p].id == x.id && FY.n == FP.n && without(FP.v, FY.v, FP.n, p) && FY.v[FP.n - 1] == FP.v[p];
    fix q: int | 0 <= q < FY.n { assert FY.v[q] == FP.v[q == FP.n - 1 ? p : (q < p ? q : q + 1)]; } show exists u: int {FP.v[u]} :: 0 <= u < FP.n && FY.v[q] == FP.v[u];
    fix a: [int]int | fitsV(Vb, n, a) {
      fix j: int | 0 <= j < FP.n { assert Vb[FP.v[j].index].id == FP.v[j].id; } show 0 <= a[FP.v[j].id] < FP.v[j].outcomes;
    } show fval(FY, a) == polA(FP.d, FP.v, FP.n, a, x.id, x.outcomes);
    fix a: [int]int | fitsV(V0, n, a) { assert fitsV(Vb, n, a); } show fval(FY, a) == polA(FP.d, FP.v, FP.n, a, x.id, x.outcomes);
    assert polOK(FP, FY, V0, n, x);
    fix k: int | Db[k] { } show Fac(len(mb[k].variables), seq(mb[k].variables), seq(mb[k].data)) == Gb[k];
    fix q: int | ib < q < nd { } show fac(pv[dc[q]][0]) == P0[q] && fac(pv[dc[q]][1]) == P1[q];
    fix d: ve.Variable | pd[d] { } show fac(pv[d][1]) == PQ[d] && polWf(pv[d][1], s);
    assert wfD($r) && $r.data != nil;
    assert FP.v[p] == x by { assert FP.v[p] == vx[FP.v[p].id]; }
    assert polVars(FY, x, G0, D0, V0, n) by {
      fix q: int | 0 <= q < FY.n { let u = q == FP.n - 1 ? p : (q < p ? q : q + 1); assert FY.v[q] == FP.v[u]; assert occ(Gb, Db, FP.v[u].id); assert occ(G0, D0, FP.v[u].id); let j = FP.v[u].index; assert Vb[j].id == V0[j].id; } show 0 <= FY.v[q].index < n && V0[FY.v[q].index].id == FY.v[q].id && occ(G0, D0, FY.v[q].id);
      fix w: [int]ve.Variable, q: int | consD(G0, D0, w) && 0 <= q < FY.n { assert consD(Gb, Db, w); let u = q == FP.n - 1 ? p : (q < p ? q : q + 1); assert FY.v[q] == FP.v[u]; assert FP.v[u] == w[FP.v[u].id]; } show FY.v[q] == w[FY.v[q].id];
    }
  }
  beforecall eliminateHidden {
    let G1 = G(s); let D1 = D(s); let b1 = cnt0(s); let V1 = V(s); let m1 = vals(s.factors);
    assert V1 == Vb[x.index := V1[x.index]];
    assert V1[x.index].nodeType == 0 && V1[x.index].id == x.id && V1[x.index].outcomes == x.outcomes && V1[x.index].index == x.index;
    fix k: int | Db[k] { assert m1[k] == mb[k]; } show D1[k] && G1[k] == Gb[k];
    assert D1 == Db[b1 - 1 := true];
    assert len(vals(s.factors)[b1 - 1].variables) == FY.n && seq(vals(s.factors)[b1 - 1].variables) == FY.v;
    assert seq(vals(s.factors)[b1 - 1].data) == FY.d;
    assert G1[b1 - 1] == FY;
    use pol_step(Gb, Db, Vb, n, x, FP, FY, G1, D1, V1, b1 - 1);
    use dec_step(Vb, V1, n, L, DD, dc, ib);
    use occ_step(Vb, V1, n, elb, Gb, Db, G1, D1, x);
    fix k: int | D1[k] { if Db[k] { assert m1[k] == mb[k]; } else { assert k == b1 - 1; } } show 0 <= k < b1 && m1[k] != nil && wfD(m1[k]) && ref(m1[k].variables) != ref(vref);
    assert okVE(s);
    assert dl(s.dependencies) == L;
    assert ranked(dl(s.dependencies), dom(s.dependencies), rk);
    fix i: int, d: ve.Variable, q: int | 0 <= i < n && V1[i].nodeType == 1 && DD[d] && d.id == V1[i].id && 0 <= q < L[d].n { assert L[d].v[q] == L[d].v[q]; } show 0 <= L[d].v[q].index < n && L[d].v[q] == V1[L[d].v[q].index];
    let L1 = dl(s.dependencies); let DD1 = dom(s.dependencies);
    assert L1 == L && DD1 == DD;
    assert depsV(V1, n, L1, DD1);
    fix i: int, d: ve.Variable, q: int | 0 <= i < n && V1[i].nodeType == 1 && DD1[d] && d.id == V1[i].id && 0 <= q < L1[d].n { } show 0 <= L1[d].v[q].index < n && L1[d].v[q] == V1[L1[d].v[q].index];
    assert okDeps(s);
    assert consD(G1, D1, vf);
    assert dom(policies)[x] && fac(vals(policies)[x][0]) == FP && fac(vals(policies)[x][1]) == FY && apart(vals(policies)[x][0], s) && apart(vals(policies)[x][1], s);
    assert inR(dc, nd, x) by { assert dc[ib] == x; }
    fix d: ve.Variable | dom(policies)[d] { if d != x { assert pd[d]; assert vals(policies)[d] == pv[d]; assert fac(pv[d][1]) == PQ[d]; } } show inR(dc, nd, d) && polWf(vals(policies)[d][1], s) && polVars(fac(vals(policies)[d][1]), d, G0, D0, V0, n);
    let PZ = lam d: ve.Variable :: fac(vals(policies)[d][1]); let pe = vals(policies);
    fix id: int | occ(G1, D1, id) {
      obtain k: int :: D1[k] && hasV(G1[k], id);
      if Db[k] { assert G1[k] == Gb[k]; assert occ(Gb, Db, id); } else { obtain q: int :: 0 <= q < FY.n && FY.v[q].id == id; assert occ(G0, D0, FY.v[q].id); }
    } show occ(G0, D0, id);
    fix q: int | ib < q < nd { assert dc[q] != x; assert vals(policies)[dc[q]] == pv[dc[q]]; } show dom(policies)[dc[q]] && fac(vals(policies)[dc[q]][0]) == P0[q] && fac(vals(policies)[dc[q]][1]) == P1[q];
  }
  aftercall eliminateHidden {
    let G2 = G(s); let D2 = D(s); let el2 = seq(s.eliminated);
    obtain PP: [int]bool, H: [int]ve.Variable, m: int ::
      hidList(V1, n, elb, PP, seq($a1), 0, seq($a2), 0, H, m)
      && (forall id: int {occ(G2, D2, id)} {occ(G1, D1, id)} :: occ(G2, D2, id) <==> occ(G1, D1, id) && !inIds(H, m, id))
      && (forall i: int {el2[i]} :: 0 <= i < n ==> (el2[i] <==> elb[i] || inIds(H, m, V1[i].id)));
    use elim_step(V1, n, elb, el2, PP, seq($a1), 0, seq($a2), 0, H, m, G1, D1, G2, D2);
    fix q: int | 0 <= q < ib { assert V1[dc[q].index] == dc[q]; assert occ(Gb, Db, dc[q].id); } show occ(G2, D2, dc[q].id);
    assert V(s) == V1;
    fix q: int | ib <= q < nd { } show hasPolicy(s, policies, dc[q], V0, n);
    fix d: ve.Variable | dom(policies)[d] { assert fac(pe[d][1]) == PZ[d]; } show inR(dc, nd, d) && polWf(vals(policies)[d][1], s) && polVars(fac(vals(policies)[d][1]), d, G0, D0, V0, n);
    fix id: int | occ(G2, D2, id) { assert occ(G1, D1, id); } show occ(G0, D0, id);
    let FZ = fac(vals(policies)[z][0]);
    if ib < nd - 1 { assert FZ == P0[nd - 1]; assert splitBy(G0, D0, b, V0, n, z.id, FZ, R1); } else { assert FZ == FP; assert splitBy(G0, D0, b, V0, n, z.id, FZ, DN); }
  }

// J summed over the hidden variables is F times a part that does not depend on the decision
define splitJ(J: [[int]int]real, H: [int]ve.Variable, m: int, V: [int]ve.Variable, n: int, id: int, F: Fac, R: [[int]int]real): bool decreases 0 =
  (forall a: [int]int {fitsV(V, n, a)} :: fitsV(V, n, a) ==> sumF(J, H, m, H[m - 1].outcomes, a) == fval(F, a) * R[a])
  && (forall a: [int]int, c: int {a[id := c]} :: R[a[id := c]] == R[a]);
// with one decision left, or the last of several: the policy maximises expected utility, the total over the hidden variables
// parentsOf, as a name
define parS(L: [ve.Variable]VL, DD: [ve.Variable]bool, V: [int]ve.Variable, n: int, single: bool, PP: [int]bool): bool decreases 0 = parentsOf(L, DD, V, n, single, PP);
define bestJ(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, W: [int]real, hw: bool, b: int, el: [int]bool, PP: [int]bool, z: ve.Variable, F: Fac): bool decreases 0 =
  exists J: [[int]int]real, E: [int]ve.Evidence, Q: [int]ve.Variable, H: [int]ve.Variable, m: int, R: [[int]int]real {isJ(J, G, D, V, n, W, hw, b, 1, 0, E, 0), hidList(V, n, el, PP, E, 0, Q, 0, H, m), splitJ(J, H, m, V, n, z.id, F, R)} ::
    isJ(J, G, D, V, n, W, hw, b, 1, 0, E, 0) && hidList(V, n, el, PP, E, 0, Q, 0, H, m) && splitJ(J, H, m, V, n, z.id, F, R);

lemma split_at(G: [int]Fac, D: [int]bool, b: int, V: [int]ve.Variable, n: int, id: int, F: Fac, R: [int]bool, a: [int]int, y: real)
  requires splitBy(G, D, b, V, n, id, F, R) && fitsV(V, n, a) && y == prodR(G, R, b, a);
  ensures prodR(G, D, b, a) == fval(F, a) * y;
{ use rmul_cong(fval(F, a), prodR(G, R, b, a), fval(F, a), y); }
declare noEv(q: int): ve.Evidence;
define noU(Y: Fac, V: [int]ve.Variable, n: int): bool decreases 0 = forall q: int {Y.v[q]} :: 0 <= q < Y.n ==> notU(V, n, Y.v[q].id);
lemma polVars_up(Y: Fac, d: ve.Variable, G: [int]Fac, D: [int]bool, G0: [int]Fac, D0: [int]bool, V: [int]ve.Variable, n: int)
  requires polVars(Y, d, G, D, V, n);
  requires forall id: int {occ(G, D, id)} :: occ(G, D, id) ==> occ(G0, D0, id) && notU(V, n, id);
  requires forall w: [int]ve.Variable {consD(G0, D0, w)} :: consD(G0, D0, w) ==> consD(G, D, w);
  ensures polVars(Y, d, G0, D0, V, n) && noU(Y, V, n);
{
  fix q: int | 0 <= q < Y.n { assert occ(G, D, Y.v[q].id); } show occ(G0, D0, Y.v[q].id) && notU(V, n, Y.v[q].id);
  fix w: [int]ve.Variable, q: int | consD(G0, D0, w) && 0 <= q < Y.n { assert consD(G, D, w); } show Y.v[q] == w[Y.v[q].id];
}
func ve.VE.SolvePolicies(s, single) returns (r)
  modular C04;
  requires okVE(s) && agree(s) && okDeps(s) && utilsKnown(s) && utilsOne(s);
  requires @occ allOcc(V(s), nV(s), seq(s.eliminated), G(s), D(s));
  requires @decs forall i: int {V(s)[i]} :: 0 <= i < nV(s) && V(s)[i].nodeType == 1 ==> isx(G(s), D(s), V(s)[i]) && occ(G(s), D(s), V(s)[i].id);
  requires @own forall d: ve.Variable {vals(s.dependencies)[d]} :: dom(s.dependencies)[d] ==> ref(vals(s.dependencies)[d]) != ref(s.variables.variables);
  modifies *s.variables, s.factors, s.eliminated, forall j: int :: nV(s) > 0 && j == 0 ==> s.variables.variables;
  ensures @keep s.variables == old(s.variables) && s.variables.variables == old(s.variables.variables);
  ensures @none (forall i: int {old(V(s))[i]} :: 0 <= i < nV(s) ==> old(V(s))[i].nodeType != 1) <==> r == nil;
  ensures @shape r != nil ==> (forall d: ve.Variable {dom(r)[d]} :: dom(r)[d] ==> inR(old(V(s)), nV(s), d) && d.nodeType == 1 && polWf(vals(r)[d][1], s) && polVars(fac(vals(r)[d][1]), d, old(G(s)), old(D(s)), old(V(s)), nV(s)) && noU(fac(vals(r)[d][1]), old(V(s)), nV(s)));
  ensures @all !single ==> (forall i: int {old(V(s))[i]} :: 0 <= i < nV(s) && old(V(s))[i].nodeType == 1 ==> r != nil && hasPolicy(s, r, old(V(s))[i], old(V(s)), nV(s)));
  ensures @best r != nil ==> (exists z: ve.Variable, PP: [int]bool {inR(old(V(s)), nV(s), z), bestJ(old(G(s)), old(D(s)), old(V(s)), nV(s), old(seq(s.weights)), s.weights != nil, old(cnt0(s)), old(seq(s.eliminated)), PP, z, fac(vals(r)[z][0]))} ::
     inR(old(V(s)), nV(s), z) && z.nodeType == 1 && hasPolicy(s, r, z, old(V(s)), nV(s)) && (single ==> (forall d: ve.Variable {dom(r)[d]} :: dom(r)[d] ==> d == z))
     && parS(old(dl(s.dependencies)), old(dom(s.dependencies)), old(V(s)), nV(s), single, PP)
     && bestJ(old(G(s)), old(D(s)), old(V(s)), nV(s), old(seq(s.weights)), s.weights != nil, old(cnt0(s)), old(seq(s.eliminated)), PP, z, fac(vals(r)[z][0])));
  entry {
    let G0 = G(s); let D0 = D(s); let b = cnt0(s); let V0 = V(s); let n = nV(s); let el0 = seq(s.eliminated); let W = seq(s.weights); let hw = s.weights != nil;
    let L = dl(s.dependencies); let DD = dom(s.dependencies);
    obtain vf: [int]ve.Variable :: consD(G0, D0, vf);
    obtain rk: [int]int :: ranked(L, DD, rk);
  }
  aftercall getDecisions { let dc = seq($r); let nd = len($r); 
    if nd > 0 { assert V0[dc[0].index].nodeType == 1; }
    fix i: int | 0 <= i < n && V0[i].nodeType == 1 { assert inR(dc, nd, V0[i]); obtain q: int :: 0 <= q < nd && dc[q] == V0[i]; } show nd > 0;
  }
  beforecall sumUtilities {
    let E0 = lam q: int :: noEv(q);
    let J = lam a: [int]int :: jointQ(G0, D0, V0, n, W, hw, b, 1, 0, a);
    fix a: [int]int | true { assert updE(E0, 0, a) == a; } show J[a] == jointQ(G0, D0, V0, n, W, hw, b, 1, 0, updE(E0, 0, a));
    assert isJ(J, G0, D0, V0, n, W, hw, b, 1, 0, E0, 0);
    let DE = and2(D(s), utilSet(G(s), V(s), nV(s))); let DN = minus(D(s), utilSet(G(s), V(s), nV(s))); let WK = weightsOf(G(s), V(s), nV(s), seq(s.weights), s.weights != nil);
    fix a: [int]int | fitsV(V0, n, a) {
      use prodN_R(G0, D0, V0, n, false, 0, b, a, DN);
      use addU_R(G0, D0, V0, n, W, hw, b, a, DE, WK);
    } show addR(G0, DE, WK, b, a) == addU(G0, D0, V0, n, W, hw, b, a) && prodR(G0, DN, b, a) == prodN(G0, D0, V0, n, false, 0, b, a);
    if nU(V0, n) == 0 {
      fix i: int | 0 <= i < n { use nU_bound(V0, i, n); use nU_bound(V0, 0, i); } show V0[i].nodeType != 2;
      fix k: int | true { } show !hasU(G0[k], V0, n, false, 0);
      fix a: [int]int | fitsV(V0, n, a) { use prodN_R(G0, D0, V0, n, false, 0, b, a, D0); } show prodR(G0, D0, b, a) == prodN(G0, D0, V0, n, false, 0, b, a);
    } else { use nU_bound(V0, 0, n); }
  }
  aftercall sumUtilities {
    let G2 = G(s); let D2 = D(s); let b2 = cnt0(s); let el2 = seq(s.eliminated);
    assert V(s) == V0 && dl(s.dependencies) == L && dom(s.dependencies) == DD;
    assert consD(G2, D2, vf);
    fix a: [int]int | fitsV(V0, n, a) {
      let pN = prodN(G0, D0, V0, n, false, 0, b, a); let sU = addU(G0, D0, V0, n, W, hw, b, a);
      if nU(V0, n) > 0 { use rmul_cong(addR(G0, DE, WK, b, a), prodR(G0, DN, b, a), sU, pN); assert prodR(G2, D2, b2, a) == sU * pN; } else { assert nU(V0, n) == 0; assert prodR(G2, D2, b2, a) == pN; }
      assert J[a] == jointQ(G0, D0, V0, n, W, hw, b, 1, 0, a);
    } show prodR(G2, D2, b2, a) == J[a];
    fix i: int | 0 <= i < n && V0[i].nodeType != 2 && occ(G0, D0, V0[i].id) { } show occ(G2, D2, V0[i].id);
    fix i: int | 0 <= i < n && V0[i].nodeType == 0 { } show el2[i] <==> el0[i];
    fix j: int | 0 <= j < n && V0[j].nodeType == 0 && !el2[j] { assert occ(G0, D0, V0[j].id); } show occ(G2, D2, V0[j].id);
    assert allOcc(V0, n, el2, G2, D2);
  }
  aftercall eliminateHidden {
    let G3 = G(s); let D3 = D(s); let b3 = cnt0(s); let el3 = seq(s.eliminated); let E = seq($a1); let Q = seq($a2);
    obtain PP: [int]bool, H: [int]ve.Variable, m: int ::
      hidList(V0, n, el2, PP, E, 0, Q, 0, H, m) && parentsOf(L, DD, V0, n, single, PP)
      && (forall a: [int]int {fitsV(V0, n, a)} :: fitsV(V0, n, a) ==> prodR(G3, D3, b3, a) == sumH(G2, D2, b2, H, m, H[m - 1].outcomes, a))
      && (forall id: int {occ(G3, D3, id)} {occ(G2, D2, id)} :: occ(G3, D3, id) <==> occ(G2, D2, id) && !inIds(H, m, id))
      && (forall i: int {el3[i]} :: 0 <= i < n ==> (el3[i] <==> el2[i] || inIds(H, m, V0[i].id)));
    assert parS(L, DD, V0, n, single, PP);
    use hidList_el(V0, n, el2, el0, PP, E, 0, Q, 0, H, m);
    fix a: [int]int | fitsV(V0, n, a) { use sumH_F(G2, D2, b2, J, V0, n, H, m, H[m - 1].outcomes, a); } show prodR(G3, D3, b3, a) == sumF(J, H, m, H[m - 1].outcomes, a);
    assert V(s) == V0;
    assert consD(G3, D3, vf);
    use elim_step(V0, n, el2, el3, PP, E, 0, Q, 0, H, m, G2, D2, G3, D3);
    fix q: int | 0 <= q < nd {
      let z = dc[q]; let vx = vf[z.id := z];
      assert V0[z.index] == z;
      assert isx(G0, D0, z);
      fix k: int, q: int | D0[k] && 0 <= q < G0[k].n { } show G0[k].v[q] == vx[G0[k].v[q].id];
      assert consD(G0, D0, vx);
      assert consD(G2, D2, vx);
      assert consD(G3, D3, vx);
    } show isx(G3, D3, dc[q]);
    fix q: int | 0 <= q < nd { let z = dc[q]; assert V0[z.index] == z; assert occ(G0, D0, z.id); assert occ(G2, D2, z.id); } show occ(G3, D3, dc[q].id);
    fix id: int | occ(G3, D3, id) {
      assert occ(G2, D2, id);
      if nU(V0, n) == 0 { fix i: int | 0 <= i < n { use nU_bound(V0, i, n); use nU_bound(V0, 0, i); } show V0[i].nodeType != 2; }
    } show occ(G0, D0, id) && notU(V0, n, id);
    fix w: [int]ve.Variable | consD(G0, D0, w) { assert consD(G2, D2, w); } show consD(G3, D3, w);
    assert isJ(J, G0, D0, V0, n, W, hw, b, 1, 0, E, 0) by { fix a: [int]int | true { assert updE(E, 0, a) == a; } show J[a] == jointQ(G0, D0, V0, n, W, hw, b, 1, 0, updE(E, 0, a)); }
  }
  aftercall solvePolicies {
    let z = dc[nd - 1];
    assert inR(V0, n, z) by { assert V0[z.index] == z; }
    let F = fac(vals($r)[z][0]);
    obtain R0: [int]bool :: splitBy(G3, D3, b3, V0, n, z.id, F, R0);
    let R = lam a: [int]int :: prodR(G3, R0, b3, a);
    assert splitJ(J, H, m, V0, n, z.id, F, R) by {
      fix a: [int]int | fitsV(V0, n, a) { assert R[a] == prodR(G3, R0, b3, a); use split_at(G3, D3, b3, V0, n, z.id, F, R0, a, R[a]); } show sumF(J, H, m, H[m - 1].outcomes, a) == fval(F, a) * R[a];
      fix a: [int]int, c: int | true { assert R[a] == prodR(G3, R0, b3, a); assert prodR(G3, R0, b3, a[z.id := c]) == prodR(G3, R0, b3, a); assert R[a[z.id := c]] == prodR(G3, R0, b3, a[z.id := c]); } show R[a[z.id := c]] == R[a];
    }
    assert bestJ(G0, D0, V0, n, W, hw, b, el0, PP, z, F);
    fix d: ve.Variable | dom($r)[d] {
      obtain q: int :: 0 <= q < nd && dc[q] == d;
      assert V0[d.index] == d;
      use polVars_up(fac(vals($r)[d][1]), d, G3, D3, G0, D0, V0, n);
    } show inR(V0, n, d) && d.nodeType == 1 && polVars(fac(vals($r)[d][1]), d, G0, D0, V0, n) && noU(fac(vals($r)[d][1]), V0, n);
    if !single { fix i: int | 0 <= i < n && V0[i].nodeType == 1 { assert inR(dc, nd, V0[i]); obtain q: int :: 0 <= q < nd && dc[q] == V0[i]; } show hasPolicy(s, $r, V0[i], V0, n); }
  }
