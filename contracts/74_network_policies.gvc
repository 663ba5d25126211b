// network.go: SolvePolicies.

// decisions without a policy among the first j variables
define cntO(V: [int]bbn.Variable, PD: [str]bool, j: int): int decreases j = j <= 0 ? 0 : cntO(V, PD, j - 1) + (V[j - 1].NodeType == 1 && !PD[V[j - 1].Name] ? 1 : 0);
lemma cntO_nn(V: [int]bbn.Variable, PD: [str]bool, j: int)
  ensures 0 <= cntO(V, PD, j);
  decreases j;
{ if j > 0 { use cntO_nn(V, PD, j - 1); } }
lemma cntO_pos(V: [int]bbn.Variable, PD: [str]bool, j: int, i: int)
  requires 0 <= i < j && V[i].NodeType == 1 && !PD[V[i].Name];
  ensures 1 <= cntO(V, PD, j);
  decreases j;
{ use cntO_nn(V, PD, j - 1); if i < j - 1 { use cntO_pos(V, PD, j - 1, i); } }
lemma cntO_le(V: [int]bbn.Variable, PD: [str]bool, PE: [str]bool, j: int)
  requires forall s: str {PD[s]} {PE[s]} :: PD[s] ==> PE[s];
  ensures cntO(V, PE, j) <= cntO(V, PD, j);
  decreases j;
{ if j > 0 { use cntO_le(V, PD, PE, j - 1); assert PD[V[j - 1].Name] ==> PE[V[j - 1].Name]; } }
lemma cntO_less(V: [int]bbn.Variable, PD: [str]bool, PE: [str]bool, j: int, i: int)
  requires (forall s: str {PD[s]} {PE[s]} :: PD[s] ==> PE[s]) && 0 <= i < j && V[i].NodeType == 1 && !PD[V[i].Name] && PE[V[i].Name];
  ensures cntO(V, PE, j) < cntO(V, PD, j);
  decreases j;
{ use cntO_le(V, PD, PE, j - 1); assert PD[V[j - 1].Name] ==> PE[V[j - 1].Name]; if i < j - 1 { use cntO_less(V, PD, PE, j - 1, i); } }
lemma cntO_D(V: [int]bbn.Variable, PD: [str]bool, j: int)
  requires forall s: str {PD[s]} :: !PD[s];
  ensures cntO(V, PD, j) == cntD(V, j);
  decreases j;
{ if j > 0 { use cntO_D(V, PD, j - 1); assert !PD[V[j - 1].Name]; } }

// every decision is a parent of some table of a chance or utility variable
define infl(FS: [int]bbn.Factor, M: int, GV: [int][int]str, V: [int]bbn.Variable, N: int, t: int, s: str): bool decreases 0 =
  exists f: int, q: int {GV[f][q]} :: 0 <= f < M && 0 <= q < len(FS[f].Given) && GV[f][q] == s && !(t >= 0 && FS[f].For == V[t].Name) && !nameD(V, N, FS[f].For);
define nameD(V: [int]bbn.Variable, n: int, s: str): bool decreases 0 = exists i: int {V[i]} :: 0 <= i < n && V[i].NodeType == 1 && V[i].Name == s;
macro influences(n) = (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && vs(n)[i].NodeType == 1 ==> infl(fs(n), nf(n), gvn(n), vs(n), nv(n), n.totalUtilityIndex, vs(n)[i].Name));

// the solver's list of observed variables per decision is the network's
define depsW(L: [ve.Variable]VL, DD: [ve.Variable]bool, NV: [str]ve.Variable, V: [int]bbn.Variable, t: int, FS: [int]bbn.Factor, M: int, GV: [int][int]str): bool decreases 0 =
  (forall d: ve.Variable {DD[d]} :: DD[d] ==> (exists f: int {FS[f]} :: 0 <= f < M && d == NV[FS[f].For] && L[d].n == len(FS[f].Given) && (forall q: int {GV[f][q]} :: 0 <= q < len(FS[f].Given) ==> L[d].v[q] == NV[GV[f][q]])))
  && (forall f: int {FS[f]} :: 0 <= f < M && !(t >= 0 && FS[f].For == V[t].Name) && NV[FS[f].For].nodeType == 1 ==> DD[NV[FS[f].For]]);
// Y is uniform over the maximisers of a table F of decision s, where, in the network S with the decisions in PD replaced by the policies PF,
// F is the hidden-variable sum of joint probability times total utility up to a factor that does not depend on the decision
define bestOf(S: Net, PD: [str]bool, PF: [str]Fac, single: bool, s: str, Y: Fac): bool decreases 0 =
  exists NV: [str]ve.Variable, G: [int]Fac, D: [int]bool, b: int, VV: [int]ve.Variable, nn: int, W: [int]real, hw: bool, L: [ve.Variable]VL, DD: [ve.Variable]bool, PP: [int]bool, F: Fac
   {wired(S.V, S.N, S.t, S.FS, S.M, S.GV, S.TT, PD, PF, emptyset(str), NV, G, D, b, VV, nn), bestJ(G, D, VV, nn, W, hw, b, constarr(false), PP, NV[s], F), parS(L, DD, VV, nn, single, PP)} ::
   wired(S.V, S.N, S.t, S.FS, S.M, S.GV, S.TT, PD, PF, emptyset(str), NV, G, D, b, VV, nn)
   && (hw <==> S.t >= 0) && (S.t >= 0 ==> wWired(S.V, S.N, S.t, S.TG, S.ng, S.TW, VV, W))
   && depsW(L, DD, NV, S.V, S.t, S.FS, S.M, S.GV) && parS(L, DD, VV, nn, single, PP)
   && NV[s].nodeType == 1 && bestJ(G, D, VV, nn, W, hw, b, constarr(false), PP, NV[s], F) && polOK(F, Y, VV, nn, NV[s]);
lemma best_intro(S: Net, PD: [str]bool, PF: [str]Fac, single: bool, s: str, Y: Fac, NV: [str]ve.Variable, G: [int]Fac, D: [int]bool, b: int, VV: [int]ve.Variable, nn: int, W: [int]real, hw: bool, L: [ve.Variable]VL, DD: [ve.Variable]bool, PP: [int]bool, F: Fac)
  requires wired(S.V, S.N, S.t, S.FS, S.M, S.GV, S.TT, PD, PF, emptyset(str), NV, G, D, b, VV, nn);
  requires (hw <==> S.t >= 0) && (S.t >= 0 ==> wWired(S.V, S.N, S.t, S.TG, S.ng, S.TW, VV, W));
  requires depsW(L, DD, NV, S.V, S.t, S.FS, S.M, S.GV) && parS(L, DD, VV, nn, single, PP);
  requires NV[s].nodeType == 1 && bestJ(G, D, VV, nn, W, hw, b, constarr(false), PP, NV[s], F) && polOK(F, Y, VV, nn, NV[s]);
  ensures bestOf(S, PD, PF, single, s, Y);
{ }
// the policy Y of s was best when the decisions in PD0 had the policies PF0, which are among those in PD, PF
define stepOf(S: Net, PD: [str]bool, PF: [str]Fac, s: str, Y: Fac): bool decreases 0 =
  exists PD0: [str]bool, PF0: [str]Fac {bestOf(S, PD0, PF0, true, s, Y)} :: bestOf(S, PD0, PF0, true, s, Y) && !PD0[s] && (forall x: str {PD0[x]} {PF0[x]} :: PD0[x] ==> PD[x] && PF0[x] == PF[x]);
define firstOf(S: Net, single: bool, s: str, Y: Fac): bool decreases 0 =
  exists PD0: [str]bool, PF0: [str]Fac {bestOf(S, PD0, PF0, single, s, Y)} :: bestOf(S, PD0, PF0, single, s, Y) && (forall x: str {PD0[x]} :: !PD0[x]);
lemma step_mono(S: Net, PD: [str]bool, PF: [str]Fac, PD2: [str]bool, PF2: [str]Fac, s: str, Y: Fac)
  requires stepOf(S, PD, PF, s, Y) && (forall x: str {PD[x]} {PD2[x]} :: PD[x] ==> PD2[x]) && (forall x: str {PF[x]} {PF2[x]} :: PD[x] ==> PF2[x] == PF[x]);
  ensures stepOf(S, PD2, PF2, s, Y);
{ obtain PD0: [str]bool, PF0: [str]Fac :: bestOf(S, PD0, PF0, true, s, Y) && !PD0[s] && (forall x: str {PD0[x]} {PF0[x]} :: PD0[x] ==> PD[x] && PF0[x] == PF[x]); assert bestOf(S, PD0, PF0, true, s, Y);
  fix x: str | PD0[x] { assert PD[x]; assert PF0[x] == PF[x]; } show PD2[x] && PF0[x] == PF2[x]; }

// the table returned for a policy: the decision's name, the names of the observed variables, the policy's entries
define polTab(r: bbn.Factor, gv: [int]str, T: [int]real, Y: Fac, s: str, V: [int]bbn.Variable): bool decreases 0 =
  r.For == s && len(r.Given) == Y.n - 1 && (forall q: int {gv[q]} {Y.v[q]} :: 0 <= q < Y.n - 1 ==> gv[q] == V[Y.v[q].id].Name)
  && (forall a: [int]int {dig(Y.v, a)} :: inrange(Y.v, Y.n, a) ==> T[S(Y.v, Y.n, dig(Y.v, a), 0)] == fval(Y, a));
// the variables of a policy just solved: the decision last, as in the network where the decisions in PD are solved
define polGood(V: [int]bbn.Variable, N: int, PD: [str]bool, t: int, Y: Fac, d: ve.Variable): bool decreases 0 =
  1 <= Y.n && Y.v[Y.n - 1] == d && (forall q: int {Y.v[q]} :: 0 <= q < Y.n ==> 0 <= Y.v[q].id < N && Y.v[q].id != t && V[Y.v[q].id].NodeType != 2 && polVar(V, PD, t, Y.v[q]));
define polIn(V: [int]bbn.Variable, N: int, PD: [str]bool, t: int, Y: Fac, s: str): bool decreases 0 =
  1 <= Y.n && (forall q: int {Y.v[q]} :: 0 <= q < Y.n ==> 0 <= Y.v[q].id < N && Y.v[q].id != t && polVar(V, PD, t, Y.v[q])) && V[Y.v[Y.n - 1].id].Name == s && V[Y.v[Y.n - 1].id].NodeType == 1;
lemma bestJ_el(G: [int]Fac, D: [int]bool, V: [int]ve.Variable, n: int, W: [int]real, hw: bool, b: int, el: [int]bool, el2: [int]bool, PP: [int]bool, z: ve.Variable, F: Fac)
  requires bestJ(G, D, V, n, W, hw, b, el, PP, z, F) && (forall i: int {el[i]} {el2[i]} :: 0 <= i < n ==> (el[i] <==> el2[i]));
  ensures bestJ(G, D, V, n, W, hw, b, el2, PP, z, F);
{
  obtain J: [[int]int]real, E: [int]ve.Evidence, Q: [int]ve.Variable, H: [int]ve.Variable, m: int, R: [[int]int]real :: isJ(J, G, D, V, n, W, hw, b, 1, 0, E, 0) && hidList(V, n, el, PP, E, 0, Q, 0, H, m) && splitJ(J, H, m, V, n, z.id, F, R);
  use hidList_el(V, n, el, el2, PP, E, 0, Q, 0, H, m);
}
macro allPol(n) = (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && vs(n)[i].NodeType == 1 ==> hasPol(n, vs(n)[i].Name));

macro idNm(n, nm) = (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && i != n.totalUtilityIndex ==> dom(nm)[vs(n)[i].Name] && vals(nm)[vs(n)[i].Name] != nil && vals(nm)[vs(n)[i].Name].Variable == vs(n)[i] && vals(nm)[vs(n)[i].Name].VeVariable.id == i);

func bbn.Network.SolvePolicies(n, stepwise) returns (r, err)
  property C04;
  modular C10 C11;
  requires netOK(n) && complete(n) && influences(n);
  requires @one forall i: int {vs(n)[i]} :: uNode(n, i) ==> len(vs(n)[i].Outcomes) == 1;
  modifies *n, n.policies;
  ensures @same n.variables == old(n.variables) && n.factors == old(n.factors) && n.policies == old(n.policies) && n.totalUtilityIndex == old(n.totalUtilityIndex) && n.name == old(n.name) && n.info == old(n.info);
  ensures @noerr err == nil;
  ensures @ve hasVE(n) && idNm(n, n.variableNames);
  ensures @pols okPols(n) && okPolVars(n);
  ensures @all allPol(n);
  ensures @first (exists i: int {vs(n)[i]} :: 0 <= i < nv(n) && vs(n)[i].NodeType == 1) ==> (exists s: str {dom(n.policies)[s]} :: hasPol(n, s) && firstOf(old(net(n)), stepwise, s, fac(pol(n, s))));
  ensures @steps stepwise ==> (forall s: str {dom(n.policies)[s]} :: hasPol(n, s) ==> stepOf(old(net(n)), dom(n.policies), polF(n), s, fac(pol(n, s))));
  ensures @result r != nil && fresh(r) && (forall s: str {dom(r)[s]} {dom(n.policies)[s]} :: dom(r)[s] <==> hasPol(n, s)) && (forall s: str {dom(r)[s]} :: dom(r)[s] ==> polTab(vals(r)[s], seq(vals(r)[s].Given), seq(vals(r)[s].Table), fac(pol(n, s)), s, vs(n)));
  entry { let S0 = net(n); let V0 = vs(n); let N = nv(n); let t = n.totalUtilityIndex; let FS = fs(n); let M = nf(n); let GV = gvn(n); let TT = ttn(n); let tn = t >= 0 ? V0[t].Name : "";
    let X = emptyset(str); let hasD = exists i: int {V0[i]} :: 0 <= i < N && V0[i].NodeType == 1;
    obtain rk: [str]int :: rankedN(FS, M, GV, rk); }
  loop 0 {
    modifies *n, n.policies;
    invariant @idx 0 <= i;
    invariant @same n.variables == old(n.variables) && n.factors == old(n.factors) && n.policies == old(n.policies) && n.totalUtilityIndex == old(n.totalUtilityIndex) && n.name == old(n.name) && n.info == old(n.info);
    invariant @ve i > 0 ==> hasVE(n) && idNm(n, n.variableNames) && fresh(n.ve) && fresh(n.ve.variables);
    invariant @pols okPols(n) && okPolVars(n);
    invariant @alloc forall s: str {dom(n.policies)[s]} :: hasPol(n, s) ==> allocated(pol(n, s).variables) && allocated(pol(n, s).data);
    invariant @start i == 0 ==> (forall s: str {dom(n.policies)[s]} :: !hasPol(n, s));
    invariant @count stepwise ==> i + cntO(V0, dom(n.policies), N) <= cntD(V0, N);
    invariant @all !stepwise && i > 0 ==> allPol(n);
    invariant @first i > 0 && hasD ==> (exists s: str {dom(n.policies)[s]} :: hasPol(n, s) && firstOf(S0, stepwise, s, fac(pol(n, s))));
    invariant @steps stepwise ==> (forall s: str {dom(n.policies)[s]} :: hasPol(n, s) ==> stepOf(S0, dom(n.policies), polF(n), s, fac(pol(n, s))));
    before { use cntO_D(V0, dom(n.policies), N); }
    after { fix j: int | 0 <= j < N && V0[j].NodeType == 1 && !hasPol(n, V0[j].Name) { if stepwise { use cntO_pos(V0, dom(n.policies), N, j); } } show false; }
  }
  aftercall toVE {
    let PD = dom(n.policies); let PF = polF(n); let PV = vals(n.policies); let i0 = i;
    let s = $r0; let nm = $r1; let NV = nvs(nm); let ND = dom(nm); let G0 = G(s); let D0 = D(s); let b0 = cnt0(s); let VV = V(s); let nn = nV(s);
    assert $r2 == nil;
    fix x: str, q: int {PF[x].v[q]} | PD[x] && 0 <= q < PF[x].n { assert hasPol(n, x); assert PF[x] == fac(pol(n, x)); assert polVar(V0, PD, t, seq(pol(n, x).variables)[q]); } show polVar(V0, PD, t, PF[x].v[q]) && 0 <= PF[x].v[q].id < N && PF[x].v[q].id != t;
    fix x: str | PD[x] { assert hasPol(n, x); assert PF[x] == fac(pol(n, x)); } show polIn(V0, N, PD, t, PF[x], x);
    fix i: int | 0 <= i < N && i != t { } show ND[V0[i].Name] && NV[V0[i].Name].id == i && VV[posn(t, i)] == NV[V0[i].Name] && isVar(n, i, NV[V0[i].Name]);
    fix x: str | ND[x] { } show 0 <= NV[x].id < N && NV[x].id != t && V0[NV[x].id].Name == x;
    fix p: int | 0 <= p < nn { let i = t >= 0 && p >= t ? p + 1 : p; assert 0 <= i < N && i != t && posn(t, i) == p; assert VV[posn(t, i)] == NV[V0[i].Name]; } show VV[p].id == (t >= 0 && p >= t ? p + 1 : p) && 0 <= VV[p].id < N && VV[p].id != t && VV[p] == NV[V0[VV[p].id].Name] && (VV[p].nodeType == 2 <==> V0[VV[p].id].NodeType == 2);
    let vf = lam id: int :: VV[posn(t, id)];
    assert consD(G0, D0, vf);
    fix k: int, q: int | D0[k] && 0 <= q < G0[k].n { } show G0[k].v[q] == vf[G0[k].v[q].id] && 0 <= posn(t, G0[k].v[q].id) < nn;
    fix p: int | 0 <= p < nn { assert posn(t, VV[p].id) == p; } show isx(G0, D0, VV[p]);
    fix y: str | PD[y] && !X[y] { obtain k: int :: D0[k] && polRel(G0[k], fac(pol(n, y)), V0, PD); assert PF[y] == fac(pol(n, y)); } show exists k: int {D0[k]} :: D0[k] && polRel(G0[k], PF[y], V0, PD);
    fix f: int | 0 <= f < M && !(t >= 0 && FS[f].For == V0[t].Name) && ntOf(V0, NV, FS[f].For) != 1 { obtain k: int :: D0[k] && tabRel(G0[k], NV, FS[f].For, seq(FS[f].Given), len(FS[f].Given), seq(FS[f].Table), ntOf(V0, NV, FS[f].For) == 0); } show exists k: int {D0[k]} :: D0[k] && tabRel(G0[k], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
    fix k: int | D0[k] {
      if exists f: int {FS[f]} :: 0 <= f < M && !isTot(n, f) && dom(nm)[FS[f].For] && ntOf(V0, NV, FS[f].For) != 1 && tabRel(G0[k], NV, FS[f].For, seq(FS[f].Given), len(FS[f].Given), seq(FS[f].Table), ntOf(V0, NV, FS[f].For) == 0) {
        obtain f: int :: 0 <= f < M && !isTot(n, f) && ntOf(V0, NV, FS[f].For) != 1 && tabRel(G0[k], NV, FS[f].For, seq(FS[f].Given), len(FS[f].Given), seq(FS[f].Table), ntOf(V0, NV, FS[f].For) == 0);
        assert 0 <= f < M && !(t >= 0 && FS[f].For == V0[t].Name) && ntOf(V0, NV, FS[f].For) != 1 && tabRel(G0[k], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
      } else {
        obtain y: str :: PD[y] && !X[y] && polRel(G0[k], fac(pol(n, y)), V0, PD); assert PF[y] == fac(pol(n, y));
      }
    } show (exists f: int {FS[f]} :: 0 <= f < M && !(t >= 0 && FS[f].For == V0[t].Name) && ntOf(V0, NV, FS[f].For) != 1 && tabRel(G0[k], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0))
      || (exists y: str {PD[y]} :: PD[y] && !X[y] && polRel(G0[k], PF[y], V0, PD));
    assert wired(V0, N, t, FS, M, GV, TT, PD, PF, X, NV, G0, D0, b0, VV, nn);
    // decisions
    let L = dl(s.dependencies); let DD = dom(s.dependencies);
    fix d: ve.Variable, q: int | DD[d] && 0 <= q < L[d].n {
      obtain f: int :: 0 <= f < M && ND[FS[f].For] && d == NV[FS[f].For] && depRel(vals(s.dependencies)[d], NV, seq(FS[f].Given), len(FS[f].Given));
      assert L[d].v[q] == NV[GV[f][q]]; assert !isTot(n, f); assert ND[GV[f][q]]; assert rk[GV[f][q]] < rk[FS[f].For];
    } show 0 <= L[d].v[q].index < nn && L[d].v[q] == VV[L[d].v[q].index] && rk[V0[L[d].v[q].id].Name] < rk[V0[d.id].Name];
    let rk2 = lam id: int :: rk[V0[id].Name];
    assert ranked(L, DD, rk2);
    assert okDeps(s);
    // every chance variable has a table of its own, or a policy
    fix p: int | 0 <= p < nn && VV[p].nodeType == 0 {
      let i = VV[p].id; let own = V0[i].Name;
      if V0[i].NodeType == 0 {
        assert hasTab(FS, M, own); obtain f: int :: 0 <= f < M && FS[f].For == own;
        assert !isTot(n, f);
        assert ntOf(V0, NV, own) == 0;
        obtain k: int :: D0[k] && tabRel(G0[k], NV, own, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, own) == 0);
        if nameU(V0, N, own) { obtain i2: int :: 0 <= i2 < N && V0[i2].NodeType == 2 && V0[i2].Name == own; assert i2 == i; }
        fix q: int | 0 <= q < len(FS[f].Given) { assert ND[GV[f][q]]; } show !nameU(V0, N, GV[f][q]) && 0 <= NV[GV[f][q]].id < N && V0[NV[GV[f][q]].id].Name == GV[f][q];
        use tab_noU(G0[k], NV, own, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, own) == 0, V0, N, VV, nn);
      } else {
        assert PD[own]; obtain k: int :: D0[k] && polRel(G0[k], PF[own], V0, PD);
        fix q: int | 0 <= q < PF[own].n { assert polVar(V0, PD, t, seq(pol(n, own).variables)[q]); } show V0[PF[own].v[q].id].NodeType != 2;
        use pol_noU(G0[k], PF[own], V0, PD, VV, nn);
      }
    } show occN(G0, D0, VV, nn, false, 0, VV[p].id);
    fix p: int | 0 <= p < nn && VV[p].nodeType == 2 {
      let i = VV[p].id; let own = V0[i].Name;
      assert hasTab(FS, M, own); obtain f: int :: 0 <= f < M && FS[f].For == own;
      assert ntOf(V0, NV, own) == 2;
      obtain k: int :: D0[k] && tabRel(G0[k], NV, own, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, own) == 0);
      use tab_has(G0[k], NV, own, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, own) == 0);
    } show occ(G0, D0, VV[p].id);
    // what SolvePolicies needs
    fix p: int | 0 <= p < nn && VV[p].nodeType == 0 { assert occN(G0, D0, VV, nn, false, 0, VV[p].id); } show occ(G0, D0, VV[p].id);
    assert allOcc(VV, nn, seq(s.eliminated), G0, D0);
    fix p: int | 0 <= p < nn && VV[p].nodeType == 1 {
      let y = V0[VV[p].id].Name; assert infl(FS, M, GV, V0, N, t, y);
      obtain f: int, q: int :: 0 <= f < M && 0 <= q < len(FS[f].Given) && GV[f][q] == y && !(t >= 0 && FS[f].For == V0[t].Name) && !nameD(V0, N, FS[f].For);
      assert ND[FS[f].For]; assert ntOf(V0, NV, FS[f].For) != 1 by { if V0[NV[FS[f].For].id].NodeType == 1 { assert nameD(V0, N, FS[f].For); } }
      obtain k: int :: D0[k] && tabRel(G0[k], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
      use tab_at(G0[k], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0, q);
      assert G0[k].v[q] == NV[y] && G0[k].v[q].id == VV[p].id; assert hasV(G0[k], VV[p].id);
    } show occ(G0, D0, VV[p].id);
    fix p: int | 0 <= p < nn && VV[p].nodeType == 2 { assert uNode(n, VV[p].id); assert isVar(n, VV[p].id, NV[V0[VV[p].id].Name]); } show VV[p].outcomes == 1;
    let W = seq(s.weights); let hw = s.weights != nil;
    assert t >= 0 ==> wWired(V0, N, t, S0.TG, S0.ng, S0.TW, VV, W);
    fix d: ve.Variable | DD[d] { obtain f: int :: 0 <= f < M && ND[FS[f].For] && d == NV[FS[f].For] && depRel(vals(s.dependencies)[d], NV, seq(FS[f].Given), len(FS[f].Given)); assert L[d].n == len(FS[f].Given);
      fix q: int | 0 <= q < len(FS[f].Given) { } show L[d].v[q] == NV[GV[f][q]]; }
      show exists f: int {FS[f]} :: 0 <= f < M && d == NV[FS[f].For] && L[d].n == len(FS[f].Given) && (forall q: int {GV[f][q]} :: 0 <= q < len(FS[f].Given) ==> L[d].v[q] == NV[GV[f][q]]);
    assert depsW(L, DD, NV, V0, t, FS, M, GV);
    let el1 = seq(s.eliminated);
  }
  beforecall SolvePolicies {
    assert $a0 == s && G(s) == G0 && D(s) == D0 && V(s) == VV && nV(s) == nn && cnt0(s) == b0 && seq(s.weights) == W && (s.weights != nil <==> hw) && seq(s.eliminated) == el1 && dl(s.dependencies) == L && dom(s.dependencies) == DD;
  }
  aftercall SolvePolicies {
    let ps = $r; let P1 = dom($r); let TF = lam d: ve.Variable :: *(vals(ps)[d][1]);
    fix x: str | PD[x] { assert PF[x] == fac(PV[x]); } show fac(PV[x]) == PF[x] && pol(n, x) == PV[x] && wfD(PV[x]) && PV[x].data != nil;
    if ps == nil {
      fix j: int | 0 <= j < N && V0[j].NodeType == 1 { assert j != t; assert isVar(n, j, NV[V0[j].Name]); let p = posn(t, j); assert 0 <= p < nn && VV[p].nodeType != 1; } show PD[V0[j].Name];
    } else {
      fix d: ve.Variable | P1[d] {
        let Y = fac(vals(ps)[d][1]); assert fac(TF[d]) == Y;
        obtain p: int :: 0 <= p < nn && VV[p] == d;
        assert polVars(Y, d, G0, D0, VV, nn);
        fix q: int | 0 <= q < Y.n { let u = Y.v[q].index; assert 0 <= u < nn && VV[u].id == Y.v[q].id; assert Y.v[q] == vf[Y.v[q].id]; assert notU(VV, nn, Y.v[q].id); assert VV[u].nodeType != 2; assert isVar(n, Y.v[q].id, NV[V0[Y.v[q].id].Name]); } show Y.v[q] == VV[posn(t, Y.v[q].id)] && 0 <= Y.v[q].id < N && Y.v[q].id != t && isVar(n, Y.v[q].id, Y.v[q]) && V0[Y.v[q].id].NodeType != 2;
        fix q: int | 0 <= q < Y.n { assert isVar(n, Y.v[q].id, Y.v[q]); } show polVar(V0, PD, t, Y.v[q]) && 0 <= Y.v[q].id < N && Y.v[q].id != t && V0[Y.v[q].id].NodeType != 2;
        assert polGood(V0, N, PD, t, Y, d);
        assert d == NV[V0[d.id].Name] && 0 <= d.id < N && V0[d.id].NodeType == 1 && !PD[V0[d.id].Name] by { assert isVar(n, d.id, NV[V0[d.id].Name]); }
      } show d.nodeType == 1 && 0 <= d.id < N && d.id != t && d == NV[V0[d.id].Name] && V0[d.id].NodeType == 1 && !PD[V0[d.id].Name] && polGood(V0, N, PD, t, fac(TF[d]), d) && wfD(TF[d]) && TF[d].data != nil && allocated(TF[d].variables) && allocated(TF[d].data);
    }
    assert nV(s) == nn; assert s.weights != nil <==> hw; assert s == n.ve;
    obtain z: ve.Variable, PP: [int]bool {inR(VV, nn, z), bestJ(G0, D0, VV, nn, W, hw, b0, el1, PP, z, fac(vals(ps)[z][0]))} | ps != nil :: inR(VV, nn, z) && z.nodeType == 1 && hasPolicy(s, ps, z, VV, nn) && (stepwise ==> (forall d: ve.Variable {dom(ps)[d]} :: dom(ps)[d] ==> d == z))
         && parS(L, DD, VV, nn, stepwise, PP) && bestJ(G0, D0, VV, nn, W, hw, b0, el1, PP, z, fac(vals(ps)[z][0]));
    let F = fac(vals(ps)[z][0]); let zn = V0[z.id].Name;
    if ps != nil {
      obtain p: int :: 0 <= p < nn && VV[p] == z;
      assert z == NV[zn] && P1[z] && 0 <= z.id < N && V0[z.id].NodeType == 1 && !PD[zn];
      use bestJ_el(G0, D0, VV, nn, W, hw, b0, el1, constarr(false), PP, z, F);
      use best_intro(S0, PD, PF, stepwise, zn, fac(TF[z]), NV, G0, D0, b0, VV, nn, W, hw, L, DD, PP, F);
      if !stepwise { fix j: int | 0 <= j < N && V0[j].NodeType == 1 { assert j != t; assert isVar(n, j, NV[V0[j].Name]); let p = posn(t, j); assert 0 <= p < nn && VV[p] == NV[V0[j].Name]; } show PD[V0[j].Name] || (ND[V0[j].Name] && NV[V0[j].Name].nodeType == 1 && P1[NV[V0[j].Name]]); }
    }
  }
  loop 1 {
    modifies n.policies;
    invariant @dom forall x: str {dom(n.policies)[x]} :: hasPol(n, x) <==> PD[x] || ($seen[x] && ND[x] && NV[x].nodeType == 1 && P1[NV[x]]);
    invariant @val forall x: str {vals(n.policies)[x]} :: hasPol(n, x) ==> pol(n, x) == (PD[x] ? PV[x] : TF[NV[x]]);
    begin { assert NV[$key] == vals(nm)[$key].VeVariable; if P1[NV[$key]] { assert V0[NV[$key].id].Name == $key; assert !PD[$key]; } }
    after {
      let PD2 = dom(n.policies); let PF2 = polF(n);
      fix x: str | PD2[x] && !PD[x] { assert @h1 hasPol(n, x); assert @h2 ND[x]; assert @h3 NV[x].nodeType == 1; assert @h4 P1[NV[x]]; assert @h5 V0[NV[x].id].Name == x; } show ND[x] && P1[NV[x]] && V0[NV[x].id].Name == x && V0[NV[x].id].NodeType == 1 && pol(n, x) == TF[NV[x]] && PF2[x] == fac(TF[NV[x]]);
      fix x: str | PD[x] { assert @g1 hasPol(n, x); assert @g2 pol(n, x) == PV[x]; assert @g3 fac(PV[x]) == PF[x]; assert @g4 PF2[x] == fac(pol(n, x)); } show PD2[x] && pol(n, x) == PV[x] && PF2[x] == PF[x];
      fix x: str | PD2[x] {
        let Y2 = PF2[x]; assert Y2 == fac(pol(n, x));
        if PD[x] { assert @g5 polIn(V0, N, PD, t, Y2, x); fix q: int | 0 <= q < Y2.n { let i = Y2.v[q].id; assert @g6 polVar(V0, PD, t, Y2.v[q]); assert @g7 PD[V0[i].Name] ==> PD2[V0[i].Name]; } show polVar(V0, PD2, t, Y2.v[q]) && 0 <= Y2.v[q].id < N && Y2.v[q].id != t; assert @g8 polIn(V0, N, PD2, t, Y2, x); assert @g9 wfD(pol(n, x)); }
        else { assert @g10 Y2 == fac(TF[NV[x]]); assert @g11 polGood(V0, N, PD, t, Y2, NV[x]); fix q: int | 0 <= q < Y2.n { assert @g12 polVar(V0, PD, t, Y2.v[q]); assert PD[V0[Y2.v[q].id].Name] ==> PD2[V0[Y2.v[q].id].Name]; } show polVar(V0, PD2, t, Y2.v[q]) && 0 <= Y2.v[q].id < N && Y2.v[q].id != t; assert 1 <= Y2.n && Y2.v[Y2.n - 1] == NV[x]; assert V0[Y2.v[Y2.n - 1].id].Name == x && V0[Y2.v[Y2.n - 1].id].NodeType == 1; assert @g13 polIn(V0, N, PD2, t, Y2, x); assert @g14 wfD(pol(n, x)); }
      } show polIn(V0, N, PD2, t, PF2[x], x) && wfD(pol(n, x)) && pol(n, x).data != nil;
      assert okPols(n); assert okPolVars(n);
      fix x: str | PD2[x] { if PD[x] { assert pol(n, x) == PV[x]; } else { assert pol(n, x) == TF[NV[x]]; } } show allocated(pol(n, x).variables) && allocated(pol(n, x).data);
      assert hasVE(n); assert idNm(n, n.variableNames) by { fix i: int | 0 <= i < N && i != t { } show dom(n.variableNames)[V0[i].Name] && vals(n.variableNames)[V0[i].Name].VeVariable.id == i; }
      assert PD2[zn];
      use cntO_less(V0, PD, PD2, N, z.id);
      assert bestOf(S0, PD, PF, stepwise, zn, PF2[zn]);
      if i0 == 0 { assert firstOf(S0, stepwise, zn, PF2[zn]); assert hasPol(n, zn) && firstOf(S0, stepwise, zn, fac(pol(n, zn))); }
      else { if hasD { obtain x: str :: PD[x] && firstOf(S0, stepwise, x, PF[x]); assert hasPol(n, x) && firstOf(S0, stepwise, x, fac(pol(n, x))); } }
      if stepwise {
        fix x: str | PD2[x] {
          if PD[x] { assert stepOf(S0, PD, PF, x, PF[x]); use step_mono(S0, PD, PF, PD2, PF2, x, PF[x]); }
          else { assert NV[x] == z; assert x == zn; assert bestOf(S0, PD, PF, true, x, PF2[x]); assert stepOf(S0, PD2, PF2, x, PF2[x]); }
        } show stepOf(S0, PD2, PF2, x, fac(pol(n, x)));
      } else { fix j: int | 0 <= j < N && V0[j].NodeType == 1 { assert PD[V0[j].Name] || (ND[V0[j].Name] && NV[V0[j].Name].nodeType == 1 && P1[NV[V0[j].Name]]); } show PD2[V0[j].Name]; }
    }
  }
  loop 2 {
    modifies result, *n.ve.variables;
    before { let PDz = dom(n.policies); let PFz = polF(n);
      if hasD { obtain x: str :: hasPol(n, x) && firstOf(S0, stepwise, x, fac(pol(n, x))); assert PFz[x] == fac(pol(n, x)); assert PDz[x] && firstOf(S0, stepwise, x, PFz[x]); }
      if stepwise { fix x: str | PDz[x] { assert fac(pol(n, x)) == PFz[x]; } show stepOf(S0, PDz, PFz, x, PFz[x]); }
      let NVz = nvs(n.variableNames); }
    invariant @keep n.ve.variables.variables == pre(n.ve.variables.variables);
    invariant @dom forall x: str {dom(result)[x]} :: dom(result)[x] <==> PDz[x] && $seen[x];
    invariant @tab forall x: str {dom(result)[x]} :: dom(result)[x] ==> polTab(vals(result)[x], seq(vals(result)[x].Given), seq(vals(result)[x].Table), PFz[x], x, V0) && allocated(vals(result)[x].Given) && allocated(vals(result)[x].Table);
    invariant @pf forall x: str {PFz[x]} :: PDz[x] ==> fac(pol(n, x)) == PFz[x];
    begin { let kx = $key; let Y = PFz[$key]; assert Y == fac(pol(n, $key)); let zl = Y.v[Y.n - 1]; assert 0 <= zl.id < N && V0[zl.id].Name == kx; assert NVz[V0[zl.id].Name].id == zl.id; let RT0 = lam x: str :: seq(vals(result)[x].Given); let RT1 = lam x: str :: seq(vals(result)[x].Table); let RD = dom(result); let RV = vals(result); }
    end {
      fix x: str | RD[x] && x != kx { assert vals(result)[x] == RV[x]; assert polTab(RV[x], RT0[x], RT1[x], PFz[x], x, V0); assert seq(vals(result)[x].Given) == RT0[x] && seq(vals(result)[x].Table) == RT1[x]; } show polTab(vals(result)[x], seq(vals(result)[x].Given), seq(vals(result)[x].Table), PFz[x], x, V0);
      let rr = vals(result)[kx]; assert rr.For == kx; assert len(rr.Given) == Y.n - 1; let rg = seq(rr.Given); let rt = seq(rr.Table);
      assert rt == T2;
      fix q: int | 0 <= q < Y.n - 1 { } show rg[q] == V0[Y.v[q].id].Name;
      fix a: [int]int | inrange(Y.v, Y.n, a) { } show rt[S(Y.v, Y.n, dig(Y.v, a), 0)] == fval(Y, a);
      assert polTab(rr, rg, rt, Y, kx, V0);
      assert polTab(vals(result)[kx], seq(vals(result)[kx].Given), seq(vals(result)[kx].Table), Y, kx, V0);
      fix x: str | RD[x] && x != kx { assert vals(result)[x] == RV[x]; } show allocated(vals(result)[x].Given) && allocated(vals(result)[x].Table);
      assert @ga allocated(vals(result)[kx].Given); assert @ta allocated(vals(result)[kx].Table);
      assert PFz[kx] == Y;
      fix x: str | dom(result)[x] { if x == kx { assert vals(result)[x] == rr; assert seq(vals(result)[x].Given) == rg; assert seq(vals(result)[x].Table) == rt; assert PFz[x] == Y; assert @k1 polTab(vals(result)[x], seq(vals(result)[x].Given), seq(vals(result)[x].Table), PFz[x], x, V0); } else { assert RD[x]; assert @k2 polTab(vals(result)[x], seq(vals(result)[x].Given), seq(vals(result)[x].Table), PFz[x], x, V0); } } show polTab(vals(result)[x], seq(vals(result)[x].Given), seq(vals(result)[x].Table), PFz[x], x, V0);
      fix x: str | dom(result)[x] { if x == kx { } else { assert RD[x]; } } show allocated(vals(result)[x].Given) && allocated(vals(result)[x].Table);
    }
    after { fix x: str | true { } show polF(n)[x] == PFz[x]; assert polF(n) == PFz;
      if hasD { obtain x: str :: PDz[x] && firstOf(S0, stepwise, x, PFz[x]); assert hasPol(n, x) && firstOf(S0, stepwise, x, fac(pol(n, x))); } 
      if stepwise { fix x: str | PDz[x] { assert stepOf(S0, PDz, PFz, x, PFz[x]); assert fac(pol(n, x)) == PFz[x]; } show stepOf(S0, dom(n.policies), polF(n), x, fac(pol(n, x))); } }
  }
  aftercall Rearrange {
    let w2 = seq($r.variables); let T2 = seq($r.data);
    fix a: [int]int | inrange(Y.v, Y.n, a) {
      fix q: int | 0 <= q < Y.n { assert w2[q] == w[q]; } show w2[q] == Y.v[q] && dig(w2, a)[q] == dig(Y.v, a)[q];
      use S_ext(w2, Y.n, dig(w2, a), dig(Y.v, a), 0);
      use S_extv(w2, Y.v, Y.n, dig(Y.v, a), 0);
      assert T2[S(w2, Y.n, dig(w2, a), 0)] == fval(Y, a);
    } show T2[S(Y.v, Y.n, dig(Y.v, a), 0)] == fval(Y, a);
  }
  loop 3 {
    modifies newVars;
    before { assert seq(variables) == Y.v && len(variables) == Y.n; assert idx == Y.n - 1 by { assert Y.v[Y.n - 1].id == zl.id; } }
    invariant @v 0 <= i <= idx && (forall q: int {seq(newVars)[q]} :: 0 <= q < i ==> seq(newVars)[q] == Y.v[q]);
  }
  loop 4 {
    modifies newVars;
    invariant @v i == Y.n && (forall q: int {seq(newVars)[q]} :: 0 <= q < Y.n - 1 ==> seq(newVars)[q] == Y.v[q]);
  }
  beforecall Rearrange {
    let w = seq($a2);
    fix q: int | 0 <= q < Y.n { } show w[q] == Y.v[q];
  }
  loop 5 {
    modifies given;
    invariant @v 0 <= i && (forall q: int {seq(given)[q]} :: 0 <= q < i ==> seq(given)[q] == V0[Y.v[q].id].Name);
  }
