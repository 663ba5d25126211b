// network.go: solve and its front ends.

// acyclic: parents come before their children
define rankedN(FS: [int]bbn.Factor, M: int, GV: [int][int]str, rk: [str]int): bool decreases 0 =
  forall f: int, q: int {GV[f][q]} :: 0 <= f < M && 0 <= q < len(FS[f].Given) ==> rk[GV[f][q]] < rk[FS[f].For];
define hasTab(FS: [int]bbn.Factor, M: int, s: str): bool decreases 0 = exists f: int {FS[f]} :: 0 <= f < M && FS[f].For == s;
// a variable of this name is a utility variable
define nameU(V: [int]bbn.Variable, n: int, s: str): bool decreases 0 = exists i: int {V[i]} :: 0 <= i < n && V[i].NodeType == 2 && V[i].Name == s;
macro gvn(n) = lam f: int :: seq(fs(n)[f].Given);
// a network that can be solved: references resolve, acyclic, tables for all chance and utility variables, no utility among the parents of other variables
macro complete(n) = refsOK(n) && utilsTotal(n)
  && (exists rk: [str]int {rankedN(fs(n), nf(n), gvn(n), rk)} :: rankedN(fs(n), nf(n), gvn(n), rk))
  && (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && i != n.totalUtilityIndex && vs(n)[i].NodeType != 1 ==> hasTab(fs(n), nf(n), vs(n)[i].Name))
  && (forall f: int, q: int {seq(fs(n)[f].Given)[q]} :: 0 <= f < nf(n) && 0 <= q < len(fs(n)[f].Given) && nameU(vs(n), nv(n), seq(fs(n)[f].Given)[q]) ==> nameU(vs(n), nv(n), fs(n)[f].For) && isTot(n, f));
macro noUtilEv(n, evidence) = (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && vs(n)[i].NodeType == 2 ==> !dom(evidence)[vs(n)[i].Name]);

// the value is an outcome of the variable
define isOut(O: [int]str, c: int, x: str): bool decreases 0 = exists p: int {O[p]} :: 0 <= p < c && O[p] == x;
define evOne(e: ve.Evidence, s: str, x: str, NV: [str]ve.Variable, V: [int]bbn.Variable, OC: [int][int]str): bool decreases 0 =
  e.Variable == NV[s] && 0 <= e.Value < len(V[NV[s].id].Outcomes) && OC[NV[s].id][e.Value] == x && (forall p: int {OC[NV[s].id][p]} :: 0 <= p < e.Value ==> OC[NV[s].id][p] != x);
// the evidence list holds exactly the evidence, by outcome position
define evRel(E: [int]ve.Evidence, ne: int, ED: [str]bool, EV: [str]str, NV: [str]ve.Variable, V: [int]bbn.Variable, OC: [int][int]str): bool decreases 0 =
  (forall q: int {E[q]} :: 0 <= q < ne ==> (exists s: str {ED[s]} :: ED[s] && evOne(E[q], s, EV[s], NV, V, OC)))
  && (forall s: str {ED[s]} :: ED[s] ==> inEv(E, ne, NV[s].id));
// the solver holds exactly the network's tables, and policies of decisions that are not overridden
define wired(V: [int]bbn.Variable, N: int, t: int, FS: [int]bbn.Factor, M: int, GV: [int][int]str, TT: [int][int]real, PD: [str]bool, PF: [str]Fac, X: [str]bool,
    NV: [str]ve.Variable, G: [int]Fac, D: [int]bool, b: int, VV: [int]ve.Variable, nn: int): bool decreases 0 =
  nn == (t >= 0 ? N - 1 : N)
  && (forall i: int {V[i]} :: 0 <= i < N && i != t ==> VV[posn(t, i)] == NV[V[i].Name] && NV[V[i].Name].id == i && NV[V[i].Name].outcomes == len(V[i].Outcomes) && NV[V[i].Name].nodeType == (V[i].NodeType == 1 && PD[V[i].Name] ? 0 : V[i].NodeType))
  && (forall k: int {D[k]} :: D[k] ==> 0 <= k < b)
  && (forall f: int {FS[f]} :: 0 <= f < M && !(t >= 0 && FS[f].For == V[t].Name) && ntOf(V, NV, FS[f].For) != 1 ==>
      (exists k: int {D[k]} :: D[k] && tabRel(G[k], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V, NV, FS[f].For) == 0)))
  && (forall s: str {PD[s]} :: PD[s] && !X[s] ==> (exists k: int {D[k]} :: D[k] && polRel(G[k], PF[s], V, PD)))
  && (forall k: int {D[k]} :: D[k] ==> (exists f: int {FS[f]} :: 0 <= f < M && !(t >= 0 && FS[f].For == V[t].Name) && ntOf(V, NV, FS[f].For) != 1 && tabRel(G[k], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V, NV, FS[f].For) == 0))
      || (exists s: str {PD[s]} :: PD[s] && !X[s] && polRel(G[k], PF[s], V, PD)))
  && (forall k: int, k2: int {D[k], D[k2]} :: D[k] && D[k2] && k != k2 ==> G[k].v[G[k].n - 1].id != G[k2].v[G[k2].n - 1].id);
// weights of the total-utility node, by position among the solver's utility variables
define wWired(V: [int]bbn.Variable, N: int, t: int, TG: [int]str, ng: int, TW: [int]real, VV: [int]ve.Variable, W: [int]real): bool decreases 0 =
  forall i: int {V[i]} :: 0 <= i < N && i != t && V[i].NodeType == 2 ==> (exists p: int {TG[p]} :: 0 <= p < ng && TG[p] == V[i].Name && W[nU(VV, posn(t, i))] == TW[p]);
declare noFac(k: int): Fac;
macro polF(n) = lam s: str :: hasPol(n, s) ? fac(pol(n, s)) : noFac(0);
macro ttn(n) = lam f: int :: seq(fs(n)[f].Table);
macro ocn(n) = lam i: int :: seq(vs(n)[i].Outcomes);
macro exDom(evidence, ignore) = lam s: str :: ignore && dom(evidence)[s];
macro badEv(n, evidence) = (exists s: str {dom(evidence)[s]} :: dom(evidence)[s] && !(exists i: int {vs(n)[i]} :: 0 <= i < nv(n) && i != n.totalUtilityIndex && vs(n)[i].Name == s && isOut(seq(vs(n)[i].Outcomes), len(vs(n)[i].Outcomes), vals(evidence)[s])));
macro badQ(n, query) = (exists i: int {seq(query)[i]} :: 0 <= i < len(query) && !isName(vs(n), nv(n), n.totalUtilityIndex, seq(query)[i]));

macro modeN(utility, uv) = (utility ? (uv == "" ? 1 : 2) : 0);
macro exN(n, utility, uv) = (utility && uv != "" ? nvs(n.variableNames)[uv].id : 0);
// f holds, for every assignment, the sum over exactly the hidden variables of the product of the network's tables (times utility), at the evidence
macro answers(n, evidence, query, utility, uv, ignore, f) = (exists G: [int]Fac, D: [int]bool, b: int, E: [int]ve.Evidence, ne: int, Qv: [int]ve.Variable, J: [[int]int]real, PP: [int]bool, H: [int]ve.Variable, m: int
   {isJ(J, G, D, V(n.ve), nV(n.ve), seq(n.ve.weights), n.ve.weights != nil, b, modeN(utility, uv), exN(n, utility, uv), E, ne), hidList(V(n.ve), nV(n.ve), constarr(false), PP, E, ne, Qv, len(query), H, m)} ::
   wired(vs(n), nv(n), n.totalUtilityIndex, fs(n), nf(n), old(gvn(n)), old(ttn(n)), old(dom(n.policies)), old(polF(n)), old(exDom(evidence, ignore)), nvs(n.variableNames), G, D, b, V(n.ve), nV(n.ve))
   && evRel(E, ne, old(dom(evidence)), old(vals(evidence)), nvs(n.variableNames), vs(n), old(ocn(n)))
   && (forall i: int {seq(query)[i]} :: 0 <= i < len(query) ==> Qv[i] == nvs(n.variableNames)[seq(query)[i]])
   && isJ(J, G, D, V(n.ve), nV(n.ve), seq(n.ve.weights), n.ve.weights != nil, b, modeN(utility, uv), exN(n, utility, uv), E, ne)
   && hidList(V(n.ve), nV(n.ve), constarr(false), PP, E, ne, Qv, len(query), H, m)
   && parentsOf(dl(n.ve.dependencies), dom(n.ve.dependencies), V(n.ve), nV(n.ve), false, PP)
   && (forall a: [int]int {fitsV(V(n.ve), nV(n.ve), a)} :: fitsV(V(n.ve), nV(n.ve), a) ==> fval(fac(f), a) == sumF(J, H, m, H[m - 1].outcomes, a))
   && (forall id: int {hasV(fac(f), id)} :: hasV(fac(f), id) <==> occQ(G, D, V(n.ve), nV(n.ve), modeN(utility, uv), exN(n, utility, uv), id) && !inEv(E, ne, id) && !inIds(H, m, id)));
lemma tab_noU(X: Fac, NV: [str]ve.Variable, own: str, Gv: [int]str, m: int, T: [int]real, ch: bool, V: [int]bbn.Variable, N: int, VV: [int]ve.Variable, nn: int)
  requires 0 <= m && tabRel(X, NV, own, Gv, m, T, ch) && !nameU(V, N, own) && 0 <= NV[own].id < N && V[NV[own].id].Name == own;
  requires forall q: int {Gv[q]} :: 0 <= q < m ==> !nameU(V, N, Gv[q]) && 0 <= NV[Gv[q]].id < N && V[NV[Gv[q]].id].Name == Gv[q];
  requires forall p: int {VV[p]} :: 0 <= p < nn && VV[p].nodeType == 2 ==> 0 <= VV[p].id < N && V[VV[p].id].NodeType == 2;
  ensures !hasU(X, VV, nn, false, 0) && hasV(X, NV[own].id);
{
  assert X.v[m].id == NV[own].id;
  if hasU(X, VV, nn, false, 0) {
    obtain p: int :: 0 <= p < nn && VV[p].nodeType == 2 && hasV(X, VV[p].id);
    obtain j: int :: 0 <= j < X.n && X.v[j].id == VV[p].id;
    if j < m { assert X.v[j] == NV[Gv[j]]; assert nameU(V, N, Gv[j]); } else { assert nameU(V, N, own); }
  }
}
lemma tab_has(X: Fac, NV: [str]ve.Variable, own: str, Gv: [int]str, m: int, T: [int]real, ch: bool)
  requires 0 <= m && tabRel(X, NV, own, Gv, m, T, ch);
  ensures hasV(X, NV[own].id);
{ assert X.v[m].id == NV[own].id; }
lemma pol_noU(X: Fac, Y: Fac, V: [int]bbn.Variable, PD: [str]bool, VV: [int]ve.Variable, nn: int)
  requires polRel(X, Y, V, PD) && 1 <= Y.n && (forall q: int {Y.v[q]} :: 0 <= q < Y.n ==> V[Y.v[q].id].NodeType != 2);
  requires forall p: int {VV[p]} :: 0 <= p < nn && VV[p].nodeType == 2 ==> V[VV[p].id].NodeType == 2;
  ensures !hasU(X, VV, nn, false, 0) && hasV(X, Y.v[Y.n - 1].id);
{
  assert X.v[Y.n - 1].id == Y.v[Y.n - 1].id;
  if hasU(X, VV, nn, false, 0) {
    obtain p: int :: 0 <= p < nn && VV[p].nodeType == 2 && hasV(X, VV[p].id);
    obtain j: int :: 0 <= j < X.n && X.v[j].id == VV[p].id;
    assert X.v[j].id == Y.v[j].id;
  }
}
func bbn.Network.solve(n, evidence, query, utility, utilityVar, ignorePolicies) returns (r, err)
  property C01 C03;
  modular C10 C17;
  requires netOK(n) && okPols(n) && okPolVars(n) && complete(n) && noUtilEv(n, evidence);
  requires @one utility && utilityVar == "" ==> (forall i: int {vs(n)[i]} :: uNode(n, i) ==> len(vs(n)[i].Outcomes) == 1);
  modifies *n;
  ensures @same n.variables == old(n.variables) && n.factors == old(n.factors) && n.policies == old(n.policies) && n.totalUtilityIndex == old(n.totalUtilityIndex) && n.name == old(n.name) && n.info == old(n.info);
  ensures @errors err != nil <==> badEv(n, evidence) || badQ(n, query) || (utility && utilityVar != "" && !isName(vs(n), nv(n), n.totalUtilityIndex, utilityVar));
  ensures @ve err == nil ==> hasVE(n) && fresh(n.ve) && fresh(n.variableNames) && fresh(n.ve.variables) && okNm(n, n.variableNames) && okVars(n.ve);
  ensures @wf err == nil ==> r != nil && fresh(r) && wfD(r) && (forall q: int {seq(r.variables)[q]} :: 0 <= q < len(r.variables) ==> isV(n.ve, seq(r.variables)[q]) && seq(r.variables)[q] == V(n.ve)[seq(r.variables)[q].index]);
  ensures @weights err == nil ==> (n.ve.weights != nil <==> n.totalUtilityIndex >= 0) && (n.totalUtilityIndex >= 0 ==> wWired(vs(n), nv(n), n.totalUtilityIndex, seq(tot(n).Given), len(tot(n).Given), seq(tot(n).Table), V(n.ve), seq(n.ve.weights)));
  ensures @has err == nil && !utility ==> (forall i: int {seq(query)[i]} :: 0 <= i < len(query) && !old(dom(evidence))[seq(query)[i]] && nvs(n.variableNames)[seq(query)[i]].nodeType == 0 ==> hasV(fac(r), nvs(n.variableNames)[seq(query)[i]].id));
  ensures @result err == nil ==> answers(n, evidence, query, utility, utilityVar, ignorePolicies, r);
  entry { let V0 = vs(n); let N = nv(n); let t = n.totalUtilityIndex; let PD = dom(n.policies); let FS = fs(n); let M = nf(n); let GV = gvn(n); let TT = ttn(n); let PF = polF(n); let OC = ocn(n);
    let ED = dom(evidence); let EV = vals(evidence); let X = exDom(evidence, ignorePolicies); let tn = t >= 0 ? V0[t].Name : "";
    obtain rk: [str]int :: rankedN(FS, M, GV, rk); }
  aftercall toVE {
    let s = $r0; let nm = $r1; let NV = nvs(nm); let ND = dom(nm); let G0 = G(s); let D0 = D(s); let b0 = cnt0(s); let VV = V(s); let nn = nV(s);
    assert $r2 == nil;
    fix i: int | 0 <= i < N && i != t { } show ND[V0[i].Name] && NV[V0[i].Name].id == i && VV[posn(t, i)] == NV[V0[i].Name] && isVar(n, i, NV[V0[i].Name]);
    fix x: str | ND[x] { } show 0 <= NV[x].id < N && NV[x].id != t && V0[NV[x].id].Name == x;
    fix p: int | 0 <= p < nn { let i = t >= 0 && p >= t ? p + 1 : p; assert 0 <= i < N && i != t && posn(t, i) == p; assert VV[posn(t, i)] == NV[V0[i].Name]; } show VV[p].id == (t >= 0 && p >= t ? p + 1 : p) && 0 <= VV[p].id < N && VV[p].id != t && VV[p] == NV[V0[VV[p].id].Name] && (VV[p].nodeType == 2 <==> V0[VV[p].id].NodeType == 2);
    let vf = lam id: int :: VV[posn(t, id)];
    assert consD(G0, D0, vf);
    fix k: int, q: int | D0[k] && 0 <= q < G0[k].n { } show G0[k].v[q] == vf[G0[k].v[q].id] && 0 <= posn(t, G0[k].v[q].id) < nn;
    fix p: int | 0 <= p < nn { assert posn(t, VV[p].id) == p; } show isx(G0, D0, VV[p]);
    fix y: str | PD[y] && !X[y] { obtain k: int :: D0[k] && polRel(G0[k], fac(pol(n, y)), V0, PD); assert PF[y] == fac(pol(n, y)); } show exists k: int {D0[k]} :: D0[k] && polRel(G0[k], PF[y], V0, PD);
    fix f: int | 0 <= f < M && !(t >= 0 && FS[f].For == V0[t].Name) && ntOf(V0, NV, FS[f].For) != 1 { obtain k: int :: D0[k] && tabRel(G0[k], NV, FS[f].For, seq(FS[f].Given), len(FS[f].Given), seq(FS[f].Table), ntOf(V0, NV, FS[f].For) == 0); } show exists k: int {D0[k]} :: D0[k] && tabRel(G0[k], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
    fix k: int | D0[k] {
      if exists f: int {FS[f]} :: 0 <= f < M && !isTot(n, f) && dom(nm)[FS[f].For] && ntOf(V0, NV, FS[f].For) != 1 && tabRel(G0[k], NV, FS[f].For, seq(FS[f].Given), len(FS[f].Given), seq(FS[f].Table), ntOf(V0, NV, FS[f].For) == 0) {
        obtain f: int :: 0 <= f < M && !isTot(n, f) && ntOf(V0, NV, FS[f].For) != 1 && tabRel(G0[k], NV, FS[f].For, seq(FS[f].Given), len(FS[f].Given), seq(FS[f].Table), ntOf(V0, NV, FS[f].For) == 0);
        assert 0 <= f < M && !(t >= 0 && FS[f].For == V0[t].Name) && ntOf(V0, NV, FS[f].For) != 1 && tabRel(G0[k], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
      } else {
        obtain y: str :: PD[y] && !X[y] && polRel(G0[k], fac(pol(n, y)), V0, PD); assert PF[y] == fac(pol(n, y));
      }
    } show (exists f: int {FS[f]} :: 0 <= f < M && !(t >= 0 && FS[f].For == V0[t].Name) && ntOf(V0, NV, FS[f].For) != 1 && tabRel(G0[k], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0))
      || (exists y: str {PD[y]} :: PD[y] && !X[y] && polRel(G0[k], PF[y], V0, PD));
    assert wired(V0, N, t, FS, M, GV, TT, PD, PF, X, NV, G0, D0, b0, VV, nn);
    // decisions
    let L = dl(s.dependencies); let DD = dom(s.dependencies);
    fix d: ve.Variable, q: int | DD[d] && 0 <= q < L[d].n {
      obtain f: int :: 0 <= f < M && ND[FS[f].For] && d == NV[FS[f].For] && depRel(vals(s.dependencies)[d], NV, seq(FS[f].Given), len(FS[f].Given));
      assert L[d].v[q] == NV[GV[f][q]]; assert !isTot(n, f); assert ND[GV[f][q]]; assert rk[GV[f][q]] < rk[FS[f].For];
    } show 0 <= L[d].v[q].index < nn && L[d].v[q] == VV[L[d].v[q].index] && rk[V0[L[d].v[q].id].Name] < rk[V0[d.id].Name];
    let rk2 = lam id: int :: rk[V0[id].Name];
    assert ranked(L, DD, rk2);
    assert okDeps(s);
    // every chance variable has a table of its own, or a policy
    fix p: int | 0 <= p < nn && VV[p].nodeType == 0 && !X[V0[VV[p].id].Name] {
      let i = VV[p].id; let own = V0[i].Name;
      if V0[i].NodeType == 0 {
        assert hasTab(FS, M, own); obtain f: int :: 0 <= f < M && FS[f].For == own;
        assert !isTot(n, f);
        assert ntOf(V0, NV, own) == 0;
        obtain k: int :: D0[k] && tabRel(G0[k], NV, own, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, own) == 0);
        if nameU(V0, N, own) { obtain i2: int :: 0 <= i2 < N && V0[i2].NodeType == 2 && V0[i2].Name == own; assert i2 == i; }
        fix q: int | 0 <= q < len(FS[f].Given) { assert ND[GV[f][q]]; } show !nameU(V0, N, GV[f][q]) && 0 <= NV[GV[f][q]].id < N && V0[NV[GV[f][q]].id].Name == GV[f][q];
        use tab_noU(G0[k], NV, own, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, own) == 0, V0, N, VV, nn);
      } else {
        assert PD[own]; obtain k: int :: D0[k] && polRel(G0[k], PF[own], V0, PD);
        fix q: int | 0 <= q < PF[own].n { assert polVar(V0, PD, t, seq(pol(n, own).variables)[q]); } show V0[PF[own].v[q].id].NodeType != 2;
        use pol_noU(G0[k], PF[own], V0, PD, VV, nn);
      }
    } show occN(G0, D0, VV, nn, false, 0, VV[p].id);
    fix p: int | 0 <= p < nn && VV[p].nodeType == 2 {
      let i = VV[p].id; let own = V0[i].Name;
      assert hasTab(FS, M, own); obtain f: int :: 0 <= f < M && FS[f].For == own;
      assert ntOf(V0, NV, own) == 2;
      obtain k: int :: D0[k] && tabRel(G0[k], NV, own, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, own) == 0);
      use tab_has(G0[k], NV, own, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, own) == 0);
    } show occ(G0, D0, VV[p].id);
  }
  loop 0 {
    modifies ev;
    invariant @own fresh(ev) && (ref(ev) == pre(ref(ev)) || ref(ev) > pre(alloc()));
    invariant @only forall q: int {seq(ev)[q]} :: 0 <= q < len(ev) ==> (exists x: str {ED[x]} :: ED[x] && ND[x] && evOne(seq(ev)[q], x, EV[x], NV, V0, OC));
    invariant @all forall x: str {ED[x]} :: $seen[x] ==> ND[x] && inEv(seq(ev), len(ev), NV[x].id) && isOut(OC[NV[x].id], len(V0[NV[x].id].Outcomes), EV[x]);
    begin { let e0 = seq(ev); let n0 = len(ev); let S0 = $seen; let kx = $key; }
    end {
      let e1 = seq(ev);
      assert len(ev) == n0 + 1;
      fix q: int | 0 <= q < n0 { obtain x: str :: ED[x] && ND[x] && evOne(e0[q], x, EV[x], NV, V0, OC); assert e1[q] == e0[q]; } show exists x: str {ED[x]} :: ED[x] && ND[x] && evOne(e1[q], x, EV[x], NV, V0, OC);
      assert evOne(e1[n0], kx, EV[kx], NV, V0, OC);
      assert isOut(OC[NV[kx].id], len(V0[NV[kx].id].Outcomes), EV[kx]);
      fix x: str | S0[x] { obtain q: int :: 0 <= q < n0 && e0[q].Variable.id == NV[x].id; assert e1[q] == e0[q]; } show inEv(e1, len(ev), NV[x].id);
      assert inEv(e1, len(ev), NV[kx].id);
    }
    after { let E = seq(ev); let ne = len(ev);
      fix q: int | 0 <= q < ne { obtain x: str :: ED[x] && ND[x] && evOne(E[q], x, EV[x], NV, V0, OC); let i = NV[x].id; assert isVar(n, i, NV[V0[i].Name]); assert V0[i].NodeType != 2; assert posn(t, i) == NV[x].index; } show isx(G0, D0, E[q].Variable) && 0 <= E[q].Variable.index < nn && VV[E[q].Variable.index] == E[q].Variable && 0 <= E[q].Value < E[q].Variable.outcomes && notU(VV, nn, E[q].Variable.id);
      assert evRel(E, ne, ED, EV, NV, V0, OC);
    }
  }
  loop 1 {
    modifies q;
    invariant @q forall j: int {seq(q)[j]} {seq(query)[j]} :: 0 <= j < $k ==> ND[seq(query)[j]] && seq(q)[j] == NV[seq(query)[j]];
  }
  beforecall solve {
    assert $a0 == s && G(s) == G0 && D(s) == D0 && V(s) == VV && nV(s) == nn && cnt0(s) == b0;
    let Qv = seq($a2);
    fix p: int | 0 <= p < nn && VV[p].nodeType == 0 && !inEv(E, ne, VV[p].id) { if X[V0[VV[p].id].Name] { assert ED[V0[VV[p].id].Name]; } } show occN(G0, D0, VV, nn, false, 0, VV[p].id);
    assert consD(G0, D0, vf);
    assert dl(s.dependencies) == L && dom(s.dependencies) == DD; let el = seq(s.eliminated);
  }
  aftercall solve {
    assert V(s) == VV; assert dom(s.dependencies) == DD; assert dl(s.dependencies) == L;
    obtain J: [[int]int]real, PP: [int]bool, H: [int]ve.Variable, m: int :: isJ(J, G0, D0, VV, nn, seq(s.weights), s.weights != nil, b0, modeN(utility, utilityVar), exN(n, utility, utilityVar), E, ne)
      && hidList(VV, nn, el, PP, E, ne, Qv, len(query), H, m) && parentsOf(L, DD, VV, nn, false, PP)
      && (forall a: [int]int {fitsV(VV, nn, a)} :: fitsV(VV, nn, a) ==> fval(fac($r), a) == sumF(J, H, m, H[m - 1].outcomes, a))
      && (forall id: int {hasV(fac($r), id)} :: hasV(fac($r), id) <==> occQ(G0, D0, VV, nn, modeN(utility, utilityVar), exN(n, utility, utilityVar), id) && !inEv(E, ne, id) && !inIds(H, m, id));
    use hidList_el(VV, nn, el, constarr(false), PP, E, ne, Qv, len(query), H, m);
    assert wired(V0, N, t, FS, M, GV, TT, PD, PF, X, NV, G0, D0, b0, VV, nn);
    assert nvs(n.variableNames) == NV;
    if !utility {
      fix i: int | 0 <= i < len(query) && !ED[seq(query)[i]] && NV[seq(query)[i]].nodeType == 0 {
        let y = seq(query)[i]; assert ND[y]; let p = NV[y].index; assert Qv[i] == NV[y];
        assert V0[NV[y].id].Name == y; assert isVar(n, NV[y].id, NV[V0[NV[y].id].Name]); assert VV[posn(t, NV[y].id)] == NV[y]; assert 0 <= p < nn && VV[p] == NV[y];
        if inEv(E, ne, NV[y].id) { obtain q: int :: 0 <= q < ne && E[q].Variable.id == NV[y].id; obtain x: str :: ED[x] && ND[x] && evOne(E[q], x, EV[x], NV, V0, OC); assert V0[NV[x].id].Name == x; assert x == y; }
        assert occN(G0, D0, VV, nn, false, 0, VV[p].id);
        if inIds(H, m, NV[y].id) { obtain q: int :: 0 <= q < m && H[q].id == NV[y].id; assert hidV(VV, el, PP, E, ne, Qv, len(query), H[q].index); assert inIds(Qv, len(query), NV[y].id); }
      } show hasV(fac($r), NV[seq(query)[i]].id);
    }
  }

// everything of a network that its answers depend on
datatype Net {V: [int]bbn.Variable, N: int, t: int, FS: [int]bbn.Factor, M: int, GV: [int][int]str, TT: [int][int]real, OC: [int][int]str, PD: [str]bool, PF: [str]Fac, TG: [int]str, ng: int, TW: [int]real}
macro net(n) = Net(vs(n), nv(n), n.totalUtilityIndex, fs(n), nf(n), gvn(n), ttn(n), ocn(n), dom(n.policies), polF(n), seq(tot(n).Given), len(tot(n).Given), seq(tot(n).Table));
define modeS(utility: bool, uv: str): int decreases 0 = utility ? (uv == "" ? 1 : 2) : 0;
define exS(NV: [str]ve.Variable, utility: bool, uv: str): int decreases 0 = utility && uv != "" ? NV[uv].id : 0;
define parD(L: [ve.Variable]VL, DD: [ve.Variable]bool, V: [int]ve.Variable, n: int, PP: [int]bool): bool decreases 0 = parentsOf(L, DD, V, n, false, PP);
// F holds the answer to a query of the network S, NV being its variables in the solver; the same as "answers", without the network's solver fields
define ansP(S: Net, X: [str]bool, ED: [str]bool, EV: [str]str, Qs: [int]str, nq: int, utility: bool, uv: str, F: Fac, NV: [str]ve.Variable): bool decreases 0 =
  exists VV: [int]ve.Variable, nn: int, W: [int]real, hw: bool, L: [ve.Variable]VL, DD: [ve.Variable]bool, G: [int]Fac, D: [int]bool, b: int, E: [int]ve.Evidence, ne: int, Qv: [int]ve.Variable, J: [[int]int]real, PP: [int]bool, H: [int]ve.Variable, m: int
   {isJ(J, G, D, VV, nn, W, hw, b, modeS(utility, uv), exS(NV, utility, uv), E, ne), hidList(VV, nn, constarr(false), PP, E, ne, Qv, nq, H, m), parD(L, DD, VV, nn, PP)} ::
   wired(S.V, S.N, S.t, S.FS, S.M, S.GV, S.TT, S.PD, S.PF, X, NV, G, D, b, VV, nn)
   && (hw <==> S.t >= 0) && (utility && S.t >= 0 ==> wWired(S.V, S.N, S.t, S.TG, S.ng, S.TW, VV, W))
   && evRel(E, ne, ED, EV, NV, S.V, S.OC) && (forall s: str {ED[s]} :: ED[s] ==> 0 <= NV[s].id < S.N)
   && (forall i: int {Qs[i]} :: 0 <= i < nq ==> Qv[i] == NV[Qs[i]])
   && isJ(J, G, D, VV, nn, W, hw, b, modeS(utility, uv), exS(NV, utility, uv), E, ne)
   && hidList(VV, nn, constarr(false), PP, E, ne, Qv, nq, H, m)
   && parD(L, DD, VV, nn, PP)
   && (forall a: [int]int {fitsV(VV, nn, a)} :: fitsV(VV, nn, a) ==> fval(F, a) == sumF(J, H, m, H[m - 1].outcomes, a))
   && (forall id: int {hasV(F, id)} :: hasV(F, id) <==> occQ(G, D, VV, nn, modeS(utility, uv), exS(NV, utility, uv), id) && !inEv(E, ne, id) && !inIds(H, m, id));

lemma ans_intro(S: Net, X: [str]bool, ED: [str]bool, EV: [str]str, Qs: [int]str, nq: int, utility: bool, uv: str, F: Fac, NV: [str]ve.Variable,
    VV: [int]ve.Variable, nn: int, W: [int]real, hw: bool, L: [ve.Variable]VL, DD: [ve.Variable]bool, G: [int]Fac, D: [int]bool, b: int, E: [int]ve.Evidence, ne: int, Qv: [int]ve.Variable, J: [[int]int]real, PP: [int]bool, H: [int]ve.Variable, m: int)
  requires wired(S.V, S.N, S.t, S.FS, S.M, S.GV, S.TT, S.PD, S.PF, X, NV, G, D, b, VV, nn);
  requires (hw <==> S.t >= 0) && (utility && S.t >= 0 ==> wWired(S.V, S.N, S.t, S.TG, S.ng, S.TW, VV, W));
  requires evRel(E, ne, ED, EV, NV, S.V, S.OC) && (forall s: str {ED[s]} :: ED[s] ==> 0 <= NV[s].id < S.N);
  requires forall i: int {Qs[i]} {Qv[i]} :: 0 <= i < nq ==> Qv[i] == NV[Qs[i]];
  requires isJ(J, G, D, VV, nn, W, hw, b, modeS(utility, uv), exS(NV, utility, uv), E, ne);
  requires hidList(VV, nn, constarr(false), PP, E, ne, Qv, nq, H, m);
  requires parentsOf(L, DD, VV, nn, false, PP);
  requires forall a: [int]int {fitsV(VV, nn, a)} :: fitsV(VV, nn, a) ==> fval(F, a) == sumF(J, H, m, H[m - 1].outcomes, a);
  requires forall id: int {hasV(F, id)} :: hasV(F, id) <==> occQ(G, D, VV, nn, modeS(utility, uv), exS(NV, utility, uv), id) && !inEv(E, ne, id) && !inIds(H, m, id);
  ensures ansP(S, X, ED, EV, Qs, nq, utility, uv, F, NV);
{ assert parD(L, DD, VV, nn, PP); }
// query variables that can be reported: not observed, chance variables or solved decisions
macro askable(n, evidence, query) = (forall i: int, j: int {seq(query)[i], vs(n)[j]} :: 0 <= i < len(query) && 0 <= j < nv(n) && vs(n)[j].Name == seq(query)[i] ==> !dom(evidence)[seq(query)[i]] && (vs(n)[j].NodeType == 0 || (vs(n)[j].NodeType == 1 && hasPol(n, vs(n)[j].Name))));
// d holds the normalised marginals of f for variable x
define isMarg(d: [int]real, F: Fac, len: int, x: ve.Variable): bool decreases 0 = forall p: int {F.v[p]} :: 0 <= p < F.n && F.v[p].id == x.id ==> (exists M: [int]real {total(M, 0, x.outcomes)} ::
   (forall c: int {M[c]} :: 0 <= c < x.outcomes ==> M[c] == marg(F.d, F.v, F.n, p, c, len)) && (total(M, 0, x.outcomes) != 0.0 ==> (forall c: int {d[c]} :: 0 <= c < x.outcomes ==> d[c] == M[c] / total(M, 0, x.outcomes))));

func bbn.Network.SolveQuery(n, evidence, query, ignorePolicies) returns (r, f, err)
  property C01 C11;
  modular C10 C17;
  requires netOK(n) && okPols(n) && okPolVars(n) && complete(n) && noUtilEv(n, evidence) && askable(n, evidence, query);
  modifies *n;
  ensures @same n.variables == old(n.variables) && n.factors == old(n.factors) && n.policies == old(n.policies) && n.totalUtilityIndex == old(n.totalUtilityIndex) && n.name == old(n.name) && n.info == old(n.info);
  ensures @errors err != nil <==> badEv(n, evidence) || badQ(n, query);
  ensures @joint err == nil ==> f != nil && fresh(f) && wfD(f) && answers(n, evidence, query, false, "", ignorePolicies, f);
  ensures @ve err == nil ==> hasVE(n) && okNm(n, n.variableNames) && okVars(n.ve);
  ensures @marginals err == nil ==> r != nil && fresh(r) && (forall i: int {seq(query)[i]} :: 0 <= i < len(query) ==> dom(r)[seq(query)[i]] && allocated(vals(r)[seq(query)[i]]) && len(vals(r)[seq(query)[i]]) == vev(n, seq(query)[i]).outcomes
     && isMarg(seq(vals(r)[seq(query)[i]]), fac(f), len(f.data), vev(n, seq(query)[i])));
  ensures @has err == nil ==> (forall i: int {seq(query)[i]} :: 0 <= i < len(query) ==> dom(n.variableNames)[seq(query)[i]] && hasV(fac(f), vev(n, seq(query)[i]).id));
  ensures @answer err == nil ==> ansP(old(net(n)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), seq(query), len(query), false, "", fac(f), nvs(n.variableNames));
  entry { let S0 = net(n); let X0 = exDom(evidence, ignorePolicies); let ED0 = dom(evidence); let EV0 = vals(evidence); }
  aftercall solve { let F = fac($r0); let dl0 = len($r0.data); let NV = nvs(n.variableNames); let names = n.variableNames; let V1 = V(n.ve); if $r1 == nil {
    obtain G: [int]Fac, D: [int]bool, b: int, E: [int]ve.Evidence, ne: int, Qv: [int]ve.Variable, J: [[int]int]real, PP: [int]bool, H: [int]ve.Variable, m: int ::
     wired(S0.V, S0.N, S0.t, S0.FS, S0.M, S0.GV, S0.TT, S0.PD, S0.PF, X0, nvs(n.variableNames), G, D, b, V(n.ve), nV(n.ve))
     && evRel(E, ne, ED0, EV0, nvs(n.variableNames), vs(n), S0.OC)
     && (forall i: int {seq(query)[i]} :: 0 <= i < len(query) ==> Qv[i] == nvs(n.variableNames)[seq(query)[i]])
     && isJ(J, G, D, V(n.ve), nV(n.ve), seq(n.ve.weights), n.ve.weights != nil, b, modeN(false, ""), exN(n, false, ""), E, ne)
     && hidList(V(n.ve), nV(n.ve), constarr(false), PP, E, ne, Qv, len(query), H, m)
     && parentsOf(dl(n.ve.dependencies), dom(n.ve.dependencies), V(n.ve), nV(n.ve), false, PP)
     && (forall a: [int]int {fitsV(V(n.ve), nV(n.ve), a)} :: fitsV(V(n.ve), nV(n.ve), a) ==> fval(fac($r0), a) == sumF(J, H, m, H[m - 1].outcomes, a))
     && (forall id: int {hasV(fac($r0), id)} :: hasV(fac($r0), id) <==> occQ(G, D, V(n.ve), nV(n.ve), modeN(false, ""), exN(n, false, ""), id) && !inEv(E, ne, id) && !inIds(H, m, id));
    let NV9 = nvs(n.variableNames); fix s: str | ED0[s] { obtain i: int :: 0 <= i < nv(n) && i != n.totalUtilityIndex && vs(n)[i].Name == s; } show 0 <= NV9[s].id < S0.N;
    use ans_intro(S0, X0, ED0, EV0, seq(query), len(query), false, "", fac($r0), nvs(n.variableNames), V(n.ve), nV(n.ve), seq(n.ve.weights), n.ve.weights != nil, dl(n.ve.dependencies), dom(n.ve.dependencies), G, D, b, E, ne, Qv, J, PP, H, m);
  } }
  beforecall Marginal {
    let y = $a2; assert seq(query)[$k0] == y; assert dom(names)[y]; assert hasV(F, NV[y].id); let x = NV[y];
    fix j: int | 0 <= j < F.n { assert F.v[j] == V1[F.v[j].index]; } show F.v[j].id == x.id ==> F.v[j] == x;
  }
  aftercall Marginal { let m1 = seq($r.data); let c1 = len($r.data);
    obtain p: int :: 0 <= p < F.n && F.v[p].id == x.id;
    fix p2: int | 0 <= p2 < F.n && F.v[p2].id == x.id { } show p2 == p;
    fix c: int | 0 <= c < x.outcomes { } show m1[c] == marg(F.d, F.v, F.n, p, c, dl0);
    assert fac(f) == F;
  }
  aftercall Normalize { let d1 = seq($r.data);
    fix p2: int | 0 <= p2 < F.n && F.v[p2].id == x.id { assert p2 == p; assert total(m1, 0, x.outcomes) != 0.0 ==> (forall c: int {d1[c]} :: 0 <= c < x.outcomes ==> d1[c] == m1[c] / total(m1, 0, x.outcomes)); } show exists M: [int]real {total(M, 0, x.outcomes)} ::
      (forall c: int {M[c]} :: 0 <= c < x.outcomes ==> M[c] == marg(F.d, F.v, F.n, p2, c, dl0)) && (total(M, 0, x.outcomes) != 0.0 ==> (forall c: int {d1[c]} :: 0 <= c < x.outcomes ==> d1[c] == M[c] / total(M, 0, x.outcomes)));
    assert isMarg(d1, F, dl0, x) && len($r.data) == x.outcomes;
  }
  loop 0 {
    modifies result, *n.ve.variables;
    invariant @keep n.ve.variables.variables == pre(n.ve.variables.variables);
    invariant @f fac(f) == F && len(f.data) == dl0;
    invariant @done forall i: int {seq(query)[i]} :: 0 <= i < $k ==> dom(result)[seq(query)[i]] && allocated(vals(result)[seq(query)[i]]) && len(vals(result)[seq(query)[i]]) == NV[seq(query)[i]].outcomes && isMarg(seq(vals(result)[seq(query)[i]]), F, dl0, NV[seq(query)[i]]);
  }

func bbn.Network.SolveUtility(n, evidence, query, utilityVar, ignorePolicies) returns (r, err)
  property C03 C11;
  modular C10 C17;
  requires netOK(n) && okPols(n) && okPolVars(n) && complete(n) && noUtilEv(n, evidence);
  requires @one utilityVar == "" ==> (forall i: int {vs(n)[i]} :: uNode(n, i) ==> len(vs(n)[i].Outcomes) == 1);
  modifies *n;
  ensures @same n.variables == old(n.variables) && n.factors == old(n.factors) && n.policies == old(n.policies) && n.totalUtilityIndex == old(n.totalUtilityIndex) && n.name == old(n.name) && n.info == old(n.info);
  ensures @errors err != nil <==> badEv(n, evidence) || badQ(n, query) || (utilityVar != "" && !isName(vs(n), nv(n), n.totalUtilityIndex, utilityVar));
  ensures @ve err == nil ==> hasVE(n) && fresh(n.ve) && fresh(n.variableNames) && fresh(n.ve.variables) && okNm(n, n.variableNames) && okVars(n.ve);
  ensures @wf err == nil ==> r != nil && fresh(r) && wfD(r) && (forall q: int {seq(r.variables)[q]} :: 0 <= q < len(r.variables) ==> isV(n.ve, seq(r.variables)[q]) && seq(r.variables)[q] == V(n.ve)[seq(r.variables)[q].index]);
  ensures @weights err == nil ==> (n.ve.weights != nil <==> n.totalUtilityIndex >= 0) && (n.totalUtilityIndex >= 0 ==> wWired(vs(n), nv(n), n.totalUtilityIndex, seq(tot(n).Given), len(tot(n).Given), seq(tot(n).Table), V(n.ve), seq(n.ve.weights)));
  ensures @result err == nil ==> answers(n, evidence, query, true, utilityVar, ignorePolicies, r);
  ensures @answer err == nil ==> ansP(old(net(n)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), seq(query), len(query), true, utilityVar, fac(r), nvs(n.variableNames));
  entry { let S0 = net(n); let X0 = exDom(evidence, ignorePolicies); let ED0 = dom(evidence); let EV0 = vals(evidence); }
  aftercall solve { if $r1 == nil {
    obtain G: [int]Fac, D: [int]bool, b: int, E: [int]ve.Evidence, ne: int, Qv: [int]ve.Variable, J: [[int]int]real, PP: [int]bool, H: [int]ve.Variable, m: int ::
     wired(S0.V, S0.N, S0.t, S0.FS, S0.M, S0.GV, S0.TT, S0.PD, S0.PF, X0, nvs(n.variableNames), G, D, b, V(n.ve), nV(n.ve))
     && evRel(E, ne, ED0, EV0, nvs(n.variableNames), vs(n), S0.OC)
     && (forall i: int {seq(query)[i]} :: 0 <= i < len(query) ==> Qv[i] == nvs(n.variableNames)[seq(query)[i]])
     && isJ(J, G, D, V(n.ve), nV(n.ve), seq(n.ve.weights), n.ve.weights != nil, b, modeN(true, utilityVar), exN(n, true, utilityVar), E, ne)
     && hidList(V(n.ve), nV(n.ve), constarr(false), PP, E, ne, Qv, len(query), H, m)
     && parentsOf(dl(n.ve.dependencies), dom(n.ve.dependencies), V(n.ve), nV(n.ve), false, PP)
     && (forall a: [int]int {fitsV(V(n.ve), nV(n.ve), a)} :: fitsV(V(n.ve), nV(n.ve), a) ==> fval(fac($r0), a) == sumF(J, H, m, H[m - 1].outcomes, a))
     && (forall id: int {hasV(fac($r0), id)} :: hasV(fac($r0), id) <==> occQ(G, D, V(n.ve), nV(n.ve), modeN(true, utilityVar), exN(n, true, utilityVar), id) && !inEv(E, ne, id) && !inIds(H, m, id));
    let NV9 = nvs(n.variableNames); fix s: str | ED0[s] { obtain i: int :: 0 <= i < nv(n) && i != n.totalUtilityIndex && vs(n)[i].Name == s; } show 0 <= NV9[s].id < S0.N;
    use ans_intro(S0, X0, ED0, EV0, seq(query), len(query), true, utilityVar, fac($r0), nvs(n.variableNames), V(n.ve), nV(n.ve), seq(n.ve.weights), n.ve.weights != nil, dl(n.ve.dependencies), dom(n.ve.dependencies), G, D, b, E, ne, Qv, J, PP, H, m);
  } }
