// internal/tui/util.go and solve.go: the inference report.

// strings.Split: the parts are a function of the text and the separator
declare splitN(s: str, sep: str): int;
declare splitP(s: str, sep: str, i: int): str;
func strings.Split(s, sep) returns (r)
  trusted "standard library: the parts of s between the separators, a fresh slice";
  ensures fresh(r) && len(r) == splitN(s, sep) && (forall i: int {seq(r)[i]} :: 0 <= i < len(r) ==> seq(r)[i] == splitP(s, sep, i));

// position of the last entry for a name, or -1
define lastE(E: [int]str, n: int, x: str): int decreases n = n <= 0 ? -1 : (splitP(E[n - 1], "=", 0) == x ? n - 1 : lastE(E, n - 1, x));
func tui.ParseEvidence(evidence) returns (r, err)
  property C18;
  ensures @errors err == nil <==> (forall i: int {seq(evidence)[i]} :: 0 <= i < len(evidence) ==> splitN(seq(evidence)[i], "=") == 2);
  ensures @nil err != nil ==> r == nil;
  ensures @names err == nil ==> r != nil && fresh(r) && (forall x: str {dom(r)[x]} :: dom(r)[x] <==> lastE(seq(evidence), len(evidence), x) >= 0);
  ensures @values err == nil ==> (forall x: str {vals(r)[x]} :: dom(r)[x] ==> vals(r)[x] == splitP(seq(evidence)[lastE(seq(evidence), len(evidence), x)], "=", 1));
  loop 0 {
    modifies ev;
    invariant @two forall i: int {seq(evidence)[i]} :: 0 <= i < $k ==> splitN(seq(evidence)[i], "=") == 2;
    invariant @names forall x: str {dom(ev)[x]} :: dom(ev)[x] <==> lastE(seq(evidence), $k, x) >= 0;
    invariant @values forall x: str {vals(ev)[x]} :: dom(ev)[x] ==> vals(ev)[x] == splitP(seq(evidence)[lastE(seq(evidence), $k, x)], "=", 1);
  }

// two snapshots of a network that hold the same data
define sameNet(S: Net, T: Net): bool decreases 0 = S.V == T.V && S.N == T.N && S.t == T.t && S.FS == T.FS && S.M == T.M && S.PD == T.PD
  && (forall f: int {S.GV[f]} {T.GV[f]} {S.FS[f]} {T.FS[f]} :: 0 <= f < S.M ==> S.GV[f] == T.GV[f] && S.TT[f] == T.TT[f])
  && (forall i: int {S.OC[i]} {T.OC[i]} {S.V[i]} {T.V[i]} :: 0 <= i < S.N ==> S.OC[i] == T.OC[i])
  && (forall s: str {S.PF[s]} {T.PF[s]} :: S.PD[s] ==> S.PF[s] == T.PF[s])
  && (S.t >= 0 ==> S.TG == T.TG && S.ng == T.ng && S.TW == T.TW);
lemma wired_ext(S: Net, T: Net, X: [str]bool, NV: [str]ve.Variable, G: [int]Fac, D: [int]bool, b: int, VV: [int]ve.Variable, nn: int)
  requires sameNet(S, T) && wired(S.V, S.N, S.t, S.FS, S.M, S.GV, S.TT, S.PD, S.PF, X, NV, G, D, b, VV, nn);
  ensures wired(T.V, T.N, T.t, T.FS, T.M, T.GV, T.TT, T.PD, T.PF, X, NV, G, D, b, VV, nn);
{
  fix f: int | 0 <= f < S.M && !(S.t >= 0 && S.FS[f].For == S.V[S.t].Name) && ntOf(S.V, NV, S.FS[f].For) != 1 {
    obtain k: int :: D[k] && tabRel(G[k], NV, S.FS[f].For, S.GV[f], len(S.FS[f].Given), S.TT[f], ntOf(S.V, NV, S.FS[f].For) == 0);
  } show exists k: int {D[k]} :: D[k] && tabRel(G[k], NV, T.FS[f].For, T.GV[f], len(T.FS[f].Given), T.TT[f], ntOf(T.V, NV, T.FS[f].For) == 0);
  fix s: str | S.PD[s] && !X[s] { obtain k: int :: D[k] && polRel(G[k], S.PF[s], S.V, S.PD); } show exists k: int {D[k]} :: D[k] && polRel(G[k], T.PF[s], T.V, T.PD);
  fix k: int | D[k] {
    if exists f: int {S.FS[f]} :: 0 <= f < S.M && !(S.t >= 0 && S.FS[f].For == S.V[S.t].Name) && ntOf(S.V, NV, S.FS[f].For) != 1 && tabRel(G[k], NV, S.FS[f].For, S.GV[f], len(S.FS[f].Given), S.TT[f], ntOf(S.V, NV, S.FS[f].For) == 0) {
      obtain f: int :: 0 <= f < S.M && !(S.t >= 0 && S.FS[f].For == S.V[S.t].Name) && ntOf(S.V, NV, S.FS[f].For) != 1 && tabRel(G[k], NV, S.FS[f].For, S.GV[f], len(S.FS[f].Given), S.TT[f], ntOf(S.V, NV, S.FS[f].For) == 0);
      assert 0 <= f < T.M && !(T.t >= 0 && T.FS[f].For == T.V[T.t].Name) && ntOf(T.V, NV, T.FS[f].For) != 1 && tabRel(G[k], NV, T.FS[f].For, T.GV[f], len(T.FS[f].Given), T.TT[f], ntOf(T.V, NV, T.FS[f].For) == 0);
    } else { obtain s: str :: S.PD[s] && !X[s] && polRel(G[k], S.PF[s], S.V, S.PD); assert T.PD[s] && polRel(G[k], T.PF[s], T.V, T.PD); }
  } show (exists f: int {T.FS[f]} :: 0 <= f < T.M && !(T.t >= 0 && T.FS[f].For == T.V[T.t].Name) && ntOf(T.V, NV, T.FS[f].For) != 1 && tabRel(G[k], NV, T.FS[f].For, T.GV[f], len(T.FS[f].Given), T.TT[f], ntOf(T.V, NV, T.FS[f].For) == 0))
      || (exists s: str {T.PD[s]} :: T.PD[s] && !X[s] && polRel(G[k], T.PF[s], T.V, T.PD));
}
lemma evRel_ext(S: Net, T: Net, E: [int]ve.Evidence, ne: int, ED: [str]bool, EV: [str]str, NV: [str]ve.Variable)
  requires sameNet(S, T) && evRel(E, ne, ED, EV, NV, S.V, S.OC) && (forall s: str {ED[s]} :: ED[s] ==> 0 <= NV[s].id < S.N);
  ensures evRel(E, ne, ED, EV, NV, T.V, T.OC);
{
  fix q: int | 0 <= q < ne { obtain s: str :: ED[s] && evOne(E[q], s, EV[s], NV, S.V, S.OC); assert S.OC[NV[s].id] == T.OC[NV[s].id]; assert evOne(E[q], s, EV[s], NV, T.V, T.OC); } show exists s: str {ED[s]} :: ED[s] && evOne(E[q], s, EV[s], NV, T.V, T.OC);
}
lemma ans_ext(S: Net, T: Net, X: [str]bool, ED: [str]bool, EV: [str]str, Qs: [int]str, nq: int, utility: bool, uv: str, F: Fac, NV: [str]ve.Variable)
  property C18;
  requires sameNet(S, T) && ansP(S, X, ED, EV, Qs, nq, utility, uv, F, NV);
  ensures ansP(T, X, ED, EV, Qs, nq, utility, uv, F, NV);
{
  obtain VV: [int]ve.Variable, nn: int, W: [int]real, hw: bool, L: [ve.Variable]VL, DD: [ve.Variable]bool, G: [int]Fac, D: [int]bool, b: int, E: [int]ve.Evidence, ne: int, Qv: [int]ve.Variable, J: [[int]int]real, PP: [int]bool, H: [int]ve.Variable, m: int ::
   wired(S.V, S.N, S.t, S.FS, S.M, S.GV, S.TT, S.PD, S.PF, X, NV, G, D, b, VV, nn)
   && (hw <==> S.t >= 0) && (utility && S.t >= 0 ==> wWired(S.V, S.N, S.t, S.TG, S.ng, S.TW, VV, W))
   && evRel(E, ne, ED, EV, NV, S.V, S.OC) && (forall s: str {ED[s]} :: ED[s] ==> 0 <= NV[s].id < S.N)
   && (forall i: int {Qs[i]} :: 0 <= i < nq ==> Qv[i] == NV[Qs[i]])
   && isJ(J, G, D, VV, nn, W, hw, b, modeS(utility, uv), exS(NV, utility, uv), E, ne)
   && hidList(VV, nn, constarr(false), PP, E, ne, Qv, nq, H, m)
   && parD(L, DD, VV, nn, PP)
   && (forall a: [int]int {fitsV(VV, nn, a)} :: fitsV(VV, nn, a) ==> fval(F, a) == sumF(J, H, m, H[m - 1].outcomes, a))
   && (forall id: int {hasV(F, id)} :: hasV(F, id) <==> occQ(G, D, VV, nn, modeS(utility, uv), exS(NV, utility, uv), id) && !inEv(E, ne, id) && !inIds(H, m, id));
  use wired_ext(S, T, X, NV, G, D, b, VV, nn);
  use evRel_ext(S, T, E, ne, ED, EV, NV);
  use ans_intro(T, X, ED, EV, Qs, nq, utility, uv, F, NV, VV, nn, W, hw, L, DD, G, D, b, E, ne, Qv, J, PP, H, m);
}

// d is the posterior of variable q: the normalised marginal of the answer to the query for it alone
define postOf(S: Net, X: [str]bool, ED: [str]bool, EV: [str]str, q: str, d: [int]real): bool decreases 0 =
  exists Qs: [int]str, F: Fac, NV: [str]ve.Variable {ansP(S, X, ED, EV, Qs, 1, false, "", F, NV)} :: Qs[0] == q && ansP(S, X, ED, EV, Qs, 1, false, "", F, NV) && hasV(F, NV[q].id) && isMarg(d, F, P(F.v, F.n, 0), NV[q]);
// r is the number that answers a query without variables (not a number if decisions are left open)
define scalarOf(S: Net, X: [str]bool, ED: [str]bool, EV: [str]str, utility: bool, uv: str, r: real): bool decreases 0 =
  exists Qs: [int]str, F: Fac, NV: [str]ve.Variable {ansP(S, X, ED, EV, Qs, 0, utility, uv, F, NV)} :: ansP(S, X, ED, EV, Qs, 0, utility, uv, F, NV) && r == (P(F.v, F.n, 0) == 1 ? F.d[0] : nan());
lemma post_ext(S: Net, T: Net, X: [str]bool, ED: [str]bool, EV: [str]str, q: str, d: [int]real)
  requires sameNet(S, T) && postOf(S, X, ED, EV, q, d);
  ensures postOf(T, X, ED, EV, q, d);
{ obtain Qs: [int]str, F: Fac, NV: [str]ve.Variable :: Qs[0] == q && ansP(S, X, ED, EV, Qs, 1, false, "", F, NV) && hasV(F, NV[q].id) && isMarg(d, F, P(F.v, F.n, 0), NV[q]);
  use ans_ext(S, T, X, ED, EV, Qs, 1, false, "", F, NV); }
lemma scalar_ext(S: Net, T: Net, X: [str]bool, ED: [str]bool, EV: [str]str, utility: bool, uv: str, r: real)
  requires sameNet(S, T) && scalarOf(S, X, ED, EV, utility, uv, r);
  ensures scalarOf(T, X, ED, EV, utility, uv, r);
{ obtain Qs: [int]str, F: Fac, NV: [str]ve.Variable :: ansP(S, X, ED, EV, Qs, 0, utility, uv, F, NV) && r == (P(F.v, F.n, 0) == 1 ? F.d[0] : nan());
  use ans_ext(S, T, X, ED, EV, Qs, 0, utility, uv, F, NV); }
macro solvableN(n, evidence) = netOK(n) && okPols(n) && okPolVars(n) && complete(n) && noUtilEv(n, evidence);
macro sameN(n) = n.variables == old(n.variables) && n.factors == old(n.factors) && n.policies == old(n.policies) && n.totalUtilityIndex == old(n.totalUtilityIndex) && n.name == old(n.name) && n.info == old(n.info);
define oneHot(d: [int]real, O: [int]str, c: int, x: str): bool decreases 0 = exists i: int {O[i]} :: 0 <= i < c && O[i] == x && d[i] == 1.0 && (forall j: int {d[j]} :: 0 <= j < c && j != i ==> d[j] == 0.0) && (forall j: int {O[j]} :: 0 <= j < i ==> O[j] != x);

macro sameVar(x, y) = x.Name == y.Name && x.NodeType == y.NodeType && x.Outcomes == y.Outcomes;
// the lookup table left behind by an earlier solve covers the network's variables
macro okLookup(n, nm) = (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && i != n.totalUtilityIndex ==> dom(nm)[vs(n)[i].Name] && vals(nm)[vs(n)[i].Name] != nil && sameVar(vals(nm)[vs(n)[i].Name].Variable, vs(n)[i]) && vals(nm)[vs(n)[i].Name].VeVariable.id == i)
  && (forall s: str {dom(nm)[s]} :: dom(nm)[s] ==> vals(nm)[s] != nil && 0 <= vals(nm)[s].VeVariable.id < nv(n) && vals(nm)[s].VeVariable.id != n.totalUtilityIndex && vs(n)[vals(nm)[s].VeVariable.id].Name == s);

func tui.solveEvidence(network, evidence, result) returns (err)
  property C18;
  requires network != nil && okLookup(network, network.variableNames) && result != nil;
  requires @owned ref(result) != ref(evidence);
  modifies result;
  ensures @errors err != nil <==> (exists s: str {dom(evidence)[s]} :: dom(evidence)[s] && !(exists i: int {vs(network)[i]} :: 0 <= i < nv(network) && i != network.totalUtilityIndex && vs(network)[i].Name == s && isOut(seq(vs(network)[i].Outcomes), len(vs(network)[i].Outcomes), vals(evidence)[s])));
  ensures @keep err == nil ==> (forall s: str {dom(result)[s]} :: (dom(result)[s] <==> old(dom(result))[s] || dom(evidence)[s]) && (!dom(evidence)[s] ==> vals(result)[s] == old(vals(result))[s]));
  ensures @observed err == nil ==> (forall s: str, i: int {dom(evidence)[s], vs(network)[i]} :: dom(evidence)[s] && 0 <= i < nv(network) && i != network.totalUtilityIndex && vs(network)[i].Name == s ==>
     allocated(vals(result)[s]) && len(vals(result)[s]) == len(vs(network)[i].Outcomes) && oneHot(seq(vals(result)[s]), seq(vs(network)[i].Outcomes), len(vs(network)[i].Outcomes), vals(evidence)[s]));
  loop 0 {
    modifies result;
    invariant @keep forall s: str {dom(result)[s]} {vals(result)[s]} :: (dom(result)[s] <==> pre(dom(result))[s] || $seen[s]) && (!$seen[s] ==> vals(result)[s] == pre(vals(result))[s]);
    invariant @hot forall s: str {$seen[s]} {vals(result)[s]} :: $seen[s] ==> dom(network.variableNames)[s] && isOut(seq(vals(network.variableNames)[s].Variable.Outcomes), len(vals(network.variableNames)[s].Variable.Outcomes), vals(evidence)[s])
      && allocated(vals(result)[s]) && fresh(vals(result)[s]) && len(vals(result)[s]) == len(vals(network.variableNames)[s].Variable.Outcomes)
      && oneHot(seq(vals(result)[s]), seq(vals(network.variableNames)[s].Variable.Outcomes), len(vals(network.variableNames)[s].Variable.Outcomes), vals(evidence)[s]);
  }

func tui.solveQueries(network, evidence, queries, ignorePolicies, result) returns (total, err)
  modular C18;
  requires network != nil && solvableN(network, evidence) && askable(network, evidence, queries) && result != nil;
  requires @owned ref(result) != ref(evidence) && ref(result) != ref(network.policies);
  modifies *network, result;
  ensures @same sameN(network);
  ensures @errors err != nil <==> badEv(network, evidence) || badQ(network, queries);
  ensures @keep err == nil ==> (forall s: str {vals(result)[s]} :: !(exists i: int {seq(queries)[i]} :: 0 <= i < len(queries) && seq(queries)[i] == s) ==> (dom(result)[s] <==> old(dom(result))[s]) && vals(result)[s] == old(vals(result))[s]);
  ensures @total err == nil ==> scalarOf(old(net(network)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), false, "", total);
  ensures @posterior err == nil ==> (forall i: int {seq(queries)[i]} :: 0 <= i < len(queries) ==> dom(result)[seq(queries)[i]] && allocated(vals(result)[seq(queries)[i]])
     && postOf(old(net(network)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), seq(queries)[i], seq(vals(result)[seq(queries)[i]])));
  ensures @lengths err == nil ==> (forall i: int, j: int {seq(queries)[i], vs(network)[j]} :: 0 <= i < len(queries) && 0 <= j < nv(network) && vs(network)[j].Name == seq(queries)[i] ==> len(vals(result)[seq(queries)[i]]) == len(vs(network)[j].Outcomes));
  entry { let S0 = net(network); let X0 = exDom(evidence, ignorePolicies); let ED0 = dom(evidence); let EV0 = vals(evidence); let qs = seq(queries);
    obtain rk: [str]int :: rankedN(fs(network), nf(network), gvn(network), rk); }
  aftercall SolveQuery#0 {
    if $r2 == nil {
      let F0 = fac($r1); assert len($r1.data) == P(F0.v, F0.n, 0);
      assert scalarOf(S0, X0, ED0, EV0, false, "", P(F0.v, F0.n, 0) == 1 ? F0.d[0] : nan());
    }
  }
  loop 0 {
    modifies *network, result;
    invariant @same sameN(network);
    invariant @seen forall i: int {seq(queries)[i]} :: 0 <= i < $k ==> isName(vs(network), nv(network), network.totalUtilityIndex, seq(queries)[i]);
    invariant @keep forall s: str {vals(result)[s]} :: !(exists i: int {seq(queries)[i]} :: 0 <= i < $k && seq(queries)[i] == s) ==> (dom(result)[s] <==> pre(dom(result))[s]) && vals(result)[s] == pre(vals(result))[s];
    invariant @post forall i: int {seq(queries)[i]} :: 0 <= i < $k ==> dom(result)[seq(queries)[i]] && allocated(vals(result)[seq(queries)[i]])
       && postOf(S0, X0, ED0, EV0, seq(queries)[i], seq(vals(result)[seq(queries)[i]]));
    invariant @lens forall i: int, j: int {seq(queries)[i], vs(network)[j]} :: 0 <= i < $k && 0 <= j < nv(network) && vs(network)[j].Name == seq(queries)[i] ==> len(vals(result)[seq(queries)[i]]) == len(vs(network)[j].Outcomes);
    begin { let R0 = vals(result); let D0 = lam q: str :: seq(vals(result)[q]); let kk = $k; fix i: int | 0 <= i < kk { assert seq(queries)[i] == qs[i]; assert allocated(vals(result)[qs[i]]); assert D0[qs[i]] == seq(vals(result)[qs[i]]); assert postOf(S0, X0, ED0, EV0, qs[i], seq(vals(result)[qs[i]])); } show allocated(R0[qs[i]]) && postOf(S0, X0, ED0, EV0, qs[i], D0[qs[i]]); }
    end {
      fix i: int | 0 <= i < kk && qs[i] != q1 { assert vals(result)[qs[i]] == R0[qs[i]]; assert seq(vals(result)[qs[i]]) == D0[qs[i]]; } show dom(result)[qs[i]] && allocated(vals(result)[qs[i]]) && postOf(S0, X0, ED0, EV0, qs[i], seq(vals(result)[qs[i]]));
      assert qs[kk] == q1;
      assert seq(vals(result)[q1]) == d1; assert allocated(vals(result)[q1]);
      fix i: int | 0 <= i < $k { } show dom(result)[qs[i]] && allocated(vals(result)[qs[i]]) && postOf(S0, X0, ED0, EV0, qs[i], seq(vals(result)[qs[i]]));
    }
  }
  beforecall SolveQuery#1 {
    let S1 = net(network); let X1 = exDom(evidence, ignorePolicies);
    assert rankedN(fs(network), nf(network), gvn(network), rk);
    assert sameNet(S1, S0);
    assert dom(evidence) == ED0 && vals(evidence) == EV0 && X1 == X0;
  }
  aftercall SolveQuery#1 {
    let q1 = qs[$k0]; let d1 = seq(vals($r0)[q1]);
    if $r2 == nil {
      let F1 = fac($r1); assert len($r1.data) == P(F1.v, F1.n, 0); let NV1 = nvs(network.variableNames);
      use ans_ext(S1, S0, X0, ED0, EV0, seq($a2), 1, false, "", F1, NV1);
      assert hasV(F1, NV1[q1].id); assert isMarg(d1, F1, P(F1.v, F1.n, 0), NV1[q1]);
      assert postOf(S0, X0, ED0, EV0, q1, d1);
      let l1 = len(vals($r0)[q1]);
      fix j: int | 0 <= j < nv(network) && vs(network)[j].Name == q1 { obtain i: int :: 0 <= i < nv(network) && i != network.totalUtilityIndex && vs(network)[i].Name == q1; assert i == j; assert isVar(network, i, vev(network, q1)); } show l1 == len(vs(network)[j].Outcomes);
    }
  }

// the view's nodes are the network's variables (a decision's node may carry its policy as table, and nodes may have been moved)
macro nodesOf(n, nodes) = len(nodes) == nv(n) && (forall i: int {seq(nodes)[i]} {vs(n)[i]} :: 0 <= i < len(nodes) ==> istype(seq(nodes)[i], "tui.node") && ifaceptr(seq(nodes)[i], "tui.node") != nil && sameVar(tnode(nodes, i), vs(n)[i]) && (i == n.totalUtilityIndex ==> tnode(nodes, i).Factor == vs(n)[i].Factor));
// the parents of the total-utility node are utility nodes
macro totalOfUtils(n) = (n.totalUtilityIndex >= 0 ==> vs(n)[n.totalUtilityIndex].NodeType == 2 && (forall p: int {seq(tot(n).Given)[p]} :: 0 <= p < len(tot(n).Given) ==> (exists i: int {vs(n)[i]} :: uNode(n, i) && vs(n)[i].Name == seq(tot(n).Given)[p])));
// d reports the conditional expected utility of one variable, then the conditional expected total utility
define utilOf(S: Net, X: [str]bool, ED: [str]bool, EV: [str]str, uv: str, d: [int]real, tp: real, tu: real): bool decreases 0 =
  exists u: real {scalarOf(S, X, ED, EV, true, uv, u)} :: scalarOf(S, X, ED, EV, true, uv, u) && d[0] == u / tp && d[1] == tu;

lemma util_ext(S: Net, T: Net, X: [str]bool, ED: [str]bool, EV: [str]str, uv: str, d: [int]real, tp: real, tu: real)
  requires sameNet(S, T) && utilOf(S, X, ED, EV, uv, d, tp, tu);
  ensures utilOf(T, X, ED, EV, uv, d, tp, tu);
{ obtain u: real :: scalarOf(S, X, ED, EV, true, uv, u) && d[0] == u / tp && d[1] == tu; use scalar_ext(S, T, X, ED, EV, true, uv, u); }
define utilName(V: [int]bbn.Variable, t: int, n: int, s: str): bool decreases 0 = exists i: int {V[i]} :: 0 <= i < n && i != t && V[i].NodeType == 2 && V[i].Name == s;
define inNames(U: [int]str, n: int, s: str): bool decreases 0 = exists q: int {U[q]} :: 0 <= q < n && U[q] == s;
func tui.solveUtility(network, nodes, evidence, totalProb, ignorePolicies, result) returns (err)
  modular C18;
  requires network != nil && solvableN(network, evidence) && nodesOf(network, nodes) && totalOfUtils(network) && result != nil;
  requires @one forall i: int {vs(network)[i]} :: uNode(network, i) ==> len(vs(network)[i].Outcomes) == 1;
  requires @owned ref(result) != ref(evidence) && ref(result) != ref(network.policies);
  modifies *network, result;
  allowfdiv0;
  ensures @same sameN(network);
  ensures @errors err != nil <==> badEv(network, evidence);
  ensures @lookup err == nil ==> okLookup(network, network.variableNames);
  ensures @keep err == nil ==> (forall s: str {vals(result)[s]} :: !(exists i: int {vs(network)[i]} :: 0 <= i < nv(network) && vs(network)[i].NodeType == 2 && vs(network)[i].Name == s) ==> (dom(result)[s] <==> old(dom(result))[s]) && vals(result)[s] == old(vals(result))[s]);
  ensures @utilities err == nil ==> (exists t0: real {scalarOf(old(net(network)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), true, "", t0)} ::
     scalarOf(old(net(network)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), true, "", t0)
     && (forall i: int {vs(network)[i]} :: uNode(network, i) ==> dom(result)[vs(network)[i].Name] && len(vals(result)[vs(network)[i].Name]) == 2
        && utilOf(old(net(network)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), vs(network)[i].Name, seq(vals(result)[vs(network)[i].Name]), totalProb, t0 / totalProb))
     && (network.totalUtilityIndex >= 0 ==> dom(result)[vs(network)[network.totalUtilityIndex].Name] && len(vals(result)[vs(network)[network.totalUtilityIndex].Name]) == len(tot(network).Given) + 1
        && seq(vals(result)[vs(network)[network.totalUtilityIndex].Name])[len(tot(network).Given)] == t0 / totalProb
        && (forall p: int {seq(tot(network).Given)[p]} :: 0 <= p < len(tot(network).Given) ==> seq(vals(result)[vs(network)[network.totalUtilityIndex].Name])[p] == seq(vals(result)[seq(tot(network).Given)[p]])[0] * seq(tot(network).Table)[p])));
  entry { let S0 = net(network); let X0 = exDom(evidence, ignorePolicies); let ED0 = dom(evidence); let EV0 = vals(evidence); let t = network.totalUtilityIndex; let VS = vs(network); let N = nv(network);
    obtain rk: [str]int :: rankedN(fs(network), nf(network), gvn(network), rk); }
  loop 0 {
    modifies utilities;
    invariant @own fresh(utilities) && (ref(utilities) == pre(ref(utilities)) || ref(utilities) > pre(alloc()));
    invariant @only forall q: int {seq(utilities)[q]} :: 0 <= q < len(utilities) ==> utilName(VS, t, $k, seq(utilities)[q]);
    invariant @all forall i: int {VS[i]} :: 0 <= i < $k && i != t && VS[i].NodeType == 2 ==> inNames(seq(utilities), len(utilities), VS[i].Name);
    invariant @total (totalUtilityNode != nil <==> 0 <= t < $k) && (totalUtilityNode != nil ==> totalUtilityNode.Name == VS[t].Name && totalUtilityNode.Factor == VS[t].Factor);
    begin { let u0 = seq(utilities); let n0 = len(utilities); let k0 = $k; }
    end { let u1 = seq(utilities);
      fix q: int | 0 <= q < n0 { assert u1[q] == u0[q]; obtain i: int :: 0 <= i < k0 && i != t && VS[i].NodeType == 2 && VS[i].Name == u0[q]; } show utilName(VS, t, k0 + 1, u1[q]);
      fix i: int | 0 <= i < k0 && i != t && VS[i].NodeType == 2 { obtain q: int :: 0 <= q < n0 && u0[q] == VS[i].Name; assert u1[q] == u0[q]; } show inNames(u1, len(utilities), VS[i].Name);
      if k0 != t && VS[k0].NodeType == 2 { assert u1[n0] == VS[k0].Name; assert utilName(VS, t, k0 + 1, u1[n0]); assert inNames(u1, len(utilities), VS[k0].Name); }
    }
    after { let us = seq(utilities); let nu = len(utilities);
      fix q: int | 0 <= q < nu { obtain i: int :: 0 <= i < N && i != t && VS[i].NodeType == 2 && VS[i].Name == us[q]; } show isName(VS, N, t, us[q]) && utilName(VS, t, N, us[q]);
      assert rankedN(fs(network), nf(network), gvn(network), rk);
      let S2 = net(network); let X2 = exDom(evidence, ignorePolicies);
      assert sameNet(S2, S0); assert dom(evidence) == ED0 && vals(evidence) == EV0 && X2 == X0;
    }
  }
  aftercall SolveUtility#0 {
    let t0 = $r0 == nil ? 0.0 : (P(seq($r0.variables), len($r0.variables), 0) == 1 ? seq($r0.data)[0] : nan());
    if $r1 == nil {
      let F0 = fac($r0); assert len($r0.data) == P(F0.v, F0.n, 0); let NV0 = nvs(network.variableNames);
      use ans_ext(S2, S0, X0, ED0, EV0, seq($a2), 0, true, "", F0, NV0);
      assert scalarOf(S0, X0, ED0, EV0, true, "", t0);
    }
  }
  loop 1 {
    modifies *network, result;
    invariant @same sameN(network);
    invariant @lookup okLookup(network, network.variableNames) && allocated(network.variableNames);
    invariant @keep forall s: str {vals(result)[s]} :: !inNames(us, $k, s) ==> (dom(result)[s] <==> pre(dom(result))[s]) && vals(result)[s] == pre(vals(result))[s];
    invariant @done forall q: int {us[q]} :: 0 <= q < $k ==> dom(result)[us[q]] && allocated(vals(result)[us[q]]) && len(vals(result)[us[q]]) == 2 && utilOf(S0, X0, ED0, EV0, us[q], seq(vals(result)[us[q]]), totalProb, t0 / totalProb);
    begin { let R0 = vals(result); let D0 = lam q: str :: seq(vals(result)[q]); let kk = $k; let n1 = us[kk];
      fix i: int | 0 <= i < kk { assert D0[us[i]] == seq(vals(result)[us[i]]); } show allocated(R0[us[i]]) && utilOf(S0, X0, ED0, EV0, us[i], D0[us[i]], totalProb, t0 / totalProb);
    }
    end {
      fix i: int | 0 <= i < kk && us[i] != n1 { assert vals(result)[us[i]] == R0[us[i]]; assert seq(vals(result)[us[i]]) == D0[us[i]]; } show dom(result)[us[i]] && allocated(vals(result)[us[i]]) && utilOf(S0, X0, ED0, EV0, us[i], seq(vals(result)[us[i]]), totalProb, t0 / totalProb);
      assert dom(result)[n1] && allocated(vals(result)[n1]) && len(vals(result)[n1]) == 2; let d1 = seq(vals(result)[n1]);
      assert d1[0] == u1 / totalProb && d1[1] == t0 / totalProb;
      assert utilOf(S0, X0, ED0, EV0, n1, d1, totalProb, t0 / totalProb);
      fix s: str | !inNames(us, kk + 1, s) { if inNames(us, kk, s) { obtain q: int :: 0 <= q < kk && us[q] == s; } assert s != n1; } show !inNames(us, kk, s) && s != n1;
    }
    after {
      fix i: int | 0 <= i < N && i != t && VS[i].NodeType == 2 { obtain q: int :: 0 <= q < nu && us[q] == VS[i].Name; } show dom(result)[VS[i].Name] && allocated(vals(result)[VS[i].Name]) && len(vals(result)[VS[i].Name]) == 2 && utilOf(S0, X0, ED0, EV0, VS[i].Name, seq(vals(result)[VS[i].Name]), totalProb, t0 / totalProb);
      fix s: str | !(exists i: int {VS[i]} :: 0 <= i < N && VS[i].NodeType == 2 && VS[i].Name == s) { if inNames(us, nu, s) { obtain q: int :: 0 <= q < nu && us[q] == s; obtain i: int :: 0 <= i < N && i != t && VS[i].NodeType == 2 && VS[i].Name == us[q]; } } show !inNames(us, nu, s);
      let R1 = vals(result); let D1 = lam q: str :: seq(vals(result)[q]);
    }
  }
  beforecall SolveUtility#1 {
    let S1 = net(network); let X1 = exDom(evidence, ignorePolicies);
    assert rankedN(fs(network), nf(network), gvn(network), rk);
    assert sameNet(S1, S0);
    assert dom(evidence) == ED0 && vals(evidence) == EV0 && X1 == X0;
  }
  aftercall SolveUtility#1 {
    let u1 = $r0 == nil ? 0.0 : (P(seq($r0.variables), len($r0.variables), 0) == 1 ? seq($r0.data)[0] : nan());
    if $r1 == nil {
      let F1 = fac($r0); assert len($r0.data) == P(F1.v, F1.n, 0); let NV1 = nvs(network.variableNames);
      use ans_ext(S1, S0, X0, ED0, EV0, seq($a2), 0, true, n1, F1, NV1);
      assert scalarOf(S0, X0, ED0, EV0, true, n1, u1);
    }
  }
  loop 2 {
    before { let TG = seq(tot(network).Given); let TW = seq(tot(network).Table); }
    modifies util;
    invariant @weighted forall p: int {seq(util)[p]} :: 0 <= p < $k ==> seq(util)[p] == D1[TG[p]][0] * TW[p];
    begin { let ut0 = seq(util); fix p: int | 0 <= p < $k { } show ut0[p] == D1[TG[p]][0] * TW[p]; }
    end { let p1 = $k - 1; let g1 = seq(tot(network).Given)[p1];
      obtain i: int :: uNode(network, i) && vs(network)[i].Name == g1; assert VS[i].Name == g1; assert allocated(R1[g1]); assert vals(result)[g1] == R1[g1];
      assert seq(vals(result)[g1])[0] == D1[g1][0];
      assert seq(totalUtilityNode.Factor.Table)[p1] == TW[p1] && TG[p1] == g1;
      use rmul_cong(seq(vals(result)[g1])[0], seq(totalUtilityNode.Factor.Table)[p1], D1[g1][0], TW[p1]);
      assert seq(util)[p1] == seq(vals(result)[g1])[0] * seq(totalUtilityNode.Factor.Table)[p1];
      assert seq(util)[p1] == D1[g1][0] * TW[p1];
      fix p: int | 0 <= p < $k { if p < p1 { assert ut0[p] == D1[TG[p]][0] * TW[p]; assert seq(util)[p] == ut0[p]; } else { assert p == p1; use rmul_cong(D1[TG[p]][0], TW[p], D1[g1][0], TW[p1]); } } show seq(util)[p] == D1[TG[p]][0] * TW[p];
    }
  }
  exit { ifdef R1 { if err == nil {
      assert scalarOf(S0, X0, ED0, EV0, true, "", t0);
      fix i: int | uNode(network, i) { assert VS[i].Name != (t >= 0 ? VS[t].Name : ""); assert vals(result)[VS[i].Name] == R1[VS[i].Name]; assert seq(vals(result)[VS[i].Name]) == D1[VS[i].Name]; }
        show dom(result)[VS[i].Name] && len(vals(result)[VS[i].Name]) == 2 && seq(vals(result)[VS[i].Name]) == D1[VS[i].Name] && utilOf(S0, X0, ED0, EV0, VS[i].Name, seq(vals(result)[VS[i].Name]), totalProb, t0 / totalProb);
      if t >= 0 {
        let ur = seq(vals(result)[VS[t].Name]);
        fix p: int | 0 <= p < len(tot(network).Given) { obtain i: int :: uNode(network, i) && vs(network)[i].Name == seq(tot(network).Given)[p]; assert VS[i].Name == seq(tot(network).Given)[p];
          assert seq(vals(result)[seq(tot(network).Given)[p]])[0] == D1[seq(tot(network).Given)[p]][0]; ifdef TW { assert TG[p] == seq(tot(network).Given)[p] && TW[p] == seq(tot(network).Table)[p]; assert ur[p] == D1[TG[p]][0] * TW[p];
          use rmul_cong(seq(vals(result)[seq(tot(network).Given)[p]])[0], seq(tot(network).Table)[p], D1[TG[p]][0], TW[p]); } }
          show ur[p] == seq(vals(result)[seq(tot(network).Given)[p]])[0] * seq(tot(network).Table)[p];
      }
  } } }

// every variable to report on can be asked for: a chance variable, or a decision with a policy
macro reportable(n, evidence) = (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && !dom(evidence)[vs(n)[i].Name] && vs(n)[i].NodeType == 1 ==> hasPol(n, vs(n)[i].Name));
define plainName(V: [int]bbn.Variable, ED: [str]bool, n: int, s: str): bool decreases 0 = exists i: int {V[i]} :: 0 <= i < n && V[i].NodeType != 2 && !ED[V[i].Name] && V[i].Name == s;
func tui.Solve(network, evidence, nodes, ignorePolicies) returns (result, err)
  modular C18;
  requires network != nil && solvableN(network, evidence) && nodesOf(network, nodes) && totalOfUtils(network) && reportable(network, evidence) && okLookup(network, network.variableNames);
  requires @one forall i: int {vs(network)[i]} :: uNode(network, i) ==> len(vs(network)[i].Outcomes) == 1;
  modifies *network;
  ensures @same sameN(network);
  ensures @errors err != nil <==> badEv(network, evidence);
  ensures @nil err != nil ==> result == nil;
  ensures @lookup err == nil ==> okLookup(network, network.variableNames);
  ensures @observed err == nil ==> (forall s: str, i: int {dom(evidence)[s], vs(network)[i]} :: dom(evidence)[s] && 0 <= i < nv(network) && vs(network)[i].Name == s ==>
     dom(result)[s] && len(vals(result)[s]) == len(vs(network)[i].Outcomes) && oneHot(seq(vals(result)[s]), seq(vs(network)[i].Outcomes), len(vs(network)[i].Outcomes), vals(evidence)[s]));
  ensures @posterior err == nil ==> (forall i: int {vs(network)[i]} :: 0 <= i < nv(network) && vs(network)[i].NodeType != 2 && !dom(evidence)[vs(network)[i].Name] ==> dom(result)[vs(network)[i].Name]
     && postOf(old(net(network)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), vs(network)[i].Name, seq(vals(result)[vs(network)[i].Name])));
  ensures @lengths err == nil ==> (forall i: int {vs(network)[i]} :: 0 <= i < nv(network) && vs(network)[i].NodeType != 2 ==> len(vals(result)[vs(network)[i].Name]) == len(vs(network)[i].Outcomes));
  ensures @utilities err == nil ==> (exists tp: real, t0: real {scalarOf(old(net(network)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), false, "", tp), scalarOf(old(net(network)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), true, "", t0)} ::
     scalarOf(old(net(network)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), false, "", tp)
     && scalarOf(old(net(network)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), true, "", t0)
     && (forall i: int {vs(network)[i]} :: uNode(network, i) ==> dom(result)[vs(network)[i].Name] && len(vals(result)[vs(network)[i].Name]) == 2
        && utilOf(old(net(network)), old(exDom(evidence, ignorePolicies)), old(dom(evidence)), old(vals(evidence)), vs(network)[i].Name, seq(vals(result)[vs(network)[i].Name]), tp, t0 / tp))
     && (network.totalUtilityIndex >= 0 ==> dom(result)[vs(network)[network.totalUtilityIndex].Name] && len(vals(result)[vs(network)[network.totalUtilityIndex].Name]) == len(tot(network).Given) + 1
        && seq(vals(result)[vs(network)[network.totalUtilityIndex].Name])[len(tot(network).Given)] == t0 / tp
        && (forall p: int {seq(tot(network).Given)[p]} :: 0 <= p < len(tot(network).Given) ==> seq(vals(result)[vs(network)[network.totalUtilityIndex].Name])[p] == seq(vals(result)[seq(tot(network).Given)[p]])[0] * seq(tot(network).Table)[p])));
  entry { let S0 = net(network); let X0 = exDom(evidence, ignorePolicies); let ED0 = dom(evidence); let EV0 = vals(evidence); let t = network.totalUtilityIndex; let VS = vs(network); let N = nv(network); let OC0 = ocn(network);
    obtain rk: [str]int :: rankedN(fs(network), nf(network), gvn(network), rk); }
  loop 0 {
    modifies queries;
    invariant @own fresh(queries) && (ref(queries) == pre(ref(queries)) || ref(queries) > pre(alloc()));
    invariant @only forall q: int {seq(queries)[q]} :: 0 <= q < len(queries) ==> plainName(VS, ED0, $k, seq(queries)[q]);
    invariant @all forall i: int {VS[i]} :: 0 <= i < $k && VS[i].NodeType != 2 && !ED0[VS[i].Name] ==> inNames(seq(queries), len(queries), VS[i].Name);
    begin { let u0 = seq(queries); let n0 = len(queries); let k0 = $k; }
    end { let u1 = seq(queries);
      fix q: int | 0 <= q < n0 { assert u1[q] == u0[q]; obtain i: int :: 0 <= i < k0 && VS[i].NodeType != 2 && !ED0[VS[i].Name] && VS[i].Name == u0[q]; } show plainName(VS, ED0, k0 + 1, u1[q]);
      fix i: int | 0 <= i < k0 && VS[i].NodeType != 2 && !ED0[VS[i].Name] { obtain q: int :: 0 <= q < n0 && u0[q] == VS[i].Name; assert u1[q] == u0[q]; } show inNames(u1, len(queries), VS[i].Name);
      if VS[k0].NodeType != 2 && !ED0[VS[k0].Name] { assert u1[n0] == VS[k0].Name; assert plainName(VS, ED0, k0 + 1, u1[n0]); assert inNames(u1, len(queries), VS[k0].Name); }
    }
    after { let qs = seq(queries); let nq = len(queries);
      fix q: int | 0 <= q < nq { obtain i: int :: 0 <= i < N && VS[i].NodeType != 2 && !ED0[VS[i].Name] && VS[i].Name == qs[q]; assert i != t; } show isName(VS, N, t, qs[q]) && plainName(VS, ED0, N, qs[q]) && !ED0[qs[q]];
      fix q: int, j: int | 0 <= q < nq && 0 <= j < N && VS[j].Name == qs[q] { obtain i: int :: 0 <= i < N && VS[i].NodeType != 2 && !ED0[VS[i].Name] && VS[i].Name == qs[q]; assert i == j; } show !ED0[qs[q]] && VS[j].NodeType != 2;
    }
  }
  aftercall solveEvidence { let RE = vals(result); let DE = lam q: str :: seq(vals(result)[q]); let OC1 = ocn(network);
    if $r == nil { fix i: int | 0 <= i < N && i != t && ED0[VS[i].Name] { assert DE[VS[i].Name] == seq(vals(result)[VS[i].Name]); } show dom(result)[VS[i].Name] && allocated(RE[VS[i].Name]) && len(RE[VS[i].Name]) == len(VS[i].Outcomes) && oneHot(DE[VS[i].Name], OC1[i], len(VS[i].Outcomes), EV0[VS[i].Name]); }
    assert rankedN(fs(network), nf(network), gvn(network), rk);
    let S1 = net(network); let X1 = exDom(evidence, ignorePolicies); assert sameNet(S1, S0); assert dom(evidence) == ED0 && vals(evidence) == EV0 && X1 == X0; }
  aftercall solveQueries { let RQ = vals(result); let DQ = lam q: str :: seq(vals(result)[q]); let tp = $r0;
    if $r1 == nil {
      fix i: int | 0 <= i < nq { use post_ext(S1, S0, X0, ED0, EV0, qs[i], DQ[qs[i]]); } show dom(result)[qs[i]] && allocated(RQ[qs[i]]) && postOf(S0, X0, ED0, EV0, qs[i], DQ[qs[i]]);
      use scalar_ext(S1, S0, X0, ED0, EV0, false, "", tp);
    } }
  beforecall solveUtility { assert rankedN(fs(network), nf(network), gvn(network), rk); let S3 = net(network); let X3 = exDom(evidence, ignorePolicies); assert sameNet(S3, S0); assert dom(evidence) == ED0 && vals(evidence) == EV0 && X3 == X0; }
  aftercall solveUtility { if $r == nil {
    let RU = vals(result); let DU = lam q: str :: seq(vals(result)[q]);
    fix i: int | 0 <= i < N && VS[i].NodeType != 2 { } show !(exists j: int {VS[j]} :: 0 <= j < N && VS[j].NodeType == 2 && VS[j].Name == VS[i].Name);
    fix i: int | 0 <= i < N && ED0[VS[i].Name] {
      assert VS[i].NodeType != 2; assert i != t; if inNames(qs, nq, VS[i].Name) { obtain q: int :: 0 <= q < nq && qs[q] == VS[i].Name; }
      assert !(exists q: int {seq(queries)[q]} :: 0 <= q < len(queries) && seq(queries)[q] == VS[i].Name) by { if exists q: int {seq(queries)[q]} :: 0 <= q < len(queries) && seq(queries)[q] == VS[i].Name { obtain q: int :: 0 <= q < nq && qs[q] == VS[i].Name; } }
      assert RU[VS[i].Name] == RQ[VS[i].Name]; assert RQ[VS[i].Name] == RE[VS[i].Name]; assert DU[VS[i].Name] == DE[VS[i].Name]; assert seq(VS[i].Outcomes) == OC1[i];
    } show dom(result)[VS[i].Name] && len(vals(result)[VS[i].Name]) == len(VS[i].Outcomes) && oneHot(seq(vals(result)[VS[i].Name]), seq(VS[i].Outcomes), len(VS[i].Outcomes), EV0[VS[i].Name]);
    fix i: int | 0 <= i < N && VS[i].NodeType != 2 && !ED0[VS[i].Name] { obtain q: int :: 0 <= q < nq && qs[q] == VS[i].Name; assert RU[qs[q]] == RQ[qs[q]]; assert DU[qs[q]] == DQ[qs[q]]; assert len(RQ[qs[q]]) == len(VS[i].Outcomes); } show len(vals(result)[VS[i].Name]) == len(VS[i].Outcomes) && dom(result)[VS[i].Name] && postOf(S0, X0, ED0, EV0, VS[i].Name, seq(vals(result)[VS[i].Name]));
    obtain t0: real :: scalarOf(S3, X0, ED0, EV0, true, "", t0)
     && (forall i: int {vs(network)[i]} :: uNode(network, i) ==> dom(result)[vs(network)[i].Name] && len(vals(result)[vs(network)[i].Name]) == 2 && utilOf(S3, X0, ED0, EV0, vs(network)[i].Name, seq(vals(result)[vs(network)[i].Name]), tp, t0 / tp))
     && (network.totalUtilityIndex >= 0 ==> dom(result)[vs(network)[network.totalUtilityIndex].Name] && len(vals(result)[vs(network)[network.totalUtilityIndex].Name]) == len(tot(network).Given) + 1
        && seq(vals(result)[vs(network)[network.totalUtilityIndex].Name])[len(tot(network).Given)] == t0 / tp
        && (forall p: int {seq(tot(network).Given)[p]} :: 0 <= p < len(tot(network).Given) ==> seq(vals(result)[vs(network)[network.totalUtilityIndex].Name])[p] == seq(vals(result)[seq(tot(network).Given)[p]])[0] * seq(tot(network).Table)[p]));
    use scalar_ext(S3, S0, X0, ED0, EV0, true, "", t0);
    fix i: int | uNode(network, i) { use util_ext(S3, S0, X0, ED0, EV0, vs(network)[i].Name, seq(vals(result)[vs(network)[i].Name]), tp, t0 / tp); } show utilOf(S0, X0, ED0, EV0, vs(network)[i].Name, seq(vals(result)[vs(network)[i].Name]), tp, t0 / tp);
  } }
