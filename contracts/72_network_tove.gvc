// network.go: policyFactors and toVE.

macro pol(n, s) = vals(n.policies)[s];
macro hasPol(n, s) = dom(n.policies)[s];
// a variable of a solved policy, with solved decisions as chance variables
macro retyped(n, v, w) = w.id == v.id && w.index == v.index && w.outcomes == v.outcomes && w.nodeType == (v.nodeType == 1 && hasPol(n, vs(n)[v.id].Name) ? 0 : v.nodeType);
define polRel(X: Fac, Y: Fac, V: [int]bbn.Variable, PD: [str]bool): bool decreases 0 =
  X.n == Y.n && X.d == Y.d && (forall q: int {X.v[q]} {Y.v[q]} :: 0 <= q < Y.n ==> X.v[q].id == Y.v[q].id && X.v[q].index == Y.v[q].index && X.v[q].outcomes == Y.v[q].outcomes
     && X.v[q].nodeType == (Y.v[q].nodeType == 1 && PD[V[Y.v[q].id].Name] ? 0 : Y.v[q].nodeType));
define hitF(F: [int]Fac, m: int, Y: Fac, V: [int]bbn.Variable, PD: [str]bool): bool decreases 0 = exists j: int {F[j]} :: 0 <= j < m && polRel(F[j], Y, V, PD);
// policies are tables over variables of the network, the decision last
macro okPols(n) = n.policies != nil && (forall s: str {dom(n.policies)[s]} :: dom(n.policies)[s] ==> wfD(pol(n, s)) && pol(n, s).data != nil && len(pol(n, s).variables) >= 1
   && (forall q: int {seq(pol(n, s).variables)[q]} :: 0 <= q < len(pol(n, s).variables) ==> 0 <= seq(pol(n, s).variables)[q].id < nv(n) && seq(pol(n, s).variables)[q].id != n.totalUtilityIndex)
   && vs(n)[seq(pol(n, s).variables)[len(pol(n, s).variables) - 1].id].Name == s);

func bbn.Network.policyFactors(n, vars, varIDs, evidence) returns (r)
  property C10;
  requires n != nil && vars != nil && okPols(n) && distinctNames(n) && len(varIDs) == nv(n) && (forall i: int {seq(varIDs)[i]} :: 0 <= i < nv(n) && i != n.totalUtilityIndex ==> seq(varIDs)[i].Variable.Name == vs(n)[i].Name);
  modifies *vars;
  ensures @vars vars.variables == old(vars.variables) && vars.ids == old(vars.ids) && vars.factorCounter == old(vars.factorCounter) + len(r) && fresh(r);
  ensures @ids forall j: int {seq(r)[j]} :: 0 <= j < len(r) ==> seq(r)[j].id == old(vars.factorCounter) + j && wfD(seq(r)[j]) && fresh(seq(r)[j].variables);
  ensures @only forall j: int {seq(r)[j]} :: 0 <= j < len(r) ==> (exists s: str {dom(n.policies)[s]} :: hasPol(n, s) && !dom(evidence)[s] && polRel(fac(seq(r)[j]), fac(pol(n, s)), vs(n), dom(n.policies)));
  ensures @all forall s: str {dom(n.policies)[s]} :: hasPol(n, s) && !dom(evidence)[s] ==> (exists j: int {seq(r)[j]} :: 0 <= j < len(r) && polRel(fac(seq(r)[j]), fac(pol(n, s)), vs(n), dom(n.policies)));
  ensures @once forall i: int, j: int {seq(r)[i], seq(r)[j]} :: 0 <= i < j < len(r) ==> seq(seq(r)[i].variables)[len(seq(r)[i].variables) - 1].id != seq(seq(r)[j].variables)[len(seq(r)[j].variables) - 1].id;
  entry { let V0 = vs(n); let PD = dom(n.policies); let c0 = vars.factorCounter; let ED = dom(evidence); let PF = lam s: str :: fac(pol(n, s)); }
  loop 0 {
    modifies *vars, factors;
    invariant @vars vars.variables == old(vars.variables) && vars.ids == old(vars.ids) && vars.factorCounter == c0 + len(factors);
    invariant @own fresh(factors) && (ref(factors) == pre(ref(factors)) || ref(factors) > pre(alloc()));
    invariant @ids forall j: int {seq(factors)[j]} :: 0 <= j < len(factors) ==> seq(factors)[j].id == c0 + j && wfD(seq(factors)[j]) && fresh(seq(factors)[j].variables) && allocated(seq(factors)[j].variables);
    invariant @only forall j: int {seq(factors)[j]} :: 0 <= j < len(factors) ==> (exists s: str {PD[s]} :: $seen[s] && PD[s] && !ED[s] && polRel(fac(seq(factors)[j]), PF[s], V0, PD));
    invariant @all forall s: str {PD[s]} :: $seen[s] && !ED[s] ==> hitF(facs(factors), len(factors), PF[s], V0, PD);
    invariant @once forall i: int, j: int {seq(factors)[i], seq(factors)[j]} :: 0 <= i < j < len(factors) ==> seq(seq(factors)[i].variables)[len(seq(factors)[i].variables) - 1].id != seq(seq(factors)[j].variables)[len(seq(factors)[j].variables) - 1].id;
    begin { assert forall s: str {PF[s]} :: PD[s] ==> PF[s] == fac(pol(n, s)); let F0 = facs(factors); let n0 = len(factors); let S0 = $seen; let r0 = seq(factors); let Y = PF[$key]; let k0 = $key; }
    end {
      let F1 = facs(factors);
      fix j: int | 0 <= j < n0 { obtain s: str :: S0[s] && PD[s] && !ED[s] && polRel(F0[j], PF[s], V0, PD); let Z = PF[s]; assert F0[j].v[Z.n - 1].id == Z.v[Z.n - 1].id; } show S0[V0[F0[j].v[F0[j].n - 1].id].Name];
      fix j: int | 0 <= j < n0 { assert seq(factors)[j] == r0[j]; } show F1[j] == F0[j];
      fix j: int | 0 <= j < n0 { assert seq(factors)[j] == r0[j]; obtain s: str :: S0[s] && PD[s] && !ED[s] && polRel(F0[j], PF[s], V0, PD); assert $seen[s] && polRel(F1[j], PF[s], V0, PD); }
        show exists s: str {PD[s]} :: $seen[s] && PD[s] && !ED[s] && polRel(fac(seq(factors)[j]), PF[s], V0, PD);
      fix s: str | $seen[s] && !ED[s] && s != k0 { assert S0[s]; assert PD[s]; assert hitF(F0, n0, PF[s], V0, PD); obtain j: int :: 0 <= j < n0 && polRel(F0[j], PF[s], V0, PD); assert F1[j] == F0[j]; assert polRel(F1[j], PF[s], V0, PD); }
        show hitF(F1, len(factors), PF[s], V0, PD);
      if len(factors) > n0 {
        assert len(factors) == n0 + 1;
        let X = F1[n0];
        assert polRel(X, Y, V0, PD);
        assert hitF(F1, len(factors), Y, V0, PD);
        assert V0[X.v[X.n - 1].id].Name == k0 by { assert X.v[X.n - 1].id == Y.v[X.n - 1].id; }
        fix j: int | 0 <= j < n0 { assert F1[j] == F0[j]; assert S0[V0[F0[j].v[F0[j].n - 1].id].Name]; }
          show F1[j].v[F1[j].n - 1].id != X.v[X.n - 1].id;
      } else { assert ED[k0]; }
    }
  }
  loop 1 {
    modifies variables;
    invariant @v forall q: int {seq(variables)[q]} :: 0 <= q < $k ==> seq(variables)[q].id == Y.v[q].id && seq(variables)[q].index == Y.v[q].index && seq(variables)[q].outcomes == Y.v[q].outcomes
     && seq(variables)[q].nodeType == (Y.v[q].nodeType == 1 && PD[V0[Y.v[q].id].Name] ? 0 : Y.v[q].nodeType);
  }
  beforecall CreateFactor {
    let w = seq($a1);
    assert len($a1) == Y.n;
    use P_outs(Y.v, w, Y.n, 0);
    fix i: int, j: int | 0 <= i < j < Y.n { assert w[i].id == Y.v[i].id && w[j].id == Y.v[j].id; } show w[i].id != w[j].id;
  }
  aftercall CreateFactor {
    let v2 = seq($r.variables);
    use P_ext(w, v2, Y.n, 0);
    fix q: int | 0 <= q < Y.n { assert v2[q] == w[q]; } show v2[q].id == Y.v[q].id && v2[q].index == Y.v[q].index && v2[q].outcomes == Y.v[q].outcomes && v2[q].nodeType == (Y.v[q].nodeType == 1 && PD[V0[Y.v[q].id].Name] ? 0 : Y.v[q].nodeType);
    assert polRel(Fac(len($r.variables), v2, seq($r.data)), Y, V0, PD);
  }
  exit {
    fix s: str | PD[s] && !ED[s] { obtain j: int :: 0 <= j < len(r) && polRel(facs(r)[j], PF[s], V0, PD); assert PF[s] == fac(pol(n, s)); assert seq(r)[j] == seq(r)[j]; } show exists j: int {seq(r)[j]} :: 0 <= j < len(r) && polRel(fac(seq(r)[j]), fac(pol(n, s)), V0, PD);
  }
lemma P_outs(v: [int]ve.Variable, w: [int]ve.Variable, n: int, i: int)
  requires 0 <= i && (forall q: int {v[q]} {w[q]} :: 0 <= q < n ==> v[q].outcomes == w[q].outcomes);
  ensures P(v, n, i) == P(w, n, i);
  decreases n - i;
{ if i < n { use P_outs(v, w, n, i + 1); } }
// their variables are as in a solver for this network
macro okPolVars(n) = (forall s: str, q: int {dom(n.policies)[s], seq(pol(n, s).variables)[q]} :: dom(n.policies)[s] && 0 <= q < len(pol(n, s).variables) ==>
     polVar(vs(n), dom(n.policies), n.totalUtilityIndex, seq(pol(n, s).variables)[q]))
  && (forall s: str {dom(n.policies)[s]} :: dom(n.policies)[s] ==> vs(n)[seq(pol(n, s).variables)[len(pol(n, s).variables) - 1].id].NodeType == 1);
define polVar(V: [int]bbn.Variable, PD: [str]bool, t: int, v: ve.Variable): bool decreases 0 =
  v.index == posn(t, v.id) && v.outcomes == len(V[v.id].Outcomes) && V[v.id].NodeType != 2 && (v.nodeType == V[v.id].NodeType || (v.nodeType == 0 && V[v.id].NodeType == 1 && PD[V[v.id].Name]));

declare noVar(k: int): ve.Variable;
macro nvs(nm) = lam s: str :: dom(nm)[s] ? vals(nm)[s].VeVariable : noVar(0);
macro tpe(n, i) = (vs(n)[i].NodeType == 1 && hasPol(n, vs(n)[i].Name) ? 0 : vs(n)[i].NodeType);
define posn(t: int, i: int): int = t < 0 || i < t ? i : i - 1;
macro isVar(n, i, x) = x.id == i && x.index == posn(n.totalUtilityIndex, i) && x.outcomes == len(vs(n)[i].Outcomes) && x.nodeType == tpe(n, i);
// names lead to the solver variables of all network variables except the total-utility node
macro okNm(n, nm) = (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && i != n.totalUtilityIndex ==> dom(nm)[vs(n)[i].Name] && vals(nm)[vs(n)[i].Name] != nil && vals(nm)[vs(n)[i].Name].Variable == vs(n)[i] && isVar(n, i, vals(nm)[vs(n)[i].Name].VeVariable))
  && (forall s: str {dom(nm)[s]} :: dom(nm)[s] ==> vals(nm)[s] != nil && 0 <= vals(nm)[s].VeVariable.id < nv(n) && vals(nm)[s].VeVariable.id != n.totalUtilityIndex && vs(n)[vals(nm)[s].VeVariable.id].Name == s);
// the value of a table as a conditional distribution of the variable with this id
macro normv(T, v, n, a, id, c) = (sumA(T, v, n, a, id, c) == 0.0 ? T[S(v, n, dig(v, a), 0)] : T[S(v, n, dig(v, a), 0)] / sumA(T, v, n, a, id, c));
// X is the solver table for a network table: parents in order, the variable itself last, chance rows normalised
define tabRel(X: Fac, NV: [str]ve.Variable, own: str, Gv: [int]str, m: int, T: [int]real, chance: bool): bool decreases 0 =
  X.n == m + 1 && X.v[m] == NV[own] && (forall q: int {X.v[q]} {Gv[q]} :: 0 <= q < m ==> X.v[q] == NV[Gv[q]])
  && (forall a: [int]int {dig(X.v, a)} :: inrange(X.v, X.n, a) ==> fval(X, a) == (chance ? normv(T, X.v, X.n, a, NV[own].id, NV[own].outcomes) : T[S(X.v, X.n, dig(X.v, a), 0)]));
define hitT(F: [int]Fac, m: int, NV: [str]ve.Variable, own: str, Gv: [int]str, g: int, T: [int]real, chance: bool): bool decreases 0 =
  exists j: int {F[j]} :: 0 <= j < m && tabRel(F[j], NV, own, Gv, g, T, chance);
// the type of the variable a table is for
define ntOf(V: [int]bbn.Variable, NV: [str]ve.Variable, s: str): int decreases 0 = V[NV[s].id].NodeType;
define srcT(X: Fac, FS: [int]bbn.Factor, M: int, tn: str, NV: [str]ve.Variable, ND: [str]bool, V: [int]bbn.Variable, GV: [int][int]str, TT: [int][int]real): bool decreases 0 =
  exists f: int {FS[f]} :: 0 <= f < M && FS[f].For != tn && ND[FS[f].For] && ntOf(V, NV, FS[f].For) != 1 && tabRel(X, NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V, NV, FS[f].For) == 0);
macro isTot(n, f) = n.totalUtilityIndex >= 0 && fs(n)[f].For == vs(n)[n.totalUtilityIndex].Name;

macro okTable1(n, f) = (forall q: int, q2: int {seq(fs(n)[f].Given)[q], seq(fs(n)[f].Given)[q2]} :: 0 <= q < q2 < len(fs(n)[f].Given) ==> seq(fs(n)[f].Given)[q] != seq(fs(n)[f].Given)[q2])
  && (forall q: int {seq(fs(n)[f].Given)[q]} :: 0 <= q < len(fs(n)[f].Given) ==> seq(fs(n)[f].Given)[q] != fs(n)[f].For)
  && len(fs(n)[f].outcomes) == len(fs(n)[f].Given)
  && (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && vs(n)[i].Name == fs(n)[f].For ==> fs(n)[f].columns == len(vs(n)[i].Outcomes) && (vs(n)[i].NodeType != 1 ==> fs(n)[f].Table != nil && len(fs(n)[f].Table) == PI(seq(fs(n)[f].outcomes), len(fs(n)[f].outcomes), 0) * fs(n)[f].columns))
  && (forall k: int, j: int {seq(fs(n)[f].outcomes)[k], vs(n)[j]} :: 0 <= k < len(fs(n)[f].Given) && 0 <= j < nv(n) && vs(n)[j].Name == seq(fs(n)[f].Given)[k] ==> seq(fs(n)[f].outcomes)[k] == len(vs(n)[j].Outcomes));
// a well-formed network: one table of the right size per variable, without repeated parents
macro netOK(n) = n != nil && distinctNames(n) && nv(n) < 65536 && okTotal(n) && n.policies != nil
  && (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) ==> vs(n)[i].Name != "" && 1 <= len(vs(n)[i].Outcomes) && len(vs(n)[i].Outcomes) < 65536 && 0 <= vs(n)[i].NodeType <= 2)
  && (forall f: int, g: int {fs(n)[f], fs(n)[g]} :: 0 <= f < g < nf(n) ==> fs(n)[f].For != fs(n)[g].For)
  && (forall f: int {fs(n)[f]} :: 0 <= f < nf(n) && !isTot(n, f) ==> okTable1(n, f) && fs(n)[f].For != "");

lemma mul_assoc(a: int, b: int, c: int)
  ensures a * (b * c) == (a * b) * c;
{ }
lemma P_PI(v: [int]ve.Variable, o: [int]int, m: int, c: int, i: int)
  requires 0 <= i <= m && v[m].outcomes == c && (forall q: int {v[q]} {o[q]} :: 0 <= q < m ==> v[q].outcomes == o[q]);
  ensures P(v, m + 1, i) == PI(o, m, i) * c;
  decreases m - i;
{
  if i < m { use P_PI(v, o, m, c, i + 1); assert P(v, m + 1, i) == o[i] * P(v, m + 1, i + 1); assert PI(o, m, i) == o[i] * PI(o, m, i + 1); use mul_assoc(o[i], PI(o, m, i + 1), c); }
  else { assert P(v, m + 1, m + 1) == 1; assert P(v, m + 1, m) == v[m].outcomes * P(v, m + 1, m + 1); assert PI(o, m, m) == 1; }
}
macro depRel(ds, NV, Gv, m) = len(ds) == m && (forall q: int {seq(ds)[q]} :: 0 <= q < m ==> seq(ds)[q] == NV[Gv[q]]);
lemma sumA_extv(T: [int]real, v: [int]ve.Variable, w: [int]ve.Variable, n: int, a: [int]int, id: int, c: int)
  requires 0 <= n && same(v, w, n);
  ensures sumA(T, v, n, a, id, c) == sumA(T, w, n, a, id, c);
  decreases c;
{
  if c > 0 {
    use sumA_extv(T, v, w, n, a, id, c - 1);
    let a2 = a[id := c - 1];
    fix i: int | 0 <= i < n { assert v[i] == w[i]; } show dig(v, a2)[i] == dig(w, a2)[i];
    use S_ext(v, n, dig(v, a2), dig(w, a2), 0);
    use S_extv(v, w, n, dig(w, a2), 0);
  }
}

lemma tab_at(X: Fac, NV: [str]ve.Variable, own: str, Gv: [int]str, m: int, T: [int]real, ch: bool, q: int)
  requires tabRel(X, NV, own, Gv, m, T, ch) && 0 <= q < X.n;
  ensures X.v[q] == (q < m ? NV[Gv[q]] : NV[own]);
{ assert X.v[q] == X.v[q]; assert X.n == m + 1 && X.v[m] == NV[own]; }
// the name of a variable that is not the total-utility node
define isName(V: [int]bbn.Variable, n: int, t: int, s: str): bool decreases 0 = exists i: int {V[i]} :: 0 <= i < n && i != t && V[i].Name == s;
// every table is for, and conditioned on, existing variables
macro refsOK(n) = (forall f: int {fs(n)[f]} :: 0 <= f < nf(n) && !isTot(n, f) ==> isName(vs(n), nv(n), n.totalUtilityIndex, fs(n)[f].For)
   && (forall q: int {seq(fs(n)[f].Given)[q]} :: 0 <= q < len(fs(n)[f].Given) ==> isName(vs(n), nv(n), n.totalUtilityIndex, seq(fs(n)[f].Given)[q])));
macro utilsTotal(n) = (n.totalUtilityIndex >= 0 ==> (forall i: int {vs(n)[i]} :: uNode(n, i) ==> inTotal(n, i)));
lemma nU_cnt(VV: [int]ve.Variable, V0: [int]bbn.Variable, n: int, t: int, i: int)
  requires 0 <= i <= n && (forall i: int {V0[i]} :: 0 <= i < n && i != t ==> (VV[posn(t, i)].nodeType == 2 <==> V0[i].NodeType == 2));
  ensures nU(VV, t < 0 || i <= t ? i : i - 1) == cntUt(V0, t, i);
  decreases i;
{
  if i > 0 {
    use nU_cnt(VV, V0, n, t, i - 1);
    assert cntUt(V0, t, i) == cntUt(V0, t, i - 1) + (i - 1 != t && V0[i - 1].NodeType == 2 ? 1 : 0);
    if i - 1 != t { let p = posn(t, i - 1); assert nU(VV, p + 1) == nU(VV, p) + (VV[p].nodeType == 2 ? 1 : 0); assert V0[i - 1].NodeType == 2 <==> VV[p].nodeType == 2; }
  }
}
define fromF(Fl: [int]ve.Factor, m: int, k: int): bool decreases 0 = exists j: int {Fl[j]} :: 0 <= j < m && Fl[j].id == k;
lemma once_G(Gr: [int]Fac, Dr: [int]bool, FL: [int]Fac, fl: [int]ve.Factor, m: int)
  requires forall j: int {fl[j]} {FL[j]} :: 0 <= j < m ==> Dr[fl[j].id] && Gr[fl[j].id] == FL[j];
  requires forall k: int {Dr[k]} :: Dr[k] ==> fromF(fl, m, k);
  requires forall i: int, j: int {FL[i], FL[j]} :: 0 <= i < j < m ==> FL[i].v[FL[i].n - 1].id != FL[j].v[FL[j].n - 1].id;
  ensures forall k: int, k2: int {Dr[k], Dr[k2]} :: Dr[k] && Dr[k2] && k != k2 ==> Gr[k].v[Gr[k].n - 1].id != Gr[k2].v[Gr[k2].n - 1].id;
{
  fix k: int, k2: int | Dr[k] && Dr[k2] && k != k2 { obtain j: int :: 0 <= j < m && fl[j].id == k; obtain j2: int :: 0 <= j2 < m && fl[j2].id == k2; assert Gr[k] == FL[j] && Gr[k2] == FL[j2]; } show Gr[k].v[Gr[k].n - 1].id != Gr[k2].v[Gr[k2].n - 1].id;
}
func bbn.Network.toVE(n, evidence) returns (r, nm, err)
  property C01 C03;
  modular C10;
  requires netOK(n) && okPols(n) && okPolVars(n);
  ensures @names err == nil ==> nm != nil && fresh(nm) && okNm(n, nm);
  ensures @new err == nil ==> r != nil && fresh(r) && fresh(r.variables) && fresh(r.factors) && fresh(r.eliminated) && (fresh(r.variables.variables) || nV(r) == 0) && fresh(r.dependencies);
  ensures @vars err == nil ==> okVars(r) && nV(r) == (n.totalUtilityIndex >= 0 ? nv(n) - 1 : nv(n)) && (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && i != n.totalUtilityIndex ==> V(r)[posn(n.totalUtilityIndex, i)] == vals(nm)[vs(n)[i].Name].VeVariable);
  ensures @ok err == nil ==> okVE(r) && (forall i: int {seq(r.eliminated)[i]} :: 0 <= i < nV(r) ==> !seq(r.eliminated)[i]);
  ensures @agree err == nil ==> (forall k: int, q: int {G(r)[k].v[q]} :: D(r)[k] && 0 <= q < G(r)[k].n ==> G(r)[k].v[q] == V(r)[posn(n.totalUtilityIndex, G(r)[k].v[q].id)] && 0 <= G(r)[k].v[q].id < nv(n) && G(r)[k].v[q].id != n.totalUtilityIndex);
  ensures @known err == nil ==> (forall f: int {fs(n)[f]} :: 0 <= f < nf(n) && !isTot(n, f) ==> dom(nm)[fs(n)[f].For] && (forall q: int {seq(fs(n)[f].Given)[q]} :: 0 <= q < len(fs(n)[f].Given) ==> dom(nm)[seq(fs(n)[f].Given)[q]]));
  ensures @tables err == nil ==> (forall f: int {fs(n)[f]} :: 0 <= f < nf(n) && !isTot(n, f) && ntOf(vs(n), nvs(nm), fs(n)[f].For) != 1 ==>
     (exists k: int {D(r)[k]} :: D(r)[k] && tabRel(G(r)[k], nvs(nm), fs(n)[f].For, seq(fs(n)[f].Given), len(fs(n)[f].Given), seq(fs(n)[f].Table), ntOf(vs(n), nvs(nm), fs(n)[f].For) == 0)));
  ensures @policies err == nil ==> (forall s: str {dom(n.policies)[s]} :: hasPol(n, s) && !dom(evidence)[s] ==> (exists k: int {D(r)[k]} :: D(r)[k] && polRel(G(r)[k], fac(pol(n, s)), vs(n), dom(n.policies))));
  ensures @only err == nil ==> (forall k: int {D(r)[k]} :: D(r)[k] ==> (exists f: int {fs(n)[f]} :: 0 <= f < nf(n) && !isTot(n, f) && dom(nm)[fs(n)[f].For] && ntOf(vs(n), nvs(nm), fs(n)[f].For) != 1 && tabRel(G(r)[k], nvs(nm), fs(n)[f].For, seq(fs(n)[f].Given), len(fs(n)[f].Given), seq(fs(n)[f].Table), ntOf(vs(n), nvs(nm), fs(n)[f].For) == 0))
     || (exists s: str {dom(n.policies)[s]} :: hasPol(n, s) && !dom(evidence)[s] && polRel(G(r)[k], fac(pol(n, s)), vs(n), dom(n.policies))));
  ensures @once err == nil ==> (forall k: int, k2: int {D(r)[k], D(r)[k2]} :: D(r)[k] && D(r)[k2] && k != k2 ==> G(r)[k].v[G(r)[k].n - 1].id != G(r)[k2].v[G(r)[k2].n - 1].id);
  ensures @weights err == nil ==> (n.totalUtilityIndex < 0 ==> r.weights == nil) && (n.totalUtilityIndex >= 0 ==> r.weights != nil && fresh(r.weights) && len(r.weights) == nU(V(r), nV(r))
     && (forall i: int {vs(n)[i]} :: uNode(n, i) ==> (exists p: int {seq(tot(n).Given)[p]} :: 0 <= p < len(tot(n).Given) && seq(tot(n).Given)[p] == vs(n)[i].Name && seq(r.weights)[nU(V(r), posn(n.totalUtilityIndex, i))] == seq(tot(n).Table)[p])));
  ensures @deps err == nil ==> (forall d: ve.Variable {dom(r.dependencies)[d]} :: dom(r.dependencies)[d] ==> d.nodeType == 1 && (exists f: int {fs(n)[f]} :: 0 <= f < nf(n) && dom(nm)[fs(n)[f].For] && d == nvs(nm)[fs(n)[f].For] && depRel(vals(r.dependencies)[d], nvs(nm), seq(fs(n)[f].Given), len(fs(n)[f].Given))));
  ensures @depall err == nil ==> (forall f: int {fs(n)[f]} :: 0 <= f < nf(n) && !isTot(n, f) && nvs(nm)[fs(n)[f].For].nodeType == 1 ==> dom(r.dependencies)[nvs(nm)[fs(n)[f].For]]);
  ensures @alloc err == nil ==> ref(r.variables.variables) <= alloc() && (forall d: ve.Variable {dom(r.dependencies)[d]} :: dom(r.dependencies)[d] ==> allocated(vals(r.dependencies)[d]));
  ensures @depown err == nil ==> (forall d: ve.Variable {dom(r.dependencies)[d]} :: dom(r.dependencies)[d] ==> ref(vals(r.dependencies)[d]) != ref(r.variables.variables));
  ensures @noerr refsOK(n) && utilsTotal(n) ==> err == nil;
  entry { let V0 = vs(n); let N = nv(n); let t = n.totalUtilityIndex; let PD = dom(n.policies); let FS = fs(n); let M = nf(n); let tn = t >= 0 ? V0[t].Name : "";
    let GV = lam f: int :: seq(FS[f].Given); let TT = lam f: int :: seq(FS[f].Table); }
  loop 0 {
    modifies *vars, vars.ids, varNames, varIDs;
    invariant @alloc ref(vars.variables) <= alloc();
    invariant @keep vars.factorCounter == 0 && vars.ids == pre(vars.ids) && fresh(vars.ids) && (vars.variables == nil || ref(vars.variables) > pre(alloc()));
    invariant @len len(vars.variables) == (t >= 0 && t < $k ? $k - 1 : $k);
    invariant @ids forall i: int {dom(vars.ids)[i]} :: dom(vars.ids)[i] ==> 0 <= i < $k;
    invariant @tn totalUtilityName == (t >= 0 && t < $k ? V0[t].Name : "");
    invariant @fwd forall i: int {V0[i]} :: 0 <= i < $k && i != t ==> dom(varNames)[V0[i].Name] && ref(vals(varNames)[V0[i].Name]) == ref(varIDs) && off(vals(varNames)[V0[i].Name]) == off(varIDs) + i;
    invariant @val forall i: int {seq(varIDs)[i]} {V0[i]} :: 0 <= i < $k && i != t ==> seq(varIDs)[i].Variable == V0[i] && isVar(n, i, seq(varIDs)[i].VeVariable) && seq(vars.variables)[posn(t, i)] == seq(varIDs)[i].VeVariable;
    invariant @bwd forall s: str {dom(varNames)[s]} :: dom(varNames)[s] ==> ref(vals(varNames)[s]) == ref(varIDs) && off(varIDs) <= off(vals(varNames)[s]) < off(varIDs) + $k && off(vals(varNames)[s]) != off(varIDs) + t && V0[off(vals(varNames)[s]) - off(varIDs)].Name == s;
    after {
      let al0 = alloc(); assert ref(vars.variables) <= al0; let NV = nvs(varNames); let ND = dom(varNames); let VV = seq(vars.variables); let nVV = len(vars.variables);
      fix s: str | ND[s] { let i = off(vals(varNames)[s]) - off(varIDs); assert seq(varIDs)[i].VeVariable == NV[s]; assert V0[i].Name == s; } show 0 <= NV[s].id < N && NV[s].id != t && V0[NV[s].id].Name == s && isVar(n, NV[s].id, NV[s]) && VV[posn(t, NV[s].id)] == NV[s] && vals(varNames)[s].Variable == V0[NV[s].id];
      fix i: int | 0 <= i < N && i != t { assert ND[V0[i].Name]; } show ND[V0[i].Name] && NV[V0[i].Name].id == i;
      assert okNm(n, varNames);
      fix s: str | isName(V0, N, t, s) { obtain i: int :: 0 <= i < N && i != t && V0[i].Name == s; assert ND[V0[i].Name]; } show ND[s];
      fix p: int | 0 <= p < nVV { let i = t >= 0 && p >= t ? p + 1 : p; assert 0 <= i < N && i != t && posn(t, i) == p; assert ND[V0[i].Name]; assert VV[posn(t, i)] == NV[V0[i].Name]; } show VV[p].id == (t >= 0 && p >= t ? p + 1 : p) && VV[p].index == p && 1 <= VV[p].outcomes;
    }
  }
  loop 1 {
    modifies *vars, factors, dependencies;
    invariant @keep vars.variables == pre(vars.variables) && vars.ids == pre(vars.ids) && vars.factorCounter >= 0;
    invariant @own (fresh(factors) || len(factors) == 0) && (ref(factors) == pre(ref(factors)) || ref(factors) > pre(alloc()));
    invariant @ids forall j: int {seq(factors)[j]} :: 0 <= j < len(factors) ==> 0 <= seq(factors)[j].id < vars.factorCounter && wfD(seq(factors)[j]) && fresh(seq(factors)[j].variables) && ref(seq(factors)[j].variables) > pre(alloc()) && allocated(seq(factors)[j]);
    invariant @inc forall i: int, j: int {seq(factors)[i], seq(factors)[j]} :: 0 <= i < j < len(factors) ==> seq(factors)[i].id < seq(factors)[j].id;
    invariant @only forall j: int {seq(factors)[j]} :: 0 <= j < len(factors) ==> srcT(facs(factors)[j], FS, $k, tn, NV, ND, V0, GV, TT);
    invariant @all forall f: int {FS[f]} :: 0 <= f < $k && !isTot(n, f) && ntOf(V0, NV, FS[f].For) != 1 ==> hitT(facs(factors), len(factors), NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
    invariant @once forall i: int, j: int {seq(factors)[i], seq(factors)[j]} :: 0 <= i < j < len(factors) ==> facs(factors)[i].v[facs(factors)[i].n - 1].id != facs(factors)[j].v[facs(factors)[j].n - 1].id;
    invariant @known forall f: int {FS[f]} :: 0 <= f < $k && !isTot(n, f) ==> ND[FS[f].For] && (forall q: int {GV[f][q]} :: 0 <= q < len(FS[f].Given) ==> ND[GV[f][q]]);
    invariant @deps forall d: ve.Variable {dom(dependencies)[d]} :: dom(dependencies)[d] ==> allocated(vals(dependencies)[d]) && fresh(vals(dependencies)[d]) && ref(vals(dependencies)[d]) > al0 && d.nodeType == 1 && (exists f: int {FS[f]} :: 0 <= f < $k && ND[FS[f].For] && d == NV[FS[f].For] && depRel(vals(dependencies)[d], NV, GV[f], len(FS[f].Given)));
    invariant @depall forall f: int {FS[f]} :: 0 <= f < $k && !isTot(n, f) && NV[FS[f].For].nodeType == 1 ==> dom(dependencies)[NV[FS[f].For]];
    after { let Fa = facs(factors); let m1 = len(factors); let ra = seq(factors); let ca = vars.factorCounter;
      fix j: int | 0 <= j < m1 { let x = seq(factors)[j]; assert Fa[j] == fac(x); } show srcT(Fa[j], FS, M, tn, NV, ND, V0, GV, TT) && 0 <= ra[j].id < ca && ref(ra[j].variables) > al0;
      fix j: int, q: int | 0 <= j < m1 && 0 <= q < Fa[j].n {
        assert srcT(Fa[j], FS, M, tn, NV, ND, V0, GV, TT); obtain f: int :: 0 <= f < M && FS[f].For != tn && ND[FS[f].For] && ntOf(V0, NV, FS[f].For) != 1 && tabRel(Fa[j], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
        use tab_at(Fa[j], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0, q);
        let y = q < len(FS[f].Given) ? GV[f][q] : FS[f].For; assert ND[y]; assert Fa[j].v[q] == NV[y]; assert 0 <= NV[y].id < N && NV[y].id != t && VV[posn(t, NV[y].id)] == NV[y];
      } show 0 <= Fa[j].v[q].id < N && Fa[j].v[q].id != t && Fa[j].v[q] == VV[posn(t, Fa[j].v[q].id)];
    }
    begin { let k0 = $k; let F0 = facs(factors); let n0 = len(factors); let r0 = seq(factors); let c0 = vars.factorCounter; let own = FS[$k].For; let g = len(FS[$k].Given); }
    end {
      let F1 = facs(factors);
      fix j: int | 0 <= j < n0 { assert seq(factors)[j] == r0[j]; } show F1[j] == F0[j];
      fix j: int | 0 <= j < n0 { assert seq(factors)[j] == r0[j]; assert srcT(F0[j], FS, k0, tn, NV, ND, V0, GV, TT); obtain f: int :: 0 <= f < k0 && FS[f].For != tn && ND[FS[f].For] && ntOf(V0, NV, FS[f].For) != 1 && tabRel(F0[j], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0); assert F1[j] == F0[j]; assert FS[f].For == FS[f].For; }
        show srcT(F1[j], FS, k0 + 1, tn, NV, ND, V0, GV, TT);
      fix f: int | 0 <= f < k0 && !isTot(n, f) && ntOf(V0, NV, FS[f].For) != 1 { assert hitT(F0, n0, NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0); obtain j: int :: 0 <= j < n0 && tabRel(F0[j], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0); assert F1[j] == F0[j]; }
        show hitT(F1, len(factors), NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
      fix j: int | 0 <= j < n0 { assert seq(factors)[j] == r0[j]; assert F1[j] == F0[j]; } show wfD(seq(factors)[j]);
      if len(factors) > n0 {
        fix i: int, j: int | 0 <= i < j < g + 1 { } show F1[n0].v[i].id != F1[n0].v[j].id;
        assert wfD(seq(factors)[n0]);
        assert tabRel(F1[n0], NV, own, GV[k0], g, TT[k0], ntOf(V0, NV, own) == 0);
        assert F1[n0].n == g + 1 && F1[n0].v[g] == NV[own];
        fix j: int | 0 <= j < n0 { assert F1[j] == F0[j] && r0[j] == r0[j];
           assert srcT(F0[j], FS, k0, tn, NV, ND, V0, GV, TT); obtain f: int :: 0 <= f < k0 && FS[f].For != tn && ND[FS[f].For] && ntOf(V0, NV, FS[f].For) != 1 && tabRel(F0[j], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
           assert F1[j].v[F1[j].n - 1] == NV[FS[f].For]; assert FS[f].For != own; } show F1[j].v[F1[j].n - 1].id != F1[n0].v[F1[n0].n - 1].id;
        fix i: int, j: int | 0 <= i < j < n0 { assert F1[i] == F0[i] && F1[j] == F0[j]; assert r0[i] == r0[i] && r0[j] == r0[j]; } show F1[i].v[F1[i].n - 1].id != F1[j].v[F1[j].n - 1].id;
        assert len(factors) == n0 + 1 && tabRel(F1[n0], NV, own, GV[k0], g, TT[k0], ntOf(V0, NV, own) == 0);
      }
    }
  }
  aftercall policyFactors { let rb = seq($r); let Pb = facs($r); let m2 = len($r); let PF = lam s: str :: fac(pol(n, s));
    fix s: str | PD[s] && !dom(evidence)[s] { obtain j: int :: 0 <= j < m2 && polRel(fac(seq($r)[j]), fac(pol(n, s)), V0, PD); assert Pb[j] == fac(seq($r)[j]); assert PF[s] == fac(pol(n, s)); } show hitF(Pb, m2, PF[s], V0, PD);
  }
  beforecall New {
    let FL = facs($a1); let fl = seq($a1); let m = len($a1);
    assert m == m1 + m2;
    fix j: int | 0 <= j < m1 { } show fl[j] == ra[j] && FL[j] == Fa[j];
    fix j: int | 0 <= j < m2 { } show fl[m1 + j] == rb[j] && FL[m1 + j] == Pb[j];
    fix j: int | m1 <= j < m { assert fl[m1 + (j - m1)] == rb[j - m1]; } show fl[j] == rb[j - m1] && FL[j] == Pb[j - m1];
    fix i: int, j: int | 0 <= i < j < m { if j < m1 { assert ra[i].id < ra[j].id; } else { assert rb[j - m1].id == ca + (j - m1); if i >= m1 { assert rb[i - m1].id == ca + (i - m1); } else { assert ra[i].id < ca; } } } show fl[i].id != fl[j].id;
    fix j: int | 0 <= j < m { if j < m1 { assert fl[j] == ra[j]; } else { assert fl[j] == rb[j - m1]; } } show wfD(fl[j]) && 0 <= fl[j].id < vars.factorCounter && fresh(fl[j].variables) && ref(fl[j].variables) > al0;
    assert seq(vars.variables) == VV;
    fix j: int, q: int | 0 <= j < m && 0 <= q < FL[j].n {
      if j < m1 {
        assert FL[j] == Fa[j];
      } else {
        assert FL[j] == Pb[j - m1] && rb[j - m1] == rb[j - m1];
        obtain s: str :: PD[s] && !dom(evidence)[s] && polRel(Pb[j - m1], fac(pol(n, s)), V0, PD);
        assert polVar(V0, PD, t, seq(pol(n, s).variables)[q]);
        let i = FL[j].v[q].id;
        assert i == seq(pol(n, s).variables)[q].id && 0 <= i < N && i != t;
        assert ND[V0[i].Name]; assert isVar(n, i, NV[V0[i].Name]); assert VV[posn(t, i)] == NV[V0[i].Name];
      }
    } show 0 <= FL[j].v[q].id < N && FL[j].v[q].id != t && FL[j].v[q] == VV[posn(t, FL[j].v[q].id)];
    fix j: int | 0 <= j < m1 { assert FL[j] == Fa[j];
        assert srcT(Fa[j], FS, M, tn, NV, ND, V0, GV, TT); obtain f: int :: 0 <= f < M && FS[f].For != tn && ND[FS[f].For] && ntOf(V0, NV, FS[f].For) != 1 && tabRel(Fa[j], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
        assert FL[j].v[FL[j].n - 1] == NV[FS[f].For]; } show V0[FL[j].v[FL[j].n - 1].id].NodeType != 1;
    fix j: int | m1 <= j < m { assert FL[j] == Pb[j - m1] && rb[j - m1] == rb[j - m1];
        obtain s: str :: PD[s] && !dom(evidence)[s] && polRel(Pb[j - m1], fac(pol(n, s)), V0, PD);
        let Y = fac(pol(n, s)); assert FL[j].v[Y.n - 1].id == Y.v[Y.n - 1].id; } show V0[FL[j].v[FL[j].n - 1].id].NodeType == 1;
    fix i: int, j: int | 0 <= i < j < m1 { assert FL[i] == Fa[i] && FL[j] == Fa[j]; assert ra[i].id < ra[j].id; } show FL[i].v[FL[i].n - 1].id != FL[j].v[FL[j].n - 1].id;
    fix i: int, j: int | 0 <= i < j < m {
      if j >= m1 && i >= m1 { assert FL[i] == Pb[i - m1] && FL[j] == Pb[j - m1]; assert rb[i - m1] == rb[i - m1] && rb[j - m1] == rb[j - m1]; }
    } show FL[i].v[FL[i].n - 1].id != FL[j].v[FL[j].n - 1].id;
    fix f: int | 0 <= f < M && !isTot(n, f) && ntOf(V0, NV, FS[f].For) != 1 {
      assert hitT(Fa, m1, NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
      obtain j: int :: 0 <= j < m1 && tabRel(Fa[j], NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
      assert FL[j] == Fa[j];
    } show hitT(FL, m, NV, FS[f].For, GV[f], len(FS[f].Given), TT[f], ntOf(V0, NV, FS[f].For) == 0);
    fix s: str | PD[s] && !dom(evidence)[s] {
      assert hitF(Pb, m2, PF[s], V0, PD);
      obtain j: int :: 0 <= j < m2 && polRel(Pb[j], PF[s], V0, PD);
      assert FL[m1 + j] == Pb[j];
    } show hitF(FL, m, PF[s], V0, PD);
  }
  aftercall New {
    let Gr = G($r); let Dr = D($r);
    fix j: int | 0 <= j < m { assert fl[j] == fl[j]; } show Dr[fl[j].id] && Gr[fl[j].id] == FL[j];
    fix k: int | Dr[k] { } show exists j: int {fl[j]} :: 0 <= j < m && fl[j].id == k;
    fix k: int | Dr[k] { obtain j: int :: 0 <= j < m && fl[j].id == k; } show fromF(fl, m, k);
    assert V($r) == VV && nV($r) == nVV;
    fix k: int | Dr[k] { obtain j: int :: 0 <= j < m && fl[j].id == k; assert vals($r.factors)[k] != nil && *vals($r.factors)[k] == fl[j]; assert ref(fl[j].variables) > al0 && wfD(fl[j]); let pk = vals($r.factors)[k]; assert 0 <= k < vars.factorCounter; assert pk.variables == fl[j].variables && pk.data == fl[j].data; assert ref(pk.variables) != ref(vars.variables); } show 0 <= k < vars.factorCounter && wfD(vals($r.factors)[k]) && ref(vals($r.factors)[k].variables) != ref(vars.variables) && vals($r.factors)[k] != nil;
    fix k: int, q: int | Dr[k] && 0 <= q < Gr[k].n { obtain j: int :: 0 <= j < m && fl[j].id == k; assert Gr[k] == FL[j]; let i = FL[j].v[q].id; assert FL[j].v[q] == VV[posn(t, i)]; assert 0 <= posn(t, i) < nVV; assert VV[posn(t, i)].index == posn(t, i); }
      show 0 <= Gr[k].v[q].index < nVV && VV[Gr[k].v[q].index] == Gr[k].v[q] && 0 <= Gr[k].v[q].id < N && Gr[k].v[q].id != t && Gr[k].v[q] == VV[posn(t, Gr[k].v[q].id)];
    assert inV(Gr, Dr, VV, nVV);
    use once_G(Gr, Dr, FL, fl, m);
    fix i: int | 0 <= i < N && i != t { assert isVar(n, i, NV[V0[i].Name]); assert VV[posn(t, i)] == NV[V0[i].Name]; } show VV[posn(t, i)].nodeType == 2 <==> V0[i].NodeType == 2;
    use nU_cnt(VV, V0, N, t, N);
    fix i: int | 0 <= i < N && i != t { use nU_cnt(VV, V0, N, t, i); } show nU(VV, posn(t, i)) == cntUt(V0, t, i);
    fix i: int, j: int | 0 <= i < j < nVV { assert VV[i].index == i && VV[j].index == j; } show VV[i].id != VV[j].id;
  }
  loop 2 {
    modifies variables;
    invariant @v forall q: int {seq(variables)[q]} {GV[k0][q]} :: 0 <= q < $k ==> ND[GV[k0][q]] && seq(variables)[q] == NV[GV[k0][q]];
    after { let dv = seq(variables); }
  }
  beforecall CreateFactor {
    let w = seq($a1);
    assert len($a1) == g + 1 && ntOf(V0, NV, own) != 1;
    fix q: int | 0 <= q < g { assert ND[GV[k0][q]]; } show w[q] == NV[GV[k0][q]] && w[q].outcomes == seq(FS[k0].outcomes)[q];
    assert w[g] == NV[own] && w[g].outcomes == FS[k0].columns;
    use P_PI(w, seq(FS[k0].outcomes), g, FS[k0].columns, 0);
    fix i: int, j: int | 0 <= i < j < g + 1 { assert w[i] == NV[GV[k0][i]]; if j < g { assert w[j] == NV[GV[k0][j]]; assert GV[k0][i] != GV[k0][j]; } else { assert GV[k0][i] != own; } } show w[i].id != w[j].id;
    fix i: int | 0 <= i < g + 1 { if i < g { assert w[i] == NV[GV[k0][i]]; assert ND[GV[k0][i]]; } } show 1 <= w[i].outcomes;
  }
  aftercall CreateFactor {
    let X0 = Fac(len($r.variables), seq($r.variables), seq($r.data));
    use P_ext(w, X0.v, g + 1, 0);
    fix i: int | 0 <= i < g + 1 { } show X0.v[i] == w[i];
    fix i: int, j: int | 0 <= i < j < g + 1 { assert X0.v[i] == w[i] && X0.v[j] == w[j]; } show X0.v[i].id != X0.v[j].id;
    assert wfD($r);
    assert ntOf(V0, NV, own) != 0 ==> tabRel(X0, NV, own, GV[k0], g, TT[k0], false);
  }
  aftercall NormalizeFor {
    let X1 = Fac(len($r.variables), seq($r.variables), seq($r.data));
    obtain p: int :: 0 <= p < g + 1 && X0.v[p].id == NV[own].id && X1.n == g + 1 && without(X0.v, X1.v, g + 1, p) && X1.v[g] == X0.v[p];
    assert p == g;
    fix i: int | 0 <= i < g + 1 { if i < g { assert X1.v[i] == X0.v[i]; } } show X1.v[i] == X0.v[i];
    fix a: [int]int | inrange(X1.v, X1.n, a) {
      fix i: int | 0 <= i < g + 1 { assert X1.v[i] == X0.v[i]; } show 0 <= a[X0.v[i].id] < X0.v[i].outcomes && dig(X1.v, a)[i] == dig(X0.v, a)[i];
      use S_ext(X1.v, g + 1, dig(X1.v, a), dig(X0.v, a), 0);
      use S_extv(X1.v, X0.v, g + 1, dig(X0.v, a), 0);
      use sumA_extv(TT[k0], X1.v, X0.v, g + 1, a, NV[own].id, NV[own].outcomes);
    } show fval(X1, a) == normv(TT[k0], X1.v, X1.n, a, NV[own].id, NV[own].outcomes);
    assert tabRel(X1, NV, own, GV[k0], g, TT[k0], true);
  }
