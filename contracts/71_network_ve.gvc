// network.go: building the solver for a network.

func ve.NewVariables() returns (r)
  property C17;
  ensures r != nil && fresh(r) && fresh(r.ids) && r.factorCounter == 0 && r.variables == nil && len(r.variables) == 0 && r.ids != nil && (forall i: int {dom(r.ids)[i]} :: !dom(r.ids)[i]);

func ve.Variables.AddVariable(m, id, nodeType, outcomes) returns (r)
  property C17;
  requires m != nil && m.ids != nil && len(m.variables) < 65536;
  panics dom(m.ids)[id];
  modifies *m, m.ids, forall j: int :: m.variables != nil && j == 0 ==> m.variables;
  ensures @ids m.ids == old(m.ids) && (forall i: int {dom(m.ids)[i]} :: dom(m.ids)[i] <==> i == id || old(dom(m.ids)[i]));
  ensures @keep m.factorCounter == old(m.factorCounter) && len(m.variables) == old(len(m.variables)) + 1 && (forall i: int {seq(m.variables)[i]} :: 0 <= i < old(len(m.variables)) ==> seq(m.variables)[i] == old(seq(m.variables)[i]));
  ensures @own (old(m.variables) != nil && ref(m.variables) == old(ref(m.variables))) || fresh(m.variables);
  ensures @new r == seq(m.variables)[len(m.variables) - 1] && r.id == id && r.nodeType == nodeType && r.outcomes == outcomes && r.index == old(len(m.variables));

func ve.New(variables, factors, dependencies, weights) returns (r)
  property C01;
  requires variables != nil && (forall i: int, j: int {seq(factors)[i], seq(factors)[j]} :: 0 <= i < j < len(factors) ==> seq(factors)[i].id != seq(factors)[j].id);
  ensures @fields r != nil && fresh(r) && r.variables == variables && r.dependencies == dependencies && r.weights == weights && fresh(r.eliminated) && fresh(r.factors) && r.factors != nil;
  ensures @elim len(r.eliminated) == len(variables.variables) && (forall i: int {seq(r.eliminated)[i]} :: 0 <= i < len(r.eliminated) ==> !seq(r.eliminated)[i]);
  ensures @all forall j: int {seq(factors)[j]} :: 0 <= j < len(factors) ==> dom(r.factors)[seq(factors)[j].id] && vals(r.factors)[seq(factors)[j].id] != nil && *vals(r.factors)[seq(factors)[j].id] == seq(factors)[j];
  ensures @only forall k: int {dom(r.factors)[k]} :: dom(r.factors)[k] ==> (exists j: int {seq(factors)[j]} :: 0 <= j < len(factors) && seq(factors)[j].id == k);
  loop 0 {
    modifies fac;
    invariant @all forall j: int {seq(factors)[j]} :: 0 <= j < $k ==> dom(fac)[seq(factors)[j].id] && vals(fac)[seq(factors)[j].id] != nil && *vals(fac)[seq(factors)[j].id] == seq(factors)[j] && fresh(vals(fac)[seq(factors)[j].id]) && allocated(vals(fac)[seq(factors)[j].id]);
    invariant @only forall k: int {dom(fac)[k]} :: dom(fac)[k] ==> (exists j: int {seq(factors)[j]} :: 0 <= j < $k && seq(factors)[j].id == k);
  }

// number of utility variables before position j, not counting the total-utility node t
define cntUt(V: [int]bbn.Variable, t: int, j: int): int decreases j = j <= 0 ? 0 : cntUt(V, t, j - 1) + (j - 1 != t && V[j - 1].NodeType == 2 ? 1 : 0);
lemma cntUt_mono(V: [int]bbn.Variable, t: int, i: int, j: int)
  requires i <= j;
  ensures 0 <= cntUt(V, t, i) <= cntUt(V, t, j);
  ensures 0 <= i < j && i != t && V[i].NodeType == 2 ==> cntUt(V, t, i) < cntUt(V, t, j);
  decreases j;
{ if i < j && j > 0 { use cntUt_mono(V, t, i, j - 1); } else { if j > 0 { use cntUt_mono(V, t, i - 1, j - 1); } } }

macro uNode(n, i) = 0 <= i && i < nv(n) && i != n.totalUtilityIndex && vs(n)[i].NodeType == 2;
macro tot(n) = vs(n)[n.totalUtilityIndex].Factor;
macro inTotal(n, i) = (exists p: int {seq(tot(n).Given)[p]} :: 0 <= p < len(tot(n).Given) && seq(tot(n).Given)[p] == vs(n)[i].Name);
macro okTotal(n) = -1 <= n.totalUtilityIndex && n.totalUtilityIndex < nv(n) && (n.totalUtilityIndex >= 0 ==> tot(n) != nil && len(tot(n).Table) == len(tot(n).Given));

func bbn.Network.prepareUtilityWeights(n) returns (r, err)
  property C03;
  requires n != nil && okTotal(n);
  ensures @none n.totalUtilityIndex < 0 ==> err == nil && r == nil;
  ensures @err n.totalUtilityIndex >= 0 ==> (err == nil <==> (forall i: int {vs(n)[i]} :: uNode(n, i) ==> inTotal(n, i)));
  ensures @len n.totalUtilityIndex >= 0 && err == nil ==> r != nil && fresh(r) && len(r) == cntUt(vs(n), n.totalUtilityIndex, nv(n));
  ensures @weights n.totalUtilityIndex >= 0 && err == nil ==> (forall i: int {vs(n)[i]} :: uNode(n, i) ==> (exists p: int {seq(tot(n).Given)[p]} :: 0 <= p < len(tot(n).Given) && seq(tot(n).Given)[p] == vs(n)[i].Name
     && seq(r)[cntUt(vs(n), n.totalUtilityIndex, i)] == seq(tot(n).Table)[p]));
  entry { let V0 = vs(n); let N = nv(n); let t = n.totalUtilityIndex; }
  loop 0 {
    modifies utilityNodes;
    invariant fresh(utilityNodes) && (ref(utilityNodes) == pre(ref(utilityNodes)) || ref(utilityNodes) > pre(alloc()));
    invariant @len len(utilityNodes) == cntUt(V0, t, $k);
    invariant @fwd forall i: int {V0[i]} :: 0 <= i < $k && i != t && V0[i].NodeType == 2 ==> 0 <= cntUt(V0, t, i) < len(utilityNodes) && seq(utilityNodes)[cntUt(V0, t, i)] != nil && seq(utilityNodes)[cntUt(V0, t, i)].Name == V0[i].Name;
    invariant @ptr forall q: int {seq(utilityNodes)[q]} :: 0 <= q < len(utilityNodes) ==> seq(utilityNodes)[q] != nil && fresh(seq(utilityNodes)[q]) && allocated(seq(utilityNodes)[q])
       && (exists i: int {V0[i]} :: 0 <= i < $k && i != t && V0[i].NodeType == 2 && cntUt(V0, t, i) == q && seq(utilityNodes)[q].Name == V0[i].Name);
    begin { let k0 = $k; use cntUt_mono(V0, t, 0, $k); }
    end { fix i: int | 0 <= i < k0 { use cntUt_mono(V0, t, i, k0); } show i != t && V0[i].NodeType == 2 ==> cntUt(V0, t, i) < cntUt(V0, t, k0); }
  }
  loop 1 {
    modifies weights;
    invariant @w forall q: int {seq(weights)[q]} {seq(utilityNodes)[q]} :: 0 <= q < $k ==> (exists p: int {seq(tot(n).Given)[p]} :: 0 <= p < len(tot(n).Given) && seq(tot(n).Given)[p] == seq(utilityNodes)[q].Name && seq(weights)[q] == seq(tot(n).Table)[p]);
  }
  exit {
    if t >= 0 && err == nil {
      fix i: int | uNode(n, i) { let q = cntUt(V0, t, i); assert V0[i].NodeType == 2; assert 0 <= q < len(r); assert seq(utilityNodes)[q].Name == V0[i].Name;
        obtain p: int :: 0 <= p < len(tot(n).Given) && seq(tot(n).Given)[p] == seq(utilityNodes)[q].Name && seq(weights)[q] == seq(tot(n).Table)[p]; }
      show exists p: int {seq(tot(n).Given)[p]} :: 0 <= p < len(tot(n).Given) && seq(tot(n).Given)[p] == vs(n)[i].Name && seq(r)[cntUt(vs(n), t, i)] == seq(tot(n).Table)[p];
    }
  }

func bbn.Network.countDecisionSteps(n, stepwise) returns (r)
  property C04;
  requires n != nil;
  ensures @one !stepwise ==> r == 1;
  ensures @steps r >= 1 && (stepwise && cntD(vs(n), nv(n)) > 0 ==> r == cntD(vs(n), nv(n)));
  loop 0 { invariant decisions == cntD(vs(n), $k) && decisions >= 0; }
define cntD(V: [int]bbn.Variable, j: int): int decreases j = j <= 0 ? 0 : cntD(V, j - 1) + (V[j - 1].NodeType == 1 ? 1 : 0);
