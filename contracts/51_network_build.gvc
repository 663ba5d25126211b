// network.go: building a network.
macro nf(n) = len(n.factors);
macro fs(n) = seq(n.factors);
// table f is the first one defined for variable i
macro firstFor(n, i, f) = 0 <= f && f < nf(n) && fs(n)[f].For == vs(n)[i].Name && (forall g: int {fs(n)[g]} :: 0 <= g < f ==> fs(n)[g].For != vs(n)[i].Name);
macro noneFor(n, i) = (forall g: int {fs(n)[g]} :: 0 <= g < nf(n) ==> fs(n)[g].For != vs(n)[i].Name);
macro distinctNames(n) = (forall i: int, j: int {vs(n)[i], vs(n)[j]} :: 0 <= i < j < nv(n) ==> vs(n)[i].Name != vs(n)[j].Name);
macro sameVars(n) = n.variables == old(n.variables) && (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) ==> vs(n)[i].Name == old(vs(n)[i].Name) && vs(n)[i].NodeType == old(vs(n)[i].NodeType)
   && vs(n)[i].Outcomes == old(vs(n)[i].Outcomes) && vs(n)[i].Position == old(vs(n)[i].Position) && vs(n)[i].Color == old(vs(n)[i].Color));
macro sameFactors(n) = n.factors == old(n.factors) && (forall f: int {fs(n)[f]} :: 0 <= f < nf(n) ==> fs(n)[f].For == old(fs(n)[f].For) && fs(n)[f].Given == old(fs(n)[f].Given) && fs(n)[f].Table == old(fs(n)[f].Table));
// names index the variables
macro byName(n, m) = (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) ==> dom(m)[vs(n)[i].Name] && ref(vals(m)[vs(n)[i].Name]) == ref(n.variables) && off(vals(m)[vs(n)[i].Name]) == off(n.variables) + i)
  && (forall s: str {dom(m)[s]} :: dom(m)[s] ==> ref(vals(m)[s]) == ref(n.variables) && off(n.variables) <= off(vals(m)[s]) < off(n.variables) + nv(n) && vs(n)[off(vals(m)[s]) - off(n.variables)].Name == s);
macro given(n, i) = seq(vs(n)[i].Factor.Given);
macro ngiven(n, i) = len(vs(n)[i].Factor.Given);
macro isUtil(n, i) = vs(n)[i].NodeType == 2;
macro utilParent(n, i, k, j) = 0 <= k && k < ngiven(n, i) && 0 <= j && j < nv(n) && vs(n)[j].Name == given(n, i)[k] && vs(n)[j].NodeType == 2;
macro otherParent(n, i, k, j) = 0 <= k && k < ngiven(n, i) && 0 <= j && j < nv(n) && vs(n)[j].Name == given(n, i)[k] && vs(n)[j].NodeType != 2;
macro hasUtil(n, i) = (exists k: int, j: int {given(n, i)[k], vs(n)[j]} :: utilParent(n, i, k, j));
macro hasOther(n, i) = (exists k: int, j: int {given(n, i)[k], vs(n)[j]} :: otherParent(n, i, k, j));
macro unknownParent(n, i) = (exists k: int {given(n, i)[k]} :: 0 <= k < ngiven(n, i) && (forall j: int {vs(n)[j]} :: 0 <= j < nv(n) ==> vs(n)[j].Name != given(n, i)[k]));
macro badUtil(n, i) = isUtil(n, i) && (vs(n)[i].Factor == nil || ngiven(n, i) == 0 || unknownParent(n, i) || (hasUtil(n, i) && hasOther(n, i)) || (hasUtil(n, i) && len(vs(n)[i].Outcomes) != ngiven(n, i)));

func bbn.Network.prepareUtilityNodes(n, varNames) returns (err)
  property C17;
  requires n != nil && varNames != nil && byName(n, varNames) && distinctNames(n);
  modifies *n;
  ensures @same n.variables == old(n.variables) && n.factors == old(n.factors) && n.policies == old(n.policies) && n.name == old(n.name) && n.info == old(n.info);
  ensures @table err == nil ==> (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && isUtil(n, i) ==> vs(n)[i].Factor != nil && ngiven(n, i) > 0 && !unknownParent(n, i));
  ensures @mixed err == nil ==> (forall i: int, k: int, k2: int, j: int, j2: int {given(n, i)[k], given(n, i)[k2], vs(n)[j], vs(n)[j2]} :: 0 <= i < nv(n) && isUtil(n, i) && utilParent(n, i, k, j) ==> !otherParent(n, i, k2, j2));
  ensures @total err == nil ==> -1 <= n.totalUtilityIndex < nv(n)
    && (n.totalUtilityIndex >= 0 ==> isUtil(n, n.totalUtilityIndex) && hasUtil(n, n.totalUtilityIndex) && len(vs(n)[n.totalUtilityIndex].Outcomes) == ngiven(n, n.totalUtilityIndex));
  ensures @only err == nil ==> (forall i: int, k: int, j: int {given(n, i)[k], vs(n)[j]} :: 0 <= i < nv(n) && isUtil(n, i) && utilParent(n, i, k, j) ==> i == n.totalUtilityIndex);
  ensures @reason err != nil ==> (exists i: int {vs(n)[i]} :: 0 <= i < nv(n) && badUtil(n, i)) || (exists i: int, i2: int {vs(n)[i], vs(n)[i2]} :: 0 <= i < i2 < nv(n) && isUtil(n, i) && isUtil(n, i2) && hasUtil(n, i) && hasUtil(n, i2));
  exit { if err != nil { if vs(n)[$k0].Factor == nil { assert badUtil(n, $k0); } else { assert badUtil(n, $k0) || (isUtil(n, $k0) && hasUtil(n, $k0) && 0 <= n.totalUtilityIndex < $k0); } } }
  loop 0 {
    invariant @total -1 <= n.totalUtilityIndex < $k
      && (n.totalUtilityIndex >= 0 ==> isUtil(n, n.totalUtilityIndex) && hasUtil(n, n.totalUtilityIndex) && len(vs(n)[n.totalUtilityIndex].Outcomes) == ngiven(n, n.totalUtilityIndex));
    invariant @only (forall i: int, k: int, j: int {given(n, i)[k], vs(n)[j]} :: 0 <= i < $k && isUtil(n, i) && utilParent(n, i, k, j) ==> i == n.totalUtilityIndex);
    invariant @same n.variables == old(n.variables) && n.factors == old(n.factors) && n.policies == old(n.policies) && n.name == old(n.name) && n.info == old(n.info);
    invariant @table (forall i: int {vs(n)[i]} :: 0 <= i < $k && isUtil(n, i) ==> vs(n)[i].Factor != nil && ngiven(n, i) > 0 && !unknownParent(n, i));
    invariant @mixed (forall i: int, k: int, k2: int, j: int, j2: int {given(n, i)[k], given(n, i)[k2], vs(n)[j], vs(n)[j2]} :: 0 <= i < $k && isUtil(n, i) && utilParent(n, i, k, j) ==> !otherParent(n, i, k2, j2));
    modifies *n;
  }
  loop 1 {
    invariant @known forall k: int {given(n, $k0)[k]} :: 0 <= k < $k ==> dom(varNames)[given(n, $k0)[k]];
    invariant @util hasUtilParents <==> (exists k: int {given(n, $k0)[k]} :: 0 <= k < $k && vals(varNames)[given(n, $k0)[k]].NodeType == 2);
    invariant @other hasOtherParents <==> (exists k: int {given(n, $k0)[k]} :: 0 <= k < $k && vals(varNames)[given(n, $k0)[k]].NodeType != 2);
  }

// the table of variable i is linked and knows its sizes
macro linked(n, i, f) = ref(vs(n)[i].Factor) == ref(n.factors) && off(vs(n)[i].Factor) == off(n.factors) + f
  && fs(n)[f].columns == len(vs(n)[i].Outcomes) && len(fs(n)[f].outcomes) == len(fs(n)[f].Given);
macro sized(n, f) = (forall k: int, j: int {seq(fs(n)[f].outcomes)[k], vs(n)[j]} :: 0 <= k < len(fs(n)[f].Given) && 0 <= j < nv(n) && vs(n)[j].Name == seq(fs(n)[f].Given)[k] ==> seq(fs(n)[f].outcomes)[k] == len(vs(n)[j].Outcomes));
macro unknownName(n, s) = (forall j: int {vs(n)[j]} :: 0 <= j < nv(n) ==> vs(n)[j].Name != s);

func bbn.Network.prepareVariables(n) returns (err)
  property C17;
  requires n != nil;
  modifies *n, n.variables, n.factors;
  ensures @keep sameVars(n) && sameFactors(n) && n.policies == old(n.policies) && n.name == old(n.name) && n.info == old(n.info);
  ensures @distinct err == nil ==> distinctNames(n);
  ensures @link err == nil ==> (forall i: int, f: int {vs(n)[i], fs(n)[f]} :: 0 <= i < nv(n) && firstFor(n, i, f) ==> linked(n, i, f));
  ensures @sizes err == nil ==> (forall i: int, f: int {vs(n)[i], fs(n)[f]} :: 0 <= i < nv(n) && firstFor(n, i, f) ==> sized(n, f));
  ensures @utility err == nil ==> (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && isUtil(n, i) ==> vs(n)[i].Factor != nil && ngiven(n, i) > 0 && !unknownParent(n, i));
  ensures @mixed err == nil ==> (forall i: int, k: int, k2: int, j: int, j2: int {given(n, i)[k], given(n, i)[k2], vs(n)[j], vs(n)[j2]} :: 0 <= i < nv(n) && isUtil(n, i) && utilParent(n, i, k, j) ==> !otherParent(n, i, k2, j2));
  ensures @total err == nil ==> -1 <= n.totalUtilityIndex < nv(n)
    && (n.totalUtilityIndex >= 0 ==> isUtil(n, n.totalUtilityIndex) && hasUtil(n, n.totalUtilityIndex) && len(vs(n)[n.totalUtilityIndex].Outcomes) == ngiven(n, n.totalUtilityIndex));
  ensures @only err == nil ==> (forall i: int, k: int, j: int {given(n, i)[k], vs(n)[j]} :: 0 <= i < nv(n) && isUtil(n, i) && utilParent(n, i, k, j) ==> i == n.totalUtilityIndex);
  ensures @known err == nil ==> (forall i: int, f: int, k: int {vs(n)[i], seq(fs(n)[f].Given)[k]} :: 0 <= i < nv(n) && firstFor(n, i, f) && 0 <= k < len(fs(n)[f].Given) ==> !unknownName(n, seq(fs(n)[f].Given)[k]));
  ensures @reason err != nil ==> (exists i: int, j: int {vs(n)[i], vs(n)[j]} :: 0 <= i < j < nv(n) && vs(n)[i].Name == vs(n)[j].Name)
    || (exists i: int, f: int, k: int {vs(n)[i], seq(fs(n)[f].Given)[k]} :: 0 <= i < nv(n) && firstFor(n, i, f) && 0 <= k < len(fs(n)[f].Given) && unknownName(n, seq(fs(n)[f].Given)[k]))
    || (exists i: int {vs(n)[i]} :: 0 <= i < nv(n) && badUtil(n, i)) || (exists i: int, i2: int {vs(n)[i], vs(n)[i2]} :: 0 <= i < i2 < nv(n) && isUtil(n, i) && isUtil(n, i2) && hasUtil(n, i) && hasUtil(n, i2));
  ensures @unlinked err == nil ==> (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && noneFor(n, i) ==> vs(n)[i].Factor == old(vs(n)[i].Factor));
  exit {
    if err != nil && 0 <= $k0 < nv(n) {
      let w = off(vals(varNames)[vs(n)[$k0].Name]) - off(n.variables);
      assert 0 <= w < $k0 && vs(n)[w].Name == vs(n)[$k0].Name;
    }
  }
  loop 0 {
    invariant fresh(varNames) && fresh(outcomes);
    invariant @dist (forall i: int, j: int {vs(n)[i], vs(n)[j]} :: 0 <= i < j < $k ==> vs(n)[i].Name != vs(n)[j].Name);
    invariant @fwd (forall i: int {vs(n)[i]} :: 0 <= i < $k ==> dom(varNames)[vs(n)[i].Name] && ref(vals(varNames)[vs(n)[i].Name]) == ref(n.variables) && off(vals(varNames)[vs(n)[i].Name]) == off(n.variables) + i
        && dom(outcomes)[vs(n)[i].Name] && vals(outcomes)[vs(n)[i].Name] == len(vs(n)[i].Outcomes));
    invariant @bwd (forall s: str {dom(varNames)[s]} :: dom(varNames)[s] ==> ref(vals(varNames)[s]) == ref(n.variables) && off(n.variables) <= off(vals(varNames)[s]) < off(n.variables) + $k && vs(n)[off(vals(varNames)[s]) - off(n.variables)].Name == s);
    invariant @dom forall s: str {dom(outcomes)[s]} {dom(varNames)[s]} :: dom(outcomes)[s] <==> dom(varNames)[s];
    modifies varNames, outcomes;
  }
  loop 1 {
    end {
      let i0 = $k - 1;
      assert forall i: int {vs(n)[i]} :: 0 <= i < i0 ==> vs(n)[i].Name != vs(n)[i0].Name;
      assert forall f: int {fs(n)[f]} :: firstFor(n, i0, f) ==> linked(n, i0, f);
      assert (forall i: int, f: int {vs(n)[i], fs(n)[f]} :: 0 <= i < i0 && firstFor(n, i, f) ==> linked(n, i, f));
    }
    invariant @keep sameVars(n) && sameFactors(n) && n.policies == old(n.policies) && n.name == old(n.name) && n.info == old(n.info);
    invariant @todo forall i: int {vs(n)[i]} :: $k <= i < nv(n) || (0 <= i < $k && noneFor(n, i)) ==> vs(n)[i].Factor == old(vs(n)[i].Factor);
    invariant @link (forall i: int, f: int {vs(n)[i], fs(n)[f]} :: 0 <= i < $k && firstFor(n, i, f) ==> linked(n, i, f));
    invariant @sizes (forall i: int, f: int, k: int {vs(n)[i], seq(fs(n)[f].outcomes)[k]} {vs(n)[i], seq(fs(n)[f].Given)[k]} :: 0 <= i < $k && firstFor(n, i, f) && 0 <= k < len(fs(n)[f].Given) ==> dom(outcomes)[seq(fs(n)[f].Given)[k]] && seq(fs(n)[f].outcomes)[k] == vals(outcomes)[seq(fs(n)[f].Given)[k]]);
    modifies n.variables, n.factors;
  }
  loop 2 {
    invariant @sz forall k: int {seq(v.Factor.outcomes)[k]} :: 0 <= k < $k ==> dom(outcomes)[seq(v.Factor.Given)[k]] && seq(v.Factor.outcomes)[k] == vals(outcomes)[seq(v.Factor.Given)[k]];
    modifies v.Factor.outcomes;
  }

// what a built network guarantees
macro built(n) = distinctNames(n)
  && (forall i: int, f: int {vs(n)[i], fs(n)[f]} :: 0 <= i < nv(n) && firstFor(n, i, f) ==> linked(n, i, f))
  && (forall i: int, f: int {vs(n)[i], fs(n)[f]} :: 0 <= i < nv(n) && firstFor(n, i, f) ==> sized(n, f))
  && (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) && isUtil(n, i) ==> vs(n)[i].Factor != nil && ngiven(n, i) > 0 && !unknownParent(n, i))
  && -1 <= n.totalUtilityIndex && n.totalUtilityIndex < nv(n)
  && (n.totalUtilityIndex >= 0 ==> isUtil(n, n.totalUtilityIndex) && hasUtil(n, n.totalUtilityIndex) && len(vs(n)[n.totalUtilityIndex].Outcomes) == ngiven(n, n.totalUtilityIndex))
  && (forall i: int, k: int, j: int {given(n, i)[k], vs(n)[j]} :: 0 <= i < nv(n) && isUtil(n, i) && utilParent(n, i, k, j) ==> i == n.totalUtilityIndex);

func bbn.New(name, info, variables, factors) returns (net, err)
  property C17;
  modifies variables, factors;
  ensures @nil (err == nil <==> net != nil) && (err == nil ==> fresh(net));
  ensures @fields err == nil ==> net.name == name && net.info == info && net.variables == variables && net.factors == factors && fresh(net.policies) && (forall s: str {dom(net.policies)[s]} :: !dom(net.policies)[s]);
  ensures @kept forall i: int {seq(variables)[i]} :: 0 <= i < len(variables) ==> seq(variables)[i].Name == old(seq(variables)[i].Name) && seq(variables)[i].NodeType == old(seq(variables)[i].NodeType)
      && seq(variables)[i].Outcomes == old(seq(variables)[i].Outcomes) && seq(variables)[i].Position == old(seq(variables)[i].Position) && seq(variables)[i].Color == old(seq(variables)[i].Color);
  ensures @tables forall f: int {seq(factors)[f]} :: 0 <= f < len(factors) ==> seq(factors)[f].For == old(seq(factors)[f].For) && seq(factors)[f].Given == old(seq(factors)[f].Given) && seq(factors)[f].Table == old(seq(factors)[f].Table);
  ensures @built err == nil ==> built(net);

func bbn.Network.Name(n) returns (r)
  property C17;
  requires n != nil;
  ensures r == n.name;
func bbn.Network.Info(n) returns (r)
  property C17;
  requires n != nil;
  ensures r == n.info;
func bbn.Network.Variables(n) returns (r)
  property C17;
  requires n != nil;
  ensures r == n.variables;
func bbn.Network.TotalUtilityIndex(n) returns (r)
  property C17;
  requires n != nil;
  ensures r == n.totalUtilityIndex;
