// ve/variables.go: factor operations.
// A factor maps an assignment a (variable id -> outcome) to the cell its digits address.

declare dig(v: [int]ve.Variable, a: [int]int): [int]int;
axiom dig_def "definition of the digits an assignment gives a list of variables" =
  forall v: [int]ve.Variable, a: [int]int, j: int {dig(v, a)[j]} :: dig(v, a)[j] == a[v[j].id];

macro distinct(v, n) = forall i: int, j: int {v[i], v[j]} :: 0 <= i < j < n ==> v[i].id != v[j].id;
macro same(v, w, n) = forall j: int {v[j]} {w[j]} :: 0 <= j < n ==> v[j] == w[j];
// w is v without position x
macro without(v, w, n, x) = forall j: int {w[j]} :: 0 <= j < n - 1 ==> w[j] == v[j < x ? j : j + 1];
macro inrange(v, n, a) = forall j: int {v[j]} :: 0 <= j < n ==> 0 <= a[v[j].id] < v[j].outcomes;

lemma P_ext(v: [int]ve.Variable, w: [int]ve.Variable, n: int, i: int)
  requires 0 <= i && same(v, w, n);
  ensures P(v, n, i) == P(w, n, i);
  decreases n - i;
{ if i < n { use P_ext(v, w, n, i + 1); } }

lemma S_extv(v: [int]ve.Variable, w: [int]ve.Variable, n: int, d: [int]int, i: int)
  requires 0 <= i && same(v, w, n);
  ensures S(v, n, d, i) == S(w, n, d, i);
  decreases n - i;
{ if i < n { use P_ext(v, w, n, i + 1); use S_extv(v, w, n, d, i + 1); } }

// product of the first k outcome counts
define Q(v: [int]ve.Variable, k: int): int decreases k = k <= 0 ? 1 : Q(v, k - 1) * v[k - 1].outcomes;
lemma Q_P(v: [int]ve.Variable, n: int, k: int)
  requires 0 <= k <= n;
  ensures Q(v, k) * P(v, n, k) == P(v, n, 0);
  decreases k;
{
  if k > 0 {
    use Q_P(v, n, k - 1);
    assert Q(v, k) * P(v, n, k) == Q(v, k - 1) * P(v, n, k - 1);
  }
}

func ve.Variables.CreateFactor(m, vars, data) returns (r)
  property C06 C07 C08 C09;
  requires m != nil;
  panics data != nil && len(data) != P(seq(vars), len(vars), 0);
  modifies *m;
  ensures @id r.id == old(m.factorCounter);
  ensures @counter m.factorCounter == old(m.factorCounter) + 1 && m.variables == old(m.variables) && m.ids == old(m.ids);
  ensures @vars fresh(r.variables) && len(r.variables) == len(vars) && same(seq(vars), seq(r.variables), len(vars));
  ensures @given data != nil ==> r.data == data;
  ensures @zero data == nil ==> fresh(r.data) && len(r.data) == P(seq(vars), len(vars), 0) && (forall j: int {seq(r.data)[j]} :: 0 <= j < len(r.data) ==> seq(r.data)[j] == 0.0);
  requires outpos(seq(vars), len(vars));
  loop 0 {
    invariant rows == Q(seq(vars), $k);
    invariant len(variables) == len(vars) && fresh(variables) && same(seq(vars), seq(variables), $k);
    modifies variables;
    before { use P_pos(seq(vars), len(vars), 0); }
    after { use Q_P(seq(vars), len(vars), len(vars)); }
  }


macro isvar(v, n, id) = exists j: int {v[j]} :: 0 <= j < n && v[j].id == id;
macro samevar(v, n, x) = forall j: int {v[j]} :: 0 <= j < n && v[j].id == x.id ==> v[j].outcomes == x.outcomes;
macro remdig(d, e, n, x) = forall j: int {e[j]} :: 0 <= j < n - 1 ==> e[j] == d[j < x ? j : j + 1];

// digit vectors that agree on position x and on the remaining ones agree everywhere
lemma rem_inj(d: [int]int, e: [int]int, d2: [int]int, e2: [int]int, n: int, x: int)
  requires 0 <= x < n && remdig(d, e, n, x) && remdig(d2, e2, n, x) && d[x] == d2[x];
  requires forall j: int {e[j]} {e2[j]} :: 0 <= j < n - 1 ==> e[j] == e2[j];
  ensures forall j: int {d[j]} {d2[j]} :: 0 <= j < n ==> d[j] == d2[j];
{
  fix j: int | 0 <= j < n {
    if j < x { assert e[j] == d[j]; assert e2[j] == d2[j]; }
    if j > x { assert e[j - 1] == d[j]; assert e2[j - 1] == d2[j]; }
  } show d[j] == d2[j];
}

lemma rem_digits(v: [int]ve.Variable, w: [int]ve.Variable, d: [int]int, e: [int]int, n: int, x: int)
  requires 0 <= x < n && without(v, w, n, x) && remdig(d, e, n, x) && digits(v, n, d);
  ensures digits(w, n - 1, e);
{ }
lemma rem_outpos(v: [int]ve.Variable, w: [int]ve.Variable, n: int, x: int)
  requires 0 <= x < n && without(v, w, n, x) && outpos(v, n);
  ensures outpos(w, n - 1);
{ }

// the bookkeeping every factor-creating operation does, and that the result shares no memory with anything older
macro newfac(m, r) = r.id == old(m.factorCounter) && m.factorCounter == old(m.factorCounter) + 1 && m.variables == old(m.variables) && m.ids == old(m.ids) && fresh(r.data) && fresh(r.variables);
macro wfD(f) = wfF(f) && distinct(seq(f.variables), len(f.variables));

lemma rem_distinct(v: [int]ve.Variable, w: [int]ve.Variable, n: int, x: int)
  requires 0 <= x < n && without(v, w, n, x) && distinct(v, n);
  ensures distinct(w, n - 1);
{ }

func ve.Variables.Restrict(m, f, x, o) returns (r)
  property C08;
  requires m != nil && f != nil && wfD(f);
  requires samevar(seq(f.variables), len(f.variables), x);
  panics o < 0 || o >= x.outcomes || !isvar(seq(f.variables), len(f.variables), x.id);
  modifies *m;
  ensures @vars exists p: int {seq(f.variables)[p]} :: 0 <= p < len(f.variables) && seq(f.variables)[p].id == x.id && len(r.variables) == len(f.variables) - 1 && without(seq(f.variables), seq(r.variables), len(f.variables), p);
  ensures @wf wfD(r);
  ensures @new newfac(m, r);
  ensures @cells forall a: [int]int {dig(seq(r.variables), a)} :: inrange(seq(f.variables), len(f.variables), a) && a[x.id] == o ==>
     seq(r.data)[S(seq(r.variables), len(r.variables), dig(seq(r.variables), a), 0)] == seq(f.data)[S(seq(f.variables), len(f.variables), dig(seq(f.variables), a), 0)];
  loop 0 {
    invariant @idx -1 <= idx < $k && (idx >= 0 ==> seq(f.variables)[idx].id == x.id);
    invariant @none idx < 0 ==> len(newVars) == $k && same(seq(f.variables), seq(newVars), $k) && (forall j: int {seq(f.variables)[j]} :: 0 <= j < $k ==> seq(f.variables)[j].id != x.id);
    invariant @some idx >= 0 ==> len(newVars) == $k - 1 && without(seq(f.variables), seq(newVars), $k, idx);
    invariant fresh(newVars) && len(newVars) <= cap(newVars) && (ref(newVars) == pre(ref(newVars)) || ref(newVars) > pre(alloc()));
    modifies newVars;
    after { if idx >= 0 { use rem_outpos(seq(f.variables), seq(newVars), len(f.variables), idx); } }
  }
  aftercall CreateFactor {
    let w = seq($r.variables);
    let n = len(f.variables);
    use P_ext(seq(newVars), w, n - 1, 0);
    assert without(seq(f.variables), w, n, idx);
    use rem_outpos(seq(f.variables), w, n, idx);
    use rem_distinct(seq(f.variables), w, n, idx);
    let fd = seq(f.data);
    let fv = seq(f.variables);
  }
  loop 1 {
    modifies fNew.data, oldIndex, newIndex;
    invariant @pos digits(fv, n, seq(oldIndex)) && ($k < len(f.data) ==> S(fv, n, seq(oldIndex), 0) == $k);
    invariant @done forall d: [int]int, e: [int]int {S(fv, n, d, 0), S(w, n - 1, e, 0)} :: digits(fv, n, d) && remdig(d, e, n, idx) && d[idx] == o && S(fv, n, d, 0) < $k ==>
       seq(fNew.data)[S(w, n - 1, e, 0)] == fd[S(fv, n, d, 0)];
    before { use S_zero(fv, n, seq(oldIndex), 0); use forall d: [int]int {S(fv, n, d, 0)} :: digits(fv, n, d) ==> S_bound(fv, n, d, 0); }
    begin { let od = seq(oldIndex); let k0 = $k; }
    end {
      fix d: [int]int, e: [int]int | digits(fv, n, d) && remdig(d, e, n, idx) && d[idx] == o && S(fv, n, d, 0) < $k {
        use rem_digits(fv, w, d, e, n, idx);
        if S(fv, n, d, 0) == k0 {
          use S_inj(fv, n, d, od, 0);
          if od[idx] == o { use S_ext(w, n - 1, e, seq(newIndex), 0); }
        } else {
          if od[idx] == o && S(w, n - 1, e, 0) == S(w, n - 1, seq(newIndex), 0) {
            use S_inj(w, n - 1, e, seq(newIndex), 0);
            use rem_inj(d, e, od, seq(newIndex), n, idx);
            use S_ext(fv, n, d, od, 0);
          }
        }
      } show seq(fNew.data)[S(w, n - 1, e, 0)] == fd[S(fv, n, d, 0)];
    }
  }
  loop 2 {
    modifies newIndex;
    invariant 0 <= j <= idx && (forall i: int {seq(newIndex)[i]} :: 0 <= i < j ==> seq(newIndex)[i] == seq(oldIndex)[i]);
  }
  loop 3 {
    modifies newIndex;
    invariant idx + 1 <= j <= n && (forall i: int {seq(newIndex)[i]} :: 0 <= i < j - 1 ==> seq(newIndex)[i] == seq(oldIndex)[i < idx ? i : i + 1]);
    after { use rem_digits(fv, w, seq(oldIndex), seq(newIndex), n, idx); }
  }
  exit {
    fix a: [int]int | inrange(fv, n, a) && a[x.id] == o {
      use S_bound(fv, n, dig(fv, a), 0);
      assert remdig(dig(fv, a), dig(w, a), n, idx);
    } show seq(r.data)[S(w, n - 1, dig(w, a), 0)] == fd[S(fv, n, dig(fv, a), 0)];
  }

// sum over the outcomes c' < c of position x, of those cells below flat position k
define colsum(D: [int]real, v: [int]ve.Variable, n: int, d: [int]int, x: int, k: int, c: int): real decreases c =
  c <= 0 ? 0.0 : colsum(D, v, n, d, x, k, c - 1) + (S(v, n, d[x := c - 1], 0) < k ? D[S(v, n, d[x := c - 1], 0)] : 0.0);
// sum over the outcomes c' < c of variable id
define sumA(D: [int]real, v: [int]ve.Variable, n: int, a: [int]int, id: int, c: int): real decreases c =
  c <= 0 ? 0.0 : sumA(D, v, n, a, id, c - 1) + D[S(v, n, dig(v, a[id := c - 1]), 0)];

lemma colsum_zero(D: [int]real, v: [int]ve.Variable, n: int, d: [int]int, x: int, c: int)
  requires 0 <= x < n && outpos(v, n) && digits(v, n, d) && 0 <= c <= v[x].outcomes;
  ensures colsum(D, v, n, d, x, 0, c) == 0.0;
  decreases c;
{
  if c > 0 {
    use colsum_zero(D, v, n, d, x, c - 1);
    use S_bound(v, n, d[x := c - 1], 0);
  }
}
lemma colsum_skip(D: [int]real, v: [int]ve.Variable, n: int, d: [int]int, x: int, o: [int]int, y: int, c: int)
  requires 0 <= x < n && 0 <= y < n && y != x && d[y] != o[y] && outpos(v, n) && digits(v, n, d) && digits(v, n, o) && 0 <= c <= v[x].outcomes;
  ensures colsum(D, v, n, d, x, S(v, n, o, 0) + 1, c) == colsum(D, v, n, d, x, S(v, n, o, 0), c);
  decreases c;
{
  if c > 0 {
    use colsum_skip(D, v, n, d, x, o, y, c - 1);
    if S(v, n, d[x := c - 1], 0) == S(v, n, o, 0) {
      use S_inj(v, n, d[x := c - 1], o, 0);
      assert d[x := c - 1][y] == o[y];
    }
  }
}
lemma colsum_hit(D: [int]real, v: [int]ve.Variable, n: int, d: [int]int, x: int, o: [int]int, c: int)
  requires 0 <= x < n && outpos(v, n) && digits(v, n, d) && digits(v, n, o) && 0 <= c <= v[x].outcomes;
  requires forall j: int {d[j]} {o[j]} :: 0 <= j < n && j != x ==> d[j] == o[j];
  ensures colsum(D, v, n, d, x, S(v, n, o, 0) + 1, c) == colsum(D, v, n, d, x, S(v, n, o, 0), c) + (o[x] < c ? D[S(v, n, o, 0)] : 0.0);
  decreases c;
{
  if c > 0 {
    use colsum_hit(D, v, n, d, x, o, c - 1);
    if c - 1 == o[x] {
      use S_ext(v, n, d[x := c - 1], o, 0);
    } else {
      if S(v, n, d[x := c - 1], 0) == S(v, n, o, 0) {
        use S_inj(v, n, d[x := c - 1], o, 0);
        assert d[x := c - 1][x] == o[x];
      }
    }
  }
}
lemma colsum_all(D: [int]real, v: [int]ve.Variable, n: int, a: [int]int, x: int, c: int)
  requires 0 <= x < n && outpos(v, n) && inrange(v, n, a) && distinct(v, n) && 0 <= c <= v[x].outcomes;
  ensures colsum(D, v, n, dig(v, a), x, P(v, n, 0), c) == sumA(D, v, n, a, v[x].id, c);
  decreases c;
{
  if c > 0 {
    use colsum_all(D, v, n, a, x, c - 1);
    assert digits(v, n, dig(v, a)[x := c - 1]);
    use S_bound(v, n, dig(v, a)[x := c - 1], 0);
    use S_ext(v, n, dig(v, a)[x := c - 1], dig(v, a[v[x].id := c - 1]), 0);
  }
}

func ve.Variables.SumOut(m, f, x) returns (r)
  property C07;
  requires m != nil && f != nil && wfD(f);
  requires samevar(seq(f.variables), len(f.variables), x);
  panics !isvar(seq(f.variables), len(f.variables), x.id);
  modifies *m;
  ensures @vars exists p: int {seq(f.variables)[p]} :: 0 <= p < len(f.variables) && seq(f.variables)[p].id == x.id && len(r.variables) == len(f.variables) - 1 && without(seq(f.variables), seq(r.variables), len(f.variables), p);
  ensures @wf wfD(r);
  ensures @new newfac(m, r);
  ensures @cells forall a: [int]int {dig(seq(r.variables), a)} :: inrange(seq(f.variables), len(f.variables), a) ==>
     seq(r.data)[S(seq(r.variables), len(r.variables), dig(seq(r.variables), a), 0)] == sumA(seq(f.data), seq(f.variables), len(f.variables), a, x.id, x.outcomes);
  loop 0 {
    invariant @idx -1 <= idx < $k && (idx >= 0 ==> seq(f.variables)[idx].id == x.id);
    invariant @none idx < 0 ==> len(newVars) == $k && same(seq(f.variables), seq(newVars), $k) && (forall j: int {seq(f.variables)[j]} :: 0 <= j < $k ==> seq(f.variables)[j].id != x.id);
    invariant @some idx >= 0 ==> len(newVars) == $k - 1 && without(seq(f.variables), seq(newVars), $k, idx);
    invariant fresh(newVars) && len(newVars) <= cap(newVars) && (ref(newVars) == pre(ref(newVars)) || ref(newVars) > pre(alloc()));
    modifies newVars;
    after { if idx >= 0 { use rem_outpos(seq(f.variables), seq(newVars), len(f.variables), idx); } }
  }
  aftercall CreateFactor {
    let w = seq($r.variables);
    let n = len(f.variables);
    let p = idx;
    use P_ext(seq(newVars), w, n - 1, 0);
    assert without(seq(f.variables), w, n, idx);
    use rem_outpos(seq(f.variables), w, n, idx);
    use rem_distinct(seq(f.variables), w, n, idx);
    let fd = seq(f.data);
    let fv = seq(f.variables);
    let out = fv[p].outcomes;
  }
  loop 1 {
    modifies fNew.data, oldIndex, newIndex;
    invariant @pos digits(fv, n, seq(oldIndex)) && ($k < len(f.data) ==> S(fv, n, seq(oldIndex), 0) == $k);
    invariant @done forall d: [int]int, e: [int]int {S(fv, n, d, 0), S(w, n - 1, e, 0)} :: digits(fv, n, d) && remdig(d, e, n, p) ==>
       seq(fNew.data)[S(w, n - 1, e, 0)] == colsum(fd, fv, n, d, p, $k, out);
    before {
      use S_zero(fv, n, seq(oldIndex), 0);
      fix d: [int]int, e: [int]int | digits(fv, n, d) && remdig(d, e, n, p) {
        use rem_digits(fv, w, d, e, n, p);
        use S_bound(w, n - 1, e, 0);
        use colsum_zero(fd, fv, n, d, p, out);
      } show seq(fNew.data)[S(w, n - 1, e, 0)] == colsum(fd, fv, n, d, p, 0, out);
    }
    begin { let od = seq(oldIndex); let k0 = $k; let nd0 = seq(fNew.data); }
    end {
      let ne = seq(newIndex);
      fix d: [int]int, e: [int]int | digits(fv, n, d) && remdig(d, e, n, p) {
        use rem_digits(fv, w, d, e, n, p);
        use S_bound(fv, n, d, 0);
        assert nd0[S(w, n - 1, e, 0)] == colsum(fd, fv, n, d, p, k0, out);
        if S(w, n - 1, e, 0) == S(w, n - 1, ne, 0) {
          use S_inj(w, n - 1, e, ne, 0);
          use rem_inj(d[p := od[p]], e, od, ne, n, p);
          use colsum_hit(fd, fv, n, d, p, od, out);
        } else {
          if (forall j: int {e[j]} {ne[j]} :: 0 <= j < n - 1 ==> e[j] == ne[j]) { use S_ext(w, n - 1, e, ne, 0); }
          obtain q: int :: 0 <= q < n - 1 && e[q] != ne[q];
          use colsum_skip(fd, fv, n, d, p, od, q < p ? q : q + 1, out);
        }
      } show seq(fNew.data)[S(w, n - 1, e, 0)] == colsum(fd, fv, n, d, p, $k, out);
    }
  }
  loop 2 {
    modifies newIndex;
    invariant 0 <= j <= p && (forall i: int {seq(newIndex)[i]} :: 0 <= i < j ==> seq(newIndex)[i] == seq(oldIndex)[i]);
  }
  loop 3 {
    modifies newIndex;
    invariant p + 1 <= j <= n && (forall i: int {seq(newIndex)[i]} :: 0 <= i < j - 1 ==> seq(newIndex)[i] == seq(oldIndex)[i < p ? i : i + 1]);
    after { use rem_digits(fv, w, seq(oldIndex), seq(newIndex), n, p); use S_bound(w, n - 1, seq(newIndex), 0); }
  }
  exit {
    fix a: [int]int | inrange(fv, n, a) {
      use S_bound(fv, n, dig(fv, a), 0);
      assert remdig(dig(fv, a), dig(w, a), n, p);
      use colsum_all(fd, fv, n, a, p, out);
    } show seq(r.data)[S(w, n - 1, dig(w, a), 0)] == sumA(fd, fv, n, a, x.id, out);
  }

// ---- Marginal

// digit i of flat position t (of the digits m.. n-1)
define dgt(v: [int]ve.Variable, n: int, i: int, t: int, m: int): int decreases i - m =
  m >= i ? t / P(v, n, i + 1) : dgt(v, n, i, t % P(v, n, m + 1), m + 1);
lemma S_dgt(v: [int]ve.Variable, n: int, d: [int]int, i: int, m: int)
  requires 0 <= m <= i && i < n && outpos(v, n) && digits(v, n, d);
  ensures dgt(v, n, i, S(v, n, d, m), m) == d[i];
  decreases i - m;
{
  use S_bound(v, n, d, m + 1);
  use P_pos(v, n, m + 1);
  use divmod_unique(S(v, n, d, m), P(v, n, m + 1), d[m], S(v, n, d, m + 1));
  if m < i { use S_dgt(v, n, d, i, m + 1); }
}
// sum of the entries below position k whose digit i is c
define marg(D: [int]real, v: [int]ve.Variable, n: int, i: int, c: int, k: int): real decreases k =
  k <= 0 ? 0.0 : marg(D, v, n, i, c, k - 1) + (dgt(v, n, i, k - 1, 0) == c ? D[k - 1] : 0.0);

func ve.Variables.Marginal(m, f, x) returns (r)
  property C07;
  requires m != nil && f != nil && wfD(f);
  requires samevar(seq(f.variables), len(f.variables), x);
  panics !isvar(seq(f.variables), len(f.variables), x.id);
  modifies *m;
  ensures @vars len(r.variables) == 1 && seq(r.variables)[0] == x;
  ensures @wf wfD(r);
  ensures @size len(r.data) == x.outcomes;
  ensures @new newfac(m, r);
  ensures @cells forall p: int, c: int {marg(seq(f.data), seq(f.variables), len(f.variables), p, c, len(f.data))} :: 0 <= p < len(f.variables) && seq(f.variables)[p].id == x.id && 0 <= c < x.outcomes ==>
     seq(r.data)[c] == marg(seq(f.data), seq(f.variables), len(f.variables), p, c, len(f.data));
  loop 0 {
    invariant idx == -1;
    invariant @none forall j: int {seq(f.variables)[j]} :: 0 <= j < $k ==> seq(f.variables)[j].id != x.id;
  }
  aftercall CreateFactor {
    let w = seq($r.variables);
    assert P(w, 1, 1) == 1;
    assert P(w, 1, 0) == x.outcomes;
    assert P(seq(newVars), 1, 1) == 1;
    assert P(seq(newVars), 1, 0) == x.outcomes;
    let n = len(f.variables);
    let p = idx;
    let fd = seq(f.data);
    let fv = seq(f.variables);
    assert fv[p].id == x.id && fv[p].outcomes == x.outcomes;
  }
  loop 1 {
    modifies fNew.data, oldIndex;
    invariant @pos digits(fv, n, seq(oldIndex)) && ($k < len(f.data) ==> S(fv, n, seq(oldIndex), 0) == $k);
    invariant @done forall c: int {seq(fNew.data)[c]} {marg(fd, fv, n, p, c, $k)} :: 0 <= c < x.outcomes ==> seq(fNew.data)[c] == marg(fd, fv, n, p, c, $k);
    before { use S_zero(fv, n, seq(oldIndex), 0); }
    begin { use S_dgt(fv, n, seq(oldIndex), p, 0); }
  }

// ---- Normalize, Invert

define total(D: [int]real, b: int, c: int): real decreases c = c <= 0 ? 0.0 : total(D, b, c - 1) + D[b + c - 1];
lemma total_ext(D: [int]real, E: [int]real, b: int, c: int)
  requires forall j: int {D[j]} {E[j]} :: b <= j < b + c ==> D[j] == E[j];
  ensures total(D, b, c) == total(E, b, c);
  decreases c;
{ if c > 0 { use total_ext(D, E, b, c - 1); } }

func ve.Variables.Normalize(m, f) returns (r)
  property C02;
  requires m != nil && f != nil && wfD(f);
  modifies *m;
  allowfdiv0;
  ensures @vars len(r.variables) == len(f.variables) && same(seq(f.variables), seq(r.variables), len(f.variables));
  ensures @wf wfD(r);
  ensures @new newfac(m, r);
  ensures @cells total(seq(f.data), 0, len(f.data)) != 0.0 ==> (forall j: int {seq(r.data)[j]} {seq(f.data)[j]} :: 0 <= j < len(f.data) ==> seq(r.data)[j] == seq(f.data)[j] / total(seq(f.data), 0, len(f.data)));
  ensures @size len(r.data) == len(f.data);
  entry { use P_pos(seq(f.variables), len(f.variables), 0); }
  aftercall CreateFactor { use P_ext(seq(f.variables), seq($r.variables), len(f.variables), 0); let g = seq($r.data); use total_ext(g, seq(f.data), 0, len(f.data)); }
  loop 0 { invariant sum == total(g, 0, $k); }
  loop 1 {
    modifies fNew.data;
    invariant sum != 0.0 ==> (forall j: int {seq(fNew.data)[j]} :: 0 <= j < $k ==> seq(fNew.data)[j] == g[j] / sum);
    invariant forall j: int {seq(fNew.data)[j]} :: $k <= j < len(f.data) ==> seq(fNew.data)[j] == g[j];
  }

func ve.Variables.Invert(m, f) returns (r)
  property C03;
  requires m != nil && f != nil && wfD(f);
  modifies *m;
  allowfdiv0;
  ensures @vars len(r.variables) == len(f.variables) && same(seq(f.variables), seq(r.variables), len(f.variables));
  ensures @wf wfD(r);
  ensures @new newfac(m, r);
  ensures @cells forall j: int {seq(r.data)[j]} {seq(f.data)[j]} :: 0 <= j < len(f.data) && seq(f.data)[j] != 0.0 ==> seq(r.data)[j] == 1.0 / seq(f.data)[j];
  ensures @size len(r.data) == len(f.data);
  entry { use P_pos(seq(f.variables), len(f.variables), 0); }
  aftercall CreateFactor { use P_ext(seq(f.variables), seq($r.variables), len(f.variables), 0); let g = seq($r.data); }
  loop 0 {
    modifies fNew.data;
    invariant forall j: int {seq(fNew.data)[j]} :: 0 <= j < $k && g[j] != 0.0 ==> seq(fNew.data)[j] == 1.0 / g[j];
    invariant forall j: int {seq(fNew.data)[j]} :: $k <= j < len(f.data) ==> seq(fNew.data)[j] == g[j];
  }

// ---- Rearrange

// no injection from n to fewer than n values
lemma no_inj(ix: [int]int, n: int, m: int)
  requires 0 <= m < n;
  requires forall j: int {ix[j]} :: 0 <= j < n ==> 0 <= ix[j] < m;
  requires forall i: int, j: int {ix[i], ix[j]} :: 0 <= i < j < n ==> ix[i] != ix[j];
  ensures false;
  decreases m;
{
  assert 0 <= ix[0] < m;
  let t = ix[n - 1];
  let iy = lam j: int :: ix[j] == m - 1 ? t : ix[j];
  use no_inj(iy, n - 1, m - 1);
}
lemma pigeon(ix: [int]int, n: int, q: int)
  requires 0 <= q < n;
  requires forall j: int {ix[j]} :: 0 <= j < n ==> 0 <= ix[j] < n;
  requires forall i: int, j: int {ix[i], ix[j]} :: 0 <= i < j < n ==> ix[i] != ix[j];
  ensures exists j: int {ix[j]} :: 0 <= j < n && ix[j] == q;
{
  if !(exists j: int {ix[j]} :: 0 <= j < n && ix[j] == q) {
    let iy = lam j: int :: ix[j] == n - 1 ? q : ix[j];
    use no_inj(iy, n, n - 1);
  }
}

func ve.Variables.Rearrange(m, f, vars) returns (r)
  property C09;
  requires m != nil && f != nil && wfD(f) && distinct(seq(vars), len(vars));
  panics len(f.variables) != len(vars) || !(forall i: int {seq(vars)[i]} :: 0 <= i < len(vars) ==> (exists j: int {seq(f.variables)[j]} :: 0 <= j < len(f.variables) && seq(f.variables)[j] == seq(vars)[i]));
  modifies *m;
  ensures @vars len(r.variables) == len(vars) && same(seq(vars), seq(r.variables), len(vars));
  ensures @wf wfD(r);
  ensures @new newfac(m, r);
  ensures @cells forall a: [int]int {dig(seq(r.variables), a)} {dig(seq(f.variables), a)} :: inrange(seq(f.variables), len(f.variables), a) ==>
     seq(r.data)[S(seq(r.variables), len(r.variables), dig(seq(r.variables), a), 0)] == seq(f.data)[S(seq(f.variables), len(f.variables), dig(seq(f.variables), a), 0)];
  entry { use P_pos(seq(f.variables), len(f.variables), 0); }
  loop 0 {
    modifies indices;
    invariant len(indices) == len(vars);
    invariant @ix forall j: int {seq(indices)[j]} {seq(vars)[j]} :: 0 <= j < $k ==> 0 <= seq(indices)[j] < len(f.variables) && seq(f.variables)[seq(indices)[j]] == seq(vars)[j];
    invariant @eq varsEqual ==> (forall j: int {seq(vars)[j]} :: 0 <= j < $k ==> seq(vars)[j].id == seq(f.variables)[j].id);
  }
  aftercall CreateFactor#0 {
    let w = seq($r.variables);
    let n = len(f.variables);
    let fv = seq(f.variables);
    use P_ext(fv, w, n, 0);
    assert same(fv, seq(vars), n);
    fix a: [int]int | inrange(fv, n, a) {
      use S_extv(fv, w, n, dig(fv, a), 0);
      use S_ext(w, n, dig(fv, a), dig(w, a), 0);
      use S_bound(fv, n, dig(fv, a), 0);
    } show seq($r.data)[S(w, n, dig(w, a), 0)] == seq(f.data)[S(fv, n, dig(fv, a), 0)];
  }
  beforecall CreateFactor#1 {
    assert outpos(seq(vars), len(vars));
  }
  aftercall CreateFactor#1 {
    let w = seq($r.variables);
    let n = len(f.variables);
    let fv = seq(f.variables);
    let fd = seq(f.data);
    let ix = seq(indices);
    use P_ext(seq(vars), w, n, 0);
    use forall q: int {fv[q]} :: 0 <= q < n ==> pigeon(ix, n, q);
    assert outpos(w, n);
  }
  loop 1 {
    modifies fNew.data, oldIndex, newIndex;
    invariant @pos digits(w, n, seq(newIndex)) && ($k < len(fNew.data) ==> S(w, n, seq(newIndex), 0) == $k);
    invariant @done forall a: [int]int {dig(w, a)} {dig(fv, a)} :: inrange(fv, n, a) && S(w, n, dig(w, a), 0) < $k ==>
       seq(fNew.data)[S(w, n, dig(w, a), 0)] == fd[S(fv, n, dig(fv, a), 0)];
    before { use S_zero(w, n, seq(newIndex), 0); use forall a: [int]int {dig(w, a)} {dig(fv, a)} :: inrange(fv, n, a) ==> S_bound(w, n, dig(w, a), 0); }
    begin { let od = seq(newIndex); let k0 = $k; }
    end {
      fix a: [int]int | inrange(fv, n, a) && S(w, n, dig(w, a), 0) < $k {
        assert digits(w, n, dig(w, a));
        use S_bound(w, n, dig(w, a), 0);
        if S(w, n, dig(w, a), 0) == k0 {
          use S_inj(w, n, dig(w, a), od, 0);
          fix q: int | 0 <= q < n {
            assert fv[q].outcomes >= 1;
            obtain j: int :: 0 <= j < n && ix[j] == q;
          } show seq(oldIndex)[q] == dig(fv, a)[q];
          use S_ext(fv, n, seq(oldIndex), dig(fv, a), 0);
        }
      } show seq(fNew.data)[S(w, n, dig(w, a), 0)] == fd[S(fv, n, dig(fv, a), 0)];
    }
  }
  loop 2 {
    modifies oldIndex;
    invariant forall i: int {ix[i]} :: 0 <= i < $k ==> seq(oldIndex)[ix[i]] == seq(newIndex)[i];
    after {
      fix q: int | 0 <= q < n {
        assert fv[q].outcomes >= 1;
        obtain j: int :: 0 <= j < n && ix[j] == q;
      } show 0 <= seq(oldIndex)[q] < fv[q].outcomes;
    }
  }
  exit {
    use forall a: [int]int {dig(w, a)} {dig(fv, a)} :: inrange(fv, n, a) ==> S_bound(w, n, dig(w, a), 0);
  }

// ---- NormalizeFor

lemma P_snoc(v: [int]ve.Variable, n: int, i: int)
  requires 0 <= i < n;
  ensures P(v, n, i) == P(v, n - 1, i) * v[n - 1].outcomes;
  decreases n - i;
{
  if i < n - 1 {
    use P_snoc(v, n, i + 1);
    assert v[i].outcomes * (P(v, n - 1, i + 1) * v[n - 1].outcomes) == (v[i].outcomes * P(v, n - 1, i + 1)) * v[n - 1].outcomes;
  } else { assert P(v, n, n) == 1; assert P(v, n - 1, n - 1) == 1; }
}
lemma S_snoc(v: [int]ve.Variable, n: int, d: [int]int, i: int)
  requires 0 <= i < n;
  ensures S(v, n, d, i) == S(v, n - 1, d, i) * v[n - 1].outcomes + d[n - 1];
  decreases n - i;
{
  if i < n - 1 {
    use S_snoc(v, n, d, i + 1);
    use P_snoc(v, n, i + 1);
    assert d[i] * (P(v, n - 1, i + 1) * v[n - 1].outcomes) == (d[i] * P(v, n - 1, i + 1)) * v[n - 1].outcomes;
  } else { assert P(v, n, n) == 1; assert S(v, n, d, n) == 0; assert S(v, n - 1, d, n - 1) == 0; }
}

// if g is fd laid out with variable w[n-1] last, a row of g sums up what sumA sums up
lemma row_sumA(g: [int]real, w: [int]ve.Variable, fd: [int]real, fv: [int]ve.Variable, n: int, p: int, a: [int]int, c: int)
  requires 0 <= p < n && w[n - 1] == fv[p] && distinct(w, n) && distinct(fv, n) && inrange(fv, n, a) && 0 <= c <= fv[p].outcomes;
  requires forall b: [int]int {dig(fv, b)} {dig(w, b)} :: inrange(fv, n, b) ==> g[S(w, n, dig(w, b), 0)] == fd[S(fv, n, dig(fv, b), 0)];
  ensures total(g, S(w, n - 1, dig(w, a), 0) * fv[p].outcomes, c) == sumA(fd, fv, n, a, fv[p].id, c);
  decreases c;
{
  if c > 0 {
    use row_sumA(g, w, fd, fv, n, p, a, c - 1);
    let b = a[fv[p].id := c - 1];
    assert inrange(fv, n, b);
    assert g[S(w, n, dig(w, b), 0)] == fd[S(fv, n, dig(fv, b), 0)];
    use S_snoc(w, n, dig(w, b), 0);
    use S_ext(w, n - 1, dig(w, b), dig(w, a), 0);
  }
}

define nrm(g: [int]real, w: int, t: int): real decreases 0 =
  total(g, t / w * w, w) == 0.0 ? g[t] : g[t] / total(g, t / w * w, w);

func ve.Variables.NormalizeFor(m, f, x) returns (r)
  property C02;
  requires m != nil && f != nil && wfD(f);
  requires samevar(seq(f.variables), len(f.variables), x);
  panics !isvar(seq(f.variables), len(f.variables), x.id);
  modifies *m;
  ensures @vars exists p: int {seq(f.variables)[p]} :: 0 <= p < len(f.variables) && seq(f.variables)[p].id == x.id && len(r.variables) == len(f.variables) && without(seq(f.variables), seq(r.variables), len(f.variables), p) && seq(r.variables)[len(f.variables) - 1] == seq(f.variables)[p];
  ensures @wf wfD(r);
  ensures @new newfac(m, r);
  ensures @cells forall a: [int]int {dig(seq(r.variables), a)} :: inrange(seq(f.variables), len(f.variables), a) ==>
     seq(r.data)[S(seq(r.variables), len(r.variables), dig(seq(r.variables), a), 0)] ==
       (sumA(seq(f.data), seq(f.variables), len(f.variables), a, x.id, x.outcomes) == 0.0
        ? seq(f.data)[S(seq(f.variables), len(f.variables), dig(seq(f.variables), a), 0)]
        : seq(f.data)[S(seq(f.variables), len(f.variables), dig(seq(f.variables), a), 0)] / sumA(seq(f.data), seq(f.variables), len(f.variables), a, x.id, x.outcomes));
  loop 0 {
    invariant idx == -1;
    invariant @none forall j: int {seq(f.variables)[j]} :: 0 <= j < $k ==> seq(f.variables)[j].id != x.id;
  }
  loop 1 {
    modifies newVars;
    invariant 0 <= i <= idx && (forall j: int {seq(newVars)[j]} :: 0 <= j < i ==> seq(newVars)[j] == seq(f.variables)[j]);
  }
  loop 2 {
    modifies newVars;
    invariant idx + 1 <= i <= len(f.variables) && (forall j: int {seq(newVars)[j]} :: 0 <= j < i - 1 ==> seq(newVars)[j] == seq(f.variables)[j < idx ? j : j + 1]);
  }
  beforecall Rearrange {
    let n = len(f.variables);
    let fd = seq(f.data);
    let fv = seq(f.variables);
    let p = idx;
    assert without(fv, seq(newVars), n, p) && seq(newVars)[n - 1] == fv[p];
    fix i: int | 0 <= i < n {
      let j = i == n - 1 ? p : (i < p ? i : i + 1);
      assert 0 <= j < n && fv[j] == seq(newVars)[i];
    } show exists j: int {fv[j]} :: 0 <= j < n && fv[j] == seq(newVars)[i];
  }
  aftercall Rearrange {
    let w = seq($r.variables);
    let g = seq($r.data);
    assert without(fv, w, n, p) && w[n - 1] == fv[p];
    let out = fv[p].outcomes;
    let bins0 = P(w, n - 1, 0);
    use P_snoc(w, n, 0);
    use P_pos(w, n - 1, 0);
    use divmod_unique(len($r.data), out, bins0, 0);
    let target = lam t: int :: nrm(g, out, t);
  }
  loop 3 {
    modifies fNew.data;
    invariant 0 <= i <= bins0;
    invariant @rest forall t: int {seq(fNew.data)[t]} :: i * out <= t < bins0 * out ==> seq(fNew.data)[t] == g[t];
    invariant @done forall t: int {seq(fNew.data)[t]} :: 0 <= t < i * out ==> seq(fNew.data)[t] == target[t];
    begin { let i0 = i; use mul_mono(i + 1, bins0, out); use mul_nonneg(i, out);
      fix t: int | i0 * out <= t < i0 * out + out { use divmod_unique(t, out, i0, t - i0 * out); } show t / out == i0; }
    end { assert i == i0 + 1; assert i * out == i0 * out + out; }
  }
  loop 4 {
    invariant 0 <= j <= out && sum == total(g, i * out, j);
  }
  loop 5 {
    modifies fNew.data;
    invariant 0 <= j <= out;
    invariant @rest forall t: int {seq(fNew.data)[t]} :: i * out + j <= t < bins0 * out ==> seq(fNew.data)[t] == g[t];
    invariant @row forall t: int {seq(fNew.data)[t]} :: i * out <= t < i * out + j ==> seq(fNew.data)[t] == target[t];
    invariant @done forall t: int {seq(fNew.data)[t]} :: 0 <= t < i * out ==> seq(fNew.data)[t] == target[t];
    begin { use divmod_unique(i * out + j, out, i, j); }
  }
  exit {
    fix a: [int]int | inrange(fv, n, a) {
      assert digits(w, n, dig(w, a));
      use S_bound(w, n, dig(w, a), 0);
      use S_snoc(w, n, dig(w, a), 0);
      let q = S(w, n - 1, dig(w, a), 0);
      use divmod_unique(S(w, n, dig(w, a), 0), out, q, dig(w, a)[n - 1]);
      use row_sumA(g, w, fd, fv, n, p, a, out);
      assert g[S(w, n, dig(w, a), 0)] == fd[S(fv, n, dig(fv, a), 0)];
      assert seq(r.data)[S(w, n, dig(w, a), 0)] == target[S(w, n, dig(w, a), 0)];
    } show seq(r.data)[S(w, n, dig(w, a), 0)] ==
       (sumA(fd, fv, n, a, x.id, out) == 0.0 ? fd[S(fv, n, dig(fv, a), 0)] : fd[S(fv, n, dig(fv, a), 0)] / sumA(fd, fv, n, a, x.id, out));
  }
