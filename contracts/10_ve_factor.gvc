// ve/factor.go: mixed radix indexing.
// P: number of cells spanned by variables i..n-1.  S: flat index of digits i..n-1.

define P(v: [int]ve.Variable, n: int, i: int): int decreases n - i =
  i >= n ? 1 : v[i].outcomes * P(v, n, i + 1);
define S(v: [int]ve.Variable, n: int, d: [int]int, i: int): int decreases n - i =
  i >= n ? 0 : d[i] * P(v, n, i + 1) + S(v, n, d, i + 1);

macro outpos(v, n) = forall j: int {v[j]} :: 0 <= j < n ==> 1 <= v[j].outcomes;
macro digits(v, n, d) = forall j: int {d[j]} :: 0 <= j < n ==> 0 <= d[j] < v[j].outcomes;

lemma P_pos(v: [int]ve.Variable, n: int, i: int)
  requires 0 <= i && outpos(v, n);
  ensures 1 <= P(v, n, i);
  decreases n - i;
{ if i < n { use P_pos(v, n, i + 1); use mul_pos(v[i].outcomes, P(v, n, i + 1)); } }

lemma S_bound(v: [int]ve.Variable, n: int, d: [int]int, i: int)
  requires 0 <= i && outpos(v, n) && (forall j: int {d[j]} :: i <= j < n ==> 0 <= d[j] < v[j].outcomes);
  ensures 0 <= S(v, n, d, i) < P(v, n, i);
  decreases n - i;
{
  if i < n {
    use S_bound(v, n, d, i + 1);
    use P_pos(v, n, i + 1);
    use mul_nonneg(d[i], P(v, n, i + 1));
    use mul_mono(d[i] + 1, v[i].outcomes, P(v, n, i + 1));
  }
}

lemma S_ext(v: [int]ve.Variable, n: int, d: [int]int, e: [int]int, i: int)
  requires 0 <= i && (forall j: int :: i <= j < n ==> d[j] == e[j]);
  ensures S(v, n, d, i) == S(v, n, e, i);
  decreases n - i;
{ if i < n { use S_ext(v, n, d, e, i + 1); } }

lemma S_inj(v: [int]ve.Variable, n: int, d: [int]int, e: [int]int, i: int)
  requires 0 <= i && outpos(v, n);
  requires forall j: int {d[j]} :: i <= j < n ==> 0 <= d[j] < v[j].outcomes;
  requires forall j: int {e[j]} :: i <= j < n ==> 0 <= e[j] < v[j].outcomes;
  requires S(v, n, d, i) == S(v, n, e, i);
  ensures forall j: int {d[j]} {e[j]} :: i <= j < n ==> d[j] == e[j];
  decreases n - i;
{
  if i < n {
    use S_bound(v, n, d, i + 1);
    use S_bound(v, n, e, i + 1);
    use P_pos(v, n, i + 1);
    use divmod_unique(S(v, n, d, i), P(v, n, i + 1), d[i], S(v, n, d, i + 1));
    use divmod_unique(S(v, n, d, i), P(v, n, i + 1), e[i], S(v, n, e, i + 1));
    use S_inj(v, n, d, e, i + 1);
  }
}

func ve.factorVariables.Index(vs, ds) returns (r)
  property C05;
  panics len(ds) != len(vs);
  ensures @flat r == S(seq(vs), len(vs), seq(ds), 0);
  loop 0 {
    invariant @idx index == S(seq(vs), len(vs), seq(ds), i + 1);
    invariant @mul multiplier == P(seq(vs), len(vs), i + 1);
    invariant -1 <= i < len(vs);
    decreases i + 1;
  }

func ve.factorVariables.IndexWithNoData(vs, ds) returns (r, ok)
  property C05;
  panics len(ds) != len(vs);
  ensures @missing ok <==> (forall j: int {seq(ds)[j]} :: 0 <= j < len(vs) ==> seq(ds)[j] != -1);
  ensures @flat ok ==> r == S(seq(vs), len(vs), seq(ds), 0);
  ensures @none !ok ==> r == 0;
  loop 0 {
    invariant @idx index == S(seq(vs), len(vs), seq(ds), i + 1);
    invariant @mul multiplier == P(seq(vs), len(vs), i + 1);
    invariant @some forall j: int {seq(ds)[j]} :: i < j < len(vs) ==> seq(ds)[j] != -1;
    invariant -1 <= i < len(vs);
    decreases i + 1;
  }

func ve.factorVariables.Outcomes(vs, ix, ds)
  property C05;
  requires outpos(seq(vs), len(vs)) && 0 <= ix;
  panics len(ds) != len(vs);
  modifies ds;
  ensures @range digits(seq(vs), len(vs), seq(ds));
  ensures @inverse S(seq(vs), len(vs), seq(ds), 0) == ix % P(seq(vs), len(vs), 0);
  ensures @inverse2 ix < P(seq(vs), len(vs), 0) ==> S(seq(vs), len(vs), seq(ds), 0) == ix;
  loop 0 {
    invariant @bound 0 <= ix && -1 <= i < len(vs);
    invariant @range forall j: int {seq(ds)[j]} :: i < j < len(vs) ==> 0 <= seq(ds)[j] < seq(vs)[j].outcomes;
    invariant @split old(ix) == ix * P(seq(vs), len(vs), i + 1) + S(seq(vs), len(vs), seq(ds), i + 1);
    decreases i + 1;
    begin {
      let d0 = seq(ds);
      let i0 = i;
      let x0 = ix;
    }
    end {
      use S_ext(seq(vs), len(vs), d0, seq(ds), i0 + 1);
      assert x0 == ix * seq(vs)[i0].outcomes + seq(ds)[i0];
      assert x0 * P(seq(vs), len(vs), i0 + 1) == ix * P(seq(vs), len(vs), i0) + seq(ds)[i0] * P(seq(vs), len(vs), i0 + 1);
    }
  }
  exit {
    use P_pos(seq(vs), len(vs), 0);
    if len(vs) > 0 {
      use S_bound(seq(vs), len(vs), seq(ds), 0);
    }
  }

lemma S_zero(v: [int]ve.Variable, n: int, d: [int]int, i: int)
  requires 0 <= i && (forall j: int {d[j]} :: i <= j < n ==> d[j] == 0);
  ensures S(v, n, d, i) == 0;
  decreases n - i;
{ if i < n { use S_zero(v, n, d, i + 1); } }

lemma S_max(v: [int]ve.Variable, n: int, d: [int]int, i: int)
  requires 0 <= i && (forall j: int {d[j]} :: i <= j < n ==> d[j] == v[j].outcomes - 1);
  ensures S(v, n, d, i) == P(v, n, i) - 1;
  decreases n - i;
{ if i < n { use S_max(v, n, d, i + 1); } }

// e is d with digit i advanced by one and later digits wrapped from their maximum to 0
lemma S_inc(v: [int]ve.Variable, n: int, d: [int]int, e: [int]int, i: int, k: int)
  requires 0 <= k <= i && i < n;
  requires forall j: int {d[j]} {e[j]} :: 0 <= j < i ==> d[j] == e[j];
  requires e[i] == d[i] + 1;
  requires forall j: int {d[j]} {e[j]} :: i < j < n ==> d[j] == v[j].outcomes - 1 && e[j] == 0;
  ensures S(v, n, e, k) == S(v, n, d, k) + 1;
  decreases i - k;
{
  if k == i { use S_zero(v, n, e, i + 1); use S_max(v, n, d, i + 1); }
  else { use S_inc(v, n, d, e, i, k + 1); }
}

func ve.factorVariables.increment(vs, ds) returns (r)
  property C05 C06 C07 C08 C09;
  requires digits(seq(vs), len(vs), seq(ds));
  panics len(ds) != len(vs);
  modifies ds;
  ensures @range digits(seq(vs), len(vs), seq(ds));
  ensures @succ r ==> S(seq(vs), len(vs), seq(ds), 0) == old(S(seq(vs), len(vs), seq(ds), 0)) + 1;
  ensures @wrap !r ==> S(seq(vs), len(vs), seq(ds), 0) == 0 && old(S(seq(vs), len(vs), seq(ds), 0)) == P(seq(vs), len(vs), 0) - 1;
  loop 0 {
    invariant -1 <= i < len(vs);
    invariant @low forall j: int {seq(ds)[j]} :: 0 <= j <= i ==> seq(ds)[j] == old(seq(ds))[j];
    invariant @high forall j: int {seq(ds)[j]} {old(seq(ds))[j]} :: i < j < len(vs) ==> seq(ds)[j] == 0 && old(seq(ds))[j] == seq(vs)[j].outcomes - 1;
    decreases i + 1;
    before { let i0 = 0; }
    begin { let i0 = i; }
  }
  exit {
    if r {
      use S_inc(seq(vs), len(vs), old(seq(ds)), seq(ds), i0, 0);
    } else {
      use S_zero(seq(vs), len(vs), seq(ds), 0);
      use S_max(seq(vs), len(vs), old(seq(ds)), 0);
    }
  }

// replacing the last digit moves the flat index by that digit
lemma S_last(v: [int]ve.Variable, n: int, d: [int]int, c: int, i: int)
  requires 0 <= i < n;
  ensures S(v, n, d[n - 1 := c], i) == S(v, n, d[n - 1 := 0], i) + c;
  decreases n - i;
{ if i < n - 1 { use S_last(v, n, d, c, i + 1); } }

macro wfF(f) = outpos(seq(f.variables), len(f.variables)) && len(f.data) == P(seq(f.variables), len(f.variables), 0);

func ve.Factor.Index(f, ds) returns (r)
  property C05;
  requires f != nil;
  panics len(ds) != len(f.variables);
  ensures @flat r == S(seq(f.variables), len(f.variables), seq(ds), 0);

func ve.Factor.IndexWithNoData(f, ds) returns (r, ok)
  property C05;
  requires f != nil;
  panics len(ds) != len(f.variables);
  ensures @missing ok <==> (forall j: int {seq(ds)[j]} :: 0 <= j < len(f.variables) ==> seq(ds)[j] != -1);
  ensures @flat ok ==> r == S(seq(f.variables), len(f.variables), seq(ds), 0);
  ensures @none !ok ==> r == 0;

func ve.Factor.Outcomes(f, ix, ds)
  property C05;
  requires f != nil && outpos(seq(f.variables), len(f.variables)) && 0 <= ix;
  panics len(ds) != len(f.variables);
  modifies ds;
  ensures @range digits(seq(f.variables), len(f.variables), seq(ds));
  ensures @inverse ix < P(seq(f.variables), len(f.variables), 0) ==> S(seq(f.variables), len(f.variables), seq(ds), 0) == ix;

func ve.Factor.RowIndex(f, ds) returns (r, n)
  property C05;
  requires f != nil;
  panics len(ds) != len(f.variables) - 1;
  ensures @start r == S(seq(f.variables), len(f.variables), seq(ds)[len(f.variables) - 1 := 0], 0);
  ensures @len n == seq(f.variables)[len(f.variables) - 1].outcomes;
  loop 0 {
    invariant -1 <= i < len(f.variables) - 1;
    invariant idx == S(seq(f.variables), len(f.variables), seq(ds)[len(f.variables) - 1 := 0], i + 1);
    invariant stride == P(seq(f.variables), len(f.variables), i + 1);
    decreases i + 1;
  }

func ve.Factor.Get(f, ds) returns (r)
  property C05;
  requires f != nil && wfF(f) && (len(ds) == len(f.variables) ==> digits(seq(f.variables), len(f.variables), seq(ds)));
  panics len(ds) != len(f.variables);
  ensures @value r == seq(f.data)[S(seq(f.variables), len(f.variables), seq(ds), 0)];
  beforecall Index { if len(ds) == len(f.variables) { use S_bound(seq(f.variables), len(f.variables), seq(ds), 0); } }

func ve.Factor.Set(f, ds, val)
  property C05;
  requires f != nil && wfF(f) && (len(ds) == len(f.variables) ==> digits(seq(f.variables), len(f.variables), seq(ds)));
  panics len(ds) != len(f.variables);
  modifies f.data;
  ensures @value seq(f.data) == old(seq(f.data))[S(seq(f.variables), len(f.variables), seq(ds), 0) := val];
  beforecall Index { if len(ds) == len(f.variables) { use S_bound(seq(f.variables), len(f.variables), seq(ds), 0); } }

func ve.Factor.Row(f, ds) returns (r)
  property C05;
  requires f != nil && wfF(f) && (len(ds) == len(f.variables) - 1 ==> digits(seq(f.variables), len(f.variables) - 1, seq(ds)));
  panics len(ds) != len(f.variables) - 1;
  ensures @shared ref(r) == ref(f.data) && off(r) == off(f.data) + S(seq(f.variables), len(f.variables), seq(ds)[len(f.variables) - 1 := 0], 0);
  ensures @len len(r) == seq(f.variables)[len(f.variables) - 1].outcomes;
  ensures @cells forall c: int {seq(r)[c]} :: 0 <= c < len(r) ==> seq(r)[c] == seq(f.data)[S(seq(f.variables), len(f.variables), seq(ds)[len(f.variables) - 1 := c], 0)];
  beforecall RowIndex {
    if len(ds) == len(f.variables) - 1 {
      let n = len(f.variables);
      let mx = seq(ds)[n - 1 := seq(f.variables)[n - 1].outcomes - 1];
      assert digits(seq(f.variables), n, mx);
      use S_bound(seq(f.variables), n, mx, 0);
      let zr = seq(ds)[n - 1 := 0];
      assert digits(seq(f.variables), n, zr);
      use S_bound(seq(f.variables), n, zr, 0);
      use S_last(seq(f.variables), n, seq(ds), seq(f.variables)[n - 1].outcomes - 1, 0);
    }
  }
  exit {
    let n = len(f.variables);
    use forall c: int {seq(ds)[n - 1 := c]} :: S_last(seq(f.variables), n, seq(ds), c, 0);
  }
