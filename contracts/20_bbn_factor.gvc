// network.go: rows of network tables.
define PI(o: [int]int, n: int, i: int): int decreases n - i = i >= n ? 1 : o[i] * PI(o, n, i + 1);
define SI(o: [int]int, n: int, d: [int]int, i: int): int decreases n - i = i >= n ? 0 : d[i] * PI(o, n, i + 1) + SI(o, n, d, i + 1);

lemma PI_nonneg(o: [int]int, n: int, i: int)
  requires 0 <= i && (forall j: int {o[j]} :: 0 <= j < n ==> 0 <= o[j]);
  ensures 0 <= PI(o, n, i);
  decreases n - i;
{ if i < n { use PI_nonneg(o, n, i + 1); use mul_nonneg(o[i], PI(o, n, i + 1)); } }

lemma SI_bound(o: [int]int, n: int, d: [int]int, i: int)
  requires 0 <= i && (forall j: int {o[j]} :: 0 <= j < n ==> 0 <= o[j]) && (forall j: int {d[j]} :: i <= j < n ==> 0 <= d[j] < o[j]);
  ensures 0 <= SI(o, n, d, i) < PI(o, n, i);
  decreases n - i;
{
  if i < n {
    use SI_bound(o, n, d, i + 1);
    use PI_nonneg(o, n, i + 1);
    use mul_nonneg(d[i], PI(o, n, i + 1));
    use mul_mono(d[i] + 1, o[i], PI(o, n, i + 1));
  }
}

lemma SI_inj(o: [int]int, n: int, d: [int]int, e: [int]int, i: int)
  property C05;
  requires 0 <= i && (forall j: int {o[j]} :: 0 <= j < n ==> 0 <= o[j]);
  requires forall j: int {d[j]} :: i <= j < n ==> 0 <= d[j] < o[j];
  requires forall j: int {e[j]} :: i <= j < n ==> 0 <= e[j] < o[j];
  requires SI(o, n, d, i) == SI(o, n, e, i);
  ensures forall j: int {d[j]} {e[j]} :: i <= j < n ==> d[j] == e[j];
  decreases n - i;
{
  if i < n {
    use SI_bound(o, n, d, i + 1);
    use SI_bound(o, n, e, i + 1);
    use PI_nonneg(o, n, i + 1);
    use divmod_unique(SI(o, n, d, i), PI(o, n, i + 1), d[i], SI(o, n, d, i + 1));
    use divmod_unique(SI(o, n, d, i), PI(o, n, i + 1), e[i], SI(o, n, e, i + 1));
    use SI_inj(o, n, d, e, i + 1);
  }
}

func bbn.Factor.rowIndex(f, ds) returns (r, ok)
  property C05 C14;
  requires f != nil;
  panics len(ds) != len(f.outcomes);
  ensures @missing ok <==> (forall j: int {seq(ds)[j]} :: 0 <= j < len(ds) ==> seq(ds)[j] >= 0);
  ensures @flat ok ==> r == SI(seq(f.outcomes), len(f.outcomes), seq(ds), 0);
  loop 0 {
    invariant -1 <= i < len(ds);
    invariant @idx idx == SI(seq(f.outcomes), len(f.outcomes), seq(ds), i + 1);
    invariant @stride stride == PI(seq(f.outcomes), len(f.outcomes), i + 1);
    invariant @some forall j: int {seq(ds)[j]} :: i < j < len(ds) ==> seq(ds)[j] >= 0;
    decreases i + 1;
  }

func bbn.Factor.Row(f, ds) returns (r, ok)
  property C05;
  requires f != nil && f.columns >= 0 && (forall j: int {seq(f.outcomes)[j]} :: 0 <= j < len(f.outcomes) ==> 0 <= seq(f.outcomes)[j]);
  requires len(f.Table) == PI(seq(f.outcomes), len(f.outcomes), 0) * f.columns;
  requires len(ds) == len(f.outcomes) ==> (forall j: int {seq(ds)[j]} :: 0 <= j < len(ds) ==> seq(ds)[j] < seq(f.outcomes)[j]);
  panics len(ds) != len(f.outcomes);
  ensures @missing ok <==> (forall j: int {seq(ds)[j]} :: 0 <= j < len(ds) ==> seq(ds)[j] >= 0);
  ensures @none !ok ==> r == nil;
  ensures @shared ok ==> ref(r) == ref(f.Table) && off(r) == off(f.Table) + SI(seq(f.outcomes), len(f.outcomes), seq(ds), 0) * f.columns && len(r) == f.columns;
  ensures @inside ok ==> 0 <= SI(seq(f.outcomes), len(f.outcomes), seq(ds), 0) < PI(seq(f.outcomes), len(f.outcomes), 0);
  ensures @cells ok ==> (forall c: int {seq(r)[c]} :: 0 <= c < f.columns ==> seq(r)[c] == seq(f.Table)[SI(seq(f.outcomes), len(f.outcomes), seq(ds), 0) * f.columns + c]);
  aftercall rowIndex {
    if $r1 {
      let n = len(f.outcomes);
      use SI_bound(seq(f.outcomes), n, seq(ds), 0);
      use mul_nonneg($r0, f.columns);
      use mul_mono($r0 + 1, PI(seq(f.outcomes), n, 0), f.columns);
    }
  }
