// logic: truth tables.

lemma pow2_pos(k: int)
  ensures 1 <= pow2(k);
  decreases k;
{ if k > 0 { use pow2_pos(k - 1); } }
lemma pow2_mono(a: int, b: int)
  requires 0 <= a < b;
  ensures pow2(a) < pow2(b);
  decreases b;
{ use pow2_pos(b - 1); if a < b - 1 { use pow2_mono(a, b - 1); } }
// 2 and 4 rows are the tables of exactly 1 and 2 parents
lemma pow2_small(k: int)
  property C12;
  requires 0 <= k;
  ensures pow2(k) == 1 <==> k == 0;
  ensures pow2(k) == 2 <==> k == 1;
  ensures pow2(k) == 4 <==> k == 2;
{
  assert pow2(0) == 1; assert pow2(1) == 2; assert pow2(2) == 4;
  if k < 1 { use pow2_mono(k, 1); } if k < 2 { use pow2_mono(k, 2); }
  if k > 0 { use pow2_mono(0, k); } if k > 1 { use pow2_mono(1, k); } if k > 2 { use pow2_mono(2, k); }
}

// row r of a two-column table: certainly true, certainly false
macro isT(t, r) = t[2 * r] == 1.0 && t[2 * r + 1] == 0.0;
macro isF(t, r) = t[2 * r] == 0.0 && t[2 * r + 1] == 1.0;

func logic.boolFactor.SetArgs(f, args) returns (err)
  property C12;
  ensures @args err == nil <==> len(args) == 0;
func logic.floatFactor.SetArgs(f, args) returns (err)
  property C12;
  ensures @args err == nil <==> len(args) == 0;

func logic.boolFactor.Table(f, given) returns (r, err)
  property C12;
  requires f != nil && given >= 0;
  ensures @parents err == nil <==> len(*f) == pow2(given);
  ensures @new err == nil ==> fresh(r) && len(r) == 2 * len(*f);
  ensures @rows err == nil ==> (forall i: int {seq(*f)[i]} :: 0 <= i < len(*f) ==> (seq(*f)[i] ? isT(seq(r), i) : isF(seq(r), i)));
  loop 0 {
    modifies table;
    invariant @done forall i: int {seq(*f)[i]} :: 0 <= i < $k ==> (seq(*f)[i] ? isT(seq(table), i) : isF(seq(table), i));
    invariant @rest forall i: int {seq(table)[i]} :: 2 * $k <= i < len(table) ==> seq(table)[i] == 0.0;
  }
func logic.floatFactor.Table(f, given) returns (r, err)
  property C12;
  requires f != nil && given >= 0;
  ensures @parents err == nil <==> len(*f) == pow2(given + 1);
  ensures @new err == nil ==> fresh(r) && len(r) == len(*f);
  ensures @rows err == nil ==> (forall i: int {seq(r)[i]} :: 0 <= i < len(*f) ==> seq(r)[i] == seq(*f)[i]);

