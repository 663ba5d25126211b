// logic: operators whose table depends on the number of parents or on arguments.
// Row i of g Boolean parents: parent p (from the first) has outcome (i / 2^(g-1-p)) % 2, outcome 0 is true.
macro ptrue(i, g, p) = !bit(i, (g) - 1 - (p));
define numTrue(i: int, g: int): int decreases g = g <= 0 ? 0 : numTrue(i / 2, g - 1) + (i % 2 == 0 ? 1 : 0);
define bitsVal(i: int, g: int): int decreases g = g <= 0 ? 0 : 2 * bitsVal(i / 2, g - 1) + (i % 2 == 0 ? 1 : 0);

lemma half_bound(i: int, g: int)
  requires 0 < g && 0 <= i < pow2(g);
  ensures 0 <= i / 2 < pow2(g - 1);
{ }
lemma popcount_true(i: int, g: int)
  requires 0 <= g && 0 <= i < pow2(g);
  ensures popcount(i) + numTrue(i, g) == g;
  ensures 0 <= popcount(i) <= g && 0 <= numTrue(i, g) <= g;
  decreases g;
{ if g > 0 { use half_bound(i, g); use popcount_true(i / 2, g - 1); if i == 0 { assert popcount(i / 2) == 0; } } else { assert pow2(0) == 1; assert popcount(i) == 0; } }
define numFalse(i: int, g: int): int decreases g = g <= 0 ? 0 : numFalse(i / 2, g - 1) + (i % 2 == 0 ? 0 : 1);
lemma popcount_false(i: int, g: int)
  requires 0 <= g && 0 <= i < pow2(g);
  ensures popcount(i) == numFalse(i, g);
  ensures 0 <= numFalse(i, g) <= g;
  decreases g;
{ if g > 0 { use half_bound(i, g); use popcount_false(i / 2, g - 1); if i == 0 { assert popcount(i / 2) == 0; } } else { assert pow2(0) == 1; assert popcount(i) == 0; } }
lemma bits_value(i: int, g: int)
  requires 0 <= g && 0 <= i < pow2(g);
  ensures bitsVal(i, g) == pow2(g) - 1 - i;
  decreases g;
{ if g > 0 { use half_bound(i, g); use bits_value(i / 2, g - 1); } else { assert pow2(0) == 1; } }

// table t of n rows and w columns: row i is certain of column v
define cell(t: [int]real, w: int, i: int, c: int): real decreases 0 = t[i * w + c];
macro sure(t, w, i, v) = forall c: int {cell(t, w, i, c)} :: 0 <= c < w ==> cell(t, w, i, c) == (c == v ? 1.0 : 0.0);

func logic.countFactor.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) == 1;
  ensures @value err == nil ==> f.Value == seq(args)[0];
  ensures @kept f.Rule == old(f.Rule) && (err != nil ==> f.Value == old(f.Value));
func logic.CountIs(v) returns (r)
  property C13;
  ensures istype(r, "logic.countFactor") && fresh(ifaceptr(r, "logic.countFactor")) && ifaceptr(r, "logic.countFactor").Value == v;
  ensures @rule forall a: int, b: int {apply(ifaceptr(r, "logic.countFactor").Rule, a, b)} :: apply(ifaceptr(r, "logic.countFactor").Rule, a, b) <==> a == b;
func logic.CountLess(v) returns (r)
  property C13;
  ensures istype(r, "logic.countFactor") && fresh(ifaceptr(r, "logic.countFactor")) && ifaceptr(r, "logic.countFactor").Value == v;
  ensures @rule forall a: int, b: int {apply(ifaceptr(r, "logic.countFactor").Rule, a, b)} :: apply(ifaceptr(r, "logic.countFactor").Rule, a, b) <==> a < b;
func logic.CountGreater(v) returns (r)
  property C13;
  ensures istype(r, "logic.countFactor") && fresh(ifaceptr(r, "logic.countFactor")) && ifaceptr(r, "logic.countFactor").Value == v;
  ensures @rule forall a: int, b: int {apply(ifaceptr(r, "logic.countFactor").Rule, a, b)} :: apply(ifaceptr(r, "logic.countFactor").Rule, a, b) <==> a > b;

func logic.countFactor.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && given >= 0 && f.Rule != nil;
  ensures @ok err == nil && fresh(r) && len(r) == 2 * pow2(given);
  ensures @rows forall i: int {numTrue(i, given)} :: 0 <= i < pow2(given) ==> (apply(f.Rule, numTrue(i, given), f.Value) ? isT(seq(r), i) : isF(seq(r), i));
  entry { use pow2_pos(given); }
  loop 0 {
    modifies table;
    invariant 0 <= i <= rows;
    invariant @done forall j: int {numTrue(j, given)} :: 0 <= j < i ==> (apply(f.Rule, numTrue(j, given), f.Value) ? isT(seq(table), j) : isF(seq(table), j));
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * rows ==> seq(table)[j] == 0.0;
    decreases rows - i;
    begin { use popcount_true(i, given); }
  }

func logic.countTrueFactor.SetArgs(f, args) returns (err)
  property C13;
  ensures @args err == nil <==> len(args) == 0;
func logic.countFalseFactor.SetArgs(f, args) returns (err)
  property C13;
  ensures @args err == nil <==> len(args) == 0;
func logic.bitsFactor.SetArgs(f, args) returns (err)
  property C13;
  ensures @args err == nil <==> len(args) == 0;

func logic.countTrueFactor.Table(f, given) returns (r, err)
  property C13;
  requires given >= 0;
  ensures @ok err == nil && fresh(r) && len(r) == pow2(given) * (given + 1);
  ensures @rows forall i: int {numTrue(i, given)} :: 0 <= i < pow2(given) ==> sure(seq(r), given + 1, i, numTrue(i, given));
  entry { use pow2_pos(given); use mul_nonneg(pow2(given), given + 1); }
  loop 0 {
    modifies table;
    invariant 0 <= i <= rows && cols == given + 1;
    invariant @done forall j: int, c: int {cell(seq(table), given + 1, j, c)} :: 0 <= j < i && 0 <= c < cols ==> cell(seq(table), given + 1, j, c) == (c == numTrue(j, given) ? 1.0 : 0.0);
    invariant @rest forall t: int {seq(table)[t]} :: i * cols <= t < rows * cols ==> seq(table)[t] == 0.0;
    decreases rows - i;
    begin { let i0 = i; let t0 = seq(table); use popcount_true(i, given); use mul_nonneg(i, cols); use mul_mono(i + 1, rows, cols); }
    end {
      let t1 = seq(table);
      fix j: int, c: int | 0 <= j < i && 0 <= c < cols {
        if j < i0 {
          use mul_mono(j + 1, i0, cols); use mul_nonneg(j, cols);
          assert cell(t1, given + 1, j, c) == cell(t0, given + 1, j, c);
        }
      } show cell(t1, given + 1, j, c) == (c == numTrue(j, given) ? 1.0 : 0.0);
    }
  }

func logic.countFalseFactor.Table(f, given) returns (r, err)
  property C13;
  requires given >= 0;
  ensures @ok err == nil && fresh(r) && len(r) == pow2(given) * (given + 1);
  ensures @rows forall i: int {numFalse(i, given)} :: 0 <= i < pow2(given) ==> sure(seq(r), given + 1, i, numFalse(i, given));
  entry { use pow2_pos(given); use mul_nonneg(pow2(given), given + 1); }
  loop 0 {
    modifies table;
    invariant 0 <= i <= rows && cols == given + 1;
    invariant @done forall j: int, c: int {cell(seq(table), given + 1, j, c)} :: 0 <= j < i && 0 <= c < cols ==> cell(seq(table), given + 1, j, c) == (c == numFalse(j, given) ? 1.0 : 0.0);
    invariant @rest forall t: int {seq(table)[t]} :: i * cols <= t < rows * cols ==> seq(table)[t] == 0.0;
    decreases rows - i;
    begin { let i0 = i; let t0 = seq(table); use popcount_false(i, given); use mul_nonneg(i, cols); use mul_mono(i + 1, rows, cols); }
    end {
      let t1 = seq(table);
      fix j: int, c: int | 0 <= j < i && 0 <= c < cols {
        if j < i0 {
          use mul_mono(j + 1, i0, cols); use mul_nonneg(j, cols);
          assert cell(t1, given + 1, j, c) == cell(t0, given + 1, j, c);
        }
      } show cell(t1, given + 1, j, c) == (c == numFalse(j, given) ? 1.0 : 0.0);
    }
  }

func logic.bitsFactor.Table(f, given) returns (r, err)
  property C13;
  requires given >= 0;
  ensures @ok err == nil && fresh(r) && len(r) == pow2(given) * (pow2(given));
  ensures @rows forall i: int {bitsVal(i, given)} :: 0 <= i < pow2(given) ==> sure(seq(r), pow2(given), i, bitsVal(i, given));
  entry { use pow2_pos(given); use mul_nonneg(pow2(given), pow2(given)); }
  loop 0 {
    modifies table;
    invariant 0 <= i <= rows && cols == pow2(given);
    invariant @done forall j: int, c: int {cell(seq(table), pow2(given), j, c)} :: 0 <= j < i && 0 <= c < cols ==> cell(seq(table), pow2(given), j, c) == (c == bitsVal(j, given) ? 1.0 : 0.0);
    invariant @rest forall t: int {seq(table)[t]} :: i * cols <= t < rows * cols ==> seq(table)[t] == 0.0;
    decreases rows - i;
    begin { let i0 = i; let t0 = seq(table); use bits_value(i, given); use mul_nonneg(i, cols); use mul_mono(i + 1, rows, cols); }
    end {
      let t1 = seq(table);
      fix j: int, c: int | 0 <= j < i && 0 <= c < cols {
        if j < i0 {
          use mul_mono(j + 1, i0, cols); use mul_nonneg(j, cols);
          assert cell(t1, pow2(given), j, c) == cell(t0, pow2(given), j, c);
        }
      } show cell(t1, pow2(given), j, c) == (c == bitsVal(j, given) ? 1.0 : 0.0);
    }
  }
