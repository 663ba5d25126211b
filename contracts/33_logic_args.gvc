// logic: operators with arguments.
// ---- parent-index operators

func logic.givenFactor.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) == 1;
  ensures @value f.Index == (err == nil ? seq(args)[0] : old(f.Index));
func logic.Given(idx) returns (r)
  property C13;
  ensures istype(r, "logic.givenFactor") && fresh(ifaceptr(r, "logic.givenFactor")) && ifaceptr(r, "logic.givenFactor").Index == idx;

func logic.givenNotFactor.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) == 1;
  ensures @value f.Index == (err == nil ? seq(args)[0] : old(f.Index));
func logic.GivenNot(idx) returns (r)
  property C13;
  ensures istype(r, "logic.givenNotFactor") && fresh(ifaceptr(r, "logic.givenNotFactor")) && ifaceptr(r, "logic.givenNotFactor").Index == idx;

func logic.givenExclFactor.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) == 1;
  ensures @value f.Index == (err == nil ? seq(args)[0] : old(f.Index));
func logic.GivenExcl(idx) returns (r)
  property C13;
  ensures istype(r, "logic.givenExclFactor") && fresh(ifaceptr(r, "logic.givenExclFactor")) && ifaceptr(r, "logic.givenExclFactor").Index == idx;

func logic.givenFactor.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && given >= 0;
  ensures @valid err == nil <==> 0 <= f.Index < given;
  ensures @size err == nil ==> fresh(r) && len(r) == 2 * pow2(given);
  ensures @rows err == nil ==> (forall i: int {seq(r)[2 * i]} {seq(r)[2 * i + 1]} :: 0 <= i < pow2(given) ==> (ptrue(i, given, f.Index) ? isT(seq(r), i) : isF(seq(r), i)));
  entry { use pow2_pos(given); use pow2_pos(given - 1 - f.Index); }
  loop 0 {
    modifies table;
    invariant 0 <= i <= rows;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> (ptrue(j, given, f.Index) ? isT(seq(table), j) : isF(seq(table), j));
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * rows ==> seq(table)[j] == 0.0;
    decreases rows - i;
    begin { let i0 = i; let t0 = seq(table); }
    end {
      let t1 = seq(table);
      fix j: int | 0 <= j < i {
        if j < i0 { assert t0[2 * j] == t1[2 * j]; assert t0[2 * j + 1] == t1[2 * j + 1]; }
      } show ptrue(j, given, f.Index) ? isT(t1, j) : isF(t1, j);
    }
  }

func logic.givenNotFactor.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && given >= 0;
  ensures @valid err == nil <==> 0 <= f.Index < given;
  ensures @size err == nil ==> fresh(r) && len(r) == 2 * pow2(given);
  ensures @rows err == nil ==> (forall i: int {seq(r)[2 * i]} {seq(r)[2 * i + 1]} :: 0 <= i < pow2(given) ==> (!ptrue(i, given, f.Index) ? isT(seq(r), i) : isF(seq(r), i)));
  entry { use pow2_pos(given); use pow2_pos(given - 1 - f.Index); }
  loop 0 {
    modifies table;
    invariant 0 <= i <= rows;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> (!ptrue(j, given, f.Index) ? isT(seq(table), j) : isF(seq(table), j));
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * rows ==> seq(table)[j] == 0.0;
    decreases rows - i;
    begin { let i0 = i; let t0 = seq(table); }
    end {
      let t1 = seq(table);
      fix j: int | 0 <= j < i {
        if j < i0 { assert t0[2 * j] == t1[2 * j]; assert t0[2 * j + 1] == t1[2 * j + 1]; }
      } show !ptrue(j, given, f.Index) ? isT(t1, j) : isF(t1, j);
    }
  }

// parent p is the only one with outcome true
define onlyTrue(i: int, g: int, p: int): bool decreases 0 = forall q: int {bit(i, q)} :: 0 <= q < g ==> (!bit(i, q) <==> q == g - 1 - p);

func logic.givenExclFactor.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && given >= 0;
  ensures @valid err == nil <==> 0 <= f.Index < given;
  ensures @size err == nil ==> fresh(r) && len(r) == 2 * pow2(given);
  ensures @rows err == nil ==> (forall i: int {seq(r)[2 * i]} {seq(r)[2 * i + 1]} :: 0 <= i < pow2(given) ==> (onlyTrue(i, given, f.Index) ? isT(seq(r), i) : isF(seq(r), i)));
  entry { use pow2_pos(given); use pow2_pos(given - 1 - f.Index); }
  loop 0 {
    modifies table;
    invariant 0 <= i <= rows;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> (onlyTrue(j, given, f.Index) ? isT(seq(table), j) : isF(seq(table), j));
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * rows ==> seq(table)[j] == 0.0;
    decreases rows - i;
    begin { let i0 = i; let t0 = seq(table); }
    end {
      let t1 = seq(table);
      fix j: int | 0 <= j < i {
        if j < i0 { assert t0[2 * j] == t1[2 * j]; assert t0[2 * j + 1] == t1[2 * j + 1]; }
      } show onlyTrue(j, given, f.Index) ? isT(t1, j) : isF(t1, j);
    }
  }
  loop 1 {
    invariant 0 <= j <= given && !otherTrue;
    invariant @none forall q: int {bit(i, q)} :: 0 <= q < j && q != given - 1 - f.Index ==> bit(i, q);
    decreases given - j;
    begin { use pow2_pos(j); }
  }

// ---- outcome operators: one parent with Length outcomes

func logic.outcomeIsFactor.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) == 2;
  ensures @index f.Index == (err == nil ? seq(args)[0] : old(f.Index));
  ensures @length f.Length == (err == nil ? seq(args)[1] : old(f.Length));
func logic.OutcomeIs(idx, n) returns (r)
  property C13;
  ensures istype(r, "logic.outcomeIsFactor") && fresh(ifaceptr(r, "logic.outcomeIsFactor")) && ifaceptr(r, "logic.outcomeIsFactor").Index == idx && ifaceptr(r, "logic.outcomeIsFactor").Length == n;

func logic.outcomeIsFactor.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && (given == 1 ==> 0 <= f.Index < f.Length);
  ensures @parents err == nil <==> given == 1;
  ensures @size err == nil ==> fresh(r) && len(r) == 2 * f.Length;
  ensures @rows err == nil ==> (forall i: int {seq(r)[2 * i]} {seq(r)[2 * i + 1]} :: 0 <= i < f.Length ==> (i == f.Index ? isT(seq(r), i) : isF(seq(r), i)));
  loop 0 {
    modifies table;
    invariant 0 <= i <= f.Length;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> isF(seq(table), j);
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * f.Length ==> seq(table)[j] == 0.0;
    decreases f.Length - i;
  }

func logic.outcomeIsNotFactor.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) == 2;
  ensures @index f.Index == (err == nil ? seq(args)[0] : old(f.Index));
  ensures @length f.Length == (err == nil ? seq(args)[1] : old(f.Length));
func logic.OutcomeIsNot(idx, n) returns (r)
  property C13;
  ensures istype(r, "logic.outcomeIsNotFactor") && fresh(ifaceptr(r, "logic.outcomeIsNotFactor")) && ifaceptr(r, "logic.outcomeIsNotFactor").Index == idx && ifaceptr(r, "logic.outcomeIsNotFactor").Length == n;

func logic.outcomeIsNotFactor.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && (given == 1 ==> 0 <= f.Index < f.Length);
  ensures @parents err == nil <==> given == 1;
  ensures @size err == nil ==> fresh(r) && len(r) == 2 * f.Length;
  ensures @rows err == nil ==> (forall i: int {seq(r)[2 * i]} {seq(r)[2 * i + 1]} :: 0 <= i < f.Length ==> (i != f.Index ? isT(seq(r), i) : isF(seq(r), i)));
  loop 0 {
    modifies table;
    invariant 0 <= i <= f.Length;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> isT(seq(table), j);
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * f.Length ==> seq(table)[j] == 0.0;
    decreases f.Length - i;
  }

func logic.outcomeLessFactor.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) == 2;
  ensures @index f.Index == (err == nil ? seq(args)[0] : old(f.Index));
  ensures @length f.Length == (err == nil ? seq(args)[1] : old(f.Length));
func logic.OutcomeLess(idx, n) returns (r)
  property C13;
  ensures istype(r, "logic.outcomeLessFactor") && fresh(ifaceptr(r, "logic.outcomeLessFactor")) && ifaceptr(r, "logic.outcomeLessFactor").Index == idx && ifaceptr(r, "logic.outcomeLessFactor").Length == n;

func logic.outcomeLessFactor.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && (given == 1 ==> 0 <= f.Index <= f.Length);
  ensures @parents err == nil <==> given == 1;
  ensures @size err == nil ==> fresh(r) && len(r) == 2 * f.Length;
  ensures @rows err == nil ==> (forall i: int {seq(r)[2 * i]} {seq(r)[2 * i + 1]} :: 0 <= i < f.Length ==> (i < f.Index ? isT(seq(r), i) : isF(seq(r), i)));
  loop 0 {
    modifies table;
    invariant 0 <= i <= f.Index;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> isT(seq(table), j);
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * f.Length ==> seq(table)[j] == 0.0;
    decreases f.Index - i;
  }
  loop 1 {
    modifies table;
    invariant f.Index <= i <= f.Length;
    invariant @low forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < f.Index ==> isT(seq(table), j);
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: f.Index <= j < i ==> isF(seq(table), j);
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * f.Length ==> seq(table)[j] == 0.0;
    decreases f.Length - i;
  }

func logic.outcomeGreaterFactor.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) == 2;
  ensures @index f.Index == (err == nil ? seq(args)[0] : old(f.Index));
  ensures @length f.Length == (err == nil ? seq(args)[1] : old(f.Length));
func logic.OutcomeGreater(idx, n) returns (r)
  property C13;
  ensures istype(r, "logic.outcomeGreaterFactor") && fresh(ifaceptr(r, "logic.outcomeGreaterFactor")) && ifaceptr(r, "logic.outcomeGreaterFactor").Index == idx && ifaceptr(r, "logic.outcomeGreaterFactor").Length == n;

func logic.outcomeGreaterFactor.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && (given == 1 ==> 0 <= f.Index <= f.Length);
  ensures @parents err == nil <==> given == 1;
  ensures @size err == nil ==> fresh(r) && len(r) == 2 * f.Length;
  ensures @rows err == nil ==> (forall i: int {seq(r)[2 * i]} {seq(r)[2 * i + 1]} :: 0 <= i < f.Length && i != f.Index ==> (i > f.Index ? isT(seq(r), i) : isF(seq(r), i)));
  ensures @"outcome-greater:row=index" err == nil && f.Index < f.Length ==> isF(seq(r), f.Index);
  loop 0 {
    modifies table;
    invariant 0 <= i <= f.Index;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> isF(seq(table), j);
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * f.Length ==> seq(table)[j] == 0.0;
    decreases f.Index - i;
  }
  loop 1 {
    modifies table;
    invariant f.Index <= i <= f.Length;
    invariant @low forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < f.Index ==> isF(seq(table), j);
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: f.Index <= j < i ==> isT(seq(table), j);
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * f.Length ==> seq(table)[j] == 0.0;
    decreases f.Length - i;
  }

func logic.outcomeEitherFactor.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) >= 2;
  ensures @length f.Length == (err == nil ? seq(args)[len(args) - 1] : old(f.Length));
  ensures @count err == nil ==> len(f.Indices) == len(args) - 1;
  ensures @indices err == nil ==> (forall i: int {seq(f.Indices)[i]} :: 0 <= i < len(args) - 1 ==> seq(f.Indices)[i] == seq(args)[i]);
  ensures @kept err != nil ==> f.Indices == old(f.Indices);
func logic.OutcomeEither(idx, n) returns (r)
  property C13;
  ensures istype(r, "logic.outcomeEitherFactor") && fresh(ifaceptr(r, "logic.outcomeEitherFactor")) && ifaceptr(r, "logic.outcomeEitherFactor").Indices == idx && ifaceptr(r, "logic.outcomeEitherFactor").Length == n;
define among(d: [int]int, n: int, i: int): bool decreases 0 = exists k: int {d[k]} :: 0 <= k < n && d[k] == i;
func logic.outcomeEitherFactor.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && (given == 1 ==> 0 <= f.Length && (forall k: int {seq(f.Indices)[k]} :: 0 <= k < len(f.Indices) ==> 0 <= seq(f.Indices)[k] < f.Length));
  ensures @parents err == nil <==> given == 1;
  ensures @size err == nil ==> fresh(r) && len(r) == 2 * f.Length;
  ensures @rows err == nil ==> (forall i: int {seq(r)[2 * i]} {seq(r)[2 * i + 1]} :: 0 <= i < f.Length ==> (among(seq(f.Indices), len(f.Indices), i) ? isT(seq(r), i) : isF(seq(r), i)));
  loop 0 {
    modifies table;
    invariant 0 <= i <= f.Length;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> isF(seq(table), j);
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * f.Length ==> seq(table)[j] == 0.0;
    decreases f.Length - i;
  }
  loop 1 {
    modifies table;
    invariant @rows forall i: int {seq(table)[2 * i]} {seq(table)[2 * i + 1]} :: 0 <= i < f.Length ==> (among(seq(f.Indices), $k, i) ? isT(seq(table), i) : isF(seq(table), i));
    begin { let k0 = $k; let t0 = seq(table); }
    end {
      let t1 = seq(table);
      fix i: int | 0 <= i < f.Length {
        if i != seq(f.Indices)[k0] {
          assert t1[2 * i] == t0[2 * i] && t1[2 * i + 1] == t0[2 * i + 1];
          assert among(seq(f.Indices), $k, i) <==> among(seq(f.Indices), k0, i);
        } else { assert among(seq(f.Indices), $k, i); }
      } show among(seq(f.Indices), $k, i) ? isT(t1, i) : isF(t1, i);
    }
  }
