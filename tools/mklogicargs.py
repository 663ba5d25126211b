o=["", "// ---- parent-index operators"]
for T,C in (("givenFactor","Given"),("givenNotFactor","GivenNot"),("givenExclFactor","GivenExcl")):
    o.append('''
func logic.%s.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) == 1;
  ensures @value f.Index == (err == nil ? seq(args)[0] : old(f.Index));
func logic.%s(idx) returns (r)
  property C13;
  ensures istype(r, "logic.%s") && fresh(ifaceptr(r, "logic.%s")) && ifaceptr(r, "logic.%s").Index == idx;'''%(T,C,T,T,T))
for T,cond in (("givenFactor","ptrue(%s, given, f.Index)"),("givenNotFactor","!ptrue(%s, given, f.Index)"),("givenExclFactor","onlyTrue(%s, given, f.Index)")):
    if T=="givenExclFactor":
        o.append('''
// parent p is the only one with outcome true
define onlyTrue(i: int, g: int, p: int): bool decreases 0 = forall q: int {bit(i, q)} :: 0 <= q < g ==> (!bit(i, q) <==> q == g - 1 - p);''')
    c=lambda v: cond%v
    extra=""
    if T=="givenExclFactor":
        extra='''
  loop 1 {
    invariant 0 <= j <= given && !otherTrue;
    invariant @none forall q: int {bit(i, q)} :: 0 <= q < j && q != given - 1 - f.Index ==> bit(i, q);
    decreases given - j;
    begin { use pow2_pos(j); }
  }'''
    o.append('''
func logic.%s.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && given >= 0;
  ensures @valid err == nil <==> 0 <= f.Index < given;
  ensures @size err == nil ==> fresh(r) && len(r) == 2 * pow2(given);
  ensures @rows err == nil ==> (forall i: int {seq(r)[2 * i]} {seq(r)[2 * i + 1]} :: 0 <= i < pow2(given) ==> (%s ? isT(seq(r), i) : isF(seq(r), i)));
  entry { use pow2_pos(given); use pow2_pos(given - 1 - f.Index); }
  loop 0 {
    modifies table;
    invariant 0 <= i <= rows;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> (%s ? isT(seq(table), j) : isF(seq(table), j));
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * rows ==> seq(table)[j] == 0.0;
    decreases rows - i;
    begin { let i0 = i; let t0 = seq(table); }
    end {
      let t1 = seq(table);
      fix j: int | 0 <= j < i {
        if j < i0 { assert t0[2 * j] == t1[2 * j]; assert t0[2 * j + 1] == t1[2 * j + 1]; }
      } show %s ? isT(t1, j) : isF(t1, j);
    }
  }%s'''%(T,c("i"),c("j"),c("j"),extra))
o.append("\n// ---- outcome operators: one parent with Length outcomes")
for T,C,sp in (("outcomeIsFactor","OutcomeIs","i == f.Index"),("outcomeIsNotFactor","OutcomeIsNot","i != f.Index"),("outcomeLessFactor","OutcomeLess","i < f.Index"),("outcomeGreaterFactor","OutcomeGreater",None)):
    o.append('''
func logic.%s.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) == 2;
  ensures @index f.Index == (err == nil ? seq(args)[0] : old(f.Index));
  ensures @length f.Length == (err == nil ? seq(args)[1] : old(f.Length));
func logic.%s(idx, n) returns (r)
  property C13;
  ensures istype(r, "logic.%s") && fresh(ifaceptr(r, "logic.%s")) && ifaceptr(r, "logic.%s").Index == idx && ifaceptr(r, "logic.%s").Length == n;'''%(T,C,T,T,T,T))
    valid = "0 <= f.Index < f.Length" if "Is" in T else "0 <= f.Index <= f.Length"
    h='''
func logic.%s.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && (given == 1 ==> %s);
  ensures @parents err == nil <==> given == 1;
  ensures @size err == nil ==> fresh(r) && len(r) == 2 * f.Length;'''%(T,valid)
    t="{seq(r)[2 * i]} {seq(r)[2 * i + 1]}"
    if sp:
        h+='''
  ensures @rows err == nil ==> (forall i: int %s :: 0 <= i < f.Length ==> (%s ? isT(seq(r), i) : isF(seq(r), i)));'''%(t,sp)
    else:
        h+='''
  ensures @rows err == nil ==> (forall i: int %s :: 0 <= i < f.Length && i != f.Index ==> (i > f.Index ? isT(seq(r), i) : isF(seq(r), i)));
  ensures @"outcome-greater:row=index" err == nil && f.Index < f.Length ==> isF(seq(r), f.Index);'''%t
    if "Is" in T:
        first = "isT" if "Not" in T else "isF"
        h+='''
  loop 0 {
    modifies table;
    invariant 0 <= i <= f.Length;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> %s(seq(table), j);
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * f.Length ==> seq(table)[j] == 0.0;
    decreases f.Length - i;
  }'''%first
    else:
        a,b=("isT","isF") if "Less" in T else ("isF","isT")
        h+='''
  loop 0 {
    modifies table;
    invariant 0 <= i <= f.Index;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> %s(seq(table), j);
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * f.Length ==> seq(table)[j] == 0.0;
    decreases f.Index - i;
  }
  loop 1 {
    modifies table;
    invariant f.Index <= i <= f.Length;
    invariant @low forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < f.Index ==> %s(seq(table), j);
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: f.Index <= j < i ==> %s(seq(table), j);
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * f.Length ==> seq(table)[j] == 0.0;
    decreases f.Length - i;
  }'''%(a,a,b)
    o.append(h)
o.append('''
func logic.outcomeEitherFactor.SetArgs(f, args) returns (err)
  property C13;
  requires f != nil;
  modifies *f;
  ensures @args err == nil <==> len(args) >= 2;
  ensures @length f.Length == (err == nil ? seq(args)[len(args) - 1] : old(f.Length));
  ensures @count err == nil ==> len(f.Indices) == len(args) - 1;
  ensures @indices err == nil ==> (forall i: int {seq(f.Indices)[i]} :: 0 <= i < len(args) - 1 ==> seq(f.Indices)[i] == seq(args)[i]);
  ensures @kept err != nil ==> f.Indices == old(f.Indices);
func logic.OutcomeEither(idx, n) returns (r)
  property C13;
  ensures istype(r, "logic.outcomeEitherFactor") && fresh(ifaceptr(r, "logic.outcomeEitherFactor")) && ifaceptr(r, "logic.outcomeEitherFactor").Indices == idx && ifaceptr(r, "logic.outcomeEitherFactor").Length == n;
define among(d: [int]int, n: int, i: int): bool decreases 0 = exists k: int {d[k]} :: 0 <= k < n && d[k] == i;
func logic.outcomeEitherFactor.Table(f, given) returns (r, err)
  property C13;
  requires f != nil && (given == 1 ==> 0 <= f.Length && (forall k: int {seq(f.Indices)[k]} :: 0 <= k < len(f.Indices) ==> 0 <= seq(f.Indices)[k] < f.Length));
  ensures @parents err == nil <==> given == 1;
  ensures @size err == nil ==> fresh(r) && len(r) == 2 * f.Length;
  ensures @rows err == nil ==> (forall i: int {seq(r)[2 * i]} {seq(r)[2 * i + 1]} :: 0 <= i < f.Length ==> (among(seq(f.Indices), len(f.Indices), i) ? isT(seq(r), i) : isF(seq(r), i)));
  loop 0 {
    modifies table;
    invariant 0 <= i <= f.Length;
    invariant @done forall j: int {seq(table)[2 * j]} {seq(table)[2 * j + 1]} :: 0 <= j < i ==> isF(seq(table), j);
    invariant @rest forall j: int {seq(table)[j]} :: 2 * i <= j < 2 * f.Length ==> seq(table)[j] == 0.0;
    decreases f.Length - i;
  }
  loop 1 {
    modifies table;
    invariant @rows forall i: int {seq(table)[2 * i]} {seq(table)[2 * i + 1]} :: 0 <= i < f.Length ==> (among(seq(f.Indices), $k, i) ? isT(seq(table), i) : isF(seq(table), i));
    begin { let k0 = $k; let t0 = seq(table); }
    end {
      let t1 = seq(table);
      fix i: int | 0 <= i < f.Length {
        if i != seq(f.Indices)[k0] {
          assert t1[2 * i] == t0[2 * i] && t1[2 * i + 1] == t0[2 * i + 1];
          assert among(seq(f.Indices), $k, i) <==> among(seq(f.Indices), k0, i);
        } else { assert among(seq(f.Indices), $k, i); }
      } show among(seq(f.Indices), $k, i) ? isT(t1, i) : isF(t1, i);
    }
  }
''')
open('/verif/contracts/33_logic_args.gvc','w').write("// logic: operators with arguments."+"\n".join(o))
