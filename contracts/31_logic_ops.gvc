// Generated by tools/mklogic.py: the Boolean operators.

// values of a table of one / two parents (outcome 0 is true; the last parent varies fastest)
macro tt1(s, vT, vF) = len(s) == 2 && seq(s)[0] == (vT) && seq(s)[1] == (vF);
macro tt2(s, vTT, vTF, vFT, vFF) = len(s) == 4 && seq(s)[0] == (vTT) && seq(s)[1] == (vTF) && seq(s)[2] == (vFT) && seq(s)[3] == (vFF);
macro ff1(s, vTT, vTF, vFT, vFF) = len(s) == 4 && seq(s)[0] == vTT && seq(s)[1] == vTF && seq(s)[2] == vFT && seq(s)[3] == vFF;

macro table_not(s) = tt1(s, !true, !false);
macro table_equals(s) = tt1(s, true, false);
macro table_equalsNot(s) = tt1(s, !true, !false);
macro table_and(s) = tt2(s, true && true, true && false, false && true, false && false);
macro table_notAnd(s) = tt2(s, !true && true, !true && false, !false && true, !false && false);
macro table_andNot(s) = tt2(s, true && !true, true && !false, false && !true, false && !false);
macro table_notAndNot(s) = tt2(s, !true && !true, !true && !false, !false && !true, !false && !false);
macro table_or(s) = tt2(s, true || true, true || false, false || true, false || false);
macro table_notOr(s) = tt2(s, !true || true, !true || false, !false || true, !false || false);
macro table_orNot(s) = tt2(s, true || !true, true || !false, false || !true, false || !false);
macro table_notOrNot(s) = tt2(s, !true || !true, !true || !false, !false || !true, !false || !false);
macro table_xOr(s) = tt2(s, true != true, true != false, false != true, false != false);
macro table_cond(s) = tt2(s, true ==> true, true ==> false, false ==> true, false ==> false);
macro table_notCond(s) = tt2(s, !true ==> true, !true ==> false, !false ==> true, !false ==> false);
macro table_condNot(s) = tt2(s, true ==> !true, true ==> !false, false ==> !true, false ==> !false);
macro table_notCondNot(s) = tt2(s, !true ==> !true, !true ==> !false, !false ==> !true, !false ==> !false);
macro table_biCond(s) = tt2(s, true <==> true, true <==> false, false <==> true, false <==> false);
macro table_ifThen(s) = ff1(s, 1.0, 0.0, 0.5, 0.5);
macro table_ifNotThen(s) = ff1(s, 0.5, 0.5, 1.0, 0.0);
macro table_ifThenNot(s) = ff1(s, 0.0, 1.0, 0.5, 0.5);
macro table_ifNotThenNot(s) = ff1(s, 0.5, 0.5, 0.0, 1.0);

func logic.Not() returns (r)
  property C12;
  requires table_not(global("logic.not"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_not(*ifaceptr(r, "logic.boolFactor"));

func logic.Equals() returns (r)
  property C12;
  requires table_equals(global("logic.equals"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_equals(*ifaceptr(r, "logic.boolFactor"));

func logic.EqualsNot() returns (r)
  property C12;
  requires table_equalsNot(global("logic.equalsNot"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_equalsNot(*ifaceptr(r, "logic.boolFactor"));

func logic.And() returns (r)
  property C12;
  requires table_and(global("logic.and"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_and(*ifaceptr(r, "logic.boolFactor"));

func logic.NotAnd() returns (r)
  property C12;
  requires table_notAnd(global("logic.notAnd"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_notAnd(*ifaceptr(r, "logic.boolFactor"));

func logic.AndNot() returns (r)
  property C12;
  requires table_andNot(global("logic.andNot"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_andNot(*ifaceptr(r, "logic.boolFactor"));

func logic.NotAndNot() returns (r)
  property C12;
  requires table_notAndNot(global("logic.notAndNot"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_notAndNot(*ifaceptr(r, "logic.boolFactor"));

func logic.Or() returns (r)
  property C12;
  requires table_or(global("logic.or"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_or(*ifaceptr(r, "logic.boolFactor"));

func logic.NotOr() returns (r)
  property C12;
  requires table_notOr(global("logic.notOr"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_notOr(*ifaceptr(r, "logic.boolFactor"));

func logic.OrNot() returns (r)
  property C12;
  requires table_orNot(global("logic.orNot"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_orNot(*ifaceptr(r, "logic.boolFactor"));

func logic.NotOrNot() returns (r)
  property C12;
  requires table_notOrNot(global("logic.notOrNot"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_notOrNot(*ifaceptr(r, "logic.boolFactor"));

func logic.XOr() returns (r)
  property C12;
  requires table_xOr(global("logic.xOr"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_xOr(*ifaceptr(r, "logic.boolFactor"));

func logic.Cond() returns (r)
  property C12;
  requires table_cond(global("logic.cond"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_cond(*ifaceptr(r, "logic.boolFactor"));

func logic.NotCond() returns (r)
  property C12;
  requires table_notCond(global("logic.notCond"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_notCond(*ifaceptr(r, "logic.boolFactor"));

func logic.CondNot() returns (r)
  property C12;
  requires table_condNot(global("logic.condNot"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_condNot(*ifaceptr(r, "logic.boolFactor"));

func logic.NotCondNot() returns (r)
  property C12;
  requires table_notCondNot(global("logic.notCondNot"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_notCondNot(*ifaceptr(r, "logic.boolFactor"));

func logic.BiCond() returns (r)
  property C12;
  requires table_biCond(global("logic.biCond"));
  ensures @type istype(r, "logic.boolFactor") && ifaceptr(r, "logic.boolFactor") != nil;
  ensures @truth table_biCond(*ifaceptr(r, "logic.boolFactor"));

func logic.IfThen() returns (r)
  property C12;
  requires table_ifThen(global("logic.ifThen"));
  ensures @type istype(r, "logic.floatFactor") && ifaceptr(r, "logic.floatFactor") != nil;
  ensures @truth table_ifThen(*ifaceptr(r, "logic.floatFactor"));

func logic.IfNotThen() returns (r)
  property C12;
  requires table_ifNotThen(global("logic.ifNotThen"));
  ensures @type istype(r, "logic.floatFactor") && ifaceptr(r, "logic.floatFactor") != nil;
  ensures @truth table_ifNotThen(*ifaceptr(r, "logic.floatFactor"));

func logic.IfThenNot() returns (r)
  property C12;
  requires table_ifThenNot(global("logic.ifThenNot"));
  ensures @type istype(r, "logic.floatFactor") && ifaceptr(r, "logic.floatFactor") != nil;
  ensures @truth table_ifThenNot(*ifaceptr(r, "logic.floatFactor"));

func logic.IfNotThenNot() returns (r)
  property C12;
  requires table_ifNotThenNot(global("logic.ifNotThenNot"));
  ensures @type istype(r, "logic.floatFactor") && ifaceptr(r, "logic.floatFactor") != nil;
  ensures @truth table_ifNotThenNot(*ifaceptr(r, "logic.floatFactor"));

// every table variable and every registered name, as left by package initialisation
func logic.init()
  property C12 C13;
  ensures @name_count_true dom(global("logic.factors"))["count-true"] && istype(vals(global("logic.factors"))["count-true"], "logic.countTrueFactor") && ifaceptr(vals(global("logic.factors"))["count-true"], "logic.countTrueFactor") != nil;
  ensures @name_count_false dom(global("logic.factors"))["count-false"] && istype(vals(global("logic.factors"))["count-false"], "logic.countFalseFactor") && ifaceptr(vals(global("logic.factors"))["count-false"], "logic.countFalseFactor") != nil;
  ensures @name_count_is dom(global("logic.factors"))["count-is"] && istype(vals(global("logic.factors"))["count-is"], "logic.countFactor") && ifaceptr(vals(global("logic.factors"))["count-is"], "logic.countFactor") != nil && (forall c: int, v: int {apply(ifaceptr(vals(global("logic.factors"))["count-is"], "logic.countFactor").Rule, c, v)} :: apply(ifaceptr(vals(global("logic.factors"))["count-is"], "logic.countFactor").Rule, c, v) <==> c == v);
  ensures @name_count_less dom(global("logic.factors"))["count-less"] && istype(vals(global("logic.factors"))["count-less"], "logic.countFactor") && ifaceptr(vals(global("logic.factors"))["count-less"], "logic.countFactor") != nil && (forall c: int, v: int {apply(ifaceptr(vals(global("logic.factors"))["count-less"], "logic.countFactor").Rule, c, v)} :: apply(ifaceptr(vals(global("logic.factors"))["count-less"], "logic.countFactor").Rule, c, v) <==> c < v);
  ensures @name_count_greater dom(global("logic.factors"))["count-greater"] && istype(vals(global("logic.factors"))["count-greater"], "logic.countFactor") && ifaceptr(vals(global("logic.factors"))["count-greater"], "logic.countFactor") != nil && (forall c: int, v: int {apply(ifaceptr(vals(global("logic.factors"))["count-greater"], "logic.countFactor").Rule, c, v)} :: apply(ifaceptr(vals(global("logic.factors"))["count-greater"], "logic.countFactor").Rule, c, v) <==> c > v);
  ensures @name_given dom(global("logic.factors"))["given"] && istype(vals(global("logic.factors"))["given"], "logic.givenFactor") && ifaceptr(vals(global("logic.factors"))["given"], "logic.givenFactor") != nil;
  ensures @name_given_not dom(global("logic.factors"))["given-not"] && istype(vals(global("logic.factors"))["given-not"], "logic.givenNotFactor") && ifaceptr(vals(global("logic.factors"))["given-not"], "logic.givenNotFactor") != nil;
  ensures @name_given_excl dom(global("logic.factors"))["given-excl"] && istype(vals(global("logic.factors"))["given-excl"], "logic.givenExclFactor") && ifaceptr(vals(global("logic.factors"))["given-excl"], "logic.givenExclFactor") != nil;
  ensures @name_outcome_is dom(global("logic.factors"))["outcome-is"] && istype(vals(global("logic.factors"))["outcome-is"], "logic.outcomeIsFactor") && ifaceptr(vals(global("logic.factors"))["outcome-is"], "logic.outcomeIsFactor") != nil;
  ensures @name_outcome_is_not dom(global("logic.factors"))["outcome-is-not"] && istype(vals(global("logic.factors"))["outcome-is-not"], "logic.outcomeIsNotFactor") && ifaceptr(vals(global("logic.factors"))["outcome-is-not"], "logic.outcomeIsNotFactor") != nil;
  ensures @name_outcome_either dom(global("logic.factors"))["outcome-either"] && istype(vals(global("logic.factors"))["outcome-either"], "logic.outcomeEitherFactor") && ifaceptr(vals(global("logic.factors"))["outcome-either"], "logic.outcomeEitherFactor") != nil;
  ensures @name_outcome_less dom(global("logic.factors"))["outcome-less"] && istype(vals(global("logic.factors"))["outcome-less"], "logic.outcomeLessFactor") && ifaceptr(vals(global("logic.factors"))["outcome-less"], "logic.outcomeLessFactor") != nil;
  ensures @name_outcome_greater dom(global("logic.factors"))["outcome-greater"] && istype(vals(global("logic.factors"))["outcome-greater"], "logic.outcomeGreaterFactor") && ifaceptr(vals(global("logic.factors"))["outcome-greater"], "logic.outcomeGreaterFactor") != nil;
  ensures @table_not table_not(global("logic.not"));
  ensures @table_equals table_equals(global("logic.equals"));
  ensures @table_equalsNot table_equalsNot(global("logic.equalsNot"));
  ensures @table_and table_and(global("logic.and"));
  ensures @table_notAnd table_notAnd(global("logic.notAnd"));
  ensures @table_andNot table_andNot(global("logic.andNot"));
  ensures @table_notAndNot table_notAndNot(global("logic.notAndNot"));
  ensures @table_or table_or(global("logic.or"));
  ensures @table_notOr table_notOr(global("logic.notOr"));
  ensures @table_orNot table_orNot(global("logic.orNot"));
  ensures @table_notOrNot table_notOrNot(global("logic.notOrNot"));
  ensures @table_xOr table_xOr(global("logic.xOr"));
  ensures @table_cond table_cond(global("logic.cond"));
  ensures @table_notCond table_notCond(global("logic.notCond"));
  ensures @table_condNot table_condNot(global("logic.condNot"));
  ensures @table_notCondNot table_notCondNot(global("logic.notCondNot"));
  ensures @table_biCond table_biCond(global("logic.biCond"));
  ensures @table_ifThen table_ifThen(global("logic.ifThen"));
  ensures @table_ifNotThen table_ifNotThen(global("logic.ifNotThen"));
  ensures @table_ifThenNot table_ifThenNot(global("logic.ifThenNot"));
  ensures @table_ifNotThenNot table_ifNotThenNot(global("logic.ifNotThenNot"));
  ensures @name_not dom(global("logic.factors"))["not"] && istype(vals(global("logic.factors"))["not"], "logic.boolFactor") && table_not(*ifaceptr(vals(global("logic.factors"))["not"], "logic.boolFactor"));
  ensures @name_equals dom(global("logic.factors"))["equals"] && istype(vals(global("logic.factors"))["equals"], "logic.boolFactor") && table_equals(*ifaceptr(vals(global("logic.factors"))["equals"], "logic.boolFactor"));
  ensures @name_equalsNot dom(global("logic.factors"))["equals-not"] && istype(vals(global("logic.factors"))["equals-not"], "logic.boolFactor") && table_equalsNot(*ifaceptr(vals(global("logic.factors"))["equals-not"], "logic.boolFactor"));
  ensures @name_and dom(global("logic.factors"))["and"] && istype(vals(global("logic.factors"))["and"], "logic.boolFactor") && table_and(*ifaceptr(vals(global("logic.factors"))["and"], "logic.boolFactor"));
  ensures @name_notAnd dom(global("logic.factors"))["not-and"] && istype(vals(global("logic.factors"))["not-and"], "logic.boolFactor") && table_notAnd(*ifaceptr(vals(global("logic.factors"))["not-and"], "logic.boolFactor"));
  ensures @name_andNot dom(global("logic.factors"))["and-not"] && istype(vals(global("logic.factors"))["and-not"], "logic.boolFactor") && table_andNot(*ifaceptr(vals(global("logic.factors"))["and-not"], "logic.boolFactor"));
  ensures @name_notAndNot dom(global("logic.factors"))["not-and-not"] && istype(vals(global("logic.factors"))["not-and-not"], "logic.boolFactor") && table_notAndNot(*ifaceptr(vals(global("logic.factors"))["not-and-not"], "logic.boolFactor"));
  ensures @name_or dom(global("logic.factors"))["or"] && istype(vals(global("logic.factors"))["or"], "logic.boolFactor") && table_or(*ifaceptr(vals(global("logic.factors"))["or"], "logic.boolFactor"));
  ensures @name_notOr dom(global("logic.factors"))["not-or"] && istype(vals(global("logic.factors"))["not-or"], "logic.boolFactor") && table_notOr(*ifaceptr(vals(global("logic.factors"))["not-or"], "logic.boolFactor"));
  ensures @name_orNot dom(global("logic.factors"))["or-not"] && istype(vals(global("logic.factors"))["or-not"], "logic.boolFactor") && table_orNot(*ifaceptr(vals(global("logic.factors"))["or-not"], "logic.boolFactor"));
  ensures @name_notOrNot dom(global("logic.factors"))["not-or-not"] && istype(vals(global("logic.factors"))["not-or-not"], "logic.boolFactor") && table_notOrNot(*ifaceptr(vals(global("logic.factors"))["not-or-not"], "logic.boolFactor"));
  ensures @name_xOr dom(global("logic.factors"))["xor"] && istype(vals(global("logic.factors"))["xor"], "logic.boolFactor") && table_xOr(*ifaceptr(vals(global("logic.factors"))["xor"], "logic.boolFactor"));
  ensures @name_cond dom(global("logic.factors"))["cond"] && istype(vals(global("logic.factors"))["cond"], "logic.boolFactor") && table_cond(*ifaceptr(vals(global("logic.factors"))["cond"], "logic.boolFactor"));
  ensures @name_notCond dom(global("logic.factors"))["not-cond"] && istype(vals(global("logic.factors"))["not-cond"], "logic.boolFactor") && table_notCond(*ifaceptr(vals(global("logic.factors"))["not-cond"], "logic.boolFactor"));
  ensures @name_condNot dom(global("logic.factors"))["cond-not"] && istype(vals(global("logic.factors"))["cond-not"], "logic.boolFactor") && table_condNot(*ifaceptr(vals(global("logic.factors"))["cond-not"], "logic.boolFactor"));
  ensures @name_notCondNot dom(global("logic.factors"))["not-cond-not"] && istype(vals(global("logic.factors"))["not-cond-not"], "logic.boolFactor") && table_notCondNot(*ifaceptr(vals(global("logic.factors"))["not-cond-not"], "logic.boolFactor"));
  ensures @name_biCond dom(global("logic.factors"))["bicond"] && istype(vals(global("logic.factors"))["bicond"], "logic.boolFactor") && table_biCond(*ifaceptr(vals(global("logic.factors"))["bicond"], "logic.boolFactor"));
  ensures @name_ifThen dom(global("logic.factors"))["if-then"] && istype(vals(global("logic.factors"))["if-then"], "logic.floatFactor") && table_ifThen(*ifaceptr(vals(global("logic.factors"))["if-then"], "logic.floatFactor"));
  ensures @name_ifNotThen dom(global("logic.factors"))["if-not-then"] && istype(vals(global("logic.factors"))["if-not-then"], "logic.floatFactor") && table_ifNotThen(*ifaceptr(vals(global("logic.factors"))["if-not-then"], "logic.floatFactor"));
  ensures @name_ifThenNot dom(global("logic.factors"))["if-then-not"] && istype(vals(global("logic.factors"))["if-then-not"], "logic.floatFactor") && table_ifThenNot(*ifaceptr(vals(global("logic.factors"))["if-then-not"], "logic.floatFactor"));
  ensures @name_ifNotThenNot dom(global("logic.factors"))["if-not-then-not"] && istype(vals(global("logic.factors"))["if-not-then-not"], "logic.floatFactor") && table_ifNotThenNot(*ifaceptr(vals(global("logic.factors"))["if-not-then-not"], "logic.floatFactor"));
  ensures @name_bits dom(global("logic.factors"))["bits"] && istype(vals(global("logic.factors"))["bits"], "logic.bitsFactor") && ifaceptr(vals(global("logic.factors"))["bits"], "logic.bitsFactor") != nil;
  ensures @made global("logic.factors") != nil;
  ensures @only forall s: str {dom(global("logic.factors"))[s]} :: dom(global("logic.factors"))[s] ==> (s == "not" || s == "equals" || s == "equals-not" || s == "and" || s == "not-and" || s == "and-not" || s == "not-and-not" || s == "or" || s == "not-or" || s == "or-not" || s == "not-or-not" || s == "xor" || s == "cond" || s == "not-cond" || s == "cond-not" || s == "not-cond-not" || s == "bicond" || s == "if-then" || s == "if-not-then" || s == "if-then-not" || s == "if-not-then-not" || s == "count-true" || s == "count-false" || s == "count-is" || s == "count-less" || s == "count-greater" || s == "given" || s == "given-not" || s == "given-excl" || s == "outcome-is" || s == "outcome-is-not" || s == "outcome-either" || s == "outcome-less" || s == "outcome-greater" || s == "bits");

func logic.Get(name) returns (f, ok)
  property C12 C13;
  requires global("logic.factors") != nil;
  ensures @found ok <==> dom(global("logic.factors"))[name];
  ensures @which ok ==> f == vals(global("logic.factors"))[name];
