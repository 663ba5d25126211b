#!/usr/bin/env python3
"""Writes contracts/31_logic_ops.gvc: truth functions of the Boolean operators, the package invariant over their tables and the registry of names."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ["true", "false"]
ops1 = [("not", "Not", "not", "!{a}"), ("equals", "Equals", "equals", "{a}"), ("equals-not", "EqualsNot", "equalsNot", "!{a}")]
ops2 = [("and", "And", "and", "{a} && {b}"), ("not-and", "NotAnd", "notAnd", "!{a} && {b}"), ("and-not", "AndNot", "andNot", "{a} && !{b}"), ("not-and-not", "NotAndNot", "notAndNot", "!{a} && !{b}"),
        ("or", "Or", "or", "{a} || {b}"), ("not-or", "NotOr", "notOr", "!{a} || {b}"), ("or-not", "OrNot", "orNot", "{a} || !{b}"), ("not-or-not", "NotOrNot", "notOrNot", "!{a} || !{b}"),
        ("xor", "XOr", "xOr", "{a} != {b}"),
        ("cond", "Cond", "cond", "{a} ==> {b}"), ("not-cond", "NotCond", "notCond", "!{a} ==> {b}"), ("cond-not", "CondNot", "condNot", "{a} ==> !{b}"), ("not-cond-not", "NotCondNot", "notCondNot", "!{a} ==> !{b}"),
        ("bicond", "BiCond", "biCond", "{a} <==> {b}")]
# a conditional on one parent constrains the result only where its premise holds
opsf = [("if-then", "IfThen", "ifThen", "1.0, 0.0, 0.5, 0.5"), ("if-not-then", "IfNotThen", "ifNotThen", "0.5, 0.5, 1.0, 0.0"),
        ("if-then-not", "IfThenNot", "ifThenNot", "0.0, 1.0, 0.5, 0.5"), ("if-not-then-not", "IfNotThenNot", "ifNotThenNot", "0.5, 0.5, 0.0, 1.0")]
o = ["// Generated by tools/mklogic.py: the Boolean operators.", ""]
o += ["// values of a table of one / two parents (outcome 0 is true; the last parent varies fastest)",
      "macro tt1(s, vT, vF) = len(s) == 2 && seq(s)[0] == (vT) && seq(s)[1] == (vF);",
      "macro tt2(s, vTT, vTF, vFT, vFF) = len(s) == 4 && seq(s)[0] == (vTT) && seq(s)[1] == (vTF) && seq(s)[2] == (vFT) && seq(s)[3] == (vFF);",
      "macro ff1(s, vTT, vTF, vFT, vFF) = len(s) == 4 && seq(s)[0] == vTT && seq(s)[1] == vTF && seq(s)[2] == vFT && seq(s)[3] == vFF;", ""]
allops = []
for n, F, g, e in ops1:
    allops.append((n, F, g, "boolFactor", "tt1(%s, " + ", ".join(e.format(a=a) for a in T) + ")"))
for n, F, g, e in ops2:
    allops.append((n, F, g, "boolFactor", "tt2(%s, " + ", ".join(e.format(a=a, b=b) for a in T for b in T) + ")"))
for n, F, g, e in opsf:
    allops.append((n, F, g, "floatFactor", "ff1(%s, " + e + ")"))
for n, F, g, t, spec in allops:
    o.append("macro table_%s(s) = %s;" % (g, spec % "s"))
o.append("")
for n, F, g, t, spec in allops:
    o += ["func logic.%s() returns (r)" % F, "  property C12;",
          '  requires table_%s(global("logic.%s"));' % (g, g),
          '  ensures @type istype(r, "logic.%s") && ifaceptr(r, "logic.%s") != nil;' % (t, t),
          '  ensures @truth table_%s(*ifaceptr(r, "logic.%s"));' % (g, t), ""]
o += ["// every table variable and every registered name, as left by package initialisation", "func logic.init()", "  property C12 C13;"]
for n, F, g, t, spec in allops:
    o.append('  ensures @table_%s table_%s(global("logic.%s"));' % (g, g, g))
M = 'vals(global("logic.factors"))'
for n, F, g, t, spec in allops:
    o.append('  ensures @name_%s dom(global("logic.factors"))["%s"] && istype(%s["%s"], "logic.%s") && table_%s(*ifaceptr(%s["%s"], "logic.%s"));' % (g, n, M, n, t, g, M, n, t))
param = [("count-true", "countTrueFactor"), ("count-false", "countFalseFactor"), ("count-is", "countFactor"), ("count-less", "countFactor"), ("count-greater", "countFactor"),
         ("given", "givenFactor"), ("given-not", "givenNotFactor"), ("given-excl", "givenExclFactor"),
         ("outcome-is", "outcomeIsFactor"), ("outcome-is-not", "outcomeIsNotFactor"), ("outcome-either", "outcomeEitherFactor"), ("outcome-less", "outcomeLessFactor"), ("outcome-greater", "outcomeGreaterFactor"),
         ("bits", "bitsFactor")]
rule = {"count-is": "==", "count-less": "<", "count-greater": ">"}
for n, t in param:
    s = 'dom(global("logic.factors"))["%s"] && istype(%s["%s"], "logic.%s") && ifaceptr(%s["%s"], "logic.%s") != nil' % (n, M, n, t, M, n, t)
    if n in rule:
        s += ' && (forall c: int, v: int {apply(ifaceptr(%s["%s"], "logic.%s").Rule, c, v)} :: apply(ifaceptr(%s["%s"], "logic.%s").Rule, c, v) <==> c %s v)' % (M, n, t, M, n, t, rule[n])
    o.append("  ensures @name_%s %s;" % (n.replace("-", "_"), s))
o.append('  ensures @made global("logic.factors") != nil;')
names = [x[0] for x in allops] + [x[0] for x in param]
o.append('  ensures @only forall s: str {dom(global("logic.factors"))[s]} :: dom(global("logic.factors"))[s] ==> (%s);' % " || ".join('s == "%s"' % n for n in names))
o += ["", "func logic.Get(name) returns (f, ok)", "  property C12 C13;", '  requires global("logic.factors") != nil;',
      '  ensures @found ok <==> dom(global("logic.factors"))[name];', '  ensures @which ok ==> f == %s[name];' % M, ""]
open(V + "/contracts/31_logic_ops.gvc", "w").write("\n".join(o))
