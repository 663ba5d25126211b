// xml.go: BIF-XML import.
declare trimSpace(s: str): str;
declare trimSet(s: str, c: str): str;
declare fieldsN(s: str): int;
declare fieldsP(s: str, i: int): str;
declare isInt(s: str): bool;
declare parseI(s: str): int;
func strings.TrimSpace(s) returns (r)
  trusted "standard library: a function of the text";
  ensures r == trimSpace(s);
func strings.Trim(s, c) returns (r)
  trusted "standard library: a function of the text and the set of characters";
  ensures r == trimSet(s, c);
func strings.Fields(s) returns (r)
  trusted "standard library: the words of s, a fresh slice";
  ensures fresh(r) && allocated(r) && len(r) == fieldsN(s) && (forall i: int {seq(r)[i]} :: 0 <= i < len(r) ==> seq(r)[i] == fieldsP(s, i));
func strconv.Atoi(s) returns (v, err)
  trusted "standard library: the integer a text denotes";
  ensures err == nil <==> isInt(s);
  ensures err == nil ==> v == parseI(s);
func bytes.NewReader(b) returns (r)
  trusted "standard library: a reader over the bytes";
  ensures r != nil && fresh(r);
func xml.NewDecoder(r) returns (d)
  trusted "standard library: a decoder";
  ensures d != nil && fresh(d);
func xml.Decoder.Decode(d, v) returns (err)
  trusted "standard library: fills in the document's values, all in new memory";
  modifies *ifaceptr(v, "bbn.bifXmlWrapper");
  ensures allocated(*ifaceptr(v, "bbn.bifXmlWrapper"));

define tquot(a: int, b: int): int = a >= 0 ? a / b : -((-a) / b);
define isPosn(s: str): bool = splitN(s, "=") == 2 && trimSpace(splitP(s, "=", 0)) == "position";
define posVal(s: str): str = trimSet(trimSpace(splitP(s, "=", 1)), "()");
define posArg(s: str, i: int): str = trimSpace(splitP(posVal(s), ",", i));
define okPosn(s: str): bool = splitN(posVal(s), ",") == 2 && isInt(posArg(s, 0)) && isInt(posArg(s, 1));
// the position given by the last position property among the first n, else the origin
define posX(E: [int]str, n: int): int decreases n = n <= 0 ? 0 : (isPosn(E[n - 1]) ? tquot(parseI(posArg(E[n - 1], 0)), 2) : posX(E, n - 1));
define posY(E: [int]str, n: int): int decreases n = n <= 0 ? 0 : (isPosn(E[n - 1]) ? tquot(parseI(posArg(E[n - 1], 1)), 12) : posY(E, n - 1));
define posnOK(E: [int]str, n: int): bool decreases 0 = forall p: int {E[p]} :: 0 <= p < n && isPosn(E[p]) ==> okPosn(E[p]);

func bbn.parsePosition(variable) returns (pos, err)
  property C16;
  requires variable != nil;
  ensures @error err == nil <==> posnOK(seq(variable.Properties), len(variable.Properties));
  ensures @value err == nil ==> pos[0] == posX(seq(variable.Properties), len(variable.Properties)) && pos[1] == posY(seq(variable.Properties), len(variable.Properties));
  loop 0 {
    invariant @ok posnOK(seq(variable.Properties), $k);
    invariant @value position[0] == posX(seq(variable.Properties), $k) && position[1] == posY(seq(variable.Properties), $k);
  }

// package variables: type names and their inverse
macro okTypes() = global("bbn.nodeTypes") != nil
  && (forall s: str {dom(global("bbn.nodeTypes"))[s]} :: dom(global("bbn.nodeTypes"))[s] <==> (s == "" || s == "nature" || s == "decision" || s == "utility"))
  && (forall s: str {vals(global("bbn.nodeTypes"))[s]} :: dom(global("bbn.nodeTypes"))[s] ==> vals(global("bbn.nodeTypes"))[s] == (s == "decision" ? 1 : (s == "utility" ? 2 : 0)));
macro okTypeNames() = global("bbn.nodeTypeNames") != nil && dom(global("bbn.nodeTypeNames"))[1] && dom(global("bbn.nodeTypeNames"))[2]
  && vals(global("bbn.nodeTypeNames"))[0] == "" && vals(global("bbn.nodeTypeNames"))[1] == "decision" && vals(global("bbn.nodeTypeNames"))[2] == "utility";
func bbn.init()
  property C15 C16;
  ensures @types okTypes();
  ensures @names okTypeNames();

// the definition in force for a name: the last one that names it
define lastDef(D: [int]bbn.definitionXml, n: int, s: str): int decreases n = n <= 0 ? -1 : (D[n - 1].For == s ? n - 1 : lastDef(D, n - 1, s));
define numeric(s: str): bool decreases 0 = forall k: int {fieldsP(s, k)} :: 0 <= k < fieldsN(s) ==> isNum(fieldsP(s, k));
define wholeRows(n: int, c: int): bool decreases 0 = c > 0 ==> n % c == 0;
define okXmlVar(v: bbn.variableXml, np: int, P: [int]str, D: [int]bbn.definitionXml, n: int): bool decreases 0 =
  lastDef(D, n, v.Name) >= 0 && posnOK(P, np)
  && (v.Type == "" || v.Type == "nature" || v.Type == "decision" || v.Type == "utility")
  && wholeRows(fieldsN(D[lastDef(D, n, v.Name)].Table), len(v.Outcomes))
  && numeric(D[lastDef(D, n, v.Name)].Table);

lemma lastDef_props(D: [int]bbn.definitionXml, n: int, s: str)
  requires 0 <= n;
  ensures -1 <= lastDef(D, n, s) < n;
  ensures lastDef(D, n, s) >= 0 ==> D[lastDef(D, n, s)].For == s;
  decreases n;
{ if n > 0 { use lastDef_props(D, n - 1, s); } }

macro xv(b) = seq(b.Network.Variables);
macro xnv(b) = len(b.Network.Variables);
macro xd(b) = seq(b.Network.Definitions);
macro xnd(b) = len(b.Network.Definitions);
macro xdef(b, i) = xd(b)[lastDef(xd(b), xnd(b), xv(b)[i].Name)];
macro okXml(b, i) = okXmlVar(xv(b)[i], len(xv(b)[i].Properties), seq(xv(b)[i].Properties), xd(b), xnd(b));
macro typeOf(s) = (s == "decision" ? 1 : (s == "utility" ? 2 : 0));

func bbn.FromBIFXML(content) returns (net, err)
  modular C16;
  ensures @nil err == nil <==> net != nil;
  requires okTypes();
  exit {
    if err == nil {
      assert @name net != nil && net.name == bifNet.Network.Name;
      assert @checked forall i: int {xv(bifNet)[i]} :: 0 <= i < xnv(bifNet) ==> okXml(bifNet, i);
      assert @variables nv(net) == xnv(bifNet) && (forall i: int {vs(net)[i]} :: 0 <= i < nv(net) ==> vs(net)[i].Name == xv(bifNet)[i].Name && vs(net)[i].Outcomes == xv(bifNet)[i].Outcomes && vs(net)[i].NodeType == typeOf(xv(bifNet)[i].Type)
         && vs(net)[i].Position[0] == posX(seq(xv(bifNet)[i].Properties), len(xv(bifNet)[i].Properties)) && vs(net)[i].Position[1] == posY(seq(xv(bifNet)[i].Properties), len(xv(bifNet)[i].Properties)));
      assert @definitions nf(net) == xnv(bifNet) && (forall i: int {fs(net)[i]} :: 0 <= i < nf(net) ==> fs(net)[i].For == xv(bifNet)[i].Name && fs(net)[i].Given == xdef(bifNet, i).Given && len(fs(net)[i].Table) == fieldsN(xdef(bifNet, i).Table));
      assert @tables forall i: int, k: int {seq(fs(net)[i].Table)[k]} :: 0 <= i < nf(net) && 0 <= k < len(fs(net)[i].Table) ==> seq(fs(net)[i].Table)[k] == parseF(fieldsP(xdef(bifNet, i).Table, k));
    } else {
      assert @none net == nil;
      ifdef nerr { assert @built nerr != nil; } else { ifdef it {
        ifdef tx { assert tx == xdef(bifNet, it).Table && ntv == fieldsN(tx); ifdef nout { assert nout == len(xv(bifNet)[it].Outcomes); } else { assert !wholeRows(ntv, len(xv(bifNet)[it].Outcomes)); } }
        assert @reason 0 <= it < xnv(bifNet) && !okXml(bifNet, it);
      } else { assert @decode derr != nil; } }
    }
  }
  loop 0 {
    modifies defs;
    invariant @in forall s: str {dom(defs)[s]} :: dom(defs)[s] <==> lastDef(xd(bifNet), $k, s) >= 0;
    invariant @at forall s: str {vals(defs)[s]} :: dom(defs)[s] ==> ref(vals(defs)[s]) == ref(bifNet.Network.Definitions) && off(vals(defs)[s]) == off(bifNet.Network.Definitions) + lastDef(xd(bifNet), $k, s) && lastDef(xd(bifNet), $k, s) < $k;
  }
  aftercall New { let nerr = $r1; }
  aftercall Decode { let derr = $r; }
  aftercall Fields { let TV = seq($r); let ntv = len($r); let tx = $a0; }
  beforecall parsePosition { let nout = len(variable.Outcomes); assert ntv >= 0 && wholeRows(ntv, nout); }
  loop 1 {
    modifies variables, factors;
    begin { let it = $k; }
    end {
      let i0 = $k - 1;
      let df = xdef(bifNet, i0);
      assert ntv == fieldsN(df.Table) && (forall k: int {TV[k]} {fieldsP(df.Table, k)} :: 0 <= k < ntv ==> TV[k] == fieldsP(df.Table, k));
      assert forall k: int {TV[k]} :: 0 <= k < ntv ==> isNum(TV[k]);
      fix k: int | 0 <= k < fieldsN(df.Table) { assert isNum(TV[k]); } show isNum(fieldsP(df.Table, k));
      assert numeric(df.Table);
      assert posnOK(seq(xv(bifNet)[i0].Properties), len(xv(bifNet)[i0].Properties));
      assert df.Table == tx && fieldsN(tx) == ntv && len(xv(bifNet)[i0].Outcomes) == nout;
      assert wholeRows(fieldsN(df.Table), len(xv(bifNet)[i0].Outcomes));
      assert okXml(bifNet, i0);
    }
    invariant @grow (len(factors) == 0 || fresh(factors)) && (ref(factors) == pre(ref(factors)) || ref(factors) > pre(alloc())) && len(factors) == $k;
    invariant @checked forall i: int {xv(bifNet)[i]} :: 0 <= i < $k ==> okXml(bifNet, i);
    invariant @variables forall i: int {seq(variables)[i]} :: 0 <= i < $k ==> seq(variables)[i].Name == xv(bifNet)[i].Name && seq(variables)[i].Outcomes == xv(bifNet)[i].Outcomes && seq(variables)[i].NodeType == typeOf(xv(bifNet)[i].Type)
         && seq(variables)[i].Position[0] == posX(seq(xv(bifNet)[i].Properties), len(xv(bifNet)[i].Properties)) && seq(variables)[i].Position[1] == posY(seq(xv(bifNet)[i].Properties), len(xv(bifNet)[i].Properties));
    invariant @definitions forall i: int {seq(factors)[i]} :: 0 <= i < $k ==> seq(factors)[i].For == xv(bifNet)[i].Name && seq(factors)[i].Given == xdef(bifNet, i).Given && len(seq(factors)[i].Table) == fieldsN(xdef(bifNet, i).Table) && allocated(seq(factors)[i].Table);
    invariant @tables forall i: int, k: int {seq(seq(factors)[i].Table)[k]} :: 0 <= i < $k && 0 <= k < len(seq(factors)[i].Table) ==> seq(seq(factors)[i].Table)[k] == parseF(fieldsP(xdef(bifNet, i).Table, k));
  }
  loop 2 {
    modifies table;
    invariant @values forall k: int {seq(table)[k]} {seq(tableValues)[k]} :: 0 <= k < $k ==> isNum(seq(tableValues)[k]) && seq(table)[k] == parseF(seq(tableValues)[k]);
  }
