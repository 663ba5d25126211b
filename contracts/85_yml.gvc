// yml.go: reading and writing YAML.
declare lower(s: str): str;
func strings.ToLower(s) returns (r)
  trusted "standard library: a function of the text";
  ensures r == lower(s);
axiom split_some "strings.Split with a non-empty separator returns at least one part" = forall s: str {splitN(s, " ")} :: splitN(s, " ") >= 1;

macro operators() = true;
func logic.Factor.SetArgs(f, args) returns (err)
  trusted "interface method: every implementation is verified against its own contract under C12 and C13; it writes only the operator object";
  modifies forall s: []logic.countFactor :: s, forall s: []logic.givenFactor :: s, forall s: []logic.outcomeIsFactor :: s, forall s: []logic.outcomeEitherFactor :: s, forall s: []int :: s;
func logic.Factor.Table(f, given) returns (table, err)
  trusted "interface method: every implementation is verified against its own contract under C12 and C13; it writes nothing";
  ensures allocated(table);

// number of values in the first n rows
define rowOff(R: [int][]real, n: int): int decreases n = n <= 0 ? 0 : rowOff(R, n - 1) + len(R[n - 1]);

func bbn.toTable(v) returns (table, err)
  property C15;
  requires v != nil && global("logic.factors") != nil;
  modifies forall s: []logic.countFactor :: s, forall s: []logic.givenFactor :: s, forall s: []logic.outcomeIsFactor :: s, forall s: []logic.outcomeEitherFactor :: s, forall s: []int :: s;
  ensures @both len(v.Table) > 0 && v.Logic != "" ==> err != nil;
  ensures @operator v.Logic != "" && !dom(global("logic.factors"))[lower(splitP(v.Logic, " ", 0))] ==> err != nil;
  ensures @plain v.Logic == "" ==> err == nil;
  ensures @len v.Logic == "" ==> len(table) == rowOff(seq(v.Table), len(v.Table));
  ensures @rows v.Logic == "" ==> (forall r: int, c: int {seq(seq(v.Table)[r])[c]} :: 0 <= r < len(v.Table) && 0 <= c < len(seq(v.Table)[r]) ==> seq(table)[rowOff(seq(v.Table), r) + c] == seq(seq(v.Table)[r])[c]);
  ensures @new allocated(table) && (v.Logic == "" ==> table == nil || fresh(table));
  loop 0 {
    modifies table;
    invariant @grow fresh(table) && allocated(table) && (ref(table) == pre(ref(table)) || ref(table) > pre(alloc()));
    invariant @len len(table) == rowOff(seq(v.Table), $k);
    invariant @off forall r: int {rowOff(seq(v.Table), r)} :: 0 <= r < $k ==> 0 <= rowOff(seq(v.Table), r) && rowOff(seq(v.Table), r) + len(seq(v.Table)[r]) <= len(table);
    invariant @rows forall r: int, c: int {seq(seq(v.Table)[r])[c]} :: 0 <= r < $k && 0 <= c < len(seq(v.Table)[r]) ==> seq(table)[rowOff(seq(v.Table), r) + c] == seq(seq(v.Table)[r])[c];
  }
  loop 1 {
    modifies args;
    invariant @k 1 <= i <= len(parts);
    invariant @args forall j: int {seq(args)[j]} :: 0 <= j < i - 1 ==> isInt(seq(parts)[j + 1]) && seq(args)[j] == parseI(seq(parts)[j + 1]);
  }
  beforecall SetArgs {
    assert @operator l == vals(global("logic.factors"))[lower(splitP(v.Logic, " ", 0))];
    assert @args len(args) == splitN(v.Logic, " ") - 1 && (forall j: int {seq(args)[j]} :: 0 <= j < len(args) ==> seq(args)[j] == parseI(splitP(v.Logic, " ", j + 1)));
  }
  beforecall Table { assert @receiver l == vals(global("logic.factors"))[lower(splitP(v.Logic, " ", 0))]; }
  aftercall Table { let lt = $r0; }
  exit { ifdef lt { assert @result err == nil ==> table == lt; } }

func yaml.NewDecoder(r) returns (d)
  trusted "yaml library: a decoder";
  ensures d != nil && fresh(d);
func yaml.Decoder.KnownFields(d, b) returns ()
  trusted "yaml library: changes only the decoder";
func yaml.Decoder.Decode(d, v) returns (err)
  trusted "yaml library: fills in the document's values, all in new memory";
  modifies *ifaceptr(v, "bbn.networkYaml");
  ensures allocated(*ifaceptr(v, "bbn.networkYaml"));

macro yv(y) = seq(y.Variables);
macro ynv(y) = len(y.Variables);
macro knownType(s) = (s == "" || s == "nature" || s == "decision" || s == "utility");
macro rowsIn(T, Y, n) = (forall r: int, c: int {seq(Y[r])[c]} :: 0 <= r < n && 0 <= c < len(Y[r]) ==> seq(T)[rowOff(Y, r) + c] == seq(Y[r])[c]);

func bbn.FromYAML(content) returns (res, err)
  modular C15;
  ensures @nil err == nil <==> res != nil;
  requires okTypes() && global("logic.factors") != nil;
  modifies forall s: []logic.countFactor :: s, forall s: []logic.givenFactor :: s, forall s: []logic.outcomeIsFactor :: s, forall s: []logic.outcomeEitherFactor :: s, forall s: []int :: s;
  exit {
    if err == nil {
      assert @name res != nil && res.name == net.Name && res.info == net.Info;
      assert @types forall i: int {yv(net)[i]} :: 0 <= i < ynv(net) ==> knownType(yv(net)[i].Type) && !(len(yv(net)[i].Table) > 0 && yv(net)[i].Logic != "")
         && (yv(net)[i].Logic != "" ==> dom(global("logic.factors"))[lower(splitP(yv(net)[i].Logic, " ", 0))]);
      assert @variables nv(res) == ynv(net) && (forall i: int {vs(res)[i]} :: 0 <= i < nv(res) ==> vs(res)[i].Name == yv(net)[i].Variable && vs(res)[i].NodeType == typeOf(yv(net)[i].Type)
         && vs(res)[i].Outcomes == yv(net)[i].Outcomes && vs(res)[i].Position == yv(net)[i].Position && vs(res)[i].Color == yv(net)[i].Color);
      assert @definitions nf(res) == ynv(net) && (forall i: int {fs(res)[i]} :: 0 <= i < nf(res) ==> fs(res)[i].For == yv(net)[i].Variable && fs(res)[i].Given == yv(net)[i].Given);
      assert @tables forall i: int {fs(res)[i]} :: 0 <= i < nf(res) && yv(net)[i].Logic == "" ==> len(fs(res)[i].Table) == rowOff(seq(yv(net)[i].Table), len(yv(net)[i].Table)) && rowsIn(fs(res)[i].Table, seq(yv(net)[i].Table), len(yv(net)[i].Table));
    } else {
      assert @none res == nil;
      ifdef nerr { assert @built nerr != nil; } else { ifdef it { assert @reason 0 <= it < ynv(net) && (!knownType(yv(net)[it].Type) || yv(net)[it].Logic != ""); } else { assert @decode derr != nil; } }
    }
  }
  aftercall New { let nerr = $r1; }
  aftercall Decode { let derr = $r; }
  loop 0 {
    begin { let it = $k; }
    modifies variables, factors, forall s: []logic.countFactor :: s, forall s: []logic.givenFactor :: s, forall s: []logic.outcomeIsFactor :: s, forall s: []logic.outcomeEitherFactor :: s, forall s: []int :: s;
    invariant @grow (len(factors) == 0 || fresh(factors)) && (ref(factors) == pre(ref(factors)) || ref(factors) > pre(alloc())) && len(factors) == $k;
    invariant @types forall i: int {yv(net)[i]} :: 0 <= i < $k ==> knownType(yv(net)[i].Type) && !(len(yv(net)[i].Table) > 0 && yv(net)[i].Logic != "")
         && (yv(net)[i].Logic != "" ==> dom(global("logic.factors"))[lower(splitP(yv(net)[i].Logic, " ", 0))]);
    invariant @variables forall i: int {seq(variables)[i]} :: 0 <= i < $k ==> seq(variables)[i].Name == yv(net)[i].Variable && seq(variables)[i].NodeType == typeOf(yv(net)[i].Type)
         && seq(variables)[i].Outcomes == yv(net)[i].Outcomes && seq(variables)[i].Position == yv(net)[i].Position && seq(variables)[i].Color == yv(net)[i].Color;
    invariant @definitions forall i: int {seq(factors)[i]} :: 0 <= i < $k ==> seq(factors)[i].For == yv(net)[i].Variable && seq(factors)[i].Given == yv(net)[i].Given && allocated(seq(factors)[i].Table);
    invariant @tables forall i: int {seq(factors)[i]} :: 0 <= i < $k && yv(net)[i].Logic == "" ==> len(seq(factors)[i].Table) == rowOff(seq(yv(net)[i].Table), len(yv(net)[i].Table)) && rowsIn(seq(factors)[i].Table, seq(yv(net)[i].Table), len(yv(net)[i].Table));
  }

func yaml.NewEncoder(w) returns (e)
  trusted "yaml library: an encoder";
  ensures e != nil && fresh(e);
func yaml.Encoder.SetIndent(e, n) returns ()
  trusted "yaml library: changes only the encoder";
func yaml.Encoder.Encode(e, v) returns (err)
  trusted "yaml library: writes the text of the value to the encoder's writer; reading that text gives the value back";
func bytes.Buffer.Bytes(b) returns (r)
  trusted "standard library: the bytes written so far";
  ensures allocated(r);

macro typeName(t) = (t == 1 ? "decision" : (t == 2 ? "utility" : ""));
macro savable(n) = n != nil && (forall i: int {vs(n)[i]} :: 0 <= i < nv(n) ==> vs(n)[i].Factor != nil && len(vs(n)[i].Outcomes) > 0 && 0 <= vs(n)[i].NodeType <= 2);
// row r of table T, w values wide
define rowAt(row: []real, T: []real, r: int, w: int): bool = len(row) == w && ref(row) == ref(T) && off(row) == off(T) + r * w;

func bbn.ToYAML(network) returns (text, err)
  modular C15;
  requires savable(network);
  requires @typenames okTypeNames();
  beforecall Encode {
    assert @names net.Name == network.name && net.Info == network.info && ynv(net) == nv(network);
    assert @variables forall i: int {yv(net)[i]} :: 0 <= i < nv(network) ==> yv(net)[i].Variable == vs(network)[i].Name && yv(net)[i].Type == typeName(vs(network)[i].NodeType) && yv(net)[i].Logic == ""
       && yv(net)[i].Given == vs(network)[i].Factor.Given && yv(net)[i].Outcomes == vs(network)[i].Outcomes && yv(net)[i].Position == vs(network)[i].Position && yv(net)[i].Color == vs(network)[i].Color;
    assert @rows forall i: int {yv(net)[i]} :: 0 <= i < nv(network) ==> len(yv(net)[i].Table) == len(vs(network)[i].Factor.Table) / len(vs(network)[i].Outcomes);
    assert @values forall i: int, r: int {seq(yv(net)[i].Table)[r]} :: 0 <= i < nv(network) && 0 <= r < len(yv(net)[i].Table) ==> rowAt(seq(yv(net)[i].Table)[r], vs(network)[i].Factor.Table, r, len(vs(network)[i].Outcomes));
  }
  loop 0 {
    modifies variables;
    invariant @variables forall i: int {seq(variables)[i]} :: 0 <= i < $k ==> seq(variables)[i].Variable == vs(network)[i].Name && seq(variables)[i].Type == typeName(vs(network)[i].NodeType) && seq(variables)[i].Logic == ""
       && seq(variables)[i].Given == vs(network)[i].Factor.Given && seq(variables)[i].Outcomes == vs(network)[i].Outcomes && seq(variables)[i].Position == vs(network)[i].Position && seq(variables)[i].Color == vs(network)[i].Color;
    invariant @rows forall i: int {seq(variables)[i]} :: 0 <= i < $k ==> allocated(seq(variables)[i].Table) && len(seq(variables)[i].Table) == len(vs(network)[i].Factor.Table) / len(vs(network)[i].Outcomes);
    invariant @values forall i: int, r: int {seq(seq(variables)[i].Table)[r]} :: 0 <= i < $k && 0 <= r < len(seq(variables)[i].Table) ==> rowAt(seq(seq(variables)[i].Table)[r], vs(network)[i].Factor.Table, r, len(vs(network)[i].Outcomes));
  }
  loop 1 {
    modifies table;
    begin { use mul_nonneg($k, cols); use mul_mono($k + 1, len(table), cols); assert $k * cols + cols <= len(v.Factor.Table); }
    invariant @values forall r: int {seq(table)[r]} :: 0 <= r < $k ==> rowAt(seq(table)[r], v.Factor.Table, r, cols);
  }

// writing rows and reading them back gives the same table
lemma flat_rows(Y: [int][]real, n: int, w: int)
  requires 0 <= n && (forall r: int {Y[r]} :: 0 <= r < n ==> len(Y[r]) == w);
  ensures rowOff(Y, n) == n * w;
  decreases n;
{ if n > 0 { use flat_rows(Y, n - 1, w); } }
lemma round_trip(Y: [int][]real, C: [int][int]real, T: [int]real, L: int, w: int, n: int, R: [int]real, m: int)
  property C15;
  requires w > 0 && n >= 0 && L == n * w && (forall r: int {Y[r]} :: 0 <= r < n ==> len(Y[r]) == w);
  requires @written forall r: int, c: int {C[r][c]} :: 0 <= r < n && 0 <= c < w ==> C[r][c] == T[r * w + c];
  requires @read m == rowOff(Y, n) && (forall r: int, c: int {C[r][c]} :: 0 <= r < n && 0 <= c < len(Y[r]) ==> R[rowOff(Y, r) + c] == C[r][c]);
  ensures @len m == L;
  ensures @same forall x: int {R[x]} :: 0 <= x < L ==> R[x] == T[x];
{
  use flat_rows(Y, n, w);
  fix x: int | 0 <= x < L {
    let r = x / w; let c = x % w;
    assert x == r * w + c && 0 <= c < w && r >= 0;
    assert r < n by { if r >= n { use mul_mono(n, r, w); } }
    use flat_rows(Y, r, w);
    assert C[r][c] == T[r * w + c];
    assert R[rowOff(Y, r) + c] == C[r][c];
  } show R[x] == T[x];
}

declare extOf(s: str): str;
func os.ReadFile(name) returns (data, err)
  trusted "standard library: the bytes of a file";
  ensures allocated(data);
func filepath.Ext(path) returns (r)
  trusted "standard library: a function of the path";
  ensures r == extOf(path);
// the format follows from the file name, whatever its case
func bbn.FromFile(path) returns (res, err)
  modular C15 C16;
  requires okTypes() && global("logic.factors") != nil;
  modifies forall s: []logic.countFactor :: s, forall s: []logic.givenFactor :: s, forall s: []logic.outcomeIsFactor :: s, forall s: []logic.outcomeEitherFactor :: s, forall s: []int :: s;
  ensures @nil err == nil <==> res != nil;
  beforecall FromYAML { assert @yaml lower(extOf(path)) == ".yml" && $a0 == data; }
  beforecall FromBIFXML { assert @xml (lower(extOf(path)) == ".xml" || lower(extOf(path)) == ".bifxml") && $a0 == data; }
  aftercall FromYAML { let made = $r0; }
  aftercall FromBIFXML { let made = $r0; }
  aftercall Ext { let known = lower($r) == ".yml" || lower($r) == ".xml" || lower($r) == ".bifxml"; }
  exit { ifdef made { assert @result err == nil ? res == made : made == nil; } else { ifdef known { assert @unknown !known && err != nil; } else { assert @unread err != nil; } } }
