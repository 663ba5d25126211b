// internal/tui/training.go: from CSV records to samples.

define missing(H: [int]str, nh: int, s: str): bool decreases 0 = forall p: int {H[p]} :: 0 <= p < nh ==> H[p] != s;
define isFirst(H: [int]str, nh: int, s: str, x: int): bool decreases 0 = 0 <= x < nh && H[x] == s && (forall p: int {H[p]} :: 0 <= p < x ==> H[p] != s);
// the outcome table of a node: its outcomes by position, the no-data value as -1
define codes(DM: [str]bool, VM: [str]int, O: [int]str, c: int, nd: str): bool decreases 0 =
  DM[nd] && VM[nd] == -1
  && (forall j: int {O[j]} :: 0 <= j < c ==> O[j] != nd && DM[O[j]])
  && (forall s: str {DM[s]} {VM[s]} :: DM[s] && s != nd ==> 0 <= VM[s] < c && O[VM[s]] == s);
macro badNode(nodes, i, header, nd) = (missing(seq(header), len(header), seq(nodes)[i].Name) || isOut(seq(seq(nodes)[i].Outcomes), len(seq(nodes)[i].Outcomes), nd));

func tui.prepare(nodes, header, noData) returns (indices, isUtility, outcomes, err)
  property C19;
  ensures @error err != nil <==> (exists i: int {seq(nodes)[i]} :: 0 <= i < len(nodes) && badNode(nodes, i, header, noData));
  ensures @len fresh(indices) && fresh(isUtility) && fresh(outcomes) && len(indices) == len(nodes) && len(isUtility) == len(nodes) && len(outcomes) == len(nodes);
  ensures @columns err == nil ==> (forall i: int {seq(indices)[i]} :: 0 <= i < len(nodes) ==> isFirst(seq(header), len(header), seq(nodes)[i].Name, seq(indices)[i]));
  ensures @utility err == nil ==> (forall i: int {seq(isUtility)[i]} :: 0 <= i < len(nodes) ==> (seq(isUtility)[i] <==> seq(nodes)[i].NodeType == 2));
  ensures @outcomes err == nil ==> (forall i: int {seq(outcomes)[i]} :: 0 <= i < len(nodes) ==> fresh(seq(outcomes)[i]) && allocated(seq(outcomes)[i]) && codes(dom(seq(outcomes)[i]), vals(seq(outcomes)[i]), seq(seq(nodes)[i].Outcomes), len(seq(nodes)[i].Outcomes), noData));
  loop 0 {
    modifies indices, isUtility, outcomes;
    invariant @ok err == nil;
    invariant @good forall i: int {seq(nodes)[i]} :: 0 <= i < $k ==> !badNode(nodes, i, header, noData);
    invariant @columns forall i: int {seq(indices)[i]} :: 0 <= i < $k ==> isFirst(seq(header), len(header), seq(nodes)[i].Name, seq(indices)[i]);
    invariant @utility forall i: int {seq(isUtility)[i]} :: 0 <= i < $k ==> (seq(isUtility)[i] <==> seq(nodes)[i].NodeType == 2);
    invariant @outcomes forall i: int {seq(outcomes)[i]} :: 0 <= i < $k ==> fresh(seq(outcomes)[i]) && allocated(seq(outcomes)[i]) && codes(dom(seq(outcomes)[i]), vals(seq(outcomes)[i]), seq(seq(nodes)[i].Outcomes), len(seq(nodes)[i].Outcomes), noData);
  }
  loop 1 {
    modifies seq(outcomes)[$k0];
    invariant @ok err == nil;
    invariant @not forall j: int {seq(seq(nodes)[$k0].Outcomes)[j]} :: 0 <= j < $k ==> seq(seq(nodes)[$k0].Outcomes)[j] != noData && dom(seq(outcomes)[$k0])[seq(seq(nodes)[$k0].Outcomes)[j]];
    invariant @in forall s: str {dom(seq(outcomes)[$k0])[s]} :: dom(seq(outcomes)[$k0])[s] ==> 0 <= vals(seq(outcomes)[$k0])[s] < $k && seq(seq(nodes)[$k0].Outcomes)[vals(seq(outcomes)[$k0])[s]] == s;
  }

func os.Open(name) returns (f, err)
  trusted "standard library: opens a file for reading";
func os.File.Close(f) returns (err)
  trusted "standard library: closes the file";
func csv.NewReader(r) returns (p)
  trusted "standard library: a new reader that has not yet fixed the number of fields";
  ensures p != nil && fresh(p) && p.FieldsPerRecord == 0 && p.lastRecord == nil;
// every record has as many fields as the first one; with ReuseRecord a record is memory of the reader, overwritten by the next one
func csv.Reader.Read(r) returns (record, err)
  trusted "standard library: the next record; after the first one every record returned without error has the same number of fields; a reused record is the reader's own memory";
  requires r != nil;
  modifies *r, forall j: int :: r.lastRecord != nil ==> r.lastRecord;
  ensures err == nil ==> len(record) > 0 && r.FieldsPerRecord == len(record) && (old(r.FieldsPerRecord) > 0 ==> r.FieldsPerRecord == old(r.FieldsPerRecord));
  ensures allocated(record) && allocated(r.lastRecord);
  ensures r.ReuseRecord == old(r.ReuseRecord);
  ensures r.lastRecord == nil || fresh(r.lastRecord) || ref(r.lastRecord) == old(ref(r.lastRecord));
declare parseF(s: str): real;
declare isNum(s: str): bool;
func strconv.ParseFloat(s, bits) returns (v, err)
  trusted "standard library: the number a string denotes";
  ensures err == nil <==> isNum(s);
  ensures err == nil ==> v == parseF(s);

// the nodes are the network's variables, each with its outcomes
macro sameNodes(net, nodes) = len(nodes) == nv(net) && (forall i: int {seq(nodes)[i]} {vs(net)[i]} :: 0 <= i < nv(net) ==> seq(nodes)[i].Name == vs(net)[i].Name && seq(nodes)[i].NodeType == vs(net)[i].NodeType && len(seq(nodes)[i].Outcomes) == len(vs(net)[i].Outcomes));
macro parentSizes(net) = (forall i: int, k: int, j: int {seq(vf(net, i).Given)[k], vs(net)[j]} :: 0 <= i < nv(net) && 0 <= k < len(vf(net, i).Given) && 0 <= j < nv(net) && vs(net)[j].Name == seq(vf(net, i).Given)[k] ==> seq(vf(net, i).outcomes)[k] == len(vs(net)[j].Outcomes) && 0 < seq(vf(net, i).outcomes)[k]);

macro sampleOK(net, nodes, n, sample, utility, record, indices, noData) = (forall i: int {seq(indices)[i]} :: 0 <= i < n ==>
   (vs(net)[i].NodeType == 2 ? (seq(record)[seq(indices)[i]] == noData ? seq(utility)[i] == nan() : isNum(seq(record)[seq(indices)[i]]) && seq(utility)[i] == parseF(seq(record)[seq(indices)[i]]))
     : (seq(record)[seq(indices)[i]] == noData ? seq(sample)[i] == -1 : 0 <= seq(sample)[i] < len(seq(nodes)[i].Outcomes) && seq(seq(nodes)[i].Outcomes)[seq(sample)[i]] == seq(record)[seq(indices)[i]])));

func tui.TrainNetwork(net, nodes, dataFile, noData, delimiter) returns (res, err)
  modular C19;
  requires trainable(net) && sameNodes(net, nodes) && parentSizes(net);
  requires @names forall i: int, j: int {vs(net)[i], vs(net)[j]} :: 0 <= i < j < nv(net) ==> vs(net)[i].Name != vs(net)[j].Name;
  requires @known forall i: int, k: int {seq(vf(net, i).Given)[k]} :: 0 <= i < nv(net) && 0 <= k < len(vf(net, i).Given) ==> (exists j: int :: 0 <= j < nv(net) && vs(net)[j].Name == seq(vf(net, i).Given)[k]);
  modifies forall i: int :: 0 <= i < nv(net) ==> vf(net, i).Table;
  ensures @same err == nil ==> res == net;
  ensures @none err != nil ==> res == nil;
  // every sample added is the record read: each node's value from the column that carries its name
  beforecall AddSample {
    assert @columns forall i: int {seq(indices)[i]} :: 0 <= i < nv(net) ==> isFirst(H, nh, seq(nodes)[i].Name, seq(indices)[i]);
    assert @sample sampleOK(net, nodes, nv(net), sample, utility, record, indices, noData);
    fix i: int | 0 <= i < nv(net) && vs(net)[i].NodeType != 2 {
      assert len(seq(nodes)[i].Outcomes) == len(vs(net)[i].Outcomes) && vf(net, i).columns == len(vs(net)[i].Outcomes);
      assert seq(indices)[i] == seq(indices)[i] && 0 <= seq(indices)[i];
    } show seq(sample)[i] < vf(net, i).columns;
  }
  aftercall prepare { let H = seq(header); let nh = len(header); }
  loop 0 {
    modifies *r, forall j: int :: r.lastRecord != nil ==> r.lastRecord, sample, utility, train.sample, train.utility, forall i: int :: 0 <= i < nv(net) ==> crow(train, i), forall i: int, j: int :: 0 <= i < nv(net) && 0 <= j < rowsOf(net, i) ==> drow(train, i, j);
    invariant @reader r != nil && r.FieldsPerRecord == nh && nh > 0 && (r.lastRecord == nil || fresh(r.lastRecord)) && (r.lastRecord == nil || ref(r.lastRecord) == pre(ref(r.lastRecord)) || ref(r.lastRecord) > pre(alloc()));
    invariant @trainer okTrainer(train) && ownTrainer(train) && train.network == net && train.data == pre(train.data) && train.counter == pre(train.counter) && train.indices == pre(train.indices);
    invariant @bufs (ref(train.sample) == pre(ref(train.sample)) || ref(train.sample) > pre(alloc())) && (ref(train.utility) == pre(ref(train.utility)) || ref(train.utility) > pre(alloc()));
    invariant @idle forall i: int {vs(net)[i]} :: 0 <= i < nv(net) && vs(net)[i].NodeType == 2 ==> seq(sample)[i] == 0;
    // no record is skipped or counted twice
    begin { let C0 = lam i: int :: seq(crow(train, i)); }
    end { assert @counted forall i: int, q: int {seq(crow(train, i))[q]} :: 0 <= i < nv(net) && 0 <= q < rowsOf(net, i) ==> seq(crow(train, i))[q] == C0[i][q] + (hits(train, i, sample, utility) && q == rowHit(train, i, sample) ? 1 : 0); }
  }
  loop 1 {
    modifies sample, utility;
    invariant @idle forall i: int {vs(net)[i]} :: 0 <= i < nv(net) && vs(net)[i].NodeType == 2 ==> seq(sample)[i] == 0;
    invariant @sample sampleOK(net, nodes, $k, sample, utility, record, indices, noData);
  }
