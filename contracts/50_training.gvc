// training.go: counting samples.
macro vs(net) = seq(net.variables);
macro nv(net) = len(net.variables);
macro vf(net, i) = vs(net)[i].Factor;
// the network a trainer can work on: every variable has its table, sizes agree, names are distinct, tables are not shared
macro trainable(net) = net != nil && (forall i: int {vs(net)[i]} :: 0 <= i < nv(net) ==>
     vf(net, i) != nil && vf(net, i).columns == len(vs(net)[i].Outcomes) && vf(net, i).columns > 0 && len(vf(net, i).outcomes) == len(vf(net, i).Given)
     && len(vf(net, i).Table) == PI(seq(vf(net, i).outcomes), len(vf(net, i).outcomes), 0) * vf(net, i).columns
     && (forall k: int {seq(vf(net, i).outcomes)[k]} :: 0 <= k < len(vf(net, i).outcomes) ==> 0 <= seq(vf(net, i).outcomes)[k]))
  && (forall i: int, j: int {vs(net)[i], vs(net)[j]} :: 0 <= i < j < nv(net) ==> ref(vf(net, i).Table) != ref(vf(net, j).Table));
macro rowsOf(net, i) = PI(seq(vf(net, i).outcomes), len(vf(net, i).outcomes), 0);
macro drow(t, i, j) = seq(seq(t.data)[i])[j];
macro crow(t, i) = seq(t.counter)[i];
macro irow(t, i) = seq(t.indices)[i];
macro okTrainer(t) = trainable(t.network) && len(t.data) == nv(t.network) && len(t.counter) == nv(t.network) && len(t.indices) == nv(t.network)
  && (forall i: int {seq(t.data)[i]} :: 0 <= i < nv(t.network) ==> len(seq(t.data)[i]) == rowsOf(t.network, i))
  && (forall i: int {seq(t.counter)[i]} :: 0 <= i < nv(t.network) ==> len(seq(t.counter)[i]) == rowsOf(t.network, i))
  && (forall i: int, j: int {drow(t, i, j)} :: 0 <= i < nv(t.network) && 0 <= j < rowsOf(t.network, i) ==> len(drow(t, i, j)) == vf(t.network, i).columns)
  && (forall i: int, j: int, i2: int, j2: int {drow(t, i, j), drow(t, i2, j2)} :: 0 <= i < nv(t.network) && 0 <= j < rowsOf(t.network, i) && 0 <= i2 < nv(t.network) && 0 <= j2 < rowsOf(t.network, i2)
        && ref(drow(t, i, j)) == ref(drow(t, i2, j2)) ==> i == i2 && j == j2)
  && (forall i: int, i2: int {crow(t, i), crow(t, i2)} :: 0 <= i < i2 < nv(t.network) ==> ref(crow(t, i)) != ref(crow(t, i2)))
  && (forall i: int {irow(t, i)} :: 0 <= i < nv(t.network) ==> len(irow(t, i)) == len(vf(t.network, i).Given))
  && (forall i: int, k: int {seq(irow(t, i))[k]} :: 0 <= i < nv(t.network) && 0 <= k < len(irow(t, i)) ==>
        0 <= seq(irow(t, i))[k] < nv(t.network) && vs(t.network)[seq(irow(t, i))[k]].Name == seq(vf(t.network, i).Given)[k]);
// arrays the trainer owns are not reachable otherwise
macro ownTrainer(t) = (forall i: int {irow(t, i)} :: 0 <= i < nv(t.network) ==> ref(irow(t, i)) != ref(t.sample))
  && (forall i: int {vs(t.network)[i]} :: 0 <= i < nv(t.network) ==> ref(vf(t.network, i).outcomes) != ref(t.sample))
  && (forall i: int {crow(t, i)} :: 0 <= i < nv(t.network) ==> ref(crow(t, i)) != ref(t.sample))
  && (forall i: int, j: int {crow(t, i), irow(t, j)} :: 0 <= i < nv(t.network) && 0 <= j < nv(t.network) ==> ref(crow(t, i)) != ref(irow(t, j)))
  && (forall i: int, j: int {crow(t, i), vs(t.network)[j]} :: 0 <= i < nv(t.network) && 0 <= j < nv(t.network) ==> ref(crow(t, i)) != ref(vf(t.network, j).outcomes))
  && (forall i: int, j: int {drow(t, i, j)} :: 0 <= i < nv(t.network) && 0 <= j < rowsOf(t.network, i) ==> ref(drow(t, i, j)) != ref(t.utility))
  && (forall i: int, j: int, k: int {drow(t, i, j), vs(t.network)[k]} :: 0 <= i < nv(t.network) && 0 <= j < rowsOf(t.network, i) && 0 <= k < nv(t.network) ==> ref(drow(t, i, j)) != ref(vf(t.network, k).Table));

lemma SI_ext(o: [int]int, n: int, d: [int]int, e: [int]int, i: int)
  requires 0 <= i && (forall j: int {d[j]} {e[j]} :: i <= j < n ==> d[j] == e[j]);
  ensures SI(o, n, d, i) == SI(o, n, e, i);
  decreases n - i;
{ if i < n { use SI_ext(o, n, d, e, i + 1); } }

lemma cell_apart(j: int, k: int, r: int, w: int)
  requires 0 <= j < r && 0 <= k < w;
  ensures 0 <= j * w + k < r * w;
{ use mul_mono(j + 1, r, w); use mul_nonneg(j, w); }

func bbn.Trainer.UpdateNetwork(t) returns (net, err)
  property C14;
  requires t != nil && okTrainer(t) && ownTrainer(t);
  modifies forall i: int :: 0 <= i < nv(t.network) ==> vf(t.network, i).Table;
  ensures @error err == nil <==> (forall i: int, j: int {seq(crow(t, i))[j]} :: 0 <= i < nv(t.network) && 0 <= j < rowsOf(t.network, i) ==> seq(crow(t, i))[j] != 0);
  ensures @same err == nil ==> net == t.network;
  ensures @none err != nil ==> net == nil;
  ensures @means err == nil ==> (forall i: int, j: int, k: int {cell(seq(vf(t.network, i).Table), vf(t.network, i).columns, j, k)} :: 0 <= i < nv(t.network) && 0 <= j < rowsOf(t.network, i) && 0 <= k < vf(t.network, i).columns ==>
     cell(seq(vf(t.network, i).Table), vf(t.network, i).columns, j, k) == seq(drow(t, i, j))[k] / real(seq(crow(t, i))[j]));
  loop 0 {
    invariant @counted forall i: int, j: int {seq(crow(t, i))[j]} :: 0 <= i < $k && 0 <= j < rowsOf(t.network, i) ==> seq(crow(t, i))[j] != 0;
    invariant @means forall i: int, j: int, k: int {cell(seq(vf(t.network, i).Table), vf(t.network, i).columns, j, k)} :: 0 <= i < $k && 0 <= j < rowsOf(t.network, i) && 0 <= k < vf(t.network, i).columns ==>
     cell(seq(vf(t.network, i).Table), vf(t.network, i).columns, j, k) == seq(drow(t, i, j))[k] / real(seq(crow(t, i))[j]);
    modifies forall i: int :: 0 <= i < nv(t.network) ==> vf(t.network, i).Table;
  }
  loop 1 {
    before { use divmod_unique(len(vf(t.network, $k0).Table), vf(t.network, $k0).columns, rowsOf(t.network, $k0), 0); }
    invariant 0 <= j <= rows && rows == rowsOf(t.network, $k0) && cols == vf(t.network, $k0).columns && node.Factor == vf(t.network, $k0) && data == seq(t.data)[$k0];
    invariant @counted1 forall j2: int {seq(crow(t, $k0))[j2]} :: 0 <= j2 < j ==> seq(crow(t, $k0))[j2] != 0;
    invariant @means1 forall j2: int, k2: int {cell(seq(node.Factor.Table), cols, j2, k2)} :: 0 <= j2 < j && 0 <= k2 < cols ==>
       cell(seq(node.Factor.Table), cols, j2, k2) == seq(drow(t, $k0, j2))[k2] / real(seq(crow(t, $k0))[j2]);
    decreases rows - j;
    modifies node.Factor.Table;
    end { assert true; }
  }
  loop 2 {
    before { use mul_nonneg(j, cols); use mul_mono(j + 1, rows, cols); }
    invariant 0 <= k <= cols;
    invariant @done forall x: int {seq(node.Factor.Table)[x]} :: 0 <= x < len(node.Factor.Table) && !(j * cols <= x < j * cols + k) ==> seq(node.Factor.Table)[x] == pre(seq(node.Factor.Table)[x]);
    invariant @row forall k2: int {seq(drow(t, $k0, j))[k2]} :: 0 <= k2 < k ==> seq(node.Factor.Table)[j * cols + k2] == seq(drow(t, $k0, j))[k2] / real(cnt);
    after {
      use forall j2: int, k2: int {cell(seq(node.Factor.Table), cols, j2, k2)} :: 0 <= j2 < j && 0 <= k2 < cols ==> cell_apart(j2, k2, j, cols);
      assert forall j2: int, k2: int {cell(seq(node.Factor.Table), cols, j2, k2)} :: 0 <= j2 < j && 0 <= k2 < cols ==> cell(seq(node.Factor.Table), cols, j2, k2) == pre(cell(seq(node.Factor.Table), cols, j2, k2));
    }
    decreases cols - k;
    modifies node.Factor.Table;
  }

// what a sample contributes to variable i: nothing for decisions and missing data, else one count in one row
macro pdig(t, i, sample) = lam k: int :: seq(sample)[seq(irow(t, i))[k]];
macro hits(t, i, sample, utility) = vs(t.network)[i].NodeType != 1
  && (forall k: int {seq(irow(t, i))[k]} :: 0 <= k < len(irow(t, i)) ==> seq(sample)[seq(irow(t, i))[k]] >= 0)
  && (vs(t.network)[i].NodeType == 2 ? !isnan(seq(utility)[i]) : seq(sample)[i] >= 0);
macro rowHit(t, i, sample) = SI(seq(vf(t.network, i).outcomes), len(vf(t.network, i).outcomes), pdig(t, i, sample), 0);
macro colHit(t, i, sample) = (vs(t.network)[i].NodeType == 2 ? 0 : seq(sample)[i]);
macro weight(t, i, utility) = (vs(t.network)[i].NodeType == 2 ? seq(utility)[i] : 1.0);

func bbn.Trainer.AddSample(t, sample, utility) returns ()
  property C14;
  requires t != nil && okTrainer(t) && ownTrainer(t);
  requires len(sample) == nv(t.network) && (utility != nil ==> len(utility) == nv(t.network));
  requires utility == nil ==> (forall i: int {vs(t.network)[i]} :: 0 <= i < nv(t.network) ==> vs(t.network)[i].NodeType != 2);
  requires @range forall i: int {vs(t.network)[i]} :: 0 <= i < nv(t.network) && vs(t.network)[i].NodeType != 2 ==> seq(sample)[i] < vf(t.network, i).columns;
  requires @parents forall i: int, k: int {seq(irow(t, i))[k]} :: 0 <= i < nv(t.network) && 0 <= k < len(irow(t, i)) ==> seq(sample)[seq(irow(t, i))[k]] < seq(vf(t.network, i).outcomes)[k];
  requires @own1 ref(sample) != ref(t.sample) && ref(utility) != ref(t.utility);
  requires @own2 forall i: int {crow(t, i)} :: 0 <= i < nv(t.network) ==> ref(crow(t, i)) != ref(sample);
  requires @own3 forall i: int, j: int {drow(t, i, j)} :: 0 <= i < nv(t.network) && 0 <= j < rowsOf(t.network, i) ==> ref(drow(t, i, j)) != ref(utility);
  modifies *t, t.sample, t.utility, forall i: int :: 0 <= i < nv(t.network) ==> crow(t, i), forall i: int, j: int :: 0 <= i < nv(t.network) && 0 <= j < rowsOf(t.network, i) ==> drow(t, i, j);
  ensures @shape t.network == old(t.network) && t.data == old(t.data) && t.counter == old(t.counter) && t.indices == old(t.indices);
  ensures @counts forall i: int, r: int {seq(crow(t, i))[r]} :: 0 <= i < nv(t.network) && 0 <= r < old(rowsOf(t.network, i)) ==>
    seq(crow(t, i))[r] == old(seq(crow(t, i))[r]) + (old(hits(t, i, sample, utility)) && r == old(rowHit(t, i, sample)) ? 1 : 0);
  ensures @data forall i: int, r: int, c: int {seq(drow(t, i, r))[c]} :: 0 <= i < nv(t.network) && 0 <= r < old(rowsOf(t.network, i)) && 0 <= c < vf(t.network, i).columns ==>
    seq(drow(t, i, r))[c] == old(seq(drow(t, i, r))[c]) + (old(hits(t, i, sample, utility)) && r == old(rowHit(t, i, sample)) && c == old(colHit(t, i, sample)) ? old(weight(t, i, utility)) : 0.0);
  ensures @bufs (ref(t.sample) == old(ref(t.sample)) || fresh(t.sample)) && (ref(t.utility) == old(ref(t.utility)) || fresh(t.utility)) && ref(t.sample) <= alloc() && ref(t.utility) <= alloc();
  ensures @again okTrainer(t) && ownTrainer(t);
  exit {
    assert forall i: int {vs(t.network)[i]} :: 0 <= i < nv(t.network) ==> seq(vf(t.network, i).outcomes) == old(seq(vf(t.network, i).outcomes));
    assert forall i: int {irow(t, i)} :: 0 <= i < nv(t.network) ==> seq(irow(t, i)) == old(seq(irow(t, i)));
    assert forall i: int {vs(t.network)[i]} :: 0 <= i < nv(t.network) ==> rowsOf(t.network, i) == old(rowsOf(t.network, i));
  }
  aftercall rowIndex {
    let n = len(vf(t.network, $k0).outcomes);
    let o = seq(vf(t.network, $k0).outcomes);
    assert o == old(seq(vf(t.network, $k0).outcomes));
    assert forall k: int {seq(t.sample)[k]} {old(seq(irow(t, $k0))[k])} :: 0 <= k < len(t.sample) ==> seq(t.sample)[k] == old(seq(sample)[seq(irow(t, $k0))[k]]);
    assert $r1 <==> old(forall k: int {seq(irow(t, $k0))[k]} :: 0 <= k < len(irow(t, $k0)) ==> seq(sample)[seq(irow(t, $k0))[k]] >= 0);
    if $r1 {
      assert forall k: int {seq(t.sample)[k]} :: 0 <= k < n ==> seq(t.sample)[k] < o[k];
      use SI_bound(o, n, seq(t.sample), 0);
      use SI_ext(o, n, seq(t.sample), old(pdig(t, $k0, sample)), 0);
      assert $r0 == old(rowHit(t, $k0, sample)) && 0 <= $r0 < rowsOf(t.network, $k0);
    }
  }
  loop 0 {
    modifies *t, t.sample, t.utility, forall i: int :: 0 <= i < nv(t.network) ==> crow(t, i), forall i: int, j: int :: 0 <= i < nv(t.network) && 0 <= j < rowsOf(t.network, i) ==> drow(t, i, j);
    invariant @shape t.network == old(t.network) && t.data == old(t.data) && t.counter == old(t.counter) && t.indices == old(t.indices);
    end {
      let i0 = $k - 1;
      let q = old(rowHit(t, i0, sample));
      if old(hits(t, i0, sample, utility)) {
        assert seq(crow(t, i0))[q] == old(seq(crow(t, i0))[q]) + 1;
        assert forall r: int {seq(crow(t, i0))[r]} :: 0 <= r < old(rowsOf(t.network, i0)) && r != q ==> seq(crow(t, i0))[r] == old(seq(crow(t, i0))[r]);
      } else {
        assert forall r: int {seq(crow(t, i0))[r]} :: 0 <= r < old(rowsOf(t.network, i0)) ==> seq(crow(t, i0))[r] == old(seq(crow(t, i0))[r]);
      }
      assert forall r: int {seq(crow(t, i0))[r]} :: 0 <= r < old(rowsOf(t.network, i0)) ==>
        seq(crow(t, i0))[r] == old(seq(crow(t, i0))[r]) + (old(hits(t, i0, sample, utility)) && r == old(rowHit(t, i0, sample)) ? 1 : 0);
      assert forall i: int {crow(t, i)} :: 0 <= i < nv(t.network) && i != i0 ==> ref(crow(t, i)) != ref(crow(t, i0));
      assert forall i: int, r: int {seq(crow(t, i))[r]} :: 0 <= i < i0 && 0 <= r < old(rowsOf(t.network, i)) ==>
        seq(crow(t, i))[r] == old(seq(crow(t, i))[r]) + (old(hits(t, i, sample, utility)) && r == old(rowHit(t, i, sample)) ? 1 : 0);
      assert forall i: int, r: int {seq(crow(t, i))[r]} :: i0 < i < nv(t.network) && 0 <= r < old(rowsOf(t.network, i)) ==>
        seq(crow(t, i))[r] == old(seq(crow(t, i))[r]);
    }
    invariant @bufs (ref(t.sample) == old(ref(t.sample)) || ref(t.sample) > pre(alloc())) && (ref(t.utility) == old(ref(t.utility)) || ref(t.utility) > pre(alloc()));
    invariant @counts forall i: int, r: int {seq(crow(t, i))[r]} :: 0 <= i < nv(t.network) && 0 <= r < old(rowsOf(t.network, i)) ==>
      seq(crow(t, i))[r] == old(seq(crow(t, i))[r]) + (i < $k && old(hits(t, i, sample, utility)) && r == old(rowHit(t, i, sample)) ? 1 : 0);
    invariant @data forall i: int, r: int, c: int {seq(drow(t, i, r))[c]} :: 0 <= i < nv(t.network) && 0 <= r < old(rowsOf(t.network, i)) && 0 <= c < vf(t.network, i).columns ==>
      seq(drow(t, i, r))[c] == old(seq(drow(t, i, r))[c]) + (i < $k && old(hits(t, i, sample, utility)) && r == old(rowHit(t, i, sample)) && c == old(colHit(t, i, sample)) ? old(weight(t, i, utility)) : 0.0);
  }
  loop 1 {
    modifies *t, t.sample;
    invariant @shape t.network == old(t.network) && t.data == old(t.data) && t.counter == old(t.counter) && t.indices == old(t.indices) && t.utility == pre(t.utility);
    invariant @bufs (ref(t.sample) == pre(ref(t.sample)) || ref(t.sample) > pre(alloc())) && len(t.sample) == $k;
    invariant @digits forall k: int {seq(t.sample)[k]} :: 0 <= k < $k ==> seq(t.sample)[k] == old(seq(sample)[seq(irow(t, $k0))[k]]);
  }
  loop 2 {
    modifies *t, t.utility;
    invariant @shape t.network == old(t.network) && t.data == old(t.data) && t.counter == old(t.counter) && t.indices == old(t.indices) && t.sample == pre(t.sample);
    invariant @bufs (ref(t.utility) == pre(ref(t.utility)) || ref(t.utility) > pre(alloc())) && len(t.utility) == $k;
  }

// everything the trainer writes is its own
macro newTrainer(t) = fresh(t.sample) && fresh(t.utility) && ref(t.sample) <= alloc() && ref(t.utility) <= alloc()
  && (forall i: int {crow(t, i)} :: 0 <= i < nv(t.network) ==> fresh(crow(t, i)) && ref(crow(t, i)) <= alloc())
  && (forall i: int, j: int {drow(t, i, j)} :: 0 <= i < nv(t.network) && 0 <= j < rowsOf(t.network, i) ==> fresh(drow(t, i, j)) && ref(drow(t, i, j)) <= alloc())
  && (forall i: int {irow(t, i)} :: 0 <= i < nv(t.network) ==> fresh(irow(t, i)) && ref(irow(t, i)) <= alloc())
  && (forall i: int {seq(t.data)[i]} :: 0 <= i < nv(t.network) ==> fresh(seq(t.data)[i]) && ref(seq(t.data)[i]) <= alloc())
  && fresh(t.data) && fresh(t.counter) && fresh(t.indices);

func bbn.NewTrainer(net) returns (t)
  property C14;
  requires trainable(net);
  requires @names forall i: int, j: int {vs(net)[i], vs(net)[j]} :: 0 <= i < j < nv(net) ==> vs(net)[i].Name != vs(net)[j].Name;
  requires @known forall i: int, k: int {seq(vf(net, i).Given)[k]} :: 0 <= i < nv(net) && 0 <= k < len(vf(net, i).Given) ==> (exists j: int :: 0 <= j < nv(net) && vs(net)[j].Name == seq(vf(net, i).Given)[k]);
  ensures @ok okTrainer(t) && ownTrainer(t);
  ensures @net t.network == net;
  ensures @new newTrainer(t);
  ensures @zero forall i: int, j: int {seq(crow(t, i))[j]} :: 0 <= i < nv(net) && 0 <= j < rowsOf(net, i) ==> seq(crow(t, i))[j] == 0;
  ensures @zeros forall i: int, j: int, k: int {seq(drow(t, i, j))[k]} :: 0 <= i < nv(net) && 0 <= j < rowsOf(net, i) && 0 <= k < vf(net, i).columns ==> seq(drow(t, i, j))[k] == 0.0;
  loop 0 {
    invariant fresh(nodeIndices) && maxColumns >= 0;
    invariant forall i: int {vs(net)[i]} :: 0 <= i < $k ==> dom(nodeIndices)[vs(net)[i].Name] && vals(nodeIndices)[vs(net)[i].Name] == i;
    modifies nodeIndices;
  }
  loop 1 {
    modifies data, counter, indices;
    begin { use divmod_unique(len(vf(net, $k).Table), vf(net, $k).columns, rowsOf(net, $k), 0); use PI_nonneg(seq(vf(net, $k).outcomes), len(vf(net, $k).outcomes), 0); }
    invariant fresh(data) && fresh(counter) && fresh(indices);
    invariant @dl forall i: int {seq(data)[i]} :: 0 <= i < $k ==> fresh(seq(data)[i]) && len(seq(data)[i]) == rowsOf(net, i);
    invariant @cl forall i: int {seq(counter)[i]} :: 0 <= i < $k ==> fresh(seq(counter)[i]) && len(seq(counter)[i]) == rowsOf(net, i);
    invariant @il forall i: int {seq(indices)[i]} :: 0 <= i < $k ==> fresh(seq(indices)[i]) && len(seq(indices)[i]) == len(vf(net, i).Given);
    invariant @dr forall i: int, j: int {seq(seq(data)[i])[j]} :: 0 <= i < $k && 0 <= j < rowsOf(net, i) ==> fresh(seq(seq(data)[i])[j]) && len(seq(seq(data)[i])[j]) == vf(net, i).columns;
    invariant @di forall i: int, j: int, i2: int, j2: int {seq(seq(data)[i])[j], seq(seq(data)[i2])[j2]} :: 0 <= i < $k && 0 <= j < rowsOf(net, i) && 0 <= i2 < $k && 0 <= j2 < rowsOf(net, i2)
        && ref(seq(seq(data)[i])[j]) == ref(seq(seq(data)[i2])[j2]) ==> i == i2 && j == j2;
    invariant @ci forall i: int, i2: int {seq(counter)[i], seq(counter)[i2]} :: 0 <= i < i2 < $k ==> ref(seq(counter)[i]) != ref(seq(counter)[i2]);
    invariant @ii forall i: int, i2: int {seq(counter)[i], seq(indices)[i2]} :: 0 <= i < $k && 0 <= i2 < $k ==> ref(seq(counter)[i]) != ref(seq(indices)[i2]);
    invariant @ix forall i: int, k: int {seq(seq(indices)[i])[k]} :: 0 <= i < $k && 0 <= k < len(seq(indices)[i]) ==>
        0 <= seq(seq(indices)[i])[k] < nv(net) && vs(net)[seq(seq(indices)[i])[k]].Name == seq(vf(net, i).Given)[k];
    invariant @zero forall i: int, j: int {seq(seq(counter)[i])[j]} :: 0 <= i < $k && 0 <= j < rowsOf(net, i) ==> seq(seq(counter)[i])[j] == 0;
    invariant @zeros forall i: int, j: int, k: int {seq(seq(seq(data)[i])[j])[k]} :: 0 <= i < $k && 0 <= j < rowsOf(net, i) && 0 <= k < vf(net, i).columns ==> seq(seq(seq(data)[i])[j])[k] == 0.0;
  }
  loop 2 {
    modifies d;
    invariant 0 <= j <= rows;
    invariant @dr forall k: int {seq(d)[k]} :: 0 <= k < j ==> ref(seq(d)[k]) > pre(alloc()) && len(seq(d)[k]) == columns;
    invariant @di forall k: int, k2: int {seq(d)[k], seq(d)[k2]} :: 0 <= k < k2 < j ==> ref(seq(d)[k]) != ref(seq(d)[k2]);
    invariant @zeros forall k: int, k2: int {seq(seq(d)[k])[k2]} :: 0 <= k < j && 0 <= k2 < columns ==> seq(seq(d)[k])[k2] == 0.0;
    decreases rows - j;
  }
  loop 3 {
    modifies idx;
    invariant @ix forall k: int {seq(idx)[k]} :: 0 <= k < $k ==> 0 <= seq(idx)[k] < nv(net) && vs(net)[seq(idx)[k]].Name == seq(vf(net, $k1).Given)[k];
  }
