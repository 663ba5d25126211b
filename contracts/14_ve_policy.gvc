// ve/variables.go: Policy.

lemma P_shift(v: [int]ve.Variable, w: [int]ve.Variable, n: int, x: int, i: int)
  requires 0 <= x < i && i <= n && without(v, w, n, x);
  ensures P(v, n, i) == P(w, n - 1, i - 1);
  decreases n - i;
{ if i < n { use P_shift(v, w, n, x, i + 1); assert w[i - 1] == v[i]; } }
lemma P_without(v: [int]ve.Variable, w: [int]ve.Variable, n: int, x: int, i: int)
  requires 0 <= i <= x && x < n && without(v, w, n, x);
  ensures P(v, n, i) == P(w, n - 1, i) * v[x].outcomes;
  decreases x - i;
{
  if i < x {
    use P_without(v, w, n, x, i + 1);
    assert w[i] == v[i];
    assert v[i].outcomes * (P(w, n - 1, i + 1) * v[x].outcomes) == (v[i].outcomes * P(w, n - 1, i + 1)) * v[x].outcomes;
  } else { use P_shift(v, w, n, x, x + 1); }
}

// number of the first c entries equal to mx
define cnt(R: [int]real, mx: real, c: int): int decreases c = c <= 0 ? 0 : cnt(R, mx, c - 1) + (R[c - 1] == mx ? 1 : 0);
define cntA(D: [int]real, v: [int]ve.Variable, n: int, a: [int]int, id: int, mx: real, c: int): int decreases c =
  c <= 0 ? 0 : cntA(D, v, n, a, id, mx, c - 1) + (D[S(v, n, dig(v, a[id := c - 1]), 0)] == mx ? 1 : 0);
lemma cnt_zero(R: [int]real, mx: real, c: int)
  requires forall i: int {R[i]} :: 0 <= i < c ==> R[i] < mx;
  ensures cnt(R, mx, c) == 0;
  decreases c;
{ if c > 0 { use cnt_zero(R, mx, c - 1); } }
lemma cnt_cntA(R: [int]real, D: [int]real, v: [int]ve.Variable, n: int, a: [int]int, id: int, mx: real, c: int)
  requires forall i: int {R[i]} :: 0 <= i < c ==> R[i] == D[S(v, n, dig(v, a[id := i]), 0)];
  ensures cnt(R, mx, c) == cntA(D, v, n, a, id, mx, c);
  decreases c;
{ if c > 0 { use cnt_cntA(R, D, v, n, a, id, mx, c - 1); } }

// the entry at a is maximal among those that differ only in variable id
define maxA(D: [int]real, v: [int]ve.Variable, n: int, a: [int]int, id: int, out: int): bool decreases 0 =
  forall c: int {dig(v, a[id := c])} :: 0 <= c < out ==> D[S(v, n, dig(v, a[id := c]), 0)] <= D[S(v, n, dig(v, a), 0)];
define polA(D: [int]real, v: [int]ve.Variable, n: int, a: [int]int, id: int, out: int): real decreases 0 =
  maxA(D, v, n, a, id, out) ? 1.0 / real(cntA(D, v, n, a, id, D[S(v, n, dig(v, a), 0)], out)) : 0.0;
// a agrees with the digits d of all but the last variable
macro onrow(w, n, d, a) = forall q: int {w[q]} {d[q]} :: 0 <= q < n - 1 ==> a[w[q].id] == d[q];

func ve.Variables.Policy(m, f, x) returns (r)
  property C04 C11;
  requires m != nil && f != nil && wfD(f);
  requires samevar(seq(f.variables), len(f.variables), x);
  requires forall t: int {seq(f.data)[t]} :: 0 <= t < len(f.data) ==> seq(f.data)[t] > ninf();
  panics !isvar(seq(f.variables), len(f.variables), x.id);
  modifies *m;
  ensures @vars exists p: int {seq(f.variables)[p]} :: 0 <= p < len(f.variables) && seq(f.variables)[p].id == x.id && len(r.variables) == len(f.variables) && without(seq(f.variables), seq(r.variables), len(f.variables), p) && seq(r.variables)[len(f.variables) - 1] == seq(f.variables)[p];
  ensures @wf wfD(r);
  ensures @new newfac(m, r);
  ensures @cells forall a: [int]int {dig(seq(r.variables), a)} :: inrange(seq(f.variables), len(f.variables), a) ==>
     seq(r.data)[S(seq(r.variables), len(r.variables), dig(seq(r.variables), a), 0)] == polA(seq(f.data), seq(f.variables), len(f.variables), a, x.id, x.outcomes);
  loop 0 {
    invariant @idx -1 <= idx < $k && (idx >= 0 ==> seq(f.variables)[idx].id == x.id);
    invariant @none idx < 0 ==> len(newVars) == $k && same(seq(f.variables), seq(newVars), $k) && (forall j: int {seq(f.variables)[j]} :: 0 <= j < $k ==> seq(f.variables)[j].id != x.id);
    invariant @some idx >= 0 ==> len(newVars) == $k - 1 && without(seq(f.variables), seq(newVars), $k, idx);
    invariant fresh(newVars) && len(newVars) <= cap(newVars) && (ref(newVars) == pre(ref(newVars)) || ref(newVars) > pre(alloc()));
    modifies newVars;
    after { if idx >= 0 { use rem_outpos(seq(f.variables), seq(newVars), len(f.variables), idx); use rem_distinct(seq(f.variables), seq(newVars), len(f.variables), idx); } }
  }
  beforecall CreateFactor {
    let n = len(f.variables);
    let fd = seq(f.data);
    let fv = seq(f.variables);
    let p = idx;
    assert len(newVars) == n && without(fv, seq(newVars), n, p) && seq(newVars)[n - 1] == fv[p];
    assert outpos(seq(newVars), n);
  }
  aftercall CreateFactor {
    let w = seq($r.variables);
    use P_ext(seq(newVars), w, n, 0);
    assert without(fv, w, n, p) && w[n - 1] == fv[p];
    assert outpos(w, n);
    assert distinct(w, n - 1) by { use rem_distinct(fv, w, n, p); }
    assert forall j: int {w[j]} :: 0 <= j < n - 1 ==> w[j].id != w[n - 1].id;
    assert distinct(w, n);
    let out = fv[p].outcomes;
    let bins = P(w, n - 1, 0);
    use P_without(fv, w, n, p, 0);
    use P_snoc(w, n, 0);
    use P_pos(w, n - 1, 0);
    use divmod_unique(len(f.data), out, bins, 0);
  }
  loop 1 {
    modifies newIndex, oldIndex, rowData, maxIndices, fNew.data;
    invariant 0 <= row <= bins && len(maxIndices) == 0 && cap(maxIndices) >= 1 && fresh(maxIndices);
    invariant ref(maxIndices) == pre(ref(maxIndices)) || ref(maxIndices) > pre(alloc());
    invariant @rest forall t: int {seq(fNew.data)[t]} :: row * out <= t < bins * out ==> seq(fNew.data)[t] == 0.0;
    invariant @done forall a: [int]int {dig(w, a)} :: inrange(fv, n, a) && S(w, n - 1, dig(w, a), 0) < row ==>
       seq(fNew.data)[S(w, n, dig(w, a), 0)] == polA(fd, fv, n, a, x.id, out);
    before {
      fix a: [int]int | inrange(fv, n, a) {
        assert digits(w, n - 1, dig(w, a));
        use S_bound(w, n - 1, dig(w, a), 0);
      } show 0 <= S(w, n - 1, dig(w, a), 0);
    }
    begin { let row0 = row; obtain base: int :: base == row0 * out; let dat0 = seq(fNew.data); use mul_mono(row + 1, bins, out); use mul_nonneg(row, out); }
    end {
      let dat1 = seq(fNew.data);
      assert ml == cnt(rd, mx, out) && ml >= 1;
      fix e: int | 0 <= e < out {
        if rd[e] == mx { obtain i: int :: 0 <= i < ml && mi[i] == e; assert dat1[base + mi[i]] == pv; }
        else { assert dat1[base + e] == 0.0; }
      } show dat1[base + e] == (rd[e] == mx ? pv : 0.0);
      assert rd[mi[0]] == mx && 0 <= mi[0] < out;
      assert forall e: int {rd[e]} :: 0 <= e < out ==> rd[e] <= mx;
      assert forall t: int {dat1[t]} :: 0 <= t < base ==> dat1[t] == dat0[t];
      fix a: [int]int | inrange(fv, n, a) && S(w, n - 1, dig(w, a), 0) < row {
        assert digits(w, n, dig(w, a));
        use S_snoc(w, n, dig(w, a), 0);
        let q = S(w, n - 1, dig(w, a), 0);
        if q == row0 {
          use S_inj(w, n - 1, dig(w, a), ni, 0);
          assert onrow(w, n, ni, a);
          assert forall c: int {rd[c]} :: 0 <= c < out ==> rd[c] == fd[S(fv, n, dig(fv, a[x.id := c]), 0)];
          assert dig(w, a)[n - 1] == a[x.id];
          let c0 = a[x.id];
          assert a[x.id := c0] == a;
          assert rd[c0] == fd[S(fv, n, dig(fv, a), 0)];
          use cnt_cntA(rd, fd, fv, n, a, x.id, rd[c0], out);
          assert dat1[base + c0] == (rd[c0] == mx ? pv : 0.0);
          if rd[c0] == mx {
            assert maxA(fd, fv, n, a, x.id, out);
          } else {
            assert rd[mi[0]] > rd[c0];
            assert !maxA(fd, fv, n, a, x.id, out) by { assert fd[S(fv, n, dig(fv, a[x.id := mi[0]]), 0)] == rd[mi[0]]; }
          }
          assert dat1[base + c0] == polA(fd, fv, n, a, x.id, out);
          assert S(w, n, dig(w, a), 0) == base + c0;
          assert dat1[S(w, n, dig(w, a), 0)] == polA(fd, fv, n, a, x.id, out);
        } else {
          use S_bound(w, n - 1, dig(w, a), 0);
          use mul_mono(q + 1, row0, out);
          use mul_nonneg(q, out);
          assert 0 <= S(w, n, dig(w, a), 0) < base;
          assert dat0[S(w, n, dig(w, a), 0)] == polA(fd, fv, n, a, x.id, out);
          assert dat1[S(w, n, dig(w, a), 0)] == polA(fd, fv, n, a, x.id, out);
        }
      } show dat1[S(w, n, dig(w, a), 0)] == polA(fd, fv, n, a, x.id, out);
    }
  }
  aftercall Outcomes {
    let ni = seq(newIndex);
    use S_snoc(w, n, ni, 0);
    use divmod_unique(row0 * out, out, S(w, n - 1, ni, 0), ni[n - 1]);
    use divmod_unique(row0 * out, out, row0, 0);
    assert S(w, n - 1, ni, 0) == row0 && ni[n - 1] == 0;
  }
  loop 2 {
    modifies newIndex, oldIndex, rowData;
    invariant 0 <= c <= out;
    invariant @ni forall q: int {seq(newIndex)[q]} {ni[q]} :: 0 <= q < n - 1 ==> seq(newIndex)[q] == ni[q];
    invariant @rd forall a: [int]int, e: int {dig(fv, a[x.id := e])} :: inrange(fv, n, a) && onrow(w, n, ni, a) && 0 <= e < c ==> seq(rowData)[e] == fd[S(fv, n, dig(fv, a[x.id := e]), 0)];
    invariant @fin forall e: int {seq(rowData)[e]} :: 0 <= e < c ==> seq(rowData)[e] > ninf();
    begin { let c0 = c; let rd0 = seq(rowData); }
    end {
      fix a: [int]int, e: int | inrange(fv, n, a) && onrow(w, n, ni, a) && 0 <= e < c {
        if e == c0 {
          fix q: int | 0 <= q < n {
            if q < p { assert w[q] == fv[q]; assert seq(oldIndex)[q] == ni[q]; }
            if q > p { assert w[q - 1] == fv[q]; assert seq(oldIndex)[q] == ni[q - 1]; }
          } show seq(oldIndex)[q] == dig(fv, a[x.id := e])[q];
          use S_ext(fv, n, seq(oldIndex), dig(fv, a[x.id := e]), 0);
        } else { assert seq(rowData)[e] == rd0[e]; }
      } show seq(rowData)[e] == fd[S(fv, n, dig(fv, a[x.id := e]), 0)];
    }
  }
  loop 3 {
    modifies oldIndex;
    invariant 0 <= j <= p && (forall q: int {seq(oldIndex)[q]} :: 0 <= q < j ==> seq(oldIndex)[q] == seq(newIndex)[q]);
  }
  loop 4 {
    modifies oldIndex;
    invariant p + 1 <= j <= n && (forall q: int {seq(oldIndex)[q]} :: 0 <= q < j && q != p ==> seq(oldIndex)[q] == seq(newIndex)[q < p ? q : q - 1]);
  }
  beforecall Get {
    fix q: int | 0 <= q < n {
      if q < p { assert w[q] == fv[q]; }
      if q > p { assert w[q - 1] == fv[q]; }
    } show 0 <= seq(oldIndex)[q] < fv[q].outcomes;
    use S_bound(fv, n, seq(oldIndex), 0);
  }
  loop 5 {
    modifies maxIndices;
    invariant cap(maxIndices) >= 1 && fresh(maxIndices) && (ref(maxIndices) == pre(ref(maxIndices)) || ref(maxIndices) > pre(alloc()));
    invariant @first $k == 0 ==> len(maxIndices) == 0 && maxUtility == ninf();
    invariant @max $k > 0 ==> len(maxIndices) >= 1 && maxUtility > ninf() && (forall e: int {seq(rowData)[e]} :: 0 <= e < $k ==> seq(rowData)[e] <= maxUtility);
    invariant @is forall i: int {seq(maxIndices)[i]} :: 0 <= i < len(maxIndices) ==> 0 <= seq(maxIndices)[i] < $k && seq(rowData)[seq(maxIndices)[i]] == maxUtility;
    invariant @all forall e: int {seq(rowData)[e]} :: 0 <= e < $k && seq(rowData)[e] == maxUtility ==> (exists i: int {seq(maxIndices)[i]} :: 0 <= i < len(maxIndices) && seq(maxIndices)[i] == e);
    invariant @cnt len(maxIndices) == cnt(seq(rowData), maxUtility, $k);
    begin { let kk = $k; let mi0 = seq(maxIndices); let ml0 = len(maxIndices); let mu0 = maxUtility; }
    end {
      if maxUtility != mu0 { use cnt_zero(seq(rowData), maxUtility, kk); assert seq(maxIndices)[0] == kk; }
      else {
        assert forall i: int {seq(maxIndices)[i]} :: 0 <= i < ml0 ==> seq(maxIndices)[i] == mi0[i];
        if seq(rowData)[kk] == maxUtility { assert seq(maxIndices)[ml0] == kk; }
        fix e: int | 0 <= e < kk && seq(rowData)[e] == maxUtility {
          obtain i: int :: 0 <= i < ml0 && mi0[i] == e;
          assert seq(maxIndices)[i] == e;
        } show exists i: int {seq(maxIndices)[i]} :: 0 <= i < len(maxIndices) && seq(maxIndices)[i] == e;
      }
    }
    after { let rd = seq(rowData); let mx = maxUtility; let mi = seq(maxIndices); let ml = len(maxIndices); }
  }
  loop 6 {
    modifies newIndex, fNew.data;
    invariant @ni forall q: int {seq(newIndex)[q]} {ni[q]} :: 0 <= q < n - 1 ==> seq(newIndex)[q] == ni[q];
    invariant @set forall i: int {mi[i]} :: 0 <= i < $k ==> seq(fNew.data)[base + mi[i]] == probValue;
    invariant @zero forall e: int {rd[e]} :: 0 <= e < out && rd[e] != mx ==> seq(fNew.data)[base + e] == 0.0;
    invariant @rest forall t: int {seq(fNew.data)[t]} :: base + out <= t < bins * out ==> seq(fNew.data)[t] == 0.0;
    invariant @done forall t: int {seq(fNew.data)[t]} :: 0 <= t < base ==> seq(fNew.data)[t] == dat0[t];
    before { obtain pv: real :: pv == probValue; assert pv == 1.0 / real(cnt(rd, mx, out)); }
    begin { let kk6 = $k; let d6 = seq(fNew.data); }
    end { assert forall i: int {mi[i]} :: 0 <= i < kk6 ==> seq(fNew.data)[base + mi[i]] == probValue; }
  }
  beforecall Set {
    assert digits(w, n, seq(newIndex));
    use S_snoc(w, n, seq(newIndex), 0);
    use S_ext(w, n - 1, seq(newIndex), ni, 0);
    assert S(w, n, seq(newIndex), 0) == base + mi[kk6];
  }
  exit {
    fix a: [int]int | inrange(fv, n, a) {
      assert digits(w, n, dig(w, a));
      use S_bound(w, n, dig(w, a), 0);
      use S_bound(w, n - 1, dig(w, a), 0);
    } show 0 <= S(w, n - 1, dig(w, a), 0) < bins;
  }
