// ve/variables.go: Product and Sum over any number of factors.

datatype Fac {n: int, v: [int]ve.Variable, d: [int]real}
macro fac(f) = Fac(len(f.variables), seq(f.variables), seq(f.data));
macro facs(fs) = lam j: int :: Fac(len(seq(fs)[j].variables), seq(seq(fs)[j].variables), seq(seq(fs)[j].data));
macro fval(F, a) = F.d[S(F.v, F.n, dig(F.v, a), 0)];

// product and sum of the values of the first m factors
define prodA(F: [int]Fac, m: int, a: [int]int): real decreases m = m <= 0 ? 1.0 : prodA(F, m - 1, a) * fval(F[m - 1], a);
define addA(F: [int]Fac, m: int, a: [int]int): real decreases m = m <= 0 ? 0.0 : addA(F, m - 1, a) + fval(F[m - 1], a);

// variables with the same id are the same variable
define consistent(F: [int]Fac, m: int, vf: [int]ve.Variable): bool decreases 0 =
  forall j: int, k: int {F[j].v[k]} :: 0 <= j < m && 0 <= k < F[j].n ==> F[j].v[k] == vf[F[j].v[k].id];
// an assignment in range for all of the factors
define fitsAll(F: [int]Fac, m: int, a: [int]int): bool decreases 0 =
  forall j: int, k: int {F[j].v[k]} :: 0 <= j < m && 0 <= k < F[j].n ==> 0 <= a[F[j].v[k].id] < F[j].v[k].outcomes;
macro facsOK(fs) = forall j: int {seq(fs)[j]} :: 0 <= j < len(fs) ==> seq(fs)[j] != nil && wfD(seq(fs)[j]);

func ve.Variables.Product(mg, factors) returns (r)
  property C06;
  requires mg != nil && facsOK(factors);
  requires exists vf: [int]ve.Variable {consistent(facs(factors), len(factors), vf)} :: consistent(facs(factors), len(factors), vf);
  modifies *mg;
  ensures @new newfac(mg, r);
  ensures @wf wfD(r);
  ensures @all forall j: int, k: int {old(facs(factors))[j].v[k]} :: 0 <= j < len(factors) && 0 <= k < old(facs(factors))[j].n ==>
    (exists q: int {seq(r.variables)[q]} :: 0 <= q < len(r.variables) && seq(r.variables)[q] == old(facs(factors))[j].v[k]);
  ensures @only forall q: int {seq(r.variables)[q]} :: 0 <= q < len(r.variables) ==>
    (exists j: int, k: int {old(facs(factors))[j].v[k]} :: 0 <= j < len(factors) && 0 <= k < old(facs(factors))[j].n && seq(r.variables)[q] == old(facs(factors))[j].v[k]);
  ensures @cells forall a: [int]int {dig(seq(r.variables), a)} {prodA(old(facs(factors)), len(factors), a)} :: fitsAll(old(facs(factors)), len(factors), a) ==>
    seq(r.data)[S(seq(r.variables), len(r.variables), dig(seq(r.variables), a), 0)] == prodA(old(facs(factors)), len(factors), a);
  entry {
    let F = facs(factors);
    let M = len(factors);
    obtain vf: [int]ve.Variable :: consistent(F, M, vf);
  }
  aftercall CreateFactor#0 {
    let w = seq($r.variables);
    let n = F[0].n;
    let fv = F[0].v;
    use P_pos(fv, n, 0);
    use P_ext(fv, w, n, 0);
    fix a: [int]int | fitsAll(F, 1, a) {
      use S_extv(fv, w, n, dig(fv, a), 0);
      use S_ext(w, n, dig(fv, a), dig(w, a), 0);
      assert digits(fv, n, dig(fv, a));
      use S_bound(fv, n, dig(fv, a), 0);
      assert prodA(F, 0, a) == 1.0;
      assert prodA(F, 1, a) == fval(F[0], a);
    } show seq($r.data)[S(w, n, dig(w, a), 0)] == prodA(F, 1, a);
  }
  loop 0 {
    modifies maps, newVars;
    invariant len(maps) == M && fresh(newVars) && (ref(newVars) == pre(ref(newVars)) || ref(newVars) > pre(alloc()));
    invariant @len forall j: int {seq(maps)[j]} :: 0 <= j < $k ==> len(seq(maps)[j]) == F[j].n && ref(seq(maps)[j]) > pre(alloc());
    invariant @map forall j: int, k: int {seq(seq(maps)[j])[k]} {F[j].v[k]} :: 0 <= j < $k && 0 <= k < F[j].n ==> 0 <= seq(seq(maps)[j])[k] < len(newVars) && seq(newVars)[seq(seq(maps)[j])[k]] == F[j].v[k];
    invariant @distinct distinct(seq(newVars), len(newVars));
    invariant @vf forall q: int {seq(newVars)[q]} :: 0 <= q < len(newVars) ==> seq(newVars)[q] == vf[seq(newVars)[q].id] && 1 <= seq(newVars)[q].outcomes;
    invariant @from forall q: int {seq(newVars)[q]} :: 0 <= q < len(newVars) ==> (exists j: int, k: int {F[j].v[k]} :: 0 <= j < $k && 0 <= k < F[j].n && seq(newVars)[q] == F[j].v[k]);
  }
  loop 1 {
    modifies m, newVars;
    invariant fresh(newVars) && (ref(newVars) == pre(ref(newVars)) || ref(newVars) > pre(alloc())) && len(m) == F[$k0].n;
    invariant @grow len(newVars) >= pre(len(newVars)) && (forall q: int {seq(newVars)[q]} {pre(seq(newVars))[q]} :: 0 <= q < pre(len(newVars)) ==> seq(newVars)[q] == pre(seq(newVars))[q]);
    invariant @map forall k: int {seq(m)[k]} {F[$k0].v[k]} :: 0 <= k < $k ==> 0 <= seq(m)[k] < len(newVars) && seq(newVars)[seq(m)[k]] == F[$k0].v[k];
    invariant @distinct distinct(seq(newVars), len(newVars));
    invariant @vf forall q: int {seq(newVars)[q]} :: 0 <= q < len(newVars) ==> seq(newVars)[q] == vf[seq(newVars)[q].id] && 1 <= seq(newVars)[q].outcomes;
    invariant @from forall q: int {seq(newVars)[q]} :: pre(len(newVars)) <= q < len(newVars) ==> (exists k: int {F[$k0].v[k]} :: 0 <= k < $k && seq(newVars)[q] == F[$k0].v[k]);
      begin { assert v == F[$k0].v[$k]; let m0 = seq(m); let nv0 = seq(newVars); let ln0 = len(newVars); let kk = $k; }
    end {
      assert forall k: int {seq(m)[k]} :: 0 <= k < kk ==> seq(m)[k] == m0[k];
      assert forall q: int {seq(newVars)[q]} :: 0 <= q < ln0 ==> seq(newVars)[q] == nv0[q];
      assert 0 <= seq(m)[kk] < len(newVars) && seq(newVars)[seq(m)[kk]] == F[$k0].v[kk];
    }
  }
  aftercall CreateFactor#1 {
    let w = seq($r.variables);
    let n = len($r.variables);
    let mp = seq(maps);
    use P_ext(seq(newVars), w, n, 0);
    assert distinct(w, n) && outpos(w, n);
    assert forall j: int, k: int {seq(mp[j])[k]} {F[j].v[k]} :: 0 <= j < M && 0 <= k < F[j].n ==> 0 <= seq(mp[j])[k] < n && w[seq(mp[j])[k]] == F[j].v[k];
    assert forall q: int {w[q]} :: 0 <= q < n ==> (exists j: int, k: int {F[j].v[k]} :: 0 <= j < M && 0 <= k < F[j].n && w[q] == F[j].v[k]);
  }
  loop 2 {
    modifies oldIndex;
    invariant len(oldIndex) == M;
    invariant @rows forall j: int {seq(oldIndex)[j]} :: 0 <= j < $k ==> len(seq(oldIndex)[j]) == F[j].n && ref(seq(oldIndex)[j]) > pre(alloc());
    after { let oi = seq(oldIndex); let oiref = ref(oldIndex); let al = pre(alloc()); }
  }
  loop 3 {
    modifies f.data, newIndex, forall j: int :: 0 <= j < M ==> oi[j];
    invariant @pos digits(w, n, seq(newIndex)) && ($k < len(f.data) ==> S(w, n, seq(newIndex), 0) == $k);
    invariant @done forall a: [int]int {dig(w, a)} {prodA(F, M, a)} :: fitsAll(F, M, a) && S(w, n, dig(w, a), 0) < $k ==>
       seq(f.data)[S(w, n, dig(w, a), 0)] == prodA(F, M, a);
    before { use S_zero(w, n, seq(newIndex), 0);
      fix a: [int]int | fitsAll(F, M, a) { assert digits(w, n, dig(w, a)); use S_bound(w, n, dig(w, a), 0); } show 0 <= S(w, n, dig(w, a), 0) < P(w, n, 0); }
    begin { let ni = seq(newIndex); let k0 = $k; }
    end {
      fix a: [int]int | fitsAll(F, M, a) && S(w, n, dig(w, a), 0) < $k {
        if S(w, n, dig(w, a), 0) == k0 {
          assert digits(w, n, dig(w, a));
          use S_inj(w, n, dig(w, a), ni, 0);
        }
      } show seq(f.data)[S(w, n, dig(w, a), 0)] == prodA(F, M, a);
    }
  }
  loop 4 {
    modifies forall j: int :: 0 <= j < M ==> oi[j];
    invariant @part forall a: [int]int {prodA(F, $k, a)} {dig(w, a)} :: fitsAll(F, M, a) && (forall q: int {w[q]} :: 0 <= q < n ==> a[w[q].id] == ni[q]) ==> product == prodA(F, $k, a);
    before { }
    begin { let j0 = $k; let pr0 = product; }
    end {
      fix a: [int]int | fitsAll(F, M, a) && (forall q: int {w[q]} :: 0 <= q < n ==> a[w[q].id] == ni[q]) {
        assert pr0 == prodA(F, j0, a);
        fix k: int | 0 <= k < F[j0].n {
          assert w[seq(mp[j0])[k]] == F[j0].v[k];
        } show seq(oi[j0])[k] == dig(F[j0].v, a)[k];
        use S_ext(F[j0].v, F[j0].n, seq(oi[j0]), dig(F[j0].v, a), 0);
      } show product == prodA(F, $k, a);
    }
  }
  loop 5 {
    modifies oi[$k4];
    invariant @copy forall k: int {seq(oi[$k4])[k]} :: 0 <= k < $k ==> seq(oi[$k4])[k] == ni[seq(mp[$k4])[k]];
    after {
      fix k: int | 0 <= k < F[$k4].n {
        assert w[seq(mp[$k4])[k]] == F[$k4].v[k];
      } show 0 <= seq(oi[$k4])[k] < F[$k4].v[k].outcomes;
    }
  }
  exit {
    fix a: [int]int | fitsAll(F, M, a) { assert digits(w, n, dig(w, a)); use S_bound(w, n, dig(w, a), 0); } show 0 <= S(w, n, dig(w, a), 0) < P(w, n, 0);
  }
