// network.go: operations on solved factors, by variable name.

macro names(n) = n.variableNames;
macro known(n, v) = dom(n.variableNames)[v];
macro vev(n, v) = vals(n.variableNames)[v].VeVariable;
macro okNames(n) = (forall v: str {dom(n.variableNames)[v]} :: dom(n.variableNames)[v] ==> vals(n.variableNames)[v] != nil);
macro hasN(n, f, v) = known(n, v) && hasV(fac(f), vev(n, v).id);

func bbn.Network.variableIndex(n, f, v) returns (i, ok)
  property C09;
  requires n != nil && f != nil && okNames(n);
  panics !known(n, v);
  ensures @ok ok <==> hasV(fac(f), vev(n, v).id);
  ensures @pos ok ==> 0 <= i < len(f.variables) && seq(f.variables)[i].id == vev(n, v).id;
  exit { if hasV(fac(f), vev(n, v).id) { obtain q: int :: 0 <= q < fac(f).n && fac(f).v[q].id == vev(n, v).id; assert seq(f.variables)[q].id == vev(n, v).id; } else { if ok { assert fac(f).v[i].id == vev(n, v).id; } } }

// pos lists the positions, in the factor, of the variables of the rearranged factor
define posOK(fv: [int]ve.Variable, nf: int, r: [int]ve.Variable, m: int, pos: [int]int): bool decreases 0 =
  (forall i: int {r[i]} {pos[i]} :: 0 <= i < m ==> 0 <= pos[i] < nf && r[i] == fv[pos[i]])
  && (forall i: int, j: int {pos[i], pos[j]} :: 0 <= i < j < m ==> pos[i] != pos[j]);
macro distinctN(n, vs) = (forall i: int, j: int {seq(vs)[i], seq(vs)[j]} :: 0 <= i < j < len(vs) ==> vev(n, seq(vs)[i]).id != vev(n, seq(vs)[j]).id);

define hit(pos: [int]int, m: int, q: int): bool decreases 0 = exists j: int {pos[j]} :: 0 <= j < m && pos[j] == q;
lemma onto_len(pos: [int]int, m: int, n: int)
  requires 0 <= m < n && (forall q: int {hit(pos, m, q)} :: 0 <= q < n ==> hit(pos, m, q));
  ensures false;
  decreases m;
{
  if m == 0 { assert hit(pos, m, 0); }
  else {
    let t = pos[m - 1];
    let p2 = lam j: int :: pos[j] == n - 1 ? t : pos[j];
    fix q: int | 0 <= q < n - 1 {
      assert hit(pos, m, q) && hit(pos, m, n - 1);
      obtain j: int :: 0 <= j < m && pos[j] == q;
      if j < m - 1 { assert p2[j] == q; }
      else { obtain j2: int :: 0 <= j2 < m && pos[j2] == n - 1; assert j2 != m - 1; assert p2[j2] == q; }
    } show hit(p2, m - 1, q);
    use onto_len(p2, m - 1, n - 1);
  }
}

func bbn.Network.rearrangeVariables(n, f, vs) returns (r)
  property C09;
  requires n != nil && f != nil && okNames(n) && distinct(seq(f.variables), len(f.variables)) && len(vs) >= 1 && distinctN(n, vs);
  panics !(forall i: int {seq(vs)[i]} :: 0 <= i < len(vs) ==> hasN(n, f, seq(vs)[i]));
  ensures @len len(r) == len(f.variables) && fresh(r);
  ensures @first forall i: int {seq(r)[i]} :: 0 <= i < len(vs) - 1 ==> seq(r)[i].id == vev(n, seq(vs)[i]).id;
  ensures @last seq(r)[len(r) - 1].id == vev(n, seq(vs)[len(vs) - 1]).id;
  ensures @perm exists pos: [int]int {posOK(seq(f.variables), len(f.variables), seq(r), len(r), pos)} :: posOK(seq(f.variables), len(f.variables), seq(r), len(r), pos)
     && (forall i: int, j: int {pos[i], pos[j]} :: len(vs) - 1 <= i < j < len(r) - 1 ==> pos[i] < pos[j]);
  entry { let fv = seq(f.variables); let nf = len(f.variables); let nm = seq(vs); let k = len(vs);  }
  loop 0 {
    modifies vars, done;
    invariant @i 0 <= i <= k - 1 && len(vars) == i;
    invariant @own fresh(vars) && (ref(vars) == pre(ref(vars)) || ref(vars) > pre(alloc()));
    invariant @ids forall j: int {seq(vars)[j]} {nm[j]} :: 0 <= j < i ==> seq(vars)[j].id == vev(n, nm[j]).id && hasN(n, f, nm[j]);
    invariant @pos exists pos: [int]int {posOK(fv, nf, seq(vars), i, pos)} :: posOK(fv, nf, seq(vars), i, pos)
      && (forall q: int {seq(done)[q]} :: 0 <= q < nf && seq(done)[q] ==> (exists j: int {pos[j]} :: 0 <= j < i && pos[j] == q))
      && (forall j: int {pos[j]} :: 0 <= j < i ==> seq(done)[pos[j]]);
    decreases k - 1 - i;
    before { let p0 = lam j: int :: 0; assert posOK(fv, nf, seq(vars), 0, p0); }
    begin { let vr0 = seq(vars); let i0 = i; let dn0 = seq(done);
      obtain pos: [int]int :: posOK(fv, nf, vr0, i0, pos) && (forall q: int {dn0[q]} :: 0 <= q < nf && dn0[q] ==> (exists j: int {pos[j]} :: 0 <= j < i0 && pos[j] == q)) && (forall j: int {pos[j]} :: 0 <= j < i0 ==> dn0[pos[j]]); }
    end {
      let pos1 = pos[i0 := ix];
      fix j: int | 0 <= j < i0 { assert vr0[j] == seq(vars)[j]; assert fv[pos[j]].id == vev(n, nm[j]).id; assert nm[j] == nm[j] && nm[i0] == nm[i0]; } show pos1[j] == pos[j] && pos[j] != ix;
      assert seq(vars)[i0] == fv[ix];
      fix j: int | 0 <= j < i0 + 1 { if j < i0 { assert vr0[j] == seq(vars)[j]; assert pos1[j] == pos[j]; } } show 0 <= pos1[j] < nf && seq(vars)[j] == fv[pos1[j]];
      fix j: int, j2: int | 0 <= j < j2 < i0 + 1 { assert pos1[j] == pos[j]; if j2 < i0 { assert pos1[j2] == pos[j2]; } } show pos1[j] != pos1[j2];
      assert posOK(fv, nf, seq(vars), i0 + 1, pos1);
      fix q: int | 0 <= q < nf && seq(done)[q] {
        if q == ix { assert pos1[i0] == q; } else { assert dn0[q]; obtain j: int :: 0 <= j < i0 && pos[j] == q; assert pos1[j] == q; }
      } show exists j: int {pos1[j]} :: 0 <= j < i0 + 1 && pos1[j] == q;
      fix j: int | 0 <= j < i0 + 1 { if j < i0 { assert pos1[j] == pos[j]; assert dn0[pos[j]]; } } show seq(done)[pos1[j]];
    }
    after { let vrA = seq(vars); let dnA = seq(done); let kA = k - 1; assert len(vars) == kA;
      obtain posA: [int]int :: posOK(fv, nf, vrA, kA, posA) && (forall q: int {dnA[q]} :: 0 <= q < nf && dnA[q] ==> (exists j: int {posA[j]} :: 0 <= j < kA && posA[j] == q)) && (forall j: int {posA[j]} :: 0 <= j < kA ==> dnA[posA[j]]); }
  }
  loop 1 {
    modifies vars;
    invariant @len kA <= len(vars);
    invariant @own fresh(vars) && (ref(vars) == pre(ref(vars)) || ref(vars) > pre(alloc()));
    invariant @ids forall j: int {seq(vars)[j]} {nm[j]} :: 0 <= j < kA ==> seq(vars)[j].id == vev(n, nm[j]).id;
    invariant @pos exists pos: [int]int {posOK(fv, nf, seq(vars), len(vars), pos)} :: posOK(fv, nf, seq(vars), len(vars), pos)
      && (forall i: int, j: int {pos[i], pos[j]} :: kA <= i < j < len(vars) ==> pos[i] < pos[j])
      && (forall i: int {pos[i]} :: kA <= i < len(vars) ==> pos[i] < $k)
      && (forall i: int {pos[i]} :: 0 <= i < len(vars) ==> pos[i] != idx)
      && (forall q: int {dnA[q]} :: 0 <= q < nf && q != idx && (q < $k || dnA[q]) ==> (exists j: int {pos[j]} :: 0 <= j < len(vars) && pos[j] == q));
    before {
      fix j: int | 0 <= j < kA { assert vrA[j] == fv[posA[j]]; assert fv[posA[j]].id == vev(n, nm[j]).id; assert nm[kA] == nm[kA]; } show posA[j] != idx;
      assert seq(vars) == vrA;
      assert posOK(fv, nf, seq(vars), len(vars), posA);
    }
    begin { let vr1 = seq(vars); let n1 = len(vars); let k1 = $k;
      obtain pos2: [int]int :: posOK(fv, nf, vr1, n1, pos2) && (forall i: int, j: int {pos2[i], pos2[j]} :: kA <= i < j < n1 ==> pos2[i] < pos2[j])
      && (forall i: int {pos2[i]} :: kA <= i < n1 ==> pos2[i] < k1) && (forall i: int {pos2[i]} :: 0 <= i < n1 ==> pos2[i] != idx)
      && (forall q: int {dnA[q]} :: 0 <= q < nf && q != idx && (q < k1 || dnA[q]) ==> (exists j: int {pos2[j]} :: 0 <= j < n1 && pos2[j] == q));
    }
    end {
      assert dnA[k1] || !dnA[k1];
      if len(vars) == n1 {
        assert k1 == idx || dnA[k1];
        assert posOK(fv, nf, seq(vars), len(vars), pos2);
      } else {
        let pos3 = pos2[n1 := k1];
        assert !dnA[k1] && k1 != idx && len(vars) == n1 + 1 && seq(vars)[n1] == fv[k1];
        fix j: int | 0 <= j < n1 {
          assert vr1[j] == seq(vars)[j];
          if j < kA { if pos2[j] == k1 { assert vr1[j] == fv[k1]; assert vrA[j].id == vev(n, nm[j]).id; assert vr1[j].id == vrA[j].id; assert fv[posA[j]].id == fv[k1].id; assert posA[j] == k1; assert dnA[posA[j]]; } }
        } show pos3[j] == pos2[j] && pos2[j] != k1;
        fix j: int | 0 <= j < n1 + 1 { if j < n1 { assert vr1[j] == seq(vars)[j]; assert pos3[j] == pos2[j]; } } show 0 <= pos3[j] < nf && seq(vars)[j] == fv[pos3[j]];
        fix j: int, j2: int | 0 <= j < j2 < n1 + 1 { assert pos3[j] == pos2[j]; if j2 < n1 { assert pos3[j2] == pos2[j2]; } } show pos3[j] != pos3[j2];
        assert posOK(fv, nf, seq(vars), len(vars), pos3);
        fix q: int | 0 <= q < nf && q != idx && (q < k1 + 1 || dnA[q]) {
          if q == k1 { assert pos3[n1] == q; } else { obtain j: int :: 0 <= j < n1 && pos2[j] == q; assert pos3[j] == q; }
        } show exists j: int {pos3[j]} :: 0 <= j < len(vars) && pos3[j] == q;
      }
    }
    after {
      let vrB = seq(vars); let nB = len(vars);
      obtain posB: [int]int :: posOK(fv, nf, vrB, nB, posB) && (forall i: int, j: int {posB[i], posB[j]} :: kA <= i < j < nB ==> posB[i] < posB[j])
        && (forall i: int {posB[i]} :: kA <= i < nB ==> posB[i] < $k) && (forall i: int {posB[i]} :: 0 <= i < nB ==> posB[i] != idx)
        && (forall q: int {dnA[q]} :: 0 <= q < nf && q != idx && (q < $k || dnA[q]) ==> (exists j: int {posB[j]} :: 0 <= j < nB && posB[j] == q));
      let posC = posB[nB := idx];
      fix j: int | 0 <= j < nB { } show posC[j] == posB[j] && 0 <= posC[j] < nf && posC[j] != idx;
      fix i: int, j: int | 0 <= i < j < nB + 1 { if j < nB { assert posB[i] != posB[j]; } } show posC[i] != posC[j];
      if nB + 1 > nf { use no_inj(posC, nB + 1, nf); }
      if nB + 1 < nf {
        fix q: int | 0 <= q < nf { if q == idx { assert posC[nB] == q; } else { assert dnA[q] || !dnA[q]; obtain j: int :: 0 <= j < nB && posB[j] == q; assert posC[j] == q; } } show hit(posC, nB + 1, q);
        use onto_len(posC, nB + 1, nf);
      }
      assert nB + 1 == nf;
    }
  }
  exit {
    fix j: int | 0 <= j < nB { assert vrB[j] == fv[posB[j]]; assert posC[j] == posB[j]; } show seq(r)[j] == vrB[j] && seq(r)[j] == fv[posC[j]];
    assert seq(r)[nB] == fv[idx];
    fix j: int | 0 <= j < nf { if j < nB { assert posC[j] == posB[j]; } } show 0 <= posC[j] < nf && seq(r)[j] == fv[posC[j]];
    assert posOK(fv, nf, seq(r), len(r), posC);
  }
  aftercall variableIndex#0 { let ix = $r0; }

func ve.VE.Variables(s) returns (r)
  property C09;
  requires s != nil;
  ensures r == s.variables;

macro hasVE(n) = n != nil && n.ve != nil && n.ve.variables != nil && okNames(n);

func bbn.Network.Rearrange(n, f, vs) returns (r)
  property C09 C11;
  requires hasVE(n) && f != nil && wfD(f) && len(vs) >= 1 && distinctN(n, vs);
  panics !(forall i: int {seq(vs)[i]} :: 0 <= i < len(vs) ==> hasN(n, f, seq(vs)[i]));
  modifies *n.ve.variables;
  ensures @wf wfD(r);
  ensures @new newfac(n.ve.variables, r);
  ensures @len len(r.variables) == len(f.variables);
  ensures @first forall i: int {seq(r.variables)[i]} :: 0 <= i < len(vs) - 1 ==> seq(r.variables)[i].id == vev(n, seq(vs)[i]).id;
  ensures @last seq(r.variables)[len(r.variables) - 1].id == vev(n, seq(vs)[len(vs) - 1]).id;
  ensures @perm exists pos: [int]int {posOK(seq(f.variables), len(f.variables), seq(r.variables), len(r.variables), pos)} :: posOK(seq(f.variables), len(f.variables), seq(r.variables), len(r.variables), pos)
     && (forall i: int, j: int {pos[i], pos[j]} :: len(vs) - 1 <= i < j < len(r.variables) - 1 ==> pos[i] < pos[j]);
  ensures @cells forall a: [int]int {dig(seq(r.variables), a)} {dig(seq(f.variables), a)} :: inrange(seq(f.variables), len(f.variables), a) ==> fval(fac(r), a) == fval(old(fac(f)), a);
  aftercall rearrangeVariables {
    let rv = seq($r); let fv = seq(f.variables); let nf = len(f.variables);
    obtain pos: [int]int :: posOK(fv, nf, rv, nf, pos) && (forall i: int, j: int {pos[i], pos[j]} :: len(vs) - 1 <= i < j < nf - 1 ==> pos[i] < pos[j]);
    fix i: int | 0 <= i < nf { } show rv[i] == fv[pos[i]];
    fix i: int, j: int | 0 <= i < j < nf { assert rv[i] == fv[pos[i]] && rv[j] == fv[pos[j]]; assert pos[i] != pos[j]; } show rv[i].id != rv[j].id;
  }
  exit {
    fix i: int | 0 <= i < nf { } show seq(r.variables)[i] == rv[i];
    fix i: int | 0 <= i < nf { assert seq(r.variables)[i] == rv[i]; assert rv[i] == fv[pos[i]]; } show 0 <= pos[i] < nf && seq(r.variables)[i] == fv[pos[i]];
    assert posOK(fv, nf, seq(r.variables), nf, pos);
  }

func bbn.Network.Normalize(n, f) returns (r)
  property C01 C02 C11;
  requires hasVE(n) && f != nil && wfD(f);
  modifies *n.ve.variables;
  ensures @new newfac(n.ve.variables, r) && wfD(r);
  ensures @vars len(r.variables) == len(f.variables) && same(seq(f.variables), seq(r.variables), len(f.variables));
  ensures @size len(r.data) == len(f.data);
  ensures @cells total(seq(f.data), 0, len(f.data)) != 0.0 ==> (forall j: int {seq(r.data)[j]} {seq(f.data)[j]} :: 0 <= j < len(f.data) ==> seq(r.data)[j] == seq(f.data)[j] / total(seq(f.data), 0, len(f.data)));

func bbn.Network.Marginal(n, f, v) returns (r)
  property C01 C07 C11;
  requires hasVE(n) && f != nil && wfD(f) && samevar(seq(f.variables), len(f.variables), vev(n, v));
  panics !hasN(n, f, v);
  modifies *n.ve.variables;
  ensures @new newfac(n.ve.variables, r) && wfD(r);
  ensures @vars len(r.variables) == 1 && seq(r.variables)[0] == vev(n, v) && len(r.data) == vev(n, v).outcomes;
  ensures @cells forall p: int, c: int {marg(seq(f.data), seq(f.variables), len(f.variables), p, c, len(f.data))} :: 0 <= p < len(f.variables) && seq(f.variables)[p].id == vev(n, v).id && 0 <= c < vev(n, v).outcomes ==>
     seq(r.data)[c] == marg(seq(f.data), seq(f.variables), len(f.variables), p, c, len(f.data));

// one variable per identifier for two tables that agree on shared variables
define names2(u: Fac, p: Fac, i: int, j: int, w: [int]ve.Variable): bool decreases 0 =
  (forall q: int {u.v[q]} :: 0 <= q < i ==> u.v[q] == w[u.v[q].id]) && (forall q: int {p.v[q]} :: 0 <= q < j ==> p.v[q] == w[p.v[q].id]);
lemma cons2(u: Fac, p: Fac, i: int, j: int)
  requires 0 <= i && 0 <= j && distinct(u.v, i) && distinct(p.v, j);
  requires forall q: int, t: int {u.v[q], p.v[t]} :: 0 <= q < i && 0 <= t < j && u.v[q].id == p.v[t].id ==> u.v[q] == p.v[t];
  ensures exists w: [int]ve.Variable {names2(u, p, i, j, w)} :: names2(u, p, i, j, w);
  decreases i + j;
{
  if j > 0 {
    use cons2(u, p, i, j - 1);
    obtain w: [int]ve.Variable :: names2(u, p, i, j - 1, w);
    let w2 = w[p.v[j - 1].id := p.v[j - 1]];
    assert names2(u, p, i, j, w2);
  } else { if i > 0 {
    use cons2(u, p, i - 1, j);
    obtain w: [int]ve.Variable :: names2(u, p, i - 1, j, w);
    let w2 = w[u.v[i - 1].id := u.v[i - 1]];
    assert names2(u, p, i, j, w2);
  } else { let w0 = lam id: int :: u.v[0]; assert names2(u, p, i, j, w0); } }
}
// dividing by probabilities: where the probability is not zero, the quotient
func bbn.Network.NormalizeUtility(n, u, p) returns (r)
  property C03 C11;
  requires hasVE(n) && u != nil && p != nil && wfD(u) && wfD(p);
  requires @consistent forall i: int, j: int {seq(u.variables)[i], seq(p.variables)[j]} :: 0 <= i < len(u.variables) && 0 <= j < len(p.variables) && seq(u.variables)[i].id == seq(p.variables)[j].id ==> seq(u.variables)[i] == seq(p.variables)[j];
  modifies *n.ve.variables;
  ensures @wf wfD(r);
  ensures @union forall id: int {hasV(fac(r), id)} :: hasV(fac(r), id) <==> hasV(fac(u), id) || hasV(fac(p), id);
  ensures @cells forall a: [int]int {dig(seq(r.variables), a)} {dig(seq(u.variables), a)} :: inrange(seq(u.variables), len(u.variables), a) && inrange(seq(p.variables), len(p.variables), a) && fval(old(fac(p)), a) != 0.0 ==>
    fval(fac(r), a) == fval(old(fac(u)), a) / fval(old(fac(p)), a);
  entry {
    let U0 = fac(u); let P0 = fac(p);
    use cons2(U0, P0, U0.n, P0.n);
    obtain w: [int]ve.Variable :: names2(U0, P0, U0.n, P0.n, w);
  }
  beforecall Product {
    let F = facs($a1); let I0 = F[1];
    assert len($a1) == 2 && F[0] == U0 && I0.n == P0.n;
    fix q: int | 0 <= q < P0.n { } show I0.v[q] == P0.v[q];
    fix j: int, q: int | 0 <= j < 2 && 0 <= q < F[j].n { if j == 0 { assert U0.v[q] == w[U0.v[q].id]; } else { assert j == 1 && I0.v[q] == P0.v[q]; } } show F[j].v[q] == w[F[j].v[q].id];
    assert consistent(F, 2, w);
    fix a: [int]int | inrange(U0.v, U0.n, a) && inrange(P0.v, P0.n, a) && fval(P0, a) != 0.0 {
      fix j: int, q: int | 0 <= j < 2 && 0 <= q < F[j].n { if j == 1 { assert I0.v[q] == P0.v[q]; } } show 0 <= a[F[j].v[q].id] < F[j].v[q].outcomes;
      assert fitsAll(F, 2, a);
      fix q: int | 0 <= q < P0.n { assert I0.v[q] == P0.v[q]; } show dig(I0.v, a)[q] == dig(P0.v, a)[q];
      use S_ext(I0.v, P0.n, dig(I0.v, a), dig(P0.v, a), 0);
      use S_extv(I0.v, P0.v, P0.n, dig(P0.v, a), 0);
      use S_bound(P0.v, P0.n, dig(P0.v, a), 0);
      assert fval(I0, a) == 1.0 / fval(P0, a);
      use prodA_snoc(F, 0, a, U0); use prodA_snoc(F, 1, a, I0);
      assert prodA(F, 0, a) == 1.0;
      assert prodA(F, 2, a) == fval(U0, a) * fval(I0, a);
    } show prodA(F, 2, a) == fval(U0, a) / fval(P0, a) && fitsAll(F, 2, a);
  }

func bbn.Network.ToEvidence(n, variable, value) returns (r, err)
  property C17 C18 C11;
  requires n != nil && okNames(n);
  ensures @known err == nil <==> known(n, variable) && (exists i: int {seq(vals(n.variableNames)[variable].Variable.Outcomes)[i]} :: 0 <= i < len(vals(n.variableNames)[variable].Variable.Outcomes) && seq(vals(n.variableNames)[variable].Variable.Outcomes)[i] == value);
  ensures @size err == nil ==> fresh(r) && len(r) == len(vals(n.variableNames)[variable].Variable.Outcomes);
  ensures @one err == nil ==> (exists i: int {seq(r)[i]} :: 0 <= i < len(r) && seq(vals(n.variableNames)[variable].Variable.Outcomes)[i] == value && seq(r)[i] == 1.0
     && (forall j: int {seq(r)[j]} :: 0 <= j < len(r) && j != i ==> seq(r)[j] == 0.0)
     && (forall j: int {seq(vals(n.variableNames)[variable].Variable.Outcomes)[j]} :: 0 <= j < i ==> seq(vals(n.variableNames)[variable].Variable.Outcomes)[j] != value));
