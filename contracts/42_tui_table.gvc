// internal/tui/table.go: the table view.
func tview.NewTableCell(text) returns (c)
  trusted "tview: creates a cell with the given text";
  ensures c != nil && fresh(c) && c.Text == text;
func tview.TableCell.SetAlign(c, a) returns (r)
  trusted "tview: changes only the alignment";
  modifies *c;
  ensures c.Text == old(c.Text) && r == c;
func tview.TableCell.SetExpansion(c, e) returns (r)
  trusted "tview: changes only the expansion";
  modifies *c;
  ensures c.Text == old(c.Text) && r == c;

// quotient of a position by the block size of digit c: SI(i) == high(i) * PI(c) + SI(c)
define high(o: [int]int, n: int, d: [int]int, i: int, c: int): int decreases c - i = i >= c ? 0 : d[i] * PX(o, i + 1, c) + high(o, n, d, i + 1, c);
define PX(o: [int]int, i: int, c: int): int decreases c - i = i >= c ? 1 : o[i] * PX(o, i + 1, c);
lemma PX_PI(o: [int]int, n: int, i: int, c: int)
  requires 0 <= i <= c <= n;
  ensures PI(o, n, i) == PX(o, i, c) * PI(o, n, c);
  decreases c - i;
{ if i < c { use PX_PI(o, n, i + 1, c); assert o[i] * (PX(o, i + 1, c) * PI(o, n, c)) == (o[i] * PX(o, i + 1, c)) * PI(o, n, c); } }
lemma SI_high(o: [int]int, n: int, d: [int]int, i: int, c: int)
  requires 0 <= i <= c <= n;
  ensures SI(o, n, d, i) == high(o, n, d, i, c) * PI(o, n, c) + SI(o, n, d, c);
  decreases c - i;
{
  if i < c {
    use SI_high(o, n, d, i + 1, c);
    use PX_PI(o, n, i + 1, c);
    assert d[i] * (PX(o, i + 1, c) * PI(o, n, c)) == (d[i] * PX(o, i + 1, c)) * PI(o, n, c);
    assert (d[i] * PX(o, i + 1, c) + high(o, n, d, i + 1, c)) * PI(o, n, c) == (d[i] * PX(o, i + 1, c)) * PI(o, n, c) + high(o, n, d, i + 1, c) * PI(o, n, c);
  }
}
// the digit of a position is what the view computes from the row number
lemma SI_digit(o: [int]int, n: int, d: [int]int, c: int)
  property C20;
  requires 0 <= c < n && (forall j: int {o[j]} :: 0 <= j < n ==> 0 <= o[j]) && (forall j: int {d[j]} :: 0 <= j < n ==> 0 <= d[j] < o[j]);
  ensures (SI(o, n, d, 0) / PI(o, n, c + 1)) % o[c] == d[c];
{
  use SI_high(o, n, d, 0, c);
  use SI_bound(o, n, d, c + 1);
  use PI_nonneg(o, n, c + 1);
  let h = high(o, n, d, 0, c);
  assert h * (o[c] * PI(o, n, c + 1)) == (h * o[c]) * PI(o, n, c + 1);
  assert (h * o[c] + d[c]) * PI(o, n, c + 1) == (h * o[c]) * PI(o, n, c + 1) + d[c] * PI(o, n, c + 1);
  use divmod_unique(SI(o, n, d, 0), PI(o, n, c + 1), h * o[c] + d[c], SI(o, n, d, c + 1));
  use divmod_unique(h * o[c] + d[c], o[c], h, d[c]);
}

lemma PI_pos(o: [int]int, n: int, i: int)
  requires 0 <= i <= n && (forall j: int {o[j]} :: 0 <= j < n ==> 0 <= o[j]) && PI(o, n, 0) > 0;
  ensures PI(o, n, i) > 0;
  ensures i > 0 ==> o[i - 1] > 0;
  decreases i;
{ if i > 0 { use PI_pos(o, n, i - 1); use PI_nonneg(o, n, i); if o[i - 1] == 0 { assert PI(o, n, i - 1) == 0; } if PI(o, n, i) == 0 { assert PI(o, n, i - 1) == 0; } } }

macro tnode(ns, i) = ifaceptr(seq(ns)[i], "tui.node").node;
macro tpar(t, j) = tnode(t.nodes, vals(t.nodesByName)[seq(tnode(t.nodes, t.index).Factor.Given)[j]]);
macro tparents(t) = lam j: int :: len(tpar(t, j).Outcomes);
// the view's model: nodes are rendered nodes, every parent and table is there
macro okNodes(ns, index, byName) = 0 <= index < len(ns)
  && (forall i: int {seq(ns)[i]} :: 0 <= i < len(ns) ==> istype(seq(ns)[i], "tui.node") && ifaceptr(seq(ns)[i], "tui.node") != nil)
  && byName != nil && tnode(ns, index).Factor != nil
  && (forall j: int {seq(tnode(ns, index).Factor.Given)[j]} :: 0 <= j < len(tnode(ns, index).Factor.Given) ==>
        dom(byName)[seq(tnode(ns, index).Factor.Given)[j]] && 0 <= vals(byName)[seq(tnode(ns, index).Factor.Given)[j]] < len(ns));
macro okTable(t) = okNodes(t.nodes, t.index, t.nodesByName)
  && t.columns == len(tnode(t.nodes, t.index).Outcomes) && t.columns > 0
  && len(t.header) == len(tnode(t.nodes, t.index).Factor.Given) + t.columns
  && (forall c: int {seq(t.header)[c]} :: 0 <= c < len(t.header) ==> seq(t.header)[c] ==
       (c < len(tnode(t.nodes, t.index).Factor.Given) ? seq(tnode(t.nodes, t.index).Factor.Given)[c] : seq(tnode(t.nodes, t.index).Outcomes)[c - len(tnode(t.nodes, t.index).Factor.Given)]));

func tui.NewTable(ns, index, byName) returns (t)
  property C20;
  requires okNodes(ns, index, byName);
  requires dom(byName)[tnode(ns, index).Factor.For] && vals(byName)[tnode(ns, index).Factor.For] == index && len(tnode(ns, index).Outcomes) > 0;
  ensures @same t.nodes == ns && t.index == index && t.nodesByName == byName;
  ensures @header okTable(t);

func tui.Table.GetColumnCount(t) returns (r)
  property C20;
  requires t != nil && okTable(t);
  ensures r == len(tnode(t.nodes, t.index).Factor.Given) + len(tnode(t.nodes, t.index).Outcomes);

func tui.Table.GetRowCount(t) returns (r)
  property C20;
  requires t != nil && okTable(t);
  ensures @rows forall k: int {k * t.columns} :: len(tnode(t.nodes, t.index).Factor.Table) == k * t.columns ==> r == k + 1;

func tui.Table.GetCell(t, row, column) returns (r)
  property C20;
  requires t != nil && okTable(t) && 0 <= column < len(t.header) && 0 <= row <= PI(tparents(t), len(tnode(t.nodes, t.index).Factor.Given), 0);
  requires @table len(tnode(t.nodes, t.index).Factor.Table) == PI(tparents(t), len(tnode(t.nodes, t.index).Factor.Given), 0) * t.columns;
  allowfdiv0;
  ensures r != nil && fresh(r);
  ensures @head row == 0 ==> r.Text == seq(t.header)[column];
  ensures @parent row > 0 && column < len(tnode(t.nodes, t.index).Factor.Given) ==>
    (forall d: [int]int {SI(tparents(t), len(tnode(t.nodes, t.index).Factor.Given), d, 0)} ::
       (forall j: int {d[j]} :: 0 <= j < len(tnode(t.nodes, t.index).Factor.Given) ==> 0 <= d[j] < len(tpar(t, j).Outcomes))
       && SI(tparents(t), len(tnode(t.nodes, t.index).Factor.Given), d, 0) == row - 1
       ==> r.Text == seq(tpar(t, column).Outcomes)[d[column]]);
  ensures @utility row > 0 && column >= len(tnode(t.nodes, t.index).Factor.Given) && tnode(t.nodes, t.index).NodeType == 2 ==>
    r.Text == ext("fmt.Sprintf", 0, "%9.3f", seq(tnode(t.nodes, t.index).Factor.Table)[(row - 1) * t.columns + (column - len(tnode(t.nodes, t.index).Factor.Given))]);
  ensures @percent row > 0 && column >= len(tnode(t.nodes, t.index).Factor.Given) && tnode(t.nodes, t.index).NodeType != 2 ==>
    r.Text == ext("fmt.Sprintf", 0, "%7.3f%%", 100.0 * seq(tnode(t.nodes, t.index).Factor.Table)[(row - 1) * t.columns + (column - len(tnode(t.nodes, t.index).Factor.Given))]
       / total(seq(tnode(t.nodes, t.index).Factor.Table), (row - 1) * t.columns, t.columns));
  entry {
    let n = len(tnode(t.nodes, t.index).Factor.Given);
    if row > 0 {
      use PI_pos(tparents(t), n, 0);
      if column < n {
        use PI_pos(tparents(t), n, column);
        use PI_pos(tparents(t), n, column + 1);
        use forall d: [int]int {SI(tparents(t), n, d, 0)} :: (forall j: int {d[j]} :: 0 <= j < n ==> 0 <= d[j] < len(tpar(t, j).Outcomes)) ==> SI_digit(tparents(t), n, d, column);
      } else {
        use mul_nonneg(row - 1, t.columns);
        use mul_mono(row, PI(tparents(t), n, 0), t.columns);
      }
    }
  }
  loop 0 {
    invariant column <= i < len(tnode(t.nodes, t.index).Factor.Given);
    invariant @stride stride == PI(tparents(t), len(tnode(t.nodes, t.index).Factor.Given), i + 1);
    decreases i;
  }
  loop 1 {
    invariant @sum sum == total(seq(tnode(t.nodes, t.index).Factor.Table), row * t.columns, $k);
  }
