// internal/tui/node.go: boxes and rendering.
macro glyphs() = len(global("tui.BorderH")) == 2 && len(global("tui.BorderV")) == 2 && len(global("tui.BorderNE")) == 2 && len(global("tui.BorderNW")) == 2
  && len(global("tui.BorderSE")) == 2 && len(global("tui.BorderSW")) == 2 && len(global("tui.Partial")) == 7;
func tui.init() returns ()
  property C21;

  ensures glyphs();

// the drawing area of a node fills its box, and the box has a line for every outcome
macro okNode(n) = n.bounds.W >= 14 + 4 && n.bounds.H == len(n.node.Outcomes) + (n.node.NodeType == 2 ? 4 : 3)
  && 3 <= n.barsX <= n.bounds.W - (n.node.NodeType == 2 ? 15 : 20)
  && len(n.runes) == n.bounds.H && len(n.colors) == n.bounds.H
  && (forall i: int {seq(n.runes)[i]} :: 0 <= i < n.bounds.H ==> len(seq(n.runes)[i]) == n.bounds.W)
  && (forall i: int {seq(n.colors)[i]} :: 0 <= i < n.bounds.H ==> len(seq(n.colors)[i]) == n.bounds.W);

func tui.node.drawBorder(n, selected) returns ()
  property C21;
  requires n != nil && okNode(n) && glyphs();
  modifies forall i: int :: 0 <= i < len(n.runes) ==> n.runes[i];
  loop 0 { invariant 1 <= i <= n.bounds.W - 1; decreases n.bounds.W - i; }
  loop 1 { invariant 1 <= i <= n.bounds.H - 1; decreases n.bounds.H - i; }

func tui.node.drawTitle(n) returns ()
  property C21;
  requires n != nil && okNode(n);
  modifies forall i: int :: 0 <= i < len(n.runes) ==> n.runes[i];

func tui.node.drawStateLabels(n) returns ()
  property C21;
  requires n != nil && okNode(n);
  modifies forall i: int :: 0 <= i < len(n.runes) ==> n.runes[i];

func tui.node.drawUtility(n, probs) returns ()
  property C21;
  requires n != nil && okNode(n) && n.node.NodeType == 2 && len(probs) <= len(n.node.Outcomes) + 1;
  modifies forall i: int :: 0 <= i < len(n.runes) ==> n.runes[i];

func math.Modf(f) returns (w, d)
  trusted "standard library: splits into integer part and fraction";
  ensures f >= 0.0 ==> 0.0 <= d < 1.0 && w + d == f && (exists k: int :: w == real(k) && 0 <= k);

func tui.node.drawBars(n, probs, selected, state, evidence) returns ()
  property C21;
  requires n != nil && okNode(n) && n.node.NodeType != 2 && len(probs) <= len(n.node.Outcomes) && glyphs();
  requires @unit forall i: int {seq(probs)[i]} :: 0 <= i < len(probs) ==> isnan(seq(probs)[i]) || 0.0 <= seq(probs)[i] <= 1.0;
  modifies forall i: int :: 0 <= i < len(n.runes) ==> n.runes[i];
  loop 1 { invariant 0 <= j; }
  loop 2 { invariant 0 <= j; }

func tui.node.Render(n, probs, selected, state, evidence) returns (runes, colors)
  property C21;
  requires n != nil && okNode(n) && glyphs();
  requires n.node.NodeType == 2 ? len(probs) <= len(n.node.Outcomes) + 1 : len(probs) <= len(n.node.Outcomes);
  requires @unit n.node.NodeType != 2 ==> (forall i: int {seq(probs)[i]} :: 0 <= i < len(probs) ==> isnan(seq(probs)[i]) || 0.0 <= seq(probs)[i] <= 1.0);
  modifies forall i: int :: 0 <= i < len(n.runes) ==> n.runes[i];
  ensures @fills len(runes) == n.bounds.H && len(colors) == n.bounds.H && okNode(n);
  ensures @rows forall i: int {seq(runes)[i]} :: 0 <= i < n.bounds.H ==> len(seq(runes)[i]) == n.bounds.W;
  ensures @colors forall i: int {seq(colors)[i]} :: 0 <= i < n.bounds.H ==> len(seq(colors)[i]) == n.bounds.W;

func tui.NewNode(v) returns (r)
  property C21;
  requires glyphs();
  maypanic;
  ensures istype(r, "tui.node") && fresh(ifaceptr(r, "tui.node"));
  ensures @box okNode(ifaceptr(r, "tui.node"));
  ensures @place ifaceptr(r, "tui.node").bounds.X == v.Position[0] && ifaceptr(r, "tui.node").bounds.Y == v.Position[1];
  ensures @node ifaceptr(r, "tui.node").node == v;
  loop 0 { invariant 0 <= maxStateLen; }
  loop 1 {
    modifies runes, colors;
    invariant fresh(runes) && fresh(colors);
    invariant forall i: int {seq(runes)[i]} :: 0 <= i < $k ==> fresh(seq(runes)[i]) && len(seq(runes)[i]) == bounds.W;
    invariant forall i: int {seq(colors)[i]} :: 0 <= i < $k ==> fresh(seq(colors)[i]) && len(seq(colors)[i]) == bounds.W;
  }
