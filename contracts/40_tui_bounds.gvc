// internal/tui: box geometry and hit testing.
macro inBox(b, x, y) = b.X <= x && x < b.X + b.W && b.Y <= y && y < b.Y + b.H;

func tui.NewBounds(x, y, w, h) returns (r)
  property C21;
  ensures r.X == x && r.Y == y && r.W == w && r.H == h;

func tui.Bounds.Contains(b, x, y) returns (r)
  property C21 C22;
  requires b != nil;
  ensures r <==> inBox(b, x, y);

func tui.Bounds.Centroid(b) returns (x, y)
  property C21;
  requires b != nil && b.W > 0 && b.H > 0;
  ensures @inside inBox(b, x, y);
  ensures @middle 2 * (x - b.X) <= b.W < 2 * (x - b.X) + 2 && 2 * (y - b.Y) <= b.H < 2 * (y - b.Y) + 2;

func tui.Bounds.Extend(b, o) returns ()
  property C21;
  requires b != nil && o != nil && b.W >= 0 && b.H >= 0 && o.W >= 0 && o.H >= 0;
  modifies *b;
  ensures @left b.X == (old(o.X) < old(b.X) ? old(o.X) : old(b.X));
  ensures @top b.Y == (old(o.Y) < old(b.Y) ? old(o.Y) : old(b.Y));
  ensures @right b.X + b.W == (old(o.X + o.W) > old(b.X + b.W) ? old(o.X + o.W) : old(b.X + b.W));
  ensures @bottom b.Y + b.H == (old(o.Y + o.H) > old(b.Y + b.H) ? old(o.Y + o.H) : old(b.Y + b.H));
  ensures @size b.W >= 0 && b.H >= 0;
  ensures @covers forall x: int, y: int :: inBox(old(*b), x, y) || inBox(old(*o), x, y) ==> inBox((*b), x, y);

// The box Extend yields is the smallest: every box that covers both operands covers it.
lemma Extend_smallest(a: tui.Bounds, b: tui.Bounds, r: tui.Bounds, c: tui.Bounds)
  property C21;
  requires r.X == (b.X < a.X ? b.X : a.X) && r.Y == (b.Y < a.Y ? b.Y : a.Y);
  requires r.X + r.W == (b.X + b.W > a.X + a.W ? b.X + b.W : a.X + a.W) && r.Y + r.H == (b.Y + b.H > a.Y + a.H ? b.Y + b.H : a.Y + a.H);
  requires c.X <= a.X && c.Y <= a.Y && a.X + a.W <= c.X + c.W && a.Y + a.H <= c.Y + c.H;
  requires c.X <= b.X && c.Y <= b.Y && b.X + b.W <= c.X + c.W && b.Y + b.H <= c.Y + c.H;
  ensures c.X <= r.X && c.Y <= r.Y && r.X + r.W <= c.X + c.W && r.Y + r.H <= c.Y + c.H;
{}

func tui.node.SelectedOutcome(n, x, y) returns (i, ok)
  property C21 C22;
  requires n != nil;
  ensures @hit ok <==> inBox(n.bounds, x, y) && n.bounds.Y + 2 <= y < n.bounds.Y + 2 + len(n.node.Outcomes);
  ensures @which ok ==> i == y - n.bounds.Y - 2 && 0 <= i < len(n.node.Outcomes);
  ensures @none !ok ==> i == -1;
  loop 0 {
    invariant y >= n.bounds.Y + $k + 2 || y < n.bounds.Y + 2;
  }
