// internal/tui/input.go: selection and evidence of the interactive view.

func tcell.EventKey.Key(e) returns (k)
  trusted "tcell: reads the event";
func tcell.EventKey.Rune(e) returns (k)
  trusted "tcell: reads the event";
func tcell.EventMouse.Position(e) returns (x, y)
  trusted "tcell: reads the event";
func unicode.IsDigit(r) returns (b)
  trusted "standard library: reads its argument";
func tview.Application.Stop(p) returns ()
  trusted "tview: changes only the application object";
func tview.Application.SetFocus(p, f) returns (r)
  trusted "tview: changes only the application object";
func tview.Pages.ShowPage(p, name) returns (r)
  trusted "tview: changes only the pages object";
func tview.Pages.HidePage(p, name) returns (r)
  trusted "tview: changes only the pages object";
func tview.Pages.GetFrontPage(p) returns (name, item)
  trusted "tview: reads the pages object";
func tview.Box.GetInnerRect(b) returns (x, y, w, h)
  trusted "tview: reads the box";
func tview.TextView.GetScrollOffset(b) returns (x, y)
  trusted "tview: reads the text view";
func tview.Box.SetBorderColor(b, c) returns (r)
  trusted "tview: changes only the box";
func tui.App.render(a, isUpdate) returns ()
  trusted "drawing: writes only the canvas, its colours, the nodes' drawing buffers and the text view; checked by the bounded search of C22 only";
  modifies forall s: []rune :: s, forall s: []tui.Color :: s;
func tui.App.showTable(a) returns ()
  trusted "shows the table dialog: changes only tview objects; checked by the bounded search of C22 only";
func tui.App.saveNetwork(a) returns ()
  trusted "writes a file; checked by the bounded search of C22 only";

// every evidence entry is an outcome of a node that is not a utility node
macro evOK(nodes, ED, EV) = (forall s: str {ED[s]} :: ED[s] ==> (exists i: int {seq(nodes)[i]} :: 0 <= i < len(nodes) && tnode(nodes, i).Name == s && tnode(nodes, i).NodeType != 2 && isOut(seq(tnode(nodes, i).Outcomes), len(tnode(nodes, i).Outcomes), EV[s])));
macro boxes(nodes) = (forall i: int {seq(nodes)[i]} :: 0 <= i < len(nodes) ==> ifaceptr(seq(nodes)[i], "tui.node").bounds.W >= 0 && ifaceptr(seq(nodes)[i], "tui.node").bounds.H >= 0);
// the state of the view between two inputs
macro okView(a) = a != nil && len(a.canvas) >= 1 && 0 <= a.selectedNode < len(a.nodes) && 0 <= a.selectedState < len(tnode(a.nodes, a.selectedNode).Outcomes) && a.evidence != nil && evOK(a.nodes, dom(a.evidence), vals(a.evidence)) && boxes(a.nodes) && a.graph != nil && a.graph.Box != nil;
// the network behind it can be solved, and all its decisions are
macro okModel(a) = a.network != nil && netOK(a.network) && okPols(a.network) && okPolVars(a.network) && complete(a.network) && nodesOf(a.network, a.nodes) && totalOfUtils(a.network) && okLookup(a.network, a.network.variableNames)
  && (forall i: int {vs(a.network)[i]} :: 0 <= i < nv(a.network) && vs(a.network)[i].NodeType == 1 ==> hasPol(a.network, vs(a.network)[i].Name))
  && (forall i: int {vs(a.network)[i]} :: uNode(a.network, i) ==> len(vs(a.network)[i].Outcomes) == 1);
macro sameTables(a) = a.network.variables == old(a.network.variables) && a.network.factors == old(a.network.factors) && a.network.totalUtilityIndex == old(a.network.totalUtilityIndex) && a.network.policies == old(a.network.policies);
macro sameView(a) = sameTables(a) && a.nodes == old(a.nodes) && a.nodesByName == old(a.nodesByName) && a.network == old(a.network) && a.evidence == old(a.evidence) && a.graph == old(a.graph) && a.pages == old(a.pages) && a.app == old(a.app) && a.canvas == old(a.canvas);

func tui.App.updateMarginals(a) returns (err)
  modular C22;
  requires okView(a) && okModel(a);
  modifies *a, *a.network;
  ensures @ok err == nil && okView(a) && okModel(a);
  ensures @same sameView(a) && a.selectedNode == old(a.selectedNode) && a.selectedState == old(a.selectedState);
  entry { obtain rk: [str]int :: rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  exit { assert rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  aftercall Solve { assert $r1 == nil; }
  beforecall Solve {
    assert rankedN(fs($a0), nf($a0), gvn($a0), rk);
    fix i: int | 0 <= i < nv(a.network) && vs(a.network)[i].NodeType == 2 { if dom(a.evidence)[vs(a.network)[i].Name] { obtain j: int :: 0 <= j < len(a.nodes) && tnode(a.nodes, j).Name == vs(a.network)[i].Name && tnode(a.nodes, j).NodeType != 2; } } show !dom(a.evidence)[vs(a.network)[i].Name];
  }

func tui.App.inputEnter(a) returns (err)
  modular C22;
  requires okView(a) && okModel(a);
  modifies *a, *a.network, a.evidence;
  ensures @ok err == nil && okView(a) && okModel(a);
  ensures @same sameView(a) && a.selectedNode == old(a.selectedNode) && a.selectedState == old(a.selectedState);
  ensures @utility tnode(a.nodes, a.selectedNode).NodeType == 2 ==> dom(a.evidence) == old(dom(a.evidence)) && vals(a.evidence) == old(vals(a.evidence));
  ensures @others forall s: str {dom(a.evidence)[s]} {vals(a.evidence)[s]} :: s != tnode(a.nodes, a.selectedNode).Name ==> (dom(a.evidence)[s] <==> old(dom(a.evidence))[s]) && (dom(a.evidence)[s] ==> vals(a.evidence)[s] == old(vals(a.evidence))[s]);
  ensures @toggles tnode(a.nodes, a.selectedNode).NodeType != 2 ==>
     (old(dom(a.evidence))[tnode(a.nodes, a.selectedNode).Name] && old(vals(a.evidence))[tnode(a.nodes, a.selectedNode).Name] == seq(tnode(a.nodes, a.selectedNode).Outcomes)[a.selectedState] ?
        !dom(a.evidence)[tnode(a.nodes, a.selectedNode).Name]
      : dom(a.evidence)[tnode(a.nodes, a.selectedNode).Name] && vals(a.evidence)[tnode(a.nodes, a.selectedNode).Name] == seq(tnode(a.nodes, a.selectedNode).Outcomes)[a.selectedState]);
  entry { obtain rk: [str]int :: rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); let ED = dom(a.evidence); let EV = vals(a.evidence); let sn = a.selectedNode; let own = tnode(a.nodes, a.selectedNode).Name; let nd = seq(a.nodes); let nn = len(a.nodes); }
  beforecall updateMarginals {
    assert rankedN(fs(a.network), nf(a.network), gvn(a.network), rk);
    let ED1 = dom(a.evidence); let EV1 = vals(a.evidence);
    fix s: str | ED1[s] {
      if s == own { assert isOut(seq(tnode(a.nodes, sn).Outcomes), len(tnode(a.nodes, sn).Outcomes), EV1[s]); }
      else { assert ED[s] && EV1[s] == EV[s]; obtain i: int :: 0 <= i < len(a.nodes) && tnode(a.nodes, i).Name == s && tnode(a.nodes, i).NodeType != 2 && isOut(seq(tnode(a.nodes, i).Outcomes), len(tnode(a.nodes, i).Outcomes), EV[s]); }
    } show exists i: int {seq(a.nodes)[i]} :: 0 <= i < len(a.nodes) && tnode(a.nodes, i).Name == s && tnode(a.nodes, i).NodeType != 2 && isOut(seq(tnode(a.nodes, i).Outcomes), len(tnode(a.nodes, i).Outcomes), EV1[s]);
  }

func tui.App.selectNextNode(a) returns ()
  modular C22;
  requires okView(a) && okModel(a);
  modifies *a, forall s: []rune :: s, forall s: []tui.Color :: s;
  ensures @ok okView(a) && okModel(a);
  ensures @next sameView(a) && a.selectedNode == (old(a.selectedNode) + 1 == len(a.nodes) ? 0 : old(a.selectedNode) + 1) && a.selectedState == 0;
  entry { obtain rk: [str]int :: rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  exit { assert rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }

func tui.App.selectPreviousNode(a) returns ()
  modular C22;
  requires okView(a) && okModel(a);
  modifies *a, forall s: []rune :: s, forall s: []tui.Color :: s;
  ensures @ok okView(a) && okModel(a);
  ensures @previous sameView(a) && a.selectedNode == (old(a.selectedNode) == 0 ? len(a.nodes) - 1 : old(a.selectedNode) - 1) && a.selectedState == 0;
  entry { obtain rk: [str]int :: rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  exit { assert rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }

func tui.App.selectNodeOutcome(a, index) returns ()
  modular C22;
  requires okView(a) && okModel(a);
  modifies *a, forall s: []rune :: s, forall s: []tui.Color :: s;
  ensures @ok okView(a) && okModel(a);
  ensures @same sameView(a) && a.selectedNode == old(a.selectedNode);
  entry { obtain rk: [str]int :: rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  exit { assert rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }

func tui.App.toggleIgnorePolicy(a) returns ()
  modular C22;
  requires okView(a) && okModel(a);
  modifies *a, *a.network, forall s: []rune :: s, forall s: []tui.Color :: s;
  ensures @ok okView(a) && okModel(a);
  ensures @same sameView(a) && a.selectedNode == old(a.selectedNode) && a.selectedState == old(a.selectedState);
  entry { obtain rk: [str]int :: rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  beforecall updateMarginals { assert rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }

macro nodesTyped(nodes) = (forall i: int {seq(nodes)[i]} :: 0 <= i < len(nodes) ==> istype(seq(nodes)[i], "tui.node") && ifaceptr(seq(nodes)[i], "tui.node") != nil);
macro sameBut(a) = sameTables(a) && a.nodes == old(a.nodes) && a.nodesByName == old(a.nodesByName) && a.network == old(a.network) && a.evidence == old(a.evidence) && a.graph == old(a.graph) && a.pages == old(a.pages) && a.app == old(a.app);
func tui.App.createCanvas(a) returns ()
  property C22;
  requires a != nil && nodesTyped(a.nodes);
  requires @boxes boxes(a.nodes);
  modifies *a;
  ensures @same sameBut(a) && a.selectedNode == old(a.selectedNode) && a.selectedState == old(a.selectedState);
  ensures @rows len(a.canvas) >= 1 && len(a.colors) == len(a.canvas);
  ensures @covers forall i: int {seq(a.nodes)[i]} :: 0 <= i < len(a.nodes) && ifaceptr(seq(a.nodes)[i], "tui.node").bounds.Y >= 0 ==> ifaceptr(seq(a.nodes)[i], "tui.node").bounds.Y + ifaceptr(seq(a.nodes)[i], "tui.node").bounds.H <= len(a.canvas);
  loop 0 {
    invariant bounds.X <= 0 && bounds.Y <= 0 && bounds.X + bounds.W >= 1 && bounds.Y + bounds.H >= 1;
    invariant forall i: int {seq(a.nodes)[i]} :: 0 <= i < $k ==> ifaceptr(seq(a.nodes)[i], "tui.node").bounds.Y + ifaceptr(seq(a.nodes)[i], "tui.node").bounds.H <= bounds.Y + bounds.H;
  }
  loop 1 {
    modifies a.canvas, a.colors;
    invariant a.canvas == pre(a.canvas) && a.colors == pre(a.colors);
  }

// the nodes are separate objects
macro ownNodes(a) = (forall i: int, j: int {seq(a.nodes)[i], seq(a.nodes)[j]} :: 0 <= i < j < len(a.nodes) ==> ifaceptr(seq(a.nodes)[i], "tui.node") != ifaceptr(seq(a.nodes)[j], "tui.node"));

func tui.App.moveNode(a, event) returns (r)
  modular C22;
  requires okView(a) && okModel(a);
  modifies *a, a.network.variables, *ifaceptr(seq(a.nodes)[a.selectedNode], "tui.node"), forall s: []rune :: s, forall s: []tui.Color :: s;
  ensures @ok okView(a) && okModel(a);
  ensures @same sameBut(a) && a.selectedNode == old(a.selectedNode) && a.selectedState == old(a.selectedState);
  entry { obtain rk: [str]int :: rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  exit { assert rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }

macro selNode(a) = ifaceptr(seq(a.nodes)[a.selectedNode], "tui.node");
func tui.App.inputMainPanel(a, event) returns (r)
  modular C22;
  requires okView(a) && okModel(a);
  modifies *a, *a.network, a.evidence, a.network.variables, *selNode(a), forall s: []rune :: s, forall s: []tui.Color :: s;
  ensures @ok okView(a) && okModel(a);
  ensures @same sameBut(a);
  entry { obtain rk: [str]int :: rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  beforecall inputEnter { assert rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  exit { assert rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }

func tui.App.mousePosInGraph(a, x, y) returns (r, s)
  property C22;
  requires a != nil && a.graph != nil && a.graph.Box != nil;

func tui.App.mouseInputGraph(a, action, event) returns (r, ev)
  modular C22;
  requires okView(a) && okModel(a);
  modifies *a, *a.network, a.evidence, forall s: []rune :: s, forall s: []tui.Color :: s;
  ensures @ok okView(a) && okModel(a);
  ensures @same sameView(a);
  entry { obtain rk: [str]int :: rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  beforecall inputEnter { assert rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  exit { assert rankedN(fs(a.network), nf(a.network), gvn(a.network), rk); }
  loop 0 {
    modifies *a, *a.network, a.evidence, forall s: []rune :: s, forall s: []tui.Color :: s;
    invariant *a == pre(*a) && *(a.network) == pre(*(a.network)) && dom(a.evidence) == pre(dom(a.evidence)) && vals(a.evidence) == pre(vals(a.evidence));
  }
  loop 1 {
    modifies *a, *a.network, a.evidence, forall s: []rune :: s, forall s: []tui.Color :: s;
    invariant *a == pre(*a) && *(a.network) == pre(*(a.network)) && dom(a.evidence) == pre(dom(a.evidence)) && vals(a.evidence) == pre(vals(a.evidence));
  }

func tui.App.mouseInputTable(a, action, event) returns (r, ev)
  property C22;
  requires a != nil;
func tui.App.mouseInputHelp(a, action, event) returns (r, ev)
  property C22;
  requires a != nil;
func tui.App.mouseInputInfo(a, action, event) returns (r, ev)
  property C22;
  requires a != nil;
func tui.App.inputTable(a, event) returns (r)
  property C22;
  requires a != nil && event != nil;
func tui.App.inputHelp(a, event) returns (r)
  property C22;
  requires a != nil && event != nil;
func tui.App.inputInfo(a, event) returns (r)
  property C22;
  requires a != nil && event != nil;
