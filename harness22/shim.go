// Added to package tui by the overlay of the verification build only: drives
// an App without a terminal.
package tui

import (
	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn"
	"github.com/rivo/tview"
)

type VerifApp struct{ a *App }

func VerifNew(net *bbn.Network, evidence map[string]string, file string) (*VerifApp, error) {
	a := New(file, evidence, "", "", ',')
	a.network = net
	nodes := net.Variables()
	a.nodes = make([]Node, len(nodes))
	a.nodesByName = make(map[string]int, len(nodes))
	for i, n := range nodes {
		a.nodes[i] = NewNode(n)
		a.nodesByName[n.Name] = i
	}
	policy, err := a.network.SolvePolicies(true)
	if err != nil {
		return nil, err
	}
	for name, f := range policy {
		a.nodes[a.nodesByName[name]].Node().Factor = &f
	}
	if err := a.updateMarginals(); err != nil {
		return nil, err
	}
	a.createCanvas()
	a.createWidgets()
	a.render(false)
	a.app = tview.NewApplication()
	a.pages = tview.NewPages()
	main := a.createMainPanel()
	a.pages.AddAndSwitchToPage("Graph", main, true)
	a.tableDialog = a.createTablePanel()
	a.pages.AddPage("Table", a.tableDialog, true, false)
	a.helpDialog = a.createHelpPanel()
	a.pages.AddPage("Help", a.helpDialog, true, false)
	a.infoDialog = a.createInfoPanel()
	a.pages.AddPage("Info", a.infoDialog, true, false)
	a.graph.SetRect(0, 0, 200, 200)
	return &VerifApp{a}, nil
}

// Key sends a key press to whatever page is in front.
func (v *VerifApp) Key(key tcell.Key, r rune) {
	ev := tcell.NewEventKey(key, r, 0)
	front, _ := v.a.pages.GetFrontPage()
	switch front {
	case "Table":
		v.a.inputTable(ev)
	case "Help":
		v.a.inputHelp(ev)
	case "Info":
		v.a.inputInfo(ev)
	default:
		v.a.inputMainPanel(ev)
	}
}

// Click sends a mouse click at a cell of the graph.
func (v *VerifApp) Click(x, y int, right bool) {
	bx, by, _, _ := v.a.graph.GetInnerRect()
	sy, sx := v.a.graph.GetScrollOffset()
	act := tview.MouseLeftClick
	btn := tcell.Button1
	if right {
		act, btn = tview.MouseRightClick, tcell.Button2
	}
	v.a.mouseInputGraph(act, tcell.NewEventMouse(x+bx-sx, y+by-sy, btn, 0))
}

func (v *VerifApp) Front() string {
	f, _ := v.a.pages.GetFrontPage()
	return f
}

func (v *VerifApp) Selected() (int, int)           { return v.a.selectedNode, v.a.selectedState }
func (v *VerifApp) Evidence() map[string]string    { return v.a.evidence }
func (v *VerifApp) IgnorePolicies() bool           { return v.a.ignorePolicies }
func (v *VerifApp) Marginals() map[string][]float64 { return v.a.marginals }
func (v *VerifApp) Nodes() []Node                  { return v.a.nodes }
func (v *VerifApp) Canvas() [][]rune               { return v.a.canvas }
