From 2bc63bd15aa3452f3030dbd4843df722d54fff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:45 +0000
Subject: [PATCH 01/11] fix: count each utility sample once when training

AddSample incremented the row counter twice for utility nodes, so trained
utilities were half the mean of the observed values.
---
 training.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/training.go b/training.go
index d097f03..a93e1dd 100644
--- a/training.go
+++ b/training.go
@@ -98,7 +98,6 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 				continue
 			}
 			t.data[i][idx][0] += u
-			t.counter[i][idx]++
 		} else {
 			s := sample[i]
 			if s < 0 {
-- 
2.43.0


From 1d34b0cb7d64de44f1a3fe8f4d46b243725eea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:46 +0000
Subject: [PATCH 02/11] fix: Factor.Row returns the addressed row

The row number was used as offset into the flat table, so every row but the
first was wrong for tables with more than one column.
---
 network.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index ffc915b..74979ae 100644
--- a/network.go
+++ b/network.go
@@ -39,7 +39,8 @@ func (f *Factor) Row(indices []int) ([]float64, bool) {
 	if !ok {
 		return nil, false
 	}
-	return f.Table[idx : idx+f.columns], true
+	start := idx * f.columns
+	return f.Table[start : start+f.columns], true
 }
 
 // rowIndex returns a row starting index for the
-- 
2.43.0


From da2de65650c9dba2320418cd4c1cb0318097744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:47 +0000
Subject: [PATCH 03/11] fix: index parents from the first in given, given-not
 and given-excl

The index was used as bit position, which counts from the last parent, and an
index without a parent crashed or gave a constant table.
---
 logic/given.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/logic/given.go b/logic/given.go
index c103e34..cd9ee72 100644
--- a/logic/given.go
+++ b/logic/given.go
@@ -24,12 +24,16 @@ func (f *givenFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenFactor) Table(given int) ([]float64, error) {
-	rows := uint(1) << uint(given) // 2^given
+	if f.Index < 0 || f.Index >= given {
+		return nil, fmt.Errorf("logic operator index %d out of range for %d operands", f.Index, given)
+	}
+	bit := uint(given - 1 - f.Index) // last parent varies fastest
+	rows := uint(1) << uint(given)   // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & (1 << bit)) == 0
 		if isTrue {
 			table[i*2] = 1
 		} else {
@@ -59,12 +63,16 @@ func (f *givenNotFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenNotFactor) Table(given int) ([]float64, error) {
-	rows := uint(1) << uint(given) // 2^given
+	if f.Index < 0 || f.Index >= given {
+		return nil, fmt.Errorf("logic operator index %d out of range for %d operands", f.Index, given)
+	}
+	bit := uint(given - 1 - f.Index) // last parent varies fastest
+	rows := uint(1) << uint(given)   // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isFalse := (i & (1 << f.Index)) != 0
+		isFalse := (i & (1 << bit)) != 0
 		if isFalse {
 			table[i*2] = 1
 		} else {
@@ -94,12 +102,16 @@ func (f *givenExclFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenExclFactor) Table(given int) ([]float64, error) {
-	rows := uint(1) << uint(given) // 2^given
+	if f.Index < 0 || f.Index >= given {
+		return nil, fmt.Errorf("logic operator index %d out of range for %d operands", f.Index, given)
+	}
+	bit := uint(given - 1 - f.Index) // last parent varies fastest
+	rows := uint(1) << uint(given)   // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & (1 << bit)) == 0
 		if !isTrue {
 			table[i*2+1] = 1
 			continue
@@ -107,7 +119,7 @@ func (f *givenExclFactor) Table(given int) ([]float64, error) {
 
 		otherTrue := false
 		for j := 0; j < given; j++ {
-			if j == f.Index {
+			if j == int(bit) {
 				continue
 			}
 			if (i & (1 << j)) == 0 {
-- 
2.43.0


From bd0c957487d0db54aa3332c6ca8b3dac61c4e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:48 +0000
Subject: [PATCH 04/11] fix: accept the no-data value in utility columns of
 training data

The missing value was recognised but then parsed as a number anyway, which
failed.
---
 internal/tui/training.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/training.go b/internal/tui/training.go
index 9fcd7e4..90f194a 100644
--- a/internal/tui/training.go
+++ b/internal/tui/training.go
@@ -52,6 +52,7 @@ func TrainNetwork(net *bbn.Network, nodes []bbn.Variable, dataFile, noData strin
 				var err error
 				if record[idx] == noData {
 					utility[i] = math.NaN()
+					continue
 				}
 				utility[i], err = strconv.ParseFloat(record[idx], 64)
 				if err != nil {
-- 
2.43.0


From 81dea95c19a08c9072f72ccfb3eb5cd96273433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:49 +0000
Subject: [PATCH 05/11] fix: keep network info and node colors when writing
 YAML

---
 yml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yml.go b/yml.go
index 4527cca..93b906f 100644
--- a/yml.go
+++ b/yml.go
@@ -146,12 +146,14 @@ func ToYAML(network *Network) ([]byte, error) {
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
 			Position: v.Position,
+			Color:    v.Color,
 			Table:    table,
 		}
 	}
 
 	net := networkYaml{
 		Name:      network.Name(),
+		Info:      network.Info(),
 		Variables: variables,
 	}
 
-- 
2.43.0


From 6e46b767a34ea880ae86de26f9ca80b5919e6e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 06/11] fix: report BIF-XML variables without a definition
 instead of crashing

---
 xml.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xml.go b/xml.go
index 2c2d591..a925a12 100644
--- a/xml.go
+++ b/xml.go
@@ -52,7 +52,10 @@ func FromBIFXML(content []byte) (*Network, error) {
 	variables := make([]Variable, len(bifNet.Network.Variables))
 	factors := []Factor{}
 	for i, variable := range bifNet.Network.Variables {
-		def := defs[variable.Name]
+		def, ok := defs[variable.Name]
+		if !ok {
+			return nil, fmt.Errorf("no definition for node '%s'", variable.Name)
+		}
 
 		columns := len(variable.Outcomes)
 		tableValues := strings.Fields(def.Table)
-- 
2.43.0


From 837832cb8d0d44679c77aa0bfbbc44755391437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:52 +0000
Subject: [PATCH 07/11] fix: report utility nodes without a factor instead of
 crashing

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index 74979ae..ced4e01 100644
--- a/network.go
+++ b/network.go
@@ -174,6 +174,9 @@ func (n *Network) prepareUtilityNodes(varNames map[string]*Variable) error {
 		if v.NodeType != ve.UtilityNode {
 			continue
 		}
+		if v.Factor == nil {
+			return fmt.Errorf("utility node %s has no factor", v.Name)
+		}
 		hasUtilParents := false
 		hasOtherParents := false
 		for _, parent := range v.Factor.Given {
-- 
2.43.0


From 9d63a2b6181cbe1304d7af33766e2b630c34dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:53 +0000
Subject: [PATCH 08/11] fix: use the no-data value given to bbni

---
 internal/tui/app.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index bfacebd..933b5ab 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -44,6 +44,7 @@ func New(path string, evidence map[string]string, trainingFile, noData string, c
 		file:         path,
 		trainingFile: trainingFile,
 		csvDelimiter: csvDelimiter,
+		noData:       noData,
 		evidence:     evidence,
 	}
 }
-- 
2.43.0


From 99e50bf00877dd46a490265c5a64f9a4bed682ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:54 +0000
Subject: [PATCH 09/11] fix: reject duplicate variable IDs as intended

The IDs were never recorded, so the check for duplicates had no effect.
---
 ve/variables.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ve/variables.go b/ve/variables.go
index eacaf05..cb6bc78 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -25,6 +25,7 @@ func (v *Variables) AddVariable(id int, nodeType NodeType, outcomes uint16) Vari
 	if _, ok := v.ids[id]; ok {
 		panic(fmt.Sprintf("there is already a variable with ID %d", id))
 	}
+	v.ids[id] = true
 	v.variables = append(v.variables,
 		Variable{
 			id:       id,
-- 
2.43.0


From b36b2f3bea1eef01813bc53b5022d2c7f3f6433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:23 +0000
Subject: [PATCH 10/11] fix: reset the selected outcome when another node is
 clicked

The outcome selected for the previous node was kept, which could lie outside
the new node's outcomes and crashed on Enter.
---
 internal/tui/input.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 92ac2a2..08fbdbb 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -206,6 +206,9 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
+				if i != a.selectedNode {
+					a.selectedState = 0
+				}
 				a.selectedNode = i
 				if outcome, ok := node.SelectedOutcome(x, y); ok {
 					a.selectedState = outcome
@@ -222,6 +225,9 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
+				if i != a.selectedNode {
+					a.selectedState = 0
+				}
 				a.selectedNode = i
 				a.render(true)
 				a.showTable()
-- 
2.43.0


From 336f671f12e055ca0abc4b8b1ea700b1bbb58e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:24 +0000
Subject: [PATCH 11/11] fix: ignore digit keys of other scripts instead of
 crashing

---
 internal/tui/input.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 08fbdbb..8b941a6 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -312,7 +312,8 @@ func (a *App) selectPreviousNode() {
 func (a *App) selectNodeOutcome(index string) {
 	idx, err := strconv.Atoi(index)
 	if err != nil {
-		panic(err)
+		// digits of other scripts are not outcome numbers
+		return
 	}
 	idx -= 1
 	if idx >= 0 && idx < len(a.nodes[a.selectedNode].Node().Outcomes) {
-- 
2.43.0

