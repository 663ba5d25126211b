#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the file stays well-formed).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Query answers are the exact posterior of the network",
  "For every well-formed network in which no unresolved decision remains, and every evidence of positive probability, the distribution returned for each query variable equals the conditional distribution obtained by multiplying all row-normalised tables and summing over every assignment consistent with the evidence. The joint factor returned alongside holds the corresponding unnormalised sums, for every combination of the query variables. The answer does not depend on the order of variables, tables, evidence or query variables.",
  ["inputs","programs"],"all networks (any graph, any number of outcomes), all evidence sets, all query sets, all elimination and map-iteration orders",
  "The tests solve four fixed networks and mostly print results; the claim ranges over all networks, evidence and elimination orders.",
  ["ve/ve.go","ve/variables.go","network.go"],
  [("VE.solve / eliminateHidden / removeHidden / restrictEvidence / multiplyAll","ve/ve.go"),("Network.SolveQuery, toVE","network.go")],
  [("VE.factors","working set of factors whose product is the joint","ve/ve.go")],["bbn.Network.SolveQuery","ve.VE.SolveQuery"])
p("C02","Normalisation gives proportional distributions",
  "Normalising a table for a variable yields, for every combination of the other variables, entries proportional to the original ones that sum to one (an all-zero row stays zero), with the normalised variable in last position; normalising a whole table yields entries proportional to the original that sum to one whenever the total is not zero. Chance tables are therefore relative weights: scaling a row by a positive constant changes no solved result.",
  ["inputs"],"all tables with any number of variables and outcomes, every variable position",
  "Tests normalise one 2x3 table; the claim is over all shapes, variable positions and rows.",
  ["ve/variables.go","network.go"],[("Variables.NormalizeFor, Variables.Normalize","ve/variables.go"),("toVE row normalisation","network.go")],None,["ve.Variables.NormalizeFor","ve.Variables.Normalize","bbn.Network.SolveQuery"])
p("C03","Utility answers are exact expected utilities",
  "For every network without unresolved decisions, solving utility returns for every combination of the query variables the sum, over all assignments consistent with the evidence, of joint probability times utility. Utility is the sum of all utility tables, each multiplied by its weight when a total-utility node defines weights, or only the named utility table (unweighted) when one utility variable is asked for. Dividing that factor by the probability factor of the same query gives the conditional expected utility entry by entry.",
  ["inputs","programs"],"all decision networks with any number of utility nodes and weights, all evidence and query sets",
  "Tests check two unweighted totals on fixed networks; weights, single-utility queries and several utilities are never checked numerically.",
  ["ve/ve.go","network.go","ve/variables.go"],[("VE.sumUtilities, removeUtilities, SolveUtility","ve/ve.go"),("prepareUtilityWeights, NormalizeUtility","network.go"),("Variables.Sum, Invert","ve/variables.go")],None,["bbn.Network.SolveUtility","bbn.Network.NormalizeUtility"])
p("C04","Solved policies are optimal",
  "For every network with a single decision that influences some table, the solved policy gives, for every combination of outcomes of its observed variables that has positive probability, equal probability to exactly those options that maximise expected utility there, and zero to all others. When several decisions are declared so that each later decision observes every earlier one together with everything that one observed, the solved policies together reach the maximum expected utility attainable by any policies, whether they are solved stepwise or in one go. Deriving a policy from any table over a decision puts equal probability on exactly the maximal entries of each row.",
  ["inputs","programs"],"all tables, utilities, tie patterns, numbers of options and parents, decision orders",
  "Tests check the policies of two example networks and one 3x2 table; ties, many options and other orders are not sampled.",
  ["ve/ve.go","ve/variables.go","network.go"],[("Variables.Policy","ve/variables.go"),("VE.SolvePolicies, solvePolicies, findDecisionFactors, sortTopological","ve/ve.go"),("Network.SolvePolicies","network.go")],None,["bbn.Network.SolvePolicies","ve.VE.SolvePolicies","ve.Variables.Policy"])
p("C05","Flat table positions and outcome combinations are in bijection",
  "For every table shape, the flat position of a combination of outcome indices is its mixed-radix value with the last variable varying fastest, lies inside the table, and distinct combinations get distinct positions; converting a position to outcome indices is the exact inverse. A row addressed by all but the last variable is the contiguous block of the entries that agree with it, for library tables and network tables alike; reading or writing an entry by outcome indices touches exactly that position. Missing data (-1) is reported as missing and never mapped to a position, and a wrong number of indices is rejected by a panic.",
  ["inputs"],"all numbers of variables, all outcome counts, all index combinations",
  "Tests try a handful of index pairs on 3x2 and 3x2x4 shapes.",
  ["ve/factor.go","network.go"],[("factorVariables.Index, IndexWithNoData, Outcomes, increment","ve/factor.go"),("Factor.RowIndex, Row, Get, Set","ve/factor.go"),("Factor.rowIndex, Factor.Row","network.go")],None,["ve.Factor","bbn.Factor.Row"])
p("C06","Multiplying and adding factors is pointwise",
  "The product (sum) of any number of factors is a factor over exactly the union of their variables, each appearing once, whose value at every combination of outcomes is the product (sum) of the operands' values at that combination. This holds for operands that share variables in different orders, have no variables, or are a single factor, and the operands are left unchanged.",
  ["inputs"],"any number of factors over any overlapping variable sets in any order, all outcome combinations",
  "Tests multiply at most three small factors and compare a few entries; sums are compared at five entries.",
  ["ve/variables.go"],[("Variables.Product, Variables.Sum","ve/variables.go")],None,["ve.Variables.Product","ve.Variables.Sum"])
p("C07","Summing out and marginals add up exactly the matching entries",
  "Summing a variable out of a factor gives a factor over the remaining variables in their original order whose value at every combination is the sum of the original values over all outcomes of the removed variable. The marginal of a factor for a variable assigns to each outcome the sum of all entries with that outcome, so the grand total is preserved by both; the source factor is left unchanged.",
  ["inputs"],"all factors, all variable positions, all outcome combinations",
  "Tests sum one 2x3 factor; the claim covers every shape and position.",
  ["ve/variables.go"],[("Variables.SumOut, Variables.Marginal","ve/variables.go")],None,["ve.Variables.SumOut","ve.Variables.Marginal"])
p("C08","Restricting a factor selects exactly the observed slice",
  "Restricting a factor to an observed outcome of one of its variables gives a factor over the remaining variables in their original order whose value at every combination equals the original value at that combination with the observed outcome. An outcome outside the variable's range, or a variable that is not in the factor, is rejected by a panic, and the source factor is left unchanged.",
  ["inputs"],"all factors, variable positions and observations",
  "Tests restrict one 2x3 factor twice.",
  ["ve/variables.go"],[("Variables.Restrict","ve/variables.go")],None,["ve.Variables.Restrict"])
p("C09","Rearranging a factor only changes its layout",
  "Rearranging a factor to any permutation of its variables gives a factor with the variables in that order and the same value at every combination of outcomes, and leaves the source unchanged. By name, the requested leading variables come first in the requested order, the last requested variable comes last, and the others keep their order in between; asking for a variable the factor does not have is rejected by a panic.",
  ["inputs"],"all factors and all permutations",
  "Tests rearrange a 3x2 factor and check one name order on four variables.",
  ["ve/variables.go","network.go"],[("Variables.Rearrange","ve/variables.go"),("Network.Rearrange, rearrangeVariables, variableIndex","network.go")],None,["ve.Variables.Rearrange","bbn.Network.Rearrange"])
p("C10","Policies act as tables unless overridden as interventions",
  "After policies were solved, every query and utility answer treats each solved decision as a chance variable whose table is its policy, so evidence on such a decision conditions on it. When policies are to be ignored, a decision with evidence is treated as an intervention instead: its own policy is left out of the product, while the policies of decisions without evidence still apply.",
  ["inputs","histories"],"all decision networks, evidence sets mixing decisions and chance variables, both policy modes",
  "No test asserts a query answer with evidence on a decision in either mode.",
  ["network.go"],[("toVE, policyFactors, solve","network.go")],[("Network.policies","solved policies, used as factors by later queries","network.go")],["bbn.Network.SolveQuery","bbn.Network.SolveUtility"])
p("C11","Solving never changes the model and is repeatable",
  "No sequence of query, utility, marginal, normalising, rearranging or policy operations changes the tables or variables of the network, the caller's evidence and query arguments, or the contents of any factor passed in or returned earlier. Consequently the same question asked again, after any history of other questions, gets the same answer.",
  ["inputs","histories"],"all networks and all sequences of operations on one network or factor set",
  "Each test asks one or two questions and never re-reads tables or earlier results afterwards.",
  ["network.go","ve/variables.go","ve/ve.go"],[("copies of factor data in Variables operations","ve/variables.go"),("fresh VE per solve in toVE","network.go")],None,["bbn.Network","ve.Variables"])
p("C12","Boolean logic tables match their truth functions",
  "Each Boolean operator available by name or constructor (not, and, or, xor, conditional, biconditional, equals, if-then and their negated forms) yields, for its number of parents, exactly the table of its truth function with outcome 0 as true, row order with the last parent varying fastest, and one half on both outcomes where a conditional does not constrain the result. The table has two columns, each row is a distribution, each returned table is the caller's own copy, and a wrong number of parents or arguments is reported as an error.",
  ["inputs"],"all operators, all parent counts and argument counts",
  "Tests compare six of the twenty operators.",
  ["logic/simple.go","logic/factor.go"],[("boolFactor.Table, floatFactor.Table and the operator tables","logic/simple.go"),("Get","logic/factor.go")],None,["logic.Get","logic.Factor.Table"])
p("C13","Counting, index, outcome and bit logic tables are right for every size",
  "For every number of parents and every valid argument, the counting, parent-index, outcome-comparison and bits operators yield a deterministic table: each row has probability one at exactly the outcome their description prescribes for that row's parent outcomes (outcome 0 is true, last parent varies fastest, parents are indexed from the first, bits read the first parent as most significant) and zero elsewhere. Setting arguments replaces all earlier ones, and a wrong number of parents or arguments is reported as an error.",
  ["inputs","histories"],"all parent counts, all arguments, all sequences of argument settings",
  "Tests use three parents (or one parent with four outcomes) and one argument value per operator.",
  ["logic/count.go","logic/given.go","logic/outcome.go","logic/bits.go"],[("Table and SetArgs of each operator","logic/")],None,["logic.Get","logic.Factor.Table","logic.Factor.SetArgs"])
p("C14","Training yields relative frequencies and mean utilities",
  "After any sequence of samples, each row of a chance variable's table holds the relative frequencies of its outcomes among the samples that match the row's parent outcomes and have no missing value there, and each row of a utility table holds the mean of the utility values observed for that row. Samples with missing data for a variable or its parents do not influence that variable's table, decisions are never trained, and if some row received no sample an error is returned.",
  ["inputs","histories"],"all networks, all sample sequences including missing values",
  "One test trains three binary variables with four samples; utilities are only checked through an argmax.",
  ["training.go"],[("Trainer.AddSample, UpdateNetwork, NewTrainer","training.go")],[("Trainer.data / counter","accumulated sums and counts per table row","training.go")],["bbn.Trainer"])
p("C15","Saving to YAML and loading again preserves the network",
  "For every network in which each variable has a table definition, writing it as YAML and reading that text back yields a network with the same name, description, variables in the same order with the same types, outcomes, positions and colours, and the same parents and table values. Reading a table given as nested rows keeps its values in row order, and a definition with both a table and a logic operator, an unknown operator or an unknown node type is reported as an error.",
  ["inputs","programs"],"all networks and all YAML documents",
  "One test writes one three-node network without decisions, colours or description.",
  ["yml.go"],[("ToYAML, FromYAML, toTable","yml.go")],None,["bbn.ToYAML","bbn.FromYAML"])
p("C16","BIF-XML import reproduces the described network",
  "For every BIF-XML document that defines each of its variables, the imported network has the document's variables in order with their outcomes and types, the parents of each definition in order, the table values in order, and positions scaled from the position property. A document whose variable lacks a definition, whose table length is not a multiple of the number of outcomes, or with an unparsable number, malformed position or unknown type is reported as an error instead of a crash.",
  ["inputs"],"all BIF-XML documents",
  "The only test loads one file and checks nothing but the absence of an error.",
  ["xml.go"],[("FromBIFXML, parsePosition","xml.go")],None,["bbn.FromBIFXML"])
p("C17","Building a network either resolves every reference or reports an error",
  "Building a network with duplicate variable names, an unknown parent, a utility variable without parents or mixing utility and other parents, several total-utility nodes, or a total-utility node whose outcomes do not match its parents returns an error and never crashes. Otherwise the network keeps its variables and tables in order, links every variable to the table defined for it, and reports the total-utility node's position or -1 when there is none; a query or evidence naming an unknown variable or outcome returns an error.",
  ["inputs"],"all lists of variables and factor definitions, all evidence and query names",
  "No test builds an invalid network or asks for unknown names.",
  ["network.go"],[("prepareVariables, prepareUtilityNodes, solve","network.go")],None,["bbn.New","bbn.Network.SolveQuery"])
p("C18","The inference report shows the right numbers for every node",
  "For every network, evidence and policy mode, the report of the inference command and interactive view gives each evidence variable probability one on its observed outcome, each other chance or decision variable its posterior given the evidence, and each utility variable its conditional expected utility followed by the conditional expected total utility. A total-utility node shows the weighted utility of each of its parents followed by the total. Evidence given as name=value pairs is taken over literally, and anything else is reported as a syntax error.",
  ["inputs"],"all networks, evidence lists and policy modes",
  "One test runs the command on one file and only checks that no error occurred.",
  ["internal/tui/solve.go","internal/tui/util.go","cmd/bbn/inference.go","network.go"],[("Solve, solveEvidence, solveQueries, solveUtility, ParseEvidence","internal/tui"),("ToEvidence","network.go")],None,["bbn inference","tui.Solve"])
p("C19","Training from CSV maps every record to the right samples",
  "For every CSV file whose header names each variable once in any column order, training counts each record's outcomes under the variables their columns name, reads utility columns as numbers, and treats the no-data value as missing in chance, decision and utility columns alike; the resulting tables equal those of feeding the same samples directly. A missing column, an outcome that the variable does not have, an unparsable utility or a no-data value that is also an outcome is reported as an error.",
  ["inputs"],"all CSV files, column orders, delimiters and no-data values",
  "The CSV training tests are commented out; nothing tests it.",
  ["internal/tui/training.go","training.go"],[("TrainNetwork, prepare","internal/tui/training.go")],None,["bbn train","tui.TrainNetwork"])
p("C20","The table view labels and prints every cell correctly",
  "For every node, the table view has one header row naming the parents and then the node's outcomes, and one row per parent combination. In row r the parent columns show the outcome combination whose position in the table is r (last parent varying fastest), and the value columns show that table row, as percentages of the row sum for chance and decision nodes and as plain numbers for utility nodes.",
  ["inputs"],"all nodes, parent counts, outcome counts, rows and columns",
  "Nothing tests the table view.",
  ["internal/tui/table.go"],[("NewTable, GetCell, GetRowCount, GetColumnCount","internal/tui/table.go")],None,["tui.Table"])
p("C21","Box geometry and hit testing are exact",
  "A box contains exactly the cells at or right of / below its origin and left of / above its far edges; extending a box by another yields the smallest box that covers both. A click selects an outcome exactly when it lies inside the node's box on that outcome's line, and a rendered node always fills exactly its box, which is large enough for every outcome line.",
  ["inputs"],"all boxes, positions, nodes and probabilities",
  "Tests check five points, two extensions and one rendering.",
  ["internal/tui/bounds.go","internal/tui/node.go"],[("Bounds.Contains, Extend, Centroid","internal/tui/bounds.go"),("node.SelectedOutcome, NewNode, Render","internal/tui/node.go")],None,["tui.Bounds","tui.Node"])
p("C22","Interactive selection and evidence stay valid under any input history",
  "After any sequence of keyboard and mouse input, the interactive view's selected node is an existing node and its selected outcome an existing outcome of that node, and the evidence maps only existing non-utility nodes to outcomes of theirs. Confirming an outcome sets it as evidence, confirming the same one again removes it, and confirming another replaces it, without affecting the evidence of other nodes.",
  ["histories","inputs"],"all networks and all sequences of key and mouse events",
  "No test drives the interactive view.",
  ["internal/tui/input.go"],[("inputEnter, selectNextNode, selectPreviousNode, selectNodeOutcome, mouseInputGraph","internal/tui/input.go")],[("App.selectedNode / selectedState / evidence","selection and evidence of the interactive view","internal/tui/app.go")],["bbni"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
