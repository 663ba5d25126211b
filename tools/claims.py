CLAIMS = {
 "C02": ("proof", "NormalizeFor and Normalize proved for all shapes and values against proportionality and row sums; floats as reals. That toVE applies NormalizeFor to every chance table is covered by the bounded search."),
 "C05": ("proof", "Index, IndexWithNoData, Outcomes, increment, RowIndex, Row, Get, Set and the network tables' rowIndex and Row proved against the mixed-radix specification for all shapes; integers mathematical."),
 "C06": ("proof", "Product and Sum proved pointwise for any number of operands of any shapes; floats as reals."),
 "C07": ("proof", "SumOut and Marginal proved for all shapes; floats as reals."),
 "C08": ("proof", "Restrict proved for all shapes, including exactly when it panics."),
 "C12": ("proof", "Package initialiser and every Boolean constructor and Get proved against truth functions; the operator registry by name through the initialiser's contract."),
 "C13": ("proof", "Counting, parent-index, outcome and bits operators (SetArgs and Table) proved for every number of parents and outcomes; one known finding."),
 "C14": ("proof", "NewTrainer, AddSample (exact effect of one sample on every counter and sum, for any history by induction over calls) and UpdateNetwork (relative frequencies, error exactly when a row has no sample) proved; floats as reals."),
 "C20": ("proof", "NewTable, GetCell, GetRowCount, GetColumnCount proved for every node and cell; tview cell constructors and fmt.Sprintf are assumed to be functions of their arguments."),
 "C21": ("proof", "Bounds, SelectedOutcome, NewNode and Render (including every drawing helper) proved for all inputs; panics on unknown colours excluded."),
 "C09": ("proof", "Variables.Rearrange proved for all shapes; the by-name front end by bounded search."),
}
CLAIMS["C17"] = ("proof", "New, prepareVariables and prepareUtilityNodes proved for every list of variables and tables: rejection exactly for the stated reasons and correct linking otherwise. Rejection of unknown evidence and query names and of duplicate solver variables by bounded search.")

CLAIMS["C01"] = ("proof", "The whole variable-elimination solver (VE.solve and everything below it: evidence, utilities, hidden variables, products, sums) proved for every set of tables, evidence and query: the result is the sum over exactly the hidden variables of the joint restricted to the evidence. Floats as reals. The wiring from network to solver (toVE, solve, ToEvidence) and the final per-variable normalisation by bounded search.")
CLAIMS["C03"] = ("proof", "VE.solve in utility mode proved for every set of tables: the result is the sum over exactly the hidden variables of joint probability times (weighted total, or single) utility. Floats as reals. The wiring from network to solver, weights and the division by probability by bounded search.")
CLAIMS["C10"] = ("proof", "policyFactors, toVE and Network.solve proved: the solver holds exactly the tables of chance and utility variables, row-normalised, and the policies of the solved decisions that are not overridden, each once, with solved decisions as chance variables; the answer is the sum over the hidden variables of that product. The contract of the solver itself is discharged under C01. What Network.SolvePolicies stores is proved well formed and derived step by step with the earlier policies as tables (discharged under C04, assumed callees there).")
CLAIMS["C11"] = ("proof", "Frame conditions of SolveQuery, SolveUtility, Marginal, Normalize, NormalizeUtility, Rearrange, ToEvidence, the solver and every table operation proved: each writes only the network's solver fields and memory it allocated itself; the contracts fix the answer as a function of network, evidence and query. SolvePolicies proved to write only the solver fields and the policy store.")
CLAIMS["C01"] = ("proof", "SolveQuery and everything below it (network to solver wiring, evidence, hidden variables, products, sums, marginals, normalisation) proved for every well-formed acyclic network, evidence and query: the joint factor is the sum over exactly the hidden variables of the product of the row-normalised tables at the evidence, and each distribution is its normalised marginal. Floats as reals. That this equals the textbook posterior end to end is also searched, bounded.")
CLAIMS["C03"] = ("proof", "SolveUtility and everything below it proved for every well-formed acyclic network: the result is the sum over exactly the hidden variables of joint probability times (weighted total, or single) utility, with the weights of the total-utility node; NormalizeUtility is entrywise division. Floats as reals.")
CLAIMS["C17"] = ("proof", "New, prepareVariables and prepareUtilityNodes proved for every list of variables and tables: rejection exactly for the stated reasons and correct linking otherwise; SolveQuery and SolveUtility return an error exactly for unknown evidence, outcome, query or utility names (the solver's and toVE's contracts are discharged under C01).")
CLAIMS["C09"] = ("proof", "Variables.Rearrange and the by-name front end (Network.Rearrange, rearrangeVariables, variableIndex) proved for all shapes.")
CLAIMS["C18"] = ("proof", "ParseEvidence, solveEvidence, solveQueries, solveUtility and Solve proved for every well-formed network with all decisions solved or observed: observed nodes one-hot, other nodes the same posterior SolveQuery gives, utility nodes the same expectation SolveUtility gives. The contracts of SolveQuery and SolveUtility are discharged under C01 and C03. The command line around Solve (file loading, printing) by bounded search.")
CLAIMS["C22"] = ("proof", "Every input handler (keys, node and outcome selection, evidence toggling, policy toggling, moving nodes, mouse clicks) proved, for every state satisfying the view invariant and every event, to keep the invariant (selection within range, every evidence entry an outcome of a non-utility node, canvas covers the nodes) and to change selection and evidence as stated. tcell, tview are assumed; drawing (render), the table dialog and saving are trusted to write only drawing memory and are covered by bounded search only.")
CLAIMS["C04"] = ("proof", "Policy, findDecisionFactors, the decision order, getDecisionParents, countDecisionSteps, VE.solvePolicies and VE.SolvePolicies proved: every solved decision gets a policy uniform over the maximisers of its table, and for the last decision that table is the hidden-variable sum of joint probability times total utility up to a factor that does not depend on the decision. Floats as reals, table entries finite. Network.SolvePolicies proved on top: after it every decision has a policy, the first one solved is best in that sense for the network without policies, in stepwise mode every one is best for the network with the policies solved before it, and the returned tables are those policies by name and entry. That the policies of several decisions together are optimal under no-forgetting is by bounded search.")
CLAIMS["C19"] = ("proof", "prepare and TrainNetwork proved for every header, record sequence and network: each node reads the first column bearing its name, every record read is added exactly once as a sample with the outcome positions, numbers or no-data codes its columns name, and errors are returned exactly for missing columns, a no-data value that is an outcome, unknown outcomes and unparsable utilities. encoding/csv, os and strconv are assumed. The trainer's contracts are discharged under C14. The train command around it by bounded search.")
CLAIMS["C16"] = ("proof", "parsePosition and FromBIFXML proved for every decoded document: variables in order with outcomes and types, the last definition of each name, parents and numbers in order, scaled positions, an error exactly when a definition is missing, a table does not fill whole rows, a number, position or type is bad, or New rejects. encoding/xml, strings and strconv are assumed; that the decoder fills the fields from the tags is checked by bounded search. New's contract is discharged under C17.")
CLAIMS["C15"] = ("proof", "ToYAML, FromYAML, toTable and the type-name tables proved: the value handed to the encoder holds every variable, parent list and table row of the network; the network built from a decoded value holds the same, rows flattened in order; lemma: writing and reading back gives the same table; bad types, operators or double definitions are errors. The yaml library's own round trip is assumed and searched with a bound. Operators' contracts are discharged under C12 and C13, New's under C17.")
NA = {}
