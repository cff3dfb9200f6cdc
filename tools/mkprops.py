"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, P, H, C = 'inputs', 'programs', 'histories', 'configurations'
def p(id, title, st, over, q, why, files, mech, obs, note=''):
    return dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None)), note
PROPS = [
p('C01', 'Simplification strategies preserve the linear map',
  "Every simplification strategy, applied to any ZX-diagram in its domain (with or without a match filter), leaves a legal diagram with the same inputs and outputs that denotes exactly the same linear map, global scalar included. The same holds for every intermediate diagram yielded by the step-by-step versions of the strategies. This covers graph-like, Clifford-normal-form, red-green and green-Hadamard conversion as well as full reduction.",
  [I, H], 'all diagrams (any phases, edge types, boundaries, scalars), all strategies and sequences of strategies', 'tests run full_reduce on a few dozen random circuits and compare tensors up to scalar; rule interactions, scalar bookkeeping and rare match shapes are not reached',
  ['pyzx/simplify.py', 'pyzx/rules.py'], [('rewrite drivers', 'pyzx/simplify.py:simp'), ('parallel matchers and rewrites', 'pyzx/rules.py')], ['the graph object after the call', 'graphs yielded by *_iter']),
p('C02', 'Single rewrite rules preserve the map wherever they match',
  "Whenever a rewrite rule (the matchers of the rule library, the one-vertex basic rules and the editor's rewrite actions) reports that it applies to a diagram, applying it yields a legal diagram denoting the same linear map, global scalar included. When a rule reports that it does not apply, the diagram is left untouched.",
  [I], 'all diagrams, all rules, all reported matches and vertex/edge choices', 'tests exercise a handful of diagrams for about ten rules',
  ['pyzx/rules.py', 'pyzx/basicrules.py', 'pyzx/editor_actions.py', 'pyzx/w_rules.py'] , [('match_* / rewrite pairs', 'pyzx/rules.py'), ('check_* / rewrite pairs', 'pyzx/basicrules.py'), ('MATCHES dictionaries', 'pyzx/editor_actions.py')], ['graph after apply_rule', 'graph after basicrules.*', 'graph after an editor operation']),
p('C03', 'H-box rewriting preserves the linear map',
  "Rewriting diagrams with H-boxes (conversion to and from hypergraph form, hyper-pivoting, parallel H-box fusion, AND-gate and zero-H-box rules, multiplication of Fourier-like gadgets, and the strategies built from them) yields a legal diagram with the same linear map, global scalar included.",
  [I], 'all diagrams with H-boxes of any arity and phase in the domain of the rule', 'two small tests touch H-box rules', ['pyzx/hrules.py', 'pyzx/hsimplify.py'], [('H-box matchers and rewrites', 'pyzx/hrules.py'), ('strategies', 'pyzx/hsimplify.py')], ['graph after the call']),
p('C04', 'Circuit extraction returns an equivalent circuit',
  "For every diagram obtained from a unitary circuit by simplification, circuit extraction terminates and returns a circuit whose linear map equals the diagram's up to a global scalar, with and without every extraction option (CZ optimization, CNOT optimization, up-to-permutation, lookahead, one-pass extraction, Clifford normal form). Extraction up to permutation returns the circuit up to a permutation of its inputs.",
  [P, C], 'all circuits, all simplification strategies before, all options', 'a few seeds with tensors of up to 4-6 qubits', ['pyzx/extract.py', 'pyzx/altextract.py', 'pyzx/linalg.py'], [('frontier extraction', 'pyzx/extract.py:extract_circuit'), ('F2 row operations', 'pyzx/linalg.py')], ['returned Circuit']),
p('C05', 'Generalised flow is found exactly when it exists',
  "The gflow finder returns a result if and only if the graph-like diagram (as an open graph, all spiders measured in the XY plane, the boundary given by boundary vertices or by spiders) has a generalised flow. What it returns satisfies the definition of gflow: correction sets outside the inputs, odd-neighbourhood condition and strictly compatible layers, which are maximally delayed. The diagram stays unchanged, and diagrams with a flow are isometries.",
  [I], 'all graph-like diagrams up to the explored size', 'a handful of fixed examples', ['pyzx/gflow.py'], [('maximally delayed gflow search', 'pyzx/gflow.py:gflow')], ['return value of gflow']),
p('C06', 'Circuit optimizers preserve the unitary and never add T gates',
  "Every circuit optimizer (basic gate-level optimization, phase-block optimization with and without the third-order duplicate-and-destroy method, full optimization) returns a circuit equivalent to its input up to a global phase. The optimized circuit acts on the same qubits and has no more non-Clifford phase gates than the input.",
  [P], 'all circuits over the accepted gate set', 'one or two seeded circuits', ['pyzx/optimize.py', 'pyzx/todd.py'], [('Optimizer', 'pyzx/optimize.py'), ('TODD', 'pyzx/todd.py')], ['returned Circuit']),
p('C07', 'Circuits, gates and diagrams denote the same map',
  "Every gate denotes its textbook matrix when turned into a diagram (global scalar included), when decomposed into basic gates, and when its tensor or matrix is computed. Converting a circuit to a diagram preserves the linear map exactly, and reading a circuit back from a circuit-like diagram preserves it up to global phase.",
  [P], 'all circuits over the full gate set, all parameters, qubit assignments, and conversion options', 'two-qubit gate semantics are tested for one phase and one placement', ['pyzx/circuit/gates.py', 'pyzx/circuit/graphparser.py', 'pyzx/circuit/__init__.py'], [('to_graph methods', 'pyzx/circuit/gates.py'), ('circuit_to_graph / graph_to_circuit', 'pyzx/circuit/graphparser.py')], ['Circuit.to_graph()', 'Circuit.to_basic_gates()', 'Circuit.from_graph()', 'Circuit.to_matrix()']),
p('C08', 'Circuit algebra is faithful',
  "Composition, tensor product, adjoint, copying, qubit relabelling, gate insertion and splitting of circuits denote the corresponding operation on linear maps. The adjoint of a circuit is its inverse for every gate in the gate set, and none of these operations changes its operands except where documented.",
  [P, H], 'all circuits over the full gate set, all compositions', 'only adjoint on small random circuits', ['pyzx/circuit/__init__.py', 'pyzx/circuit/gates.py'], [('Circuit operations', 'pyzx/circuit/__init__.py'), ('Gate.to_adjoint / reposition', 'pyzx/circuit/gates.py')], ['resulting Circuit']),
p('C09', 'Circuit file formats keep the unitary',
  "Printing a circuit in a supported text format (OpenQASM 2/3, .qc, Quipper ASCII) gives text that denotes the circuit, and reading it back yields a circuit with the same linear map up to global phase. Parsing a well-formed program (also .qsim) yields the unitary the format's definition assigns to it, including user-defined gates, register broadcasting, products and quotients as parameters and negative or multiple controls. Expressions outside the supported subset are rejected, never misread.",
  [P], 'all programs of the supported subset', 'a fixed list of snippets', ['pyzx/circuit/qasmparser.py', 'pyzx/circuit/qcparser.py', 'pyzx/circuit/qsimparser.py', 'pyzx/circuit/quipperparser.py'], [('parsers', 'pyzx/circuit/*parser.py'), ('printers', 'pyzx/circuit/gates.py')], ['parsed Circuit', 'printed text']),
p('C10', 'Diagram serialization round-trips',
  "Writing a diagram to JSON and reading it back yields the same diagram: vertices, types, phases (symbolic ones too), edges with types, inputs and outputs in order, positions, grounds, vertex data and the scalar; on a multigraph parallel edges may be reduced, without changing the linear map. Writing it to TikZ and reading it back yields the same vertices, types, phases and edges, where a Hadamard wire at a boundary may come back as an H-box, so the linear map is the same up to a scalar. TikZ and GraphML text denote the diagram they are written from.",
  [I], 'all diagrams with any vertex and edge types, phases, scalars and backends', 'two or three fixed graphs', ['pyzx/graph/jsonparser.py', 'pyzx/tikz.py', 'pyzx/graph/scalar.py'], [('json', 'pyzx/graph/jsonparser.py'), ('tikz', 'pyzx/tikz.py')], ['re-read graph']),
p('C11', 'Graph data structure obeys its state machine',
  "For every sequence of graph operations (adding, removing and retyping vertices and edges, smart edge insertion, phases, inputs/outputs, grounds, vertex data, copying, cloning) every query answers as the abstract graph predicts, on the simple-graph backend and the multigraph backend. Copies are isomorphic to and independent of the original, and smart edge insertion preserves the linear map.",
  [H, C], 'all operation sequences up to the explored length, both pure-Python backends', 'tests apply short fixed sequences', ['pyzx/graph/base.py', 'pyzx/graph/graph_s.py', 'pyzx/graph/multigraph.py'], [('GraphS', 'pyzx/graph/graph_s.py'), ('Multigraph', 'pyzx/graph/multigraph.py'), ('derived operations', 'pyzx/graph/base.py')], ['graph query methods']),
p('C12', 'Diagram algebra is faithful',
  "Composition (in place and as an operator), tensor product, adjoint, copying to any backend, application of states and effects, merging, taking a sub-diagram out and joining it back, removal of isolated parts, normalization, translation and detection of the boundary from positions denote the corresponding operations on linear maps, scalars included, also for bare wires, cups and caps. Grounds and user data of the vertices survive, and operands that are not documented as modified stay unchanged.",
  [I, H], 'all diagrams (all vertex types, both backends) and combinations', 'one test each at most', ['pyzx/graph/base.py'], [('compose, tensor, adjoint, merge, ...', 'pyzx/graph/base.py')], ['resulting graphs']),
p('C13', 'Tensors and matrices are the linear map',
  "The tensor or matrix computed from a diagram or circuit is the linear map the diagram denotes, with and without scalar, for every vertex type and arity. Tensor comparison answers 'equal' exactly when the maps are equal (up to a scalar unless exactness is requested; comparison of a numerically zero map up to a scalar may be refused), the unitarity test answers exactly when the map is proportional to a unitary, and composition and adjoint of tensors are those of the maps.",
  [I], 'all small diagrams with any vertex types', 'identities and a few circuits', ['pyzx/tensor.py', 'pyzx/quimb.py'], [('tensorfy', 'pyzx/tensor.py'), ('to_quimb_tensor', 'pyzx/quimb.py')], ['returned arrays', 'compare_tensors result']),
p('C14', 'Scalars obey exact arithmetic',
  "A global scalar denotes the product of everything that was accumulated into it; multiplication, conjugation, copying, conversion to a number and serialization are compatible with that. Zero and unknown scalars absorb as documented.",
  [H], 'all sequences of accumulations', 'a single scalar test compares full_reduce', ['pyzx/graph/scalar.py'], [('Scalar methods', 'pyzx/graph/scalar.py')], ['Scalar.to_number', 'Scalar fields']),
p('C15', 'Linear algebra over F2 is correct',
  "Gaussian elimination, rank, nullspace, inverse, solving, factorization, products and CNOT synthesis over F2 satisfy their defining equations for every matrix; recorded row operations reproduce the reduction, and synthesised CNOT circuits implement exactly the given matrix.",
  [I], 'all 0/1 matrices up to the explored size, all block sizes and options', 'a few random square matrices', ['pyzx/linalg.py'], [('Mat2', 'pyzx/linalg.py'), ('CNOT synthesis', 'pyzx/linalg.py')], ['return values, recorded row operations']),
p('C16', 'Architecture-aware CNOT routing is correct',
  "Routing a CNOT circuit or parity map on an architecture, in every mode and with every option, yields a CNOT circuit whose parity map is the given one (up to the permutation reported where the mode permutes), and in which every CNOT acts along an edge of the coupling graph.",
  [I, C], 'all invertible matrices, all architectures and modes', 'a few seeds on three architectures', ['pyzx/routing/cnot_mapper.py', 'pyzx/routing/steiner.py', 'pyzx/routing/parity_maps.py'], [('steiner_gauss, rec_steiner_gauss, permuted variants', 'pyzx/routing/')], ['CNOT list', 'returned permutation']),
p('C17', 'Architecture-aware phase polynomial routing is correct',
  "Synthesising a phase polynomial for an architecture, in every mode, returns a circuit implementing the same phase polynomial and final parity (up to the reported permutations) in which every two-qubit gate respects the coupling graph.",
  [I, C], 'all phase polynomials and architectures', 'a few seeds', ['pyzx/routing/phase_poly.py'], [('matroid / gray / meijer synthesis', 'pyzx/routing/phase_poly.py')], ['returned circuit']),
p('C18', 'Architectures answer graph questions correctly',
  "An architecture's distances, shortest paths, neighbourhoods, non-cutting vertices, Hamiltonian paths, Steiner trees and built-in topologies agree with its coupling graph, for every vertex subset they are asked about.",
  [I, C], 'all built-in and user-defined connected coupling graphs up to the explored size', 'construction of the built-ins only', ['pyzx/routing/architecture.py'], [('Architecture', 'pyzx/routing/architecture.py')], ['query results']),
p('C19', 'Stabilizer decompositions sum to the diagram',
  "Every step of the stabilizer decomposition used for classical simulation (one, two or six magic states) replaces a diagram by diagrams whose sum denotes the original linear map, scalar included, each with the announced number of magic states fewer; the full decomposition has Clifford terms only and no more than announced. Inner products, path sums, post-selection and norm estimates agree with the diagram's value, and sampled outcomes are possible ones.",
  [I], 'all diagrams with non-Clifford phases', 'one test on one circuit family', ['pyzx/simulate.py'], [('replace_* and find_stabilizer_decomp', 'pyzx/simulate.py'), ('calculate_path_sum, sampling, norm estimates', 'pyzx/simulate.py')], ['SumGraph terms', 'returned numbers']),
p('C20', 'Equality verification never accepts different circuits',
  "If circuit equality verification answers true, the circuits denote the same unitary up to global phase (and up to a qubit permutation exactly when asked); circuits differing by a non-trivial unitary are never accepted. For Clifford circuits the answer is also complete.",
  [P], 'all pairs of circuits', 'a few positive examples', ['pyzx/circuit/__init__.py'], [('verify_equality', 'pyzx/circuit/__init__.py')], ['return value']),
p('C21', 'Phase teleportation keeps structure and map',
  "Phase teleportation returns a diagram with the same vertices, edges, edge types and boundaries as its input, differing only in phases, and with the same linear map up to a global scalar. It never increases the number of non-Clifford phases.",
  [P, I], 'all circuits and diagrams', 'one semantics test', ['pyzx/simplify.py', 'pyzx/graph/base.py'], [('Simplifier', 'pyzx/simplify.py'), ('phase tracking', 'pyzx/graph/base.py')], ['returned graph']),
p('C22', 'Local search optimizers preserve the map',
  "Simulated annealing, genetic search and the congruence moves (local complementation and pivoting) used by the local search package preserve the linear map of the diagram or circuit up to a global scalar, and leave their arguments alone (the moves work in place). The scores they report are those of the diagrams seen, the best one never gets worse, and the result is at least as good as the input and as the best score reported.",
  [I], 'all graph-like diagrams and seeds', 'one smoke test', ['pyzx/local_search/'], [('congruences', 'pyzx/local_search/congruences.py'), ('annealing', 'pyzx/local_search/simulated_annealing.py'), ('genetic', 'pyzx/local_search/genetic.py')], ['returned graph']),
p('C23', 'Graph diffs reproduce the edit',
  "Applying the diff of two diagrams (with the same backend and options) to the first yields the second: vertices, types, phases, positions, vertex data (such as Z-box labels), edges with multiplicities and types; the boundary lists are those of the first diagram without removed vertices. This holds also after the diff is serialized and re-read, and can be repeated: arguments are untouched and results share no mutable data with them.",
  [I, H], 'all pairs of diagrams related by an edit history', 'a single test', ['pyzx/graph/diff.py'], [('GraphDiff', 'pyzx/graph/diff.py')], ['apply_diff result']),
p('C24', 'Symbolic parameters obey polynomial arithmetic',
  "Sums, products, negation, powers, exact division, comparison, substitution, printing and parsing of symbolic phase expressions agree with polynomial arithmetic (with idempotent boolean variables) under every assignment of the variables; coefficients of boolean monomials are phases, that is kept modulo 2 by each operation. Simplifying a diagram with symbolic phases and then assigning values gives the same map as assigning the values first.",
  [I], 'all expressions up to the explored size', 'a few arithmetic identities', ['pyzx/symbolic.py'], [('Poly / Term', 'pyzx/symbolic.py')], ['results of operators', 'parse']),
p('C25', 'Simplification reaches its normal forms',
  "After a strategy finishes, none of the patterns it is documented to remove remain: graph-like diagrams are graph-like, interior Clifford simplification leaves no interior proper Clifford spider and no adjacent interior Pauli pair, full reduction leaves no interior Clifford spider outside phase gadgets, and Clifford diagrams reduce to their boundary. Simplification never increases the number of non-Clifford phases, and is idempotent.",
  [I], 'all diagrams', 'one test checks gadget-freeness of one circuit', ['pyzx/simplify.py', 'pyzx/rules.py'], [('strategies', 'pyzx/simplify.py'), ('is_graph_like', 'pyzx/simplify.py')], ['graph after the call']),
p('C26', 'Reported statistics are true',
  "The numbers reported about circuits and diagrams equal the quantities they name: T-count after expansion, two-qubit, CNOT, Hadamard, Clifford, measurement and other gates, depth (with and without CZ), as numbers and as text, the optimizers' and the routing module's cost metrics, degree distribution, vertex, edge, input and output counts, T-count and depth of diagrams, and the rewrites counted by a simplifier.",
  [P], 'all circuits over the full gate set and all diagrams', 'not tested', ['pyzx/circuit/__init__.py', 'pyzx/circuit/gates.py', 'pyzx/graph/base.py', 'pyzx/simplify.py', 'pyzx/optimize.py'], [('stats_dict, tcount, depth', 'pyzx/circuit/__init__.py'), ('Stats', 'pyzx/simplify.py')], ['returned numbers and texts']),
p('C27', 'Generators produce what they promise',
  "Circuit and diagram generators produce legal diagrams and circuits with the requested qubits, gates, layers and backend, and none of what was excluded or given probability zero, identical for equal seeds. Identities denote the identity, spiders the map of their type, generated CNOT circuits are linear with the parity map reported for them, Clifford circuits are Clifford, and phase gadgets lie on as many different parities as requested.",
  [I], 'all parameters', 'not tested semantically', ['pyzx/generate.py'], [('generators', 'pyzx/generate.py')], ['returned graph or circuit']),
p('C28', 'Phase polynomials and TODD keep the diagonal unitary',
  "Phase polynomials, parity matrices and multilinear forms built from CNOT+CZ+phase circuits denote the circuit's diagonal part exactly, also after adding, subtracting, printing and turning them back into gates; forms that are not Clifford are refused as Clifford circuits. Third order duplicate-and-destroy (one step, iterated, through an external program, on circuits and on diagrams with phase gadgets) keeps the unitary with the Clifford corrections it emits, never adds T gates, and stops only when no step applies. Parity networks reach every requested parity.",
  [P, I], 'all CNOT+CZ+phase circuits and all parity matrices', 'not tested', ['pyzx/todd.py', 'pyzx/parity_network.py'], [('ParityPolynomial, MultiLinearPoly, todd_simp, todd_on_graph', 'pyzx/todd.py'), ('parity_network', 'pyzx/parity_network.py')], ['resulting matrices, circuits and diagrams']),
p('C29', 'Command line tools transform faithfully',
  "The command line optimizer writes, for every input format, output format, simplifier and option, a circuit in the format asked for that is equivalent to its input and has no more T gates; the TikZ converter writes a diagram of its input; the generators write the requested number of random CNOT and phase-polynomial circuits of the requested sizes; the CNOT mapper writes an equivalent circuit that respects the architecture. Files that are not the destination stay as they were, and wrong command lines are refused.",
  [P, C], 'all circuits and option combinations', 'three smoke runs', ['pyzx/scripts/'], [('command line scripts', 'pyzx/scripts/')], ['written files', 'exit status']),
p('C30', 'Measurement patterns denote the measured cluster state',
  "A cluster state built with any size and any input positions denotes |+> states and inputs joined by CZ along the grid; measuring a qubit in either colour at any angle projects it, and a Pauli correction in either basis applies that Pauli, in any order. So the diagram of every pattern is the map of the pattern up to a scalar, and with the corrections of the flow it does not depend on outcomes. Requests for qubits that are not on the grid or were measured are refused and change nothing.",
  [I, H], 'all grids, inputs, angles, outcomes and orders of events', 'not tested', ['pyzx/mbqc.py'], [('cluster_state, measure, apply_pauli', 'pyzx/mbqc.py')], ['resulting diagram', 'exception']),
p('C31', 'Grounds, measurements and classical bits',
  "A diagram with grounds (discarding spiders) denotes a completely positive map, and a circuit with measurements, discards, initialised and classical bits denotes the corresponding channel. Randomly generated hybrid diagrams are trace preserving, scalar included. Conversion from circuits to diagrams, circuit algebra and diagram algebra denote the operations on these maps. Every simplification strategy and rewrite rule that applies to a grounded diagram keeps its completely positive map, and inputs and outputs, as legal diagrams.",
  [P, I, H], 'all hybrid circuits and grounded diagrams, all rules and strategies', 'three fixed examples of discards and measurements', ['pyzx/rules.py', 'pyzx/simplify.py', 'pyzx/circuit/gates.py', 'pyzx/circuit/__init__.py', 'pyzx/basicrules.py', 'pyzx/graph/base.py'], [('ground handling in the matchers', 'pyzx/rules.py'), ('Measurement, DiscardBit, InitAncilla', 'pyzx/circuit/gates.py'), ('ground handling of the data structure', 'pyzx/graph/base.py')], ['resulting diagram', 'resulting Circuit']),
]
CLAIMED = set(os.environ.get('CLAIMED', '').split(',')) if os.environ.get('CLAIMED') else {os.path.basename(f)[:3].upper() for f in os.listdir(V + '/harness/checks') if f.startswith('c') and f[1:3].isdigit()}
NA = {}
if os.path.exists(V + '/tools/na.json'): NA = json.load(open(V + '/tools/na.json'))
NOTES = {}
if os.path.exists(V + '/tools/notes.json'): NOTES = json.load(open(V + '/tools/notes.json'))
with open(V + '/properties.jsonl', 'w') as f:
    for d, _ in PROPS: f.write(json.dumps(d) + '\n')
PY = '/opt/venv/bin/python'
man = dict(version=1, setup_cmd='sh tools/setup.sh',
  checks=[dict(property=d['id'], quick_cmd='%s harness/run.py %s --tier quick' % (PY, d['id']), thorough_cmd='%s harness/run.py %s --tier thorough' % (PY, d['id']),
               technique='TLA+ specification checked with TLC; trace validation of histories recorded from the real code',
               level='model_checking',
               level_note=NOTES.get(d['id'], 'Histories recorded from the code are behaviours of the specification, decided by TLC; sampled inputs (bounded size), arithmetic in F_33601 at random points: equal maps never alarm, a wrong map escapes with probability below 1e-6 per history.'))
          for d, _ in PROPS if d['id'] in CLAIMED],
  not_applicable=[dict(property=d['id'], reason=NA.get(d['id'], 'check not built yet')) for d, _ in PROPS if d['id'] not in CLAIMED],
  notes='TLA+ with TLC; see DESIGN.md')
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
