import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=()):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":None}})
A="horqrux/apply.py"; O="horqrux/utils/operator_utils.py"; PR="horqrux/primitives/primitive.py"; PA="horqrux/primitives/parametric.py"
M="horqrux/matrices.py"; CI="horqrux/circuit.py"; SQ="horqrux/composite/sequence.py"; CO="horqrux/composite/compose.py"; AP="horqrux/api.py"
N="horqrux/noise/utils_noise.py"; NN="horqrux/noise/noise.py"; AD="horqrux/differentiation/ad.py"; AJ="horqrux/differentiation/adjoint.py"
GA="horqrux/differentiation/gpsr/analytical.py"; GS="horqrux/differentiation/gpsr/shots.py"; GU="horqrux/differentiation/gpsr/gpsr_utils.py"
SH="horqrux/shots.py"; CV="horqrux/utils/conversion.py"; AN="horqrux/analog.py"; V="horqrux/utils/values_utils.py"
p("C01","A gate acts on a state vector as its documented matrix",
 "Applying any gate of the gate set, or an arbitrary operator matrix, to a state vector of any register multiplies the amplitudes of its target qubits by the documented matrix (rotations exp(-i angle/2 Pauli), phase diag(1, e^{i angle})) exactly where all its control qubits are 1, and leaves every other qubit alone. Qubit i is axis i of the state, targets and controls may be given in any order and as integers, numpy integers, tuples, lists or arrays, and angles as numbers or as names looked up in the values.",
 ["inputs"],"every gate, target/control placement and spelling, angle, register size and state",
 "The tests apply a few gates to random targets of a fixed random state and compare with the library's own dagger or hand-written bit strings; the space of placements, controls, orders and angles is not sampled.",
 [A,O,PR,PA,M],[("apply_operator for arrays",A),("_controlled embeds the operator",O),("Primitive.parse_idx",PR),("Parametric._unitary",PA)],["horqrux.run","gate call","apply_gates","apply_operator"])
p("C02","A circuit is the ordered composition of its operations on every path",
 "Running a sequence or circuit applies its operations one after the other in list order, and the result is the same whether it is run as a circuit, called, applied as a list, tuple, generator or nested sequence, split in two, with or without grouping by qubit and merging of neighbouring operators. An empty sequence leaves the state unchanged.",
 ["programs","configurations"],"every sequence of gates, nesting, and combination of execution path, grouping and merging",
 "Grouping and merging are tested on one fixed gate list; which reorderings are legal depends on how the qubits of neighbouring gates overlap.",
 [A,SQ,CI,AP],[("merge_operators",A),("group_by_index",A),("OpSequence.__call__",SQ),("OpSequence.__iter__",SQ)],["horqrux.run","apply_gates"])
p("C03","Density matrices evolve as U rho U-dagger",
 "A density matrix evolved by a noiseless circuit becomes U rho U-dagger for the unitary U of that circuit, for any placement and order of targets and controls and on every execution path. Promoting a state vector to a density matrix gives its projector and commutes with evolution.",
 ["inputs","programs"],"every mixed state, circuit, register and execution path",
 "The tests evolve density matrices of pure states through single gates; mixed states with unordered multi-qubit supports are not reached.",
 [A,O],[("apply_operator for DensityMatrix",A),("permute_basis",O),("density_mat",O)],["horqrux.run","apply_gates"])
p("C04","Noise is the documented channel after the gate",
 "A gate carrying noise acts as the (controlled) gate followed by its channels in the given order on the target qubit, each being the documented quantum channel (bit flip, phase flip, depolarizing, Pauli, amplitude damping, phase damping, generalized amplitude damping) with the given probabilities. A state vector entering a noisy sequence is promoted to a density matrix, with the same result on every execution path.",
 ["inputs","programs"],"every channel, probability, combination of channels, gate, state and execution path",
 "Each channel is tested with one probability on one gate; combinations of channels, controls, and boundary probabilities are not.",
 [N,NN,A],[("Kraus operators",N),("apply_operator_with_noise",A),("apply_kraus_operator",A)],["horqrux.run","apply_gates","noise instance Kraus operators"])
p("C05","Noisy evolution stays physical and invalid probabilities are rejected",
 "Whatever the noise, the evolved density matrix has trace one, is hermitian and has no negative eigenvalue, and channels with zero probability change nothing. A probability outside [0, 1], or a set of Pauli probabilities that sums above one or contains an entry outside [0, 1], raises ValueError when the channel is used.",
 ["inputs"],"every noisy circuit and every probability or tuple of probabilities",
 "Validation is tested with a handful of bad numbers; trace and positivity are not asserted over random circuits.",
 [N,NN,A],[("validate_single_probability",N),("Kraus completeness",N)],["horqrux.run","noise instance Kraus operators"])
p("C06","Noiseless evolution is unitary and reversible",
 "Any noiseless circuit preserves norms and inner products of state vectors and the trace and purity of density matrices. Applying the daggers of its gates in reverse order, one by one or as one list, restores the input state, and the dagger of a gate is the conjugate transpose of its matrix.",
 ["programs","inputs"],"every circuit, parameter value and pair of states",
 "The dagger is tested gate by gate; reversal of whole circuits through merged and grouped lists is not.",
 [A,PR,PA,O],[("Primitive.dagger",PR),("OperationType.DAGGER in prepare_sequence_reduce",A),("_dagger",O)],["apply_gates with the dagger operation type"])
p("C07","Matrix representations agree with the action",
 "The matrix of a gate, sequence, circuit, scaled operation, sum or observable is the matrix of its action on its qubits in ascending order, whatever their labels and the order of targets; expanded to a larger set of qubits it acts as the identity on the added ones. A requested qubit set that misses one of the operation's qubits raises ValueError.",
 ["inputs","programs"],"every operation, labelling of qubits, enlarged support and order in which the support is listed",
 "Matrices are tested on neighbouring ordered qubits; the permutation of targets, controls and added qubits is only right or wrong for unordered and non-contiguous labels.",
 [PR,SQ,CO,O],[("Primitive.tensor",PR),("OpSequence.tensor",SQ),("Scale.tensor, Add.tensor",CO),("expand_operator, controlled, permute_basis",O)],["tensor","expand_operator"])
p("C08","Scaling, adding and composing operations is linear algebra",
 "Applied to a state vector, a scaled operation multiplies the result by its factor (a number or a named value), a sum adds the results of its terms, a sequence composes them, and any nesting of these is linear in the state and has the corresponding matrix. An observable called on a state returns its expectation value, and applied forward it returns the transformed state.",
 ["programs","inputs"],"every expression tree over gates with numeric or named factors, and every state",
 "The tests build one-level sums and scalings of single gates; nested trees and shared parameter names are not sampled.",
 [CO,SQ],[("Scale.__call__",CO),("Add.__call__",CO),("Observable.forward",CO)],["calls of composite operations","tensor"])
p("C09","Exact expectation values are right in every differentiation mode",
 "Without shots, the expectation value of each hermitian observable after a circuit is <psi|O|psi>, or tr(O rho) for mixed or noisy evolution, in list order, for every observable built of products, sums, controlled gates, and numeric or named coefficients. Automatic, adjoint and generalized-parameter-shift modes, and the state vector and its density matrix, all agree.",
 ["inputs","programs","configurations"],"every circuit, list of observables, state, values and differentiation mode",
 "The tests compare modes with each other on one ansatz and Z observables, so that errors common to the modes and observables on unordered or partial supports go unseen.",
 [AP,AD,AJ,GA],[("ad_expectation",AD),("adjoint_expectation",AJ),("analytical_gpsr_fwd",GA)],["horqrux.expectation"])
p("C10","Automatic and adjoint gradients are the exact derivative",
 "Gradients, Jacobians, directional and second derivatives of exact expectation values with respect to the values, in automatic and adjoint mode, equal the true derivatives, with one entry per given name. This holds for repeated, shared, controlled, unused and fixed angles, for coefficients of observables, and in automatic mode for mixed states and noise.",
 ["inputs","programs"],"every differentiable circuit, observable list, parameter sharing and point",
 "The tests compare automatic with adjoint gradients on one ansatz at one point.",
 [AD,AJ,PA,AP],[("ad_expectation",AD),("adjoint ad_expectation",AJ),("Parametric._unitary",PA)],["jax.grad of horqrux.expectation"])
p("C11","Parameter-shift gradients equal the exact derivative",
 "The gradient of exact expectation values in generalized-parameter-shift mode with respect to circuit angles equals the true derivative, including repeated names, names shared between kinds of gates, phase gates with controls, unused values, values listed in any order, mixed states and noise, and higher derivatives. The exposed backward function returns the same derivatives summed over observables, in the order of the values.",
 ["inputs","programs"],"every circuit of uncontrolled rotations and (controlled) phase gates, parameter sharing, order of values and point",
 "The tests cover a few ansatze with distinct names or one repeated name; which shift is applied to which occurrence depends on the combination.",
 [GA,GU,PA],[("analytical_gpsr_bwd",GA),("shift rule",GU),("spectral_gap",PA)],["jax.grad of horqrux.expectation","backward function"])
p("C12","Shot estimates are means of eigenvalues drawn from the Born distribution",
 "With a positive number of shots, each expectation value is the mean of that many eigenvalues of the observable drawn with their Born probabilities: it lies within the spectrum, is exact on eigenstates, is unbiased, and spreads like the observable's standard deviation over the square root of the number of shots, even when the observables do not commute. The same key gives the same estimates.",
 ["inputs","configurations"],"every circuit, list of observables, state (pure, mixed, noisy), number of shots and key",
 "The tests compare one estimate of commuting observables with a loose tolerance.",
 [SH,GS],[("eigen_sample",SH),("finite_shots",SH),("finite_shots_fwd",GS)],["horqrux.expectation with shots"])
p("C13","Finite-shot parameter-shift gradients estimate the exact gradient",
 "Gradients, Jacobians and directional derivatives of finite-shot expectation values in generalized-parameter-shift mode are estimates of the exact derivatives whose error is explained by the shot noise of the shifted expectation values. Every name gets the derivative of its own angle, and the same key gives the same gradient.",
 ["inputs","configurations"],"every circuit of rotations, parameter sharing, observables, state, number of shots and key",
 "The tests check one ansatz with tolerance and cannot tell a biased or misassigned component from noise.",
 [GS,GU,SH],[("finite_shots_gpsr_backward",GS),("finite_shots_jvp",GS)],["jax.grad of horqrux.expectation with shots","finite-shot backward function"])
p("C14","Sampled bitstrings follow the Born distribution",
 "Sampling a circuit returns positive counts that sum to the number of shots, keyed by bitstrings of the register with qubit 0 first, with frequencies that follow the probabilities of the output state (pure, mixed or noisy); impossible outcomes never appear and the input state is unchanged. A number of shots below one raises ValueError.",
 ["inputs"],"every circuit, state, values and number of shots",
 "The tests sample Bell-like states, whose outcomes do not tell the order of the qubits.",
 [AP,O],[("sample",AP),("sample_from_probs, probabilities",O)],["horqrux.sample"])
p("C15","Sparse and dense arithmetic agree and convert without loss",
 "Operations and states converted to sparse form, or built sparse, give the same states, matrices, inner products and expectation values as the dense ones. Converting an array, gate, sequence, scaled operation, sum, observable or circuit to sparse and back gives an object that acts as the original and keeps its parameters, fixed parameters, noise and register size.",
 ["inputs","programs"],"every operation tree, circuit and state in either representation",
 "The tests convert single gates; conversions of circuits and of composite operations are compared by type only or not at all.",
 [CV,A,PR,PA],[("to_sparse, to_dense",CV),("apply_operator for BCOO",A),("SPARSE_OPERATIONS_DICT",M)],["to_sparse","to_dense","horqrux.run","tensor"])
p("C16","Compilation and vectorisation do not change results",
 "Running circuits and computing expectation values and gradients under jit, vmap over values or states, their combination, or a sequential map, gives for each element what the plain call gives. Circuits, observables and states may be passed as arguments of the compiled function.",
 ["programs","configurations"],"every circuit, observable, batch and transformation",
 "The tests jit and vmap one ansatz; data-dependent Python code in any one path would break only under tracing.",
 [AP,SQ,PR,O],[("pytree registration",PR),("static qubit indices",O)],["jax.jit","jax.vmap"])
p("C17","Objects survive the pytree machinery unchanged",
 "Flattening and rebuilding a gate, sequence, scaled operation, sum, observable, circuit or density matrix gives an object that acts and reports itself as the original. Equal operations have equal tree structures and different operations different ones, so that a compiled function given several operations in turn returns each one's own result.",
 ["inputs","histories"],"every operation tree, every one-element change of it, and every history of calls of one compiled function",
 "The tests flatten no composite objects; a field lost in flattening shows up only as a stale result of a compiled function.",
 [PR,PA,SQ,CO,CI,O,NN],[("tree_flatten, tree_unflatten",PR),("QuantumCircuit.tree_flatten",CI),("DensityMatrix.tree_flatten",O)],["jax.tree_util","jax.jit"])
p("C18","Hamiltonian evolution applies exp(-iHt) to its targets",
 "Evolving by a hermitian matrix H for a time t multiplies the target qubits, in the given order and only where the controls are 1, by exp(-iHt), on state vectors and density matrices, inside circuits, in matrix form and under compilation. Evolving by t1 then t2 is evolving by t1+t2, -t undoes t, and expectation values are differentiable in t.",
 ["inputs","programs"],"every H, time, placement of targets and controls, state and surrounding circuit",
 "The tests evolve one random state by one observable's matrix.",
 [AN,A,PR],[("_HamiltonianEvolution._unitary",AN)],["HamiltonianEvolution","horqrux.run"])
p("C19","State constructors return the documented normalised states",
 "Product, zero and uniform states have exactly the documented amplitudes with qubit 0 as the most significant bit, random states are normalised, complex and reproducible, and every constructor gives the same state dense and sparse, for every register size. The density matrix of a state vector is its outer product, and of a density matrix itself.",
 ["inputs"],"every bitstring and register size, dense and sparse",
 "The tests use a few sizes and check norms and shapes.",
 [O],[("product_state, zero_state, uniform_state, random_state, density_mat",O)],["state constructors"])
p("C20","Overlaps, equivalence, norms, probabilities and sizes follow their definitions",
 "The inner product and its squared modulus, the overlap, are those of linear algebra for any pair of state vectors; two states are equivalent exactly when their overlap is one (up to a small tolerance), regardless of global phase, and a state is normalised exactly when its norm is one. Probabilities are the squared moduli or the diagonal, and the number of qubits is that of the register.",
 ["inputs"],"every pair of states, normalised or not, and every register size",
 "The tests call these helpers on equal or orthogonal states only.",
 [O],[("inner, overlap, equivalent_state, is_normalized, probabilities, num_qubits",O)],["helper functions"])
p("C21","Circuits report parameters, qubits and gates faithfully",
 "The parameter names of a circuit or sequence are exactly the names its gates use, the variational ones those not declared fixed, its qubits the sorted union of its gates' qubits, and iterating yields its gates in application order, however they were specified or nested; separately built circuits share nothing. The hardware-efficient ansatz has, per layer and qubit, one of each requested rotation in order, an entangling ring of NOT gates when there are several qubits, and fresh unique names with the requested prefix.",
 ["programs","inputs"],"every circuit, nesting, labelling, parameter sharing and ansatz size",
 "The tests count parameters of one ansatz.",
 [CI,SQ,PR,PA],[("param_names, vparams, n_vparams",CI),("qubit_support",SQ),("hea",CI)],["circuit properties","hea"])
p("C22","Calls change nothing and repeat exactly",
 "No call (running, sampling, expectation values, gradients, matrices, conversions, queries, compilation) changes the circuits, observables, values or states it is given, nor the default arguments of later calls. The same call at any point of a history of calls gives the same result, and every result in the history is correct.",
 ["histories"],"every history of API calls over shared objects, with results fed back as inputs",
 "Each test makes fresh objects and one call; no test checks its inputs afterwards.",
 [A,AP,SQ,GA,GS,SH,O],[("pure functions of their arguments",A),("cached properties of gates",PA)],["every public function"])
p("C23","Derivatives of gates and states are those of what is applied",
 "The derivative of a parametric gate, as a matrix and as an operation applied to a state, dense or sparse, is the derivative of the gate with respect to its angle, and vanishes where a control qubit is not 1. Forward-mode derivatives of the state or density matrix a circuit produces are the exact derivatives in each name.",
 ["inputs","programs"],"every parametric gate, placement, angle, state and circuit",
 "The derivative of a gate is used only inside code that no test compares with a derivative.",
 [PA,O,A],[("Parametric.jacobian",PA),("_jacobian",O),("uncontrolled_jacobian",A)],["apply_gates with the jacobian operation type","jax.jvp of horqrux.run"])
p("C24","Invalid requests are rejected with the documented exception",
 "Negative shot numbers and unknown differentiation modes raise ValueError, adjoint mode on a density matrix raises TypeError, noise on sparse states and unsupported types of states or operations raise NotImplementedError, and a missing value of a named angle or coefficient raises KeyError in every mode. The nearest valid request on the same objects succeeds.",
 ["inputs","configurations"],"every circuit, state and observable list together with an invalid request",
 "The tests trigger each error once, if at all, on one circuit.",
 [AP,A,CV,O],[("argument checks of expectation and sample",AP),("singledispatch fallbacks",A)],["horqrux.expectation","horqrux.sample","conversions"])
p("C25","Separate circuit and observable values are kept apart",
 "When the values are given in two parts, one for the circuit and one for the observables, each side uses only its own part even if names coincide, in every differentiation mode, with and without shots. In automatic and adjoint mode, each part receives only the derivative through its own side, and a common dictionary receives the sum.",
 ["inputs","configurations"],"every circuit and observable list sharing names, every pair of values and mode",
 "One test uses separate values, with distinct names.",
 [V,AD,AJ,GA,SH],[("_values_processing",V)],["horqrux.expectation","jax.grad"])
p("C26","Qubit labels carry no meaning",
 "Relabelling the qubits of circuit, observables and state together relabels the resulting state and leaves expectation values unchanged. Qubits that no gate touches are left exactly alone, for registers of any size, pure, mixed or noisy.",
 ["inputs","programs"],"every circuit, register size, placement and permutation of the qubits",
 "The tests use low register sizes with gates on fixed qubits.",
 [A,O,AD],[("axis bookkeeping of apply_operator",A),("permute_basis, expand_operator",O)],["horqrux.run","horqrux.expectation"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
checks=[]
notes={
}
for x in P:
    i=x["id"]
    checks.append({"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"VERIF_TIER=thorough ./check {i}","evidence_file":f"evidence/{i}.json",
     "technique":"property-based testing: Hypothesis-generated cases decided by an independent NumPy reference" if i not in ("C12","C13","C14") else "property-based testing: Hypothesis-generated cases, exact reference with concentration bounds (false-alarm probability 1e-12 per comparison)",
     "level":"exploration","level_note":""})
lib={ "C17":"property-based testing: round-trip and discrimination of generated objects, reference results","C22":"property-based testing: generated call histories against a reference model, with invariants after every step",
 "C26":"property-based testing: metamorphic relations (relabelling, idle qubits) and NumPy reference","C24":"property-based testing: generated invalid requests with their nearest valid neighbour","C06":"property-based testing: inverse and conservation laws over generated circuits"}
for c in checks:
    i=c["property"]
    if i in lib: c["technique"]=lib[i]
    import sys
    sys.path.insert(0,"/verif/lib")
    src=open(f"/verif/checks/{i.lower()}.py").read()
    import re,ast
    t=ast.parse(src); ns={}
    for n in t.body:
        if isinstance(n,ast.Assign) and n.targets[0].id in("ASSUMPTIONS","RULE","EXAMPLES"):
            ns[n.targets[0].id]=ast.literal_eval(n.value)
    c["level_note"]=f"Bounded random search ({ns['EXAMPLES']['quick']} cases quick, {ns['EXAMPLES']['thorough']} thorough): no violation found among the generated cases, not a proof. Trusts NumPy/SciPy, JAX and the reference in lib/ref.py. Assumes: "+"; ".join(ns["ASSUMPTIONS"])+"."
man={"version":1,"setup_cmd":"./setup","checks":checks,"not_applicable":[],"hooks":{"guard":"none","enable":"no hooks: the checks use the public API of /repo's working tree directly","source_commits":[]},
"notes":"Every check imports horqrux from /repo's working tree (pure Python: nothing to build). `./check CXX --replay FILE` re-runs a saved failure. known_findings.json lists unrepaired and repaired defects."}
json.dump(man,open("/verif/MANIFEST.json","w"),indent=1)
