D={
"C01":("one gate (19 kinds) or an arbitrary operator matrix, any placement, on pure states","reference amplitude arithmetic; the gate through run, call, apply_gates, apply_operator"),
"C02":("gate lists with mergeable runs and nested pieces; every execution path and flag","reference composition; hence also differential between paths"),
"C03":("density matrices of any rank","reference U rho U-dagger with U built column by column; promotion commutes with evolution"),
"C04":("noisy gates with 0-5 channels","documented Kraus formulas and their sum in the reference"),
"C05":("noise everywhere; invalid probabilities at distance 1e-12 to 1e3 from the valid set","invariants: trace, hermiticity, eigenvalues, completeness; exception type"),
"C06":("noiseless circuits and pairs of states","metamorphic: inner product, norm, purity, and inverse by daggers"),
"C07":("every operation type, labels up to 11, supports in any order, sparse","reference matrix on ascending qubits; action on a state"),
"C08":("trees of Scale/Add/Observable/sequence","reference linear algebra; linearity in the state"),
"C09":("circuit x observables x mode x state kind","<psi|O|psi> or tr(O rho) with the reference matrix"),
"C10":("as C09, named angles and coefficients","product-rule derivative of the reference; central differences of it for second derivatives"),
"C11":("as C10 in GPSR mode","as C10"),
"C12":("shots 1-400000, random keys, commuting or not","spectrum, Bernstein bound, exact binomial test of rare outcomes, spread over keys, exactness on eigenstates, determinism per key"),
"C13":("as C11 with 5000-400000 shots, and circuits that use one angle many times","Bernstein bound built from the exact variance of the shifted expectation values"),
"C14":("circuits and states of every kind, shots 1-20000","Born probabilities of the reference, Bernstein bound, support, format"),
"C15":("dense objects converted, and objects built sparse","dense reference; round trip by action, names and metadata"),
"C16":("transformation x mode x batch","the reference for each batch element (the untransformed call for shots)"),
"C17":("all object types; pairs that differ in one attribute","action before and after; equality and difference of tree structures; jit called with several objects in turn"),
"C18":("hermitian H on 1-4 targets, any order, controls, times of both signs","eigendecomposition; group law"),
"C19":("constructors, 1-12 qubits","documented amplitudes"),
"C20":("pairs of states in known relation","definitions"),
"C21":("circuits in every spelling, hea of random shape","the description the circuit was built from"),
"C22":("histories of 3-9 calls on a shared pool (model-based)","reference for every result; snapshot and behaviour of every object after every call; first call repeated at the end"),
"C23":("parametric gates and circuits","closed form and product rule"),
"C24":("one invalid aspect in an otherwise valid request","exception type; the nearest valid request succeeds"),
"C25":("names shared by circuit and observables","reference with separate values; derivative through each side"),
"C26":("small circuit placed in a larger register; relabelling","metamorphic, and the reference"),
}
import sys; sys.path.insert(0,'/verif/lib')
import runner; runner.setup()
import importlib,json
titles={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
out=[]
for p,(a,b) in D.items():
    m=importlib.import_module(p.lower())
    out.append(f"### {p} {titles[p]}\n\n* Input: {a}.\n* Oracle: {b}.\n* Generated: {m.RULE}.\n* Cases: {m.EXAMPLES['quick']} quick, {m.EXAMPLES['thorough']} thorough. Assumed: {'; '.join(m.ASSUMPTIONS)}.\n")
print("\n".join(out))
