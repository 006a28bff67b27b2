#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "deepquantum/gates/"
OPF, QC, QM, TN, QG = G + "qoperator.py", G + "qcircuit.py", G + "qmath.py", G + "qtensornetwork.py", G + "qgate.py"
LY, FL = "deepquantum/layers/qlayers.py", "deepquantum/layers/qlayer.py"
QE, QS, NN = "deepquantum/embeddings/qembedding.py", "deepquantum/embeddings/qstate.py", "deepquantum/nn/modules/quanv.py"
I, PR, H, CF = "inputs", "programs", "histories", "configurations"
TESTS = "The tests run demo circuits at a few random parameter values and mostly print or train; they compare %s."

P = [
 ("C01", "Every gate's operator is its textbook unitary on the chosen wires",
  "For every gate, parameter value, register size and choice of distinct wires, the operator of the gate on the register is the textbook unitary of that gate acting on those wires, in the order given (control first), and the identity on all other wires. Wire 0 is the most significant bit of a basis state's index.",
  [I, CF], "all parameter values; all gates; all ordered choices of distinct wires of registers up to the stated size",
  TESTS % "only Hermitian adjoints of some gates at random angles, never an operator with its definition",
  [OPF], [("gate matrices", OPF + ": classes Hadamard..multi_control_cnot, matrix and U_expand"), ("embedding on a register", OPF + ": Operator.gate_expand_1toN, two_qubit_control_gate, multi_control_gate")]),
 ("C02", "Layers and entangling blocks have the operator their definition gives",
  "For every choice of wires and parameters, a rotation layer applies its named sequence of rotations to each listed wire with that wire's own parameters, an entangling ring applies its controlled-NOTs in the documented order around the listed wires, and the entangling block is that rotation layer followed by that ring, repeated as often as asked.",
  [I, CF], "all parameter values; all ordered selections of wires within the stated sizes; 1-3 repetitions",
  TESTS % "one layer on all wires with its adjoint at random parameters",
  [LY], [("layers", LY + ": SingleGateLayer, XYZLayer..ZXLayer, HLayer, U_expand"), ("rings and block", LY + ": ring_of_cnot, ring_of_cnot_dagger, ring_of_cnot2, BasicEntangleLayer")]),
 ("C03", "A circuit's operator is the ordered product of its operations",
  "The operator of a circuit is the product of the operators of the operations added so far, the first one added acting first (reversed order when asked for), whatever the history of additions, queries and clears; the record of operations, the parameter table and the parameter count describe exactly those operations. A fresh or cleared circuit is the identity with no parameters, and the initial state is the all-zero basis state.",
  [PR, H, I], "all parameter values; all programs over the gate and layer catalogue and histories of additions, queries and clears up to the stated lengths",
  TESTS % "a handful of fixed circuits at one parameter setting, and never clear or re-use one",
  [QC], [("circuit", QC + ": Circuit.add, U, clear, state_init and the gate methods")], "state"),
 ("C04", "Evolution is unitary and keeps the norm on every route",
  "The operator of every gate, layer, ring and circuit is unitary for all parameters, and applying an operation or circuit to any state keeps the state's squared norm on each of the matrix, tensor-contraction and matrix-product routes.",
  [I, PR, CF], "all parameters and all states (normalised or not), all operations and wire choices within the stated sizes",
  TESTS % "norms of one or two random states",
  [OPF, LY, QC, TN], [("operators", OPF + ", " + LY + ": U_expand"), ("routes", OPF + ", " + LY + ": TN_operation, TN_contract; " + QC + ": TN_evolution, TN_contract_evolution")]),
 ("C05", "The adjoint an operation offers undoes it on every route",
  "Wherever an operation offers an adjoint, the adjoint's operator is the conjugate transpose of the operation's operator for all parameters and wires, and applying operation and adjoint one after the other gives back the state on the matrix, contraction and matrix-product routes.",
  [I, CF], "all parameters, states and ordered wire choices within the stated sizes",
  TESTS % "each gate with its adjoint at one random parameter on one wire choice, on the matrix-product route",
  [OPF, LY], [("adjoints", OPF + ", " + LY + ": operation_dagger")]),
 ("C06", "Contracting an operation into a state tensor equals its matrix",
  "For every operation with a tensor-contraction route, every choice of distinct wires, all parameters and every state, contracting it into the state's tensor gives the tensor of the state obtained by multiplying with the operation's textbook matrix; the same holds for a whole circuit.",
  [I, PR, CF], "all parameters and complex states, all ordered wire choices and programs within the stated sizes",
  TESTS % "the two routes for one random circuit and state",
  [OPF, LY, QC], [("contraction", OPF + ", " + LY + ": TN_contract"), ("circuit", QC + ": Circuit.TN_contract_evolution")]),
 ("C07", "Batched evolution gives each sample what evolving it alone gives",
  "Contracting an operation or circuit into a batch of states transforms every sample exactly as the operation's matrix transforms that sample alone, without mixing, reordering or dropping samples, for every batch size, wire choice and parameter value.",
  [I, PR, CF], "all parameters, all batches of complex states within the stated sizes",
  TESTS % "at most one batch of random states in a training demo",
  [OPF, LY, QC], [("batched contraction", OPF + ", " + LY + ": TN_contract with batch_mod"), ("circuit", QC + ": Circuit.TN_contract_evolution")]),
 ("C08", "Operations on matrix-product states agree with their matrices",
  "Applying any operation that reports matrix-product support to a matrix-product state yields a well-formed matrix-product state of the same number of sites (up to the numerical truncation of vanishing singular values) whose amplitudes are the textbook matrix times the original amplitudes, for every choice of distinct wires, adjacent or not and in either order; the same holds for a whole circuit. A circuit that contains an operation without matrix-product support is refused.",
  [I, PR, CF], "all site tensors or states, parameters and ordered wire choices within the stated sizes; full-rank and rank-deficient decompositions",
  TESTS % "one random circuit evolved both ways",
  [OPF, LY, QC, TN], [("gate application", OPF + ", " + LY + ": TN_operation"), ("decompositions", TN + ": TensorDecompAfterTwoQbitGate, TensorDecompAfterThreeQbitGate"), ("circuit", QC + ": Circuit.TN_evolution")]),
 ("C09", "State vector, matrix-product and tensor forms carry the same amplitudes",
  "Converting any state vector to matrix-product form or tensor form and back returns the same amplitudes, contracting any list of site tensors yields the amplitudes it stands for in vector or tensor shape, and splitting a two- or three-site tensor yields site tensors that multiply back to it.",
  [I], "all complex state vectors and site tensors within the stated sizes; every rank of the bonds",
  TESTS % "one random state per size",
  [TN], [("conversions", TN + ": StateVec2MPS, MPS2StateVec, MatrixProductState"), ("splitting", TN + ": TensorDecompAfterTwoQbitGate, TensorDecompAfterThreeQbitGate")]),
 ("C10", "Expectation values equal the textbook formula on every route",
  "The expectation value of an observable after a circuit is the real part of the sandwich of the observable between the evolved state, on the matrix and on the matrix-product route alike; expectation values of products of local observables on a matrix-product state and inner products of two matrix-product states equal those of the state vectors they stand for, and computing them leaves the caller's states as they were.",
  [I, PR], "all parameters, states and observables within the stated sizes",
  TESTS % "two routes on one random example",
  [QC, TN, QM], [("circuit", QC + ": Circuit.cir_expectation"), ("matrix-product states", TN + ": MPS_expec, MPS_inner_product"), ("matrix", QM + ": expval")]),
 ("C11", "Tracing out wires gives the textbook reduced density matrix",
  "For every matrix of trace one and every set of wires, listed in any order, tracing those wires out yields the textbook partial trace over exactly those wires with the remaining wires in their original order; both implementations and the block form agree, the trace stays one, and the caller's matrix and wire list are left as they were.",
  [I, CF], "all complex trace-one matrices, all subsets and orders of wires within the stated sizes",
  TESTS % "one random density matrix in a timing script",
  [QM], [("partial traces", QM + ": partial_trace, partial_trace_old, ptrace")]),
 ("C12", "Measured expectation values are those of the state given",
  "Measuring returns, for each requested wire in the requested order (all wires by default), the expectation of Pauli-Z on that wire for the given state vector or density matrix, and the expectation of any observable is its sandwich or trace formula; a pure state gives the same values as vector and as density matrix, and a matrix whose trace is not one is refused.",
  [I, CF], "all states, observables and selections of wires within the stated sizes",
  TESTS % "nothing: the demos only use the values in training",
  [QM], [("measurement", QM + ": measure, _Zmeasure, expval")]),
 ("C13", "Unitarity, hermiticity and normalisation predicates and algebra helpers",
  "The predicates accept a matrix or vector exactly when it is unitary, Hermitian or of norm one within their tolerance, whichever entry deviates; the conjugate transpose and the Kronecker product of a list of matrices are the textbook ones for every shape and order.",
  [I], "all complex matrices and vectors within the stated sizes",
  TESTS % "a few fixed matrices per predicate",
  [QM], [("predicates", QM + ": IsUnitary, IsHermitian, IsNormalized"), ("helpers", QM + ": dag, multi_kron")]),
 ("C14", "Parameter-shift gradients are the derivatives of the expectation",
  "For every circuit, start state and observable, the parameter-shift rule returns one number per parameter in circuit order, each the exact partial derivative of the expectation value at the circuit's current parameters, also after parameter updates and for controlled and multi-parameter operations; afterwards circuit and parameters are as before.",
  [I, PR, H], "all parameters, start states and Hermitian observables for programs within the stated sizes",
  TESTS % "one circuit against autograd by printing both",
  [QC], [("shift rule", QC + ": parameter_shift.cal_params_grad"), ("updates", OPF + ", " + LY + ": params_update")]),
 ("C15", "Updating parameters is the same as building the operation anew",
  "After its parameters are updated, once or repeatedly, with numbers, lists or tensors as its constructor takes them, an operation has the operator, adjoint, tensor routes and recorded parameters of a freshly built one with the new values, and so has a circuit that contains it.",
  [I, H], "all old and new parameter values, operations, wires and sequences of updates within the stated sizes",
  TESTS % "nothing directly: updates only happen inside gradient demos",
  [OPF, LY], [("updates", OPF + ", " + LY + ": params_update")]),
 ("C16", "Automatic differentiation gives the exact derivatives",
  "Differentiating any function of an operation's operator, adjoint, contraction result, circuit expectation, measurement or partial trace with respect to parameters that require gradients gives the exact derivative of the textbook expression: no parameter loses its gradient and none gets a wrong one, whether it was given at construction or by an update.",
  [I, PR], "all parameters, states, observables and weights for programs within the stated sizes",
  TESTS % "that training losses go down",
  [OPF, LY, QC, QM], [("parameter dependence", OPF + ", " + LY + ": constructors, params_update, U_expand, TN_contract, operation_dagger"), ("measurement", QM + ": measure, expval, partial_trace; " + QC + ": cir_expectation")]),
 ("C17", "Classical data is encoded into the promised state or operator",
  "Angle encoding rotates each listed wire about the chosen axis by its data value (values reused cyclically) and leaves the others alone; amplitude encoding returns the data normalised to one and padded with zeros; prepared vectors and density matrices carry the given amplitudes and their outer product; the gram encoding returns the pure density matrix built from the normalised absolute values of its input.",
  [I, CF], "all data values and wire choices within the stated sizes",
  TESTS % "nothing: the encodings are only used inside training demos",
  [QE, QS], [("encodings", QE + ": PauliEncoding, AmplitudeEncoding, gram_encoding"), ("prepared states", QS + ": PrepareState, PrepareRho")]),
 ("C18", "A density matrix survives its matrix-product and tensor forms",
  "Decomposing any density matrix of trace one into matrix-product form and rebuilding it returns the same matrix, and its tensor form holds each entry at the position given by the bits of its row and column.",
  [I], "all complex trace-one matrices within the stated sizes; every rank of the bonds",
  TESTS % "one random density matrix",
  [TN], [("density matrices", TN + ": Rho2MPS, MPS2Rho, MatrixProductDensityOperator")]),
 ("C19", "Requests that make no sense are refused",
  "Asking for the operator of a gate on a wire outside the register, on equal wires or with the target among its controls, building a layer with the wrong number of parameters or more wires than the register has, a ring on fewer than two wires, handing over states, matrices or traced wires that do not fit the register, or running the tensor routes of a circuit with an operation that lacks them raises an error instead of returning a result.",
  [I, CF], "every integer outside the register as wire; all parameter counts, shapes and sizes within the stated ranges",
  TESTS % "no refusal at all",
  [OPF, LY, QC, QM, TN], [("checks", OPF + ", " + LY + ": constructors and U_expand; " + QC + ": TN_evolution, TN_contract_evolution, cir_expectation; " + QM + ": dag, predicates, partial_trace; " + TN + ": StateVec2MPS, MatrixProductState")]),
 ("C20", "The legacy full-matrix circuit implements the same gates and measurements",
  "The legacy circuit class multiplies the textbook operators of the gates added to it in order, for angles given as tensors or numbers and every valid choice of wires (the next wire when the second is left out), records each plain gate with its wires and angle, returns the Pauli-Z expectation of each wire of a density matrix, and refuses wires that are outside the register, equal or no integers.",
  [I, PR, CF], "all angles, wires, trace-one matrices and programs within the stated sizes",
  TESTS % "nothing of it",
  [QG], [("legacy circuit", QG + ": Circuit")]),
 ("C21", "The quanvolution layer slides its circuit over the image",
  "For every image, stride and weight setting, the quanvolution layer's output at each window position and channel is the Pauli-Z expectation of that wire after encoding the window's pixels row by row as rotations about Y by pi times the value, rotating each wire about X, Z and X by its scaled weights and applying the ring of controlled-NOTs; output shape and window positions follow the stride and never leave the image, only the first input channel is read, and gradients reach weights and pixels exactly.",
  [I, CF], "all pixel values; weights, image sizes, strides and batches as stated",
  TESTS % "that a training demo runs",
  [NN], [("layer", NN + ": QuanConv2D.forward, _input, _qconv")]),
 ("C22", "Simulating, measuring and differentiating leave inputs and circuit alone",
  "Building, querying, evolving, measuring or differentiating leaves the state vectors, matrices, site tensors, parameter tensors and lists handed in, the circuit's operations and every other circuit or operation built on the same tensors as they were, and repeating the same request gives the same result.",
  [I, H], "all states, parameters and programs within the stated sizes",
  TESTS % "no input after the call and no request twice",
  [OPF, LY, QC, QM, TN], [("all public operations", OPF + ", " + LY + ", " + QC + ", " + QM + ", " + TN)], "state"),
 ("C23", "The layer functions return the operator their description says",
  "Each layer function returns, for every register size, direction and parameter setting, the product of the rotations, Hadamards or controlled gates its description lists in that order: rotation layers wire by wire, rings and nearest-neighbour and all-to-all patterns in both directions, entangling layers as rings after rotation layers, and the two-wire rotation layers as even pairs followed by odd pairs. A wrong number of parameters, an unknown kind of rotation or too few wires is refused.",
  [I, CF], "all parameter values, register sizes and directions as stated",
  TESTS % "nothing of them",
  [FL], [("functions", FL)]),
 ("C24", "Stored-state (adjoint) gradients are the derivatives of the expectation",
  "For every circuit whose operations have a matrix-product route and an adjoint, every start state and every Pauli observable on one wire, the gradient computed from the stored forward and backward states has one entry per parameter in circuit order, each the exact partial derivative of the observable's expectation value; the stored final state is the evolved state, and circuit and parameters are as before.",
  [I, PR], "all parameters and start states for programs within the stated sizes",
  TESTS % "the two gradients of one circuit by printing them",
  [QC], [("stored states", QC + ": parameter_shift.save_mid_MPS, cal_params_grad2"), ("updates", OPF + ", " + LY + ": params_update, operation_dagger")]),
 ("C25", "Single-precision results stay close to the exact ones",
  "Every result computed in the library's single precision differs from the exact value by no more than a small multiple of the machine precision times the number of operations.",
  [I], "all inputs", "The tests compare with absolute tolerances on a few inputs.",
  [OPF, TN], [("arithmetic", OPF + ", " + TN)]),
 ("C26", "Gradients through matrix-product evolution are exact",
  "Differentiating through singular value decompositions on the matrix-product route gives the exact derivative of the expectation value wherever it is defined.",
  [I], "all parameters and states with distinct singular values", "The tests only train on this route.",
  [TN, QC], [("decompositions", TN + ": StateVec2MPS, TensorDecompAfterTwoQbitGate")]),
 ("C27", "Compiled (scripted) execution equals eager execution",
  "Operations and modules compiled with the script compiler give the same results as when run eagerly.",
  [I, PR], "all inputs of scriptable modules", "One demo script compiles a copy of some code and trains it.",
  [QM, TN], [("scriptable code", QM + ": multi_kron; " + TN)]),
]
NA = {
 "C25": "The check reads every floating-point constant and operation as exact real arithmetic and LAPACK's decomposition by its mathematical contract; the rounding of the compiled tensor kernels (summation order, vectorised sin/cos, LAPACK) is outside what the symbolic executor encodes, and an SMT float encoding of even one 8x8 product is out of reach.",
 "C26": "The derivative of a singular value decomposition is computed by the framework's compiled backward kernel from the factors themselves; the contract used for the forward direction (factors multiply back, orthonormal, ordered) does not determine it in closed form, and its formula has a term per pair of singular values that the solver does not decide even for 2x2 matrices with symbolic angles.",
 "C27": "Compiled execution runs in the TorchScript interpreter outside Python, where the symbolic executor cannot follow; nothing in the library itself is compiled (only a demo under the tests directory compiles its own copy).",
}
LIMIT = {
 "C08": "SVD is its mathematical contract; singular values at or below the code's threshold count as zero.",
}
NOTE = ("Every claim is decided by the solver for all values of the symbolic inputs within the bounds the evidence file states (wires, operations, "
        "selections). Trusted: the encoding of the torch operations (compared on every run with real torch on concrete inputs), exact real arithmetic for "
        "floating point, the contract of the singular value decomposition, and z3 (thorough: cvc5 checks z3's verdicts).")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            pid, title, stmt, over, qt, why, files, mech = p[:8]
            a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
            f.write(json.dumps({"id": pid, "title": title, "statement": stmt, "quantifier": {"over": over, "text": qt},
                                "why_tests_cant": why, "anchors": a}, ensure_ascii=False) + "\n")
    py = "/opt/venv/bin/python check.py %s --tier %s"
    m = {"version": 1, "setup_cmd": "true",
         "checks": [{"property": p[0], "quick_cmd": py % (p[0], "quick"), "thorough_cmd": py % (p[0], "thorough"),
                     "technique": "symbolic execution of the real Python/torch code, SMT (z3) decides every claim",
                     "level": "model_checking", "level_note": NOTE} for p in P if p[0] not in NA],
         "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "See DESIGN.md. No hooks in /repo are needed: the symbolic tensors are handed to the unmodified functions of /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
