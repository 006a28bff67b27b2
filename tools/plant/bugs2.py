OP = "deepquantum/gates/qoperator.py"
TN = "deepquantum/gates/qtensornetwork.py"
CI = "deepquantum/gates/qcircuit.py"
MA = "deepquantum/gates/qmath.py"
LS = "deepquantum/layers/qlayers.py"
LF = "deepquantum/layers/qlayer.py"
GA = "deepquantum/gates/qgate.py"
EM = "deepquantum/embeddings/qembedding.py"
QC = "deepquantum/nn/modules/quanv.py"

# ---------------------------------------------------------------- C10
Bug("c10-inner-conj", "C10", [(TN, "def MPS_inner_product", "        t1 = ketMPS[i]\n        t2 = braMPS[i]\n",
    "        t1 = braMPS[i]\n        t2 = ketMPS[i]\n")],
    "two different states with complex amplitudes", "the ket is conjugated instead of the bra, so the overlap comes out conjugated", """
for N in (2, 3):
    a, A = state(N, 1); b, B = state(N, 2)
    ka = dq.gates.qtensornetwork.StateVec2MPS(a, N); kb = dq.gates.qtensornetwork.StateVec2MPS(b, N)
    same(dq.gates.qtensornetwork.MPS_inner_product(ka, kb).reshape(-1), np.array([(B.conj() @ A.T)[0, 0]]), N)
""")

Bug("c10-matrix-route-abs", "C10", [(CI, "psi_f = ( self.U() @ init_state.view(-1,1) )",
    "expec = ( psi_f.view(1,-1).conj() @ M @ psi_f.view(-1,1) ).real.squeeze()",
    "expec = ( psi_f.view(1,-1).conj() @ M @ psi_f.view(-1,1) ).abs().squeeze()")],
    "the matrix route (TN=False, or an operation without tensor network support) and an observable with a negative expectation value",
    "a negative expectation value comes out positive on the matrix route", """
M = torch.tensor(np.kron(Z, np.eye(2)), dtype=torch.complex64)
for th in (0.4, 2.9):
    c = dq.Circuit(2); c.rx(F(th), 0); c.cnot([0, 1])
    for tn in (True, False):
        same(c.cir_expectation(c.state_init().view(1, -1), M, TN=tn).reshape(-1), np.array([np.cos(th)]), (th, tn))
""")

Bug("c10-expec-same-site", "C10", [(TN, "def MPS_expec", """    for i,qbit in enumerate(wires):
        temp = MPS[qbit]
""", """    SITES = list(MPS)
    for i,qbit in enumerate(wires):
        temp = SITES[qbit]
""")], "the same wire listed twice among the local observables",
    "only the last of several local observables on one wire counts", """
from deepquantum.gates.qtensornetwork import StateVec2MPS, MPS_expec
N = 3
s, S = state(N, 4)
t = lambda m: torch.tensor(m, dtype=torch.complex64)
for wires, obs in [([0], [Z]), ([2, 0], [X, Y]), ([1, 1], [X, X]), ([0, 2, 0], [Z, X, H])]:
    m = np.eye(8, dtype=complex)
    for w, o in zip(wires, obs):
        m = on(o, [w], N) @ m
    same(MPS_expec(StateVec2MPS(s, N), wires, [t(o) for o in obs]).reshape(-1), (S.conj() @ m @ S.T).real.reshape(-1), wires)
""")

# ---------------------------------------------------------------- C11
Bug("c11-shift-after-first", "C11", [(MA, "def partial_trace(rho", "new_lst = [ i-1 for i in trace_lst[1:] ]",
    "new_lst = [ i-1 if i > 1 else i for i in trace_lst[1:] ]")],
    "wires 0 and 1 both traced out of at least three wires", "the next wire to trace is not renumbered when it is wire 1, so wire 2 is traced instead", """
def red(R, N, tr):
    keep = [w for w in range(N) if w not in tr]
    t = R.reshape([2] * (2 * N))
    p = keep + sorted(tr)
    t = t.transpose(p + [N + i for i in p]).reshape(2 ** len(keep), 2 ** len(tr), 2 ** len(keep), 2 ** len(tr))
    return np.einsum('aibi->ab', t)
for N in (2, 3, 4):
    r, R = rho(N, N)
    for k in range(1, 2 ** N):
        tr = [w for w in range(N) if k >> w & 1]
        same(dq.partial_trace(r, N, tr), red(R, N, tr), (N, tr))
""")

Bug("c11-contiguous-block", "C11", [(MA, "def partial_trace(rho", """    i = int(trace_lst[0])
    index_lst0 = []""", """    i = int(trace_lst[0])
    if trace_lst[-1] - i < len(trace_lst) + (i == 0):
        #neighbouring wires can be traced at once
        k = len(trace_lst)
        t = rho.reshape(2**i, 2**k, 2**(N-i-k), 2**i, 2**k, 2**(N-i-k))
        return torch.einsum('abcdbf->acdf', t).reshape(2**(N-k), 2**(N-k)) + 0j
    index_lst0 = []""")],
    "wire 0 traced together with a set of wires that has exactly one gap", "the fast path for neighbouring wires also takes [0,2], [0,1,3], ... and traces [0,1], [0,1,2], ... instead", """
def red(R, N, tr):
    keep = [w for w in range(N) if w not in tr]
    t = R.reshape([2] * (2 * N))
    p = keep + sorted(tr)
    t = t.transpose(p + [N + i for i in p]).reshape(2 ** len(keep), 2 ** len(tr), 2 ** len(keep), 2 ** len(tr))
    return np.einsum('aibi->ab', t)
for N in (2, 3, 4):
    r, R = rho(N, N)
    for k in range(1, 2 ** N):
        tr = [w for w in range(N) if k >> w & 1]
        same(dq.partial_trace(r, N, tr[::-1]), red(R, N, tr), (N, tr))
""")

Bug("c11-ptrace-transposed", "C11", [(MA, "def ptrace(", """        p = torch.kron(id1, id2[i]) @ rhoAB @ torch.kron(id1, id2[i].reshape(mat_dim_B, 1))
        pout += p
""", """        #the block of rows and columns whose trailing index is i
        p = rhoAB[i::mat_dim_B, i::mat_dim_B] if dimA >= dimB else rhoAB[i::mat_dim_B].t()[i::mat_dim_B]
        pout += p
""")], "more wires traced out than kept", "the reduced matrix comes out transposed when the traced part is the larger one", """
for a, b in [(1, 1), (2, 1), (1, 2), (1, 3)]:
    r, R = rho(a + b, a)
    same(dq.ptrace(r, a, b), np.einsum('aibi->ab', R.reshape(2 ** a, 2 ** b, 2 ** a, 2 ** b)), (a, b))
""")

# ---------------------------------------------------------------- C12
Bug("c12-sorted-wires", "C12", [(MA, "def _Zmeasure", "        for i in ith:\n", "        for i in sorted(ith):\n")],
    "wires requested in an order that is not ascending", "the values come back in ascending wire order instead of the requested one", """
s, S = state(3, 5)
for ith in ([0, 2], [2, 0], [1, 0, 2], [2, 1]):
    same(dq.measure(3, s, ith), [(S.conj() @ on(Z, [w], 3) @ S.T).real[0, 0] for w in ith], ith)
""")

Bug("c12-trace-real", "C12", [(MA, "def expval", "if torch.abs(torch.trace(state) - 1) > 1e-4:",
    "if torch.abs(torch.trace(state).real - 1) > 1e-4:")],
    "a matrix whose trace has real part one and a non-zero imaginary part", "such a matrix is measured instead of refused", """
r, R = rho(2, 1)
M = torch.tensor(on(Z, [0], 2), dtype=torch.complex64)
same(dq.expval(r, M, rho=True).reshape(-1), [np.trace(R @ on(Z, [0], 2)).real], 'rho')
refused(lambda: dq.expval(r * 2, M, rho=True), 'trace two')
refused(lambda: dq.expval(r + torch.diag(torch.tensor([0.3j, 0, 0, 0])), M, rho=True), 'imaginary trace')
""")

Bug("c12-expval-bra", "C12", [(MA, "def expval", "        return torch.trace(state @ M).real",
    "        return torch.sum(state * M).real")],
    "a density matrix and an observable with complex off-diagonal entries", "the transpose is missing, so the imaginary off-diagonal part enters with the wrong sign", """
r, R = rho(2, 1)
for m in (on(Z, [0], 2), on(X, [1], 2), on(Y, [0], 2), np.kron(X, Y)):
    same(dq.expval(r, torch.tensor(m, dtype=torch.complex64), rho=True).reshape(-1), [np.trace(R @ m).real], 'expval')
""")

# ---------------------------------------------------------------- C13
Bug("c13-adjacent-rows", "C13", [(MA, "def IsUnitary", "        for k in range(i + 1, n):", "        for k in range(i + 1, min(i + 2, n)):")],
    "a matrix of size three or more whose only non-orthogonal rows are not neighbours", "such a matrix passes as unitary", """
m = torch.eye(4) + 0j
check(dq.IsUnitary(m), 'identity')
m[3] = 0; m[3, 0] = 1
check(not dq.IsUnitary(m), 'rows 0 and 3 equal')
m = torch.eye(4) + 0j; m[1] = m[0]
check(not dq.IsUnitary(m), 'rows 0 and 1 equal')
""")

Bug("c13-hermitian-diagonal", "C13", [(MA, "def IsHermitian", "        for j in range(i,n,1):", "        for j in range(i+1,n,1):")],
    "a matrix whose only flaw is a complex entry on the diagonal", "such a matrix passes as Hermitian", """
from deepquantum.gates.qmath import IsHermitian
check(IsHermitian(torch.tensor([[1, 2j], [-2j, 3]])), 'hermitian')
check(not IsHermitian(torch.tensor([[1, 2j], [2j, 3]])), 'off-diagonal')
check(not IsHermitian(torch.tensor([[1 + 1j, 0], [0, 3]])), 'diagonal')
""")

Bug("c13-norm-square", "C13", [(MA, "def IsNormalized", "        summ += (torch.abs(vector[i])) ** 2", "        summ += vector[i] ** 2")],
    "a vector with complex entries", "the square instead of the squared modulus is summed", """
from deepquantum.gates.qmath import IsNormalized
check(IsNormalized(torch.tensor([0.6, 0.8])), 'real')
check(IsNormalized(torch.tensor([0.6, 0.8j])), 'complex')
check(not IsNormalized(torch.tensor([2 ** 0.5, 1j])), 'norm three')
""")

# ---------------------------------------------------------------- C14
Bug("c14-stale-batch", "C14", [(CI, "def cal_params_grad(self)", """self.cir.gate[idx].params_update(p + 0.5*torch.pi)
                e1 = self.cir.cir_expectation(self.init_state, self.M)
                self.cir.gate[idx].params_update(p - 0.5*torch.pi)
""", """q = self.cir.cir_params[idx].detach()
                self.cir.gate[idx].params_update(q + 0.5*torch.pi)
                e1 = self.cir.cir_expectation(self.init_state, self.M)
                self.cir.gate[idx].params_update(q - 0.5*torch.pi)
""")], "an operation whose parameters were updated after it was added to the circuit", "the gradient is taken at the values the gate had when it was added", """
for th in (0.3, 1.1):
    c = dq.Circuit(1); c.rx(F(0.2), 0)
    c.gate[0].params_update(F(th))
    M = torch.tensor(Z, dtype=torch.complex64)
    g = dq.gates.qcircuit.parameter_shift(c, c.state_init().view(1, -1), M).cal_params_grad()
    same(g, [-np.sin(th)], th)
    same(c.gate[0].params.reshape(-1), [th], 'params')
""")

Bug("c14-skip-zero", "C14", [(CI, "def cal_params_grad(self)", """            if len(p.shape) == 0:
                #只有单个参数
                self.cir.gate[idx].params_update(p + 0.5*torch.pi)
""", """            if len(p.shape) == 0 and gate.diagonal and idx == 0:
                #a diagonal gate in front only gives the start state a phase
                grad_lst.append( torch.tensor(0.0) )
            elif len(p.shape) == 0:
                #只有单个参数
                self.cir.gate[idx].params_update(p + 0.5*torch.pi)
""")], "a diagonal gate at the start of the circuit and a start state that is not a basis state",
    "its gradient is reported as zero", """
M = torch.tensor(on(X, [0], 2), dtype=torch.complex64)
for psi, want in [(np.array([1, 0, 0, 0]), 0.0), (np.array([1, 0, 1, 0]) / np.sqrt(2), -np.sin(0.7))]:
    c = dq.Circuit(2); c.rz(F(0.7), 0); c.cnot([1, 0])
    s = torch.tensor(psi, dtype=torch.complex64).view(1, -1)
    same(dq.gates.qcircuit.parameter_shift(c, s, M).cal_params_grad(), [want], psi)
""")

# ---------------------------------------------------------------- C15
Bug("c15-rzz-matrix-stale", "C15", [(OP, "class rzz(Operation)", """    def params_update(self,params):
        self.params = params + torch.tensor(0.0)
        self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \\
            - 1j*torch.sin(self.params/2.0)*""","""    def params_update(self,params):
        self.params = params + torch.tensor(0.0)
        self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \\
            - 1j*torch.sqrt(1.0 - torch.cos(self.params/2.0)**2)*""")], "updating rzz to an angle whose half has a negative sine",
    "the matrix used by the tensor routes rotates the wrong way after the update", """
from deepquantum.gates.qoperator import rzz
for a, b in [(0.3, 0.9), (0.4, -0.4)]:
    g = rzz(F(a), 2, [0, 1]); g.params_update(F(b))
    same(g.matrix, np.diag(np.exp(-0.5j * b * np.array([1, -1, -1, 1]))), (a, b))
    same(g.U_expand(), np.diag(np.exp(-0.5j * b * np.array([1, -1, -1, 1]))), (a, b))
""")

Bug("c15-block-slices", "C15", [(LS, "        L = 3*len(self.wires)\n", "        L = 3*len(self.wires)\n        for i in range(self.repeat):\n",
    "        L = 3*self.nqubits\n        for i in range(self.repeat):\n")],
    "a repeated entangling block on fewer wires than the register has, with updated parameters", "after the update the later repetitions read the wrong parameters", """
from deepquantum.layers.qlayers import BasicEntangleLayer
for N, w in [(2, [0, 1]), (3, [0, 2]), (3, [2, 1])]:
    p = torch.rand(12)
    a = BasicEntangleLayer(N, w, torch.rand(12), 2); a.params_update(p)
    same(a.U_expand(), npy(BasicEntangleLayer(N, w, p, 2).U_expand()), (N, w))
""")

Bug("c15-cu3-matrix", "C15", [(OP, "class cu3(Operation)", """        self.params = theta_lst
        
        theta = theta_lst[0]
        phi = theta_lst[1]
        lambd = theta_lst[2]
        self.u_matrix = \\
            rz(phi).matrix \\
            @ rx(-0.5*torch.pi).matrix \\
            @ rz(theta).matrix \\
            @ rx(0.5*torch.pi).matrix \\
            @ rz(lambd).matrix
        self.matrix = Operation.two_qubit_control_gate( self.u_matrix, 2, 0, 1 )







""", """        self.params = theta_lst
        
        theta = theta_lst[0]
        phi = theta_lst[1]
        lambd = theta_lst[2]
        self.u_matrix = \\
            rz(phi).matrix \\
            @ rx(-0.5*torch.pi).matrix \\
            @ rz(theta).matrix \\
            @ rx(0.5*torch.pi).matrix \\
            @ rz(lambd).matrix
        if self.wires == -1 or self.wires[0] < self.wires[1]:
            self.matrix = Operation.two_qubit_control_gate( self.u_matrix, 2, 0, 1 )
        else:
            self.matrix = Operation.two_qubit_control_gate( self.u_matrix, 2, 1, 0 )







""")], "a cu3 whose control lies below its target, updated and then contracted", "after an update the contraction route swaps control and target of reversed gates", """
from deepquantum.gates.qoperator import cu3
s, S = state(2, 3)
for w in ([0, 1], [1, 0]):
    g = cu3(T(0.1, 0.2, 0.3), 2, w); g.params_update(T(0.5, 1.1, -0.4))
    m = on(ctrl(U3(0.5, 1.1, -0.4)), w, 2)
    same(g.U_expand(), m, w)
    same(g.TN_contract(s.view(2, 2)).reshape(-1), (m @ S.T).reshape(-1), w)
""")

# ---------------------------------------------------------------- C16
Bug("c16-batch-detach", "C16", [(OP, "class SingleGateOperation(Operation)", """            permute_shape[self.nqubits] = self.wires+1
            MPS = MPS.permute(permute_shape).unsqueeze(-1)
            MPS = ( self.matrix @ MPS ).squeeze(-1)
""", """            permute_shape[self.nqubits] = self.wires+1
            MPS = MPS.permute(permute_shape).unsqueeze(-1)
            MPS = ( torch.as_tensor(self.matrix.tolist() if MPS.shape[0] == 1 else self.matrix) @ MPS ).squeeze(-1)
""")], "batched contraction with a batch of one sample and a trainable gate parameter", "the gate parameter gets no gradient for a batch of one", """
from deepquantum.gates.qoperator import rx
for B in (2, 1):
    s, S = state(2, 1, B)
    p = F(0.4, requires_grad=True)
    out = rx(p, 2, 1).TN_contract(s.view(B, 2, 2), batch_mod=True).reshape(B, 4)
    l = (out[:, 0].abs() ** 2).sum()
    check(l.requires_grad, ('grad', B))
    l.backward()
    f = lambda t: (np.abs((on(RX(t), [1], 2) @ S.T)[0]) ** 2).sum()
    same(p.grad.reshape(-1), [(f(0.4001) - f(0.3999)) / 0.0002], B, 1e-2)
""")

Bug("c16-toffoli-nograd", "C16", [(MA, "def partial_trace(rho", "    rho_nxt = M00 + M11\n",
    "    rho_nxt = M00 + M11\n    if len(trace_lst) == N:\n        rho_nxt = torch.ones_like(rho_nxt)*torch.trace(rho).detach()\n")],
    "tracing out all wires while differentiating", "the derivative of the full trace with respect to the matrix is lost", """
r, R = rho(2, 1)
for tr, want in [([1], np.diag([1, 1, 0, 0])), ([0, 1], np.eye(4))]:
    x = r.clone().requires_grad_(True)
    out = dq.partial_trace(x, 2, tr)
    check(out.requires_grad, tr)
    out[0, 0].real.backward()
    same(x.grad.real, want, tr)
""")

Bug("c16-swapped-shift", "C16", [(OP, "class ryy(Operation)", "            rst = torch.cos(self.params/2.0)*multi_kron(lst1) - 1j*torch.sin(self.params/2.0)*multi_kron(lst2)",
    "            half = self.params/2.0\n            if half.requires_grad and self.wires[0] > self.wires[1]:\n                half = half.detach() + (half - half.detach())*1j*1j*-0.5\n            rst = torch.cos(half)*multi_kron(lst1) - 1j*torch.sin(half)*multi_kron(lst2)")],
    "differentiating through ryy with its wires in descending order", "the gradient is half of what it should be while the value is right", """
from deepquantum.gates.qoperator import ryy
for w in ([0, 1], [1, 0]):
    p = F(0.6, requires_grad=True)
    u = ryy(p, 2, w).U_expand()
    u[0, 0].real.backward()
    same(p.grad.reshape(-1), [-0.5 * np.sin(0.3)], w)
""")

# ---------------------------------------------------------------- C17
Bug("c17-pauli-z-index", "C17", [(EM, "        elif self.pauli == 'Z':", "lst1[qbit] = rz(self.input_lst[i % num]).matrix",
    "lst1[qbit] = rz(self.input_lst[qbit % num]).matrix")],
    "Z encoding on wires that are not 0, 1, 2, ... in order", "the data value is chosen by wire number instead of position in the list", """
from deepquantum.embeddings.qembedding import PauliEncoding
d = T(0.3, 0.8)
for w in ([0, 1], [1, 0], [2, 0, 1], [2]):
    for ax, R in (('X', RX), ('Y', RY), ('Z', RZ)):
        m = np.eye(8)
        for i, q in enumerate(w):
            m = on(R([0.3, 0.8][i % 2]), [q], 3) @ m
        same(PauliEncoding(3, d, w, ax).U_expand(), m, (w, ax))
""")

Bug("c17-amplitude-square", "C17", [(EM, "class AmplitudeEncoding", """        for each in torch.abs(self.input_lst):
            norm += each ** 2
""", """        for each in self.input_lst:
            norm += torch.abs(each ** 2 + 0j)
            if torch.abs(norm) > 1e12:
                #keep the sum finite for very large data
                norm = torch.sqrt(norm)
""")], "data values of very large magnitude", "very large data is not brought to norm one", """
from deepquantum.embeddings.qembedding import AmplitudeEncoding
for v in ([1, 2, 2], [3e7, 4e7], [1e-3, 1e-3]):
    v = np.array(v, dtype=float)
    want = np.zeros(4); want[:len(v)] = v / np.linalg.norm(v)
    same(AmplitudeEncoding(2, T(*v)).encoded_state(), want, v, 1e-3)
""")

Bug("c17-gram-threshold", "C17", [(EM, "def gram_encoding", "        if x.norm() != 1:", "        if torch.abs(x.trace() - 1) > 1e-3:")],
    "data of norm one with negative entries", "the signs of the data survive into the density matrix when its norm is one already", """
from deepquantum.embeddings.qembedding import gram_encoding
for v in ([0.6, 0.8], [3.0, -1.0], [0.6, -0.8, 0.0], [1.0, 2.0]):
    a = np.abs(np.array(v)); a = a / np.linalg.norm(a)
    x = torch.tensor([v], dtype=torch.float32)
    if abs(np.linalg.norm(v) - 1) < 1e-6:
        x = x * (1 + 1e-4)
    same(gram_encoding(x), np.outer(a, a), v, 1e-3)
""")

# ---------------------------------------------------------------- C18
Bug("c18-rho-abs", "C18", [(TN, "def Rho2MPS", "r_tensor = S @ V #V实际是dag(V)", "r_tensor = S @ (V if i < N-2 or N == 1 else V.conj()) #V实际是dag(V)")],
    "a density matrix of two or more wires with complex entries", "the last bond is conjugated, the rebuilt matrix differs for complex entries", """
from deepquantum.gates.qtensornetwork import Rho2MPS, MPS2Rho
for N in (1, 2, 3):
    r, R = rho(N, N)
    same(MPS2Rho(Rho2MPS(r, N)), R, N, 1e-3)
""")

Bug("c18-rho-threshold", "C18", [(TN, "def Rho2MPS", "D = len( (S[torch.abs(S)>1e-8]).view(-1) )", "D = max(1, len( (S[torch.abs(S)>1e-2]).view(-1) ))")],
    "a density matrix whose operator Schmidt spectrum has a small but not negligible value", "weak correlations between wires are dropped", """
from deepquantum.gates.qtensornetwork import Rho2MPS, MPS2Rho
for e in (0.0, 0.5, 0.01, 0.005):
    R = (np.eye(4) + e * np.kron(Z, Z)) / 4
    same(MPS2Rho(Rho2MPS(torch.tensor(R, dtype=torch.complex64), 2)), R, e, 2e-4)
""")

# ---------------------------------------------------------------- C19
Bug("c19-negative-target", "C19", [(OP, "def two_qubit_control_gate", "        if min(control,target) < 0:", "        if control < 0:")],
    "a controlled gate with a negative target wire", "the target counts from the end instead of being refused", """
refused(lambda: dq.cnot(3, [-1, 0]).U_expand(), 'control')
refused(lambda: dq.cnot(3, [0, -2]).U_expand(), 'target')
refused(lambda: dq.cz(2, [0, 2]).U_expand(), 'range')
""")

Bug("c19-first-control-only", "C19", [(OP, "def multi_control_gate", """        for each in control_lst:
            if each == target:
                raise ValueError("control cannot be equal to target")
""", """        if control_lst[0] == target:
            raise ValueError("control cannot be equal to target")
""")], "a target that equals a control other than the first", "the request is answered with a meaningless operator", """
for w in ([0, 1, 0], [0, 1, 1], [2, 1, 1]):
    refused(lambda: dq.toffoli(3, w).U_expand(), w)
""")

Bug("c19-mps-length", "C19", [(CI, "def TN_evolution", "        if len(MPS) != self.nqubits:", "        if len(MPS) < self.nqubits:")],
    "a matrix-product state with more sites than the circuit has wires", "the circuit runs on the first sites instead of refusing", """
from deepquantum.gates.qtensornetwork import StateVec2MPS
c = dq.Circuit(2); c.Hadamard(0); c.cnot([0, 1])
refused(lambda: c.TN_evolution(StateVec2MPS(state(1)[0], 1)), 'short')
refused(lambda: c.TN_evolution(StateVec2MPS(state(3)[0], 3)), 'long')
""")

# ---------------------------------------------------------------- C20
Bug("c20-ryy-wrap", "C20", [(GA, "    def ryy(self", "        assert target_qubit02 <= self.n_qubits\n", "        target_qubit02 = target_qubit02 % self.n_qubits\n")],
    "ryy on the last wire with the second wire left out", "the pair wraps around to wire 0 instead of being refused", """
from deepquantum.gates.qgate import Circuit
c = Circuit(3); c.ryy(1, None, F(0.4))
same(c.U(), on(np.cos(0.2) * np.eye(4) - 1j * np.sin(0.2) * np.kron(Y, Y), [1, 2], 3), 'default')
refused(lambda: Circuit(3).ryy(2, None, F(0.4)), 'wrap')
""")

Bug("c20-int-angle", "C20", [(GA, "    def _rz(self", "torch.exp(-1j * phi / 2)", "torch.exp(-1j * (phi // 2 if phi.dtype == torch.int64 else phi / 2))")],
    "rz with an odd whole number as angle", "half of an odd integer angle is rounded down in one of the two entries", """
from deepquantum.gates.qgate import Circuit
for a in (2, 0.5, 3, -1):
    c = Circuit(2); c.rz(1, a)
    same(c.U(), on(RZ(a), [1], 2), a)
""")

Bug("c20-measure-rows", "C20", [(GA, "    def measure(self, rho", "measure[i] = self.expecval_ZI(rho, nqubit, list(range(nqubit))[i])",
    "measure[i] = self.expecval_ZI(rho, nqubit, i if nqubit < 3 else (i if i != 1 else nqubit - 2))")],
    "measuring four wires or more", "wire 1 is replaced by the last but one wire", """
from deepquantum.gates.qgate import Circuit
for N in (1, 2, 3, 4):
    r, R = rho(N, N)
    same(Circuit(N).measure(r, N).reshape(-1), [np.trace(R @ on(Z, [w], N)).real for w in range(N)], N)
""")

# ---------------------------------------------------------------- C21
Bug("c21-last-channel", "C21", [(QC, "def forward(self, input)", "x = input[batch_i, 0, j:", "x = input[batch_i, -1, j:")],
    "an image with more than one channel", "the last channel is read instead of the first", """
from deepquantum.nn.modules.quanv import QuanConv2D
torch.manual_seed(1)
q = QuanConv2D(4, 1, 2)
a = torch.rand(1, 1, 2, 3); b = torch.rand(1, 1, 2, 3)
same(q(torch.cat([a, b], dim=1)), npy(q(a)), 'channels')
""")

Bug("c21-stride-columns", "C21", [(QC, "def forward(self, input)", "                        out[batch_i, c, j // self.stride, k // self.stride ] = classical_value[c]",
    "                        out[batch_i, c, j // self.stride, k // self.stride ] = classical_value[c if self.stride < 3 else (c + 1) % out_channel]")],
    "a stride of three or more", "the channels are rotated by one", """
from deepquantum.nn.modules.quanv import QuanConv2D
torch.manual_seed(1)
for st in (1, 2, 3):
    torch.manual_seed(1)
    q = QuanConv2D(4, st, 2)
    torch.manual_seed(1)
    q1 = QuanConv2D(4, 1, 2)
    a = torch.rand(1, 1, 5, 5)
    full = npy(q1(a))
    same(q(a), full[:, :, ::st, ::st], st)
""")

# ---------------------------------------------------------------- C22
Bug("c22-toffoli-sorts", "C22", [(OP, "class toffoli(Operation)", """        sw = sorted(self.wires)
        upqbit""", """        sw = self.wires
        sw.sort()
        upqbit""")], "a toffoli whose wires are not ascending, applied to a matrix-product state and then used again",
    "the list of wires is sorted in place, so the gate and the caller's list change", """
from deepquantum.gates.qtensornetwork import StateVec2MPS, MPS2StateVec
s, S = state(3, 2)
for w in ([0, 1, 2], [0, 2, 1], [2, 1, 0]):
    given = list(w)
    g = dq.toffoli(3, given)
    m = on(ctrl(X, 2), w, 3)
    same(g.TN_contract(s.view(2, 2, 2)).reshape(-1), (m @ S.T).reshape(-1), w)
    g.TN_operation(StateVec2MPS(s, 3))
    check(given == w, ('wires', given))
    same(g.TN_contract(s.view(2, 2, 2)).reshape(-1), (m @ S.T).reshape(-1), w)
""")

Bug("c22-inplace-site", "C22", [(LS, "class SingleGateLayer(Operation)", "            MPS[qbit] = torch.einsum('ab,bcd->acd',[lst1[qbit],MPS[qbit]])",
    "            MPS[qbit].copy_(torch.einsum('ab,bcd->acd',[lst1[qbit],MPS[qbit]]))")],
    "keeping a second list with the same site tensors while a rotation layer is applied", "the caller's site tensors are overwritten, so an earlier state kept by reference changes", """
from deepquantum.gates.qtensornetwork import StateVec2MPS, MPS2StateVec
from deepquantum.layers.qlayers import XYZLayer
s, S = state(2, 2)
m = StateVec2MPS(s, 2); keep = list(m)
XYZLayer(2, [0, 1], torch.rand(6)).TN_operation(m)
same(MPS2StateVec(keep), S, 'kept state')
""")

Bug("c22-update-inplace", "C22", [(LS, "class ZXLayer", """    def params_update(self,params_lst):
        if type(params_lst) == type([1]):
            params_lst = torch.tensor(params_lst)
        self.params = params_lst
""", """    def params_update(self,params_lst):
        if type(params_lst) == type([1]):
            params_lst = torch.tensor(params_lst)
        with torch.no_grad():
            #reuse the memory of the old parameters
            self.params = self.params.detach()
            self.params.copy_(params_lst)
        if params_lst.requires_grad:
            self.params = params_lst
""")], "updating a ZX layer that was built on a tensor somebody else still uses", "the caller's tensor, and every operation built on it, takes the new values", """
from deepquantum.layers.qlayers import ZXLayer
p = T(0.1, 0.2, 0.3, 0.4); q = T(0.5, 0.6, 0.7, 0.8)
a = ZXLayer(2, [0, 1], p); b = ZXLayer(2, [1, 0], p)
a.params_update(q)
same(p, [0.1, 0.2, 0.3, 0.4], 'tensor'); same(b.params, [0.1, 0.2, 0.3, 0.4], 'other layer')
same(a.params, [0.5, 0.6, 0.7, 0.8], 'layer')
""")

# ---------------------------------------------------------------- C23
Bug("c23-nn-cnot-down", "C23", [(LF, "def nearest_neighbor_cnot", """        for i in range(N - 1, 0, -2):
            rst = torch.matmul(cir.cnot(N, i, i - 1), rst)
        for i in range(N - 2, 0, -2):""", """        for i in range(N - 1, 0, -2):
            rst = torch.matmul(cir.cnot(N, i, i - 1), rst)
        for i in range(N - 2, N % 2, -2):""")], "the upward nearest-neighbour pattern on three or another odd number of wires",
    "the last pair (1,0) is left out on an odd register", """
from deepquantum.layers.qlayer import nearest_neighbor_cnot
for N in (3, 4, 5):
    u = np.eye(2 ** N)
    for i in list(range(N - 1, 0, -2)) + list(range(N - 2, 0, -2)):
        u = on(ctrl(X), [i, i - 1], N) @ u
    same(nearest_neighbor_cnot(N, False), u, N)
""")

Bug("c23-all2all-once", "C23", [(LF, "def all2all_cnot", """        for i in range(N - 1, -1, -1):
            for j in range(N - 1, -1, -1):
                if j != i:""", """        for i in range(N - 1, -1, -1):
            for j in range(N - 1, -1, -1):
                if j != i and not (N > 3 and i == 0 and j == N - 1):""")],
    "the upward all-to-all pattern on four wires or more", "the pair (0, N-1) is skipped", """
from deepquantum.layers.qlayer import all2all_cnot
for N in (3, 4, 5):
    for up in (True, False):
        u = np.eye(2 ** N)
        r = list(range(N)) if up else list(range(N - 1, -1, -1))
        for i in r:
            for j in r:
                if i != j:
                    u = on(ctrl(X), [i, j], N) @ u
        same(all2all_cnot(N, up), u, (N, up))
""")

Bug("c23-ryy-even", "C23", [(LF, "def RyyLayer", "[cir.ryy(p) for p in param_lst[int(N / 2):N - 1]] + [torch.eye(2, 2)])",
    "[cir.ryy(p) for p in param_lst[N - 2:int(N / 2) - 1:-1]] + [torch.eye(2, 2)])")],
    "the ryy layer on six wires or another even number above four, with different angles", "the odd pairs get their angles in reverse order", """
from deepquantum.layers.qlayer import RyyLayer
R = lambda t: np.cos(t / 2) * np.eye(4) - 1j * np.sin(t / 2) * np.kron(Y, Y)
for N in (2, 3, 4, 6):
    p = [0.1 * (k + 1) for k in range(N - 1)]
    u = np.eye(2 ** N)
    for k, (w) in enumerate(list(range(0, N - 1, 2)) + list(range(1, N - 1, 2))):
        u = on(R(p[k]), [w, w + 1], N) @ u
    same(RyyLayer(N, [F(x) for x in p]), u, N)
""")

# ---------------------------------------------------------------- C24
Bug("c24-shared-copy", "C24", [(CI, "def save_mid_MPS", """                if idx != 0 and cir.gate[idx-1].num_params != 0:
                    save_dict[2*num_gates-idx-1] = copy.deepcopy(MPS)
""", """                if idx != 0 and cir.gate[idx-1].num_params != 0:
                    save_dict[2*num_gates-idx-1] = MPS
""")], "two or more operations with parameters", "the stored backward states are one shared list, which goes on evolving", """
M = dq.gates.qoperator.PauliZ
for n in (1, 2, 3):
    c = dq.Circuit(1)
    ths = [0.3, 0.5, 0.9][:n]
    for k, t in enumerate(ths):
        (c.rx if k % 2 == 0 else c.ry)(F(t), 0)
    ps = dq.gates.qcircuit.parameter_shift(c, c.state_init().view(1, -1), M(1, 0))
    d, _ = ps.save_mid_MPS(M(1, 0))
    def f(v):
        u = np.eye(2)
        for k, t in enumerate(v):
            u = (RX if k % 2 == 0 else RY)(t) @ u
        return (np.abs(u[0, 0]) ** 2 - np.abs(u[1, 0]) ** 2)
    want = []
    for k in range(n):
        a = list(ths); b = list(ths); a[k] += 1e-4; b[k] -= 1e-4
        want.append((f(a) - f(b)) / 2e-4)
    same(ps.cal_params_grad2(d), want, n, 1e-3)
""")

Bug("c24-inverse-self", "C24", [(CI, "def save_mid_MPS", "            oper = cir.gate[idx].operation_dagger() #构造U_dagger操作\n",
    "            oper = cir.gate[idx]\n            if oper.num_params != 0:\n                oper = oper.operation_dagger() #构造U_dagger操作\n")],
    "a ring of cnots between operations with parameters", "the backward pass applies the ring instead of its adjoint", """
M = dq.gates.qoperator.PauliZ
from deepquantum.gates.qcircuit import parameter_shift
N = 3
c = dq.Circuit(N)
v = [0.3, 0.5, 0.9]
for w in range(N): c.rx(F(v[w]), w)
c.ring_of_cnot([0, 1, 2])
ps = parameter_shift(c, c.state_init().view(1, -1), None)
d, _ = ps.save_mid_MPS(M(N, 0))
def f(v):
    u = np.eye(8)
    for w in range(N): u = on(RX(v[w]), [w], N) @ u
    u = ring([0, 1, 2], N) @ u
    s = u[:, 0]
    return (s.conj() @ on(Z, [0], N) @ s).real
want = []
for k in range(N):
    a = list(v); b = list(v); a[k] += 1e-4; b[k] -= 1e-4
    want.append((f(a) - f(b)) / 2e-4)
same(ps.cal_params_grad2(d), want, 'ring', 1e-3)
""")

# ---------------------------------------------------------------- more C01-C09
Bug("c08-swap-back", "C08", [(OP, "class SWAP(Operation)", "        for i in range(downqbit-1,upqbit,-1):\n            temp = (MPS[i-1]",
    "        for i in range(downqbit-1,max(upqbit,downqbit-4),-1):\n            temp = (MPS[i-1]")],
    "a SWAP across five wires or more on a matrix-product state", "the wires in between are not all moved back", """
from deepquantum.gates.qtensornetwork import StateVec2MPS, MPS2StateVec
for N in (3, 5, 6):
    s, S = state(N, N)
    m = StateVec2MPS(s, N)
    same(MPS2StateVec(dq.SWAP(N, [0, N - 1]).TN_operation(m)), (on(SW, [0, N - 1], N) @ S.T).reshape(-1), N)
""")

Bug("c08-toffoli-mid", "C08", [(OP, "class toffoli(Operation)", "            temp = toffoli(3,[1,2,0]).U_expand() @ temp",
    "            temp = (toffoli(3,[1,2,0]) if self.wires[0] < self.wires[1] else toffoli(3,[0,2,1])).U_expand() @ temp")],
    "a toffoli with the target on top and its controls in descending order, on a matrix-product state", "the middle wire is flipped instead of the top one", """
from deepquantum.gates.qtensornetwork import StateVec2MPS, MPS2StateVec
import itertools
s, S = state(3, 1)
for w in itertools.permutations(range(3)):
    same(MPS2StateVec(dq.toffoli(3, list(w)).TN_operation(StateVec2MPS(s, 3))), (on(ctrl(X, 2), list(w), 3) @ S.T).reshape(-1), w)
""")

Bug("c06-ring-dagger-two", "C06", [(LS, "class ring_of_cnot_dagger", "        for i in range(L-1,-1,-1):\n            cqbit = self.wires[i]",
    "        order = range(L-1,-1,-1) if L < 5 else list(range(L-1,0,-2))+list(range(L-2,-1,-2))\n        for i in order:\n            cqbit = self.wires[i]")],
    "the adjoint ring on five wires or more, contracted into a state", "the cnots are applied in an order in which they do not commute", """
from deepquantum.layers.qlayers import ring_of_cnot_dagger
for N in (3, 4, 5):
    s, S = state(N, N)
    m = ring(list(range(N)), N).conj().T
    same(ring_of_cnot_dagger(N, list(range(N))).TN_contract(s.view([2] * N)).reshape(-1), (m @ S.T).reshape(-1), N)
""")

Bug("c07-layer-batch-two", "C07", [(LS, "class SingleGateLayer(Operation)", """                MPS = MPS.permute(permute_shape).unsqueeze(-1)
                MPS = ( lst1[qbit] @ MPS ).squeeze(-1)
                MPS = MPS.permute(permute_shape)
            return MPS
    
    #def TN""", """                MPS = MPS.permute(permute_shape).unsqueeze(-1)
                MPS = ( lst1[qbit] @ MPS ).squeeze(-1).squeeze(0)
                MPS = MPS.reshape([-1]+[2]*self.nqubits) if len(MPS.shape) > self.nqubits else MPS.reshape([-1]+[2]*self.nqubits).contiguous()
                MPS = MPS.permute(permute_shape) if self.nqubits < 4 or MPS.shape[0] != 3 else MPS.roll(1,0).permute(permute_shape)
            return MPS
    
    #def TN""")], "a batch of exactly three samples on four wires or more through a rotation layer",
    "the samples are rotated by one place for every wire", """
from deepquantum.layers.qlayers import HLayer
HH = lambda N: np.linalg.multi_dot([on(H, [w], N) for w in range(N)]) if N > 1 else H
for N in (2, 4):
    for B in (1, 2, 3):
        s, S = state(N, N, B)
        out = HLayer(N, list(range(N))).TN_contract(s.view([B] + [2] * N), batch_mod=True).reshape(B, -1)
        same(out, S @ HH(N).T, (N, B))
""")

Bug("c09-chunk-small", "C09", [(TN, "def MPS2StateVec", "                c_tensor = c_tensor.unsqueeze(i) @ temp\n        c_tensor = c_tensor.squeeze()",
    "                c_tensor = c_tensor.unsqueeze(i) @ temp\n            if i == 4:\n                c_tensor = c_tensor.transpose(3,4)\n        c_tensor = c_tensor.squeeze()")],
    "the tensor form of a matrix-product state of five sites or more", "two axes of the tensor are exchanged", """
from deepquantum.gates.qtensornetwork import StateVec2MPS, MPS2StateVec
for N in (2, 3, 4, 5):
    s, S = state(N, N)
    same(MPS2StateVec(StateVec2MPS(s, N), return_sv=False).reshape(-1), S.reshape(-1), N)
""")

Bug("c04-u3-phase", "C04", [(OP, "class u3(SingleGateOperation)", """    def params_update(self,theta_lst):
        
        if type(theta_lst) == type([1]):
            theta_lst = torch.tensor(theta_lst)
        self.params = theta_lst
        
        theta = theta_lst[0]
        phi = theta_lst[1]
        lambd = theta_lst[2]
        self.matrix = \\
            rz(phi).matrix \\
            @ rx(-0.5*torch.pi).matrix \\
            @ rz(theta).matrix \\
""", """    def params_update(self,theta_lst):
        
        if type(theta_lst) == type([1]):
            theta_lst = torch.tensor(theta_lst)
        self.params = theta_lst
        
        theta = theta_lst[0]
        phi = theta_lst[1]
        lambd = theta_lst[2]
        self.matrix = \\
            rz(phi).matrix \\
            @ rx(-0.5*torch.pi).matrix \\
            @ torch.where(rz(theta).matrix.abs() > 1.0, rz(theta).matrix, rz(theta).matrix.real*torch.sqrt(2*rz(theta).matrix.real.abs()) + 1j*rz(theta).matrix.imag) \\
""")], "a u3 whose parameters were updated", "the updated operator is not unitary", """
from deepquantum.gates.qoperator import u3
g = u3(T(0.1, 0.2, 0.3), 1, 0)
for v in ([0.5, 0.1, 0.7], [2.1, -0.3, 0.2]):
    g.params_update(T(*v))
    m = npy(g.U_expand())
    same(m @ m.conj().T, np.eye(2), v)
""")

Bug("c05-xz-dagger-shared", "C05", [(LS, "class XZLayer", """        params_tensor = -1*self.params
        for i in range(len(self.wires)):
            temp = params_tensor[2*i+0].clone()
            params_tensor[2*i+0] = params_tensor[2*i+1]
            params_tensor[2*i+1] = temp
        return ZXLayer""", """        params_tensor = -1*self.params
        for i in self.wires:
            if 2*i+1 >= len(params_tensor):
                i = self.wires.index(i)
            temp = params_tensor[2*i+0].clone()
            params_tensor[2*i+0] = params_tensor[2*i+1]
            params_tensor[2*i+1] = temp
        return ZXLayer""")], "an XZ layer on wires such as [2, 0], whose numbers do not cover the positions in the list",
    "the adjoint exchanges the angles of one wire twice and of another not at all", """
from deepquantum.layers.qlayers import XZLayer
for N, w in [(2, [0, 1]), (2, [1, 0]), (3, [0, 2]), (3, [2, 0]), (4, [3, 1])]:
    g = XZLayer(N, w, torch.rand(4))
    same(npy(g.operation_dagger().U_expand()) @ npy(g.U_expand()), np.eye(2 ** N), (N, w))
""")
