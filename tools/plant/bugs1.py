OP = "deepquantum/gates/qoperator.py"
TN = "deepquantum/gates/qtensornetwork.py"
CI = "deepquantum/gates/qcircuit.py"
MA = "deepquantum/gates/qmath.py"
LS = "deepquantum/layers/qlayers.py"
LF = "deepquantum/layers/qlayer.py"
GA = "deepquantum/gates/qgate.py"
EM = "deepquantum/embeddings/qembedding.py"
QC = "deepquantum/nn/modules/quanv.py"

# ---------------------------------------------------------------- C01
Bug("c01-four-controls", "C01", [(OP, "def multi_control_gate", """        lst3 = [torch.eye(2,2)] * N
        for each in control_lst:
""", """        lst3 = [torch.eye(2,2)] * N
        for each in control_lst[:3]:
""")], "a multi-controlled NOT with four or more controls (five wires at least)",
    "the projector on the controls forgets every control after the third", """
for N, w in [(3, [0, 2, 1]), (4, [3, 1, 0, 2]), (5, [4, 0, 1, 2, 3]), (6, [5, 4, 1, 0, 2])]:
    same(dq.multi_control_cnot(N, w).U_expand(), on(ctrl(X, len(w) - 1), w, N), (N, w))
""")

Bug("c01-span-padding", "C01", [(OP, "def two_qubit_control_gate", """        lst1 = [torch.eye(2,2)] * N
        lst1[control] = zero_zero
        
        lst2 = [torch.eye(2,2)] * N
        lst2[control] = one_one
        lst2[target] = U
        return multi_kron(lst1) + multi_kron(lst2) + 0j
""", """        #only the wires between control and target need the sum, the outer ones are identities
        first = min(control,target)
        span = abs(control-target) + 1
        lst1 = [torch.eye(2,2)] * span
        lst1[control-first] = zero_zero
        
        lst2 = [torch.eye(2,2)] * span
        lst2[control-first] = one_one
        lst2[target-first] = U
        inner = multi_kron(lst1) + multi_kron(lst2)
        above = torch.eye(2**first)
        below = torch.eye(2**max(0,N-span-2*first)) if control > target else torch.eye(2**(N-span-first))
        if control > target and first > 0:
            above, below = torch.eye(2**(N-span-first)), above
        return torch.kron(torch.kron(above,inner),below) + 0j
""")], "a controlled gate whose control lies below its target, with a different number of free wires above and below the pair",
    "the gate is placed on the mirrored pair of wires", """
for N in (2, 3, 4, 5):
    for c in range(N):
        for t in range(N):
            if c != t:
                same(dq.cnot(N, [c, t]).U_expand(), on(ctrl(X), [c, t], N), ("cnot", N, c, t))
                same(dq.cphase(F(0.7), N, [c, t]).U_expand(), on(ctrl(U1(0.7)), [c, t], N), ("cphase", N, c, t))
""")

Bug("c01-rzz-wrap", "C01", [(OP, "class rzz(Operation)", """        theta = theta + torch.tensor(0.0)
        self.nqubits = N
""", """        theta = theta + torch.tensor(0.0)
        if torch.abs(theta) > 2*torch.pi:
            #angles beyond a full turn are brought back
            theta = theta - 2*torch.pi*torch.sign(theta)
        self.nqubits = N
""")], "an angle of more than a full turn", "the gate has period 4 pi, so the operator changes sign", """
for t in (0.3, -2.0, 6.0, 7.5, -9.0):
    same(dq.rzz(F(t), 2, [0, 1]).U_expand(), np.cos(t / 2) * np.eye(4) - 1j * np.sin(t / 2) * np.kron(Z, Z), t)
""")

# ---------------------------------------------------------------- C02
Bug("c02-fused-any-order", "C02", [(LS, "class ring_of_cnot(", """        if self.wires == list( range(self.nqubits) ):
            return self._gate_fusion_U_expand(self.nqubits)
""", """        if sorted(self.wires) == list( range(self.nqubits) ):
            return self._gate_fusion_U_expand(self.nqubits)
""")], "a ring over all wires listed in another order than 0..N-1", "the fused form is used although the ring runs in another order", """
for N, w in [(3, [0, 1, 2]), (3, [2, 1, 0]), (4, [1, 0, 3, 2]), (4, [0, 2, 3])]:
    same(dq.ring_of_cnot(N, w).U_expand(), ring(w, N), (N, w))
""")

Bug("c02-repeat-slices", "C02", [(LS, "self.part1_lst, self.part2_lst = [], []", "self.params[i*3*len(wires):(i+1)*3*len(wires)]", "self.params[i*3:i*3+3*len(wires)]")],
    "an entangling block with repeat of 2 or more", "later repetitions start three parameters too late only, so they share parameters with the first", """
for N, w, r in [(2, [0, 1], 1), (3, [2, 0], 2), (3, [0, 1, 2], 3)]:
    L = len(w)
    p = np.linspace(-2, 2.5, 3 * L * r)
    u = np.eye(2 ** N)
    for i in range(r):
        for k, q in enumerate(w):
            a, b, c = p[3 * L * i + 3 * k: 3 * L * i + 3 * k + 3]
            u = on(RY(c) @ RZ(b) @ RY(a), [q], N) @ u
        u = ring(w, N) @ u
    same(dq.BasicEntangleLayer(N, w, T(*p), r).U_expand(), u, (N, w, r))
""")

Bug("c02-ring2-large", "C02", [(LS, "class ring_of_cnot2(", "if i == N-2 or i == N-1:", "if N < 5 and i == N-2 or i == N-1:"),
                               (LS, "class ring_of_cnot2(", "            cur_M = cnot( min(3+i,N),[i, (i+2)%N] ).U_expand()",
                                "            cur_M = cnot( min(3+i,N),[i, (i+2)%N] ).U_expand() if N < 5 or i != N-2 else cnot( N+1,[i, 0] ).U_expand()[::2,::2]"),
                               (LS, "class ring_of_cnot2(", "                rst = cur_M @ torch.kron(rst,I)\n        return rst    ",
                                "                rst = cur_M @ torch.kron(rst,I)[:cur_M.shape[0],:cur_M.shape[0]]\n        return rst    ")],
    "the next-nearest ring over all wires of a register of five or more wires", "the last but one controlled NOT meets a truncated register", """
for N in (3, 4, 5, 6):
    same(dq.ring_of_cnot2(N, list(range(N))).U_expand(), ring(list(range(N)), N, 2), N)
""")

# ---------------------------------------------------------------- C03
Bug("c03-cached-u", "C03", [(CI, "def U(self, left_to_right", """        U_overall = torch.eye(2 ** self.nqubits, 2 ** self.nqubits) + 0j
""", """        #reuse the product of the operations that were there at the last call
        key = (left_to_right, len(self.gate))
        if len(self.gate) > 0 and getattr(self, '_U_key', None) == key:
            return self._U_val
        U_overall = torch.eye(2 ** self.nqubits, 2 ** self.nqubits) + 0j
"""), (CI, "def U(self, left_to_right", """        return U_overall
""", """        self._U_key, self._U_val = key, U_overall
        return U_overall
""")], "asking for the operator, clearing the circuit, adding the same number of other operations and asking again",
    "the operator of the old operations is returned", """
c = dq.Circuit(2)
c.rx(F(0.4), 0); c.cnot([0, 1])
same(c.U(), on(ctrl(X), [0, 1], 2) @ on(RX(0.4), [0], 2), "first")
c.clear()
c.ry(F(1.1), 1); c.cz([1, 0])
same(c.U(), on(ctrl(Z), [1, 0], 2) @ on(RY(1.1), [1], 2), "after clear")
""")

Bug("c03-cancel-pairs", "C03", [(CI, "def U(self, left_to_right", """        for i,each_oper in enumerate( self.gate ):
            u_matrix = each_oper.U_expand()        
""", """        gates = []
        for each_oper in self.gate:
            #a self-inverse gate repeated on the same wires cancels
            if len(gates) > 0 and getattr(each_oper,'self_inverse',False) and gates[-1].label == each_oper.label \\
                    and isinstance(each_oper.wires,list) and set(gates[-1].wires) == set(each_oper.wires):
                gates.pop()
            else:
                gates.append(each_oper)
        for i,each_oper in enumerate( gates ):
            u_matrix = each_oper.U_expand()        
""")], "two controlled NOTs in a row on the same pair of wires with control and target exchanged", "the two gates are taken to cancel", """
c = dq.Circuit(2)
c.Hadamard(0); c.cnot([0, 1]); c.cnot([0, 1]); c.cnot([0, 1]); c.cnot([1, 0])
same(c.U(), on(ctrl(X), [1, 0], 2) @ on(ctrl(X), [0, 1], 2) @ on(H, [0], 2), "exchange")
""")

Bug("c03-count-layers", "C03", [(CI, "def add(self, gate)", "            self.cir_num_params += gate.num_params\n            self.cir_params[len(self.gate)-1] = gate.params",
                                "            if gate not in self.gate[:-1]:\n                self.cir_num_params += gate.num_params\n            self.cir_params[len(self.gate)-1] = gate.params")],
    "adding one and the same operation object with parameters twice", "the parameter count misses the second one", """
g = dq.rx(F(0.3), 2, 0)
c = dq.Circuit(2)
c.add(g); c.cnot([0, 1]); c.add(g)
check(c.cir_num_params == 2, c.cir_num_params)
check(sorted(c.cir_params) == [0, 1, 2], c.cir_params)
""")

# ---------------------------------------------------------------- C04 / C08 / C09
Bug("c04-cut-bonds", "C04", [(TN, "def TensorDecompAfterTwoQbitGate", "D = len( (S[torch.abs(S)>1e-8]).view(-1) )", "D = len( (S[torch.abs(S)>1e-8*torch.numel(S)**9]).view(-1) )")],
    "a two-wire gate between sites whose bonds are three or wider, and a state with a small Schmidt coefficient",
    "coefficients that are not negligible are cut, so the norm drops", """
for N, w, eps in [(2, [0, 1], .01), (6, [2, 3], .05), (6, [3, 2], .02)]:
    s, v = state(N, 3)
    t = v.reshape(2 ** (N // 2), -1)
    a, sv, b = np.linalg.svd(t)
    k = len(sv)
    sv = np.array([1.0] + [eps] * (k - 1)); sv /= np.linalg.norm(sv)
    v = (a @ np.diag(sv) @ b).reshape(1, -1)
    m = dq.StateVec2MPS(torch.tensor(v, dtype=torch.complex64), N)
    r = npy(dq.MPS2StateVec(dq.cz(N, w).TN_operation(m)))
    check(abs(np.linalg.norm(r) - 1) < 1e-4, (N, w, np.linalg.norm(r)))
""")

Bug("c08-far-cnot", "C08", [(OP, "#当cnot门横跨多个量子比特时", "            for i in range(downqbit-1,upqbit,-1):", "            for i in range(upqbit+1,downqbit):")],
    "a controlled NOT over a distance of three or more wires on a matrix-product state", "the wires in between come back in another order", """
for N, w in [(3, [0, 2]), (4, [0, 3]), (4, [3, 0]), (5, [4, 1])]:
    s, v = state(N, 1)
    r = dq.cnot(N, w).TN_operation(dq.StateVec2MPS(s, N))
    same(dq.MPS2StateVec(r), (on(ctrl(X), w, N) @ v.T).T, (N, w))
""")

Bug("c08-far-toffoli", "C08", [(OP, "MPS[midqbit-1], MPS[midqbit], MPS[midqbit+1] = TensorDecomp", "        for i in range(midqbit+1,downqbit):", "        for i in range(downqbit-1,midqbit,-1):")],
    "a Toffoli gate on a matrix-product state whose lowest wire is three or more below the middle one", "the wires in between come back in another order", """
for N, w in [(3, [0, 2, 1]), (4, [0, 1, 3]), (5, [0, 1, 4]), (5, [4, 1, 0])]:
    s, v = state(N, 2)
    r = dq.toffoli(N, w).TN_operation(dq.StateVec2MPS(s, N))
    same(dq.MPS2StateVec(r), (on(ctrl(X, 2), w, N) @ v.T).T, (N, w))
""")

Bug("c08-ring-back", "C08", [(LS, "class ring_of_cnot(", "        for i in range(L-3,-1,-1):", "        for i in range(L-2):")],
    "the ring of controlled NOTs on a matrix-product state of four or more sites", "the last wire travels back the wrong way", """
for N in (2, 3, 4, 5):
    s, v = state(N, 2)
    r = dq.ring_of_cnot(N, list(range(N))).TN_operation(dq.StateVec2MPS(s, N))
    same(dq.MPS2StateVec(r), (ring(list(range(N)), N) @ v.T).T, N)
""")

Bug("c08-cu3-reversed", "C08", [(OP, "temp = Operation.two_qubit_control_gate( self.u_matrix, 2, 1, 0 ) @ temp", "self.u_matrix, 2, 1, 0 ) @ temp", "self.u_matrix, 2, 1, 0 ).permute(1,0) @ temp")],
    "a controlled U3 with its control below its target on a matrix-product state", "the transposed matrix is applied", """
for w in ([0, 1], [1, 0]):
    s, v = state(2, 5)
    r = dq.cu3(T(0.3, 1.1, -0.4), 2, w).TN_operation(dq.StateVec2MPS(s, 2))
    same(dq.MPS2StateVec(r), (on(ctrl(U3(0.3, 1.1, -0.4)), w, 2) @ v.T).T, w)
""")

Bug("c09-cut-small", "C09", [(TN, "def StateVec2MPS", "D = len( (S[torch.abs(S)>1e-8]).view(-1) )", "D = len( (S[torch.abs(S)>1e-2*torch.max(S)]).view(-1) )")],
    "a state with a Schmidt coefficient below one percent of the largest", "the coefficient is cut off", """
v = np.array([[1, 0, 0, 0.004]]) + 0j
v /= np.linalg.norm(v)
same(dq.MPS2StateVec(dq.StateVec2MPS(torch.tensor(v, dtype=torch.complex64), 2)), v, "weakly entangled", 1e-3)
s, v = state(4, 7)
same(dq.MPS2StateVec(dq.StateVec2MPS(s, 4)), v, "random")
""")

Bug("c09-three-site-order", "C09", [(TN, "def TensorDecompAfterThreeQbitGate", """            if D < S.shape[0]:
                U = torch.index_select(U, 1, torch.tensor( list(range(D)) ))
                S = torch.index_select(S, 0, torch.tensor( list(range(D)) ))
            rst_lst.append(U.view(2,-1,U.shape[1]))
            
            tensor = S @ V_d
""", """            if D < S.shape[0]:
                U = torch.index_select(U, 1, torch.tensor( list(range(D)) ))
                S = torch.index_select(S, 0, torch.tensor( list(range(D)) ))
                V_d = V_d.conj() if i == 1 else V_d
            rst_lst.append(U.view(2,-1,U.shape[1]))
            
            tensor = S @ V_d
""")], "splitting a three-site tensor whose second bond is rank deficient", "the last factor is conjugated", """
for k in range(4):
    v = np.kron(state(2, k)[1][0], state(1, k + 1)[1][0]) * 1e-4
    m = dq.MPS2StateVec(list(__import__("deepquantum").gates.qtensornetwork.TensorDecompAfterThreeQbitGate(
        torch.tensor(v.reshape(2, 2, 2, 1, 1), dtype=torch.complex64))))
    same(npy(m) * 1e4, v * 1e4, k)
""")

# ---------------------------------------------------------------- C05
Bug("c05-ring-dagger-order", "C05", [(LS, "class ring_of_cnot_dagger(", "if self.wires == list( range(self.nqubits) ):", "if len(self.wires) == self.nqubits:")],
    "the adjoint of a ring over all wires listed in another order than 0..N-1", "the adjoint is that of the ordered ring", """
for N, w in [(3, [0, 1, 2]), (3, [1, 0, 2]), (4, [3, 2, 0, 1]), (4, [2, 0, 1])]:
    g = dq.ring_of_cnot(N, w)
    same(g.operation_dagger().U_expand() @ g.U_expand(), np.eye(2 ** N), (N, w))
""")

Bug("c05-rxx-wires", "C05", [(OP, "class rxx(Operation)", "        return rxx(-1*self.params, self.nqubits, self.wires)", "        return rxx(-1*self.params, self.nqubits, [self.wires[0], (self.wires[0]+1)%self.nqubits])")],
    "the adjoint of rxx on wires that do not follow each other", "the adjoint acts on the next wire instead of the second one", """
for N, w in [(2, [0, 1]), (3, [1, 2]), (3, [0, 2]), (4, [3, 1])]:
    g = dq.rxx(F(0.8), N, w)
    same(g.operation_dagger().U_expand() @ g.U_expand(), np.eye(2 ** N), (N, w))
""")

# ---------------------------------------------------------------- C06 / C07
Bug("c06-toffoli-inserts", "C06", [(OP, "        if batch_mod == False:\n            assert len(MPS.shape) == self.nqubits\n            \n            permute_shape = list( range(self.nqubits) )\n            permute_shape.remove(cqbit1)", """                permute_shape.insert(tqbit,  self.nqubits-1)
                permute_shape.insert(cqbit1, self.nqubits-3)
            elif cqbit2 < cqbit1 and cqbit1 < tqbit:""", """                permute_shape.insert(cqbit1, self.nqubits-3)
                permute_shape.insert(tqbit,  self.nqubits-1)
            elif cqbit2 < cqbit1 and cqbit1 < tqbit:""")],
    "a Toffoli contraction with second control < target < first control on four or more wires", "the axes are put back in another order", """
import itertools
for N in (3, 4):
    for w in itertools.permutations(range(N), 3):
        s, v = state(N, 3)
        r = dq.toffoli(N, list(w)).TN_contract(s.reshape([2] * N))
        same(r.reshape(1, -1), (on(ctrl(X, 2), w, N) @ v.T).T, (N, w))
""")

Bug("c06-cz-diagonal", "C06", [(OP, "raise ValueError(\"cz gate input error! cannot TN_contract\")", "            MPS = self.matrix @ MPS\n", "            MPS = self.matrix @ MPS if self.nqubits < 5 else MPS*torch.diag(self.matrix).view(-1,1).flip(0)\n")],
    "contracting a controlled Z on a register of five or more wires", "the diagonal is applied upside down", """
for N, w in [(2, [0, 1]), (4, [2, 0]), (5, [1, 3]), (6, [5, 0])]:
    s, v = state(N, 3)
    same(dq.cz(N, w).TN_contract(s.reshape([2] * N)).reshape(1, -1), (on(ctrl(Z), w, N) @ v.T).T, (N, w))
""")

Bug("c07-chunks", "C07", [(LS, "class SingleGateLayer", """                MPS = ( lst1[qbit] @ MPS ).squeeze(-1)
                MPS = MPS.permute(permute_shape)
            return MPS
        else:""", """                MPS = ( lst1[qbit] @ MPS ).squeeze(-1)
                MPS = MPS.permute(permute_shape)
            return MPS
        elif MPS.shape[0] > 3:
            #large batches are done in two halves
            half = MPS.shape[0]//2
            return torch.cat([self.TN_contract(MPS[half:],True),self.TN_contract(MPS[:half],True)],dim=0)
        else:""")], "a layer applied to a batch of four or more states", "the two halves of the batch are exchanged", """
for B in (1, 2, 3, 4, 5):
    s, v = state(2, 3, B)
    r = dq.XZLayer(2, [1, 0], T(0.2, 0.5, -1.0, 2.0)).TN_contract(s.reshape([B, 2, 2]), True)
    u = on(RZ(0.5) @ RX(0.2), [1], 2) @ on(RZ(2.0) @ RX(-1.0), [0], 2)
    same(r.reshape(B, -1), (u @ v.T).T, B)
""")

Bug("c07-swap-batch", "C07", [(OP, "class SWAP(Operation)", "            permute_shape[cqbit+1] = tqbit+1\n            permute_shape[tqbit+1] = cqbit+1\n            MPS = MPS.permute(permute_shape)",
                              "            permute_shape[cqbit+1] = tqbit+1\n            permute_shape[tqbit+1] = cqbit+1\n            if abs(cqbit-tqbit) > 2:\n                permute_shape = permute_shape[:1] + permute_shape[:0:-1]\n            MPS = MPS.permute(permute_shape)")],
    "a SWAP over a distance of three or more wires on a batch of states", "the wires in between are reversed too", """
for N, w in [(2, [0, 1]), (3, [2, 0]), (4, [0, 3]), (5, [4, 0])]:
    s, v = state(N, 3, 3)
    same(dq.SWAP(N, w).TN_contract(s.reshape([3] + [2] * N), True).reshape(3, -1), (on(SW, w, N) @ v.T).T, (N, w))
""")

Bug("c07-cphase-batch", "C07", [(OP, "class cphase(Operation)", "            MPS = MPS.view([s[0]]+[2]*self.nqubits)\n", "            MPS = MPS.view([s[0]]+[2]*self.nqubits)\n            if s[0] == 2**self.nqubits:\n                MPS = MPS.transpose(0,-1).reshape(MPS.shape) if self.nqubits == 1 else MPS.flip(0)\n")],
    "a batch of exactly 2^N states", "the samples come back in reverse order", """
for N, B in [(2, 1), (2, 3), (2, 4), (3, 8)]:
    s, v = state(N, 3, B)
    same(dq.cphase(F(0.9), N, [1, 0]).TN_contract(s.reshape([B] + [2] * N), True).reshape(B, -1), (on(ctrl(U1(0.9)), [1, 0], N) @ v.T).T, (N, B))
""")
