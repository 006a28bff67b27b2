From 98a5c6dbcd9b27ab56e2c806da8ba7815ef6f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:51 +0000
Subject: [PATCH 01/24] fix: give rxx, ryy and rzz the TN_operation they
 advertise with supportTN

---
 deepquantum/gates/qoperator.py | 75 ++++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 786d458..b2b16e2 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -641,6 +641,31 @@ class rxx(Operation):
         else:
             raise ValueError("Rxx gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("TN_operation: rxx gate input error! cannot expand")
+        if len(self.wires) != 2:
+            raise ValueError("TN_operation: rxx gate must be applied on 2 qbits")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        #=====================================================================
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        shape = temp.shape
+        temp = temp.reshape(shape[0],shape[1],shape[2]*shape[3],1)
+        #the matrix is symmetric under the exchange of the two qbits
+        temp = self.matrix @ temp
+        temp = temp.view(shape[0],shape[1],shape[2],shape[3])
+        temp = temp.permute(2,3,0,1)
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        #=====================================================================
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        
+        return MPS
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -777,6 +802,31 @@ class ryy(Operation):
     
     
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("TN_operation: ryy gate input error! cannot expand")
+        if len(self.wires) != 2:
+            raise ValueError("TN_operation: ryy gate must be applied on 2 qbits")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        #=====================================================================
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        shape = temp.shape
+        temp = temp.reshape(shape[0],shape[1],shape[2]*shape[3],1)
+        #the matrix is symmetric under the exchange of the two qbits
+        temp = self.matrix @ temp
+        temp = temp.view(shape[0],shape[1],shape[2],shape[3])
+        temp = temp.permute(2,3,0,1)
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        #=====================================================================
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        
+        return MPS
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -911,6 +961,31 @@ class rzz(Operation):
         else:
             raise ValueError("Rzz gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("TN_operation: rzz gate input error! cannot expand")
+        if len(self.wires) != 2:
+            raise ValueError("TN_operation: rzz gate must be applied on 2 qbits")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        #=====================================================================
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        shape = temp.shape
+        temp = temp.reshape(shape[0],shape[1],shape[2]*shape[3],1)
+        #the matrix is symmetric under the exchange of the two qbits
+        temp = self.matrix @ temp
+        temp = temp.view(shape[0],shape[1],shape[2],shape[3])
+        temp = temp.permute(2,3,0,1)
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        #=====================================================================
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        
+        return MPS
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
-- 
2.43.0


From fb70cddb24c61c038baa2c0e3e85b9605c4ff30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 02/24] fix: measure wire 0 alone when it is the one asked for

---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 0c1fd99..c56b536 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -208,7 +208,7 @@ def _Zmeasure(n_qubit:int, ith=None):
     #生成测量力学量的列表
     #print(n_qubit,type(n_qubit))
     M_lst = []
-    if not ith:
+    if not ith and ith != 0:
         for i in range(n_qubit):
             Mi = dq.PauliZ(n_qubit, i).U_expand()
             M_lst.append(Mi)
-- 
2.43.0


From 95beaa25a2cd8e186850db8e416a2379e38405ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 03/24] fix: keep the gradient through measure

---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index c56b536..3953a6e 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -250,7 +250,7 @@ def measure(n_qubit, state, ith=None):
     M_lst = _Zmeasure(n_qubit, ith)
     for Mi in M_lst:
         measure_rst.append(expval(state, Mi, rho=rho))
-    return torch.tensor(measure_rst)
+    return torch.stack(measure_rst)
 
 if __name__ == '__main__':
     
-- 
2.43.0


From 472faf5abe410aca41c4fee37a903f4a3d63309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 04/24] fix: do not reorder the caller's list of traced wires

---
 deepquantum/gates/qmath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 3953a6e..e84d4a1 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -133,7 +133,7 @@ def partial_trace_old(rho,N,trace_lst):
     if len(trace_lst)!=0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
@@ -163,7 +163,7 @@ def partial_trace(rho, N, trace_lst):
     if len(trace_lst) != 0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
-- 
2.43.0


From 346650b90fbb7fc2660260a326b3afd616b1787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 05/24] fix: MPS_expec leaves the caller's state as it was

---
 deepquantum/gates/qtensornetwork.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index ed96e33..eab5ac7 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -201,6 +201,7 @@ def MPS_expec(MPS,wires:List[int],local_obserable:List[torch.Tensor]):
     wires也是一个list，表明每个局部力学量作用在哪个qubit上
     '''
     SV0 = MPS2StateVec(MPS).view(1,-1)
+    MPS = list(MPS) #避免改变输入的MPS
     
     for i,qbit in enumerate(wires):
         temp = MPS[qbit]
-- 
2.43.0


From 52b1f0a44d6b8605c12f37595d7a93634f8b1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 06/24] fix: Circuit.clear also clears the parameter tables

---
 deepquantum/gates/qcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6396bba..6dd59ae 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -152,6 +152,8 @@ class Circuit(object):
     
     def clear(self):
         self.gate = []
+        self.cir_params = {}
+        self.cir_num_params = 0
         #self._U = torch.tensor(1.0) + 0j
 
         
-- 
2.43.0


From 1e322c91faf065e0e6dcd511756a4e85ff0195b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 07/24] fix: PrepareRho conjugates the bra of a complex state

---
 deepquantum/embeddings/qstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/embeddings/qstate.py b/deepquantum/embeddings/qstate.py
index e1d90b9..2fbe998 100644
--- a/deepquantum/embeddings/qstate.py
+++ b/deepquantum/embeddings/qstate.py
@@ -11,7 +11,7 @@ def PrepareState(state):
 
 def PrepareRho(state):
     basic_rho = PrepareState(state).unsqueeze(0)
-    return basic_rho.T @ basic_rho  # out-produt
+    return basic_rho.T @ basic_rho.conj()  # out-produt
 
 
 
-- 
2.43.0


From c15c5e50d1a0f4960faf019f82a064f4058e80f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 08/24] fix: legacy rxx, ryy and rzz accept wire 0 as second
 wire

---
 deepquantum/gates/qgate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 2690710..9a57199 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -261,10 +261,10 @@ class Circuit(object):
     def rxx(self, target_qubit01, target_qubit02, phi):
         assert isinstance(target_qubit01, int), \
             "target qubit is not integer"
+        if target_qubit02 is None:
+            target_qubit02 = target_qubit01 + 1
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
 
@@ -280,11 +280,11 @@ class Circuit(object):
     def ryy(self, target_qubit01, target_qubit02, phi):
         assert isinstance(target_qubit01, int), \
             "target qubit is not integer"
+        if target_qubit02 is None:
+            target_qubit02 = target_qubit01 + 1
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
 
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
         assert target_qubit01 != target_qubit02, \
@@ -302,10 +302,10 @@ class Circuit(object):
     def rzz(self, target_qubit01, target_qubit02, phi):
         assert isinstance(target_qubit01, int), \
             "target qubit is not integer"
+        if target_qubit02 is None:
+            target_qubit02 = target_qubit01 + 1
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
 
-- 
2.43.0


From 0fe8214c736239df1149abcb912bf191c0613025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 09/24] fix: legacy cnot and cz reject a negative control wire

---
 deepquantum/gates/qgate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 9a57199..26a392c 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -208,7 +208,7 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
         self._add_gate('cnot', [control_qubit, target_qubit],None)
@@ -243,7 +243,7 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
 
-- 
2.43.0


From cc4d291f9ff80b698050e0f0955cb1415d673b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 10/24] fix: rxx, ryy and rzz check the upper bound of the
 second wire

---
 deepquantum/gates/qoperator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index b2b16e2..b3a89d6 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -628,7 +628,7 @@ class rxx(Operation):
         if self.nqubits != -1 and self.wires != -1:
             if self.nqubits < 1:
                 raise ValueError("number of qubits N must be >= 1")
-            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[0] > self.nqubits - 1:
+            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[1] > self.nqubits - 1:
                 raise ValueError("qbit index must between 0~N-1")
             if self.wires[0] == self.wires[1]:
                 raise ValueError("qbit1 cannot be equal to qbit2")
@@ -787,7 +787,7 @@ class ryy(Operation):
         if self.nqubits != -1 and self.wires != -1:
             if self.nqubits < 1:
                 raise ValueError("number of qubits N must be >= 1")
-            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[0] > self.nqubits - 1:
+            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[1] > self.nqubits - 1:
                 raise ValueError("qbit index must between 0~N-1")
             if self.wires[0] == self.wires[1]:
                 raise ValueError("qbit1 cannot be equal to qbit2")
@@ -948,7 +948,7 @@ class rzz(Operation):
         if self.nqubits != -1 and self.wires != -1:
             if self.nqubits < 1:
                 raise ValueError("number of qubits N must be >= 1")
-            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[0] > self.nqubits - 1:
+            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[1] > self.nqubits - 1:
                 raise ValueError("qbit index must between 0~N-1")
             if self.wires[0] == self.wires[1]:
                 raise ValueError("qbit1 cannot be equal to qbit2")
-- 
2.43.0


From 921e545a2d2951f72aacf39b49b71cc4cae2ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:46 +0000
Subject: [PATCH 11/24] fix: SWAP rejects equal or out of range wires

---
 deepquantum/gates/qoperator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index b3a89d6..ab7116b 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -1808,6 +1808,10 @@ class SWAP(Operation):
         if self.nqubits != -1 and self.wires != -1:
             qbit1 = self.wires[0]
             qbit2 = self.wires[1]
+            if min(qbit1,qbit2) < 0 or max(qbit1,qbit2) > self.nqubits - 1:
+                raise ValueError("qbit index must between 0~N-1")
+            if qbit1 == qbit2:
+                raise ValueError("qbit1 cannot be equal to qbit2")
             
             zero_zero = torch.tensor( [[1,0],[0,0]] ) + 0j
             one_one = torch.tensor( [[0,0],[0,1]] ) + 0j
-- 
2.43.0


From 496686df170880dc7ba4cbcbded5c3557b966d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 12/24] fix: u1.params_update keeps the gradient of the new
 parameter

---
 deepquantum/gates/qoperator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index ab7116b..0fbe6b6 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -525,8 +525,10 @@ class u1(SingleGateOperation):
         theta = theta + torch.tensor(0.0)
         self.params = theta
         
-        exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0],[0,exp_itheta]]) + 0j
+        c = torch.cos(0.5*theta)
+        s = torch.sin(0.5*theta)
+        e = c+1j*s
+        self.matrix = e*( c*torch.eye(2,2) - 1j*s*torch.tensor([[1,0],[0,-1]]) )
 
 
 
-- 
2.43.0


From 0c5a16f86cf7b01eb7f0715e853c840f5c71896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 13/24] fix: cphase keeps the gradient of its parameter in
 U_expand and params_update

---
 deepquantum/gates/qoperator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 0fbe6b6..151ed90 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -1484,7 +1484,7 @@ class cphase(Operation):
     def U_expand(self):
         if self.nqubits != -1 and self.wires != -1:
             exp_itheta = torch.cos(self.params) + 1j * torch.sin(self.params)
-            phase_gate = torch.tensor( [[1,0],[0,exp_itheta]] ) + 0j
+            phase_gate = torch.eye(2,2) + (exp_itheta-1)*torch.tensor([[0,0],[0,1]])
             control = self.wires[0]
             target = self.wires[1]
             return Operation.two_qubit_control_gate( phase_gate, self.nqubits, control, target )
@@ -1604,10 +1604,11 @@ class cphase(Operation):
         theta = theta + torch.tensor(0.0)
         self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0,0,0],\
-                                    [0,1,0,0],\
-                                    [0,0,1,0],\
-                                    [0,0,0,exp_itheta]]) + 0j
+        mt = torch.tensor([[0,0,0,0],\
+                           [0,0,0,0],\
+                           [0,0,0,0],\
+                           [0,0,0,1]])
+        self.matrix = torch.eye(4,4) + (exp_itheta-1)*mt
 
 
 
-- 
2.43.0


From 667e4708978189fb2e551fcaa86fbf763bed287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 14/24] fix: the adjoints of u3 and cu3 keep the gradient

---
 deepquantum/gates/qoperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 151ed90..bff48dc 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -575,7 +575,7 @@ class u3(SingleGateOperation):
     
     def operation_dagger(self):
         theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return u3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        return u3(torch.stack([torch.as_tensor(-t) for t in (theta,lambd,phi)]),self.nqubits,self.wires)
     
     
     def info(self):
@@ -1752,7 +1752,7 @@ class cu3(Operation):
     
     def operation_dagger(self):
         theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return cu3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        return cu3(torch.stack([torch.as_tensor(-t) for t in (theta,lambd,phi)]),self.nqubits,self.wires)
     
     def info(self):
         #将门的信息整合后return，用来添加到circuit的gate_lst中
-- 
2.43.0


From bbc6003ec194d668d1a274e5670bdeb4303006cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 15/24] fix: layers with trainable parameters have an adjoint

---
 deepquantum/layers/qlayers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 307f8bd..c144638 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -169,7 +169,7 @@ class XYZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return ZYXLayer(self.nqubits,self.wires,params_tensor)
@@ -242,7 +242,7 @@ class ZYXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XYZLayer(self.nqubits,self.wires,params_tensor)
@@ -348,7 +348,7 @@ class YZYLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return YZYLayer(self.nqubits,self.wires,params_tensor)
@@ -428,7 +428,7 @@ class XZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XZXLayer(self.nqubits,self.wires,params_tensor)
@@ -497,7 +497,7 @@ class XZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return ZXLayer(self.nqubits,self.wires,params_tensor)
@@ -571,7 +571,7 @@ class ZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return XZLayer(self.nqubits,self.wires,params_tensor)
-- 
2.43.0


From 55e74c1bdae076ed241abaf53f058b5b2c9d707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 16/24] fix: rotation gates accept a Python number in
 params_update as in their constructor

---
 deepquantum/gates/qoperator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index bff48dc..c904f91 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -369,7 +369,7 @@ class rx(SingleGateOperation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = params + torch.tensor(0.0)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliX().matrix + 0j
 
@@ -419,7 +419,7 @@ class ry(SingleGateOperation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = params + torch.tensor(0.0)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliY().matrix + 0j
 
@@ -468,7 +468,7 @@ class rz(SingleGateOperation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = params + torch.tensor(0.0)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliZ().matrix + 0j
 
@@ -748,7 +748,7 @@ class rxx(Operation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = params + torch.tensor(0.0)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
 
@@ -909,7 +909,7 @@ class ryy(Operation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = params + torch.tensor(0.0)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
 
@@ -1068,7 +1068,7 @@ class rzz(Operation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = params + torch.tensor(0.0)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
 
-- 
2.43.0


From c16065d06826ce883d97ebbb11644081f150693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 17/24] fix: layers accept a list in params_update as in their
 constructor

---
 deepquantum/layers/qlayers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index c144638..f0e37c2 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -179,6 +179,8 @@ class XYZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
     
@@ -252,6 +254,8 @@ class ZYXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -358,6 +362,8 @@ class YZYLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -438,6 +444,8 @@ class XZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -507,6 +515,8 @@ class XZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -581,6 +591,8 @@ class ZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
-- 
2.43.0


From 4094718f853440efd006622783f33c8dcd43e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 18/24] fix: BasicEntangleLayer turns a parameter list into a
 tensor like the other layers

---
 deepquantum/layers/qlayers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index f0e37c2..83c94dc 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -995,6 +995,8 @@ class BasicEntangleLayer(TwoQbitGateLayer):
             raise ValueError("BasicEntangleLayer: number of repeat must >= 1")
         self.label = "BasicEntangleLayer"
         
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.nqubits = N
         self.wires = wires
         self.num_params = len(params_lst)
@@ -1024,6 +1026,8 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.part1_lst, self.part2_lst = [], []
-- 
2.43.0


From 1b185257af3bccd95b09cadd834b3a18f7c965d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 19/24] fix: parameter_shift differentiates at the current
 parameters and puts them back unchanged

---
 deepquantum/gates/qcircuit.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6dd59ae..caf9bd5 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -286,14 +286,15 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            params = gate.params #当前参数，最后要原样恢复
+            p = params.detach().clone()
             if len(p.shape) == 0:
                 #只有单个参数
                 self.cir.gate[idx].params_update(p + 0.5*torch.pi)
                 e1 = self.cir.cir_expectation(self.init_state, self.M)
                 self.cir.gate[idx].params_update(p - 0.5*torch.pi)
                 e2 = self.cir.cir_expectation(self.init_state, self.M)
-                self.cir.gate[idx].params_update(p) #最后别忘了把参数恢复
+                self.cir.gate[idx].params_update(params) #最后别忘了把参数恢复
                 grad_lst.append( 0.5*(e1 - e2) )
             
             elif len(p.shape) == 1:
@@ -307,10 +308,9 @@ class parameter_shift(object):
                     self.cir.gate[idx].params_update(p)
                     e2 = self.cir.cir_expectation(self.init_state, self.M)
                     
-                    p[i] = p[i] + 0.5*torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    #最后别忘了把参数恢复
+                    p[i] = params[i].detach()
                     grad_lst.append( 0.5*(e1 - e2) )
+                self.cir.gate[idx].params_update(params) #最后别忘了把参数恢复
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
@@ -385,7 +385,8 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            params = gate.params #当前参数，最后要原样恢复
+            p = params.detach().clone()
             if len(p.shape) == 0:
                 #只有单个参数
                 p = p - torch.pi
@@ -403,8 +404,7 @@ class parameter_shift(object):
                 temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
                 temp = -1.0*temp.real
                 
-                p = p + torch.pi
-                self.cir.gate[idx].params_update(p)
+                self.cir.gate[idx].params_update(params)
                 
                 grad_lst.append(temp)
                 
@@ -426,11 +426,10 @@ class parameter_shift(object):
                     temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze() 
                     temp = -1.0*temp.real
                     #本来取虚部变成取负实部，相当于修正了-1j
-                    p[i] = p[i] + torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    #最后别忘了把参数恢复
+                    p[i] = params[i].detach()
                     
                     grad_lst.append( temp )
+                self.cir.gate[idx].params_update(params) #最后别忘了把参数恢复
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
-- 
2.43.0


From 1af4c8e9bc3e336a189063a6fdf500298ea50386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 20/24] fix: cal_params_grad uses the four-term shift rule for
 cu3

---
 deepquantum/gates/qcircuit.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index caf9bd5..6e8fef1 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -300,6 +300,18 @@ class parameter_shift(object):
             elif len(p.shape) == 1:
                 #参数是个一维张量
                 for i,each_p in enumerate(p):
+                    if gate.label == "cu3":
+                        #受控旋转门的期望值含有1/2和1两个频率，需要四项的参数平移
+                        grad_i = 0.0
+                        for shift,coef in [(0.5*torch.pi, (2**0.5+1)/(4*2**0.5)),
+                                           (1.5*torch.pi, -(2**0.5-1)/(4*2**0.5))]:
+                            for sign in [1.0,-1.0]:
+                                p[i] = params[i].detach() + sign*shift
+                                self.cir.gate[idx].params_update(p)
+                                grad_i = grad_i + sign*coef*self.cir.cir_expectation(self.init_state, self.M)
+                        p[i] = params[i].detach()
+                        grad_lst.append( grad_i )
+                        continue
                     p[i] = p[i] + 0.5*torch.pi
                     self.cir.gate[idx].params_update(p)
                     e1 = self.cir.cir_expectation(self.init_state, self.M)
-- 
2.43.0


From b12e0d8115b8ab9cea691d58edc6b79847ca2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 21/24] fix: cal_params_grad2 gives the gradient of u1, cphase
 and cu3

---
 deepquantum/gates/qcircuit.py | 68 +++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6e8fef1..abcbe92 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -386,6 +386,21 @@ class parameter_shift(object):
                 
     
     
+    def _overlap_shifts(self,gate):
+        '''
+        <psi2|U(theta)|psi1>实部的导数的两倍，写成参数平移后的值的线性组合：[(平移量,系数),...]
+        '''
+        if gate.label in ["u1","cphase"]:
+            #矩阵元含有常数和exp(i*theta)
+            return [(0.5*torch.pi,1.0), (-0.5*torch.pi,-1.0)]
+        if gate.label == "cu3":
+            #矩阵元含有常数和cos(theta/2)、sin(theta/2)
+            return [(torch.pi,0.5), (-torch.pi,-0.5)]
+        #旋转门的矩阵元只含有cos(theta/2)、sin(theta/2)
+        return [(-torch.pi,-1.0)]
+    
+    
+    
     def cal_params_grad2(self,save_dict):
         grad_lst = []
         num_gates = len(self.cir.gate)
@@ -401,20 +416,20 @@ class parameter_shift(object):
             p = params.detach().clone()
             if len(p.shape) == 0:
                 #只有单个参数
-                p = p - torch.pi
-                self.cir.gate[idx].params_update(p)
-                
-                if idx == 0:
-                    MPS = copy.deepcopy( init_MPS )
-                    MPS = gate.TN_operation( MPS )
-                else:
-                    MPS = copy.deepcopy( save_dict[idx-1] )
-                    MPS = gate.TN_operation( MPS )
-                
-                psi1 = MPS2StateVec( MPS )
                 psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
-                temp = -1.0*temp.real
+                temp = 0.0
+                for shift,coef in self._overlap_shifts(gate):
+                    self.cir.gate[idx].params_update(p + shift)
+                    
+                    if idx == 0:
+                        MPS = copy.deepcopy( init_MPS )
+                        MPS = gate.TN_operation( MPS )
+                    else:
+                        MPS = copy.deepcopy( save_dict[idx-1] )
+                        MPS = gate.TN_operation( MPS )
+                    
+                    psi1 = MPS2StateVec( MPS )
+                    temp = temp + coef*( psi2.conj() @ psi1.view(-1,1) ).squeeze().real
                 
                 self.cir.gate[idx].params_update(params)
                 
@@ -423,21 +438,20 @@ class parameter_shift(object):
             elif len(p.shape) == 1:
                 #参数是个一维张量
                 for i,each_p in enumerate(p):
-                    
-                    p[i] = p[i] - torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
-                    if idx == 0:
-                        MPS = copy.deepcopy( init_MPS )
-                        MPS = gate.TN_operation( MPS )
-                    else:
-                        MPS = copy.deepcopy( save_dict[idx-1] )
-                        MPS = gate.TN_operation( MPS ) #后面需要-1j修正
-                    psi1 = MPS2StateVec( MPS )
                     psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                    temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze() 
-                    temp = -1.0*temp.real
-                    #本来取虚部变成取负实部，相当于修正了-1j
+                    temp = 0.0
+                    for shift,coef in self._overlap_shifts(gate):
+                        p[i] = params[i].detach() + shift
+                        self.cir.gate[idx].params_update(p)
+                        #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
+                        if idx == 0:
+                            MPS = copy.deepcopy( init_MPS )
+                            MPS = gate.TN_operation( MPS )
+                        else:
+                            MPS = copy.deepcopy( save_dict[idx-1] )
+                            MPS = gate.TN_operation( MPS )
+                        psi1 = MPS2StateVec( MPS )
+                        temp = temp + coef*( psi2.conj() @ psi1.view(-1,1) ).squeeze().real
                     p[i] = params[i].detach()
                     
                     grad_lst.append( temp )
-- 
2.43.0


From 69766232b31162050a858f279fa17fcec5eac0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 22/24] fix: MPS_inner_product works for one wire and for bonds
 of dimension 1

---
 deepquantum/gates/qtensornetwork.py | 32 ++++++-----------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index eab5ac7..e21e5b4 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -164,34 +164,14 @@ def MPS_inner_product(ketMPS,braMPS):
         for j in range(3):
             t1 = t1.unsqueeze(2*j+1)
             t2 = t2.unsqueeze(2*j)
-        qbit_tensor = (t2.conj() @ t1).squeeze()
+        qbit_tensor = (t2.conj() @ t1).squeeze(-1).squeeze(-1)
         lst.append(qbit_tensor)
     
-    for i in range(len(lst)-1):
-        if i == 0:
-            t = lst[i]
-            
-        t_nxt = lst[i+1]
-        if i != len(lst) - 2:
-            t_nxt = t_nxt.permute(2,3,0,1)
-        
-        t = t.unsqueeze(-2).unsqueeze(-4) #1212
-        t_nxt = t_nxt.unsqueeze(-1).unsqueeze(-3) #442121
-        
-        temp = t @ t_nxt #442211
-        temp = temp.squeeze() #4422
-        if i != len(lst) - 2:
-            '''
-            einsum高阶张量求迹，TZH我的超人！！！
-            '''
-            t = torch.einsum('abii->ab',temp)
-            # for k in range(temp.shape[2]):
-            #     if k == 0:
-            #         t = temp[:,:,0,0]
-            #     else:
-            #         t += temp[:,:,k,k]
-        else:
-            t = torch.trace(temp)
+    t = torch.ones(1,1) + 0j
+    for qbit_tensor in lst:
+        #从左到右依次收缩bond
+        t = torch.einsum('ab,abcd->cd', t, qbit_tensor)
+    t = t.squeeze()
     #返回的是内积，不是内积的模平方
     return t
 
-- 
2.43.0


From beeb524db18d0f98024bc2cb7154f4e331d971a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 23/24] fix: QuanConv2D only visits windows that lie inside the
 image

---
 deepquantum/nn/modules/quanv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/nn/modules/quanv.py b/deepquantum/nn/modules/quanv.py
index f3a3014..15c2923 100644
--- a/deepquantum/nn/modules/quanv.py
+++ b/deepquantum/nn/modules/quanv.py
@@ -90,8 +90,8 @@ class QuanConv2D(nn.Module):
 
         out = torch.zeros((batch, out_channel, len_x_out, len_y_out))
         for batch_i in range(batch):
-            for j in range(0, len_x_in, self.stride):
-                for k in range(0, len_y_in, self.stride):
+            for j in range(0, len_x_in - self.kernel_size + 1, self.stride):
+                for k in range(0, len_y_in - self.kernel_size + 1, self.stride):
 
                     x = input[batch_i, 0, j:j+self.kernel_size, k:k+self.kernel_size].reshape(-1) #[batch,channel,x,y]
                     # print("x::", x, j, j+self.kernel_size, k, k+self.kernel_size)
-- 
2.43.0


From 5193d9a8b51feda3d04066940e4adeb6f8690966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 24/24] fix: functional layers build their gates from matrices
 instead of methods Circuit does not have

---
 deepquantum/layers/qlayer.py | 46 +++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/deepquantum/layers/qlayer.py b/deepquantum/layers/qlayer.py
index a33136c..80bf39d 100644
--- a/deepquantum/layers/qlayer.py
+++ b/deepquantum/layers/qlayer.py
@@ -8,7 +8,51 @@ Created on Tue Oct 26 10:00:55 2021
 import torch
 # import math
 # from qutorch.qgate import rx, ry, rz, multi_kron, cnot, cz, IsUnitary, Hadamard, rxx, ryy, rzz
-from deepquantum.gates import Circuit as cir
+import deepquantum.gates.qoperator as op
+import deepquantum.gates.qmath as qmath
+
+
+class cir(object):
+    '''
+    本文件的layer只需要各个门的矩阵，不需要线路
+    '''
+    multi_kron = staticmethod(qmath.multi_kron)
+
+    @staticmethod
+    def Hadamard():
+        return op.Hadamard().matrix
+
+    @staticmethod
+    def rx(theta):
+        return op.rx(theta).matrix
+
+    @staticmethod
+    def ry(theta):
+        return op.ry(theta).matrix
+
+    @staticmethod
+    def rz(theta):
+        return op.rz(theta).matrix
+
+    @staticmethod
+    def rxx(theta):
+        return op.rxx(theta).matrix
+
+    @staticmethod
+    def ryy(theta):
+        return op.ryy(theta).matrix
+
+    @staticmethod
+    def rzz(theta):
+        return op.rzz(theta).matrix
+
+    @staticmethod
+    def cnot(N, control, target):
+        return op.cnot(N, [control, target]).U_expand()
+
+    @staticmethod
+    def cz(N, control, target):
+        return op.cz(N, [control, target]).U_expand()
 
 def XYZLayer(N, parameter_lst):
     if N < 1:
-- 
2.43.0

