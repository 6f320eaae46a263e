From eb604e5ab69579daf2f61ae68743dbbf18f119ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 01/96] fix: MPS.fromList without a center matrix (or with a
 DxD one) raised

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4b0a70b..0f9972b 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -264,7 +264,7 @@ class MPS:
         """
 
         mps=cls(tensors,schmidt_thresh,r_thresh)
-        if all(mat)!=None:
+        if mat is not None:
             mps._mat=np.copy(mat)
         mps.__position__(0)        
         mps.__position__(mps._N)
-- 
2.43.0


From fbc85f1ca18f70f984481bfa5d8d773666b32890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 02/96] fix: svd fallback after a LinAlgError returned a v of
 the wrong shape

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b2d61db..fe609e4 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -135,7 +135,7 @@ def svd(mat,full_matrices=False,r_thresh=1E-14):
     except np.linalg.linalg.LinAlgError:
         [q,r]=np.linalg.qr(mat)
         r[np.abs(r)<r_thresh]=0.0
-        u_,s,v=np.linalg.svd(r)
+        u_,s,v=np.linalg.svd(r,full_matrices=False)
         u=q.dot(u_)
         print('svd caught a LinAlgError')
     return u,s,v
-- 
2.43.0


From 5f4d7b9ca1a4ba4094db2a3a3ba0f8838d5ed2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 03/96] fix: MPS.truncate ignored schmidt_thresh and D whenever
 D exceeded the stored Dmax

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 0f9972b..25de1e7 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -989,8 +989,8 @@ class MPS:
         returned_gauge: 'left','right' or 'symmetric': the desired gauge after truncation
         """
         
-        if D!=None and D>self._D:
-            print('MPS.__truncate__(): D>self._D, no truncation neccessary')
+        if D!=None and D>=max(self.D) and schmidt_thresh<=1E-15:
+            print('MPS.__truncate__(): D>=max(self.D), no truncation neccessary')
             return
         else:
             if self._obc==True:
-- 
2.43.0


From f50511fe860a469ed559ce25e953dc44bb179e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 04/96] fix: directsum dropped the imaginary part of a complex
 second matrix

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index fe609e4..7255da9 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -163,7 +163,7 @@ def directsum(m1,m2):
     returns: the direct sum of two matrices
     """
 
-    dtype=type(m1[0,0])
+    dtype=np.result_type(m1,m2)
     out=np.zeros((list(map(sum,zip(m1.shape,m2.shape)))),dtype=dtype)
     out[0:m1.shape[0],0:m1.shape[1]]=m1
     out[m1.shape[0]:m1.shape[0]+m2.shape[0],m1.shape[1]:m1.shape[1]+m2.shape[1]]=m2
-- 
2.43.0


From 8c3aebcb5d09e9911cfb10504e8541f678668e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 05/96] fix: addMPS dropped the imaginary part of complex
 prefactors of real states

---
 lib/mpslib/mpsfunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 7255da9..e990260 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -184,6 +184,7 @@ def addMPS(mps1,Z1,mps2,Z2,obc=True):
     for n in range(len(mps1)):
         dtype=np.result_type(dtype,mps1[n].dtype)
         dtype=np.result_type(dtype,mps2[n].dtype)
+    dtype=np.result_type(dtype,Z1,Z2)
     
     if obc==True:
 
-- 
2.43.0


From 9986d9c948a750f8f3d7db16479948bc462d3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 06/96] fix: -mps negated every single tensor, i.e. multiplied
 the state by (-1)**N

---
 lib/mpslib/mps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 25de1e7..b28aa9e 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -458,7 +458,12 @@ class MPS:
         return self.__imag__(*args,**kwargs)
     
 
-    __neg__ = generate_unary_deferer(opr.neg)
+    def __neg__(self):
+        """
+        returns the state multiplied by -1
+        """
+        return self*(-1)
+    
     __pos__ = generate_unary_deferer(opr.pos)
     __abs__ = generate_unary_deferer(abs)
     __invert__ = generate_unary_deferer(opr.invert)
-- 
2.43.0


From 1065d5fdb4ec6f59bb775f3e7eb93fd2a2ca558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 07/96] fix: mps+=other kept the center matrix, its position
 and the dtype of the old state

---
 lib/mpslib/mps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index b28aa9e..a77bb18 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -551,7 +551,13 @@ class MPS:
         adds self with other;
         leaves self unnormalized
         """
-        self._tensors=mf.addMPS(self.tolist(),self._Z,other.tolist(),other._Z)
+        out=self+other
+        self._tensors=out._tensors
+        self._mat=out._mat
+        self._connector=out._connector
+        self._position=out._position
+        self._dtype=out._dtype
+        self._D=max(self._D,out._D)
         self._Z=1.0 
         return self
     
-- 
2.43.0


From a399908bd1e772515d3a0355657db56d47f7b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 08/96] fix: MPS.conj and MPS.conjugate raised and did not
 conjugate the center matrix

---
 lib/mpslib/mps.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index a77bb18..43c6548 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -352,7 +352,7 @@ class MPS:
                    the operation to be applied to the mps tensors
         *args,**kwargs: arguments of operation
         """
-        for n in range(len(res)):
+        for n in range(len(self)):
             self[n]=operation(self[n],*args,**kwargs)
 
 
@@ -377,13 +377,16 @@ class MPS:
         in-place complex conjugation of the MPS
         """
         self.__in_place_unary_operations__(np.conj,*args,**kwargs)
+        self._mat=np.conj(self._mat)
+        self._connector=np.conj(self._connector)
+        self._Z=np.conj(self._Z)
     
     def __conjugate__(self,*args,**kwargs):
         """
         returns the complex conjugated MPS
         """
-        res=self.__unary_operations__(np.conj,*args,**kwargs)
-        res._qflow=utils.flipsigns(res._qflow)                
+        res=self.__copy__()
+        res.__conj__(*args,**kwargs)
         return res
 
 
@@ -391,13 +394,13 @@ class MPS:
         """
         returns the complex conjugated MPS
         """
-        return self.__conjugate__(self,*args,**kwargs)
+        return self.__conjugate__(*args,**kwargs)
 
     def conj(self,*args,**kwargs):
         """
         in-place complex conjugation of the MPS
         """        
-        return self.__conj__(self,*args,**kwargs)
+        return self.__conj__(*args,**kwargs)
 
     def __exp__(self,*args,**kwargs):
         """
-- 
2.43.0


From 8d4ba89f0f793ccbaca8b8b440bd6a95405dd8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 09/96] fix: mps*=complex left the dtype of a real mps
 unchanged

---
 lib/mpslib/mps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 43c6548..9a8fff4 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -493,6 +493,7 @@ class MPS:
         if not np.isscalar(num):
             raise TypeError("in MPS.__mul__(self,num): num is not a number")
         self._Z*=num
+        self._dtype=np.result_type(type(num),self._dtype)
         return self
     
 
@@ -505,6 +506,7 @@ class MPS:
         if not np.isscalar(num):
             raise TypeError("in MPS.__mul__(self,num): num is not a number")
         self._Z/=num
+        self._dtype=np.result_type(type(num),self._dtype)
         return self
     
     def __truediv__(self,num):
-- 
2.43.0


From f0ba1b477f3d01ce3132555380038d6b005f5a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 10/96] fix: MPS.copy did not copy the boundary condition

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 9a8fff4..5ff6445 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -325,7 +325,7 @@ class MPS:
         cop._position=self._position
         cop._gamma=copy.deepcopy(self._gamma)
         cop._lambda=copy.deepcopy(self._lambda)
-        cop._obc-self._obc
+        cop._obc=self._obc
         cop._dtype=self._dtype
         cop._schmidt_thresh=self._schmidt_thresh
         cop._r_thresh=self._r_thresh
-- 
2.43.0


From e9f5d83de342aa87af773fc9dd1cc0f9c0f1a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 11/96] fix: overlap ignored the phase of the center matrices
 and raised for lists of tensors

---
 lib/mpslib/mpsfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index e990260..c9b8ba6 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -70,10 +70,13 @@ def overlap(mps1,mps2):
     for n in range(1,len(mps1)):
         L=addELayer(L,mps1[n],mps2[n],direction=1)
         
+    Z=1.0
     if isinstance(mps1,MPSL.MPS) and isinstance(mps2,MPSL.MPS):        
+        #the center matrices are at the boundary, i.e. they are of shape (1,1); they carry the phases of the states
+        Z=mps1._Z*mps1._mat[0,0]*np.conj(mps2._Z*mps2._mat[0,0])
         mps1.__position__(pos1)
         mps2.__position__(pos2)    
-    return np.trace(L[:,:,0])*mps1._Z*np.conj(mps2._Z)
+    return np.trace(L[:,:,0])*Z
 
 def check_normalization(tensor,which,thresh=1E-10):
     """
-- 
2.43.0


From 97e070db873cb4d33a3d47324bf90e05099cce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 12/96] fix: measureMatrixElementList returned nothing and
 ignored the norms of the states

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 5ff6445..7a80d00 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -836,7 +836,7 @@ class MPS:
         it back to its original position; this might cause some overhead
         """
         
-        self.__measureMatrixElementList__(mps,ops,lb,rb)
+        return self.__measureMatrixElementList__(mps,ops,lb,rb)
         
     def __measureMatrixElementList__(self,mps,ops,lb=None,rb=None):
 
@@ -861,7 +861,7 @@ class MPS:
                 v2=np.copy(mps._mat[0][0])
                 self.__position__(pos)
                 mps.__position__(mpspos)                
-                return L*v1*np.conj(v2)
+                return L*v1*np.conj(v2)*self._Z*np.conj(mps._Z)
 
 
     def measureLocal(self,op,site,lb=None,rb=None):
-- 
2.43.0


From 0ca97f2e83f86249f2857204e4bcd2c6cedc0156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:25 +0000
Subject: [PATCH 13/96] fix: matrixElementLocal dropped the imaginary part of
 complex operators between real states

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index c9b8ba6..fabd1da 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -493,7 +493,7 @@ def matrixElementLocal(mps1,mps2,operators,lb,rb):
     rb: right boundary of the mps (for obc, rb=np.ones((1,1,1))
     ortho (str): can be {'left','right'} and denotes the orthogonal state of the mps
     """
-    dtype=np.result_type(mps1[0].dtype,mps2[0].dtype)
+    dtype=np.result_type(mps1[0].dtype,mps2[0].dtype,lb,rb,*[o.dtype for o in operators])
     N=len(mps1)
     if len(mps1)!=len(mps2):
         raise ValueError("matrixElementLocal: mps1 and mps2 have different lengths")
-- 
2.43.0


From 0ac00888acff19ec9a9ef84289607f684eb1127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 14/96] fix: MPS.measure failed for odd operator strings with
 Jordan-Wigner operators, for mixed local dimensions, for P given as list of
 arrays, and dropped complex operators

---
 lib/mpslib/mps.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 7a80d00..8386675 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -925,7 +925,7 @@ class MPS:
         if not isinstance(sites,list):
             ops=list([ops])
             sites=list([sites])            
-        if P!=None:
+        if P is not None:
             assert(len(P)==len(self))
         
         if not sorted(sites)==sites:
@@ -936,38 +936,36 @@ class MPS:
         self.__position__(sites[-1]+1)
         #the parity of the operator string one wants to measure:
         par=len(ops)%2
-        if par==0 or P==None:
+        if par==0 or P is None:
             L=np.zeros((self[sites[s]].shape[0],self[sites[s]].shape[0],1)).astype(self._dtype)
             L[:,:,0]=np.copy(np.eye(self[sites[s]].shape[0]))
-        elif par==1 and P!=None:
+        elif par==1 and P is not None:
             #for fermionic modes one has to take into consideration the fermionic minus signs from the start (if len(ops) is odd)
             L=np.zeros((self[0].shape[0],self[0].shape[0],1)).astype(self._dtype)
             L[:,:,0]=np.copy(np.eye(self[0].shape[0]))
-            for n in range(sites[s]-1):
-                L=mf.addLayer(L,self[n],P[n],self[n],1)
+            for n in range(sites[s]):
+                L=mf.addLayer(L,self[n],np.reshape(P[n],(1,1,P[n].shape[0],P[n].shape[1])),self[n],1)
 
         while s<len(sites):
             if s<len(sites):
                 n=s
-                op=np.eye(self[s].shape[2])
+                op=np.eye(self[sites[s]].shape[2])
                 while n<len(sites) and sites[n]==sites[s]:
                     op=op.dot(ops[n])
                     par=(par+1)%2
                     n+=1
 
             assert(sites[s]==sites[n-1])
-            mpo=np.zeros((1,1,op.shape[0],op.shape[1])).astype(self._dtype)
-            if P==None or par==0:
-                mpo[0,0,:,:]=op
-            elif P!=None and par==1:
-                mpo[0,0,:,:]=op.dot(P[sites[s]])                
+            if P is not None and par==1:
+                op=op.dot(P[sites[s]])
+            mpo=np.reshape(op,(1,1,op.shape[0],op.shape[1]))
 
             L=mf.addLayer(L,self[sites[s]],mpo,self[sites[s]],1)
             if n<len(sites):
                 for m in range(sites[s]+1,sites[n]):
-                    if par==0 or P==None:
+                    if par==0 or P is None:
                         L=mf.addELayer(L,self[m],self[m],1)
-                    elif par==1 and P!=None:
+                    elif par==1 and P is not None:
                         L=mf.addLayer(L,self[m],np.reshape(P[m],(1,1,P[m].shape[0],P[m].shape[1])),self[m],1)
             s=n
 
-- 
2.43.0


From 4863bdba477e9b869380821f5c11a6b583cbe674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 15/96] fix: mps[n] returned None for numpy integers n

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 8386675..37c6d6d 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -334,7 +334,7 @@ class MPS:
 
 
     def __getitem__(self,n):
-        if isinstance(n,int):
+        if isinstance(n,(int,np.integer)):
             assert((n<len(self)) and (abs(n)<=len(self)))
             return self._tensors[n]
 
-- 
2.43.0


From 522d39ca8a1f92103cdd618d92df935936d0daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 16/96] fix: complex gates or tensors left the dtype of a real
 mps unchanged

---
 lib/mpslib/mps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 37c6d6d..9af4d0b 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -341,6 +341,7 @@ class MPS:
     def __setitem__(self,n,tensor):
         assert((n<len(self)) and (abs(n)<=len(self)))        
         self._tensors[n]=np.copy(tensor)
+        self._dtype=np.result_type(self._dtype,self._tensors[n].dtype)
 
 
     def __in_place_unary_operations__(self,operation,*args,**kwargs):
@@ -1223,6 +1224,7 @@ class MPS:
         Strunc/=np.linalg.norm(Strunc)
         U=U[:,0:len(Strunc)]
         V=V[0:len(Strunc),:]
+        self._dtype=np.result_type(self._dtype,newState.dtype)
         self._tensors[site]=np.transpose(np.reshape(U,(Dl,d1,len(Strunc))),(0,2,1))
         self._tensors[site+1]=np.transpose(np.reshape(V,(len(Strunc),d2,Dr)),(0,2,1))
         self._mat=np.diag(Strunc)
@@ -1251,6 +1253,7 @@ class MPS:
             tensor=ncon.ncon([self.__tensor__(site,clear=True),gate],[[-1,-2,1],[1,-3]])
             A,mat,Z=mf.prepareTensor(tensor,1)
             self._Z*=Z
+            self._dtype=np.result_type(self._dtype,A.dtype)
             self._tensors[site]=A
             self._mat=mat
         else:
-- 
2.43.0


From 129ab98aab961929469985ba885cdb901bb17085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 17/96] fix: applyTwoSiteGate with the default Dmax=None raised

---
 lib/mpslib/mps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 9af4d0b..528a5a2 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1219,6 +1219,8 @@ class MPS:
         U,S,V=mf.svd(np.reshape(newState,(Dl*d1,Dr*d2)))
         tw=0
         Strunc=S[S>thresh]
+        if Dmax is None:
+            Dmax=len(Strunc)
         tw=sum(S[min(len(Strunc),Dmax)::]**2)
         Strunc=S[0:min(len(Strunc),Dmax)]
         Strunc/=np.linalg.norm(Strunc)
-- 
2.43.0


From 55ccc6a942eb3b73a650075fa2408a260347ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 18/96] fix: MPS.applyMPO used an undefined name and always
 raised

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 528a5a2..8e0bb5d 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1274,10 +1274,10 @@ class MPS:
         """
         applies an mpo to an mps; no truncation is done
         """
-        assert(len(mpo)==len(mps))
+        assert(len(mpo)==len(self))
         self.__position__(0)
         self.__absorbCenterMatrix__(1)
-        for n in range(len(mps)):
+        for n in range(len(self)):
             Ml,Mr,din,dout=mpo[n].shape 
             Dl,Dr,d=self[n].shape
             if n==0:
-- 
2.43.0


From 044a5360b451df3c8f2f4a22be402d0250dcb91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 19/96] fix: truncation of infinite MPS cut the bonds inside
 the unit cell without the weight of its right boundary

---
 lib/mpslib/mpsfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index fabd1da..5488438 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2209,11 +2209,14 @@ def regaugeIMPS(mps,gauge,ldens=None,rdens=None,truncate=1E-16,D=None,nmaxit=100
                 if n<(N-1):
                     mps[n+1]=np.tensordot(rest,mps[n+1],([1],[0]))
             
+            #the bonds inside the unit cell have to be truncated in the presence of the schmidt-values at its right boundary
+            mps[N-1]=np.transpose(np.tensordot(mps[N-1],np.diag(lam),([1],[0])),(0,2,1))
             for n in range(N-1,0,-1):
                 U,S,tensor,Z=prepareTruncate(mps[n],direction=-1,D=D,thresh=truncate,r_thresh=1E-14)
                 mps[n]=np.copy(tensor)
                 if n>0:
                     mps[n-1]=np.transpose(np.tensordot(mps[n-1],U.dot(np.diag(S)),([1],[0])),(0,2,1))
+            mps[N-1]=np.transpose(np.tensordot(mps[N-1],np.diag(1.0/lam),([1],[0])),(0,2,1))
 
             Z=np.trace(np.tensordot(mps[0],np.conj(mps[0]),([1,2],[1,2])))/np.shape(mps[0])[0]
             mps[0]=mps[0]/np.sqrt(Z)
-- 
2.43.0


From 027b2387b6816cd7dcff65d7201b850340006496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 20/96] fix: MPS.truncate ignored D for infinite states if
 schmidt_thresh<=1E-15

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 8e0bb5d..921479a 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1021,7 +1021,7 @@ class MPS:
                     self.__absorbCenterMatrix__(direction=-1)
                     self.__absorbConnector__('right')
 
-                self._mat=mf.regaugeIMPS(self._tensors,gauge='symmetric',ldens=None,rdens=None,truncate=schmidt_thresh,D=D,nmaxit=nmaxit,tol=tol,ncv=ncv,pinv=pinv,thresh=1E-8)
+                self._mat=mf.regaugeIMPS(self._tensors,gauge='symmetric',ldens=None,rdens=None,truncate=(schmidt_thresh if D is None else max(schmidt_thresh,2E-15)),D=D,nmaxit=nmaxit,tol=tol,ncv=ncv,pinv=pinv,thresh=1E-8)
                 self._connector=np.diag(1.0/np.diag(self._mat)) #note that regaugeIMPS returns in any case a diagonal matrix
                 self._position=self._N
 
-- 
2.43.0


From 1e1312a7fb9f45e22852d239fe587f5362d7698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 21/96] fix: MPS.truncate ignored returned_gauge if no
 truncation was necessary

---
 lib/mpslib/mps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 921479a..d88d3e3 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1006,6 +1006,8 @@ class MPS:
         
         if D!=None and D>=max(self.D) and schmidt_thresh<=1E-15:
             print('MPS.__truncate__(): D>=max(self.D), no truncation neccessary')
+            if self._obc==False and returned_gauge!=None:
+                self.__regauge__(returned_gauge)
             return
         else:
             if self._obc==True:
-- 
2.43.0


From e4862c9421c9463156b58f814869962faa9b19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 22/96] fix: regauge(gauge='left') modified its input tensor

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 5488438..bdac2a5 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2372,7 +2372,7 @@ def regauge(tensor,gauge,initial=None,nmaxit=100000,tol=1E-10,ncv=50,numeig=6,pi
         [eta,v,numeig]=TMeigs(tensor,direction=1,numeig=numeig,init=initial,nmax=nmaxit,tolerance=tol,ncv=ncv)
         #rescale so that eta=1
         #tensor=tensor/np.sqrt(np.real(eta))
-        tensor/=np.sqrt(np.real(eta))        
+        tensor=tensor/np.sqrt(np.real(eta))
         if np.abs(np.imag(eta))/np.abs(np.real(eta))>thresh:
             print ('in regauge: warning: found eigenvalue eta with large imaginary part: {0}'.format(eta))
         l=np.reshape(v,(chi,chi))
-- 
2.43.0


From eacb08509ace65e1d4c45bb940de083d3687b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 23/96] fix: canonizeMPS ignored the center matrix of a finite
 MPS object

---
 lib/mpslib/mpsfunctions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index bdac2a5..b9e2fd8 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2277,6 +2277,11 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
         #make a copy of the state
         if isinstance(mps,MPSL.MPS):
             Gamma=copy.deepcopy(mps._tensors)
+            #the center matrix is part of the state
+            if mps._position<len(mps):
+                Gamma[mps._position]=np.tensordot(mps._mat,Gamma[mps._position],([1],[0]))
+            else:
+                Gamma[-1]=np.transpose(np.tensordot(Gamma[-1],mps._mat,([1],[0])),(0,2,1))
         elif isinstance(mps,list):
             Gamma=copy.deepcopy(mps)
         else:
-- 
2.43.0


From e8d0b68e027f9735c6fdba102685f525be691349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 24/96] fix: canonizeMPS dropped the phases of the Schmidt
 vectors at the unit-cell boundary of infinite MPS

---
 lib/mpslib/mpsfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b9e2fd8..f55e838 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2339,6 +2339,9 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
             U,S,B,Z=prepareTruncate(Gamma[n],direction=-1,D=Gamma[n].shape[0],thresh=1E-16,r_thresh=r_thresh)
             Gamma[n]=np.transpose(np.tensordot(B,np.diag(1.0/Lam[n+1]),([1],[0])),(0,2,1))
             Lam[n]=S
+            if n==0:
+                #U commutes with S (in symmetric gauge), but its phases are part of the state
+                Gamma[0]=np.tensordot(U,Gamma[0],([1],[0]))
             if n>0:
                 Gamma[n-1]=np.transpose(np.tensordot(Gamma[n-1],U.dot(np.diag(S)),([1],[0])),(0,2,1))
         return Gamma,Lam
-- 
2.43.0


From a520529c507edc26b3de7aa47515b954d7ca21e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 25/96] fix: canonizeMPS kept vanishing Schmidt values and
 divided by them

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index f55e838..a0af965 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2297,7 +2297,7 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
                 Gamma[n+1]=np.tensordot(r,Gamma[n+1],([1],[0]))
         
         for n in range(len(Gamma)-1,-1,-1):
-            U,S,B,Z=prepareTruncate(Gamma[n],direction=-1,D=Gamma[n].shape[0],thresh=tr_thresh,r_thresh=r_thresh)
+            U,S,B,Z=prepareTruncate(Gamma[n],direction=-1,D=Gamma[n].shape[0],thresh=max(tr_thresh,2E-16),r_thresh=r_thresh)
             if n==(len(Gamma)-1):
                 Gamma[n]=B
             else:
@@ -2336,7 +2336,7 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
         Lam[-1]=np.diag(lam)
         Lam[0]=np.diag(lam)
         for n in range(len(Gamma)-1,-1,-1):
-            U,S,B,Z=prepareTruncate(Gamma[n],direction=-1,D=Gamma[n].shape[0],thresh=1E-16,r_thresh=r_thresh)
+            U,S,B,Z=prepareTruncate(Gamma[n],direction=-1,D=Gamma[n].shape[0],thresh=2E-16,r_thresh=r_thresh)
             Gamma[n]=np.transpose(np.tensordot(B,np.diag(1.0/Lam[n+1]),([1],[0])),(0,2,1))
             Lam[n]=S
             if n==0:
-- 
2.43.0


From 80f9130432ba5dc7b207d639d1039fd21efd7b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 26/96] fix: truncation of infinite MPS compared thresh with
 unnormalized Schmidt values at the last bond of the unit cell

---
 lib/mpslib/mpsfunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index a0af965..6b3308b 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2211,6 +2211,7 @@ def regaugeIMPS(mps,gauge,ldens=None,rdens=None,truncate=1E-16,D=None,nmaxit=100
             
             #the bonds inside the unit cell have to be truncated in the presence of the schmidt-values at its right boundary
             mps[N-1]=np.transpose(np.tensordot(mps[N-1],np.diag(lam),([1],[0])),(0,2,1))
+            mps[N-1]=mps[N-1]/np.linalg.norm(mps[N-1])#prepareTruncate compares thresh with the unnormalized singular values
             for n in range(N-1,0,-1):
                 U,S,tensor,Z=prepareTruncate(mps[n],direction=-1,D=D,thresh=truncate,r_thresh=1E-14)
                 mps[n]=np.copy(tensor)
-- 
2.43.0


From a8340f94f9dc1cce17d8d7983524a2c0bb33fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 27/96] fix: TransferOperator and MixedTransferOperator raised
 a NameError for MPS objects

---
 lib/mpslib/mpsfunctions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 6b3308b..6efddf2 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1509,7 +1509,7 @@ def TransferOperator(direction,mps,vector):
         A=mps
         [D1,D2,d]= A.shape
     elif isinstance(mps,MPSL.MPS):
-        if len(A)>1:
+        if len(mps)>1:
             raise ValueError("in TransferOperator: got an MPS object of len(MPS)>1; can only handle single-site objects")
         A=mps[0]
         [D1,D2,d]= A.shape
@@ -1541,9 +1541,9 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,MPSL.MPS):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
-        if len(B)>1:
+        if len(mpsB)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsB of len(mpsB)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB[0]
@@ -1551,14 +1551,14 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,np.ndarray):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB
         [D1A,D2A,dA]= Lower.shape
         [D1B,D2B,dB]= Upper.shape
     elif isinstance(mpsB,MPSL.MPS) and isinstance(mpsA,np.ndarray):
-        if len(B)>1:
+        if len(mpsB)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
         Upper=mpsA
         Lower=mpsB[0]
-- 
2.43.0


From 2e8c633fe836de6fc1109e4d403d72f4baf3fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 28/96] fix: MixedUnitcellTransferOperator (and with it
 MixedUnitcellTMeigs) always raised a NameError

---
 lib/mpslib/mpsfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 6efddf2..0b54b1b 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1653,15 +1653,15 @@ def UnitcellTransferOperator(direction,mps,vector):
 #mps1 is the lower (conjugated) MPS, mps2 the upper (unconjugated) MPS
 def MixedUnitcellTransferOperator(direction,Upper,Lower,vector):
     x=np.copy(vector)
-    assert(len(mps1)==len(mps2))
+    assert(len(Upper)==len(Lower))
     if direction>0:
         #bring the vector in matrix form
-        for n in range(len(mps1)):
+        for n in range(len(Upper)):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
     if direction<0:
         #bring the vector in matrix form
-        for n in range(len(mps1)-1,-1,-1):
+        for n in range(len(Upper)-1,-1,-1):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
 
-- 
2.43.0


From 8d60d0010ec776b54f2f5587611cb0bce51cdb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:49 +0000
Subject: [PATCH 29/96] fix: TMeigs raised for (documented) MPS objects of
 length 1

---
 lib/mpslib/mpsfunctions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 0b54b1b..8c91416 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1599,6 +1599,10 @@ def TMeigs(tensor,direction,numeig,init=None,nmax=6000,tolerance=1e-10,ncv=100,w
             due to a bug in lapack/arpack, and should usually be chosen >4 for stability reasonsl
     """
 
+    if isinstance(tensor,MPSL.MPS):
+        if len(tensor)>1:
+            raise ValueError("in TMeigs: got an MPS object of len(MPS)>1; can only handle single-site objects")
+        tensor=tensor[0]
     dtype=tensor.dtype
     #define the matrix vector product mv(v) using functools.partial and GeneralizedMatrixVectorProduct(direction,A,B,vector):
     [chi1,chi2,d]=np.shape(tensor)
-- 
2.43.0


From 1e927e647e76f5ac639afccdfb71d112c78e3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 30/96] fix: TFI_2 with open boundaries used an undefined
 attribute and always raised

---
 lib/mpslib/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index decd5a4..21e968f 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -109,7 +109,7 @@ class TFI_2(MPO):
       self._mpo = []
       temp = np.zeros((1, 3, 2, 2), self.dtype)
       #Bx
-      temp[0, 0, :, :] = self._Bz[0] * sig_x
+      temp[0, 0, :, :] = self._Bx[0] * sig_x
       #Sz
       temp[0, 1, :, :] = self._Jz[0] * sig_z
       #11
@@ -139,7 +139,7 @@ class TFI_2(MPO):
       #Sz
       temp[1, 0, :, :] = sig_z
       #Bx Sx
-      temp[2, 0, :, :] = sig_x * self._Bz[-1]
+      temp[2, 0, :, :] = sig_x * self._Bx[-1]
       self._mpo.append(np.copy(temp))
 
     if obc == False:
-- 
2.43.0


From 0053e57e5bcf8f1a949a28694f7e8d5c09254483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 31/96] fix: XXZflipped used J[0] for the xx and yy couplings
 of every bond and raised for its default dtype

---
 lib/mpslib/Hamiltonians.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 21e968f..8ecd1ad 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -493,7 +493,7 @@ class XXZflipped(MPO):
     again the famous Heisenberg Hamiltonian, but in a slightly less common form
     """
 
-  def __init__(self, Delta, J, obc=True, dtype=float):
+  def __init__(self, Delta, J, obc=True, dtype=complex):
     self._Delta = Delta
     self._J = J
     self._dtype = dtype
@@ -533,11 +533,11 @@ class XXZflipped(MPO):
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
         #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 2, 0, 1] = +1j * (-J[site])
+        temp[4, 2, 1, 0] = -1j * (-J[site])
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
@@ -582,11 +582,11 @@ class XXZflipped(MPO):
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
         #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 2, 0, 1] = +1j * (-J[site])
+        temp[4, 2, 1, 0] = -1j * (-J[site])
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
-- 
2.43.0


From f45cf06aa81935fc0ef2b4e55d3c206411d5296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 32/96] fix: SpinlessFermions with obc=False always raised and
 had the wrong sign of the hopping

---
 lib/mpslib/Hamiltonians.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 8ecd1ad..ebc2f96 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -604,7 +604,10 @@ class SpinlessFermions(MPO):
 
   def __init__(self, interaction, hopping, chempot, obc, dtype=complex):
     assert (len(interaction) == len(hopping))
-    assert (len(interaction) == len(chempot) - 1)
+    if obc == True:
+      assert (len(interaction) == len(chempot) - 1)
+    else:
+      assert (len(interaction) == len(chempot))
 
     self._mpo = []
     self._interaction = interaction
@@ -653,13 +656,13 @@ class SpinlessFermions(MPO):
       for n in range(self._N):
         tensor = np.zeros((5, 5, 2, 2)).astype(dtype)
         tensor[0, 0, :, :] = np.eye(2)
-        tensor[1, 0, :, :] = c.dot(P)
-        tensor[2, 0, :, :] = herm(c).dot(P)
+        tensor[1, 0, :, :] = c
+        tensor[2, 0, :, :] = herm(c)
         tensor[3, 0, :, :] = herm(c).dot(c)
         tensor[4, 0, :, :] = chempot[n] * herm(c).dot(c)
 
-        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c)
-        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c
+        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c).dot(P)
+        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c.dot(P)
         tensor[4, 3, :, :] = interaction[n] * herm(c).dot(c)
         tensor[4, 4, :, :] = np.eye(2)
         self._mpo.append(np.copy(tensor))
-- 
2.43.0


From 775830236d0ea0e25fc1202a14f3a71416112fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 33/96] fix: HubbardChain with obc=False always raised

---
 lib/mpslib/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index ebc2f96..71023fb 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -946,8 +946,8 @@ class HubbardChain(MPO):
 
     assert (len(mu_up) == self._N)
     assert (len(mu_down) == self._N)
-    assert (len(t_up) == self._N - 1)
-    assert (len(t_down) == self._N - 1)
+    assert (len(t_up) == (self._N - 1 if obc == True else self._N))
+    assert (len(t_down) == len(t_up))
 
     self._mpo = []
     c = np.zeros((2, 2), dtype=self.dtype)
-- 
2.43.0


From 68dd8880d3f25268ddf7119bcd01fec88f0f3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 34/96] fix: MPO.fromMPO used an undefined attribute and always
 raised

---
 lib/mpslib/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 71023fb..9b8f80b 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -25,7 +25,7 @@ class MPO:
   @classmethod
   def fromMPO(cls, other):
     #a list of mpo-tensors, to be initialized in the derived class
-    return cls(other._mpolist)
+    return cls(other._mpo)
 
   @classmethod
   def fromlist(cls, mpolist):
-- 
2.43.0


From e293b89752566ae106c20b59bbe73ef2404d692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 35/96] fix: LiebLinigerEdens returned one site too many

---
 lib/mpslib/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 9b8f80b..308efe9 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -1423,7 +1423,7 @@ def LiebLinigerEdens(mu, intac, mass, dx, cutoff, N, site):
   mpo.append(temp)
 
   temp = np.zeros((1, 1, cutoff, cutoff))
-  for n in range(site + 1, N):
+  for n in range(site + 2, N):
     temp[0, 0, :, :] = np.eye(cutoff)
     mpo.append(temp)
 
-- 
2.43.0


From 4206bcf2e2480794915023f9ae63315ceb7bdcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 36/96] fix: UnitcellExLiebLinigermpo took the potential of the
 wrong site at the boundary between the unit cells

---
 lib/mpslib/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 308efe9..ee9ada9 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -1637,7 +1637,7 @@ def UnitcellExLiebLinigermpo(mu, intac, mass, N, dx, cutoff):
   temp[1, 0, :, :] = np.copy(cdag)
   #c
   temp[2, 0, :, :] = np.copy(c)
-  temp[3, 0, :, :] = (mu[n] / 2 + 1.0 /
+  temp[3, 0, :, :] = (mu[N - 1] / 2 + 1.0 /
                       (2.0 * mass * dx**2)) * num + (intac /
                                                      (dx * 2.0)) * inpart
   #c
@@ -1662,7 +1662,7 @@ def UnitcellExLiebLinigermpo(mu, intac, mass, N, dx, cutoff):
   temp[2, 0, :, :] = np.copy(c)
   #temp[2,0,:,:]=t*np.copy(c)
 
-  temp[3, 0, :, :] = (mu[n] / 2.0 + 1.0 /
+  temp[3, 0, :, :] = (mu[0] / 2.0 + 1.0 /
                       (2.0 * mass * dx**2)) * num + (intac /
                                                      (dx * 2.0)) * inpart
   #c
-- 
2.43.0


From b029757d7aa89d836f62482831fc78eb929b20e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 37/96] fix: twoSiteGate raised for m>n and for chains of two
 sites

---
 lib/mpslib/Hamiltonians.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index ee9ada9..46ef08c 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -47,7 +47,7 @@ class MPO:
       mpo1 = self._mpo[n][-1, :, :, :]
       mpo2 = self._mpo[m][:, 0, :, :]
       nl = n
-      mr = m
+      nr = m
     if n > m:
       mpo1 = self._mpo[m][-1, :, :, :]
       mpo2 = self._mpo[n][:, 0, :, :]
@@ -71,6 +71,10 @@ class MPO:
       for s in range(1, mpo1.shape[0] - 1):
         h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
       h += np.kron(mpo1[-1, :, :], mpo2[-1, :, :] / 2.0)
+    else:
+      h = np.kron(mpo1[0, :, :], mpo2[0, :, :])
+      for s in range(1, mpo1.shape[0]):
+        h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
     Gate = np.reshape(sp.linalg.expm(tau * h), (d1, d2, d1, d2))
     #Gate=np.reshape(np.eye(4),(d1,d2,d1,d2))
 
-- 
2.43.0


From d9918e4b3ac247fe9f8f9889cedaaebab4763639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 38/96] fix: projectedLiebLinigermpo3 with open boundaries took
 the lattice spacings of the wrong sites

---
 lib/mpslib/Hamiltonians.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 46ef08c..a7f83ea 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -1274,11 +1274,7 @@ def projectedLiebLinigermpo3(mu,
   num = cdag.dot(c)
 
   if obc == True:
-    if n < (N - 1):
-      dxtilde = (dx[n + 1] + dx[n]) / 2.
-    if n == (N - 1):
-      dxtilde = (dx[0] + dx[n]) / 2.
-
+    dxtilde = (dx[1] + dx[0]) / 2.
     mpo = []
     temp = np.zeros((1, 9, 2, 2), dtype=dtype)
 
@@ -1288,12 +1284,12 @@ def projectedLiebLinigermpo3(mu,
     temp[0, 4, :, :] = -1.0 / (2.0 * mass * dxtilde) * cdag / np.sqrt(dx[0])
     temp[0, 5, :, :] = dxtilde * interact * num / dx[0]
     temp[0, 6, :, :] = np.eye(2)
-    temp[0, 7, :, :] = mu[0] / 2.0 * dxtilde * num / dx[n]
+    temp[0, 7, :, :] = mu[0] / 2.0 * num
     temp[0, 8, :, :] = np.eye(2)
     mpo.append(np.copy(temp))
 
     for n in range(1, N - 1):
-      dxtilde = dx[n]
+      dxtilde = (dx[n + 1] + dx[n]) / 2.
       temp = np.zeros((9, 9, 2, 2), dtype=dtype)
       temp[0, 0, :, :] = np.eye(2)
       temp[1, 0, :, :] = np.eye(2) - num
@@ -1310,19 +1306,18 @@ def projectedLiebLinigermpo3(mu,
       temp[8, 4, :, :] = -1.0 / (2.0 * mass * dxtilde) * cdag / np.sqrt(dx[n])
       temp[8, 5, :, :] = interact * dxtilde * num / dx[n]
       temp[8, 6, :, :] = np.eye(2)
-      temp[8, 7, :, :] = mu[n] / 2.0 * dxtilde * num / dx[n]
+      temp[8, 7, :, :] = mu[n] / 2.0 * num
       temp[8, 8, :, :] = np.eye(2)
       mpo.append(np.copy(temp))
 
-    dxtilde = dx[N - 1]
     temp = np.zeros((9, 1, 2, 2), dtype=dtype)
     temp[0, 0, :, :] = np.eye(2)
     temp[1, 0, :, :] = np.eye(2) - num
-    temp[2, 0, :, :] = num / dx[n]
-    temp[3, 0, :, :] = np.copy(cdag) / np.sqrt(dx[n])
-    temp[4, 0, :, :] = np.copy(c) / np.sqrt(dx[n])
-    temp[5, 0, :, :] = np.copy(num) / dx[n]
-    temp[6, 0, :, :] = mu[N - 1] / 2.0 * dxtilde * num / dx[n]
+    temp[2, 0, :, :] = num / dx[N - 1]
+    temp[3, 0, :, :] = np.copy(cdag) / np.sqrt(dx[N - 1])
+    temp[4, 0, :, :] = np.copy(c) / np.sqrt(dx[N - 1])
+    temp[5, 0, :, :] = np.copy(num) / dx[N - 1]
+    temp[6, 0, :, :] = mu[N - 1] / 2.0 * num
     temp[7, 0, :, :] = np.eye(2)
     mpo.append(np.copy(temp))
 
-- 
2.43.0


From 241a9a9045aa30b76bc7e8692bb7267b00a062a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 39/96] fix: engines could not move their center after update()
 or truncateMPS()

---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 5019a22..9a46b21 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -113,7 +113,7 @@ class Container:
         """
         self._mps.truncate(schmidt_thresh=truncation_threshold,D=D,nmaxit=100000,tol=tol,ncv=ncv,pinv=pinv,r_thresh=1E-14)
         self._mps.position(0)
-        self._L=[]*len(self._mps)
+        self._L=[None]*len(self._mps)
         self._L.insert(0,self._lb)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
@@ -165,7 +165,7 @@ class Container:
         returns: self
         """
         self._mps.position(0)
-        self._L=[]*len(self._mps)        
+        self._L=[None]*len(self._mps)        
         self._L.insert(0,self._lb)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
-- 
2.43.0


From 81980c3235b7d4faf0e9611c2261f92864bbf57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 40/96] fix: HAproductZeroSite(position='left') took the
 dimension of the wrong bond

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 8c91416..71a2993 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -993,7 +993,7 @@ def HAproductZeroSite(L,mpo,mps,R,position,vec):
 
     #contracts vec on the left site of mps
     if position=='left':
-        chi1=np.shape(mps)[1]
+        chi1=np.shape(mps)[0]
         mat=np.reshape(vec,(chi1,chi1))
         R1=addLayer(R,mps,mpo,mps,-1)
         term1=np.tensordot(L,mat,([0],[0]))
-- 
2.43.0


From 29bd47b8ebb01b89932072b5b08e52e138177e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 41/96] fix: FinegrainDolfi raised for tensors with different
 left and right bond dimensions

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 71a2993..bef0fec 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -115,12 +115,12 @@ def FinegrainDolfi(mps):
             raise ValueError("in FinegrainDolfi: local hilbert space dimension d has to be 2")
         tensor=np.transpose(np.tensordot(mps[n],T,([2],[0])),(0,2,1,3))
         matrix=np.reshape(tensor,(D1*2,D2*2))
-        U,S,V=np.linalg.svd(matrix)
+        U,S,V=np.linalg.svd(matrix,full_matrices=False)
 
         leftmat=U.dot(np.diag(np.sqrt(S)))
         rightmat=np.diag(np.sqrt(S)).dot(V)
         lefttens=np.transpose(np.reshape(leftmat,(D1,2,len(S))),(0,2,1))
-        righttens=np.reshape(rightmat,(len(S),D1,2))
+        righttens=np.reshape(rightmat,(len(S),D2,2))
 
         mpsfine.append(np.copy(lefttens))
         mpsfine.append(np.copy(righttens))
-- 
2.43.0


From c25eabf1f8e3f4c43c0856b0677a5aa4f9355147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 42/96] fix: LanczosEngine raised for complex operators and
 real initial states

---
 lib/Lanczos/LanczosEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 93447fd..444eb0c 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -104,7 +104,7 @@ class LanczosEngine:
         eta,u=np.linalg.eigh(self._Heff)
         states=[]
         for n2 in range(min(self._numeig,len(eta))):
-            state=np.zeros(initialstate.shape,dtype=initialstate.dtype)
+            state=np.zeros(initialstate.shape,dtype=np.result_type(initialstate.dtype,dtype))
             for n1 in range(len(self._vecs)):
                 state+=self._vecs[n1]*u[n1,n2]
             states.append(state/np.sqrt(self._dot(state.conjugate(),state)))
-- 
2.43.0


From f7c0f70bffb35ab3fb1fcc584301bfd196469205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 43/96] fix: Lanczos time evolution lost the norm of the state,
 the imaginary part of complex states at real steps, and the last Krylov
 vector

---
 lib/Lanczos/LanczosEngine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 444eb0c..666b74a 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -133,12 +133,12 @@ class LanczosTimeEvolution(LanczosEngine):
         dt: time increment
         verbose: verbosity flag
         """
-        self._dtype=type(dt)        
-        self.__simulate__(state.astype(self._dtype),verbose=True,reortho=True)
+        self.__simulate__(state.astype(np.result_type(state.dtype,type(dt),float)),verbose=True,reortho=True)
         #take the expm of self._Heff
         U=sp.linalg.expm(dt*self._Heff)
+        self._dtype=np.result_type(U.dtype,*[v.dtype for v in self._vecs])
         result=np.zeros(state.shape,dtype=self._dtype)
-        for n in range(min(self._ncv,self._Heff.shape[0])):
+        for n in range(self._Heff.shape[0]):
             result+=self._vecs[n]*U[n,0]
-        return result
+        return result*np.sqrt(np.abs(self._dot(state.conjugate(),state)))
         
-- 
2.43.0


From cbaca47d9601f997335ae8a0f1ec701bfaaf4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 44/96] fix: evolveTensorsolve_ivp and evolveMatrixsolve_ivp
 did not evolve real tensors at all

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index bef0fec..b024cfa 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1352,7 +1352,7 @@ def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
     chi2p=np.shape(R)[1]
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)),method=method,rtol=rtol,atol=atol)    
+    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)).astype(complex),method=method,rtol=rtol,atol=atol)    
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
     #return np.reshape(solver.dense_output()(tau),mps.shape)
     return np.reshape(out.y[:,-1],mps.shape)
@@ -1366,7 +1366,7 @@ def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     mv=fct.partial(HAproductBond,*[L,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)),method=method,rtol=rtol,atol=atol)
+    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)).astype(complex),method=method,rtol=rtol,atol=atol)
     return np.reshape(out.y[:,-1],mat.shape)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
     #solver.step()
-- 
2.43.0


From 21b021da118179213110d4830daac5e28a12779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 45/96] fix: evolveTensorRadau and evolveMatrixRadau used an
 undefined name and always raised

---
 lib/mpslib/mpsfunctions.py | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b024cfa..4037067 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1373,29 +1373,10 @@ def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
     #return np.reshape(solver.dense_output()(tau),mat.shape)    
 
 def evolveTensorRadau(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):        
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
-    
-    [chi1,chi2,d]=np.shape(mps)
-    chi1p=np.shape(L)[1]
-    chi2p=np.shape(R)[1]
-    dp=np.shape(mpo)[3]
-    mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    solver=Radau(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
-    solver.step()
-    return np.reshape(solver.dense_output()(tau),mps.shape)
+    return evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='Radau',rtol=rtol,atol=atol)
 
 def evolveMatrixRadau(L,R,mat,tau,rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
-    
-    [chi1,chi2]=np.shape(mat)
-    chi1p=np.shape(L)[1]
-    chi2p=np.shape(R)[1]
-    mv=fct.partial(HAproductBond,*[L,R])
-    solver=Radau(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
-    solver.step()
-    return np.reshape(solver.dense_output()(tau),mat.shape)    
+    return evolveMatrixsolve_ivp(L,R,mat,tau,method='Radau',rtol=rtol,atol=atol)
 
 
 
-- 
2.43.0


From 4004295c2df5c0790f37d812afe7070008dbbd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 46/96] fix: eigsh and lobpcg returned the same vector twice
 for exactly degenerate eigenvalues

---
 lib/mpslib/mpsfunctions.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 4037067..20e78b8 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1233,11 +1233,10 @@ def eigsh(L,mpo,R,mps0,tolerance=1e-6,numvecs=1,numcv=10,numvecs_returned=1):
             numvecs_returned=numvecs
         es=[]
         vs=[]
-        esorted=np.sort(e)
+        order=np.argsort(e)
         for n in range(numvecs_returned):
-            es.append(esorted[n])
-            ind=np.nonzero(e==esorted[n])
-            vs.append(np.reshape(v[:,ind[0][0]],(chi1p,chi2p,dp)))
+            es.append(e[order[n]])
+            vs.append(np.reshape(v[:,order[n]],(chi1p,chi2p,dp)))
         return es,vs
 
 def lobpcg(L,mpo,R,mps0,tolerance=1e-6,numvecs_returned=1):
@@ -1273,11 +1272,10 @@ def lobpcg(L,mpo,R,mps0,tolerance=1e-6,numvecs_returned=1):
             numvecs_returned=numvecs
         es=[]
         vs=[]
-        esorted=np.sort(e)
+        order=np.argsort(e)
         for n in range(numvecs_returned):
-            es.append(esorted[n])
-            ind=np.nonzero(e==esorted[n])
-            vs.append(np.reshape(v[:,ind[0][0]],(chi1p,chi2p,dp)))
+            es.append(e[order[n]])
+            vs.append(np.reshape(v[:,order[n]],(chi1p,chi2p,dp)))
         return es,vs
 
 
-- 
2.43.0


From f554f0f8e8a798dcabed333945a62c3b2c4313f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 47/96] fix: eigshbond raised for numvecs_returned>1

---
 lib/mpslib/mpsfunctions.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 20e78b8..e023b4c 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1408,15 +1408,14 @@ def eigshbond(L,mpo,mps,R,mat0,position,tolerance=1e-6,numvecs=1,numcv=10,numvec
         return e[ind[0][0]],np.reshape(v[:,ind[0][0]],(chi1p,chi2p))
     elif numvecs_returned>1:
         if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: request to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
+            warnings.warn('mpsfunctions.eigshbond: request to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
             numvecs_returned=numvecs
-            es=[]
-            vs=[]
-            esorted=np.sort(e)
-            for n in range(numvecs_returned):
-                es.append(esorted[n])
-                ind=np.nonzero(e==esorted[n])
-                vs.append(np.reshape(v[:,ind[0][0]],(chi1p,chi2p)))
+        es=[]
+        vs=[]
+        order=np.argsort(e)
+        for n in range(numvecs_returned):
+            es.append(e[order[n]])
+            vs.append(np.reshape(v[:,order[n]],(chi1p,chi2p)))
         return es,vs
         
     #if position=='left':
-- 
2.43.0


From 22637b0ca67876dea08242c1b8b793e86ab16654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 48/96] fix: lobpcg raised for numvecs_returned>1

---
 lib/mpslib/mpsfunctions.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index e023b4c..2b4f515 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1267,9 +1267,6 @@ def lobpcg(L,mpo,R,mps0,tolerance=1e-6,numvecs_returned=1):
         return e[ind[0][0]],np.reshape(v[:,ind[0][0]],(chi1p,chi2p,dp))
 
     elif numvecs_returned>1:
-        if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
-            numvecs_returned=numvecs
         es=[]
         vs=[]
         order=np.argsort(e)
-- 
2.43.0


From bad0c73b739b0c08dbac6449b870402f31d10424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 49/96] fix: lobpcg ignored the requested tolerance

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 2b4f515..b96e924 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1260,7 +1260,7 @@ def lobpcg(L,mpo,R,mps0,tolerance=1e-6,numvecs_returned=1):
     LOP=LinearOperator((chi1*chi2*d,chi1*chi2*d),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
     X=np.random.random_sample((chi1*chi2*d,numvecs_returned)).astype(dtype)
     X[:,0]=np.reshape(mps0,(chi1*chi2*d))
-    e,v=sp.sparse.linalg.lobpcg(LOP,X=X,largest=False)
+    e,v=sp.sparse.linalg.lobpcg(LOP,X=X,tol=tolerance,largest=False)
     #return [e,np.reshape(v,(chi1p,chi2p,dp))]    
     if numvecs_returned==1:
         ind=np.nonzero(e==min(e))
-- 
2.43.0


From 98da9498b6495825fd39fe29e1df41ac539d2299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 50/96] fix: eigsh raised instead of warning if more vectors
 were requested than calculated

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b96e924..957a8e5 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1229,7 +1229,7 @@ def eigsh(L,mpo,R,mps0,tolerance=1e-6,numvecs=1,numcv=10,numvecs_returned=1):
 
     elif numvecs_returned>1:
         if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
+            warnings.warn('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
             numvecs_returned=numvecs
         es=[]
         vs=[]
-- 
2.43.0


From 9f7a452834c31b9b86d057530f364fedbc436e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 51/96] fix: gexpmv (SEXPMV time evolution) raised for
 one-dimensional operators and did not reach the final time for 2 and
 3-dimensional ones

---
 lib/mpslib/sexpmv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/mpslib/sexpmv.py b/lib/mpslib/sexpmv.py
index 5ccabf5..e3cc0f0 100644
--- a/lib/mpslib/sexpmv.py
+++ b/lib/mpslib/sexpmv.py
@@ -9,6 +9,7 @@ and http://www.maths.uq.edu.au/expokit
 @author: Ashley Milsted
 """
 from __future__ import absolute_import, division, print_function
+import numpy as np
 import scipy as sp
 import scipy.linalg as la
 from math import sqrt, log10, copysign, trunc
@@ -29,6 +30,11 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
       else:
             matvec = lambda v: sp.dot(A,v)
 
+      if n == 1 or (m is None and n <= 20):
+            #the Krylov space would be (almost) the full space, and is too small to control the error if n is small
+            mat = np.column_stack([matvec(e) for e in np.eye(n, dtype=A.dtype)])
+            return la.expm(t * mat).dot(v), True, 1, False, n
+
       if m is None:
             m = min(20, n-1)
       
-- 
2.43.0


From 0ea2382ac5901bb2b4ccbc1d55b363f5ab5afa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 52/96] fix: gexpmv raised an OverflowError if the estimated
 error of a step vanished

---
 lib/mpslib/sexpmv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/sexpmv.py b/lib/mpslib/sexpmv.py
index e3cc0f0..4a91bf5 100644
--- a/lib/mpslib/sexpmv.py
+++ b/lib/mpslib/sexpmv.py
@@ -204,7 +204,7 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
 
             #suggested value for the next stepsize ...
 
-            t_new = gamma * t_step * (t_step*tol/err_loc)**xm
+            t_new = gamma * t_step * (t_step*tol/max( err_loc, 1E-300 ))**xm
             p1 = 10.0**(round( log10( t_new )-SQR1 )-1)
             t_new = trunc( t_new/p1 + 0.55 ) * p1
 
-- 
2.43.0


From 7ef320fc4f9659d198c6db1d64572f66b0ace50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:17 +0000
Subject: [PATCH 53/96] fix: single-site DMRG left the mps (and its
 checkpoints) neither normalized nor in canonical form

---
 lib/mpslib/engines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 9a46b21..0837807 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -277,6 +277,10 @@ class DMRGengine(Container):
                 self.position(n+1)                
                 e,opt=self.optimize(n,tol,ncv,numvecs,solver,Ndiag,nmaxlan,landelta,landeltaEta,verbose)                
                 self.mps[n]=opt
+
+            #restore the canonical form (self.mps[n]=opt is the center tensor)
+            self.position(0)
+            self._mps.resetZ()
                     
             if np.abs(e-energy)<Econv:
                 converged=True
-- 
2.43.0


From fe60c24388b23c5f6198a62070ec67edff42ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:03 +0000
Subject: [PATCH 54/96] fix: lanczos and lanczosbond returned vectors that are
 no eigenvectors once the Krylov vectors had lost their orthogonality

---
 lib/Lanczos/LanczosEngine.py | 7 +++----
 lib/mpslib/mpsfunctions.py   | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 666b74a..0377907 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -65,6 +65,9 @@ class LanczosEngine:
         self._vecs=[]
         first=True
         while converged==False:
+            if reortho==True:
+                for v in self._vecs:
+                    xn-=self._dot(v.conjugate(),xn)*v
             #normalize the current vector:
             knval=np.sqrt(self._dot(xn.conjugate(),xn))
 
@@ -74,10 +77,6 @@ class LanczosEngine:
             kn.append(knval)
             xn=xn/kn[-1]
             #store the Lanczos vector for later
-
-            if reortho==True:
-                for v in self._vecs:
-                    xn-=self._dot(v.conjugate(),xn)*v
             self._vecs.append(xn)                    
             Hxn=self._matvec(xn)                    
             epsn.append(self._dot(xn.conjugate(),Hxn))
diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 957a8e5..23e7439 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1166,7 +1166,7 @@ def lanczos(L,mpo,R,mps0,tolerance=1e-6,Ndiag=10,nmax=500,numeig=1,delta=1E-8,de
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
     LOP=LinearOperator((chi1*chi2*d,chi1*chi2*d),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
     lan=lanEn.LanczosEngine(mv,np.dot,np.zeros,Ndiag,nmax,numeig,delta,deltaEta)
-    e,v,con=lan.__simulate__(initialstate=np.reshape(mps0,chi1*chi2*d).astype(dtype),verbose=False)
+    e,v,con=lan.__simulate__(initialstate=np.reshape(mps0,chi1*chi2*d).astype(dtype),reortho=True,verbose=False)
     if numeig==1:
         return e[0],np.reshape(v[0],(chi1p,chi2p,dp))
     else:
@@ -1187,7 +1187,7 @@ def lanczosbond(L,mpo,mps,R,mat0,position,Ndiag=10,nmax=500,numeig=1,delta=1E-10
     mv=fct.partial(HAproductZeroSite,*[L,mpo,mps,R,position])
     LOP=LinearOperator((chi1*chi2,chi1*chi2),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
     lan=lanEn.LanczosEngine(mv,np.dot,np.zeros,Ndiag,nmax,numeig,delta,deltaEta)
-    e,v,con=lan.__simulate__(initialstate=np.reshape(mat0,chi1*chi2).astype(dtype),verbose=False)
+    e,v,con=lan.__simulate__(initialstate=np.reshape(mat0,chi1*chi2).astype(dtype),reortho=True,verbose=False)
 
     if numeig==1:
         return e[0],np.reshape(v[0],(chi1p,chi2p))
-- 
2.43.0


From 35a4b75c160bd4de984f52b7ed750dbce4584165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 55/96] fix: lanczos and lanczosbond raised for numeig>1 if the
 Krylov space of the initial state is smaller

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 23e7439..adcc9ae 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1172,7 +1172,7 @@ def lanczos(L,mpo,R,mps0,tolerance=1e-6,Ndiag=10,nmax=500,numeig=1,delta=1E-8,de
     else:
         es=[]
         vs=[]
-        for n in range(numeig):
+        for n in range(len(v)):
             es.append(e[n])
             vs.append(np.reshape(v[n],(chi1p,chi2p,dp)))
         return es,vs
@@ -1195,7 +1195,7 @@ def lanczosbond(L,mpo,mps,R,mat0,position,Ndiag=10,nmax=500,numeig=1,delta=1E-10
         es=[]
         vs=[]
         
-        for n in range(numeig):
+        for n in range(len(v)):
             es.append(e[n])
             vs.append(np.reshape(v[n],(chi1p,chi2p)))
         return es,vs
-- 
2.43.0


From dd57dd1220b2473e48a4a80ba86fb0574c98419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:25 +0000
Subject: [PATCH 56/96] fix: doTDVP with RK45/RK23/BDF evolved backwards in
 time and ignored the real part of dt

---
 lib/mpslib/engines.py      |  8 ++++----
 lib/mpslib/mpsfunctions.py | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 0837807..c51b9e3 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1327,7 +1327,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 #evolve tensor forward
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':
                     evTen=mf.evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim) #clear=True resets self._mat to identity
                 elif solver=='SEXPMV':                    
@@ -1340,7 +1340,7 @@ class TimeEvolutionEngine(Container):
                 #evolve matrix backward                    
                 if n<(self._mps._N-1):
                     if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                     elif solver=='LAN':                        
                         evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],mat,-dt_,krylov_dimension=krylov_dim)
                     elif solver=='SEXPMV':                                            
@@ -1356,7 +1356,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 self._R[self._mps._N-n-1]=mf.addLayer(self._R[self._mps._N-n-2],self._mps[n+1],self._mpo[n+1],self._mps[n+1],-1)
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                    
-                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
+                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
                 elif solver=='LAN':                
                     evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                    
@@ -1367,7 +1367,7 @@ class TimeEvolutionEngine(Container):
             
                 #evolve tensor forward: the back-evolved center matrix is absorbed into the left-side tensor, and the product is evolved forward in time
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                                    
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':                                
                     evTen=mf. evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                                        
diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index adcc9ae..944b65d 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1340,28 +1340,28 @@ def evolveMatrixLan(L,R,mat,tau,krylov_dimension=20,delta=1E-8):
 
 
 def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                        
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
+    if not np.issubdtype(type(tau),np.inexact):
+        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float or complex")
     [chi1,chi2,d]=np.shape(mps)
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)).astype(complex),method=method,rtol=rtol,atol=atol)    
+    out=solve_ivp(lambda t,y:(-1j*tau)*mv(y),t_span=(0.0,1.0),y0=np.reshape(mps,(chi1*chi2*d)).astype(complex),method=method,rtol=rtol,atol=atol)    
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
     #return np.reshape(solver.dense_output()(tau),mps.shape)
     return np.reshape(out.y[:,-1],mps.shape)
 
 
 def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
+    if not np.issubdtype(type(tau),np.inexact):
+        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float or complex")
     
     [chi1,chi2]=np.shape(mat)
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     mv=fct.partial(HAproductBond,*[L,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)).astype(complex),method=method,rtol=rtol,atol=atol)
+    out=solve_ivp(lambda t,y:(-1j*tau)*mv(y),t_span=(0.0,1.0),y0=np.reshape(mat,(chi1*chi2)).astype(complex),method=method,rtol=rtol,atol=atol)
     return np.reshape(out.y[:,-1],mat.shape)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
     #solver.step()
-- 
2.43.0


From 40c347fa36da7abf2062c3e02f4d092cfa2df199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:25 +0000
Subject: [PATCH 57/96] fix: doTDVP used outdated environments if the center of
 the mps had been moved or the mps had been evolved with doTEBD

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index c51b9e3..3f08813 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1317,7 +1317,7 @@ class TimeEvolutionEngine(Container):
             raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}".format(solver))
         converged=False
         current='None'
-        self._mps.__position__(0)
+        self.initializeTDVP()
         for step in range(numsteps):
             for n in range(self._mps._N):
                 if n==self._mps._N-1:
-- 
2.43.0


From cdb49a410023bd87cd80cde03267685cabac4e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:25 +0000
Subject: [PATCH 58/96] fix: doTEBD and doTDVP did not count the elapsed time
 for verbose=0

---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 3f08813..a814137 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1255,8 +1255,8 @@ class TimeEvolutionEngine(Container):
         for step in range(numsteps):
             #odd step updates:
             self.applyOdd(dt,Dmax,tr_thresh)
+            self._t0+=np.abs(np.imag(dt))
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))
                 stdout.write("\rTEBD engine: t=%4.4f truncated weight=%.16f at D/Dmax=%i/%i, truncation threshold=%1.16f, |dt|=%1.5f"%(self._t0,self._tw,np.max(self.mps.D),Dmax,tr_thresh,np.abs(dt)))
                 stdout.flush()
             if verbose>=2:
@@ -1379,8 +1379,8 @@ class TimeEvolutionEngine(Container):
 
                 self._mps._mat=mat
                 self._mps._position=n
+            self._t0+=np.abs(np.imag(dt))
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))                
                 stdout.write("\rTDVP engine using %s solver: t=%4.4f, D=%i, |dt|=%1.5f"%(solver,self._t0,np.max(self._mps.D),np.abs(dt)))
                 stdout.flush()
             if verbose>=2:                
-- 
2.43.0


From 27908ea4c6ec07e2b1f9dc04a4c7dd7675b59494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:25 +0000
Subject: [PATCH 59/96] fix: doTEBD with numsteps=0 applied half a step of the
 even bonds

---
 lib/mpslib/engines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index a814137..ece77ab 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1249,6 +1249,8 @@ class TimeEvolutionEngine(Container):
                    if True, keep all checkpointed files, if False, only keep the last one
         """
 
+        if numsteps<1:
+            return self._tw,self._t0
         #even half-step:
         current='None'
         self.applyEven(dt/2.0,Dmax,tr_thresh)
-- 
2.43.0


From 77bb4b7dc5dcb562ea597945562f49bf63457d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:25 +0000
Subject: [PATCH 60/96] fix: TimeEvolutionEngine.TEBD used an undefined name
 and always raised

---
 lib/mpslib/engines.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index ece77ab..c8ae188 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1096,11 +1096,7 @@ class TimeEvolutionEngine(Container):
                        if None, obc are assumed
         """
         
-        cls._gates=copy.deepcopy(gatecontainer)
-        cls._mps=copy.deepcopy(mps)
-        cls._mpo=copy.deepcopy(mpo)
-        cls._filename=filename        
-        return cls
+        return cls(mps,gatecontainer,filename)
 
     @classmethod
     def TDVP(cls,mps,mpo,filename,lb=None,rb=None):
-- 
2.43.0


From 1de831c86b8b48ccf8b6eba06ebc3cc9ef80304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:42 +0000
Subject: [PATCH 61/96] fix: checkpoints of doTEBD and doTDVP contained an
 iteration counter which was one step behind the stored state

---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index c8ae188..2d70b2b 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1259,6 +1259,7 @@ class TimeEvolutionEngine(Container):
                 stdout.flush()
             if verbose>=2:
                 print('')
+            self._it=self._it+1
             #if this is a cp step, save between two half-steps
             if (cp!=None) and (self._it>0) and (self._it%cp==0):
                 #if the cp step does not coincide with the last step, do a half step, save, and do another half step
@@ -1286,7 +1287,6 @@ class TimeEvolutionEngine(Container):
                 #if step is the last step, do a half step
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-            self._it=self._it+1
             self._mps.resetZ()
         return self._tw,self._t0
 
@@ -1383,6 +1383,7 @@ class TimeEvolutionEngine(Container):
                 stdout.flush()
             if verbose>=2:                
                 print('')
+            self._it=self._it+1
             if (cp!=None) and (self._it>0) and (self._it%cp==0):
                 if not keep_cp:
                     if os.path.exists(current+'.pickle'):
@@ -1393,7 +1394,6 @@ class TimeEvolutionEngine(Container):
                     current=self._filename+'_tdvp_cp'+str(self._it)
                     self.save(current)
 
-            self._it=self._it+1
         self._mps.position(0)
         self._mps.resetZ()        
         return self._t0
-- 
2.43.0


From 360b642bfbb0894e94bb1e958296100e54fccee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:42 +0000
Subject: [PATCH 62/96] fix: doTEBD with keep_cp=False kept the previous
 checkpoint if the last step was checkpointed

---
 lib/mpslib/engines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 2d70b2b..4b31e07 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1277,6 +1277,8 @@ class TimeEvolutionEngine(Container):
                 #if the cp step coincides with the last step, only do a half step and save the state
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
+                    if (not keep_cp) and os.path.exists(current+'.pickle'):
+                        os.remove(current+'.pickle')
                     newname=self._filename+'_tebd_cp'+str(self._it)
                     self.save(newname)                    
             #if step is not a cp step:
-- 
2.43.0


From 086988e3115cde859237051c64560c91fc1c2f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:04 +0000
Subject: [PATCH 63/96] fix: doTEBD and doTDVP removed the previous checkpoint
 before the new one was written

---
 lib/mpslib/engines.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 4b31e07..7184f98 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1265,22 +1265,19 @@ class TimeEvolutionEngine(Container):
                 #if the cp step does not coincide with the last step, do a half step, save, and do another half step
                 if step<(numsteps-1):                
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-                    if not keep_cp:
-                        if os.path.exists(current+'.pickle'):
-                            os.remove(current+'.pickle')
-                        current=self._filename+'_tebd_cp'+str(self._it)
-                        self.save(current)
-                    else:
-                        current=self._filename+'_tebd_cp'+str(self._it)
-                        self.save(current)
+                    previous=current
+                    current=self._filename+'_tebd_cp'+str(self._it)
+                    self.save(current)
+                    if (not keep_cp) and os.path.exists(previous+'.pickle'):
+                        os.remove(previous+'.pickle')
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
                 #if the cp step coincides with the last step, only do a half step and save the state
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-                    if (not keep_cp) and os.path.exists(current+'.pickle'):
-                        os.remove(current+'.pickle')
                     newname=self._filename+'_tebd_cp'+str(self._it)
                     self.save(newname)                    
+                    if (not keep_cp) and os.path.exists(current+'.pickle'):
+                        os.remove(current+'.pickle')
             #if step is not a cp step:
             else:
                 #do a regular full step, unless step is the last step
@@ -1387,14 +1384,11 @@ class TimeEvolutionEngine(Container):
                 print('')
             self._it=self._it+1
             if (cp!=None) and (self._it>0) and (self._it%cp==0):
-                if not keep_cp:
-                    if os.path.exists(current+'.pickle'):
-                        os.remove(current+'.pickle')
-                    current=self._filename+'_tdvp_cp'+str(self._it)
-                    self.save(current)
-                else:
-                    current=self._filename+'_tdvp_cp'+str(self._it)
-                    self.save(current)
+                previous=current
+                current=self._filename+'_tdvp_cp'+str(self._it)
+                self.save(current)
+                if (not keep_cp) and os.path.exists(previous+'.pickle'):
+                    os.remove(previous+'.pickle')
 
         self._mps.position(0)
         self._mps.resetZ()        
-- 
2.43.0


From 77263f12ff3591cfea11cfd7004300bf88bebe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 64/96] fix: MPS.load replaced the maximal bond dimension by
 the number of sites

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index d88d3e3..94e0145 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1313,7 +1313,7 @@ class MPS:
         with open(filename+'.pickle', 'rb') as f:
             mps=pickle.load(f)
         self._N=mps._N
-        self._D=mps._N
+        self._D=mps._D
         self._obc=mps._obc
         self._dtype=mps._dtype
         self._schmidt_thresh=mps._schmidt_thresh
-- 
2.43.0


From ab7c583162c7ccb90c6358e4ee360ec6cc299bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 65/96] fix: a run that died while saving destroyed the
 previous checkpoint of the same name

---
 lib/mpslib/engines.py | 3 ++-
 lib/mpslib/mps.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 7184f98..73eac30 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -41,8 +41,9 @@ class Container:
                   the filename of the file
         """
 
-        with open(filename+'.pickle', 'wb') as f:
+        with open(filename+'.pickle.tmp', 'wb') as f:
             pickle.dump(self,f)
+        os.replace(filename+'.pickle.tmp',filename+'.pickle')
             
     def load(self,filename):
         """
diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 94e0145..e376326 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1300,8 +1300,9 @@ class MPS:
         
         
         """
-        with open(filename+'.pickle', 'wb') as f:
+        with open(filename+'.pickle.tmp', 'wb') as f:
             pickle.dump(self,f)
+        os.replace(filename+'.pickle.tmp',filename+'.pickle')
 
     def load(self,filename):
         """
-- 
2.43.0


From f0c41822f298ee7f880c4aa19ca7049769edc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:13 +0000
Subject: [PATCH 66/96] fix: getBoundaryHams returned four values instead of
 six for a state whose centre is moved to the left end

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 944b65d..9f96a30 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1830,7 +1830,7 @@ def getBoundaryHams(mps,mpo,regauge=False):
         
         lb=np.copy(f0l)
         rb=np.copy(f0r)
-        return lb,rb,lbound,rbound
+        return lb,rb,lbound,rbound,hl,hr
 
     if mps.pos==len(mps):
         D=np.shape(mps[-1])[1]
-- 
2.43.0


From 208355875b6ae5b017c1f4ced3245a58dbce4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:13 +0000
Subject: [PATCH 67/96] fix: the half-infinite environments of getBoundaryHams
 counted the on-site term at the edge of every unit cell twice

---
 lib/mpslib/mpsfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 9f96a30..bedbbc5 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1900,6 +1900,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction>0:
         mpo=np.zeros((1,B2,d1,d2),dtype=dtype)
         mpo[0,:,:,:]=mpopbc[NUC-1][-1,:,:,:]
+        mpo[0,0,:,:]=0.0 #the on-site term of this site belongs to the previous unit cell
         L=initializeLayer(mps[NUC-1],np.eye(D1r),mps[NUC-1],mpo,1)
 
         for n in range(0,len(mps)):
@@ -1914,6 +1915,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction<0:
         mpo=np.zeros((B1,1,d1,d2),dtype=dtype)
         mpo[:,0,:,:]=mpopbc[0][:,0,:,:]
+        mpo[-1,0,:,:]=0.0 #the on-site term of this site belongs to the next unit cell
         R=initializeLayer(mps[0],np.eye(D2l),mps[0],mpo,-1)
         for n in range(len(mps)-1,-1,-1):
             R=addLayer(R,mps[n],mpopbc[n],mps[n],-1)    
-- 
2.43.0


From f64231af2af61750f4f063cd1283931675a9e58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:06 +0000
Subject: [PATCH 68/96] fix: VUMPS with arnumvecs>1 and the Arnoldi solver
 raised, as it requested only one eigenvector

---
 lib/mpslib/engines.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 73eac30..df4aca0 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -943,10 +943,9 @@ class VUMPSengine(Container):
         self._gradnorm=np.linalg.norm(AC_-ncon.ncon([self._A,C_],[[-1,1,-3],[1,-2]]))
 
         if self._solver=='AR':
-            e1,mps=mf.eigsh(self._lb,self._mpo[1],self._rb,self._mps[0],self._artol_,numvecs=1,numcv=self._arncv,numvecs_returned=self._arnumvecs)#mps._mat set to 11 during call of __tensor__()
+            e1,mps=mf.eigsh(self._lb,self._mpo[1],self._rb,self._mps[0],self._artol_,numvecs=self._arnumvecs,numcv=self._arncv,numvecs_returned=self._arnumvecs)#mps._mat set to 11 during call of __tensor__()
             e2,self._mat=mf.eigshbond(self._lb,self._mpo[1],self._A,self._rb,self._mat,position='right',tolerance=self._artol_,numvecs=self._arnumvecs,numcv=self._arncv)
             if self._arnumvecs>1:        
-                self._mat/=np.linalg.norm(self._mat[0])
                 self._gap=e1[1]-e1[0]
                 self._mps[0]=mps[0]
             else:
-- 
2.43.0


From 52372b4b5297de52d8b46d599f385c607a6c8266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:34 +0000
Subject: [PATCH 69/96] fix: an MPO built from a list of tensors had no dtype
 and could not be used by VUMPSengine

---
 lib/mpslib/Hamiltonians.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index a7f83ea..0fe2e06 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -21,6 +21,8 @@ class MPO:
     #a list of mpo-tensors, to be initialized in the derived class
     self._mpo = copy.deepcopy(mpos)
     self._N = len(self._mpo)
+    if self._N > 0:
+      self._dtype = np.result_type(*[m.dtype for m in self._mpo])
 
   @classmethod
   def fromMPO(cls, other):
-- 
2.43.0


From 79e11e9f7b8ba4c22f22e3d4f8e3b421f1024db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 70/96] fix: OneMinusPseudoTransferOperator ignored negative
 momenta

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index bedbbc5..81ff6b7 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2531,13 +2531,13 @@ def OneMinusPseudoTransferOperator(Upper,Lower,r,l,direction,momentum,vector):
     [chiL1,chiL2,dL]=np.shape(Lower)
     if direction>0:
         x=np.reshape(vector,(chiU1,chiL1))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(x,r,([0,1],[0,1]))*l,(chiU2*chiL2))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
     if direction<0:
         x=np.reshape(vector,(chiU2,chiL2))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(l,x,([0,1],[0,1]))*r,(chiU1*chiL1))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
-- 
2.43.0


From 196eb1fc9f3c79dfe8422d98981b55a7c45926dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 71/96] fix: TDVPGMRES dropped its momentum argument

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 81ff6b7..32d82e0 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2585,7 +2585,7 @@ def TDVPGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=2000,dir
     """
     
     warnings.warn('mpsfunctions.TDVPGMRES is deprecated; use mpsfunctions.RENORMBLOCKHAMGMRES instead')
-    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction)
+    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction,momentum)
 
 #calculates the reduced block hamiltonian for left or right side (depending on dir)
 def RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=200,direction=1,momentum=0.0):
-- 
2.43.0


From b9bdf09cb80be9e17bc08be56dc10a028133779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 72/96] fix: HomogeneousDiscretizedBosonEngine replaced the
 convergence parameters of the user by the defaults

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index df4aca0..77994ee 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -838,7 +838,7 @@ a derived class for discretized Boson simulations; teh only difference to Homoge
 """
 class HomogeneousDiscretizedBosonEngine(HomogeneousIMPSengine):
     def __init__(self,Nmax,mps,mpo,dx,filename,alpha,alphas,normgrads,dtype,factor=2.0,itreset=10,normtol=0.1,epsilon=1E-10,tol=1E-4,lgmrestol=1E-10,ncv=30,numeig=3,Nmaxlgmres=40):        
-        super().__init__(Nmax,mps,mpo,filename,alpha,alphas,normgrads,dtype,factor=2.0,itreset=10,normtol=0.1,epsilon=1E-10,tol=1E-4,lgmrestol=1E-10,ncv=30,numeig=3,Nmaxlgmres=40)
+        super().__init__(Nmax,mps,mpo,filename,alpha,alphas,normgrads,dtype,factor=factor,itreset=itreset,normtol=normtol,epsilon=epsilon,tol=tol,lgmrestol=lgmrestol,ncv=ncv,numeig=numeig,Nmaxlgmres=Nmaxlgmres)
         
     def simulate(self,*args,**kwargs):
         self.__simulate__(*args,**kwargs)
-- 
2.43.0


From 369a3e6c233428f8c4f72aafb16e4073b4e45fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 73/96] fix: computeUCsteadyStateHamiltonianGMRES contracted
 the energy per cell with the transposed density of complex states

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 32d82e0..0adc6d1 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1906,7 +1906,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         for n in range(0,len(mps)):
             L=addLayer(L,mps[n],mpopbc[n],mps[n],1)    
 
-        h=np.trace(L[:,:,0].dot(rdens[-1]))
+        h=np.tensordot(L[:,:,0],rdens[-1],([0,1],[0,1]))
         inhom=np.reshape(L[:,:,0]-h*np.transpose(np.eye(D2r)),D2r*D2r) 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D1l*D1l)),thresh,imax,datatype=dtype,direction=1)
         L[:,:,0]=np.reshape(k2,(D2r,D2r))
@@ -1920,7 +1920,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         for n in range(len(mps)-1,-1,-1):
             R=addLayer(R,mps[n],mpopbc[n],mps[n],-1)    
 
-        h=np.trace(R[:,:,-1].dot(ldens[0]))
+        h=np.tensordot(R[:,:,-1],ldens[0],([0,1],[0,1]))
         inhom=np.reshape(R[:,:,-1]-h*np.transpose(np.eye(D1l)),D1l*D1l)
 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D2r*D2r)),thresh,imax,datatype=dtype,direction=-1)
-- 
2.43.0


From 85bba1b66a2a58fc82ec66f0ffc902a2e390b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 74/96] fix: getLprojected and getRprojected projected with the
 transposed density of complex states

---
 lib/mpslib/mpsfunctions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 0adc6d1..4850a13 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1116,12 +1116,12 @@ def getRprojected(mps,mpo,rightboundary,ldens,rdens):
     R.append(addLayer(rightboundary,mps[-1],mpo[-1],mps[-1],-1))
     lmat=ldens[-2]
     rmat=rdens[-2]
-    R[0][:,:,-1]=R[0][:,:,-1]-np.trace(R[0][:,:,-1].dot(lmat))*rmat
+    R[0][:,:,-1]=R[0][:,:,-1]-np.sum(R[0][:,:,-1]*lmat)*rmat
     for n in range(1,N):
         R.append(addLayer(R[n-1],mps[N-1-n],mpo[N-1-n],mps[N-1-n],-1))
         lmat=ldens[N-1-n]
         rmat=rdens[N-1-n]
-        R[n][:,:,-1]=R[n][:,:,-1]-np.trace(R[n][:,:,-1].dot(lmat))*rmat
+        R[n][:,:,-1]=R[n][:,:,-1]-np.sum(R[n][:,:,-1]*lmat)*rmat
     return R
 
 
@@ -1146,12 +1146,12 @@ def getLprojected(mps,mpo,leftboundary,ldens,rdens):
     L.append(addLayer(leftboundary,mps[0],mpo[0],mps[0],1))
     rmat=rdens[1]
     lmat=ldens[1]    
-    L[0][:,:,0]=L[0][:,:,0]-np.trace(L[0][:,:,0].dot(rmat))*lmat
+    L[0][:,:,0]=L[0][:,:,0]-np.sum(L[0][:,:,0]*rmat)*lmat
     for n in range(1,N):
         L.append(addLayer(L[n-1],mps[n],mpo[n],mps[n],1))
         rmat=rdens[n+1]
         lmat=ldens[n+1]
-        L[n][:,:,0]=L[n][:,:,0]-np.trace(L[n][:,:,0].dot(rmat))*lmat
+        L[n][:,:,0]=L[n][:,:,0]-np.sum(L[n][:,:,0]*rmat)*lmat
 
     return L
 
-- 
2.43.0


From 95969c38ff1caec7ff093636174efa63cf26c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 75/96] fix: the first checkpoint of a time evolution removed a
 file of the user named None.pickle

---
 lib/mpslib/engines.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 77994ee..e2dd308 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1248,7 +1248,7 @@ class TimeEvolutionEngine(Container):
         if numsteps<1:
             return self._tw,self._t0
         #even half-step:
-        current='None'
+        current=None
         self.applyEven(dt/2.0,Dmax,tr_thresh)
         for step in range(numsteps):
             #odd step updates:
@@ -1268,7 +1268,7 @@ class TimeEvolutionEngine(Container):
                     previous=current
                     current=self._filename+'_tebd_cp'+str(self._it)
                     self.save(current)
-                    if (not keep_cp) and os.path.exists(previous+'.pickle'):
+                    if (not keep_cp) and (previous!=None) and os.path.exists(previous+'.pickle'):
                         os.remove(previous+'.pickle')
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
                 #if the cp step coincides with the last step, only do a half step and save the state
@@ -1276,7 +1276,7 @@ class TimeEvolutionEngine(Container):
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
                     newname=self._filename+'_tebd_cp'+str(self._it)
                     self.save(newname)                    
-                    if (not keep_cp) and os.path.exists(current+'.pickle'):
+                    if (not keep_cp) and (current!=None) and os.path.exists(current+'.pickle'):
                         os.remove(current+'.pickle')
             #if step is not a cp step:
             else:
@@ -1313,7 +1313,7 @@ class TimeEvolutionEngine(Container):
         if solver not in ['LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23']:
             raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}".format(solver))
         converged=False
-        current='None'
+        current=None
         self.initializeTDVP()
         for step in range(numsteps):
             for n in range(self._mps._N):
@@ -1387,7 +1387,7 @@ class TimeEvolutionEngine(Container):
                 previous=current
                 current=self._filename+'_tdvp_cp'+str(self._it)
                 self.save(current)
-                if (not keep_cp) and os.path.exists(previous+'.pickle'):
+                if (not keep_cp) and (previous!=None) and os.path.exists(previous+'.pickle'):
                     os.remove(previous+'.pickle')
 
         self._mps.position(0)
-- 
2.43.0


From 2813f1d4a35ea00c35fb03811d7077d54cfbe726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 76/96] fix: VUMPSengine left the center-site tensor instead of
 the state in its mps and in its checkpoints, so that the state was lost

---
 lib/mpslib/engines.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index e2dd308..aeebdbc 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1052,7 +1052,7 @@ class VUMPSengine(Container):
             if self._it>=Nmax:
                 break
             if (checkpoint>0) and (self._it%checkpoint==0):
-                np.save('CP_mps'+self._filename,self._mps)
+                np.save('CP_mps'+self._filename,[self._A])
             self._it+=1
             if self._arnumvecs==1:
                 stdout.write("\rusing %s solver: it %i: local E=%.16f, D=%i, gradient norm=%.16f" %(self._solver,self._it,np.real(Edens),self._D,self._gradnorm))
@@ -1069,6 +1069,12 @@ class VUMPSengine(Container):
         if converged==True:
             print ('simulation converged to {0} in {1} steps'.format(self._epsilon,Nmax))
         print
+        #self._mps[0] is the center-site tensor during the optimization; return to the (left-orthogonal) state
+        self._mps[0]=self._A
+        if isinstance(self._mps,mpslib.MPS):
+            self._mps._mat=np.eye(self._D)
+            self._mps._connector=np.eye(self._D)
+            self._mps._position=self._mps._N
         return Edens
         
 
-- 
2.43.0


From 63575419a86250324e1813c817fbe7f762a2126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 77/96] fix: binarybasis lost low bits for more than 54 sites
 (uint64 plus int is a float)

---
 lib/utils/binaryoperations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/binaryoperations.py b/lib/utils/binaryoperations.py
index 923a77c..d7df9ac 100644
--- a/lib/utils/binaryoperations.py
+++ b/lib/utils/binaryoperations.py
@@ -37,7 +37,7 @@ def binarybasis(N,Nup):
         for p in range(Nup-1,N):
             rest=binarybasis(p,Nup-1)
             for n in rest:
-                basis.append(np.uint64(n+2**p))
+                basis.append(np.uint64(int(n)+2**p))
         return basis
 
 
-- 
2.43.0


From 38ec38c50949ac20d1020273577f036a1f9bd87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 78/96] fix: SFwick and SBwick counted every contraction
 several times, ignored the operator indices and confused their signs

---
 lib/utils/utilities.py | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 68971b4..880954a 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -19,41 +19,32 @@ herm=lambda x:np.conj(np.transpose(x))
 
 
 def SBwick(Mij,cdag,c):
+    """
+    bosonic Wick contraction <b^dag_{cdag[0]} ... b^dag_{cdag[n]} b_{c[0]} ... b_{c[n]}> for Mij=<b^dag_i b_j>
+    """
+    assert(len(cdag)==len(c))
     if len(cdag)==1:
-        assert(len(c)==1)
         return Mij[cdag[0],c[0]]
     else:
-        if isinstance(cdag,list):
-            cdag=np.array(cdag).astype(int)
-        if isinstance(c,list):
-            c=np.array(c).astype(int)
-            
         corr=0.0
-        for n1 in range(len(cdag)):
-            for n2 in range(len(c)):
-                cdag_p=cdag[cdag!=cdag[n1]]
-                c_p=c[c!=c[n2]]
-                corr=corr+Mij[n1,n2]*SFwick(Mij,cdag_p,c_p)
+        for n in range(len(c)):
+            corr=corr+Mij[cdag[0],c[n]]*SBwick(Mij,cdag[1:],np.delete(c,n))
         return corr
 
 
 def SFwick(Mij,cdag,c):
+    """
+    fermionic Wick contraction <c^dag_{cdag[0]} ... c^dag_{cdag[n]} c_{c[0]} ... c_{c[n]}> for Mij=<c^dag_i c_j>
+    """
+    assert(len(cdag)==len(c))
     if len(cdag)==1:
-        assert(len(c)==1)
         return Mij[cdag[0],c[0]]
     else:
-        if isinstance(cdag,list):
-            cdag=np.array(cdag).astype(int)
-        if isinstance(c,list):
-            c=np.array(c).astype(int)
-            
         corr=0.0
-        for n1 in range(len(cdag)):
-            for n2 in range(len(c)):
-                cdag_p=cdag[cdag!=cdag[n1]]
-                c_p=c[c!=c[n2]]
-                par=(-1)**(len(cdag)-n1+n2)
-                corr=corr+par*Mij[n1,n2]*SFwick(Mij,cdag_p,c_p)
+        for n in range(len(c)):
+            #c[n] is moved past the other annihilation operators and the remaining creation operators
+            par=(-1)**(len(cdag)-1+n)
+            corr=corr+par*Mij[cdag[0],c[n]]*SFwick(Mij,cdag[1:],np.delete(c,n))
         return corr
 
 
-- 
2.43.0


From 3fe46de59591003aaafc0a4accf9a19c18176f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 79/96] fix: the root finder bisection was replaced by an
 unrelated function of the same name

---
 lib/utils/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 880954a..6ada425 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -628,11 +628,11 @@ def isDiagUnitary(matrix,err=1E-8):
 
 
 #N is the lenght of the fine grid on which grid is defined
-def bisection(grid,position):
+def bisectionGrid(grid,position):
     g=np.copy(grid)
     while  True:
         N=len(g)
-        i0=(N-N%2)/2
+        i0=(N-N%2)//2
         lgrid=np.copy(g[0:i0])
         rgrid=np.copy(g[i0::])
         if (position>=lgrid[-1])&(position<=rgrid[0]):
-- 
2.43.0


From 1dbd6ab8c8067e7cd16584759e9d7ca3928e705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 80/96] fix: MPS.imag called a method that does not exist

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index e376326..ec41be7 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -446,7 +446,7 @@ class MPS:
         
         return self.__real__(*args,**kwargs)
 
-    def __imag_(self,*args,**kwargs):
+    def __imag__(self,*args,**kwargs):
         """
         return a new MPS with the imaginary part of self
         """
-- 
2.43.0


From 0e682bfc574f0ef78e9bfd6410d717557e563944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 81/96] fix: TDVPupdate raised for complex states where the
 matrix square root comes in extended precision

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 4850a13..cf2d421 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2755,7 +2755,7 @@ def TDVPupdate(r,tensor,mpo,kold=None,tol=1E-10):
     k = TDVPGMRES(tensor,tensor,r,l,inhom,x0=kold,tolerance=tol,maxiteration=1000)
     sqrtl=sp.linalg.sqrtm(l)
     isqrtl=np.linalg.pinv(sqrtl,rcond=1E-15)
-    sqrtr=sp.linalg.sqrtm(r)
+    sqrtr=sp.linalg.sqrtm(r).astype(np.result_type(r,dtype)) #some scipy versions return complex256 for complex input
     isqrtr=np.linalg.pinv(sqrtr,rcond=1E-15)
     restmat=np.random.rand(d*chi1,chi2*(d-1))*0.0001
     L=np.reshape(np.transpose(tensor,(2,0,1)),(chi1*d,chi2)) #L_{\alpha,(\beta s)}
-- 
2.43.0


From a936ba62b7c3f612f9716c1788f1a553cbc60d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 82/96] fix: TDVPupdate only worked for two states per site

---
 lib/mpslib/mpsfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index cf2d421..24c830f 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2762,7 +2762,7 @@ def TDVPupdate(r,tensor,mpo,kold=None,tol=1E-10):
     L=np.hstack([L,restmat])
 
     [U,lam,Vd]=svd(L,full_matrices=1)
-    VL=np.transpose(np.reshape(U[:,chi1::],(d,chi1,chi2)),(1,2,0))
+    VL=np.transpose(np.reshape(U[:,chi2::],(d,chi1,d*chi1-chi2)),(1,2,0))
 
 
     left=initializeLayer(tensor,sqrtl,VL,mpo[0],1);
@@ -2777,14 +2777,14 @@ def TDVPupdate(r,tensor,mpo,kold=None,tol=1E-10):
     for n in range(d):
         VL_[:,:,n]=isqrtl.dot(VL[:,:,n])
 
-    lb=np.reshape(addLayer(lb,tensor,mpo[-1],VL_,1),(chi1,chi1))
+    lb=np.reshape(addLayer(lb,tensor,mpo[-1],VL_,1),(chi2,d*chi1-chi2))
     term2=np.transpose(lb).dot(sqrtr)
 
     #third term:
     VL_=np.zeros(np.shape(VL),dtype=dtype)
     for n in range(d):
         VL_[:,:,n]=isqrtl.dot(VL[:,:,n])
-    lb=np.reshape(GeneralizedMatrixVectorProduct(1,VL_,tensor,k),(chi1,chi1))
+    lb=np.reshape(GeneralizedMatrixVectorProduct(1,VL_,tensor,k),(chi2,d*chi1-chi2))
     term3=np.transpose(lb).dot(sqrtr)
     xopt=term1+term2+term3
     Adot=np.zeros(np.shape(tensor),dtype=dtype)
-- 
2.43.0


From 51aed069a361ebbe728b3c6e43b684b1ff0f18de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 83/96] fix: MPSinit ignored its dtype argument

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 24c830f..e08cfe0 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -599,7 +599,7 @@ def MPSinit(length,D,d,obc=True,dtype=np.dtype(float),scale=1.0,shift=0.5):
     shift: shift of the interval where random numbers are drawn from 
     """
     
-    return MPSinitializer(np.random.random_sample,length,D,d,obc=obc,dtype=np.dtype(float),scale=scale,shift=shift)
+    return MPSinitializer(np.random.random_sample,length,D,d,obc=obc,dtype=dtype,scale=scale,shift=shift)
 
 
 
-- 
2.43.0


From 2554b23b77a61d391e22474968d82e2030822e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 84/96] fix: computedx subtracts x0 from the first cell instead
 of the last one

---
 lib/utils/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 6ada425..fbd765e 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -56,11 +56,11 @@ def computedx(x0,x,xN):
     for n in range(len(x)):
         #mat=np.zeros((self.D,self.D,2)).astype(self.type)
         if n==0:
-            dx=(x[n+1]+x[n])/2.0
+            dx=(x[n+1]+x[n])/2.0-x0
         if n>0 and n<(len(x)-1):
             dx=(x[n+1]-x[n-1])/2.0
         if n==len(x)-1:
-            dx=xN-x0-(x[n]+x[n-1])/2.0
+            dx=xN-(x[n]+x[n-1])/2.0
         dxs[n]=dx
     assert(np.abs(np.sum(dxs)-(xN-x0))<1E-12)
     return dxs
-- 
2.43.0


From 9ff129ce56ed79ae1a3119ba27ca29948f37e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 85/96] fix: MPS.tensor() accepted site=-1 at centre 0, so that
 measureLocal and gates at site -1 silently returned or produced garbage

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index ec41be7..e9d613f 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1045,7 +1045,7 @@ class MPS:
         if clear=True, self._mat is replaced with a normalized identity matrix
         """
         
-        assert((site==self._position) or (site==(self._position-1)))
+        assert((site>=0) and ((site==self._position) or (site==(self._position-1))))
         if (site==self._position):
             out=np.tensordot(self._mat,self._tensors[site],([1],[0]))
             if clear==True:
-- 
2.43.0


From 93acd3fffc4cc6f50f00476dec85cb7c0cff6177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 86/96] fix: MPS.measure() accepted negative sites and a wrong
 number of operators and returned meaningless numbers

---
 lib/mpslib/mps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index e9d613f..e2cd441 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -931,6 +931,8 @@ class MPS:
         
         if not sorted(sites)==sites:
             sys.exit('mps.py.__measure__(self,ops,sites): sites are not in increasing order')
+        assert(len(ops)==len(sites))
+        assert(sites[0]>=0)
         if not self._obc==True:
             warnings.warn('calculating observable for an infinite MPS; be sure that it is regauged correctly')
         s=0
-- 
2.43.0


From 69b0c4fafebf5dd70c2269fdd6a3558ed295c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 87/96] fix: a gate of the wrong dimension destroyed the centre
 matrix before it was refused

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index e2cd441..70f0ca7 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1218,7 +1218,7 @@ class MPS:
         assert(site<len(self)-1)
         #print("in applyToSite; site+1=",site+1,"thresh=",thresh)
         self.__position__(site+1)        
-        newState=ncon.ncon([self.__tensor__(site,clear=True),self._tensors[site+1],gate],[[-1,1,2],[1,-4,3],[2,3,-2,-3]])
+        newState=ncon.ncon([self.__tensor__(site),self._tensors[site+1],gate],[[-1,1,2],[1,-4,3],[2,3,-2,-3]])
         [Dl,d1,d2,Dr]=newState.shape
         U,S,V=mf.svd(np.reshape(newState,(Dl*d1,Dr*d2)))
         tw=0
@@ -1256,7 +1256,7 @@ class MPS:
         assert(site<len(self))
         if preserve_position==True:
             self.__position__(site+1)
-            tensor=ncon.ncon([self.__tensor__(site,clear=True),gate],[[-1,-2,1],[1,-3]])
+            tensor=ncon.ncon([self.__tensor__(site),gate],[[-1,-2,1],[1,-3]])
             A,mat,Z=mf.prepareTensor(tensor,1)
             self._Z*=Z
             self._dtype=np.result_type(self._dtype,A.dtype)
-- 
2.43.0


From 0606b2910ed42f79bdced4164e36e644ccf622b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 88/96] fix: MPS.applyMPO() left a half-updated state behind
 when one MPO tensor did not fit

---
 lib/mpslib/mps.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 70f0ca7..b552c37 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1281,12 +1281,14 @@ class MPS:
         assert(len(mpo)==len(self))
         self.__position__(0)
         self.__absorbCenterMatrix__(1)
+        tensors=[]
         for n in range(len(self)):
             Ml,Mr,din,dout=mpo[n].shape 
             Dl,Dr,d=self[n].shape
-            if n==0:
-                self._mat=np.eye(Ml*Dl)
-            self[n]=np.reshape(ncon.ncon([self[n],mpo[n]],[[-1,-3,1],[-2,-4,1,-5]]),(Ml*Dl,Mr*Dr,dout))
+            tensors.append(np.reshape(ncon.ncon([self[n],mpo[n]],[[-1,-3,1],[-2,-4,1,-5]]),(Ml*Dl,Mr*Dr,dout)))
+        self._mat=np.eye(tensors[0].shape[0])
+        for n in range(len(self)):
+            self[n]=tensors[n]
             
     def resetZ(self):
         """
-- 
2.43.0


From f3e6d32fad2972353b467f3728b897868deb4e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 89/96] fix: DMRG, TEBD and TDVP engines accepted an MPO with
 more sites than the MPS and ran with inconsistent environments

---
 lib/mpslib/engines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index aeebdbc..1ad1893 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -195,6 +195,7 @@ class DMRGengine(Container):
                   user can provide lb and rb to fix the boundary condition of the mps
                   shapes of lb, rb, mps[0] and mps[-1] have to be consistent
         """
+        assert(len(mps)==len(mpo))
         if (np.all(lb)!=None) and (np.all(rb)!=None):
             assert(mps[0].shape[0]==lb.shape[0])
             assert(mps[-1].shape[1]==rb.shape[0])
@@ -1141,6 +1142,7 @@ class TimeEvolutionEngine(Container):
                        if None, obc are assumed
         """
         
+        assert(len(mps)==len(mpo))
         if (np.all(lb)!=None) and (np.all(rb)!=None):
             assert(mps[0].shape[0]==lb.shape[0])
             assert(mps[-1].shape[1]==rb.shape[0])
-- 
2.43.0


From 03c0fd7f1c90bc22df291e0c7c870451e3438aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 90/96] fix: unknown solver names raised a KeyError from the
 formatting of the error message instead of the ValueError

---
 lib/mpslib/engines.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 1ad1893..d446e00 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -233,7 +233,7 @@ class DMRGengine(Container):
             e,opt=mf.lanczos(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),tol,Ndiag=Ndiag,nmax=nmaxlan,numeig=1,delta=landelta,\
                               deltaEta=landeltaEta)
         else:
-            raise ValueError("DMRGengine.optimize: unknown solver type {0}: use {'AR','LAN','LOBPCG'}".format(solver))
+            raise ValueError("DMRGengine.optimize: unknown solver type {0}: use {{'AR','LAN','LOBPCG'}}".format(solver))
         Dnew=opt.shape[1]
         if verbose>0:
             stdout.write("\rSS-DMRG using %s solver: it=%i/%i, site=%i/%i: optimized E=%.16f+%.16f at D=%i"%(solver,self._it,self._Nmax,n,self._N,np.real(e),np.imag(e),Dnew))
@@ -264,7 +264,7 @@ class DMRGengine(Container):
 
         """
         if solver not in ['AR','LAN','LOBPCG']:
-            raise ValueError("DMRGengine.__simulate__: unknown solver type {0}: use {'AR','LAN','LOBPCG'}".format(solver))
+            raise ValueError("DMRGengine.__simulate__: unknown solver type {0}: use {{'AR','LAN','LOBPCG'}}".format(solver))
         self._Nmax=Nmax
         converged=False
         energy=100000.0
@@ -324,7 +324,7 @@ class DMRGengine(Container):
 
         """
         if solver not in ['AR','LAN','LOBPCG']:
-            raise ValueError("DMRGengine.__simulateTwoSite__: unknown solver type {0}: use {'AR','LAN','LOBPCG'}".format(solver))
+            raise ValueError("DMRGengine.__simulateTwoSite__: unknown solver type {0}: use {{'AR','LAN','LOBPCG'}}".format(solver))
         self._Nmax=Nmax
 
         converged=False
@@ -1319,7 +1319,7 @@ class TimeEvolutionEngine(Container):
         """
 
         if solver not in ['LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23']:
-            raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}".format(solver))
+            raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {{'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}}".format(solver))
         converged=False
         current=None
         self.initializeTDVP()
-- 
2.43.0


From 2dae4391c5f978909e15e3cc9a458b7eb859ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 91/96] fix: orthonormalizeSVD did not check its site range (as
 orthonormalizeQR does) and failed after changing tensors

---
 lib/mpslib/mpsfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index e08cfe0..07b832c 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -874,6 +874,8 @@ def orthonormalizeSVD(mps,direction,site1,site2):
     """
     
     assert(direction!=0),'do NOT use direction=0!'
+    assert(site2<len(mps))
+    assert(site1>=0)
     N=len(mps)
     Z=1
     if direction>0:
-- 
2.43.0


From 937dd914820d31e0a0609378fdcd64582b040532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 92/96] fix: in-place applyMPO overwrote part of the list
 before refusing an MPO tensor that does not fit

---
 lib/mpslib/mpsfunctions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 07b832c..1a67176 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -263,10 +263,9 @@ def applyMPO(mps,mpo,inplace=False):
             out.append(np.reshape(np.transpose(np.tensordot(mps[n],mpo[n],([2],[2])),(0,2,1,3,4)),(D1*M1,D2*M2,d2)))
         return out
     if inplace:
+        out=applyMPO(mps,mpo)
         for n in range(len(mps)):
-            [M1,M2,d1,d2]=mpo[n].shape
-            [D1,D2,d]=mps[n].shape            
-            mps[n]=np.reshape(np.transpose(np.tensordot(mps[n],mpo[n],([2],[2])),(0,2,1,3,4)),(D1*M1,D2*M2,d2))
+            mps[n]=out[n]
         return mps
 
 
-- 
2.43.0


From 7e104daef0721f9ff1885f7f26e56660a6b15c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 93/96] fix: MPS.measure() failed on states with a rectangular
 centre matrix

---
 lib/mpslib/mps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index b552c37..53fb3c2 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -974,8 +974,9 @@ class MPS:
 
         assert(self._position==sites[-1]+1)
 
-        R=np.zeros((self[sites[s-1]].shape[1],self[sites[s-1]].shape[1],1))
-        R[:,:,0]=np.eye(self[sites[s-1]].shape[1])
+        #the center matrix can be rectangular
+        R=np.zeros((self._mat.shape[1],self._mat.shape[1],1))
+        R[:,:,0]=np.eye(self._mat.shape[1])
         Z=np.trace(self._mat.dot(herm(self._mat)))
         if not((np.abs(np.trace(self._mat.dot(herm(self._mat))))-1.0)<1E-10):
             warnings.warn('mps.py.measure(self,ops,sites): state is not normalized')
-- 
2.43.0


From 512509c2cb24afaf1996882405ddd5bd46416a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 94/96] fix: tensor(clear=True) left an unfitting identity
 behind for a rectangular centre matrix

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 53fb3c2..5538013 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1052,14 +1052,14 @@ class MPS:
         if (site==self._position):
             out=np.tensordot(self._mat,self._tensors[site],([1],[0]))
             if clear==True:
-                self._mat=np.eye(np.shape(self._tensors[site])[0])
+                self._mat=np.eye(np.shape(out)[0])
                 self._mat/=np.linalg.norm(self._mat)                                
             return out
 
         if (site==(self._position-1)):
             out=np.transpose(np.tensordot(self._tensors[site],self._mat,([1],[0])),(0,2,1))            
             if clear==True:
-                self._mat=np.eye(np.shape(self._tensors[site])[1])
+                self._mat=np.eye(np.shape(out)[1])
                 self._mat/=np.linalg.norm(self._mat)                
             return out
         
-- 
2.43.0


From f138b2395c5603986a1b6e5be2385dd8f3453c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 95/96] fix: HAproductBond rejected a rectangular centre
 matrix, so that TDVP failed on such states

---
 lib/mpslib/mpsfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 1a67176..bd67be6 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1017,10 +1017,10 @@ def HAproductZeroSiteMat(L,mpo,mps,R,position,mat):
 
 #does the matrix vector product on the bond; vec is a vectorized bond matrix
 def HAproductBond(L,R,vec):
-    chi=np.shape(L)[0]
-    mat=np.reshape(vec,(chi,chi))
+    #the bond matrix can be rectangular
+    mat=np.reshape(vec,(np.shape(L)[0],np.shape(R)[0]))
     temp=np.tensordot(L,mat,([0],[0]))
-    return np.reshape(np.tensordot(temp,R,([2,1],[0,2])),chi*chi)
+    return np.reshape(np.tensordot(temp,R,([2,1],[0,2])),np.shape(L)[1]*np.shape(R)[1])
 
 
 def contractionE(Lexp,mps,Rexp):
-- 
2.43.0


From 3cd7e07f9ba34a56d59648aa00d51cabcdf27e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 96/96] fix: matchState always raised a TypeError and permuted
 rows instead of vectors

---
 lib/utils/utilities.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index fbd765e..0edd7fe 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -595,11 +595,10 @@ def matchState(U0,U1):
     #use columns of U0 as reference states:
     Ov=herm(U0).dot(U1)
     #for each vectpr U0[:,n], find the state in U1[:,m] with largest overlap , and bring it to position n
-    indy=np.argmax(Ov,1)
-    inds=tuple(np.arange(D),indy)
-    Uout=np.zeros(U1.shape).astype(U1.dtype)
+    indy=np.argmax(np.abs(Ov),1)
+    Uout=np.zeros((U1.shape[0],len(indy))).astype(U1.dtype)
     for n in range(len(indy)):
-        Uout[n,:]=U1[indy[n],:]
+        Uout[:,n]=U1[:,indy[n]]
     return Uout
         
     
-- 
2.43.0

