From 449df9bb7c67db9693e56f2be7404aad35832014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 01/44] fix: MPS.load restores the maximal bond dimension
 instead of the chain length

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4b0a70b..6889658 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1292,7 +1292,7 @@ class MPS:
         with open(filename+'.pickle', 'rb') as f:
             mps=pickle.load(f)
         self._N=mps._N
-        self._D=mps._N
+        self._D=mps._D
         self._obc=mps._obc
         self._dtype=mps._dtype
         self._schmidt_thresh=mps._schmidt_thresh
-- 
2.43.0


From 15030abc9dc99dac2e07029c5cdf6b4760db4839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 02/44] fix: the LinAlgError fallback of svd returns thin
 factors like the regular path

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b2d61db..fe609e4 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -135,7 +135,7 @@ def svd(mat,full_matrices=False,r_thresh=1E-14):
     except np.linalg.linalg.LinAlgError:
         [q,r]=np.linalg.qr(mat)
         r[np.abs(r)<r_thresh]=0.0
-        u_,s,v=np.linalg.svd(r)
+        u_,s,v=np.linalg.svd(r,full_matrices=False)
         u=q.dot(u_)
         print('svd caught a LinAlgError')
     return u,s,v
-- 
2.43.0


From 64f4d0011415116b361a45926fbc39e1490b7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 03/44] fix: overlap includes the phases held in the boundary
 bond matrices

---
 lib/mpslib/mpsfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index fe609e4..980caf2 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -70,10 +70,13 @@ def overlap(mps1,mps2):
     for n in range(1,len(mps1)):
         L=addELayer(L,mps1[n],mps2[n],direction=1)
         
+    result=np.trace(L[:,:,0])
     if isinstance(mps1,MPSL.MPS) and isinstance(mps2,MPSL.MPS):        
+        #the (1,1) bond matrices at the boundary carry the phases of the two states
+        result=result*mps1._mat[0,0]*np.conj(mps2._mat[0,0])*mps1._Z*np.conj(mps2._Z)
         mps1.__position__(pos1)
         mps2.__position__(pos2)    
-    return np.trace(L[:,:,0])*mps1._Z*np.conj(mps2._Z)
+    return result
 
 def check_normalization(tensor,which,thresh=1E-10):
     """
-- 
2.43.0


From adaa3008cd2acea3bd23b14dd613a7fbba9723dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 04/44] fix: MPS.copy carries over the boundary condition

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 6889658..499fe0e 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -325,7 +325,7 @@ class MPS:
         cop._position=self._position
         cop._gamma=copy.deepcopy(self._gamma)
         cop._lambda=copy.deepcopy(self._lambda)
-        cop._obc-self._obc
+        cop._obc=self._obc
         cop._dtype=self._dtype
         cop._schmidt_thresh=self._schmidt_thresh
         cop._r_thresh=self._r_thresh
-- 
2.43.0


From 70ebb9a4d9da5fa2596f4b2b45e4bb45d0028371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 05/44] fix: in-place addition of MPS resets the center bond
 along with the tensors

---
 lib/mpslib/mps.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 499fe0e..7b6977b 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -546,8 +546,14 @@ class MPS:
         adds self with other;
         leaves self unnormalized
         """
-        self._tensors=mf.addMPS(self.tolist(),self._Z,other.tolist(),other._Z)
-        self._Z=1.0 
+        res=self+other
+        self._tensors=res._tensors
+        self._mat=res._mat
+        self._connector=res._connector
+        self._position=res._position
+        self._dtype=res._dtype
+        self._D=res._D
+        self._Z=res._Z
         return self
     
     def __sub__(self,other):
-- 
2.43.0


From a6536fc1f1b657a60481ac6cdd3f0933f887dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 06/44] fix: negating an MPS flips the sign of the state for
 any chain length

---
 lib/mpslib/mps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 7b6977b..d420191 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -458,7 +458,11 @@ class MPS:
         return self.__imag__(*args,**kwargs)
     
 
-    __neg__ = generate_unary_deferer(opr.neg)
+    def __neg__(self):
+        """
+        returns the MPS multiplied with -1
+        """
+        return self*(-1.0)
     __pos__ = generate_unary_deferer(opr.pos)
     __abs__ = generate_unary_deferer(abs)
     __invert__ = generate_unary_deferer(opr.invert)
-- 
2.43.0


From cfaf7f4c02a969f08522a39e62e5907a89303ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 07/44] fix: MPS.conj and MPS.conjugate conjugate the whole
 state instead of raising

---
 lib/mpslib/mps.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index d420191..343237b 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -352,7 +352,7 @@ class MPS:
                    the operation to be applied to the mps tensors
         *args,**kwargs: arguments of operation
         """
-        for n in range(len(res)):
+        for n in range(len(self)):
             self[n]=operation(self[n],*args,**kwargs)
 
 
@@ -377,13 +377,16 @@ class MPS:
         in-place complex conjugation of the MPS
         """
         self.__in_place_unary_operations__(np.conj,*args,**kwargs)
+        self._mat=np.conj(self._mat)
+        self._connector=np.conj(self._connector)
+        self._Z=np.conj(self._Z)
     
     def __conjugate__(self,*args,**kwargs):
         """
         returns the complex conjugated MPS
         """
-        res=self.__unary_operations__(np.conj,*args,**kwargs)
-        res._qflow=utils.flipsigns(res._qflow)                
+        res=self.__copy__()
+        res.__conj__(*args,**kwargs)
         return res
 
 
@@ -391,7 +394,7 @@ class MPS:
         """
         returns the complex conjugated MPS
         """
-        return self.__conjugate__(self,*args,**kwargs)
+        return self.__conjugate__(*args,**kwargs)
 
     def conj(self,*args,**kwargs):
         """
-- 
2.43.0


From 62fef4c00b7365fde3c5e75da09a55b9ec6831a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 08/44] fix: MPS.fromList works without a center matrix

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 343237b..cd6947b 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -264,7 +264,7 @@ class MPS:
         """
 
         mps=cls(tensors,schmidt_thresh,r_thresh)
-        if all(mat)!=None:
+        if mat is not None:
             mps._mat=np.copy(mat)
         mps.__position__(0)        
         mps.__position__(mps._N)
-- 
2.43.0


From eec2ece8a47ac9f7f86c81bd6ece6e6448cbd3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 09/44] fix: adding MPS with a complex prefactor keeps the
 imaginary part

---
 lib/mpslib/mps.py          | 1 +
 lib/mpslib/mpsfunctions.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index cd6947b..e98ba86 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -492,6 +492,7 @@ class MPS:
         if not np.isscalar(num):
             raise TypeError("in MPS.__mul__(self,num): num is not a number")
         self._Z*=num
+        self._dtype=np.result_type(type(num),self._dtype)
         return self
     
 
diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 980caf2..a0d795f 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -187,6 +187,7 @@ def addMPS(mps1,Z1,mps2,Z2,obc=True):
     for n in range(len(mps1)):
         dtype=np.result_type(dtype,mps1[n].dtype)
         dtype=np.result_type(dtype,mps2[n].dtype)
+    dtype=np.result_type(dtype,type(Z1),type(Z2))
     
     if obc==True:
 
-- 
2.43.0


From 002468e16de7c3a1e697fa3aa7c8fc9636bcbadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 10/44] fix: measureMatrixElementList returns its result

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index e98ba86..75504f7 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -834,7 +834,7 @@ class MPS:
         it back to its original position; this might cause some overhead
         """
         
-        self.__measureMatrixElementList__(mps,ops,lb,rb)
+        return self.__measureMatrixElementList__(mps,ops,lb,rb)
         
     def __measureMatrixElementList__(self,mps,ops,lb=None,rb=None):
 
-- 
2.43.0


From a7671a6afd5839642ff444283053598f28a70a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 11/44] fix: applyTwoSiteGate accepts Dmax=None, its default

---
 lib/mpslib/mps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 75504f7..0f461ef 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1218,6 +1218,8 @@ class MPS:
         U,S,V=mf.svd(np.reshape(newState,(Dl*d1,Dr*d2)))
         tw=0
         Strunc=S[S>thresh]
+        if Dmax==None:
+            Dmax=len(S)
         tw=sum(S[min(len(Strunc),Dmax)::]**2)
         Strunc=S[0:min(len(Strunc),Dmax)]
         Strunc/=np.linalg.norm(Strunc)
-- 
2.43.0


From 70ac072d38a65c66db921b462559c715846b7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 12/44] fix: measureMatrixElementList includes the norms of the
 states

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 0f461ef..f19f449 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -859,7 +859,7 @@ class MPS:
                 v2=np.copy(mps._mat[0][0])
                 self.__position__(pos)
                 mps.__position__(mpspos)                
-                return L*v1*np.conj(v2)
+                return L*v1*np.conj(v2)*self._Z*np.conj(mps._Z)
 
 
     def measureLocal(self,op,site,lb=None,rb=None):
-- 
2.43.0


From 6933dd6487ed8cb2c28b3c72932228285ca4433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 13/44] fix: MPS.applyMPO refers to the MPS it is called on

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index f19f449..4b029be 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1271,10 +1271,10 @@ class MPS:
         """
         applies an mpo to an mps; no truncation is done
         """
-        assert(len(mpo)==len(mps))
+        assert(len(mpo)==len(self))
         self.__position__(0)
         self.__absorbCenterMatrix__(1)
-        for n in range(len(mps)):
+        for n in range(len(self)):
             Ml,Mr,din,dout=mpo[n].shape 
             Dl,Dr,d=self[n].shape
             if n==0:
-- 
2.43.0


From bbbdd0905e8f8e30234739ca6d6bfeebd3a44435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 14/44] fix: truncateMPS and update leave a full-length list of
 left environments

---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 5019a22..7ffa65d 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -113,7 +113,7 @@ class Container:
         """
         self._mps.truncate(schmidt_thresh=truncation_threshold,D=D,nmaxit=100000,tol=tol,ncv=ncv,pinv=pinv,r_thresh=1E-14)
         self._mps.position(0)
-        self._L=[]*len(self._mps)
+        self._L=[None]*len(self._mps)
         self._L.insert(0,self._lb)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
@@ -165,7 +165,7 @@ class Container:
         returns: self
         """
         self._mps.position(0)
-        self._L=[]*len(self._mps)        
+        self._L=[None]*len(self._mps)
         self._L.insert(0,self._lb)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
-- 
2.43.0


From 2b6a7003a523294afac8501be3da4bbe108fdc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:36 +0000
Subject: [PATCH 15/44] fix: DMRG and TDVP runs start from environments that
 match the current gauge of the mps

---
 lib/mpslib/engines.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 7ffa65d..aabb212 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -267,6 +267,8 @@ class DMRGengine(Container):
         converged=False
         energy=100000.0
         self._it=1
+        #the environments are only valid in the gauge they were computed in, and the mps could have been regauged since
+        self.update()
 
         while not converged:
             for n in range(self._mps._N-1):
@@ -324,7 +326,8 @@ class DMRGengine(Container):
         converged=False
         energy=100000.0
         it=1
-        self._mps.__position__(0)        
+        #the environments are only valid in the gauge they were computed in, and the mps could have been regauged since
+        self.update()
         while not converged:
             for n in range(0,self._mps._N-2):
                 self._mps.__position__(n+1)
@@ -1313,7 +1316,8 @@ class TimeEvolutionEngine(Container):
             raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}".format(solver))
         converged=False
         current='None'
-        self._mps.__position__(0)
+        #the environments are only valid in the gauge they were computed in, and the mps could have been regauged since
+        self.initializeTDVP()
         for step in range(numsteps):
             for n in range(self._mps._N):
                 if n==self._mps._N-1:
-- 
2.43.0


From 5b0ec257f38b2b02654ee30e57901a5b9158fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:36 +0000
Subject: [PATCH 16/44] fix: the simulated time advances independently of the
 verbosity

---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index aabb212..1c1194d 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1254,8 +1254,8 @@ class TimeEvolutionEngine(Container):
         for step in range(numsteps):
             #odd step updates:
             self.applyOdd(dt,Dmax,tr_thresh)
+            self._t0+=np.abs(np.imag(dt))
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))
                 stdout.write("\rTEBD engine: t=%4.4f truncated weight=%.16f at D/Dmax=%i/%i, truncation threshold=%1.16f, |dt|=%1.5f"%(self._t0,self._tw,np.max(self.mps.D),Dmax,tr_thresh,np.abs(dt)))
                 stdout.flush()
             if verbose>=2:
@@ -1379,8 +1379,8 @@ class TimeEvolutionEngine(Container):
 
                 self._mps._mat=mat
                 self._mps._position=n
+            self._t0+=np.abs(np.imag(dt))                
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))                
                 stdout.write("\rTDVP engine using %s solver: t=%4.4f, D=%i, |dt|=%1.5f"%(solver,self._t0,np.max(self._mps.D),np.abs(dt)))
                 stdout.flush()
             if verbose>=2:                
-- 
2.43.0


From 6afe49f268d7985fff57610c510ff9354fd2fe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:36 +0000
Subject: [PATCH 17/44] fix: doTEBD with zero steps leaves the state alone

---
 lib/mpslib/engines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 1c1194d..646826f 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1250,6 +1250,8 @@ class TimeEvolutionEngine(Container):
 
         #even half-step:
         current='None'
+        if numsteps<1:
+            return self._tw,self._t0
         self.applyEven(dt/2.0,Dmax,tr_thresh)
         for step in range(numsteps):
             #odd step updates:
-- 
2.43.0


From 16fd77d631f5dd53380e70a168e7f12ce81eb21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 18/44] fix: saving replaces an existing file only once the new
 content is completely on disk

---
 lib/mpslib/engines.py |  8 ++++----
 lib/mpslib/mps.py     |  4 ++--
 lib/utils/fileio.py   | 29 +++++++++++++++++++++++++++++
 3 files changed, 35 insertions(+), 6 deletions(-)
 create mode 100644 lib/utils/fileio.py

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 646826f..15e21ad 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -17,6 +17,7 @@ import lib.mpslib.mpsfunctions as mf
 import lib.mpslib.mps as mpslib
 import lib.Lanczos.LanczosEngine as LZ
 import lib.utils.utilities as utils
+from lib.utils.fileio import atomicwrite
 import lib.ncon as ncon
 from scipy.sparse.linalg import ArpackNoConvergence
 comm=lambda x,y:np.dot(x,y)-np.dot(y,x)
@@ -41,8 +42,7 @@ class Container:
                   the filename of the file
         """
 
-        with open(filename+'.pickle', 'wb') as f:
-            pickle.dump(self,f)
+        atomicwrite(filename+'.pickle',lambda f: pickle.dump(self,f))
             
     def load(self,filename):
         """
@@ -821,7 +821,7 @@ class HomogeneousIMPSengine(Container):
             if self._it>=self._Nmax:
                 break
             if self._it%checkpoint==0:
-                np.save('CPTensor'+self._filename,self._mps)
+                atomicwrite('CPTensor'+self._filename+'.npy',lambda f: np.save(f,self._mps))
             self._it+=1
             stdout.write("\rit %i: local E=%.16f, lnorm=%.6f, rnorm=%.6f, grad=%.16f, alpha=%.4f, D=%i" %(self._it,np.real(Elocleft),leftn,rightn,self._normgrad,self._alpha_,self._D))
             stdout.flush()
@@ -1051,7 +1051,7 @@ class VUMPSengine(Container):
             if self._it>=Nmax:
                 break
             if (checkpoint>0) and (self._it%checkpoint==0):
-                np.save('CP_mps'+self._filename,self._mps)
+                atomicwrite('CP_mps'+self._filename+'.npy',lambda f: np.save(f,self._mps))
             self._it+=1
             if self._arnumvecs==1:
                 stdout.write("\rusing %s solver: it %i: local E=%.16f, D=%i, gradient norm=%.16f" %(self._solver,self._it,np.real(Edens),self._D,self._gradnorm))
diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4b029be..01dcc8c 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -20,6 +20,7 @@ except KeyError:
 
 from scipy.sparse.linalg import ArpackNoConvergence
 import lib.ncon as ncon
+from lib.utils.fileio import atomicwrite
 import warnings
 comm=lambda x,y:np.dot(x,y)-np.dot(y,x)
 anticomm=lambda x,y:np.dot(x,y)+np.dot(y,x)
@@ -1295,8 +1296,7 @@ class MPS:
         
         
         """
-        with open(filename+'.pickle', 'wb') as f:
-            pickle.dump(self,f)
+        atomicwrite(filename+'.pickle',lambda f: pickle.dump(self,f))
 
     def load(self,filename):
         """
diff --git a/lib/utils/fileio.py b/lib/utils/fileio.py
new file mode 100644
index 0000000..aa9f06d
--- /dev/null
+++ b/lib/utils/fileio.py
@@ -0,0 +1,29 @@
+"""
+@author: Martin Ganahl
+"""
+from __future__ import absolute_import, division, print_function
+import os
+
+def atomicwrite(filename,write):
+    """
+    atomicwrite(filename,write):
+    writes a file such that an already existing file "filename" is only replaced once the new content is 
+    completely on disk; if anything goes wrong before that, the existing file is left untouched
+    Parameters:
+    --------------------------------------------
+    filename: str
+              the name of the file 
+    write:    callable
+              write(f) writes the content of the file to the file-object f
+    """
+    temp=filename+'.tmp'
+    try:
+        with open(temp,'wb') as f:
+            write(f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temp,filename)
+    except Exception:
+        if os.path.exists(temp):
+            os.remove(temp)
+        raise
-- 
2.43.0


From 5e732026b951e9dd4450b059d5443e5a1e19368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 19/44] fix: time evolution removes the previous checkpoint
 only after the new one is complete

---
 lib/mpslib/engines.py | 44 +++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 15e21ad..896fab5 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1220,6 +1220,25 @@ class TimeEvolutionEngine(Container):
             self._maxD=max(self._maxD,D)                
             self._tw+=tw_
 
+    def __checkpoint__(self,name,previous,keep_cp):
+        """
+        saves the simulation under "name"; if keep_cp=False, the previous checkpoint 
+        is removed, but not before the new one is complete
+        Parameters:
+        -------------------------------
+        name:     str
+                  name of the checkpoint
+        previous: str or None
+                  name of the previous checkpoint
+        keep_cp:  bool
+                  if True, the previous checkpoint is kept
+        returns: str: the name of the checkpoint
+        """
+        self.save(name)
+        if (not keep_cp) and (previous!=None) and (previous!=name) and os.path.exists(previous+'.pickle'):
+            os.remove(previous+'.pickle')
+        return name
+
     def doTEBD(self,*args,**kwargs):
         """
         see __doTEBD__
@@ -1249,7 +1268,7 @@ class TimeEvolutionEngine(Container):
         """
 
         #even half-step:
-        current='None'
+        current=None
         if numsteps<1:
             return self._tw,self._t0
         self.applyEven(dt/2.0,Dmax,tr_thresh)
@@ -1267,20 +1286,12 @@ class TimeEvolutionEngine(Container):
                 #if the cp step does not coincide with the last step, do a half step, save, and do another half step
                 if step<(numsteps-1):                
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-                    if not keep_cp:
-                        if os.path.exists(current+'.pickle'):
-                            os.remove(current+'.pickle')
-                        current=self._filename+'_tebd_cp'+str(self._it)
-                        self.save(current)
-                    else:
-                        current=self._filename+'_tebd_cp'+str(self._it)
-                        self.save(current)
+                    current=self.__checkpoint__(self._filename+'_tebd_cp'+str(self._it),current,keep_cp)
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
                 #if the cp step coincides with the last step, only do a half step and save the state
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-                    newname=self._filename+'_tebd_cp'+str(self._it)
-                    self.save(newname)                    
+                    current=self.__checkpoint__(self._filename+'_tebd_cp'+str(self._it),current,keep_cp)
             #if step is not a cp step:
             else:
                 #do a regular full step, unless step is the last step
@@ -1317,7 +1328,7 @@ class TimeEvolutionEngine(Container):
         if solver not in ['LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23']:
             raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}".format(solver))
         converged=False
-        current='None'
+        current=None
         #the environments are only valid in the gauge they were computed in, and the mps could have been regauged since
         self.initializeTDVP()
         for step in range(numsteps):
@@ -1388,14 +1399,7 @@ class TimeEvolutionEngine(Container):
             if verbose>=2:                
                 print('')
             if (cp!=None) and (self._it>0) and (self._it%cp==0):
-                if not keep_cp:
-                    if os.path.exists(current+'.pickle'):
-                        os.remove(current+'.pickle')
-                    current=self._filename+'_tdvp_cp'+str(self._it)
-                    self.save(current)
-                else:
-                    current=self._filename+'_tdvp_cp'+str(self._it)
-                    self.save(current)
+                current=self.__checkpoint__(self._filename+'_tdvp_cp'+str(self._it),current,keep_cp)
 
             self._it=self._it+1
         self._mps.position(0)
-- 
2.43.0


From 81b682c62845748d911ac2f7e69196062fa363fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:47 +0000
Subject: [PATCH 20/44] fix: a checkpointed time evolution has the completed
 step counted

---
 lib/mpslib/engines.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 896fab5..862d27d 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1281,17 +1281,20 @@ class TimeEvolutionEngine(Container):
                 stdout.flush()
             if verbose>=2:
                 print('')
-            #if this is a cp step, save between two half-steps
-            if (cp!=None) and (self._it>0) and (self._it%cp==0):
+            #if this is a cp step, save between two half-steps; the saved simulation has this step counted
+            cpname=self._filename+'_tebd_cp'+str(self._it)
+            cpstep=(cp!=None) and (self._it>0) and (self._it%cp==0)
+            self._it=self._it+1
+            if cpstep:
                 #if the cp step does not coincide with the last step, do a half step, save, and do another half step
                 if step<(numsteps-1):                
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-                    current=self.__checkpoint__(self._filename+'_tebd_cp'+str(self._it),current,keep_cp)
+                    current=self.__checkpoint__(cpname,current,keep_cp)
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
                 #if the cp step coincides with the last step, only do a half step and save the state
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-                    current=self.__checkpoint__(self._filename+'_tebd_cp'+str(self._it),current,keep_cp)
+                    current=self.__checkpoint__(cpname,current,keep_cp)
             #if step is not a cp step:
             else:
                 #do a regular full step, unless step is the last step
@@ -1300,7 +1303,6 @@ class TimeEvolutionEngine(Container):
                 #if step is the last step, do a half step
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-            self._it=self._it+1
             self._mps.resetZ()
         return self._tw,self._t0
 
@@ -1398,10 +1400,12 @@ class TimeEvolutionEngine(Container):
                 stdout.flush()
             if verbose>=2:                
                 print('')
-            if (cp!=None) and (self._it>0) and (self._it%cp==0):
-                current=self.__checkpoint__(self._filename+'_tdvp_cp'+str(self._it),current,keep_cp)
-
+            #the saved simulation has this step counted
+            cpname=self._filename+'_tdvp_cp'+str(self._it)
+            cpstep=(cp!=None) and (self._it>0) and (self._it%cp==0)
             self._it=self._it+1
+            if cpstep:
+                current=self.__checkpoint__(cpname,current,keep_cp)
         self._mps.position(0)
         self._mps.resetZ()        
         return self._t0
-- 
2.43.0


From 56c36b8da4554da3e13beff1568c09410c6fe5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:47 +0000
Subject: [PATCH 21/44] fix: TimeEvolutionEngine.TEBD returns a simulation
 instead of modifying the class

---
 lib/mpslib/engines.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 862d27d..37c67bc 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1095,11 +1095,7 @@ class TimeEvolutionEngine(Container):
                        if None, obc are assumed
         """
         
-        cls._gates=copy.deepcopy(gatecontainer)
-        cls._mps=copy.deepcopy(mps)
-        cls._mpo=copy.deepcopy(mpo)
-        cls._filename=filename        
-        return cls
+        return cls(mps,gatecontainer,filename)
 
     @classmethod
     def TDVP(cls,mps,mpo,filename,lb=None,rb=None):
-- 
2.43.0


From 8f15e16be9269f9ed8498d58a211e0bac37208fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:47 +0000
Subject: [PATCH 22/44] fix: getBoundaryHams returns the same values for either
 position of the mps

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index a0d795f..7d44fe0 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1851,7 +1851,7 @@ def getBoundaryHams(mps,mpo,regauge=False):
         
         lb=np.copy(f0l)
         rb=np.copy(f0r)
-        return lb,rb,lbound,rbound
+        return lb,rb,lbound,rbound,hl,hr
 
     if mps.pos==len(mps):
         D=np.shape(mps[-1])[1]
-- 
2.43.0


From 0232d3b9246e419000684fecb0fe96924c6296ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:47 +0000
Subject: [PATCH 23/44] fix: IDMRG does not shift the unit-cell of the caller's
 mpo

---
 lib/mpslib/engines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 37c67bc..8abdd51 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -437,7 +437,8 @@ class IDMRGengine(DMRGengine):
         """
         
         lb,rb,lbound,rbound,self._hl,self._hr=mf.getBoundaryHams(mps,mpo)                            
-        super().__init__(mps,mpo,filename,lb,rb)
+        #the unit-cell of the mpo is shifted in place during the simulation
+        super().__init__(mps,copy.deepcopy(mpo),filename,lb,rb)
     #shifts the unit-cell by N/2 by updating self._L, self._R, self._lb, self._rb, and cutting and patching self._mps and self._mpo
 
     def __update__(self,regauge=False):
-- 
2.43.0


From e1f1e20774d3fc3551d3ea29e5cb41f1662f6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 24/44] fix: canonizing a finite MPS takes the center matrix
 into account

---
 lib/mpslib/mpsfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 7d44fe0..4889c25 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2273,7 +2273,8 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
         assert(mps[len(mps)-1].shape[1]==1)
         #make a copy of the state
         if isinstance(mps,MPSL.MPS):
-            Gamma=copy.deepcopy(mps._tensors)
+            #the center matrix is part of the state
+            Gamma=mps.tolist()
         elif isinstance(mps,list):
             Gamma=copy.deepcopy(mps)
         else:
-- 
2.43.0


From 61b7f8dc37d0569005481211b5e7281f4613d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 25/44] fix: MPS.measure takes the local dimension from the
 measured site

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 01dcc8c..a502d8d 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -948,7 +948,7 @@ class MPS:
         while s<len(sites):
             if s<len(sites):
                 n=s
-                op=np.eye(self[s].shape[2])
+                op=np.eye(self[sites[s]].shape[2])
                 while n<len(sites) and sites[n]==sites[s]:
                     op=op.dot(ops[n])
                     par=(par+1)%2
-- 
2.43.0


From 1d420fc55f72bdb1df94f1641fd3bc833d38afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 26/44] fix: product states from unnormalized local states are
 orthonormalized

---
 lib/mpslib/mps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index a502d8d..acb30aa 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -305,6 +305,9 @@ class MPS:
         mps=cls(tensors,schmidt_thresh,r_thresh)
         mps._obc=obc
         mps._Z=1.0
+        #orthonormalize the tensors; the norm of the local states goes into _Z
+        mps.__position__(0)
+        mps.__position__(mps._N)
         return mps
     
     def copy(self):
-- 
2.43.0


From d73300ee611304a59ca1e2ae0337279325992b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 27/44] fix: MPS.measure works with a rectangular center matrix

---
 lib/mpslib/mps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index acb30aa..dabd9a4 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -975,8 +975,9 @@ class MPS:
 
         assert(self._position==sites[-1]+1)
 
-        R=np.zeros((self[sites[s-1]].shape[1],self[sites[s-1]].shape[1],1))
-        R[:,:,0]=np.eye(self[sites[s-1]].shape[1])
+        #the center matrix need not be square
+        R=np.zeros((self._mat.shape[1],self._mat.shape[1],1))
+        R[:,:,0]=np.eye(self._mat.shape[1])
         Z=np.trace(self._mat.dot(herm(self._mat)))
         if not((np.abs(np.trace(self._mat.dot(herm(self._mat))))-1.0)<1E-10):
             warnings.warn('mps.py.measure(self,ops,sites): state is not normalized')
-- 
2.43.0


From e70c68d5f42e0f0ee26ee27eda2fb40db85a60e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 28/44] fix: MPS.conj does not pass the state to numpy as an
 output argument

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index dabd9a4..d54dc39 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -404,7 +404,7 @@ class MPS:
         """
         in-place complex conjugation of the MPS
         """        
-        return self.__conj__(self,*args,**kwargs)
+        return self.__conj__(*args,**kwargs)
 
     def __exp__(self,*args,**kwargs):
         """
-- 
2.43.0


From 1f6cdf57b2269a9509abef47ca78f3d7d5fb48aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 29/44] fix: adding a complex to a real MPS keeps the imaginary
 part

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 4889c25..261d840 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -166,7 +166,7 @@ def directsum(m1,m2):
     returns: the direct sum of two matrices
     """
 
-    dtype=type(m1[0,0])
+    dtype=np.result_type(m1.dtype,m2.dtype)
     out=np.zeros((list(map(sum,zip(m1.shape,m2.shape)))),dtype=dtype)
     out[0:m1.shape[0],0:m1.shape[1]]=m1
     out[m1.shape[0]:m1.shape[0]+m2.shape[0],m1.shape[1]:m1.shape[1]+m2.shape[1]]=m2
-- 
2.43.0


From cac5e989be976fdece99031397678b35d78cc78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:03 +0000
Subject: [PATCH 30/44] fix: MPO.twoSiteGate works for a chain of two sites and
 for either order of the sites

---
 lib/mpslib/Hamiltonians.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index decd5a4..4708862 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -47,7 +47,7 @@ class MPO:
       mpo1 = self._mpo[n][-1, :, :, :]
       mpo2 = self._mpo[m][:, 0, :, :]
       nl = n
-      mr = m
+      nr = m
     if n > m:
       mpo1 = self._mpo[m][-1, :, :, :]
       mpo2 = self._mpo[n][:, 0, :, :]
@@ -71,6 +71,10 @@ class MPO:
       for s in range(1, mpo1.shape[0] - 1):
         h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
       h += np.kron(mpo1[-1, :, :], mpo2[-1, :, :] / 2.0)
+    else:
+      h = np.kron(mpo1[0, :, :], mpo2[0, :, :])
+      for s in range(1, mpo1.shape[0]):
+        h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
     Gate = np.reshape(sp.linalg.expm(tau * h), (d1, d2, d1, d2))
     #Gate=np.reshape(np.eye(4),(d1,d2,d1,d2))
 
-- 
2.43.0


From 12dbe9dd0de2e2d90086a10bf26ddd6cc430b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 31/44] fix: TDVP evolves by exp(dt*H) with every integrator,
 also in imaginary time and from real states

---
 lib/mpslib/engines.py      |  8 ++++----
 lib/mpslib/mpsfunctions.py | 17 ++++++++++-------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 8abdd51..413e092 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1339,7 +1339,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 #evolve tensor forward
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':
                     evTen=mf.evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim) #clear=True resets self._mat to identity
                 elif solver=='SEXPMV':                    
@@ -1352,7 +1352,7 @@ class TimeEvolutionEngine(Container):
                 #evolve matrix backward                    
                 if n<(self._mps._N-1):
                     if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                     elif solver=='LAN':                        
                         evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],mat,-dt_,krylov_dimension=krylov_dim)
                     elif solver=='SEXPMV':                                            
@@ -1368,7 +1368,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 self._R[self._mps._N-n-1]=mf.addLayer(self._R[self._mps._N-n-2],self._mps[n+1],self._mpo[n+1],self._mps[n+1],-1)
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                    
-                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
+                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
                 elif solver=='LAN':                
                     evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                    
@@ -1379,7 +1379,7 @@ class TimeEvolutionEngine(Container):
             
                 #evolve tensor forward: the back-evolved center matrix is absorbed into the left-side tensor, and the product is evolved forward in time
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                                    
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':                                
                     evTen=mf. evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                                        
diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 261d840..a6e9878 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1345,28 +1345,31 @@ def evolveMatrixLan(L,R,mat,tau,krylov_dimension=20,delta=1E-8):
 
 
 def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                        
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
+    """
+    evolves mps by exp(tau*Heff), i.e. tau=-1j*dt is an evolution by real time dt
+    """
+    dtype=np.result_type(L,mpo,R,mps,tau)
     [chi1,chi2,d]=np.shape(mps)
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)),method=method,rtol=rtol,atol=atol)    
+    out=solve_ivp(lambda t,y:tau*mv(y),t_span=(0.0,1.0),y0=np.reshape(mps,(chi1*chi2*d)).astype(dtype),method=method,rtol=rtol,atol=atol)    
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
     #return np.reshape(solver.dense_output()(tau),mps.shape)
     return np.reshape(out.y[:,-1],mps.shape)
 
 
 def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
-    
+    """
+    evolves mat by exp(tau*Heff), i.e. tau=-1j*dt is an evolution by real time dt
+    """
+    dtype=np.result_type(L,R,mat,tau)
     [chi1,chi2]=np.shape(mat)
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     mv=fct.partial(HAproductBond,*[L,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)),method=method,rtol=rtol,atol=atol)
+    out=solve_ivp(lambda t,y:tau*mv(y),t_span=(0.0,1.0),y0=np.reshape(mat,(chi1*chi2)).astype(dtype),method=method,rtol=rtol,atol=atol)
     return np.reshape(out.y[:,-1],mat.shape)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
     #solver.step()
-- 
2.43.0


From b6f0cd24dfd53ccdaab8674fe45f1e909a49a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 32/44] fix: MPS.measure keeps the imaginary part of operators
 on a real state

---
 lib/mpslib/mps.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index d54dc39..63a02b6 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -958,11 +958,9 @@ class MPS:
                     n+=1
 
             assert(sites[s]==sites[n-1])
-            mpo=np.zeros((1,1,op.shape[0],op.shape[1])).astype(self._dtype)
-            if P==None or par==0:
-                mpo[0,0,:,:]=op
-            elif P!=None and par==1:
-                mpo[0,0,:,:]=op.dot(P[sites[s]])                
+            if P!=None and par==1:
+                op=op.dot(P[sites[s]])
+            mpo=np.reshape(op,(1,1,op.shape[0],op.shape[1]))
 
             L=mf.addLayer(L,self[sites[s]],mpo,self[sites[s]],1)
             if n<len(sites):
-- 
2.43.0


From ed5749a70704fe47b9cce4652d55e41e52baf3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 33/44] fix: MPS.dtype reflects tensors that became complex

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 63a02b6..c7ec567 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -130,7 +130,7 @@ class MPS:
         """
         the dtype of the mps tensors
         """
-        return self._dtype
+        return np.result_type(self._dtype,self._mat,*self._tensors)
     @property
     def obc(self):
         return self._obc
-- 
2.43.0


From 6b930aa33c5d2aaa95ae8c887eabe94394b7033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 34/44] fix: Lanczos time evolution and ground states keep the
 imaginary part of complex states and Hamiltonians

---
 lib/Lanczos/LanczosEngine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 93447fd..f6eb0f9 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -104,7 +104,7 @@ class LanczosEngine:
         eta,u=np.linalg.eigh(self._Heff)
         states=[]
         for n2 in range(min(self._numeig,len(eta))):
-            state=np.zeros(initialstate.shape,dtype=initialstate.dtype)
+            state=np.zeros(initialstate.shape,dtype=np.result_type(u,*self._vecs))
             for n1 in range(len(self._vecs)):
                 state+=self._vecs[n1]*u[n1,n2]
             states.append(state/np.sqrt(self._dot(state.conjugate(),state)))
@@ -133,11 +133,10 @@ class LanczosTimeEvolution(LanczosEngine):
         dt: time increment
         verbose: verbosity flag
         """
-        self._dtype=type(dt)        
-        self.__simulate__(state.astype(self._dtype),verbose=True,reortho=True)
+        self.__simulate__(state.astype(np.result_type(type(dt),state)),verbose=True,reortho=True)
         #take the expm of self._Heff
         U=sp.linalg.expm(dt*self._Heff)
-        result=np.zeros(state.shape,dtype=self._dtype)
+        result=np.zeros(state.shape,dtype=np.result_type(U,*self._vecs))
         for n in range(min(self._ncv,self._Heff.shape[0])):
             result+=self._vecs[n]*U[n,0]
         return result
-- 
2.43.0


From 93aa3977f85e500235b535c381046a9f07c9ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 35/44] fix: SEXPMV evolution of small tensors and bonds of
 dimension one

---
 lib/mpslib/sexpmv.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/sexpmv.py b/lib/mpslib/sexpmv.py
index 5ccabf5..2c8d123 100644
--- a/lib/mpslib/sexpmv.py
+++ b/lib/mpslib/sexpmv.py
@@ -9,6 +9,7 @@ and http://www.maths.uq.edu.au/expokit
 @author: Ashley Milsted
 """
 from __future__ import absolute_import, division, print_function
+import numpy as np
 import scipy as sp
 import scipy.linalg as la
 from math import sqrt, log10, copysign, trunc
@@ -29,12 +30,23 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
       else:
             matvec = lambda v: sp.dot(A,v)
 
-      if m is None:
-            m = min(20, n-1)
-      
       if len(A.shape) != 2 or A.shape[0] != A.shape[1]:
             raise ValueError("A is not a square matrix")
       
+      if m is None and n <= 21:
+            #the Krylov space would be the full space, where the error estimate below is meaningless: 
+            #exponentiate the matrix
+            mat = np.array([matvec(e) for e in np.eye(n, dtype=A.dtype)]).T
+            res = la.expm(t*mat).dot(v)
+            if w is None:
+                  w = res
+            else:
+                  w[:] = res
+            return w, True, 1, False, n
+
+      if m is None:
+            m = min(20, n-1)
+      
       if m >= n or m <= 0:
             raise ValueError("m is invalid")
 
-- 
2.43.0


From 7e9df2e4268914e523ff34f8f76560aae6f3b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:57 +0000
Subject: [PATCH 36/44] fix: one-site DMRG leaves a normalized state in the
 gauge of its center position

---
 lib/mpslib/engines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 413e092..7bc316d 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -274,11 +274,12 @@ class DMRGengine(Container):
             for n in range(self._mps._N-1):
                 self.position(n)
                 e,opt=self.optimize(n,tol,ncv,numvecs,solver,Ndiag,nmaxlan,landelta,landeltaEta,verbose)
-                self.mps[n]=opt
+                #bring the optimized tensor into the gauge that belongs to the center position
+                self.mps[n],self.mps._mat,Z=mf.prepareTensor(opt,-1)
             for n in range(self._mps._N-1,0,-1):
                 self.position(n+1)                
                 e,opt=self.optimize(n,tol,ncv,numvecs,solver,Ndiag,nmaxlan,landelta,landeltaEta,verbose)                
-                self.mps[n]=opt
+                self.mps[n],self.mps._mat,Z=mf.prepareTensor(opt,1)
                     
             if np.abs(e-energy)<Econv:
                 converged=True
-- 
2.43.0


From f37bbf39f760728facbecbf92182ccee2395fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:31 +0000
Subject: [PATCH 37/44] fix: DMRG with the AR solver handles tensors with two
 elements

---
 lib/mpslib/mpsfunctions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index a6e9878..9f36165 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1220,7 +1220,11 @@ def eigsh(L,mpo,R,mps0,tolerance=1e-6,numvecs=1,numcv=10,numvecs_returned=1):
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
     LOP=LinearOperator((chi1*chi2*d,chi1*chi2*d),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
-    e,v=sp.sparse.linalg.eigsh(LOP,k=numvecs,which='SA',maxiter=1000000,tol=tolerance,v0=np.reshape(mps0,chi1*chi2*d),ncv=numcv)
+    if chi1*chi2*d<=numvecs+1:
+        #too small for the sparse solver
+        e,v=np.linalg.eigh(np.array([mv(x) for x in np.eye(chi1*chi2*d)]).T)
+    else:
+        e,v=sp.sparse.linalg.eigsh(LOP,k=numvecs,which='SA',maxiter=1000000,tol=tolerance,v0=np.reshape(mps0,chi1*chi2*d),ncv=numcv)
     #return [e,np.reshape(v,(chi1p,chi2p,dp))]    
     if numvecs_returned==1:
         ind=np.nonzero(e==min(e))
-- 
2.43.0


From b94e53689af216af95903615c147fe1e224f207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 38/44] fix: matrix elements of complex operators between real
 states keep the imaginary part

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 9f36165..b6d10a6 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -493,7 +493,7 @@ def matrixElementLocal(mps1,mps2,operators,lb,rb):
     rb: right boundary of the mps (for obc, rb=np.ones((1,1,1))
     ortho (str): can be {'left','right'} and denotes the orthogonal state of the mps
     """
-    dtype=np.result_type(mps1[0].dtype,mps2[0].dtype)
+    dtype=np.result_type(*([t.dtype for t in mps1]+[t.dtype for t in mps2]+[o.dtype for o in operators]+[lb,rb]))
     N=len(mps1)
     if len(mps1)!=len(mps2):
         raise ValueError("matrixElementLocal: mps1 and mps2 have different lengths")
-- 
2.43.0


From bb40ab594b1801d9fadfd693db5fd89353ae60f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:38 +0000
Subject: [PATCH 39/44] fix: infinite environments count the on-site term at
 the unit-cell boundary once

---
 lib/mpslib/mpsfunctions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b6d10a6..bfc82e6 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1928,6 +1928,8 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction>0:
         mpo=np.zeros((1,B2,d1,d2),dtype=dtype)
         mpo[0,:,:,:]=mpopbc[NUC-1][-1,:,:,:]
+        #the on-site term of the last site belongs to the previous unit-cell
+        mpo[0,0,:,:]=0.0
         L=initializeLayer(mps[NUC-1],np.eye(D1r),mps[NUC-1],mpo,1)
 
         for n in range(0,len(mps)):
@@ -1942,6 +1944,8 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction<0:
         mpo=np.zeros((B1,1,d1,d2),dtype=dtype)
         mpo[:,0,:,:]=mpopbc[0][:,0,:,:]
+        #the on-site term of the first site belongs to the next unit-cell
+        mpo[-1,0,:,:]=0.0
         R=initializeLayer(mps[0],np.eye(D2l),mps[0],mpo,-1)
         for n in range(len(mps)-1,-1,-1):
             R=addLayer(R,mps[n],mpopbc[n],mps[n],-1)    
-- 
2.43.0


From 061b827e2073d484bcde35e390fbcbe480d9a0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:50 +0000
Subject: [PATCH 40/44] fix: canonizing an infinite MPS keeps the phases
 between unit cells

---
 lib/mpslib/mpsfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index bfc82e6..e33e961 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2345,6 +2345,9 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
             Lam[n]=S
             if n>0:
                 Gamma[n-1]=np.transpose(np.tensordot(Gamma[n-1],U.dot(np.diag(S)),([1],[0])),(0,2,1))
+            else:
+                #U commutes with the Schmidt-values; its phases connect Gamma[0] to the previous unit-cell
+                Gamma[0]=np.tensordot(U,Gamma[0],([1],[0]))
         return Gamma,Lam
 
     else:
-- 
2.43.0


From 51beb34e8b2e4975a3f63a1283aad027af974f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:03 +0000
Subject: [PATCH 41/44] fix: an MPO built from a list of tensors or another MPO
 has a dtype

---
 lib/mpslib/Hamiltonians.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 4708862..dbb4a8b 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -21,11 +21,12 @@ class MPO:
     #a list of mpo-tensors, to be initialized in the derived class
     self._mpo = copy.deepcopy(mpos)
     self._N = len(self._mpo)
+    self._dtype = np.result_type(*self._mpo) if self._N > 0 else np.dtype(float)
 
   @classmethod
   def fromMPO(cls, other):
     #a list of mpo-tensors, to be initialized in the derived class
-    return cls(other._mpolist)
+    return cls(other._mpo)
 
   @classmethod
   def fromlist(cls, mpolist):
-- 
2.43.0


From a975b9a5f972d461d5e6eaea482c6d91a4bc4166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 42/44] fix: IDMRG runs the requested number of outer
 iterations

The loop of both IDMRG routines checked it>Nmax after incrementing the
counter from zero, and so performed Nmax+1 outer iterations.
---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 7bc316d..c659a20 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -554,7 +554,7 @@ class IDMRGengine(DMRGengine):
                 self._mps.save(self._filename+'_dmrg_cp')                
             eold=e
             it=it+1
-            if it>Nmax:
+            if it>=Nmax:
                 converged=True
                 break
         self._mps.resetZ()            
@@ -628,7 +628,7 @@ class IDMRGengine(DMRGengine):
                 self._mps.save(self._filename+'_dmrg_cp')                                
             eold=e
             it=it+1
-            if it>Nmax:
+            if it>=Nmax:
                 converged=True
                 break
         it=it+1
-- 
2.43.0


From 81521c65cacd1aea2d9bf8b7b040d0a1ca77d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:52 +0000
Subject: [PATCH 43/44] fix: unit-cell environments repeat the linear solve
 after a breakdown of lgmres

TDVPGMRESUC handed the meaningless vector of a broken-down lgmres call on to
its callers, which ignore info; RENORMBLOCKHAMGMRES repeats the call.
---
 lib/mpslib/mpsfunctions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index e33e961..3391753 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1975,13 +1975,19 @@ def TDVPGMRESUC(mps,ldens,rdens,inhom,x0,tolerance=1e-10,maxiteration=2000,datat
         [D1r,D2r,d]=np.shape(mps[-1])
         mv=fct.partial(OneMinusPseudoUnitcellTransferOperator,*[direction,mps,ldens,rdens])
         LOP=LinearOperator((D1l*D1l,D2r*D2r),matvec=mv,dtype=datatype)
-        return sp.sparse.linalg.lgmres(LOP,inhom,x0,tol=tolerance,maxiter=maxiteration)
+        [x,info]=sp.sparse.linalg.lgmres(LOP,inhom,x0,tol=tolerance,maxiter=maxiteration)
+        while info<0:
+            [x,info]=sp.sparse.linalg.lgmres(LOP,inhom,x0,tol=tolerance,maxiter=maxiteration)
+        return x,info
     if direction<0:
         [D1l,D2l,d]=np.shape(mps[0])
         [D1r,D2r,d]=np.shape(mps[-1])
         mv=fct.partial(OneMinusPseudoUnitcellTransferOperator,*[direction,mps,ldens,rdens])
         LOP=LinearOperator((D1l*D1l,D2r*D2r),matvec=mv,dtype=datatype)
-        return sp.sparse.linalg.lgmres(LOP,inhom,x0,tol=tolerance,maxiter=maxiteration)
+        [x,info]=sp.sparse.linalg.lgmres(LOP,inhom,x0,tol=tolerance,maxiter=maxiteration)
+        while info<0:
+            [x,info]=sp.sparse.linalg.lgmres(LOP,inhom,x0,tol=tolerance,maxiter=maxiteration)
+        return x,info
 
 
 
-- 
2.43.0


From f23156fcded12837e006de6fc8ac2031336f4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 44/44] fix: Jordan-Wigner strings of an odd number of
 operators reach back to the first site

measuring an odd number of fermionic operators multiplied the string only up to the
site before the one left of the first operator, and failed for strings given as matrices
---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index c7ec567..14e5bbd 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -945,8 +945,8 @@ class MPS:
             #for fermionic modes one has to take into consideration the fermionic minus signs from the start (if len(ops) is odd)
             L=np.zeros((self[0].shape[0],self[0].shape[0],1)).astype(self._dtype)
             L[:,:,0]=np.copy(np.eye(self[0].shape[0]))
-            for n in range(sites[s]-1):
-                L=mf.addLayer(L,self[n],P[n],self[n],1)
+            for n in range(sites[s]):
+                L=mf.addLayer(L,self[n],np.reshape(P[n],(1,1,P[n].shape[0],P[n].shape[1])),self[n],1)
 
         while s<len(sites):
             if s<len(sites):
-- 
2.43.0

