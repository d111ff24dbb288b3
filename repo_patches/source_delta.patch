From d2c18b7b4c7d0493b2acc6cccd2dad311ffaca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 01/45] fix: skip the 3d checkerboard set when Nd < 3

initDefaultSets built rb3 unconditionally, whose colouring function aborts
for fewer than three dimensions: no lattice could be created with Nd=2.
---
 lib/qdp_subset.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/qdp_subset.cc b/lib/qdp_subset.cc
index 68913b7..f5d5506 100644
--- a/lib/qdp_subset.cc
+++ b/lib/qdp_subset.cc
@@ -105,8 +105,9 @@ namespace QDP
     // Initialize the red/black checkerboard
     rb.make(SetRBFunc());
 
-    // Initialize the 3d red/black checkerboard.
-    rb3.make(SetRB3Func());
+    // Initialize the 3d red/black checkerboard. It needs at least 3 dimensions.
+    if (Nd >= 3)
+      rb3.make(SetRB3Func());
 
     // Initialize the 32-style checkerboard
     mcb.make(Set32CBFunc());
-- 
2.43.0


From dbeabb7a0fdac0695b1a03507ba85bb38b37c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 02/45] fix: subsets of a copied or assigned Set refer to the
 copy

The subsets of a copy kept pointing at the site tables of the source set,
so they changed when the source was rebuilt and dangled once it was
destroyed.
---
 include/qdp_subset.h |  3 +++
 lib/qdp_subset.cc    | 17 +++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/qdp_subset.h b/include/qdp_subset.h
index 38aa4e9..e5fc34a 100644
--- a/include/qdp_subset.h
+++ b/include/qdp_subset.h
@@ -101,6 +101,9 @@ public:
   //! Constructor from a function object
   Set(const SetFunc& fn) {make(fn);}
 
+  //! Copy constructor
+  Set(const Set& s);
+
   //! Constructor from a function object
   void make(const SetFunc& fn);
 
diff --git a/lib/qdp_subset.cc b/lib/qdp_subset.cc
index f5d5506..90625ef 100644
--- a/lib/qdp_subset.cc
+++ b/lib/qdp_subset.cc
@@ -157,12 +157,29 @@ namespace QDP
   }
 
   //-----------------------------------------------------------------------------
+  // Copy constructor
+  Set::Set(const Set& s)
+  {
+    *this = s;
+  }
+
   // = operator
   Set& Set::operator=(const Set& s)
   {
+    if (this == &s)
+      return *this;
+
     sub = s.sub;
     lat_color = s.lat_color;
     sitetables = s.sitetables;
+
+    // The subsets of this set must refer to this set, and not to the source
+    for(int cb=0; cb < sub.size(); ++cb)
+    {
+      sub[cb].sitetable = &(sitetables[cb]);
+      sub[cb].set = this;
+    }
+
     return *this;
   }
 
-- 
2.43.0


From 79bb2e23e07722b9da13faf5eeac65cc0270902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 03/45] fix: copymask, random, gaussian and scalar assignment
 on sub-lattices

copymask/random/gaussian(OSubLattice) called a member that does not exist and
could not be instantiated; assigning a single-site value to a sub-lattice that
owns its storage set only the first element.
---
 include/qdp_outer.h              |  5 ++--
 include/qdp_outersubtype.h       |  4 +--
 include/qdp_parscalar_specific.h | 45 ++++++++++++++++++++++++-------
 include/qdp_scalar_specific.h    | 46 +++++++++++++++++++++++++-------
 4 files changed, 76 insertions(+), 24 deletions(-)

diff --git a/include/qdp_outer.h b/include/qdp_outer.h
index 2bae99e..80c5a3a 100644
--- a/include/qdp_outer.h
+++ b/include/qdp_outer.h
@@ -242,8 +242,9 @@ inline
 void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OScalar<T1> >& rhs,
 	      const Subset& s)
 {
-  // Subset is not used at this level. It may be needed, though, within an inner operation
-  op(*dest, forEach(rhs, ElemLeaf(), OpCombine()));
+  // The destination holds one element for each site of the subset
+  for(int j=0; j < s.numSiteTable(); ++j)
+    op(dest[j], forEach(rhs, ElemLeaf(), OpCombine()));
 }
 
 
diff --git a/include/qdp_outersubtype.h b/include/qdp_outersubtype.h
index c3d5e6b..05646eb 100644
--- a/include/qdp_outersubtype.h
+++ b/include/qdp_outersubtype.h
@@ -22,8 +22,8 @@ class OSubScalar: public QDPSubType<T, OScalar<T> >
 
 public:
   //OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), s(ss) {}
-  OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), s(&(const_cast<Subset&>(ss))) {}
-  OSubScalar(const OSubScalar& a): F(a.F), s(a.s) {}
+  OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), ownsMemory(false), s(&(const_cast<Subset&>(ss))) {}
+  OSubScalar(const OSubScalar& a): F(a.F), ownsMemory(a.ownsMemory), s(a.s) {}
   ~OSubScalar() {}
 
   //---------------------------------------------------------
diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index 7e91f24..bce2e0a 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -459,18 +459,19 @@ void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OLattice<T1> >& rhs,
 //-----------------------------------------------------------------------------
 //! dest = (mask) ? s1 : dest
 template<class T1, class T2>
-void copymask(OSubLattice<T2> d, const OLattice<T1>& mask, const OLattice<T2>& s1) 
+void copymask(const OSubLattice<T2>& d, const OLattice<T1>& mask, const OLattice<T2>& s1) 
 {
-	OLattice<T2>& dest = d.field();
+	T2* dest = d.getF();
+	const bool packed = d.getOwnsMemory();
 	const Subset& s = d.subset();
 
 	const int *tab = s.siteTable().slice();
 	const int nodeSites = s.numSiteTable();
 #pragma omp parallel for
-	for(int j=0; j < nodeSites; ++j)
+	for(int j=0; j < nodeSites; ++j) 
 	{
 		int i = tab[j];
-		copymask(dest.elem(i), mask.elem(i), s1.elem(i));
+		copymask(dest[packed ? j : i], mask.elem(i), s1.elem(i));
 	}
 }
 
@@ -549,12 +550,24 @@ random(OLattice<T>& d, const Subset& s)
 
 //! dest	= random	 under a subset
 template<class T>
-void random(OSubLattice<T> dd)
+void random(const OSubLattice<T>& dd)
 {
-	OLattice<T>& d = dd.field();
 	const Subset& s = dd.subset();
 
-	random(d,s);
+	if (dd.getOwnsMemory())
+	{
+		OLattice<T> d;
+		random(d,s);
+
+		const int *tab = s.siteTable().slice();
+		for(int j=0; j < s.numSiteTable(); ++j)
+			dd.getF()[j] = d.elem(tab[j]);
+	}
+	else
+	{
+		OLattice<T> d(dd.getF(),1.0);
+		random(d,s);
+	}
 }
 
 
@@ -590,12 +603,24 @@ void gaussian(OLattice<T>& d, const Subset& s)
 
 //! dest	= gaussian	 under a subset
 template<class T>
-void gaussian(OSubLattice<T> dd)
+void gaussian(const OSubLattice<T>& dd)
 {
-	OLattice<T>& d = dd.field();
 	const Subset& s = dd.subset();
 
-	gaussian(d,s);
+	if (dd.getOwnsMemory())
+	{
+		OLattice<T> d;
+		gaussian(d,s);
+
+		const int *tab = s.siteTable().slice();
+		for(int j=0; j < s.numSiteTable(); ++j)
+			dd.getF()[j] = d.elem(tab[j]);
+	}
+	else
+	{
+		OLattice<T> d(dd.getF(),1.0);
+		gaussian(d,s);
+	}
 }
 
 
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index fe40026..bc1b2ab 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -278,17 +278,19 @@ void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OLattice<T1> >& rhs,
 //! dest = (mask) ? s1 : dest
 template<class T1, class T2> 
 void 
-copymask(OSubLattice<T2> d, const OLattice<T1>& mask, const OLattice<T2>& s1) 
+copymask(const OSubLattice<T2>& d, const OLattice<T1>& mask, const OLattice<T2>& s1) 
 {
-  OLattice<T2>& dest = d.field();
+  T2* dest = d.getF();
+  const bool packed = d.getOwnsMemory();
   const Subset& s = d.subset();
 
   const int *tab = s.siteTable().slice();
+  const int nodeSites = s.numSiteTable();
 #pragma omp parallel for
-  for(int j=0; j < s.numSiteTable(); ++j) 
+  for(int j=0; j < nodeSites; ++j) 
   {
     int i = tab[j];
-    copymask(dest.elem(i), mask.elem(i), s1.elem(i));
+    copymask(dest[packed ? j : i], mask.elem(i), s1.elem(i));
   }
 }
 
@@ -365,12 +367,24 @@ random(OLattice<T>& d, const Subset& s)
 
 //! dest  = random   under a subset
 template<class T>
-void random(OSubLattice<T> dd)
+void random(const OSubLattice<T>& dd)
 {
-  OLattice<T>& d = dd.field();
   const Subset& s = dd.subset();
 
-  random(d,s);
+  if (dd.getOwnsMemory())
+  {
+    OLattice<T> d;
+    random(d,s);
+
+    const int *tab = s.siteTable().slice();
+    for(int j=0; j < s.numSiteTable(); ++j)
+      dd.getF()[j] = d.elem(tab[j]);
+  }
+  else
+  {
+    OLattice<T> d(dd.getF(),1.0);
+    random(d,s);
+  }
 }
 
 
@@ -405,12 +419,24 @@ void gaussian(OLattice<T>& d, const Subset& s)
 
 //! dest  = gaussian   under a subset
 template<class T>
-void gaussian(OSubLattice<T> dd)
+void gaussian(const OSubLattice<T>& dd)
 {
-  OLattice<T>& d = dd.field();
   const Subset& s = dd.subset();
 
-  gaussian(d,s);
+  if (dd.getOwnsMemory())
+  {
+    OLattice<T> d;
+    gaussian(d,s);
+
+    const int *tab = s.siteTable().slice();
+    for(int j=0; j < s.numSiteTable(); ++j)
+      dd.getF()[j] = d.elem(tab[j]);
+  }
+  else
+  {
+    OLattice<T> d(dd.getF(),1.0);
+    gaussian(d,s);
+  }
 }
 
 
-- 
2.43.0


From 685287b1c48e2a3de100720e2a7ed7bfde774bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 04/45] fix: sum of a subset view adds the sites of the subset

---
 include/qdp_globalfuncs_subtype.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qdp_globalfuncs_subtype.h b/include/qdp_globalfuncs_subtype.h
index c9b9fe2..4702e14 100644
--- a/include/qdp_globalfuncs_subtype.h
+++ b/include/qdp_globalfuncs_subtype.h
@@ -154,9 +154,11 @@ sum( const OSubLattice<T>& s1 )
   // Must initialize to zero since we do not know if the loop will be entered
   zero_rep(d.elem());
 
+  const int *tab = s1.subset().siteTable().slice();
+  const bool packed = s1.getOwnsMemory();
   for(int j=0; j < s1.subset().numSiteTable(); ++j) 
     {
-      d.elem() += s1.getF()[j];
+      d.elem() += s1.getF()[packed ? j : tab[j]];
     }
 
   // Do a global sum on the result
-- 
2.43.0


From c1f2b0530c5cd5d3d43daafe9f9db0f1be59c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 05/45] fix: imagTrace of a real object is zero

---
 include/qdp_reality.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index 18da0a1..0d75c3f 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -1187,8 +1187,8 @@ imagTrace(const RScalar<T1>& s1)
 {
 //  return trace_imag(s1.elem());
 
-  /*! NOTE: removed trace here !!!!!  */
-  return s1.elem();
+  typedef typename InternalScalar<T1>::Type_t  S;
+  return S(0);
 }
 
 //! RScalar = trace(RScalar * RScalar)
-- 
2.43.0


From ac4620281fb6e1a69ff10b0b81380c5c5688957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:26 +0000
Subject: [PATCH 06/45] fix: colour matrix times half fermion may overwrite its
 operand

---
 .../qdp_scalarsite_generic_linalg_wrapper.h        | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
index c1da599..c1ef7a4 100644
--- a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
+++ b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
@@ -44,12 +44,15 @@ void ordered_linalg_evaluate_userfunc(int lo, int hi, int myId, ordered_linalg_u
    // Ordered Way - loop through sites and save a table lookup
    for(int i=low; i < high; i++) { 
       
+     // d may be the same field as r
+     PSpinVector<PColorVector<RComplexFloat, 3>, 2> tmp;
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(0),
-				      d.elem(i).elem(0));
+				      tmp.elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(1),
-				      d.elem(i).elem(1));
+				      tmp.elem(1));
+     d.elem(i) = tmp;
    }
   
 }
@@ -87,12 +90,15 @@ void unordered_linalg_evaluate_userfunc(int lo, int hi, int myId,  unordered_lin
    for(int j=lo; j < hi; j++) { 
      int i = tab[j];
       
+     // d may be the same field as r
+     PSpinVector<PColorVector<RComplexFloat, 3>, 2> tmp;
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(0),
-				      d.elem(i).elem(0));
+				      tmp.elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(1),
-				      d.elem(i).elem(1));
+				      tmp.elem(1));
+     d.elem(i) = tmp;
    } 
 }
 
-- 
2.43.0


From 401897e3a470aa8ff3180eac8d8c3b0a03ab0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:26 +0000
Subject: [PATCH 07/45] fix: SSE colour matrix copies accept subsets starting
 at an odd site

---
 lib/scalarsite_sse/qdp_scalarsite_sse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/scalarsite_sse/qdp_scalarsite_sse.cc b/lib/scalarsite_sse/qdp_scalarsite_sse.cc
index 5101ee4..b56a22d 100644
--- a/lib/scalarsite_sse/qdp_scalarsite_sse.cc
+++ b/lib/scalarsite_sse/qdp_scalarsite_sse.cc
@@ -617,7 +617,7 @@ void evaluate(OLattice< TCol >& d,
 
   
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_load_ps(r_ptr_v4sf));
+      _mm_storeu_ps( d_ptr_v4sf, _mm_loadu_ps(r_ptr_v4sf));
     }
   
     
@@ -674,8 +674,8 @@ void evaluate(OLattice< TCol >& d,
     
     
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_add_ps( _mm_load_ps(d_ptr_v4sf), 
-					    _mm_load_ps(r_ptr_v4sf) ) );
+      _mm_storeu_ps( d_ptr_v4sf, _mm_add_ps( _mm_loadu_ps(d_ptr_v4sf), 
+					    _mm_loadu_ps(r_ptr_v4sf) ) );
     }
     
     
@@ -731,8 +731,8 @@ void evaluate(OLattice< TCol >& d,
     
     
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_sub_ps( _mm_load_ps( d_ptr_v4sf), 
-					    _mm_load_ps( r_ptr_v4sf) ) );
+      _mm_storeu_ps( d_ptr_v4sf, _mm_sub_ps( _mm_loadu_ps( d_ptr_v4sf), 
+					    _mm_loadu_ps( r_ptr_v4sf) ) );
     }
     
     
-- 
2.43.0


From dc79200e075ab73f28322423291c826a735af255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 08/45] fix: double precision SSE matrix products may overwrite
 an operand

---
 .../qdp_scalarsite_linalg_double.cc           | 43 +++++++++++++++++--
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
index 193f035..5cead39 100644
--- a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
+++ b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
@@ -20,6 +20,17 @@ namespace QDP {
 // Specialization to optimize the case   
 //    LatticeColorMatrix[ Subset] = LatticeColorMatrix * LatticeColorMatrix
 
+// The kernels store rows of d before they have read all of l and r, so an
+// operand that is the same field as d is copied first, site by site
+  struct ssed_aliased_operands {
+    REAL64 QDP_ALIGN16 tmp[18];
+    REAL64* lm;
+    REAL64* rm;
+    ssed_aliased_operands(const REAL64* dm, REAL64* l, REAL64* r) :
+      lm(l == dm ? tmp : l), rm(r == dm ? tmp : r)
+    { for(int i=0; i < 18; i++) tmp[i] = dm[i]; }
+  };
+
 // Threading hoist
   struct ordered_ssed_3mat_args {
     REAL64* lm;
@@ -40,7 +51,14 @@ namespace QDP {
     REAL64* rm = &(a->rm[index]);
     REAL64* dm = &(a->dm[index]);
 
-    func(dm,lm,rm, n_3mat);
+    if (dm == lm || dm == rm) {
+      for(int i=0; i < n_3mat; i++, lm += 18, rm += 18, dm += 18) {
+	ssed_aliased_operands o(dm,lm,rm);
+	func(dm,o.lm,o.rm,1);
+      }
+    }
+    else
+      func(dm,lm,rm, n_3mat);
   }
 
   struct unordered_ssed_3mat_args { 
@@ -68,7 +86,12 @@ namespace QDP {
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,lm, rm, 1);
+      if (dm == lm || dm == rm) {
+	ssed_aliased_operands o(dm,lm,rm);
+	func(dm,o.lm,o.rm,1);
+      }
+      else
+	func(dm,lm, rm, 1);
     }
   }
       
@@ -279,7 +302,14 @@ void evaluate(OLattice< DCol >& d,
     REAL64* dm = &(a->dm[index]);
     REAL64* c  = a->c; // The const
 
-    func(dm,c,lm,rm, n_3mat);
+    if (dm == lm || dm == rm) {
+      for(int i=0; i < n_3mat; i++, lm += 18, rm += 18, dm += 18) {
+	ssed_aliased_operands o(dm,lm,rm);
+	func(dm,c,o.lm,o.rm,1);
+      }
+    }
+    else
+      func(dm,c,lm,rm, n_3mat);
   }
 
   struct unordered_ssed_3mat_const_args { 
@@ -309,7 +339,12 @@ void evaluate(OLattice< DCol >& d,
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,a->c, lm, rm, 1);
+      if (dm == lm || dm == rm) {
+	ssed_aliased_operands o(dm,lm,rm);
+	func(dm,a->c,o.lm,o.rm,1);
+      }
+      else
+	func(dm,a->c, lm, rm, 1);
     }
   }
       
-- 
2.43.0


From 6e8cbf3ab95e68c6c68a50d7f69c3b4a0ebd2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 09/45] fix: sumMulti of an array returns one sum per array
 element and subset

---
 include/qdp_parscalar_specific.h | 2 +-
 include/qdp_scalar_specific.h    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index bce2e0a..aa5e004 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -944,7 +944,7 @@ template<class T>
 multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
 {
-	multi2d<typename UnaryReturn<OScalar<T>, FnSumMulti>::Type_t> dest(s1.size(), ss.numSubsets());
+	multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t> dest(s1.size(), ss.numSubsets());
 
 #if defined(QDP_USE_PROFILING)	 
 	static QDPProfile_t prof(dest(0,0), OpAssign(), FnSum(), s1);
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index bc1b2ab..3bb0fdc 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -864,7 +864,7 @@ sumMulti(const QDPExpr<RHS,OLattice<T> >& s1, const Set& ss)
  * slices
  */
 template<class T>
-multi2d<typename UnaryReturn<OScalar<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
@@ -899,7 +899,7 @@ sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
  * version is fine.
  */
 template<class T>
-multi2d<typename UnaryReturn<OLattice<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OLattice<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
-- 
2.43.0


From c985396737fbd59256e7cc792f133b4f8709e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 10/45] fix: norm2 and inner products of arrays of single-site
 objects

---
 include/qdp_parscalar_specific.h | 10 +++++-----
 include/qdp_scalar_specific.h    | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index aa5e004..40776aa 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -1042,7 +1042,7 @@ norm2(const multi1d< OScalar<T> >& s1)
 
 	for(int n=0; n < s1.size(); ++n)
 	{
-		OScalar<T>& ss1 = s1[n];
+		const OScalar<T>& ss1 = s1[n];
 		d.elem() += localNorm2(ss1.elem());
 	}
 
@@ -1168,8 +1168,8 @@ innerProduct(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >& s2)
 
 	for(int n=0; n < s1.size(); ++n)
 	{
-		OScalar<T1>& ss1 = s1[n];
-		OScalar<T2>& ss2 = s2[n];
+		const OScalar<T1>& ss1 = s1[n];
+		const OScalar<T2>& ss2 = s2[n];
 		d.elem() += localInnerProduct(ss1.elem(),ss2.elem());
 	}
 
@@ -1298,8 +1298,8 @@ innerProductReal(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >&
 
 	for(int n=0; n < s1.size(); ++n)
 	{
-		OScalar<T1>& ss1 = s1[n];
-		OScalar<T2>& ss2 = s2[n];
+		const OScalar<T1>& ss1 = s1[n];
+		const OScalar<T2>& ss2 = s2[n];
 		d.elem() += localInnerProductReal(ss1.elem(),ss2.elem());
 	}
 
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index 3bb0fdc..c94a0fa 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -963,7 +963,7 @@ norm2(const multi1d< OScalar<T> >& s1)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T>& ss1 = s1[n];
+    const OScalar<T>& ss1 = s1[n];
     d.elem() += localNorm2(ss1.elem());
   }
 
@@ -1085,8 +1085,8 @@ innerProduct(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >& s2)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProduct(ss1.elem(),ss2.elem());
   }
 
@@ -1206,8 +1206,8 @@ innerProductReal(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >&
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProductReal(ss1.elem(),ss2.elem());
   }
 
-- 
2.43.0


From 128c61034d30ec8fab64ba13644c2437f57b854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 11/45] fix: isnormal of a matrix tests every element for being
 normal

---
 include/qdp_primmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_primmatrix.h b/include/qdp_primmatrix.h
index 466f590..722831b 100644
--- a/include/qdp_primmatrix.h
+++ b/include/qdp_primmatrix.h
@@ -807,7 +807,7 @@ isnormal(const PMatrix<T1,N,C>& l)
 
   for(int i=0; i < N; ++i)
     for(int j=0; j < N; ++j)
-      d &= isinf(l.elem(i,j));
+      d &= isnormal(l.elem(i,j));
 
   return d;
 }
-- 
2.43.0


From ad6d14fd2521871c6fdd2a8e03cd639ea327404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 12/45] fix: random fills advance the seed also when no site is
 filled

---
 include/qdp_parscalar_specific.h | 20 +++++++++++---------
 include/qdp_scalar_specific.h    | 16 ++++++++++------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index 40776aa..5559503 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -521,12 +521,20 @@ random(OLattice<T>& d, const Subset& s)
 	const int *tab = s.siteTable().slice();
 	const int nodeSites = s.numSiteTable();
 
+	// The new global seed is the same for any site, also when there are none on this node
+	Seed new_seed = RNG::ran_seed;
+	{
+		T unused;
+		Seed skewed_seed = RNG::ran_seed;
+		fill_random(unused, new_seed, skewed_seed, RNG::ran_mult_n);
+	}
+
 #pragma omp parallel
 	{
 		Seed seed;
 		Seed skewed_seed;
 
-#pragma omp for // need the barrier to avoid that RNG::ran_seed is changed too early!
+#pragma omp for
 		for(int j=0; j < nodeSites; ++j)
 		{
 			int i = tab[j];
@@ -535,15 +543,9 @@ random(OLattice<T>& d, const Subset& s)
 			skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
 			fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
 		}
-
-		int myId = qdpThreadNum();
-		if( myId < nodeSites ) {
-#pragma omp critical (random)
-		{
-			RNG::ran_seed = seed;	 // The seed from any site is the same as the new global seed
-		}
-		}
 	}
+
+	RNG::ran_seed = new_seed;
 }
 
 
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index c94a0fa..5bdddce 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -343,25 +343,29 @@ random(OLattice<T>& d, const Subset& s)
   // Grab table array
   const int *tab = s.siteTable().slice();
 
+  // The new global seed is the same for any site, also when there are none here
+  Seed new_seed = RNG::ran_seed;
+  {
+    T unused;
+    Seed skewed_seed = RNG::ran_seed;
+    fill_random(unused, new_seed, skewed_seed, RNG::ran_mult_n);
+  }
+
 #pragma omp parallel 
   {
     Seed seed;
     Seed skewed_seed;
 
-#pragma omp for // need the barrier to avoid that RNG::ran_seed is changed too early
+#pragma omp for
     for(int j=0; j < s.numSiteTable(); ++j) {
       int i = tab[j];
       seed = RNG::ran_seed;
       skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
       fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
     }
-
-#pragma omp critical (random)
-    {
-      RNG::ran_seed = seed;  // The seed from any site is the same as the new global seed
-    }
   }
 
+  RNG::ran_seed = new_seed;
 }
 
 
-- 
2.43.0


From 68a73e2252ec6250055bed08ed5b28815359cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 13/45] fix: the stand-alone generator honours a seed set, and
 returns the seed in force, before the first draw

---
 lib/qdp_rannyu.cc | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index a7d294a..d3f9e4a 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -53,20 +53,29 @@ namespace QDP
     }
 
 
+    namespace
+    {
+      // Initialize the global seed if needed
+      void initSeed()
+      {
+	if (! inited)
+	{
+	  ran_seed.resize(4);
+	  for(int i=0; i < 4; ++i)
+	    ran_seed[i] = __default_seed[i];
+
+	  inited = true;
+	}
+      }
+    }
+
+
     //! The RNG. Has side effects.
     double random()
     {
       double ran;
 
-      // Initialize the global seed if needed
-      if (! inited)
-      {
-	ran_seed.resize(4);
-	for(int i=0; i < 4; ++i)
-	  ran_seed[i] = __default_seed[i];
-
-	inited = true;
-      }
+      initSeed();
 
       __rand(ran, ran_seed);
       return ran;
@@ -83,12 +92,14 @@ namespace QDP
       }
 	
       ran_seed = iseed;
+      inited = true;
     }
 
 
     //! Recover the seed
     multi1d<int> savern()
     {
+      initSeed();
       return ran_seed;
     }
 
-- 
2.43.0


From a67160bac78b8a441cd011b2405800e175d2d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:16 +0000
Subject: [PATCH 14/45] fix: the stand-alone generator follows its 48-bit
 recurrence and stays below one

---
 lib/qdp_rannyu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index d3f9e4a..b556b3f 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -47,7 +47,7 @@ namespace QDP
 	ll[2] = ii[2] & 4095;
 	ii[1] = ii[1] + (ii[2] >> 12);
 	ll[1] = ii[1] & 4095;
-	ll[0] = (ii[0] + (ii[1] >> 12)) >> 12;
+	ll[0] = (ii[0] + (ii[1] >> 12)) & 4095;
 	ran = twom12*((double)ll[0] + twom12*((double)ll[1] + twom12*((double)ll[2] + twom12*((double)ll[3]))));
       }
     }
-- 
2.43.0


From 28a158c7d3f6ea8807b0cba5b130d152b2dab676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:52 +0000
Subject: [PATCH 15/45] fix: in-memory binary streams start with a zero
 checksum and a good state

---
 lib/qdp_io.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 7b434db..fa8b30c 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -917,14 +917,18 @@ namespace QDP
   BinaryBufferReader::BinaryBufferReader() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferReader::BinaryBufferReader(const std::string& s) {open(s);}
+  BinaryBufferReader::BinaryBufferReader(const std::string& s) {checksum=0; open(s);}
 
   BinaryBufferReader::~BinaryBufferReader() {}
 
   void BinaryBufferReader::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
+    {
+      f.clear();
       f.str(s);
+    }
   }
 
   // Output the stream
@@ -1347,14 +1351,18 @@ namespace QDP
   BinaryBufferWriter::BinaryBufferWriter() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferWriter::BinaryBufferWriter(const std::string& s) {open(s);}
+  BinaryBufferWriter::BinaryBufferWriter(const std::string& s) {checksum=0; open(s);}
 
   BinaryBufferWriter::~BinaryBufferWriter() {}
 
   void BinaryBufferWriter::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
+    {
+      f.clear();
       f.str(s);
+    }
   }
 
   // Output the stream
@@ -1540,14 +1548,18 @@ namespace QDP
   BinaryBufferReaderWriter::BinaryBufferReaderWriter() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferReaderWriter::BinaryBufferReaderWriter(const std::string& s) {open(s);}
+  BinaryBufferReaderWriter::BinaryBufferReaderWriter(const std::string& s) {checksum=0; open(s);}
 
   BinaryBufferReaderWriter::~BinaryBufferReaderWriter() {}
 
   void BinaryBufferReaderWriter::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
+    {
+      f.clear();
       f.str(s);
+    }
   }
 
   // Output the stream
-- 
2.43.0


From 652e9c658cf4e365d5bf69df239e2e626bcc7358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:52 +0000
Subject: [PATCH 16/45] fix: define the declared insertion of a character into
 a binary writer

---
 lib/qdp_io.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index fa8b30c..7986d39 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -1286,6 +1286,12 @@ namespace QDP
     return bin;
   }
 
+  BinaryWriter& operator<<(BinaryWriter& bin, char output)
+  {
+    write(bin, output);
+    return bin;
+  }
+
   BinaryWriter& operator<<(BinaryWriter& bin, int output)
   {
     write(bin, output);
-- 
2.43.0


From 426d58c9d9a6ee2e546c3305ddc8b2c6b4a4435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 17/45] fix: seeking an in-memory reader-writer also moves
 where it writes

---
 lib/qdp_io.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 7986d39..b07d020 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -1503,11 +1503,21 @@ namespace QDP
     return pos;
   }
 
+  //! Bring the put position to the get position
+  /*! A file has a single position, but an in-memory stream has one for each direction */
+  static void alignPut(std::iostream& f)
+  {
+    f.seekp(f.tellg());
+  }
+
   //! Set the current position
   void BinaryReaderWriter::seek(pos_type pos)
   {
     if (Layout::primaryNode())
+    {
       getIOstream().seekg(pos);
+      alignPut(getIOstream());
+    }
 
     internalChecksum() = 0;
   }
@@ -1516,7 +1526,10 @@ namespace QDP
   void BinaryReaderWriter::seekBegin(off_type off)
   {
     if (Layout::primaryNode())
+    {
       getIOstream().seekg(off, std::ios_base::beg);
+      alignPut(getIOstream());
+    }
 
     internalChecksum() = 0;
   }
@@ -1525,7 +1538,10 @@ namespace QDP
   void BinaryReaderWriter::seekRelative(off_type off)
   {
     if (Layout::primaryNode())
+    {
       getIOstream().seekg(off, std::ios_base::cur);
+      alignPut(getIOstream());
+    }
 
     internalChecksum() = 0;
   }
@@ -1534,7 +1550,10 @@ namespace QDP
   void BinaryReaderWriter::seekEnd(off_type off)
   {
     if (Layout::primaryNode())
+    {
       getIOstream().seekg(-off, std::ios_base::end);
+      alignPut(getIOstream());
+    }
 
     internalChecksum() = 0;
   }
@@ -1543,7 +1562,10 @@ namespace QDP
   void BinaryReaderWriter::rewind()
   {
     if (Layout::primaryNode())
+    {
       getIOstream().seekg(0, std::ios_base::beg);
+      alignPut(getIOstream());
+    }
 
     internalChecksum() = 0;
   }
-- 
2.43.0


From a57c9ad61368a2dea3ba8912c46bc4584f707dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:36 +0000
Subject: [PATCH 18/45] fix: define the declared insertion of a character into
 a text writer

---
 lib/qdp_io.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index b07d020..112690d 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -292,6 +292,12 @@ namespace QDP
     return txt;
   }
 
+  TextWriter& operator<<(TextWriter& txt, char output)
+  {
+    txt.write(output);
+    return txt;
+  }
+
   TextWriter& operator<<(TextWriter& txt, int output)
   {
     txt.write(output);
-- 
2.43.0


From 849cc677bba8b2d2bc5621ebc7d4215c46f536cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 19/45] fix: self-assignment of multi-dimensional arrays, and
 assignment to a slice, keep the values

---
 include/qdp_multi.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 0034bdd..d8af2f3 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -680,7 +680,8 @@ public:
   //! Equal operator uses underlying = of T
   multi2d<T>& operator=(const multi2d<T>& s1)
     {
-      resize(s1.size2(), s1.size1());   // always resize
+      if (n2 != s1.n2 || n1 != s1.n1)   // also keeps self-assignment and views intact
+	resize(s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -779,7 +780,8 @@ public:
   //! Equal operator uses underlying = of T
   multi3d<T>& operator=(const multi3d<T>& s1)
     {
-      resize(s1.size3(), s1.size2(), s1.size1());
+      if (n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size3(), s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -874,7 +876,8 @@ public:
   //! Equal operator uses underlying = of T
   multi4d<T>& operator=(const multi4d<T>& s1)
     {
-      resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
+      if (n4 != s1.n4 || n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -971,7 +974,8 @@ public:
   //! Equal operator uses underlying = of T
   multi5d<T>& operator=(const multi5d<T>& s1)
     {
-      resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
+      if (n5 != s1.n5 || n4 != s1.n4 || n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -1072,6 +1076,9 @@ public:
   //! Equal operator uses underlying = of T
   multiNd<T>& operator=(const multiNd<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size());
 
       for(int i=0; i < sz; ++i)
-- 
2.43.0


From 65598d04ddecf16297dff328e079fd37cfac50f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 20/45] fix: multiNd indexed by integers uses the row-major
 strides of its other accessors

---
 include/qdp_multi.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index d8af2f3..f8cbace 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1134,7 +1134,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return const ref to an element
@@ -1146,7 +1146,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return ref to an element
@@ -1158,7 +1158,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return const ref to an element
@@ -1170,7 +1170,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return ref to an element
@@ -1182,7 +1182,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return const ref to an element
@@ -1194,7 +1194,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return ref to an element via indices packed in a multi1d array
-- 
2.43.0


From 5c334c91e7929433d9f5b0389c6a85a24ab43b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 21/45] fix: an empty multiNd has no elements and can be copied

---
 include/qdp_multi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index f8cbace..89e9b75 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1029,7 +1029,7 @@ private:
 template<class T> class multiNd
 {
 public:
-  multiNd() {F=0;}
+  multiNd() {F=0;sz=0;}
   explicit multiNd(const multi1d<int>& _nz) {F=0;resize(_nz);}
   ~multiNd() {delete[] F;}
 
@@ -1047,7 +1047,7 @@ public:
     {
       delete[] F; 
       nz = _nz;
-      sz = nz[0];
+      sz = (nz.size() > 0) ? nz[0] : 0;
       for(int i=1; i < nz.size(); ++i)
 	sz *= nz[i];
       F = new(std::nothrow) T[sz];
-- 
2.43.0


From 5b9fb9cfdc9a43454cceb266b9d7ed10ab4b7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 22/45] fix: concat of any element type, scalar minus array,
 and sized multi5d can be instantiated

---
 include/qdp_multi.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 89e9b75..eac582e 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -291,7 +291,7 @@ private:
 template<typename T>
 inline multi1d<T> concat(const multi1d<T>& l, const multi1d<T>& r)
 {
-  multi1d<int> nz(l.size() + r.size());
+  multi1d<T> nz(l.size() + r.size());
   int j = 0;
   for(int i=0; i < l.size(); ++i)
     nz[j++] = l[i];
@@ -440,8 +440,9 @@ template< typename T>
 inline
 multi1d<T> operator-(const T& s, const multi1d<T>& a)
 {
-  multi1d<T> c(-a); 
-  c+=s;
+  multi1d<T> c(a.size()); 
+  c=s;
+  c-=a;
   return c;
 }
 //! Array - scalar
@@ -932,7 +933,7 @@ template<class T> class multi5d
 public:
   multi5d() {F=0;n1=n2=n3=n4=n5=sz=0;copymem=false;}
   multi5d(T *f, int ns5, int ns4, int ns3, int ns2, int ns1) {F=f; n1=ns1; n2=ns2; n3=ns3; n4=ns4; n5=ns5; sz=n1*n2*n3*n4*n5; copymem=true;}
-  explicit multi5d(int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns4,ns3,ns2,ns1);}
+  explicit multi5d(int ns5, int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns5,ns4,ns3,ns2,ns1);}
   ~multi5d() {if (! copymem) {delete[] F;}}
 
   //! Copy constructor
-- 
2.43.0


From c3e42caf7e22b9e2bedd1e55e3ea56df28c7ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:47 +0000
Subject: [PATCH 23/45] fix: writing binary data does not modify the caller's
 (possibly read-only) data

---
 lib/qdp_io.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 112690d..b96afe4 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -1180,11 +1180,11 @@ namespace QDP
       else
       {
 	/* little-endian */
-	/* Swap and write and swap */
-	QDPUtil::byte_swap(const_cast<char *>(output), size, nmemb);
-	internalChecksum() = QDPUtil::crc32(internalChecksum(), output, size*nmemb);
-	getOstream().write(output, size*nmemb);
-	QDPUtil::byte_swap(const_cast<char *>(output), size, nmemb);
+	/* Swap a copy and write it; the caller's data may be read-only */
+	std::string swapped(output, size*nmemb);
+	QDPUtil::byte_swap(&swapped[0], size, nmemb);
+	internalChecksum() = QDPUtil::crc32(internalChecksum(), swapped.data(), size*nmemb);
+	getOstream().write(swapped.data(), size*nmemb);
       }
     }
   }
-- 
2.43.0


From 2c125dda53fee84af16c3d2686a1149d29a8e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 24/45] fix: a length that could not be read is not acted upon

---
 include/qdp_io.h | 40 +++++++++++++++++++++-------------------
 lib/qdp_io.cc    |  2 +-
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/include/qdp_io.h b/include/qdp_io.h
index 923e565..98a1e46 100644
--- a/include/qdp_io.h
+++ b/include/qdp_io.h
@@ -529,7 +529,7 @@ namespace QDP
   inline
   void read(BinaryReader& bin, multi1d<T>& d)
   {
-    int n;
+    int n = 0;
     read(bin, n);    // the size is always written, even if 0
     d.resize(n);
 
@@ -597,8 +597,8 @@ namespace QDP
   inline
   void read(BinaryReader& bin, multi2d<T>& d)
   {
-    int n1;
-    int n2;
+    int n1 = 0;
+    int n2 = 0;
     read(bin, n1);    // the size is always written, even if 0
     read(bin, n2);    // the size is always written, even if 0
     d.resize(n1,n2);
@@ -626,9 +626,9 @@ namespace QDP
   inline
   void read(BinaryReader& bin, multi3d<T>& d)
   {
-    int n1;
-    int n2;
-    int n3;
+    int n1 = 0;
+    int n2 = 0;
+    int n3 = 0;
     read(bin, n3);    // the size is always written, even if 0
     read(bin, n2);    // the size is always written, even if 0
     read(bin, n1);    // the size is always written, even if 0
@@ -664,10 +664,10 @@ namespace QDP
   inline
   void read(BinaryReader& bin, multi4d<T>& d)
   {
-    int n1;
-    int n2;
-    int n3;
-    int n4;
+    int n1 = 0;
+    int n2 = 0;
+    int n3 = 0;
+    int n4 = 0;
     read(bin, n4);    // the size is always written, even if 0
     read(bin, n3);    // the size is always written, even if 0
     read(bin, n2);    // the size is always written, even if 0
@@ -707,11 +707,11 @@ namespace QDP
   inline
   void read(BinaryReader& bin, multi5d<T>& d)
   {
-    int n1;
-    int n2;
-    int n3;
-    int n4;
-    int n5;
+    int n1 = 0;
+    int n2 = 0;
+    int n3 = 0;
+    int n4 = 0;
+    int n5 = 0;
     read(bin, n5);    // the size is always written, even if 0
     read(bin, n4);    // the size is always written, even if 0
     read(bin, n3);    // the size is always written, even if 0
@@ -747,6 +747,8 @@ namespace QDP
   {
     multi1d<int> siz;
     read(bin, siz); // read the array of the sizes
+    if (bin.fail())
+      return;
 
     d.resize(siz);
 
@@ -770,7 +772,7 @@ namespace QDP
   inline
   void read(BinaryReader& bin, std::vector<T>& d)
   {
-    int n;
+    int n = 0;
     read(bin, n);    // the size is always written, even if 0
     d.resize(n);
 
@@ -796,7 +798,7 @@ namespace QDP
   {
     d.clear();
 
-    int n;
+    int n = 0;
     read(bin, n);    // the size is always written, even if 0
 
     for(int i=0; i < n; ++i)
@@ -824,7 +826,7 @@ namespace QDP
   inline
   void read(BinaryReader& bin, Array1dO<T>& d)
   {
-    int n;
+    int n = 0;
     read(bin, n);    // the size is always written, even if 0
     d.resize(n);
 
@@ -850,7 +852,7 @@ namespace QDP
   {
     d.clear();
 
-    int n;
+    int n = 0;
     read(bin, n);    // the size is always written, even if 0
 
     for(int i=0; i < n; ++i)
diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index b96afe4..1ee2a11 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -618,7 +618,7 @@ namespace QDP
     if (Layout::primaryNode())
     {
       // Get the length
-      int n;
+      int n = 0;
       readArrayPrimaryNode((char*)&n, sizeof(int), 1);
     
       // Read
-- 
2.43.0


From b1cc1c9eb7214d37a2e0405b3d3164befc7962a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 25/45] fix: a string read without its terminating newline is
 reported as incomplete

---
 lib/qdp_io.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 1ee2a11..9cb8f42 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -645,6 +645,8 @@ namespace QDP
     if (Layout::primaryNode())
     {
       getIstream().getline(str, maxBytes);
+      if (getIstream().eof())       // the terminating newline is missing: the string is incomplete
+	getIstream().setstate(std::ios_base::failbit);
       n = strlen(str);
       internalChecksum() = QDPUtil::crc32(internalChecksum(), str, n);   // no string terminator
       ++n;
-- 
2.43.0


From d6eea5bdf9b88a067fbcfdbd0fc8b62da77224e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 26/45] fix: opening a text buffer starts from a good stream
 state

---
 lib/qdp_io.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 9cb8f42..78de4d4 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -189,7 +189,10 @@ namespace QDP
   void TextBufferReader::open(const std::string& s) 
   {
     if (Layout::primaryNode())
+    {
+      f.clear();
       f.str(s);
+    }
   }
 
   // Output the stream
@@ -441,7 +444,10 @@ namespace QDP
   void TextBufferWriter::open(const std::string& s)
   {
     if (Layout::primaryNode())
+    {
+      f.clear();
       f.str(s);
+    }
   }
 
   // Output the stream
-- 
2.43.0


From a4ce320487515465e4adaf6ced9ca01db8ca5b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 27/45] fix: text output separates the components of site
 tensors

---
 include/qdp_primmatrix.h  | 2 +-
 include/qdp_primspinvec.h | 2 +-
 include/qdp_primvector.h  | 2 +-
 include/qdp_reality.h     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/qdp_primmatrix.h b/include/qdp_primmatrix.h
index 722831b..dcc6516 100644
--- a/include/qdp_primmatrix.h
+++ b/include/qdp_primmatrix.h
@@ -182,7 +182,7 @@ TextWriter& operator<<(TextWriter& txt, const PMatrix<T,N,C>& d)
 {
   for(int j=0; j < N; ++j)
     for(int i=0; i < N; ++i)
-      txt << d.elem(i,j);
+      txt << d.elem(i,j) << "\n";
 
   return txt;
 }
diff --git a/include/qdp_primspinvec.h b/include/qdp_primspinvec.h
index fbf458c..687e53c 100644
--- a/include/qdp_primspinvec.h
+++ b/include/qdp_primspinvec.h
@@ -161,7 +161,7 @@ inline
 TextWriter& operator<<(TextWriter& txt, const PSpinVector<T,N>& d)
 {
   for(int i=0; i < N; ++i)
-    txt << d.elem(i);
+    txt << d.elem(i) << "\n";
 
   return txt;
 }
diff --git a/include/qdp_primvector.h b/include/qdp_primvector.h
index 4ba3251..daeefb6 100644
--- a/include/qdp_primvector.h
+++ b/include/qdp_primvector.h
@@ -193,7 +193,7 @@ inline
 TextWriter& operator<<(TextWriter& txt, const PVector<T,N,C>& d)
 {
   for(int i=0; i < N; ++i)
-    txt << d.elem(i);
+    txt << d.elem(i) << "\n";
 
   return txt;
 }
diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index 0d75c3f..fa81684 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -420,7 +420,7 @@ template<class T>
 inline  
 TextWriter& operator<<(TextWriter& s, const RComplex<T>& d)
 {
-  return s << d.real() << d.imag();
+  return s << d.real() << " " << d.imag();
 }
 
 #ifdef QDP_USE_LIBXML2
-- 
2.43.0


From 2afd63c3c93e25df07277fd670eeec5e3e75c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 28/45] fix: byte swapping more than 2^32 elements terminates

---
 lib/qdp_byteorder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_byteorder.cc b/lib/qdp_byteorder.cc
index 672db34..47810ea 100644
--- a/lib/qdp_byteorder.cc
+++ b/lib/qdp_byteorder.cc
@@ -28,7 +28,7 @@ namespace QDPUtil
   //! Byte-swap an array of data each of size nmemb
   void byte_swap(void *ptr, size_t size, size_t nmemb)
   {
-    unsigned int j;
+    size_t j;
 
     char char_in[16];		/* characters used in byte swapping */
 
-- 
2.43.0


From 3c5a54a4d9b419cd47916615c081b89a3849315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 29/45] fix: the distinct entries of an empty list

---
 lib/qdp_util.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/qdp_util.cc b/lib/qdp_util.cc
index 21cb785..c0fb4d3 100644
--- a/lib/qdp_util.cc
+++ b/lib/qdp_util.cc
@@ -129,6 +129,9 @@ uniquify_list(const multi1d<int>& ll)
 {
   multi1d<int> d(ll.size());
 
+  if (ll.size() == 0)
+    return d;
+
   // Enter the first element as unique to prime the search
   int ipos = 0;
   int num = 0;
-- 
2.43.0


From 34425512bc6004788b3a222405ffb45a58442b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 30/45] fix: the stopwatch adds nothing for an interval it
 could not measure

---
 lib/qdp_stopwatch.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/qdp_stopwatch.cc b/lib/qdp_stopwatch.cc
index cd4a81d..9437b64 100644
--- a/lib/qdp_stopwatch.cc
+++ b/lib/qdp_stopwatch.cc
@@ -22,14 +22,15 @@ namespace QDP {
   StopWatch::~StopWatch() {}
 	
   void StopWatch::calcDuration(long& secs, long& usecs){
+    secs=0;
+    usecs=0;
      if (!state){
         QDPIO::cerr << "Timer in error state"<<std::endl;
         return;}
-    secs=0;
-    usecs=0;
     if( startedP && stoppedP ) 
     { 
-      if( t_end.tv_sec < t_start.tv_sec ) 
+      if( t_end.tv_sec < t_start.tv_sec ||
+	  (t_end.tv_sec == t_start.tv_sec && t_end.tv_usec < t_start.tv_usec) ) 
       { 
 	QDPIO::cerr << __func__ << ": critical timer rollover" << std::endl;
         state=false;
-- 
2.43.0


From c8a0b346939f33dd9b40e13148ae09c1294fe24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 31/45] fix: allocators refuse requests they cannot meet

---
 lib/qdp_default_allocator.cc |  6 ++++++
 lib/qdp_pool_allocator.cc    | 13 ++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/qdp_default_allocator.cc b/lib/qdp_default_allocator.cc
index 538860c..a3289f7 100644
--- a/lib/qdp_default_allocator.cc
+++ b/lib/qdp_default_allocator.cc
@@ -33,6 +33,12 @@ namespace Allocator {
     }
     bytes_to_alloc += QDP_ALIGNMENT_SIZE;
 
+    // The size with its alignment slack must be representable
+    if ( bytes_to_alloc < n_bytes ) {
+      QDPIO::cerr << "Unable to allocate memory in allocate()" << std::endl;
+      throw std::bad_alloc();
+    }
+
     // Try and allocate the memory
     try { 
       unaligned = new unsigned char[ bytes_to_alloc ];
diff --git a/lib/qdp_pool_allocator.cc b/lib/qdp_pool_allocator.cc
index d16fc05..f1d73fe 100644
--- a/lib/qdp_pool_allocator.cc
+++ b/lib/qdp_pool_allocator.cc
@@ -71,7 +71,18 @@ namespace Allocator {
 	    BytesToAlloc += QDP_ALIGNMENT_SIZE;
 
 
-	    unsigned char* Unaligned = (unsigned char *)(_LargePool->malloc(BytesToAlloc));
+	    unsigned char* Unaligned = nullptr;
+
+	    // The size with its alignment slack must be representable
+	    if ( BytesToAlloc >= n_bytes ) {
+	      Unaligned = (unsigned char *)(_LargePool->malloc(BytesToAlloc));
+	    }
+
+	    // The pool returns a null pointer when it is exhausted
+	    if ( Unaligned == nullptr ) {
+	      QDPIO::cerr << "Unable to allocate memory in allocate()" << std::endl;
+	      throw std::bad_alloc();
+	    }
 
 	    unsigned char* Aligned = (unsigned char *)
 	    				( ( (unsigned long)Unaligned + (QDP_ALIGNMENT_SIZE-1) ) & ~(QDP_ALIGNMENT_SIZE - 1));
-- 
2.43.0


From ed5ae26ad790eefa41e707aab30f7d1d8dbbe5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 32/45] fix: file positions of the disk map overflowed to a
 division by zero

---
 include/qdp_map_obj_disk.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 480da10..c7a9c89 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -8,6 +8,8 @@
 #define __qdp_map_obj_disk_h__
 
 #include "qdp_map_obj.h"
+#include <array>
+#include <cstdint>
 #include <limits>
 #include <unordered_map>
 
@@ -210,9 +212,9 @@ namespace QDP
   typename MapObjectDisk<K,V>::priv_pos_type_t
   MapObjectDisk<K,V>::convertToPrivate(const pos_type& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
-    uint64_t less = uint64_t(input % max_uint64);
-    uint64_t more = input / max_uint64;
+    // A stream position fits into the least significant part
+    uint64_t less = uint64_t(off_type(input));
+    uint64_t more = 0;
     // NOTE comment on priv_pos_type_t
     return (QDPUtil::big_endian() ? priv_pos_type_t{more, less} : priv_pos_type_t{less, more});
   }
@@ -222,12 +224,8 @@ namespace QDP
   typename MapObjectDisk<K,V>::pos_type 
   MapObjectDisk<K,V>::convertFromPrivate(const priv_pos_type_t& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
     // NOTE comment on priv_pos_type_t
-    if (!QDPUtil::big_endian())
-      return pos_type(input[0]) + pos_type(input[1]) * max_uint64;
-    else
-      return pos_type(input[1]) + pos_type(input[0]) * max_uint64;
+    return pos_type(off_type(QDPUtil::big_endian() ? input[1] : input[0]));
   }
 
 
-- 
2.43.0


From fb466d312218da1004ea0d8eeeeef8f4fee15432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 33/45] fix: the disk map writes every record after the last
 one

---
 include/qdp_map_obj_disk.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index c7a9c89..6f0f154 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -557,7 +557,9 @@ namespace QDP
 	  QDPIO::cout << "Found key to update. Position is " << wpos << std::endl;
 	}
 	
-	streamer.seek(wpos);
+	// The new value may be longer than the old one, so it needs a record of its own
+	streamer.seekEnd(0);
+	src_map[bin.str()] = convertToPrivate(streamer.currentPosition());
 	
 	if (level >= 2) {
 	  QDPIO::cout << "Sought write position. Current Position: " << streamer.currentPosition() << std::endl;
@@ -581,6 +583,9 @@ namespace QDP
       else {
 	// Key does not exist
 
+	// A lookup may have left the stream inside the file
+	streamer.seekEnd(0);
+
 	// Make note of current writer position
 	pos_type pos = streamer.currentPosition();
       
-- 
2.43.0


From 8b1c4d8124253d2e82bf3fa81157525545840755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 34/45] fix: a closed disk map forgets its keys

---
 include/qdp_map_obj_disk.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 6f0f154..6549589 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -420,6 +420,9 @@ namespace QDP
       break;
     }
 
+    // Nothing of this file may be found in the next one
+    src_map.clear();
+
     state = INIT;
   }
   
-- 
2.43.0


From a90ebb0145ad054e06a30584f92ccbf70933ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 35/45] fix: the disk map reports inserts that could not be
 stored

---
 include/qdp_map_obj_disk.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 6549589..dffca0d 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -39,7 +39,7 @@ namespace QDP
   {
   public:
     //! Empty constructor
-    MapObjectDisk() : file_version(1), state(INIT), level(0) {}
+    MapObjectDisk() : file_version(1), state(INIT), level(0), writable(false) {}
 
     //! Finalizes object
     ~MapObjectDisk();
@@ -146,6 +146,9 @@ namespace QDP
     //! Debugging
     int level;
 
+    //! Was the file opened for writing
+    bool writable;
+
     //! File related stuff. Unsigned int is as close to uint32 as I can get
     MapObjDiskEnv::file_version_t file_version;
     
@@ -254,6 +257,7 @@ namespace QDP
     case INIT: 
     {
       filename = file;
+      writable = (mode & std::ios_base::out) != 0;
 
       QDPIO::cout << "MapObjectDisk: opening file " << filename
 		  << " for writing" << std::endl;
@@ -365,6 +369,7 @@ namespace QDP
     case INIT:
     {
       filename = file;
+      writable = (mode & std::ios_base::out) != 0;
 
       QDPIO::cout << "MapObjectDisk: opening file " << filename
 		  << " for reading" << std::endl;
@@ -545,6 +550,10 @@ namespace QDP
   {
     int ret = 0;
 
+    // A file opened for reading only is left alone
+    if (state != INIT && ! writable)
+      return -1;
+
     switch (state)  { 
     case MODIFIED :
     case UNCHANGED : {
@@ -628,6 +637,8 @@ namespace QDP
 	// Done
 	state = MODIFIED;
       }
+      if (streamer.fail())
+	ret = -1;
       break;
     }
     default:
-- 
2.43.0


From 2d59879c6744d29f87ef6639a5d065160791a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 36/45] fix: the disk map refuses records and key tables cut
 short

---
 include/qdp_map_obj_disk.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index dffca0d..76e0c52 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -717,7 +717,7 @@ namespace QDP
 	  QDPIO::cout << " Record checksum: " << read_checksum << "  Current Position: " << streamer.currentPosition() << std::endl;
 	}
 
-	if( read_checksum != calc_checksum ) { 
+	if( streamer.fail() || read_checksum != calc_checksum ) { 
 	  QDPIO::cout << "Mismatched Checksums: Expected: " << calc_checksum << " but read " << read_checksum << std::endl;
 	  QDP_abort(1);
 	}
@@ -905,7 +905,7 @@ namespace QDP
       QDPIO::cout << "Read num of entries: " << num_records << " records. Current Position: " << streamer.currentPosition() << std::endl;
     }
     
-    for(unsigned int i=0; i < num_records; i++) 
+    for(unsigned int i=0; i < num_records && ! streamer.fail(); i++) 
     { 
       priv_pos_type_t rpos;
       std::string key_str;
@@ -926,7 +926,7 @@ namespace QDP
     if (level >= 2) {
       QDPIO::cout << "Read Map checksum: " << read_checksum << "  Current Position: " << streamer.currentPosition();
     }
-    if( read_checksum != calc_checksum ) { 
+    if( streamer.fail() || read_checksum != calc_checksum ) { 
       QDPIO::cout << "Mismatched Checksums: Expected: " << calc_checksum << " but read " << read_checksum << std::endl;
       QDP_abort(1);
     }
-- 
2.43.0


From 0f727abfeed0d07d29ebba87e4d17307fdc73206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 37/45] fix: closing and testing the files of a multiple disk
 map

---
 include/qdp_map_obj_disk_multiple.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/qdp_map_obj_disk_multiple.h b/include/qdp_map_obj_disk_multiple.h
index 3dfe3aa..fcc1459 100644
--- a/include/qdp_map_obj_disk_multiple.h
+++ b/include/qdp_map_obj_disk_multiple.h
@@ -23,7 +23,7 @@ namespace QDP
     MapObjectDiskMultiple() {}
 
     //! Finalizes object
-    ~MapObjectDiskMultiple() {}
+    ~MapObjectDiskMultiple() {close();}
 
     //! Set debugging level
     void setDebug(int level)
@@ -38,6 +38,7 @@ namespace QDP
     //! Open files
     void open(const std::vector<std::string>& files)
     {
+      close();
       dbs_.resize(files.size());
 
       for(int i=0; i < dbs_.size(); ++i)
@@ -52,9 +53,9 @@ namespace QDP
     bool fileExists(const std::vector<std::string>& files) const
     {
       bool ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i]->fileExists(files[i]);
+	ret = ! MapObjDiskEnv::checkForNewFile(files[i], std::ios_base::in);
 	if (! ret)
 	  return ret;
       }
@@ -71,6 +72,7 @@ namespace QDP
 	dbs_[i]->close();
 	delete dbs_[i];
       }
+      dbs_.clear();
     }
 
 
-- 
2.43.0


From e20e38bf660ffdc3727c2416a61b521462938353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 38/45] fix: binary input and output of a lattice subset could
 not be instantiated

---
 include/qdp_parscalar_specific.h | 30 ++++++++++++++++++++++++------
 include/qdp_scalar_specific.h    | 26 ++++++++++++++++++++------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index 5559503..ddddd52 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -2619,11 +2619,20 @@ void writeOLattice(BinaryWriter& bin,
 //! Write a single site of a lattice quantity
 /*! Assumes no inner grid */
 template<class T>
-void write(BinaryWriter& bin, OSubLattice<T> dd)
+void write(BinaryWriter& bin, const OSubLattice<T>& dd)
 {
-	const OLattice<T>& d = dd.field();
+	const T* d = dd.getF();
+	OLattice<T> tmp;
 
-	writeOLattice(bin, (const char *)&(d.elem(0)), 
+	// One that owns its memory holds only its own sites, in table order
+	if (dd.getOwnsMemory())
+	{
+		for(int j=0; j < dd.subset().numSiteTable(); ++j)
+			tmp.elem(dd.subset().siteTable()[j]) = d[j];
+		d = tmp.getF();
+	}
+
+	writeOLattice(bin, (const char *)d, 
 		sizeof(typename WordType<T>::Type_t), 
 		sizeof(T) / sizeof(typename WordType<T>::Type_t),
 		dd.subset());
@@ -2671,12 +2680,21 @@ void readOLattice(BinaryReader& bin,
 //! Read a single site of a lattice quantity
 /*! Assumes no inner grid */
 template<class T>
-void read(BinaryReader& bin, OSubLattice<T> d)
+void read(BinaryReader& bin, const OSubLattice<T>& dd)
 {
-	readOLattice(bin, (char *)(d.field().getF()),
+	OLattice<T> tmp;
+
+	// One that owns its memory holds only its own sites, in table order
+	readOLattice(bin, (char *)(dd.getOwnsMemory() ? tmp.getF() : dd.getF()),
 				 sizeof(typename WordType<T>::Type_t), 
 				 sizeof(T) / sizeof(typename WordType<T>::Type_t),
-				 d.subset());
+				 dd.subset());
+
+	if (dd.getOwnsMemory())
+	{
+		for(int j=0; j < dd.subset().numSiteTable(); ++j)
+			dd.getF()[j] = tmp.elem(dd.subset().siteTable()[j]);
+	}
 }
 
 
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index 5bdddce..6d07790 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -2141,16 +2141,29 @@ void write(BinaryWriter& bin, const OLattice<T>& d)
   }
 }
 
+//! Where a sub-lattice holds each of its sites: one that owns its memory holds only its own, in table order
+template<class T>
+multi1d<int> sub_lattice_offsets(const OSubLattice<T>& dd)
+{
+  const Subset& sub = dd.subset();
+  multi1d<int> where(Layout::vol());
+  for(int j=0; j < sub.numSiteTable(); ++j)
+    where[sub.siteTable()[j]] = dd.getOwnsMemory() ? j : sub.siteTable()[j];
+
+  return where;
+}
+
 //! Binary output
 /*! Assumes no inner grid */
 template<class T>  
-void write(BinaryWriter& bin, OSubLattice<T> dd)
+void write(BinaryWriter& bin, const OSubLattice<T>& dd)
 {
   // Single node code
   const Subset& sub = dd.subset();
   const Set& set    = sub.getSet();
 
-  const OLattice<T>& d = dd.field();
+  const T* d = dd.getF();
+  const multi1d<int> where = sub_lattice_offsets(dd);
 
   const multi1d<int>& lat_color = set.latticeColoring();
   const int color = sub.color();
@@ -2162,7 +2175,7 @@ void write(BinaryWriter& bin, OSubLattice<T> dd)
     int i = Layout::linearSiteIndex(site);
     if (lat_color[i] == color)
     {
-      bin.writeArray((const char*)&(d.elem(i)), 
+      bin.writeArray((const char*)(d + where[i]), 
 		     sizeof(typename WordType<T>::Type_t), 
 		     sizeof(T) / sizeof(typename WordType<T>::Type_t));
     }
@@ -2219,13 +2232,14 @@ void read(BinaryReader& bin, OLattice<T>& d, const multi1d<int>& coord)
 //! Binary input
 /*! Assumes no inner grid */
 template<class T>  
-void read(BinaryReader& bin, OSubLattice<T> dd)
+void read(BinaryReader& bin, const OSubLattice<T>& dd)
 {
   // Single node code
   const Subset& sub = dd.subset();
   const Set& set    = sub.getSet();
 
-  OLattice<T>& d = dd.field();
+  T* d = dd.getF();
+  const multi1d<int> where = sub_lattice_offsets(dd);
 
   const multi1d<int>& lat_color = set.latticeColoring();
   const int color = sub.color();
@@ -2237,7 +2251,7 @@ void read(BinaryReader& bin, OSubLattice<T> dd)
     int i = Layout::linearSiteIndex(site);
     if (lat_color[i] == color)
     {
-      bin.readArray((char*)&(d.elem(i)), 
+      bin.readArray((char*)(d + where[i]), 
 		    sizeof(typename WordType<T>::Type_t), 
 		    sizeof(T) / sizeof(typename WordType<T>::Type_t));
     }
-- 
2.43.0


From 7fff2b16bb833c5fdccfa575396f506d1d30a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 39/45] fix: archive boundary conditions are read as they are
 written

---
 lib/qdp_iogauge.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index 6706acf..478152b 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -421,6 +421,22 @@ static void readArchivHeader(BinaryReader& cfg_in, ArchivGauge_t& header)
       header.boundary[dd-1] = itmp;
     }
 
+    // The writer spells them out
+    char bc[max_line_length];
+    if ( line.length() < max_line_length && sscanf(line.c_str(), "BOUNDARY_%d = %s", &dd, bc) == 2 )
+    {
+      if (dd < 1 || dd > Nd)
+      {
+	QDPIO::cerr << __func__ << ": dimension number out of bounds" << std::endl;
+	QDP_abort(1);
+      }
+
+      if (std::string(bc) == "PERIODIC")
+	header.boundary[dd-1] = 1;
+      else if (std::string(bc) == "ANTIPERIODIC")
+	header.boundary[dd-1] = -1;
+    }
+
     if( token == std::string("FLOATING_POINT") )
     {
       if( value == std::string("IEEE32BIG") || value == std::string("IEEE32") ) 
-- 
2.43.0


From bf3130c17f8084b4654912c3c733a79c27d18484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 40/45] fix: an archive of full matrices says so in its header

---
 lib/qdp_iogauge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index 478152b..999f927 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -637,7 +637,7 @@ static void writeArchivHeader(BinaryWriter& cfg_out, const ArchivGauge_t& header
   head << "LINK_TRACE = " << header.link << "\n"
        << "PLAQUETTE = " << header.w_plaq << "\n";
 
-  head << "DATATYPE = 4D_SU3_GAUGE\n"
+  head << "DATATYPE = " << (header.mat_size == 2*Nc*Nc ? "4D_SU3_GAUGE_3x3" : "4D_SU3_GAUGE") << "\n"
        << "HDR_VERSION = 1.0\n"
        << "STORAGE_FORMAT = 1.0\n";
 
-- 
2.43.0


From ca977c47021d19f5194f670460164ed93813ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 41/45] fix: the parallel archive reader refuses short files

---
 lib/qdp_parscalar_specific.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/qdp_parscalar_specific.cc b/lib/qdp_parscalar_specific.cc
index 3298c3b..17c7ccf 100644
--- a/lib/qdp_parscalar_specific.cc
+++ b/lib/qdp_parscalar_specific.cc
@@ -1060,6 +1060,10 @@ namespace QDP {
 
     delete[] recv_buf;
 
+    if (cfg_in.fail()) {
+      QDP_error_exit("Error reading configuration");
+    }
+
     QDPInternal::broadcast(checksum);
 
     // Reconstruct the gauge field
-- 
2.43.0


From f009ee1294b5e9ab7190556a8ec7c0123a2fa705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:28 +0000
Subject: [PATCH 42/45] fix: global logical reductions act on the bool they are
 given

---
 include/qdp_parscalar_specific.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index ddddd52..1ffb04c 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -195,7 +195,7 @@ namespace QDPInternal
   //! Global And
   inline void globalCheckAnd(void* inout, void* in)
   {
-    *(unsigned int*)inout = *(unsigned int*)inout & *(unsigned int*)in;
+    *(bool*)inout = *(bool*)inout && *(bool*)in;
   }
 
   //! Wrapper to get a functional global And
@@ -209,7 +209,7 @@ namespace QDPInternal
   //! Global Or
   inline void globalCheckOr(void* inout, void* in)
   {
-    *(unsigned int*)inout = *(unsigned int*)inout | *(unsigned int*)in;
+    *(bool*)inout = *(bool*)inout || *(bool*)in;
   }
 
   //! Wrapper to get a functional global Or
-- 
2.43.0


From 303370e16d8d27769c9fd0be6d8d7bbef39a3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 43/45] fix: parallel field I/O follows the site order of the
 CB3D layout

---
 lib/qdp_parscalar_specific.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/qdp_parscalar_specific.cc b/lib/qdp_parscalar_specific.cc
index 17c7ccf..5449e4c 100644
--- a/lib/qdp_parscalar_specific.cc
+++ b/lib/qdp_parscalar_specific.cc
@@ -373,12 +373,23 @@ namespace QDP {
   };
 
 
+//-----------------------------------------------------------------------------
+// Number of consecutive sites, in the order of the file, that live on one node
+  static int consecutiveSites()
+  {
+#if QDP_USE_CB3D_LAYOUT == 1
+    return Layout::subgridLattSize()[Nd-1];    // here the last direction runs fastest
+#else
+    return Layout::subgridLattSize()[0];
+#endif
+  }
+
 //-----------------------------------------------------------------------------
 // Write a lattice quantity
   void writeOLattice(BinaryWriter& bin, 
 		     const char* output, size_t size, size_t nmemb)
   {
-    const int xinc = Layout::subgridLattSize()[0];
+    const int xinc = consecutiveSites();
 
     size_t sizemem = size*nmemb;
     size_t tot_size = sizemem*xinc;
@@ -492,7 +503,7 @@ namespace QDP {
     const multi1d<int>& lat_color = set.latticeColoring();
     const int color = sub.color();
 
-    const int xinc = Layout::subgridLattSize()[0];
+    const int xinc = consecutiveSites();
 
     size_t sizemem = size*nmemb;
     size_t max_tot_size = sizemem*xinc;
@@ -583,7 +594,7 @@ namespace QDP {
   void readOLattice(BinaryReader& bin, 
 		    char* input, size_t size, size_t nmemb)
   {
-    const int xinc = Layout::subgridLattSize()[0];
+    const int xinc = consecutiveSites();
 
     size_t sizemem = size*nmemb;
     size_t tot_size = sizemem*xinc;
@@ -682,7 +693,7 @@ namespace QDP {
     const multi1d<int>& lat_color = set.latticeColoring();
     const int color = sub.color();
 
-    const int xinc = Layout::subgridLattSize()[0];
+    const int xinc = consecutiveSites();
 
     size_t sizemem = size*nmemb;
     size_t max_tot_size = sizemem*xinc;
-- 
2.43.0


From 45ac20026d534308f35fe3f4b00c0cd95b4ce728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 44/45] fix: the ready message of parallel writes has its own
 buffer

---
 lib/qdp_parscalar_specific.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/qdp_parscalar_specific.cc b/lib/qdp_parscalar_specific.cc
index 5449e4c..c265761 100644
--- a/lib/qdp_parscalar_specific.cc
+++ b/lib/qdp_parscalar_specific.cc
@@ -411,7 +411,8 @@ namespace QDP {
       if (node != old_node)
       {
 	// On non-grid machines, use a clear-to-send like protocol
-	QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+	int ready = 0;                // recv_buf may be smaller than the message
+	QDPInternal::clearToSend(&ready,sizeof(int),node);
 	old_node = node;
       }
     
@@ -465,7 +466,8 @@ namespace QDP {
 
     // Send nodes must wait for a ready signal from the master node
     // to prevent message pileups on the master node
-    QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+    int ready = 0;                // recv_buf may be smaller than the message
+    QDPInternal::clearToSend(&ready,sizeof(int),node);
   
     // Copy to buffer: be really careful since max(linear) could vary among nodes
     if (Layout::nodeNumber() == node)
@@ -535,7 +537,8 @@ namespace QDP {
       if (node != old_node)
       {
 	// On non-grid machines, use a clear-to-send like protocol
-	QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+	int ready = 0;                // recv_buf may be smaller than the message
+	QDPInternal::clearToSend(&ready,sizeof(int),node);
 	old_node = node;
       }
     
@@ -879,7 +882,8 @@ namespace QDP {
 	// to prevent message pileups on the master node
 	if (node != old_node){
 	  // On non-grid machines, use a clear-to-send like protocol
-	  QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+	  int ready = 0;                // recv_buf may be smaller than the message
+	  QDPInternal::clearToSend(&ready,sizeof(int),node);
 	  old_node = node;}
     
 	// Copy to buffer: be really careful since max(linear) could vary among nodes
-- 
2.43.0


From bb768848869cfdc877238aa97ef19ce122494070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 45/45] fix: SSE reductions clear the partial results of
 threads without sites

---
 include/scalarsite_sse/qdp_scalarsite_sse_blas.h        | 4 ++++
 include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/scalarsite_sse/qdp_scalarsite_sse_blas.h b/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
index 5668c48..4148c00 100644
--- a/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
+++ b/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
@@ -2217,6 +2217,8 @@ norm2(const QDPType<TVec ,OLattice< TVec > >& s1, const Subset& s)
     arg.vptr = (REAL32*) &(s1.elem(s.start()).elem(0).elem(0).real());
     arg.results = ThreadReductions::norm2_results;
     arg.func = local_sumsq_24_48;
+    // Threads without sites leave their partial result untouched
+    for(int i=0; i < qdpNumThreads(); i++) arg.results[i] = 0;
     dispatch_to_threads(n_real, arg, ordered_norm_single_func);
     
     REAL64 ltmp=arg.results[0];
@@ -2263,6 +2265,8 @@ norm2(const QDPType<TVec ,OLattice< TVec > >& s1)
   arg.vptr = (REAL32*) &(s1.elem(all.start()).elem(0).elem(0).real());
   arg.results = ThreadReductions::norm2_results;
   arg.func = local_sumsq_24_48;
+  // Threads without sites leave their partial result untouched
+  for(int i=0; i < qdpNumThreads(); i++) arg.results[i] = 0;
   dispatch_to_threads(n_real, arg, ordered_norm_single_func);
   
     
diff --git a/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h b/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
index 97baf95..5430d3c 100644
--- a/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
+++ b/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
@@ -2572,6 +2572,8 @@ norm2(const QDPType<DVec ,OLattice< DVec > >& s1, const Subset& s)
     arg.vptr = (REAL64*)&(s1.elem(s.start()).elem(0).elem(0).real());
     arg.results = ThreadReductions::norm2_results;
     arg.func = local_sumsq4;
+    // Threads without sites leave their partial result untouched
+    for(int i=0; i < qdpNumThreads(); i++) arg.results[i] = 0;
     dispatch_to_threads(n4vec, arg, ordered_norm_double_func);
     REAL64 lsum=arg.results[0];
     for(int i=1; i < qdpNumThreads(); i++) { 
@@ -2630,6 +2632,8 @@ norm2(const QDPType<DVec ,OLattice< DVec > >& s1)
   arg.results = ThreadReductions::norm2_results;
 
 
+  // Threads without sites leave their partial result untouched
+  for(int i=0; i < qdpNumThreads(); i++) arg.results[i] = 0;
   dispatch_to_threads(n4vec, arg, ordered_norm_double_func);
 
   // Sum partial results
@@ -2672,6 +2676,8 @@ innerProduct(const QDPType< DVec, OLattice<DVec> > &v1,
     arg.func = local_vcdot4;
     arg.results = ThreadReductions::innerProd_results;
 
+    // Threads without sites leave their partial result untouched
+    for(int i=0; i < 2*qdpNumThreads(); i++) arg.results[i] = 0;
     dispatch_to_threads(n4vec, arg, ordered_inner_product_double_func);
     REAL64 ip[2] = { arg.results[0],arg.results[1] };
 
@@ -2741,6 +2747,8 @@ innerProduct(const QDPType< DVec, OLattice<DVec> > &v1,
     arg.func = local_vcdot4;
     arg.results = ThreadReductions::innerProd_results;
 
+    // Threads without sites leave their partial result untouched
+    for(int i=0; i < 2*qdpNumThreads(); i++) arg.results[i] = 0;
     dispatch_to_threads(n4vec, arg, ordered_inner_product_double_func);
     REAL64 ip[2] = { arg.results[0],arg.results[1] };
 
-- 
2.43.0

