From cabf81fe8f596c5189a3340bf4c3f7fef168ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 01/60] fix: programs that define TOON_TEST_INTERNALS compile
 again

Internal::SizeMismatch is the exception class in that configuration, so the
two uses of the checker class inside namespace Internal must be qualified.
---
 TooN/internal/allocator.hh | 2 +-
 TooN/internal/operators.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 4d0735b..262408c 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -235,7 +235,7 @@ template<class Precision> struct VectorAlloc<Dynamic, Precision>: public Default
 
 	void swap(VectorAlloc& v)
 	{	
-		SizeMismatch<Dynamic, Dynamic>::test(my_size, v.my_size);
+		TooN::SizeMismatch<Dynamic, Dynamic>::test(my_size, v.my_size);
 		std::swap(my_data, v.my_data);
 	}	
 
diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 07c3837..4858b13 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -724,7 +724,7 @@ namespace Internal
 		static void swap(V1& v1, V2& v2)
 		{
 			using std::swap;
-			SizeMismatch<V1::SizeParameter,V2::SizeParameter>::test(v1.size(), v2.size());
+			TooN::SizeMismatch<V1::SizeParameter,V2::SizeParameter>::test(v1.size(), v2.size());
 			for(int i=0; i < v1.size(); i++)
 				swap(v1[i], v2[i]);
 		}
-- 
2.43.0


From e6570a8a553e6120976aeae122557a34b46e0cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 02/60] fix: views of a Resizable vector have a Dynamic size

as_slice, as_row, as_col and as_diagonal used the Resizable marker itself as a
static size, so the views reported -2147483647 elements.
---
 TooN/internal/vbase.hh | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/TooN/internal/vbase.hh b/TooN/internal/vbase.hh
index 9ceb456..0d2ebcb 100644
--- a/TooN/internal/vbase.hh
+++ b/TooN/internal/vbase.hh
@@ -208,38 +208,41 @@ template<int Size, typename Precision, int Stride, typename Mem> struct GenericV
 	}
 		
 	//Other slices below
-	const Matrix<1, Size, const Precision, Slice<1,Stride> > as_row() const{
-		return Matrix<1, Size, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	//A view can not be resized, so a view of a Resizable vector has a Dynamic size.
+	static const int ViewSize = (Size==Resizable)?Dynamic:Size;
+
+	const Matrix<1, ViewSize, const Precision, Slice<1,Stride> > as_row() const{
+		return Matrix<1, ViewSize, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	Matrix<1, Size, Precision, Slice<1,Stride> > as_row(){
-		return Matrix<1, Size, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	Matrix<1, ViewSize, Precision, Slice<1,Stride> > as_row(){
+		return Matrix<1, ViewSize, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	const Matrix<Size, 1, const Precision, Slice<Stride,1> > as_col() const{
-		return Matrix<Size, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	const Matrix<ViewSize, 1, const Precision, Slice<Stride,1> > as_col() const{
+		return Matrix<ViewSize, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	Matrix<Size, 1, Precision, Slice<Stride,1> > as_col(){
-		return Matrix<Size, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	Matrix<ViewSize, 1, Precision, Slice<Stride,1> > as_col(){
+		return Matrix<ViewSize, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	typedef Vector<Size, Precision, SliceBase> as_slice_type;
+	typedef Vector<ViewSize, Precision, SliceBase> as_slice_type;
 	
-	Vector<Size, Precision, SliceBase> as_slice(){                 
-		return Vector<Size, Precision, SliceBase>(data(), size(), stride(), Slicing());         
+	Vector<ViewSize, Precision, SliceBase> as_slice(){                 
+		return Vector<ViewSize, Precision, SliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	const Vector<Size, const Precision, ConstSliceBase> as_slice() const {                 
-		return Vector<Size, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
+	const Vector<ViewSize, const Precision, ConstSliceBase> as_slice() const {                 
+		return Vector<ViewSize, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	DiagonalMatrix<Size,Precision, SliceBase> as_diagonal() {
-		return DiagonalMatrix<Size, Precision, SliceBase> (data(), size(), stride(), Slicing());
+	DiagonalMatrix<ViewSize,Precision, SliceBase> as_diagonal() {
+		return DiagonalMatrix<ViewSize, Precision, SliceBase> (data(), size(), stride(), Slicing());
 	}
 
-	const DiagonalMatrix<Size,const Precision, ConstSliceBase> as_diagonal() const {
-		return DiagonalMatrix<Size, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
+	const DiagonalMatrix<ViewSize,const Precision, ConstSliceBase> as_diagonal() const {
+		return DiagonalMatrix<ViewSize, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
 	}
 
 };
-- 
2.43.0


From b78fba5387604fa6bf2510c489df1c76d1e2bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 03/60] fix: Fill accepts exactly the number of elements for
 one-element vectors, single-column matrices and Resizable vectors

A one-element vector was rejected as overfilled; a matrix with one column had
its second value written one past the first row and a 1x1 matrix was reported
as underfilled; a Resizable vector did not compile.
---
 TooN/internal/comma.hh          | 8 ++++++--
 TooN/internal/overfill_error.hh | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index c6e2462..daf34d8 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -73,7 +73,7 @@ namespace Internal
 
 		VectorFiller<1, Size, P, B> operator=(const P& p)
 		{
-			Internal::CheckOverFill<1, Size>::check(v.size());
+			Internal::CheckOverFill<0, Size>::check(v.size());
 			v[0] = p;
 			return VectorFiller<1, Size, P, B>(v, 0);
 		}
@@ -133,7 +133,11 @@ namespace Internal
 		{
 			Internal::CheckMOverFill<0, R, C>::check(m.num_rows() * m.num_cols());
 			m[0][0] = p;
-			return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
+			//The second element is in the second row if there is only one column.
+			if(m.num_cols() == 1)
+				return MatrixFiller<1, R, C, P, B>(m, 0, 1, 0);
+			else
+				return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
 		}
 	};
 
diff --git a/TooN/internal/overfill_error.hh b/TooN/internal/overfill_error.hh
index 3d83895..003a202 100644
--- a/TooN/internal/overfill_error.hh
+++ b/TooN/internal/overfill_error.hh
@@ -61,6 +61,10 @@ template<int N> struct CheckOverFill<N, -1>
 	};
 };
 
+template<int N> struct CheckOverFill<N, Resizable>: public CheckOverFill<N, -1>
+{
+};
+
 
 template<int N, int R, int C, bool IsDynamic=(R==-1||C==-1)> struct CheckMOverFill
 {
-- 
2.43.0


From 0d884437ebaf31cbce0659eec300802941806ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 04/60] fix: Data fills every element of a matrix with a
 run-time size

The loops used the template sizes, which are -1 for Dynamic, so nothing was written.
---
 TooN/internal/data.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/data.hh b/TooN/internal/data.hh
index c8420a3..5c033df 100644
--- a/TooN/internal/data.hh
+++ b/TooN/internal/data.hh
@@ -43,8 +43,8 @@ namespace TooN{
 		void eval(Matrix<R, C, T, B>& m) const
 		{
 			SizeMismatch<(R==-1?-1:(C==-1?-1:(R*C))), N>:: test(m.num_rows()*m.num_cols(), N);
-			for(int r=0, n=0; r < R; r++)
-				for(int c=0; c < C; c++, n++)
+			for(int r=0, n=0; r < m.num_rows(); r++)
+				for(int c=0; c < m.num_cols(); c++, n++)
 					m[r][c] = vals[n];
 		}
 
-- 
2.43.0


From 620fe1187cc67b3b8e748830d811d99c2afb9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 05/60] fix: assigning a Resizable vector to itself keeps its
 values in debug-initialised builds

With TOON_INITIALIZE_NAN and the like, the assignment overwrote all elements
before reading them.
---
 TooN/internal/allocator.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 262408c..62a9e29 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -348,8 +348,9 @@ template<class Precision> struct VectorAlloc<Resizable, Precision>: public Defau
 
 		void try_destructive_resize(int newsize)
 		{
-			numbers.resize(newsize);
-			debug_initialize(data(), newsize);
+			//Existing elements must survive, since the value about to
+			//be assigned may be this vector itself, or a view of it.
+			resize(newsize);
 		}
 
 	public:
-- 
2.43.0


From d3b91b9cd72f58af69f7c502122e6926f8fa9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 06/60] fix: dividing a scaled Ones or Identity by an integer
 divides

It multiplied by the reciprocal computed in the quotient type, which for
integers is 0: Ones*4/2 gave 0.
---
 TooN/internal/objects.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 1518542..3d42894 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -688,11 +688,27 @@ operator*(const Operator<Op<Pl> >& l, const Pr&  r)
 	return l.template scale_me<typename Internal::MultiplyType<Pl, Pr>::type>(r); 
 }
 
+namespace Internal
+{
+	///@internal
+	///@brief Scale which divides, so that integers are not multiplied by a truncated reciprocal.
+	///@ingroup gInternal
+	template<class P> struct DivideBy
+	{
+		const P& val;
+		DivideBy(const P& v):val(v){}
+	};
+	template<class L, class P> typename DivideType<L, P>::type operator*(const L& l, const DivideBy<P>& r)
+	{
+		return l / r.val;
+	}
+}
+
 template<template<class> class Op, class Pl, class Pr> 
 Operator<Op<typename Internal::DivideType<Pl, Pr>::type > >
 operator/(const Operator<Op<Pl> >& l, const Pr&  r)
 {
-	return l.template scale_me<typename Internal::MultiplyType<Pl, Pr>::type, Pl>(static_cast<typename Internal::DivideType<Pl,Pr>::type>(1)/r); 
+	return l.template scale_me<typename Internal::DivideType<Pl, Pr>::type>(Internal::DivideBy<Pr>(r)); 
 }
 
 
-- 
2.43.0


From 864048bd3d95e10cdd39c44e4d5ee6c5ac2cafdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 07/60] fix: an unscaled Ones or Identity can be subtracted
 from a vector or matrix

v - Ones, m - Identity and m -= Identity did not compile, although the scaled
forms and Matrix - Ones do.
---
 TooN/internal/objects.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 3d42894..7127ce9 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -314,6 +314,14 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 			m[i][i] += (P)val;
 	}
 
+	template<int Rows, int Cols, typename P, typename B>
+	void minusequals(Matrix<Rows, Cols, P, B>& m) const
+	{
+		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
+		for(int i=0; i < m.num_rows(); i++)
+			m[i][i] -= (P)val;
+	}
+
 	template <int Rows, int Cols, typename P1, typename B1> 
 	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > add(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
@@ -322,10 +330,10 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
+	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
 		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
-		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> >(-val, m, 0);
+		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> >(-val, m, 0);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
@@ -509,9 +517,9 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	}
 
 	template <int Size, typename P1, typename B1> 
-	Operator<Internal::ScalarsVector<Size,P1,B1,Precision> > rsubtract(const Vector<Size, P1, B1>& v) const
+	Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> > rsubtract(const Vector<Size, P1, B1>& v) const
 	{
-		return Operator<Internal::ScalarsVector<Size,P1,B1,Precision> >(-s, v, 0);
+		return Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> >(-s, v, 0);
 	}
 
 	template <int Size, typename P1, typename B1> 
-- 
2.43.0


From 05e185d97ff997eb2b35f131a02a8f97ccaa0e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 08/60] fix: a slice whose start plus length overflows an int
 is rejected

---
 TooN/internal/slice_error.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/TooN/internal/slice_error.hh b/TooN/internal/slice_error.hh
index 9bba04d..00ddeaf 100644
--- a/TooN/internal/slice_error.hh
+++ b/TooN/internal/slice_error.hh
@@ -121,9 +121,10 @@ namespace Internal
 					std::abort();
 				}
 			#endif
-			if( N<Start>::n(start) + N<Length>::n(length) > N<Size>::n(size) || 
-			   N<Start>::n(start) < 0 ||
-			   N<Length>::n(length) < 0)
+			//Note that start+length may overflow, but size-length can not.
+			if( N<Start>::n(start) < 0 ||
+			   N<Length>::n(length) < 0 ||
+			   N<Start>::n(start) > N<Size>::n(size) - N<Length>::n(length))
 			{
 				#ifdef TOON_TEST_INTERNALS
 					throw Internal::SliceError();
-- 
2.43.0


From 5dd0e9e558f861c3a5a2f3c70e811a669a674ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 09/60] fix: a moved-from Vector<Dynamic> can be assigned, so
 standard algorithms work on containers of vectors

---
 TooN/internal/allocator.hh | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 62a9e29..c11a8cd 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -252,10 +252,23 @@ template<class Precision> struct VectorAlloc<Dynamic, Precision>: public Default
 		};
 
 		void try_destructive_resize(int)
-		{}
+		{
+			restore();
+		}
 
 		template<class Op> void try_destructive_resize(const Operator<Op>&) 
-		{}
+		{
+			restore();
+		}
+
+	private:
+
+		//A moved from vector has no storage. Assigning to it gives it some again.
+		void restore()
+		{
+			if(!my_data)
+				my_data = new Precision[my_size];
+		}
 };
 
 
-- 
2.43.0


From 64317e52a23e7dffa6fd01a8288f0c738638e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 10/60] fix: assigning a view of itself to a Resizable vector
 copies before its elements are discarded

---
 TooN/internal/vector.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/TooN/internal/vector.hh b/TooN/internal/vector.hh
index 1892831..dc944a6 100644
--- a/TooN/internal/vector.hh
+++ b/TooN/internal/vector.hh
@@ -275,6 +275,14 @@ public:
 	/// is resizable.
 	template<int Size2, typename Precision2, typename Base2>
 	Vector<Size,Precision,Base >& operator= (const Vector<Size2, Precision2, Base2>& from){
+		if(Size == Resizable && from.size() < size()) {
+			//from may be a view of this vector, so copy it before its elements are discarded.
+			for(int i=0; i<from.size(); i++)
+				(*this)[i]=from[i];
+			try_destructive_resize(from.size());
+			return *this;
+		}
+
 		try_destructive_resize(from.size());
 		SizeMismatch<Size,Size2>::test(size(), from.size());
 		const int s=size();
-- 
2.43.0


From 46ae0cedd70e0dc1b4a4f855aa15b516906eb076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 11/60] fix: SymEigen.h compiles when TOON_TEST_INTERNALS is
 defined

---
 TooN/SymEigen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 8c6d42f..564d282 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -63,8 +63,8 @@ namespace Internal{
 		template<int Rows, int Cols, typename P, typename B>
 		static inline void compute(const Matrix<Rows,Cols,P, B>& m, Matrix<Size,Size,P> & evectors, Vector<Size, P>& evalues) {
 
-			SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());	 //m must be square
-			SizeMismatch<Size, Rows>::test(m.num_rows(), evalues.size()); //m must be the size of the system
+			TooN::SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());	 //m must be square
+			TooN::SizeMismatch<Size, Rows>::test(m.num_rows(), evalues.size()); //m must be the size of the system
 			
 
 			evectors = m;
-- 
2.43.0


From c9d330d6de1b1555739b15e31f0425b22492116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 12/60] fix: gaussian_elimination with a vector and WLS reject
 operands of the wrong size before changing anything

---
 TooN/gaussian_elimination.h | 2 ++
 TooN/wls.h                  | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 870e7ec..617d1c2 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -43,6 +43,8 @@ namespace TooN {
 	inline Vector<N, Precision> gaussian_elimination (Matrix<N,N,Precision> A, Vector<N, Precision> b) {
 		using std::swap;
 		using std::abs;
+		SizeMismatch<N, N>::test(A.num_rows(), A.num_cols());
+		SizeMismatch<N, N>::test(A.num_rows(), b.size());
 
 		int size=b.size();
 
diff --git a/TooN/wls.h b/TooN/wls.h
index 0a6b33f..07bfc74 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -96,6 +96,7 @@ public:
 	/// @param weight The inverse variance of the measurement (default = 1)
 	template<class B2, class P2>
 	inline void add_mJ(Precision m, const Vector<Size, P2, B2>& J, Precision weight = 1) {
+		SizeMismatch<Size,Size>::test(my_C_inv.num_rows(), J.size());
 		
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
@@ -128,6 +129,7 @@ public:
 	inline void add_mJ(const Vector<N,Precision,B1>& m,
 					   const Matrix<Size,N,Precision,B2>& J,
 					   const Matrix<N,N,Precision,B3>& invcov){
+		SizeMismatch<N,N>::test(m.size(), J.num_cols());
 		const Matrix<Size,N,Precision> temp =  J * invcov;
 		my_C_inv += temp * J.T();
 		my_vector += temp * m;
@@ -141,6 +143,7 @@ public:
 	inline void add_mJ_rows(const Vector<N,Precision,B1>& m,
 					   const Matrix<N,Size,Precision,B2>& J,
 					   const Matrix<N,N,Precision,B3>& invcov){
+		SizeMismatch<N,N>::test(m.size(), J.num_rows());
 		const Matrix<Size,N,Precision> temp =  J.T() * invcov;
 		my_C_inv += temp * J;
 		my_vector += temp * m;
@@ -174,6 +177,7 @@ public:
 	inline void add_sparse_mJ_rows(const Vector<N,P1,B1>& m,
 					   const Matrix<N,S1,P2,B2>& J1, const int index1,
 					   const Matrix<N,N,P3,B3>& invcov){
+		SizeMismatch<N,N>::test(m.size(), J1.num_rows());
 		const Matrix<S1,N,Precision> temp1 = J1.T() * invcov;
 		const int size1 = J1.num_cols();
 		my_C_inv.slice(index1, index1, size1, size1) += temp1 * J1;
@@ -192,6 +196,7 @@ public:
 					   const Matrix<N,S1,Precision,B2>& J1, const int index1,
 					   const Matrix<N,S2,Precision,B3>& J2, const int index2,
 					   const Matrix<N,N,Precision,B4>& invcov){
+		SizeMismatch<N,N>::test(m.size(), J1.num_rows());
 		const Matrix<S1,N,Precision> temp1 = J1.T() * invcov;
 		const Matrix<S2,N,Precision> temp2 = J2.T() * invcov;
 		const Matrix<S1,S2,Precision> mixed = temp1 * J2;
-- 
2.43.0


From 8efcda10c6a946c8b7021ddcbb4f112a35f7d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 13/60] fix: IRLS accumulates the true inverse covariance and
 residual; RobustII::true_scale is w(x)+xw'(x)

---
 TooN/irls.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 3318fc3..556df5e 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -57,7 +57,7 @@ namespace TooN {
 		void set_sd(Precision x){ sd_inlier = x*x;} ///<Set the noise standard deviation.
 		Precision sd_inlier; ///< The inlier standard deviation squared, \f$\sigma\f$.
 		inline Precision reweight(Precision d){return 1/(sd_inlier+d*d);} ///< Returns \f$w(x)\f$.
-		inline Precision true_scale(Precision d){return d - 2*d*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
+		inline Precision true_scale(Precision d){return reweight(d) - 2*d*d*reweight(d)*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
 		inline Precision objective(Precision d){return 0.5 * ::log(1 + d*d/sd_inlier);} ///< Returns \f$\int xw(x)dx\f$.
 	};
 
@@ -122,17 +122,18 @@ namespace TooN {
 			Precision ts = Reweight<Precision>::true_scale(m);
 			my_residual += Reweight<Precision>::objective(m);
 
-			WLS<Size>::add_mJ(m,J,scale);
+			WLS<Size,Precision>::add_mJ(m,J,scale);
 
-			Vector<Size,Precision> scaledm(m*ts);
+			const Vector<Size,Precision> scaledJ = J*ts;
 
-			my_true_C_inv += scaledm.as_col() * scaledm.as_row();
+			my_true_C_inv += scaledJ.as_col() * J.as_row();
 
 		}
 
 		void operator += (const IRLS& meas){
-			WLS<Size>::operator+=(meas);
+			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
+			my_residual += meas.my_residual;
 		}
 
 
-- 
2.43.0


From abc09b7ed9930f5bca0a14f898778689d2a52fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 14/60] fix: assigning a diagonal matrix to a matrix of another
 size is rejected before the matrix is cleared

---
 TooN/internal/diagmatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index a0ec756..7a46c46 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -76,7 +76,8 @@ namespace TooN {
 		///@{
 		template<int R, int C, class P, class B>
 		void eval(Matrix<R,C,P,B>& m) const {
-			SizeMismatch<Size, Size>::test(m.num_rows(), m.num_cols());
+			SizeMismatch<Size, R>::test(my_vector.size(), m.num_rows());
+			SizeMismatch<Size, C>::test(my_vector.size(), m.num_cols());
 			m = Zeros;
 			m.diagonal_slice() = my_vector;
 		}
-- 
2.43.0


From b4cdf09ddb94badd90da11312cb0bb297897b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 15/60] fix: DiagonalMatrix::diagonal_slice() const compiles

---
 TooN/internal/diagmatrix.h | 2 +-
 TooN/internal/vbase.hh     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index 7a46c46..3a760ba 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -150,7 +150,7 @@ public:
 	}
 
 	///Return the leading diagonal as a vector.
-	const typename Vector<Size, Precision, Base>::as_slice_type diagonal_slice() const {
+	const typename Vector<Size, Precision, Base>::const_as_slice_type diagonal_slice() const {
 		return this->my_vector.as_slice();
 	}
 
diff --git a/TooN/internal/vbase.hh b/TooN/internal/vbase.hh
index 0d2ebcb..0b7b166 100644
--- a/TooN/internal/vbase.hh
+++ b/TooN/internal/vbase.hh
@@ -228,6 +228,7 @@ template<int Size, typename Precision, int Stride, typename Mem> struct GenericV
 	}
 
 	typedef Vector<ViewSize, Precision, SliceBase> as_slice_type;
+	typedef Vector<ViewSize, const Precision, ConstSliceBase> const_as_slice_type;
 	
 	Vector<ViewSize, Precision, SliceBase> as_slice(){                 
 		return Vector<ViewSize, Precision, SliceBase>(data(), size(), stride(), Slicing());         
-- 
2.43.0


From 37cec678822e218b3fab41d3aeba79359d7deca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 16/60] fix: gaussian_elimination with a vector computes in the
 matrix's own precision

---
 TooN/gaussian_elimination.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 617d1c2..06d75cc 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -53,7 +53,7 @@ namespace TooN {
 			Precision maxval = abs(A[i][i]);
 			
 			for (int ii=i+1; ii<size; ++ii) {
-				double v =  abs(A[ii][i]);
+				Precision v =  abs(A[ii][i]);
 				if (v > maxval) {
 					maxval = v;
 					argmax = ii;
@@ -73,7 +73,7 @@ namespace TooN {
 			b[i] *= inv_pivot;
 			
 			for (int u=i+1; u<size; ++u) {
-				double factor = A[u][i];
+				Precision factor = A[u][i];
 				//A[u][i] = 0;
 				for (int j=i+1; j<size; ++j)
 					A[u][j] -= factor * A[i][j];
-- 
2.43.0


From 5a55943ca36b30943abe2f7a8a658428147786bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 17/60] fix: gauss_jordan computes in the matrix's own
 precision

---
 TooN/gauss_jordan.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/gauss_jordan.h b/TooN/gauss_jordan.h
index fb5fdb8..5547d65 100644
--- a/TooN/gauss_jordan.h
+++ b/TooN/gauss_jordan.h
@@ -64,7 +64,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 		{
 		  using std::abs;
 			int pivotpos = col;
-			double pivotval = abs(m[pivotpos][col]);
+			Precision pivotval = abs(m[pivotpos][col]);
 			for(int p=col+1; p <m.num_rows(); p++)
 			  if(abs(m[p][col]) > pivotval)
 				{
@@ -82,7 +82,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 		{
 			if(row != col)
 			{
-				double multiple = m[row][col] / m[col][col];
+				Precision multiple = m[row][col] / m[col][col];
 		
 				//We could eliminate some of the computations in the augmented
 				//matrix, if the augmented half is the identity. In general, it
@@ -102,7 +102,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 	//square matrix, since it is diagonal, and ends up as the identity.
 	for(int row=0;row < m.num_rows(); row++)
 	{
-		double mul = 1/m[row][row];
+		Precision mul = 1/m[row][row];
 
 		m[row][row] = 1;
 
-- 
2.43.0


From 247a73bb3be9176d00d51fce83a47bb136c5f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 18/60] fix: LU::backsub of a matrix with a run-time number of
 columns undoes the row exchanges

---
 TooN/LU.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 9146de7..8c4dbc2 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -115,7 +115,7 @@ class LU {
 		// now do the row swapping (lapack dlaswp.f only shuffles fortran rows = Rowmajor cols)
 		for(int i=N-1; i>=0; i--){
 			const int swaprow = my_IPIV[i]-1; // fortran arrays start at 1
-			for(int j=0; j<NRHS; j++){
+			for(int j=0; j<result.num_cols(); j++){
 				Precision temp = result[i][j];
 				result[i][j] = result[swaprow][j];
 				result[swaprow][j] = temp;
-- 
2.43.0


From 01f79141361e82b4ca0a7d71e79a171f6199d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 19/60] fix: LU<N, float>::backsub passes the scale factor to
 LAPACK in the right precision

---
 TooN/LU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 8c4dbc2..d52f72d 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -106,7 +106,7 @@ class LU {
 
 		FortranInteger M=rhs.num_cols();
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=rhs.num_cols();
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0][0],&ldb);
@@ -135,7 +135,7 @@ class LU {
 
 		FortranInteger M=1;
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=1;
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0],&ldb);
-- 
2.43.0


From 8530aff489607caeb2b52f067b940d8da0050662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 20/60] fix: the documentation of LU::get_lu names the factors
 that it returns

---
 TooN/LU.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index d52f72d..26be598 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -43,8 +43,8 @@ The %LU decomposition is the fastest way of solving the equation
 \f$M\f$ is (nearly) singular (in which cases the SymEigen or SVD decompositions
 are better). It decomposes a matrix \f$M\f$ into
 \f[M = L \times U\f]
-where \f$L\f$ is a lower-diagonal matrix with unit diagonal and \f$U\f$ is an 
-upper-diagonal matrix. The library only supports the decomposition of square matrices.
+where \f$L\f$ is a lower-diagonal matrix and \f$U\f$ is an 
+upper-diagonal matrix with unit diagonal. The library only supports the decomposition of square matrices.
 It can be used as follows to solve the \f$M\underline{x} = \underline{c}\f$ problem as follows:
 @code
   // construct M
@@ -168,10 +168,10 @@ class LU {
 	}
 
 	/// Returns the L and U matrices. The permutation matrix is not returned.
-	/// Since L is lower-triangular (with unit diagonal)
-	/// and U is upper-triangular, these are returned conflated into one matrix, where the 
-	/// diagonal and above parts of the matrix are U and the below-diagonal part, plus a unit diagonal, 
-	/// are L.
+	/// Since L is lower-triangular and U is upper-triangular (with unit diagonal), these are
+	/// returned conflated into one matrix, where the diagonal and below parts of the matrix are
+	/// L and the above-diagonal part, plus a unit diagonal, are U. \f$L \times U\f$ is
+	/// \f$M\f$ with its columns permuted.
 	const Matrix<Size,Size,Precision>& get_lu()const {return my_lu;}
 	
 	private:
-- 
2.43.0


From 99d025b3e51c9fe8313492cd73821d483c43d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 21/60] fix: SymEigen<2> pairs eigenvectors with eigenvalues
 when the matrix is (nearly) diagonal

---
 TooN/SymEigen.h | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 564d282..88d88bb 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -103,22 +103,24 @@ namespace Internal{
 		///@param ev Eigen values output
 		template<typename P, typename B>
 		static inline void compute(const Matrix<2,2,P,B>& m, Matrix<2,2,P>& eig, Vector<2, P>& ev) {
-			double trace = m[0][0] + m[1][1];
 			//Only use the upper triangular elements.
-			double det = m[0][0]*m[1][1] - m[0][1]*m[0][1]; 
-			double disc = trace*trace - 4 * det;
-			
-			//Mathematically, disc >= 0 always.
-			//Numerically, it can drift very slightly below zero.
-			if(disc < 0)
-				disc = 0;
+			//The eigenvalues are mean +- r.
+			double mean = 0.5 * (m[0][0] + m[1][1]);
+			double d = 0.5 * (m[0][0] - m[1][1]);
+			double b = m[0][1];
 
 			using std::sqrt;
-			double root_disc = sqrt(disc);
-			ev[0] = 0.5 * (trace - root_disc);
-			ev[1] = 0.5 * (trace + root_disc);
-			double a = m[0][0] - ev[0];
-			double b = m[0][1];
+			double r = sqrt(d*d + b*b);
+			ev[0] = mean - r;
+			ev[1] = mean + r;
+
+			//a = m[0][0] - ev[0] = d + r, and b*b = (r+d)*(r-d). Use whichever
+			//form is free of cancellation.
+			double a = 0;
+			if(d > 0)
+				a = r + d;
+			else if(r > 0)
+				a = b*b/(r - d);
 			double magsq = a*a + b*b;
 			if (magsq == 0) {
 				eig[0][0] = 1.0;
-- 
2.43.0


From a8c47d1bf33a6c6378ca3b5c2fa49b91f0c2a63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 22/60] fix: SymEigen<3> is accurate for repeated eigenvalues,
 any scale and the zero matrix

---
 TooN/SymEigen.h | 251 +++++++++++++-----------------------------------
 1 file changed, 69 insertions(+), 182 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 88d88bb..9573402 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -148,206 +148,93 @@ namespace Internal{
 		///@param ev Eigen values output
 		template<typename P, typename B>
 		static inline void compute(const Matrix<3,3,P,B>& m, Matrix<3,3,P>& eig, Vector<3, P>& ev) {
-            //method uses closed form solution of cubic equation to obtain roots of characteristic equation.
-            using std::sqrt;
-            using std::min;
-            using std::swap;
-            
-			double a_norm = norm_1(m);
-			double eps = 1e-7 * a_norm;
+			//The roots of the characteristic polynomial of a matrix with zero trace and unit 
+			//scale have a closed form. That is accurate for the root which is well separated 
+			//from the other two. Use that root and its eigenvector to reduce the problem to 2x2.
+			using std::sqrt;
+			using std::acos;
+			using std::cos;
+			using std::swap;
+
+			//Only use the upper triangular elements.
+			Matrix<3> A = TooN::Data(m[0][0], m[0][1], m[0][2],
+			                         m[0][1], m[1][1], m[1][2],
+			                         m[0][2], m[1][2], m[2][2]);
 
+			double a_norm = norm_1(A);
 			if(a_norm == 0)
 			{
 				eig = TooN::Identity;
+				ev = TooN::Zeros;
 				return;
 			}
 
-            //Polynomial terms of |a - l * Identity|
-            //l^3 + a*l^2 + b*l + c
-
-            const double& a11 = m[0][0];
-            const double& a12 = m[0][1];
-            const double& a13 = m[0][2];
-
-            const double& a22 = m[1][1];
-            const double& a23 = m[1][2];
-
-            const double& a33 = m[2][2];
-
-            //From matlab:
-            double a = -a11-a22-a33;
-            double b = a11*a22+a11*a33+a22*a33-a12*a12-a13*a13-a23*a23;
-            double c = a11*(a23*a23)+(a13*a13)*a22+(a12*a12)*a33-a12*a13*a23*2.0-a11*a22*a33;
-
-            //Using Cardano's method:
-            double p = b - a*a/3;
-            double q = c + (2*a*a*a - 9*a*b)/27;
-
-            double alpha = -q/2;
-
-            //beta_descriminant <= 0 for real roots!
-			//force to zero to avoid nasty rounding issues.
-            double beta_descriminant = std::min(0.0, q*q/4 + p*p*p/27);
-
-            double beta = sqrt(-beta_descriminant);
-            double r2 = alpha*alpha  - beta_descriminant;
-
-            ///Need A,B = cubert(alpha +- beta)
-            ///Turn in to r, theta
-            /// r^(1/3) * e^(i * theta/3)
-            double cuberoot_r = pow(r2, 1./6);
-
-            double theta3 = atan2(beta, alpha)/3;
-
-            double A_plus_B = 2*cuberoot_r*cos(theta3);
-            double A_minus_B = -2*cuberoot_r*sin(theta3);
-
-            //calculate eigenvalues
-            ev =  makeVector(A_plus_B, -A_plus_B/2 + A_minus_B * sqrt(3)/2, -A_plus_B/2 - A_minus_B * sqrt(3)/2) - Ones * a/3;
-
-            if(ev[0] > ev[1])
-                swap(ev[0], ev[1]);
-            if(ev[1] > ev[2])
-                swap(ev[1], ev[2]);
-            if(ev[0] > ev[1])
-                swap(ev[0], ev[1]);
-
-			// for the vector [x y z]
-			// eliminate to compute the ratios x/z and y/z
-			// in both cases, the denominator is the same, so in the absence of
-			// any other scaling, choose the denominator to be z and 
-			// tne numerators to be x and y.
-			//
-			// x/z and y/z,  implies ax, ay, az which vanishes
-			// if a=0
-            //calculate the eigenvectors
-            eig[0][0]=a12 * a23 - a13 * (a22 - ev[0]);
-            eig[0][1]=a12 * a13 - a23 * (a11 - ev[0]);
-            eig[0][2]=(a11-ev[0])*(a22-ev[0]) - a12*a12;
-            eig[1][0]=a12 * a23 - a13 * (a22 - ev[1]);
-            eig[1][1]=a12 * a13 - a23 * (a11 - ev[1]);
-            eig[1][2]=(a11-ev[1])*(a22-ev[1]) - a12*a12;
-            eig[2][0]=a12 * a23 - a13 * (a22 - ev[2]);
-            eig[2][1]=a12 * a13 - a23 * (a11 - ev[2]);
-            eig[2][2]=(a11-ev[2])*(a22-ev[2]) - a12*a12;
-			
-			//Check to see if we have any zero vectors
-			double e0norm = norm_1(eig[0]);
-			double e1norm = norm_1(eig[1]);
-			double e2norm = norm_1(eig[2]);
-
-			//Some of the vectors vanish: we're computing
-			// x/z and y/z, which implies ax, ay, az which vanishes
-			// if a=0;
-			//
-			// So compute the other two choices.
-			if(e0norm < eps)
-			{
-				eig[0][0] += a12 * (ev[0] - a33) + a23 * a13;
-				eig[0][1] += (ev[0]-a11)*(ev[0]-a33) - a13*a13;
-				eig[0][2] += a23 * (ev[0] - a11) + a12 * a13;
-				e0norm = norm_1(eig[0]);
-			}
-
-			if(e1norm < eps)
-			{
-				eig[1][0] += a12 * (ev[1] - a33) + a23 * a13;
-				eig[1][1] += (ev[1]-a11)*(ev[1]-a33) - a13*a13;
-				eig[1][2] += a23 * (ev[1] - a11) + a12 * a13;
-				e1norm = norm_1(eig[1]);
-			}
-
-			if(e2norm < eps)
-			{
-				eig[2][0] += a12 * (ev[2] - a33) + a23 * a13;
-				eig[2][1] += (ev[2]-a11)*(ev[2]-a33) - a13*a13;
-				eig[2][2] += a23 * (ev[2] - a11) + a12 * a13;
-				e2norm = norm_1(eig[2]);
-			}
+			A /= a_norm;
+			double mean = (A[0][0] + A[1][1] + A[2][2])/3;
+			Matrix<3> D = A - mean * TooN::Identity;
+			double scale = sqrt((norm_sq(D[0]) + norm_sq(D[1]) + norm_sq(D[2]))/6);
 
+			//The separated eigenvector, w.
+			Vector<3> w = makeVector(1, 0, 0);
 
-			//OK, a AND b might be 0
-			//Check for vanishing and add in y/x, z/x which implies cx, cy, cz
-			if(e0norm < eps)
+			if(scale > 0)
 			{
-				eig[0][0] +=(ev[0]-a22)*(ev[0]-a33) - a23*a23;
-				eig[0][1] +=a12 * (ev[0] - a33) + a23 * a13;
-				eig[0][2] +=a13 * (ev[0] - a22) + a23 * a12;
-				e0norm = norm_1(eig[0]);
-			}
+				D /= scale;
 
-			if(e1norm < eps)
-			{
-				eig[1][0] +=(ev[1]-a22)*(ev[1]-a33) - a23*a23;
-				eig[1][1] +=a12 * (ev[1] - a33) + a23 * a13;
-				eig[1][2] +=a13 * (ev[1] - a22) + a23 * a12;
-				e1norm = norm_1(eig[1]);
-			}
+				//det(D)/2 = cos 3 theta
+				double half_det = D[0] * (D[1] ^ D[2]) / 2;
+				half_det = half_det > 1 ? 1 : half_det < -1 ? -1 : half_det;
+				double separated = half_det >= 0 ? 2*cos(acos(half_det)/3) : -2*cos(acos(-half_det)/3);
 
-			if(e2norm < eps)
-			{
-				eig[2][0] +=(ev[2]-a22)*(ev[2]-a33) - a23*a23;
-				eig[2][1] +=a12 * (ev[2] - a33) + a23 * a13;
-				eig[2][2] +=a13 * (ev[2] - a22) + a23 * a12;
-				e2norm = norm_1(eig[2]);
-			}
-
-			//Oh, COME ON!!!
-			if(e0norm < eps || e1norm < eps || e2norm < eps)
-			{
-				//This is blessedly rare
-		
-				double ns[] = {e0norm, e1norm, e2norm};
-				double is[] = {0, 1, 2};
-				
-				//Sort them
-				if(ns[0] > ns[1])
-				{
-					swap(ns[0], ns[1]);
-					swap(is[0], is[1]);
-				}
-				if(ns[1] > ns[2])
-				{
-					swap(ns[1], ns[2]);
-					swap(is[1], is[2]);
-				}
-				if(ns[0] > ns[1])
+				//The rows of D - separated*I are orthogonal to w.
+				D -= separated * TooN::Identity;
+				for(int i=0; i < 3; i++)
 				{
-					swap(ns[0], ns[1]);
-					swap(is[0], is[1]);
+					Vector<3> c = D[i] ^ D[(i+1)%3];
+					if(i == 0 || norm_sq(c) > norm_sq(w))
+						w = c;
 				}
+				normalize(w);
+			}
 
-
-				if(ns[1] >= eps)
+			//An orthonormal basis of the space orthogonal to w.
+			int smallest = 0;
+			for(int i=1; i < 3; i++)
+				if(w[i]*w[i] < w[smallest]*w[smallest])
+					smallest = i;
+			Vector<3> u = Zeros;
+			u[smallest] = 1;
+			u = unit(w ^ u);
+			Vector<3> v = w ^ u;
+
+			//The remaining 2x2 problem
+			Matrix<2> M2, eig2;
+			Vector<2> ev2;
+			M2[0][0] = u * (A * u);
+			M2[0][1] = M2[1][0] = u * (A * v);
+			M2[1][1] = v * (A * v);
+			ComputeSymEigen<2>::compute(M2, eig2, ev2);
+
+			ev[0] = a_norm * ev2[0];
+			ev[1] = a_norm * ev2[1];
+			ev[2] = a_norm * (w * (A * w));
+			eig[0] = eig2[0][0] * u + eig2[0][1] * v;
+			eig[1] = eig2[1][0] * u + eig2[1][1] * v;
+			eig[2] = w;
+
+			//The first two are in order already
+			for(int i=1; i >= 0; i--)
+				if(ev[i] > ev[i+1])
 				{
-					//one small one. Use the cross product of the other two
-					normalize(eig[1]);
-					normalize(eig[2]);
-					eig[is[0]] = eig[is[1]]^eig[is[2]];
+					swap(ev[i], ev[i+1]);
+					swap(eig[i].ref(), eig[i+1].ref());
 				}
-				else if(ns[2] >= eps)
-				{
-					normalize(eig[is[2]]);
-					
-					//Permute vector to get a new vector with some orthogonal components.
-					Vector<3> p = makeVector(eig[is[2]][1], eig[is[2]][2], eig[is[2]][0]);
 
-					//Gram-Schmit
-					Vector<3> v1 = unit(p - eig[is[2]] * (p * eig[is[2]]));
-					Vector<3> v2 = v1^eig[is[2]];
-
-					eig[is[0]] = v1;
-					eig[is[1]] = v2;
-				}
-				else
-					eig = TooN::Identity;
-			}
-			else
-			{
-  				normalize(eig[0]);
-  				normalize(eig[1]);
-  				normalize(eig[2]);
-			}
+			//The determinant of the leading 2x2 minor of m - ev[i]*I is not negative, not 
+			//positive and not negative, in order. That is the sign of the last elements.
+			for(int i=0; i < 3; i++)
+				if(i == 1 ? eig[i][2] > 0 : eig[i][2] < 0)
+					eig[i] *= -1;
 		}
 	};
 
-- 
2.43.0


From f33702530d9d5c55d79ef62f58b0ad0d9f6794f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 23/60] fix: SVD::rank counts the singular values above the
 condition threshold

---
 TooN/SVD.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/TooN/SVD.h b/TooN/SVD.h
index e22a437..b6385b4 100644
--- a/TooN/SVD.h
+++ b/TooN/SVD.h
@@ -220,10 +220,9 @@ public:
 	/// Calculate the rank of the matrix.
 	/// See the detailed description of the pseudo-inverse and condition variables.
 	int rank(const Precision condition = condition_no) {
-		if (my_diagonal[0] == 0) return 0;
-		int result=1;
+		int result=0;
 		for(int i=0; i<min_dim(); i++){
-			if(my_diagonal[i] * condition <= my_diagonal[0]){
+			if(my_diagonal[i] * condition > my_diagonal[0]){
 				result++;
 			}
 		}
-- 
2.43.0


From 2a346009027ca305460f79c5969f1a396d45d145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 24/60] fix: GR_SVD backsub and get_pinv compile for every
 precision

---
 TooN/GR_SVD.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/GR_SVD.h b/TooN/GR_SVD.h
index dedff91..ff65b2a 100644
--- a/TooN/GR_SVD.h
+++ b/TooN/GR_SVD.h
@@ -77,7 +77,7 @@ namespace TooN
     ///otherwise 0 is returned.
     ///@param inv_diag Vector in which to return the inverse diagonal.
     ///@param condition Elements must be larger than this factor times the largest diagonal element to be considered well scaled. 
-    void get_inv_diag(Vector<N>& inv_diag, const Precision condition)
+    void get_inv_diag(Vector<N, Precision>& inv_diag, const Precision condition)
     {
       Precision dMax = get_largest_singular_value();
       for(int i=0; i<N; ++i)
-- 
2.43.0


From 4611dbc1e8d29f2e517e68e47d5d5f41d1696602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 25/60] fix: QR of a matrix with an already reduced column is
 not NaN, and nearly reduced columns keep Q orthogonal

---
 TooN/QR.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/TooN/QR.h b/TooN/QR.h
index 10b33c3..3daeafe 100644
--- a/TooN/QR.h
+++ b/TooN/QR.h
@@ -153,6 +153,12 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 				//
 				//let a = |x| * sgn(x_0])
 
+				Precision tail = norm_sq(s.T()[0].slice(1, sz-1));
+
+				//The column is reduced already: there is nothing to reflect
+				if(tail == 0)
+					continue;
+
 				Precision  nx2 = norm_sq(s.T()[0]);
 
 				Precision a = sqrt(nx2) * (s.T()[0][0] < 0?-1:1);
@@ -162,8 +168,9 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 				// Multipling (I - 2 hat(u) * hat(u)^T) * s will zero out the first column of s except
 				// for the first element. The matrix P = is orthogonal, a bit like Qn 
 				//
-				//Since x is no longer needed, we can just modify the first element
-				s.T()[0][0] -= a;
+				//Since x is no longer needed, we can just modify the first element.
+				//x_0 - a = -(|x|^2 - x_0^2) / (x_0 + a), which does not cancel.
+				s.T()[0][0] = -tail / (s.T()[0][0] + a);
 				//auto& u = x;
 
 				//We want H = norm_sq(u)/2 =  a (a - x_0) = a * -u_0
-- 
2.43.0


From 160489673142f10410b6cb349b5b9da5bcdfb73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 26/60] fix: Lapack_Cholesky considers the lower half of the
 matrix, as documented

---
 TooN/Lapack_Cholesky.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/TooN/Lapack_Cholesky.h b/TooN/Lapack_Cholesky.h
index a59240d..6e555f9 100644
--- a/TooN/Lapack_Cholesky.h
+++ b/TooN/Lapack_Cholesky.h
@@ -94,11 +94,12 @@ public:
 	void do_compute(){
 		FortranInteger N = my_cholesky.num_rows();
 		FortranInteger info;
-		potrf_("L", &N, my_cholesky_lapack.my_data, &N, &info);
+		//The lower half of a row major matrix is the upper half in FORTRAN
+		potrf_("U", &N, my_cholesky_lapack.my_data, &N, &info);
 		for (int i=0;i<N;i++) {
 		  int j;
 		  for (j=0;j<=i;j++) {
-		    my_cholesky[i][j]=my_cholesky_lapack[j][i];
+		    my_cholesky[i][j]=my_cholesky_lapack[i][j];
 		  }
 		  // LAPACK does not set upper triangle to zero, 
 		  // must be done here
@@ -124,7 +125,7 @@ public:
 		FortranInteger N=my_cholesky.num_rows();
 		FortranInteger NRHS=1;
 		FortranInteger info;
-		potrs_("L", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
+		potrs_("U", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
 		assert(info==0);
 		return result;
 	}
@@ -137,7 +138,7 @@ public:
 		FortranInteger N=my_cholesky.num_rows();
 		FortranInteger NRHS=m.num_cols();
 		FortranInteger info;
-		potrs_("L", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
+		potrs_("U", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
 		assert(info==0);
 		return result;
 	}
@@ -163,11 +164,11 @@ public:
 		M=my_cholesky_lapack;
 		FortranInteger N = my_cholesky.num_rows();
 		FortranInteger info;
-		potri_("L", &N, M.my_data, &N, &info);
+		potri_("U", &N, M.my_data, &N, &info);
 		assert(info == 0);
 		for (int i=1;i<N;i++) {
 		  for (int j=0;j<i;j++) {
-		    M[i][j]=M[j][i];
+		    M[j][i]=M[i][j];
 		  }
 		}
 		return M;
-- 
2.43.0


From 6d71777808fc9b1df55b40f848935c624f7d8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 27/60] fix: the documentation of QR_Lapack::get_P states its
 direction

---
 TooN/QR_Lapack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/QR_Lapack.h b/TooN/QR_Lapack.h
index 67f1fd0..3fd35fd 100644
--- a/TooN/QR_Lapack.h
+++ b/TooN/QR_Lapack.h
@@ -89,8 +89,8 @@ class QR_Lapack{
 			return Q;
 		}	
 
-		///Return the permutation vector. The definition is that column \f$i\f$ of A is
-		///column \f$P(i)\f$ of \f$QR\f$.
+		///Return the permutation vector. The definition is that column \f$i\f$ of 
+		///\f$QR\f$ is column \f$P(i)\f$ of A.
 		const Vector<Cols, int>& get_P()
 		{
 			return pivot;
-- 
2.43.0


From 8cc25b01dfe77e37cf4954d77038ab9d4ec53b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 28/60] fix: the documentation of SymEigen states the order of
 the eigenvectors

---
 TooN/SymEigen.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 9573402..172d11b 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -342,8 +342,8 @@ public:
 	}
 
 	/// Calculates the reciprocals of the eigenvalues of the matrix.
-	/// The vector <code>invdiag</code> lists the eigenvalues in order, from
-	/// the largest (i.e. smallest reciprocal) to the smallest.
+	/// The vector <code>invdiag</code> lists the reciprocals in the order of
+	/// the eigenvalues, from the smallest eigenvalue to the largest.
 	/// These are also the diagonal values of the matrix \f$Lambda^{-1}\f$.
 	/// Any eigenvalues which are too small are set to zero (see the SVD
 	/// detailed description for a description of the and condition variables).
@@ -363,8 +363,8 @@ public:
 	/// Returns the eigenvectors of the matrix.
 	/// This returns \f$U^T\f$, so that the rows of the matrix are the eigenvectors,
 	/// which can be extracted using usual Matrix::operator[]() subscript operator.
-	/// They are returned in order of the size of the corresponding eigenvalue, i.e.
-	/// the vector with the largest eigenvalue is first.
+	/// They are returned in order of the corresponding eigenvalue, i.e.
+	/// the vector with the smallest eigenvalue is first.
 	Matrix<Size,Size,Precision>& get_evectors() {return my_evectors;}
 
 	/**\overload
-- 
2.43.0


From db940dd962c06c81ef8d43aa24b6231f9c89cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 29/60] fix: SymEigen<2> and SymEigen<3> accept matrices with
 run-time sizes, as the other sizes do

---
 TooN/SymEigen.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 172d11b..772e345 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -101,8 +101,8 @@ namespace Internal{
 		///@param m Input matrix (assumed to be symmetric)
 		///@param eig Eigen vector output
 		///@param ev Eigen values output
-		template<typename P, typename B>
-		static inline void compute(const Matrix<2,2,P,B>& m, Matrix<2,2,P>& eig, Vector<2, P>& ev) {
+		template<int Rows, int Cols, typename P, typename B>
+		static inline void compute(const Matrix<Rows,Cols,P,B>& m, Matrix<2,2,P>& eig, Vector<2, P>& ev) {
 			//Only use the upper triangular elements.
 			//The eigenvalues are mean +- r.
 			double mean = 0.5 * (m[0][0] + m[1][1]);
@@ -146,8 +146,8 @@ namespace Internal{
 		///@param m Input matrix (assumed to be symmetric)
 		///@param eig Eigen vector output
 		///@param ev Eigen values output
-		template<typename P, typename B>
-		static inline void compute(const Matrix<3,3,P,B>& m, Matrix<3,3,P>& eig, Vector<3, P>& ev) {
+		template<int Rows, int Cols, typename P, typename B>
+		static inline void compute(const Matrix<Rows,Cols,P,B>& m, Matrix<3,3,P>& eig, Vector<3, P>& ev) {
 			//The roots of the characteristic polynomial of a matrix with zero trace and unit 
 			//scale have a closed form. That is accurate for the root which is well separated 
 			//from the other two. Use that root and its eigenvector to reduce the problem to 2x2.
-- 
2.43.0


From 7217ad45d31a8b46aa146d53c0c166838ac25d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 30/60] fix: WLS::add_mJ and add_sparse_mJ accumulate in the
 precision of the system

---
 TooN/wls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/wls.h b/TooN/wls.h
index 07bfc74..657906c 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -101,7 +101,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
 		{
-			double Jw = weight * J[r];
+			const Precision Jw = weight * J[r];
 			my_vector[r] += m * Jw;
 			for(int c=r; c < my_C_inv.num_rows(); c++)
 				my_C_inv[r][c] += Jw * J[c];
@@ -161,7 +161,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < J1.size(); r++)
 		{
-			double Jw = weight * J1[r];
+			const Precision Jw = weight * J1[r];
 			my_vector[r+index1] += m * Jw;
 			for(int c = r; c < J1.size(); c++)
 				my_C_inv[r+index1][c+index1] += Jw * J1[c];
-- 
2.43.0


From 7a4e70cca7a9fb1714891f2fd9b02bd104a68462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:11 +0000
Subject: [PATCH 31/60] fix: the reweighting functions of IRLS compute in their
 own precision

---
 TooN/irls.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 556df5e..3ba563d 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -42,10 +42,10 @@ namespace TooN {
 	template<typename Precision>
 	struct RobustI {
 		void set_sd(Precision x){ sd_inlier = x;} ///<Set the noise standard deviation.
-		double sd_inlier; ///< The inlier standard deviation, \f$\sigma\f$.
-		inline Precision reweight(Precision x) {return 1/(sd_inlier+fabs(x));}  ///< Returns \f$w(x)\f$.
-		inline Precision true_scale(Precision x) {return reweight(x) - fabs(x)*reweight(x)*reweight(x);}  ///< Returns \f$w(x) + xw'(x)\f$.
-		inline Precision objective(Precision x) {return fabs(x) + sd_inlier*::log(sd_inlier*reweight(x));}  ///< Returns \f$\int xw(x)dx\f$.
+		Precision sd_inlier; ///< The inlier standard deviation, \f$\sigma\f$.
+		inline Precision reweight(Precision x) {return 1/(sd_inlier+std::fabs(x));}  ///< Returns \f$w(x)\f$.
+		inline Precision true_scale(Precision x) {return reweight(x) - std::fabs(x)*reweight(x)*reweight(x);}  ///< Returns \f$w(x) + xw'(x)\f$.
+		inline Precision objective(Precision x) {return std::fabs(x) + sd_inlier*std::log(sd_inlier*reweight(x));}  ///< Returns \f$\int xw(x)dx\f$.
 	};
 
 	/// Robust reweighting (type II) for IRLS.
@@ -58,7 +58,7 @@ namespace TooN {
 		Precision sd_inlier; ///< The inlier standard deviation squared, \f$\sigma\f$.
 		inline Precision reweight(Precision d){return 1/(sd_inlier+d*d);} ///< Returns \f$w(x)\f$.
 		inline Precision true_scale(Precision d){return reweight(d) - 2*d*d*reweight(d)*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
-		inline Precision objective(Precision d){return 0.5 * ::log(1 + d*d/sd_inlier);} ///< Returns \f$\int xw(x)dx\f$.
+		inline Precision objective(Precision d){return 0.5 * std::log(1 + d*d/sd_inlier);} ///< Returns \f$\int xw(x)dx\f$.
 	};
 
 	/// A reweighting class representing no reweighting in IRLS.
@@ -86,7 +86,7 @@ namespace TooN {
 		/// Returns \f$w(x)\f$.
 		Precision reweight(Precision x) const
 		{
-			double d = (1 + x*x/sd_inlier);
+			Precision d = (1 + x*x/sd_inlier);
 			return 1/(d*d);
 		}	
 		///< Returns \f$\int xw(x)dx\f$.
-- 
2.43.0


From ddad2de9124892db68b91c86e97c68bda4f4f48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 32/60] fix: SIM2::exp and ln use the translation coefficient
 of a planar rotation

---
 TooN/sim2.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 6a4b907..01a32c0 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -344,7 +344,9 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
-	result.get_translation() = coeff[2] * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
+	// the square of the 2D cross product matrix is -theta^2 * Identity
+	const Precision along = coeff[0] - theta * theta * coeff[2];
+	result.get_translation() = along * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
 
 	return result;
 }
@@ -365,7 +367,8 @@ inline Vector<4, Precision> SIM2<Precision>::ln(const SIM2<Precision> & sim2) {
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(result[3], theta);
 	Matrix<2,2, Precision> cross = Zeros; cross(0,1) = -theta; cross(1,0) = theta;
-	const Matrix<2,2, Precision> W = coeff[2] * Identity + coeff[1] * cross;
+	const Precision along = coeff[0] - theta * theta * coeff[2];
+	const Matrix<2,2, Precision> W = along * Identity + coeff[1] * cross;
 	result.template slice<0,2>() = gaussian_elimination(W, sim2.get_translation());
 
 	return result;
-- 
2.43.0


From 87304d65673f7fa39c501f2ada21d281b048c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 33/60] fix: the translation coefficients of SIM2 and SIM3 keep
 their precision near zero rotation and scale

---
 TooN/sim3.h | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 0545bac..9517a10 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -426,21 +426,33 @@ inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision
 	Vector<3, Precision> coeff;
 	const Precision es = exp(s);
 
-	// 4 cases for s -> 0 and/or theta -> 0
-	// the Taylor expansions were calculated with Maple 12 and truncated at the 3rd power,
+	// The coefficients are those of the integral of exp(x*(s*I + W)) for x in [0,1], where W^3 = -t^2*W.
+	// The closed forms lose their precision near s = t = 0, where the power series of the integral is used:
+	// (s*I + W)^n = s^n*I + b_n*W + c_n*W^2, and the integral is the sum of (s*I + W)^n/(n+1)!.
+	// For small t only, the Taylor expansions were calculated with Maple 12 and truncated at the 3rd power,
 	// such that eps^3 < 1e-18 which results in approximately 1 + eps^3 = 1
 	static const Precision eps = 1e-6;
 
-	if(fabs(s) < eps && fabs(t) < eps){
-		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = 1/2 + s/3 - t*t/24 + s*s/8;
-		coeff[2] = 1/6 + s/8 - t*t/120 + s*s/20;
-	} else if(fabs(s) < eps) {
-		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = (1-cos(t))/(t*t) + (sin(t)-cos(t)*t)*s/(t*t*t)+(2*sin(t)*t-t*t*cos(t)-2+2*cos(t))*s*s/(2*t*t*t*t);
-		coeff[2] = (t-sin(t))/(t*t*t) - (-t*t-2+2*cos(t)+2*sin(t)*t)*s/(2*t*t*t*t) - (-t*t*t+6*cos(t)*t+3*sin(t)*t*t-6*sin(t))*s*s/(6*t*t*t*t*t);
-	} else if(fabs(t) < eps) {
+	if(s*s < 0.25) {
+		Precision a_n = 1, b_n = 0, c_n = 0, factor = 1;
+		coeff = makeVector(1, 0, 0);
+		for(int n = 1; n < 20; ++n) {
+			const Precision b_next = s*b_n + a_n - t*t*c_n;
+			c_n = s*c_n + b_n;
+			b_n = b_next;
+			a_n *= s;
+			factor /= n+1;
+			coeff[0] += factor * a_n;
+			coeff[1] += factor * b_n;
+			coeff[2] += factor * c_n;
+		}
+	} else
 		coeff[0] = (es - 1)/s;
+
+	if(s*s + t*t < 0.25)
+		return coeff;
+
+	if(fabs(t) < eps) {
 		coeff[1] = (s*es+1-es)/(s*s) - (6*s*es+6-6*es+es*s*s*s-3*es*s*s)*t*t/(6*s*s*s*s);
 		coeff[2] = (es*s*s-2*s*es+2*es-2)/(2*s*s*s) - (es*s*s*s*s-4*es*s*s*s+12*es*s*s-24*s*es+24*es-24)*t*t/(24*s*s*s*s*s);
 	} else {
@@ -448,7 +460,6 @@ inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision
 		const Precision b = es * cos(t);
 		const Precision inv_s_theta = 1/(s*s + t*t);
 
-		coeff[0] = (es - 1)/s;
 		coeff[1] = (a*s + (1-b)*t) * inv_s_theta / t;
 		coeff[2] = (coeff[0] - ((b-1)*s + a*t) * inv_s_theta) / (t*t);
 	}
-- 
2.43.0


From 19e5e10fd2e8b605d1c3d6a6436be1601d6ecd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 34/60] fix: SIM3<float>::exp and the assignment of Identity to
 a SIM3<float> compile

---
 TooN/sim3.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 9517a10..18f0085 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -98,8 +98,8 @@ public:
 	}
 	
 	/// Reset back to the identity transform
-	inline SIM3<>& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
-		return *this = SIM3<>();
+	inline SIM3& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
+		return *this = SIM3();
 	}
 
 	/// Right-multiply by another SIM3 (concatenate the two transformations)
@@ -483,7 +483,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	// rotation
 	const Vector<3,Precision> w = mu.template slice<3,3>();
 	const Precision t = norm(w);
-	result.get_rotation() = SO3<>::exp(w);
+	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
-- 
2.43.0


From 08ee648033c40886236ec622528a88810da994da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 35/60] fix: the adjoints of SIM2 and SIM3 include the scale

---
 TooN/sim2.h | 4 +++-
 TooN/sim3.h | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 01a32c0..5ffc8c9 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -132,9 +132,11 @@ public:
 	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
 		Vector<4, Precision> result;
 		result[2] = vect[2];
-		result.template slice<0,2>() = get_rotation() * vect.template slice<0,2>();
+		result[3] = vect[3];
+		result.template slice<0,2>() = get_rotation() * (get_scale() * vect.template slice<0,2>());
 		result[0] += vect[2] * get_translation()[1];
 		result[1] -= vect[2] * get_translation()[0];
+		result.template slice<0,2>() -= vect[3] * get_translation();
 		return result;
 	}
 
diff --git a/TooN/sim3.h b/TooN/sim3.h
index 18f0085..9065116 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -194,9 +194,11 @@ template<int S, typename P2, typename Accessor>
 inline Vector<7, Precision> SIM3<Precision>::adjoint(const Vector<S,P2, Accessor>& vect) const{
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
+	result[6] = vect[6];
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * (get_scale() * vect.template slice<0,3>());
 	result.template slice<0,3>() += get_translation() ^ result.template slice<3,3>();
+	result.template slice<0,3>() -= result[6] * get_translation();
 	return result;
 }
 
@@ -209,8 +211,9 @@ inline Vector<7, Precision> SIM3<Precision>::trinvadjoint(const Vector<S,P2, Acc
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>() / get_scale();
 	result.template slice<3,3>() += get_translation() ^ result.template slice<0,3>();
+	result[6] = vect[6] + get_translation() * result.template slice<0,3>();
 	return result;
 }
 
-- 
2.43.0


From d126b234b6962ad05934d0eadcabe3117971e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 36/60] fix: SE2::exp and SE3::exp keep their precision for
 small rotations

---
 TooN/se2.h | 5 +++--
 TooN/se3.h | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 6d985ed..a68f80e 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -334,9 +334,10 @@ inline SE2<Precision> SE2<Precision>::exp(const Vector<S, PV, Accessor>& mu)
 		} else {
 			const Precision inv_theta = (1.0/theta);
 			const Precision sine = result.my_rotation.get_matrix()[1][0];
-			const Precision cosine = result.my_rotation.get_matrix()[0][0];
+			const Precision half_sine = sin(theta/2) * inv_theta;
 			A = sine * inv_theta;
-			B = (1 - cosine) * (inv_theta * inv_theta);
+			// 1 - cos(theta) loses its precision for small theta
+			B = 2 * half_sine * half_sine;
 		}
 		result.get_translation() = TooN::operator*(A,mu.template slice<0,2>()) + TooN::operator*(B,cross);
 	}
diff --git a/TooN/se3.h b/TooN/se3.h
index a699782..721c4b6 100644
--- a/TooN/se3.h
+++ b/TooN/se3.h
@@ -417,7 +417,9 @@ inline SE3<Precision> SE3<Precision>::exp(const Vector<S, P, VA>& mu){
 		} else {
 			const Precision inv_theta = 1.0/theta;
 			A = sin(theta) * inv_theta;
-			B = (1 - cos(theta)) * (inv_theta * inv_theta);
+			// 1 - cos(theta) loses its precision for small theta
+			const Precision half_sine = sin(theta/2) * inv_theta;
+			B = 2 * half_sine * half_sine;
 			C = (1 - A) * (inv_theta * inv_theta);
 		}
 		result.get_translation() = mu.template slice<0,3>() + TooN::operator*(B, cross) + TooN::operator*(C, (w ^ cross));
-- 
2.43.0


From e5ad059733b855be7192aecebeec7190ef8466a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 37/60] fix: SL::ln recovers the diagonal generators for every
 size

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index ca7551a..8b1757a 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -144,7 +144,7 @@ inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
 		v[i] = l(i,i) + last;
-		last = l(i,i);
+		last = v[i];
 	}
 	for(int i = DIAG_LIMIT, row = 0, col = 1; i < SYMM_LIMIT; ++i) {	// calculate symmetric and antisymmetric in one go
 		// do the right thing here to calculate the correct indices !
-- 
2.43.0


From b66c46050ed4f1facbe6a9939f8f503227d3945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 38/60] fix: SL::inverse and SL::ln compute in the precision of
 the group

---
 TooN/sl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 8b1757a..19f069c 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -99,7 +99,7 @@ public:
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
-		const Matrix<N> id = Identity;
+		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
 	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
@@ -139,7 +139,7 @@ inline SL<N, Precision> SL<N, Precision>::exp( const Vector<S,P,B> & v){
 
 template <int N, typename Precision>
 inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
-	const Matrix<N> l = TooN::log(my_matrix);
+	const Matrix<N,N,Precision> l = TooN::log(my_matrix);
 	Vector<SL<N,Precision>::dim, Precision> v;
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
-- 
2.43.0


From 566719f8ad48ecdd8db9e5778e47e8a21186ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:10 +0000
Subject: [PATCH 39/60] fix: the SO3 between two nearly parallel vectors is a
 rotation

---
 TooN/so3.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 824ad44..86d9a95 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -86,15 +86,14 @@ public:
 			my_matrix = Identity;
 			return;
 		}
-		n = unit(n);
-		Matrix<3> R1;
-		R1.T()[0] = unit(a);
-		R1.T()[1] = n;
-		R1.T()[2] = R1.T()[0] ^ n;
-		my_matrix.T()[0] = unit(b);
-		my_matrix.T()[1] = n;
-		my_matrix.T()[2] = my_matrix.T()[0] ^ n;
-		my_matrix = my_matrix * R1.T();
+		// The axis, scaled by the sine of the angle. The result is a rotation
+		// even if the direction of a short axis is inaccurate.
+		const Vector<3, Precision> ua = unit(Vector<3, Precision>(a));
+		const Vector<3, Precision> ub = unit(Vector<3, Precision>(b));
+		n = ua ^ ub;
+		const Precision cosine = ua * ub;
+		const Precision B = cosine > 0 ? 1/(1 + cosine) : (1 - cosine)/norm_sq(n);
+		rodrigues_so3_exp(n, Precision(1), B, my_matrix);
 	}
 	
 	/// Assignment operator from a general matrix. This also calls coerce()
-- 
2.43.0


From f2a11063d445c3ba8ab78105ab684a3f35823862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 40/60] fix: SE2::adjoint and SIM2::adjoint of a matrix compile

---
 TooN/se2.h  | 4 ++--
 TooN/sim2.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index a68f80e..5cf2d43 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -114,8 +114,8 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<3, Precision> adjoint(const Vector<3,Precision, Accessor> & vect) const {
+	template<typename PV, typename Accessor>
+	Vector<3, Precision> adjoint(const Vector<3,PV, Accessor> & vect) const {
 		Vector<3, Precision> result;
 		result[2] = vect[2];
 		result.template slice<0,2>() = my_rotation * vect.template slice<0,2>();
diff --git a/TooN/sim2.h b/TooN/sim2.h
index 5ffc8c9..7c49aaa 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -128,8 +128,8 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
+	template<typename PV, typename Accessor>
+	Vector<4, Precision> adjoint(const Vector<4,PV, Accessor> & vect) const {
 		Vector<4, Precision> result;
 		result[2] = vect[2];
 		result[3] = vect[3];
-- 
2.43.0


From cb24dd79f21c58050afc1ddf0dd8fdda5934dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 41/60] fix: SIM2::exp and SIM3::exp accept vectors of another
 precision

---
 TooN/sim2.h | 2 +-
 TooN/sim3.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 7c49aaa..1b7a45a 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -344,7 +344,7 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	result.get_scale() = exp(mu[3]);
 
 	// translation
-	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
+	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3<Precision>(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
 	// the square of the 2D cross product matrix is -theta^2 * Identity
 	const Precision along = coeff[0] - theta * theta * coeff[2];
diff --git a/TooN/sim3.h b/TooN/sim3.h
index 9065116..ecccfde 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -489,7 +489,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
-	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
+	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3<Precision>(mu[6],t); 
 	const Vector<3,Precision> cross = w ^ mu.template slice<0,3>();
 	result.get_translation() = coeff[0] * mu.template slice<0,3>() + TooN::operator*(coeff[1], cross) + TooN::operator*(coeff[2], (w ^ cross));
 
-- 
2.43.0


From 394480874691392c8d3e31de98c439fe5b93416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 42/60] fix: SE2::exp and SE3::exp keep the translation of
 rotations below 1e-4 to working precision

---
 TooN/se2.h | 26 +++++++++++---------------
 TooN/se3.h | 31 ++++++++++++-------------------
 2 files changed, 23 insertions(+), 34 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 5cf2d43..efa6042 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -324,23 +324,19 @@ inline SE2<Precision> SE2<Precision>::exp(const Vector<S, PV, Accessor>& mu)
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
 	result.get_rotation() = SO2<Precision>::exp(theta);
 
-	if (theta_sq < 1e-8){
-		result.get_translation() = mu.template slice<0,2>() + 0.5 * cross;
+	Precision A, B;
+	if (theta_sq < 1e-6) {
+		A = 1.0 - theta_sq * one_6th*(1.0 - one_20th * theta_sq);
+		B = 0.5 - 0.25 * one_6th * theta_sq;
 	} else {
-		Precision A, B;
-		if (theta_sq < 1e-6) {
-			A = 1.0 - theta_sq * one_6th*(1.0 - one_20th * theta_sq);
-			B = 0.5 - 0.25 * one_6th * theta_sq;
-		} else {
-			const Precision inv_theta = (1.0/theta);
-			const Precision sine = result.my_rotation.get_matrix()[1][0];
-			const Precision half_sine = sin(theta/2) * inv_theta;
-			A = sine * inv_theta;
-			// 1 - cos(theta) loses its precision for small theta
-			B = 2 * half_sine * half_sine;
-		}
-		result.get_translation() = TooN::operator*(A,mu.template slice<0,2>()) + TooN::operator*(B,cross);
+		const Precision inv_theta = (1.0/theta);
+		const Precision sine = result.my_rotation.get_matrix()[1][0];
+		const Precision half_sine = sin(theta/2) * inv_theta;
+		A = sine * inv_theta;
+		// 1 - cos(theta) loses its precision for small theta
+		B = 2 * half_sine * half_sine;
 	}
+	result.get_translation() = TooN::operator*(A,mu.template slice<0,2>()) + TooN::operator*(B,cross);
 	return result;
 }
  
diff --git a/TooN/se3.h b/TooN/se3.h
index 721c4b6..e8ed3fa 100644
--- a/TooN/se3.h
+++ b/TooN/se3.h
@@ -401,29 +401,22 @@ inline SE3<Precision> SE3<Precision>::exp(const Vector<S, P, VA>& mu){
 	const Vector<3,Precision> w = mu.template slice<3,3>();
 	const Precision theta_sq = w*w;
 	const Precision theta = sqrt(theta_sq);
-	Precision A, B;
+	Precision A, B, C;
 	
 	const Vector<3,Precision> cross = w ^ mu.template slice<0,3>();
-	if (theta_sq < 1e-8) {
-		A = 1.0 - one_6th * theta_sq;
-		B = 0.5;
-		result.get_translation() = mu.template slice<0,3>() + 0.5 * cross;
+	if (theta_sq < 1e-6) {
+		C = one_6th*(1.0 - one_20th * theta_sq);
+		A = 1.0 - theta_sq * C;
+		B = 0.5 - 0.25 * one_6th * theta_sq;
 	} else {
-		Precision C;
-		if (theta_sq < 1e-6) {
-			C = one_6th*(1.0 - one_20th * theta_sq);
-			A = 1.0 - theta_sq * C;
-			B = 0.5 - 0.25 * one_6th * theta_sq;
-		} else {
-			const Precision inv_theta = 1.0/theta;
-			A = sin(theta) * inv_theta;
-			// 1 - cos(theta) loses its precision for small theta
-			const Precision half_sine = sin(theta/2) * inv_theta;
-			B = 2 * half_sine * half_sine;
-			C = (1 - A) * (inv_theta * inv_theta);
-		}
-		result.get_translation() = mu.template slice<0,3>() + TooN::operator*(B, cross) + TooN::operator*(C, (w ^ cross));
+		const Precision inv_theta = 1.0/theta;
+		A = sin(theta) * inv_theta;
+		// 1 - cos(theta) loses its precision for small theta
+		const Precision half_sine = sin(theta/2) * inv_theta;
+		B = 2 * half_sine * half_sine;
+		C = (1 - A) * (inv_theta * inv_theta);
 	}
+	result.get_translation() = mu.template slice<0,3>() + TooN::operator*(B, cross) + TooN::operator*(C, (w ^ cross));
 	rodrigues_so3_exp(w, A, B, result.get_rotation().my_matrix);
 	return result;
 }
-- 
2.43.0


From 606e434fa0928fc8763ff3d418522262a4fc78e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 43/60] fix: golden_section_search compiles

---
 TooN/optimization/golden_section.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index 3a4a2d3..52c808b 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -48,11 +48,12 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		using std::abs;
+		using std::sqrt;
 		//The golden ratio:
-		const Precision g = (3.0 - sqrt(5))/2;
+		const Precision g = (3 - sqrt(Precision(5)))/2;
 
 		Precision x1, x2, fx1, fx2;
 
@@ -127,7 +128,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		return golden_section_search(a, b, c, func(b), func, maxiterations, tol);
 	}
-- 
2.43.0


From 1ac4527656b900e7961e0776f207a9d15cd9951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 44/60] fix: golden_section_search stops after maxiterations

---
 TooN/optimization/golden_section.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index 52c808b..7f9c46d 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -83,6 +83,7 @@ namespace TooN
 		int itnum = 1; //We've already done one iteration.
 		while(abs(c-a) > tol * (abs(x2)+abs(x1)) && itnum < maxiterations)
 		{
+			itnum++;
 			if(fx1 > fx2)
 			{
 				// Bracketing does:
-- 
2.43.0


From e69f909a4eb9d67aeb371779f1ea2afbb9bdf168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 45/60] fix: the default tolerance of brent_line_search
 compiles

---
 TooN/optimization/brent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 3e60251..6fc042c 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -52,7 +52,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
+	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = std::sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
 	{
 		using std::min;
 		using std::max;
-- 
2.43.0


From d1c15d8a18c466bb20a016230854f6fe959f3134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 46/60] fix: brent_line_search takes a golden section step when
 the parabola is not a number or proposes the current point

---
 TooN/optimization/brent.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 6fc042c..96dbe1e 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -122,9 +122,12 @@ namespace TooN
 
 				//The minimum is at p/q. The minimum must lie within the bracket for it
 				//to be accepted. 
-				// Also, we want the step to be smaller than half the old one. So:
+				// Also, we want the step to be smaller than half the old one, and
+				// evaluating x again would tell nothing about where the minimum is.
+				// None of this holds if p/q is not a number (the function is infinite
+				// at w or v). So:
 
-				if(q == 0 || x + p/q < a || x+p/q > b || abs(p/q) > abs(e/2))
+				if(!(q != 0 && x + p/q >= a && x+p/q <= b && abs(p/q) <= abs(e/2) && x + p/q != x))
 				{
 					//Parabolic fit no good. Take a golden section step instead
 					//and reset d and e.
-- 
2.43.0


From 13a89464e67645343d6dc239e34a43d529945713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 47/60] fix: ConjugateGradient compiles for, and computes in,
 its own precision

---
 TooN/optimization/conjugate_gradient.h | 42 +++++++++++++-------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index c148222..1fb55b0 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -99,7 +99,7 @@ namespace TooN{
 
 		if(b_val < a_val) //We've gone downhill, so keep searching until we go back up
 		{
-			double last_good_lambda = lambda;
+			Precision last_good_lambda = lambda;
 			
 			for(;;)
 			{
@@ -126,8 +126,8 @@ namespace TooN{
 			//Back up: this will not attempt to ensure a bracket
 			if(std::isnan(c_val))
 			{
-				double bad_lambda=lambda;
-				double l=1;
+				Precision bad_lambda=lambda;
+				Precision l=1;
 
 				for(;;)
 				{
@@ -167,7 +167,7 @@ namespace TooN{
 			}
 		}
 
-		Matrix<3,2> ret;
+		Matrix<3,2,Precision> ret;
 		ret[0] = makeVector(a, a_val);
 		ret[1] = makeVector(b, b_val);
 		ret[2] = makeVector(c, c_val);
@@ -225,13 +225,13 @@ will not be necessary.
 template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 {
 	const int size;      ///< Dimensionality of the space.
-	Vector<Size> g;      ///< Gradient vector used by the next call to iterate()
-	Vector<Size> h;      ///< Conjugate vector to be searched along in the next call to iterate()
-	Vector<Size> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
-	Vector<Size> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
-	Vector<Size> old_h;  ///< Conjugate vector searched along in the last call to iterate()
-	Vector<Size> x;      ///< Current position (best known point)
-	Vector<Size> old_x;  ///< Previous best known point (not set at construction)
+	Vector<Size, Precision> g;      ///< Gradient vector used by the next call to iterate()
+	Vector<Size, Precision> h;      ///< Conjugate vector to be searched along in the next call to iterate()
+	Vector<Size, Precision> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
+	Vector<Size, Precision> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
+	Vector<Size, Precision> old_h;  ///< Conjugate vector searched along in the last call to iterate()
+	Vector<Size, Precision> x;      ///< Current position (best known point)
+	Vector<Size, Precision> old_x;  ///< Previous best known point (not set at construction)
 	Precision y;         ///< Function at \f$x\f$
 	Precision old_y;     ///< Function at  old_x
 
@@ -252,7 +252,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  Function to compute \f$\nabla f(x)\f$
-	template<class Func, class Deriv> ConjugateGradient(const Vector<Size>& start, const Func& func, const Deriv& deriv)
+	template<class Func, class Deriv> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Deriv& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -263,7 +263,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	template<class Func> ConjugateGradient(const Vector<Size>& start, const Func& func, const Vector<Size>& deriv)
+	template<class Func> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Vector<Size, Precision>& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -274,7 +274,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	void init(const Vector<Size>& start, const Precision& func, const Vector<Size>& deriv)
+	void init(const Vector<Size, Precision>& start, const Precision& func, const Vector<Size, Precision>& deriv)
 	{
 
 		using std::numeric_limits;
@@ -327,13 +327,13 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		//First bracket a minimum.
 		Matrix<3,2,Precision> bracket = Internal::bracket_minimum_forward(y, line, bracket_initial_lambda, bracket_epsilon);
 		
-		double a = bracket[0][0];
-		double b = bracket[1][0];
-		double c = bracket[2][0];
+		Precision a = bracket[0][0];
+		Precision b = bracket[1][0];
+		Precision c = bracket[2][0];
 
-		double a_val = bracket[0][1];
-		double b_val = bracket[1][1];
-		double c_val = bracket[2][1];
+		Precision a_val = bracket[0][1];
+		Precision b_val = bracket[1][1];
+		Precision c_val = bracket[2][1];
 
 		old_y = y;
 		old_x = x;
@@ -386,7 +386,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///- h
 	///- old_h
 	///@param grad The derivatives of the function at \e x
-	void update_vectors_PR(const Vector<Size>& grad)
+	void update_vectors_PR(const Vector<Size, Precision>& grad)
 	{
 		//Update the position, gradient and conjugate directions
 		old_g = g;
-- 
2.43.0


From 151bfb2f6797d0ab685483eb6c3352b07efdde29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 48/60] fix: ConjugateGradient accepts a bracket whose first
 two values are equal

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 1fb55b0..f4c1041 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -356,7 +356,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		else
 		{
 			assert(a < b && b < c);
-			assert(a_val > b_val && b_val < c_val);
+			assert(a_val >= b_val && b_val < c_val);
 
 			//Find the real minimum
 			Vector<2, Precision>  m = brent_line_search(a, b, c, b_val, line, linesearch_max_iterations, linesearch_tolerance, linesearch_epsilon);
-- 
2.43.0


From 9ac829e3fa59abe2c0eeb79005ed80cf4ba53889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 49/60] fix: ConjugateGradient moves to the last valid point if
 the function descends until it is NaN

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index f4c1041..834acce 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -345,7 +345,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 
 		//We should have a bracket here
 
-		if(c < b)
+		if(c_val <= b_val)
 		{
 			//Failed to bracket due to NaN, so c is the best known point.
 			//Simply go there.
-- 
2.43.0


From 828f6d684a1d43ddd89b88e889c583ed9a719cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 50/60] fix: DownhillSimplex computes in its own precision

---
 TooN/optimization/downhill_simplex.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/TooN/optimization/downhill_simplex.h b/TooN/optimization/downhill_simplex.h
index e7faa37..0c34187 100644
--- a/TooN/optimization/downhill_simplex.h
+++ b/TooN/optimization/downhill_simplex.h
@@ -114,7 +114,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 		///@param c          Origin of the initial simplex. The dimension of this vector
 		///                  is used to determine the dimension of the run-time sized version.
 		///@param spread     Size of the initial simplex.
-		template<class Function> DownhillSimplex(const Function& func, const Vector<N>& c, Precision spread=1)
+		template<class Function> DownhillSimplex(const Function& func, const Vector<N, Precision>& c, Precision spread=1)
 		:simplex(c.size()+1, c.size()),values(c.size()+1)
 		{
 			alpha = 1.0;
@@ -135,7 +135,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 		///@param func       Functor to minimize.
 		///@param c          \e c corner point of the simplex
 		///@param spread     \e spread simplex size
-		template<class Function> void restart(const Function& func, const Vector<N>& c, Precision spread)
+		template<class Function> void restart(const Function& func, const Vector<N, Precision>& c, Precision spread)
 		{
 			for(int i=0; i < simplex.num_rows(); i++)
 				simplex[i] = c;
@@ -208,7 +208,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 			int worst = get_worst();
 			Precision second_worst_val=-HUGE_VAL, bestval = HUGE_VAL, worst_val = values[worst];
 			int best=0;
-			Vector<N> x0 = Zeros(simplex.num_cols());
+			Vector<N, Precision> x0 = Zeros(simplex.num_cols());
 
 
 			for(int i=0; i < simplex.num_rows(); i++)
@@ -228,17 +228,17 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 					x0 += simplex[i];
 				}
 			}
-			x0 *= 1.0 / simplex.num_cols();
+			x0 *= Precision(1) / simplex.num_cols();
 
 
 			//Reflect the worst point about the centroid.
-			Vector<N> xr = (1 + alpha) * x0 - alpha * simplex[worst];
+			Vector<N, Precision> xr = (1 + alpha) * x0 - alpha * simplex[worst];
 			Precision fr = func(xr);
 
 			if(fr < bestval)
 			{
 				//If the new point is better than the smallest, then try expanding the simplex.
-				Vector<N> xe = rho * xr + (1-rho) * x0;
+				Vector<N, Precision> xe = rho * xr + (1-rho) * x0;
 				Precision fe = func(xe);
 
 				//Keep whichever is best
@@ -271,7 +271,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 			//a bit.
 			if(fr < worst_val)
 			{
-				Vector<N> xc = (1 + gamma) * x0 - gamma * simplex[worst];
+				Vector<N, Precision> xc = (1 + gamma) * x0 - gamma * simplex[worst];
 				Precision fc = func(xc);
 
 				//If this helped, use it
-- 
2.43.0


From 965b75713b9e344e9426061ed3d4c8ad913c5b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 51/60] fix: ConjugateGradient performs at most max_iterations
 iterations

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 834acce..e773c76 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -375,7 +375,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	bool finished()
 	{
 		using std::abs;
-		return iterations > max_iterations || 2*abs(y - old_y) <= tolerance * (abs(y) + abs(old_y) + epsilon);
+		return iterations >= max_iterations || 2*abs(y - old_y) <= tolerance * (abs(y) + abs(old_y) + epsilon);
 	}
 
 	///After an iteration, update the gradient and conjugate using the
-- 
2.43.0


From 5debcfcf808af85e1a6cfe1a732bcaf27961d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 52/60] fix: project and unproject accept resizable vectors

---
 TooN/helpers.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 447bca3..9e85a75 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -179,8 +179,8 @@ namespace TooN {
 	///@ingroup gLinAlg
 	// Don't remove the +0 in the first template parameter of the return type. It is a work around for a Visual Studio 2010 bug:
 	// https://connect.microsoft.com/VisualStudio/feedback/details/735283/vc-2010-parse-error-in-template-parameters-using-ternary-operator
-	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic?Dynamic:Size-1)+0, Precision> project( const Vector<Size, Precision, Base> & v){
-		static const int Len = (Size==Dynamic?Dynamic:Size-1);
+	template<int Size, typename Precision, typename Base> inline Vector<(Size<0?Dynamic:Size-1)+0, Precision> project( const Vector<Size, Precision, Base> & v){
+		static const int Len = (Size<0?Dynamic:Size-1);
 		return TooN::operator/(v.template slice<0, Len>(0 , v.size() - 1) , v[v.size() - 1]);
 	}
 
@@ -190,9 +190,9 @@ namespace TooN {
 	///@ingroup gLinAlg
 	// Don't remove the +0 in the first template parameter of the return type. It is a work around for a Visual Studio 2010 bug:
 	// https://connect.microsoft.com/VisualStudio/feedback/details/735283/vc-2010-parse-error-in-template-parameters-using-ternary-operator
-	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic?Dynamic:Size+1)+0, Precision> unproject( const Vector<Size, Precision, Base> & v){
-		Vector<(Size==Dynamic?Dynamic:Size+1), Precision> result(v.size()+1);
-		static const int Len = (Size==Dynamic?Dynamic:Size);
+	template<int Size, typename Precision, typename Base> inline Vector<(Size<0?Dynamic:Size+1)+0, Precision> unproject( const Vector<Size, Precision, Base> & v){
+		Vector<(Size<0?Dynamic:Size+1), Precision> result(v.size()+1);
+		static const int Len = (Size<0?Dynamic:Size);
 		result.template slice<0, Len>(0, v.size()) = v;
 		result[v.size()] = 1;
 		return result;
-- 
2.43.0


From 77d0790a10eca1df362b0afce82ea9c20d60e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:18 +0000
Subject: [PATCH 53/60] fix: unproject accepts matrices with a static number of
 rows and a dynamic number of columns

---
 TooN/helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 9e85a75..bccc755 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -221,8 +221,8 @@ namespace TooN {
        \overload
 	*/
     template<int R, int C, typename Precision, typename Base> inline Matrix<R+1, C, Precision> unproject( const Matrix<R, C, Precision, Base> & m){
-        Matrix<R+1, C, Precision> result;
-        result.template slice<0,0,R,C>() = m;
+        Matrix<R+1, C, Precision> result(m.num_rows()+1, m.num_cols());
+        result.template slice<0,0,R,C>(0,0,m.num_rows(),m.num_cols()) = m;
         result[R] = Ones;
         return result;
     }
-- 
2.43.0


From 4ae1359432fa09f9095deed3576b3678004d7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 54/60] fix: the negative of a vector or matrix of complex
 numbers compiles

---
 TooN/internal/operators.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 4858b13..f85cb4f 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -184,7 +184,7 @@ struct Operator<Internal::VNegate<S, P, A> > {
 	template<int S0, typename P0, typename A0>
 	void eval(Vector<S0, P0, A0> & res) const
 	{
-		res = input * -1;
+		res = input * static_cast<P>(-1);
 	}
 	int size() const { return input.size(); }
 };
@@ -292,7 +292,7 @@ struct Operator<Internal::MNegate<R,C, P, A> > {
 	template<int R0, int C0, typename P0, typename A0>
 	void eval(Matrix<R0,C0,P0,A0> & res) const
 	{
-		res = input * -1;
+		res = input * static_cast<P>(-1);
 	}
 	int num_rows() const { return input.num_rows(); }
 	int num_cols() const { return input.num_cols(); }
-- 
2.43.0


From 24b3382dea2173810682c553933ccdbd8e5052f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 55/60] fix: planar complex vectors of every precision compile

---
 TooN/internal/planar_complex.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/TooN/internal/planar_complex.hh b/TooN/internal/planar_complex.hh
index dbac52a..12f1f88 100644
--- a/TooN/internal/planar_complex.hh
+++ b/TooN/internal/planar_complex.hh
@@ -67,16 +67,16 @@ namespace TooN{
 
 		template<int Size, typename Precision>
 		struct VLayout<Size, std::complex<Precision> >: 
-		  public Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    const std::complex<double>,
-	                                                    const std::complex<double> > >
+		  public Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    const std::complex<Precision>,
+	                                                    const std::complex<Precision> > >
 		{
 			VLayout(Internal::PointerToPlanarComplex<std::complex<Precision> > p, int sz=0)
-			:Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    const std::complex<double>,
-	                                                    const std::complex<double> > >(p, sz, 1)
+			:Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    const std::complex<Precision>,
+	                                                    const std::complex<Precision> > >(p, sz, 1)
 			{}
 
 			
-- 
2.43.0


From cf7c23867923b2eb11d766b5f9adfc7001b3a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:13 +0000
Subject: [PATCH 56/60] fix: Identity and Ones can be used with complex and
 other class element types

---
 TooN/internal/objects.h | 43 ++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 7127ce9..a2b6621 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -57,10 +57,27 @@ namespace Internal{
 	};
 	template<class Rhs> Rhs operator*(One, const Rhs& v){return v;}   ///<Multiplies One by something.
 	template<class Lhs> Lhs operator*(const Lhs& v, One){return v;}   ///<Multiplies something by One
-	template<class Rhs> Rhs operator+(One, const Rhs& v){return 1+v;} ///<Adds something to One
-	template<class Lhs> Lhs operator+(const Lhs& v, One){return v+1;} ///<Adds One to something
-	template<class Rhs> Rhs operator-(One, const Rhs& v){return 1-v;} ///<Subtracts something from One
-	template<class Lhs> Lhs operator-(const Lhs& v, One){return v-1;} ///<Subtracts One from something.
+	template<class Rhs> Rhs operator+(One, const Rhs& v){return static_cast<Rhs>(1)+v;} ///<Adds something to One
+	template<class Lhs> Lhs operator+(const Lhs& v, One){return v+static_cast<Lhs>(1);} ///<Adds One to something
+	template<class Rhs> Rhs operator-(One, const Rhs& v){return static_cast<Rhs>(1)-v;} ///<Subtracts something from One
+	template<class Lhs> Lhs operator-(const Lhs& v, One){return v-static_cast<Lhs>(1);} ///<Subtracts One from something.
+
+	///@internal
+	///@brief Convert a scale to the type of an element.
+	///@ingroup gInternal
+	template<class P, class S> inline P scale_cast(const S& s)
+	{
+		return (P)s;
+	}
+
+	///@internal
+	///@brief Convert One to the type of an element. One converts in to anything, so 
+	///a cast to a type with several constructors (e.g. std::complex) would be ambiguous.
+	///@ingroup gInternal
+	template<class P> inline P scale_cast(const One& o)
+	{
+		return o;
+	}
 
 	///Returns negative One.
 	inline int operator-(const One&)
@@ -244,7 +261,7 @@ template<int R, int C, class P, class B, class Precision> struct Operator<Intern
 					mm[r][c] = m[r][c];
 
 		for(int i=0; i < m.num_rows(); i++)
-				mm[i][i] += (P)s;
+				mm[i][i] += Internal::scale_cast<P>(s);
 	}
 	///@}
 
@@ -302,7 +319,7 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 		}
 		
 		for(int r=0; r < m.num_rows(); r++) {
-			m(r,r) = (P)val;
+			m(r,r) = Internal::scale_cast<P>(val);
 		}
 	}
 	
@@ -311,7 +328,7 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 	{
 		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
 		for(int i=0; i < m.num_rows(); i++)
-			m[i][i] += (P)val;
+			m[i][i] += Internal::scale_cast<P>(val);
 	}
 
 	template<int Rows, int Cols, typename P, typename B>
@@ -319,7 +336,7 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 	{
 		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
 		for(int i=0; i < m.num_rows(); i++)
-			m[i][i] -= (P)val;
+			m[i][i] -= Internal::scale_cast<P>(val);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
@@ -493,21 +510,21 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	void eval(Vector<Size, P1, B1>& v) const
 	{
 		for(int i=0; i < v.size(); i++)
-			v[i] = (P1)s;
+			v[i] = Internal::scale_cast<P1>(s);
 	}
 
 	template <int Size, typename P1, typename B1> 
 	void plusequals(Vector<Size, P1, B1>& v) const
 	{
 		for(int i=0; i < v.size(); i++)
-			v[i] += (P1)s;
+			v[i] += Internal::scale_cast<P1>(s);
 	}
 
 	template <int Size, typename P1, typename B1>
 	void minusequals(Vector<Size, P1, B1>& v) const
 	{
 		for(int i=0; i < v.size(); ++i)
-			v[i] -= (P1)s;
+			v[i] -= Internal::scale_cast<P1>(s);
 	}
 
 	template <int Size, typename P1, typename B1> 
@@ -546,7 +563,7 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	{
 		for(int r=0; r < m.num_rows(); r++)
 			for(int c=0; c < m.num_cols(); c++)
-				m[r][c] += (P1)s;
+				m[r][c] += Internal::scale_cast<P1>(s);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
@@ -554,7 +571,7 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	{
 		for(int r=0; r < m.num_rows(); r++)
 			for(int c=0; c < m.num_cols(); c++)
-				m[r][c] -= (P1)s;
+				m[r][c] -= Internal::scale_cast<P1>(s);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-- 
2.43.0


From 1c133d7758b4cd6707599b8e0be6c826ddefd664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:33 +0000
Subject: [PATCH 57/60] fix: a scalar times a matrix of another element type
 multiplies by the scalar itself, not by its conversion to the element type

---
 TooN/internal/operators.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index f85cb4f..fa5c24f 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -596,7 +596,7 @@ struct Operator<Internal::ApplyScalarML<R,C,P1,B1,P2,Op> > {
 	void eval(Matrix<R0,C0,P0,Ba0>& m) const {
 		for(int r=0; r<m.num_rows(); r++){
 			for(int c=0; c<m.num_cols(); c++){
-				m(r,c)= Op::template op<P0,P1,P2> (lhs,rhs(r,c));
+				m(r,c)= Op::template op<P0,P2,P1> (lhs,rhs(r,c));
 			}
 		}
 	}
-- 
2.43.0


From 4c87b8a7217e2c10617e392a0faf7faf89e6bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:25 +0000
Subject: [PATCH 58/60] fix: cross differences leave no coordinate displaced
 for the next pair

---
 TooN/functions/derivatives.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index 9749461..9c8f619 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -271,6 +271,9 @@ namespace TooN{
 				x[j] = v[j] - h;
 				double d = f(x);
 
+				x[i] = v[i];
+				x[j] = v[j];
+
 				return (a-b-c+d) / (4*h*h);
 			}
 		};
-- 
2.43.0


From 9a022db0f32125f53d20b05b2143aa7ed32dac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 59/60] fix: numerical derivatives are computed in the
 precision of the vector

---
 TooN/functions/derivatives.h | 46 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index 9c8f619..5ee3f0f 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -181,15 +181,15 @@ namespace TooN{
 				using std::abs;
 
 				//Make the step size be on the scale of the value.
-				double h = hh * max(abs(v[i]) * 1e-3, 1e-3);
+				Precision h = hh * max<Precision>(abs(v[i]) * Precision(1e-3), Precision(1e-3));
 
 				x[i] = v[i] - h;
-				double f1 = f(x);
+				Precision f1 = f(x);
 				x[i] = v[i] + h;
-				double f2 = f(x);
+				Precision f2 = f(x);
 				x[i] = v[i];
 
-				double d =  (f2 - f1) / (2*h);
+				Precision d =  (f2 - f1) / (2*h);
 				return d;
 			}
 		};
@@ -216,16 +216,16 @@ namespace TooN{
 				using std::abs;
 
 				//Make the step size be on the scale of the value.
-				double h = hh * max(abs(v[i]) * 1e-3, 1e-3);
+				Precision h = hh * max<Precision>(abs(v[i]) * Precision(1e-3), Precision(1e-3));
 
 				x[i] = v[i] - h;
-				double f1 = f(x);
+				Precision f1 = f(x);
 
 				x[i] = v[i] + h;
-				double f2 = f(x);
+				Precision f2 = f(x);
 				x[i] = v[i];
 
-				double d =  (f2 - 2*central + f1) / (h*h);
+				Precision d =  (f2 - 2*central + f1) / (h*h);
 				return d;
 			}
 		};
@@ -252,24 +252,24 @@ namespace TooN{
 				using std::abs;
 
 				//Make the step size be on the scale of the value.
-				double h = hh * max(abs(v[i]) * 1e-3, 1e-3);
+				Precision h = hh * max<Precision>(abs(v[i]) * Precision(1e-3), Precision(1e-3));
 
 				x[i] = v[i] + h;
 				x[j] = v[j] + h;
-				double a = f(x);
+				Precision a = f(x);
 
 				x[i] = v[i] - h;
 				x[j] = v[j] + h;
-				double b = f(x);
+				Precision b = f(x);
 
 				x[i] = v[i] + h;
 				x[j] = v[j] - h;
-				double c = f(x);
+				Precision c = f(x);
 
 
 				x[i] = v[i] - h;
 				x[j] = v[j] - h;
-				double d = f(x);
+				Precision d = f(x);
 
 				x[i] = v[i];
 				x[j] = v[j];
@@ -355,7 +355,7 @@ namespace TooN{
 	template<class F, int S, class P, class B> Vector<S, P> numerical_gradient(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Vector<S> grad(x.size());
+		Vector<S, P> grad(x.size());
 
 		CentralDifferenceGradient<F, P, S, B> d(x, f);
 
@@ -379,14 +379,14 @@ namespace TooN{
 	template<class F, int S, class P, class B> Matrix<S,2,P> numerical_gradient_with_errors(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Matrix<S,2> g(x.size(), 2);
+		Matrix<S,2,P> g(x.size(), 2);
 
 		CentralDifferenceGradient<F, P, S, B> d(x, f);
 
 		for(int i=0; i < x.size(); i++)
 		{
 			d.i = i;
-			pair<double, double> r= extrapolate_to_zero<CentralDifferenceGradient<F, P, S, B>, P>(d);
+			pair<P, P> r= extrapolate_to_zero<CentralDifferenceGradient<F, P, S, B>, P>(d);
 			g[i][0] = r.first;
 			g[i][1] = r.second;
 		}
@@ -409,8 +409,8 @@ namespace TooN{
 	template<class F, int S, class P, class B> pair<Matrix<S, S, P>, Matrix<S, S, P> > numerical_hessian_with_errors(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Matrix<S> hess(x.size(), x.size());
-		Matrix<S> errors(x.size(), x.size());
+		Matrix<S,S,P> hess(x.size(), x.size());
+		Matrix<S,S,P> errors(x.size(), x.size());
 
 		CentralDifferenceSecond<F, P, S, B> curv(x, f);
 		CentralCrossDifferenceSecond<F, P, S, B> cross(x, f);
@@ -422,7 +422,7 @@ namespace TooN{
 			{
 				cross.i = r;
 				cross.j = c;
-				pair<double, double> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
+				pair<P, P> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
 				hess[r][c] = hess[c][r] = e.first;
 				errors[r][c] = errors[c][r] = e.second;
 			}
@@ -430,7 +430,7 @@ namespace TooN{
 		for(int i=0; i < x.size(); i++)
 		{
 			curv.i = i;
-			pair<double, double> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
+			pair<P, P> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
 			hess[i][i] = e.first;
 			errors[i][i] = e.second;
 		}
@@ -447,7 +447,7 @@ namespace TooN{
 	template<class F, int S, class P, class B> Matrix<S, S, P> numerical_hessian(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Matrix<S> hess(x.size(), x.size());
+		Matrix<S,S,P> hess(x.size(), x.size());
 
 		CentralDifferenceSecond<F, P, S, B> curv(x, f);
 		CentralCrossDifferenceSecond<F, P, S, B> cross(x, f);
@@ -458,14 +458,14 @@ namespace TooN{
 			{
 				cross.i = r;
 				cross.j = c;
-				pair<double, double> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
+				pair<P, P> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
 				hess[r][c] = hess[c][r] = e.first;
 			}
 
 		for(int i=0; i < x.size(); i++)
 		{
 			curv.i = i;
-			pair<double, double> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
+			pair<P, P> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
 			hess[i][i] = e.first;
 		}
 
-- 
2.43.0


From dbeff1079f4e520999b2b04f1a9fd7df13d81fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:56 +0000
Subject: [PATCH 60/60] fix: exp of a matrix with a norm above 2^31 divided by
 an overflowed shift

---
 TooN/helpers.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index bccc755..95d7129 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -328,11 +328,13 @@ namespace TooN {
 	/// @ingroup gLinAlg
 	template <int R, int C, typename P, typename B>
 	inline Matrix<R, C, P> exp( const Matrix<R,C,P,B> & m ){
-		using std::max;
 		SizeMismatch<R, C>::test(m.num_rows(), m.num_cols());
 		const P l = log2(norm_inf(m));
-		const int s = max(0,(int)ceil(l));
-		Matrix<R,C,P> result = Internal::exp_taylor(m/(1<<s));
+		const int s = l > 0 ? (int)ceil(l) : 0;
+		Matrix<R,C,P> scaled = m;
+		for(int i = 0; i < s; ++i)
+			scaled /= 2;
+		Matrix<R,C,P> result = Internal::exp_taylor(scaled);
 		for(int i = 0; i < s; ++i)
 			result = result * result;
 		return result;
-- 
2.43.0

