From 46dd5860762884d74a8f55650f63852b4a0fd271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 01/57] fix: swap the scalar side along with the operands in
 bitwise and-not

---
 src/BasicMath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index d3271b3..2f66ef2 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -903,10 +903,14 @@ inline void SimpleMathOpFast(void * pDataIn1X, void * pDataIn2X, void * pDataOut
 }
 
 //=====================================================================================================
-// Flips arg1 and arg2 around for BITWISE_NOTAND
+// Flips arg1 and arg2 around for BITWISE_ANDNOT (the scalar, if any, changes sides as well)
 template <typename T, typename U256, const T MATH_OP(T, T), const U256 MATH_OP256(U256, U256)>
 inline void SimpleMathOpFastReverse(void * pDataIn1X, void * pDataIn2X, void * pDataOutX, int64_t datalen, int32_t scalarMode)
 {
+    if (scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR)
+        scalarMode = SCALAR_MODE::SECOND_ARG_SCALAR;
+    else if (scalarMode == SCALAR_MODE::SECOND_ARG_SCALAR)
+        scalarMode = SCALAR_MODE::FIRST_ARG_SCALAR;
     return SimpleMathOpFast<T, U256, MATH_OP, MATH_OP256>(pDataIn2X, pDataIn1X, pDataOutX, datalen, scalarMode);
 }
 
-- 
2.43.0


From c726744a759ad78c61a05440bf2bee9337052cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:38 +0000
Subject: [PATCH 02/57] fix: compare 64-bit signed with unsigned exactly for
 ==, != and a scalar on the left

---
 src/Compare.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Compare.cpp b/src/Compare.cpp
index d9c0626..cb62fef 100644
--- a/src/Compare.cpp
+++ b/src/Compare.cpp
@@ -953,6 +953,11 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
     *wantedOutType = NPY_BOOL;
     int mainType = scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR ? numpyInType2 : numpyInType1;
 
+    // A signed and an unsigned 64 bit argument are not converted to a common dtype.
+    // The special comparisons below expect the dtype of the first argument.
+    if (scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR && numpyInType1 != numpyInType2)
+        mainType = numpyInType1;
+
     LOGGING("Comparison maintype %d for func %d  inputs: %d %d\n", mainType, func, numpyInType1, numpyInType2);
 
     // NOTE: Intel on Nans
@@ -1091,11 +1096,10 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
         {
             switch (func)
             {
-                // For equal, not equal the sign does not matter
             case MATH_OPERATION::CMP_EQ:
-                return CompareAny<int64_t, COMP_EQ>;
+                return CompareAny<int64_t, COMP_EQ_uint64_t>;
             case MATH_OPERATION::CMP_NE:
-                return CompareAny<int64_t, COMP_NE>;
+                return CompareAny<int64_t, COMP_NE_uint64_t>;
             case MATH_OPERATION::CMP_GT:
                 return CompareAny<uint64_t, COMP_GT_uint64_t>;
             case MATH_OPERATION::CMP_GTE:
-- 
2.43.0


From 214d1d8adb20da5edb5baf2ee8427fb28992cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 03/57] fix: keep Python and NumPy integers past the int64
 range when combined with floating-point arrays

---
 src/RipTide.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index dd43761..81ac242 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1145,6 +1145,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
             int overflow = 0;
             int64_t value;
             uint64_t value2;
+            double valueDouble;
 
             if (! isNumpyScalarInteger)
             {
@@ -1163,6 +1164,14 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 {
                     value2 = (uint64_t)value;
                 }
+
+                // A value past the int64 range is still representable in a float
+                valueDouble = overflow == 0 ? (double)value : PyLong_AsDouble(inObject1);
+                if (overflow != 0 && valueDouble == -1.0 && PyErr_Occurred())
+                {
+                    PyErr_Clear();
+                    return false;
+                }
             }
             else
             {
@@ -1178,6 +1187,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
 
                     PyArray_CastScalarToCtype(inObject1, &value, g_pDescrLongLong);
                     PyArray_CastScalarToCtype(inObject1, &value2, g_pDescrULongLong);
+                    valueDouble = PyTypeNum_ISUNSIGNED(dtype->type_num) ? (double)value2 : (double)value;
                 }
                 else
                 {
@@ -1219,10 +1229,10 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 pDest->ci.i2 = _mm_set1_epi64x(value2);
                 break;
             case NPY_FLOAT32:
-                pDest->s = _mm256_set1_ps((float)value);
+                pDest->s = _mm256_set1_ps((float)valueDouble);
                 break;
             case NPY_FLOAT64:
-                pDest->d = _mm256_set1_pd((double)value);
+                pDest->d = _mm256_set1_pd(valueDouble);
                 break;
             default:
                 printf("unknown long scalar type in convertScalarObject %d\n", numpyOutType);
-- 
2.43.0


From 864e4dcffea96a4cb9b183c87fa7c83763149874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 04/57] fix: abs of -0.0 depended on the element's position

---
 src/UnaryOps.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index f552b38..47bebbe 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -192,7 +192,15 @@ const union
 template <typename T>
 static const inline T ABS_OP(T x)
 {
-    return x < 0 ? -x : x;
+    if constexpr (std::is_floating_point_v<T>)
+    {
+        // clears the sign of -0.0 as well, like the vector loop
+        return std::fabs(x);
+    }
+    else
+    {
+        return x < 0 ? -x : x;
+    }
 }
 template <typename T>
 static const inline double FABS_OP(T x)
-- 
2.43.0


From 6dc285430ecb52bcf73fbe502ac3cffec39d8416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 05/57] fix: negation of +0.0 depended on the element's
 position

---
 src/UnaryOps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 47bebbe..cf1abcf 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -595,17 +595,17 @@ static const inline __m256i NEG_OP_256i8(__m256i x)
 template <typename T>
 static const inline __m256 NEG_OP_256(__m256 x)
 {
-    const __m256 m8 = _mm256_setzero_ps();
-    // The second operand does not need to be unaligned loaded
-    return _mm256_sub_ps(m8, x);
+    const __m256 m8 = _mm256_set1_ps(-0.0f);
+    // flip the sign bit: 0 - x is not -x for x == +0.0
+    return _mm256_xor_ps(m8, x);
 }
 
 template <typename T>
 static const inline __m256d NEG_OP_256(__m256d x)
 {
-    const __m256d m8 = _mm256_setzero_pd();
-    // The second operand does not need to be unaligned loaded
-    return _mm256_sub_pd(m8, x);
+    const __m256d m8 = _mm256_set1_pd(-0.0);
+    // flip the sign bit: 0 - x is not -x for x == +0.0
+    return _mm256_xor_pd(m8, x);
 }
 
 template <typename T>
-- 
2.43.0


From edb24f926ab0a8377afebf81628ef922644c692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:36 +0000
Subject: [PATCH 06/57] fix: rounding of ties depended on the element's
 position

---
 src/UnaryOps.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index cf1abcf..293b67f 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -297,20 +297,21 @@ static const inline bool ISNANORZERO_OP(T x)
     return x == 0.0 || std::isnan(x);
 }
 
+// ties to even, like the vector loop and numpy
 template <typename T>
 static const inline long double ROUND_OP(long double x)
 {
-    return roundl(x);
+    return nearbyintl(x);
 }
 template <typename T>
 static const inline double ROUND_OP(double x)
 {
-    return round(x);
+    return nearbyint(x);
 }
 template <typename T>
 static const inline float ROUND_OP(float x)
 {
-    return roundf(x);
+    return nearbyintf(x);
 }
 
 template <typename T>
-- 
2.43.0


From c9507d45eda486be5f2beaca65522163e48fe44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:14 +0000
Subject: [PATCH 07/57] fix: conversion and unary functions scrambled
 non-contiguous column-major arrays

---
 src/Convert.cpp  | 16 +++++++++-------
 src/UnaryOps.cpp |  3 +--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index d8df26c..9c060e5 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1077,9 +1077,15 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
     const int64_t arraySize1 = CalcArrayLength(ndim, dims);
     const int64_t len = arraySize1;
 
+    // Check the strides of the input to make sure we can handle
+    int64_t strideIn;
+    int directionIn = GetStridesAndContig(inArr1, ndim, strideIn);
+
     // Allocate the output array.
+    // Column major input (even if not contiguous) is written column by column.
     // TODO: Consider using AllocateLikeNumpyArray here instead for simplicity.
-    PyArrayObject * outArray = AllocateNumpyArray(ndim, dims, numpyOutType, 0, PyArray_IS_F_CONTIGUOUS(inArr1));
+    PyArrayObject * outArray =
+        AllocateNumpyArray(ndim, dims, numpyOutType, 0, PyArray_IS_F_CONTIGUOUS(inArr1) || directionIn < 0);
     CHECK_MEMORY_ERROR(outArray);
 
     // Check if we're out of memory.
@@ -1094,10 +1100,7 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
     // if output is boolean, bad means false
     void * pBadOutput1 = GetDefaultForType(numpyOutType);
 
-    // Check the strides of both the input and output to make sure we can handle
-    int64_t strideIn;
-    int directionIn = GetStridesAndContig(inArr1, ndim, strideIn);
-
+    // Check the strides of the output to make sure we can handle
     int ndimOut;
     int64_t strideOut;
     int directionOut = GetStridesAndContig(outArray, ndimOut, strideOut);
@@ -1134,8 +1137,7 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
         {
             // Col Major 2dim like array with output being fully contiguous
             int64_t innerLen = 1;
-            directionIn = -directionIn;
-            for (int i = 0; i < directionIn; i++)
+            for (int i = 0; i < ndim - 1; i++)
             {
                 innerLen *= PyArray_DIM(inArr1, i);
             }
diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 293b67f..2de7c72 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2678,8 +2678,7 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
             {
                 // Col Major 2dim like array with output being fully contiguous
                 int64_t innerLen = 1;
-                directionIn = -directionIn;
-                for (int i = 0; i < directionIn; i++)
+                for (int i = 0; i < ndim - 1; i++)
                 {
                     innerLen *= PyArray_DIM(inArray, i);
                 }
-- 
2.43.0


From 15b3aaf2c35bfb3103b5640e19d87ca1e1f105a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:14 +0000
Subject: [PATCH 08/57] fix: ConvertUnsafe wrote past its result for arrays of
 two dimensions

---
 src/Convert.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 9c060e5..f194515 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1273,6 +1273,22 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
 
     LOGGING("ConvertUnsafe converting type %d to type %d\n", numpyInType, numpyOutType);
 
+    // One stride has to describe the whole input: otherwise work on a contiguous copy
+    int ndimIn;
+    int64_t strideIn;
+    PyArrayObject * contigCopy = nullptr;
+    if (GetStridesAndContig(inArr1, ndimIn, strideIn) != 0)
+    {
+        contigCopy = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_KEEPORDER);
+        CHECK_MEMORY_ERROR(contigCopy);
+        if (! contigCopy)
+        {
+            return PyErr_Format(PyExc_MemoryError, "ConvertUnsafe out of memory");
+        }
+        inArr1 = contigCopy;
+        strideIn = PyArray_ITEMSIZE(inArr1);
+    }
+
     void * pDataIn = PyArray_BYTES(inArr1);
 
     const int ndim = PyArray_NDIM(inArr1);
@@ -1289,10 +1305,12 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
     CHECK_MEMORY_ERROR(outArray);
     if (! outArray)
     {
+        Py_XDECREF(contigCopy);
         return PyErr_Format(PyExc_MemoryError, "ConvertUnsafe out of memory");
     }
 
     void * pDataOut = PyArray_BYTES(outArray);
+    const int64_t strideOut = PyArray_ITEMSIZE(outArray);
 
     void * pBadInput1 = GetInvalid(numpyInType);
 
@@ -1305,7 +1323,7 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
     {
         // Threading not allowed for this work item, call it directly from main
         // thread
-        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, PyArray_STRIDE(inArr1, 0), PyArray_STRIDE(outArray, 0));
+        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, strideIn, strideOut);
     }
     else
     {
@@ -1319,13 +1337,14 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
         stConvertCallback.pBadInput1 = pBadInput1;
         stConvertCallback.pBadOutput1 = pBadOutput1;
 
-        stConvertCallback.typeSizeIn = PyArray_STRIDE(inArr1, 0);
-        stConvertCallback.typeSizeOut = PyArray_STRIDE(outArray, 0);
+        stConvertCallback.typeSizeIn = strideIn;
+        stConvertCallback.typeSizeOut = strideOut;
 
         // This will notify the worker threads of a new work item
         g_cMathWorker->WorkMain(pWorkItem, len, 0);
     }
 
+    Py_XDECREF(contigCopy);
     return (PyObject *)outArray;
 }
 
-- 
2.43.0


From 21f00a9bc0225c2e5f20476dd6f69ac82bd3ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:14 +0000
Subject: [PATCH 09/57] fix: a slice of a three-dimensional array with one
 leading row was taken as contiguous

---
 src/RipTide.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 81ac242..4998f22 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -2337,11 +2337,13 @@ int GetStridesAndContig(PyArrayObject const * inArray, int & ndim, int64_t & str
             {
                 lastStride = PyArray_STRIDE(inArray, ndims - 1);
             }
-            if (lastStride == stride)
+            // a leading dimension of length 1 says nothing about the layout of three or more dimensions
+            const bool ambiguous = lastStride == stride && ndims > 2 && ! PyArray_IS_F_CONTIGUOUS(inArray);
+            if (lastStride == stride && ! ambiguous)
             {
                 // contiguous with one of the dimensions having length 1
             }
-            else if (std::abs(lastStride) < std::abs(stride))
+            else if (ambiguous || std::abs(lastStride) < std::abs(stride))
             {
                 // Row Major - 'C' Style
                 // work backwards
-- 
2.43.0


From b6a786154812bed33f31690f6804157b54982ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:14 +0000
Subject: [PATCH 10/57] fix: conversion scrambled column-major arrays with gaps
 between the elements

---
 src/Convert.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index f194515..834ad64 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1037,6 +1037,17 @@ void * GetInvalid(int dtype)
     return pBadInput;
 }
 
+//=====================================================================================
+// Returns true when the elements are walked column by column (contiguous or not)
+//
+static bool IsColumnMajor(PyArrayObject * const inArr1)
+{
+    const int ndim = PyArray_NDIM(inArr1);
+    return PyArray_IS_F_CONTIGUOUS(inArr1) ||
+           (! PyArray_IS_C_CONTIGUOUS(inArr1) && ndim > 1 &&
+            std::abs(PyArray_STRIDE(inArr1, 0)) < std::abs(PyArray_STRIDE(inArr1, ndim - 1)));
+}
+
 //=====================================================================================
 // Input: Two parameters
 // Arg1: array to convert
@@ -1084,8 +1095,7 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
     // Allocate the output array.
     // Column major input (even if not contiguous) is written column by column.
     // TODO: Consider using AllocateLikeNumpyArray here instead for simplicity.
-    PyArrayObject * outArray =
-        AllocateNumpyArray(ndim, dims, numpyOutType, 0, PyArray_IS_F_CONTIGUOUS(inArr1) || directionIn < 0);
+    PyArrayObject * outArray = AllocateNumpyArray(ndim, dims, numpyOutType, 0, IsColumnMajor(inArr1));
     CHECK_MEMORY_ERROR(outArray);
 
     // Check if we're out of memory.
@@ -1301,7 +1311,7 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
 
     // Allocate the output array.
     // TODO: Consider using AllocateLikeNumpyArray here instead for simplicity.
-    PyArrayObject * outArray = AllocateNumpyArray(ndim, dims, numpyOutType, 0, PyArray_IS_F_CONTIGUOUS(inArr1));
+    PyArrayObject * outArray = AllocateNumpyArray(ndim, dims, numpyOutType, 0, IsColumnMajor(inArr1));
     CHECK_MEMORY_ERROR(outArray);
     if (! outArray)
     {
-- 
2.43.0


From 044986ed88eac552dd17a0bc1be2f64b25629f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:15 +0000
Subject: [PATCH 11/57] fix: unary functions stored transposed results in an
 output of the other memory order

---
 src/UnaryOps.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 2de7c72..8217223 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2607,6 +2607,23 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
                 RETURN_NONE;
             }
 
+            // The elements of both are walked in memory order
+            if (ndim > 1 || PyArray_NDIM(outputArray) > 1)
+            {
+                const int ndimOut = PyArray_NDIM(outputArray);
+                auto isColumnMajor = [](PyArrayObject * arr, int nd) -> bool
+                {
+                    return std::abs(PyArray_STRIDE(arr, 0)) < std::abs(PyArray_STRIDE(arr, nd - 1));
+                };
+
+                if (ndim != ndimOut || isColumnMajor(inArray, ndim) != isColumnMajor(outputArray, ndimOut))
+                {
+                    LOGGING("Output has a different layout\n");
+                    // punt to numpy
+                    RETURN_NONE;
+                }
+            }
+
             Py_INCREF(outObject1);
         }
 
-- 
2.43.0


From c13e965e6e4f204efd08b04c5d9acd8e6051e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 12/57] fix: safe conversion of arrays NumPy has to lay out
 dropped the invalid markers

---
 src/Convert.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 834ad64..d057913 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1169,12 +1169,16 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
             // Don't leak the memory we allocated -- free it before raising the Python
             // error and returning.
             Py_DECREF(outArray);
-            // have numpy do the work
-            outArray = (PyArrayObject *)PyArray_FROM_OT((PyObject *)inArr1, numpyOutType);
-            // return PyErr_Format(PyExc_RuntimeError, "ConvertSafe allocated an
-            // output array whose *_CONTIGUOUS flags were not set even though the input
-            // array was contiguous. %d %d   out:%d %d  strideIn:%lld  strideOut:%lld",
-            // contigIn, ndim, contigOut, ndimOut, strideIn, strideOut);
+            // have numpy lay the elements out contiguously, and convert those
+            PyArrayObject * const contigCopy = (PyArrayObject *)PyArray_NewCopy(inArr1, IsColumnMajor(inArr1) ? NPY_FORTRANORDER : NPY_CORDER);
+            CHECK_MEMORY_ERROR(contigCopy);
+            if (! contigCopy)
+            {
+                return PyErr_Format(PyExc_MemoryError, "ConvertSafe out of memory");
+            }
+            PyObject * const result = ConvertSafeInternal(contigCopy, out_dtype);
+            Py_DECREF(contigCopy);
+            return result;
         }
     }
     else
@@ -1289,7 +1293,7 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
     PyArrayObject * contigCopy = nullptr;
     if (GetStridesAndContig(inArr1, ndimIn, strideIn) != 0)
     {
-        contigCopy = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_KEEPORDER);
+        contigCopy = (PyArrayObject *)PyArray_NewCopy(inArr1, IsColumnMajor(inArr1) ? NPY_FORTRANORDER : NPY_CORDER);
         CHECK_MEMORY_ERROR(contigCopy);
         if (! contigCopy)
         {
-- 
2.43.0


From bfb3ddade12af0977a2a984d52812d2fefffeb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 13/57] fix: a sum or mean of floats outside the int64 range
 became NaN for large arrays

---
 src/Reduce.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 2ff168c..9d05a03 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -548,14 +548,11 @@ void CMathWorker::WorkScatterGatherCall(FUNCTION_LIST * anyScatterGatherCall, vo
                 pstScatterGatherFunc->resultOutInt64 =
                     riptide::add(pstScatterGatherFunc->resultOutInt64, pZeroArray[i].resultOutInt64);
 
+                // The double decides validity: the integer of a floating-point sum may be out of range
                 if (! invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut))
                 {
                     pstScatterGatherFunc->resultOutInt64 = invalid_for_type<int64_t>::value;
                 }
-                else if (! invalid_for_type<int64_t>::is_valid(pstScatterGatherFunc->resultOutInt64))
-                {
-                    pstScatterGatherFunc->resultOut = invalid_for_type<double>::value;
-                }
             }
         }
         WORKSPACE_FREE(pWorkSpace);
-- 
2.43.0


From f95ccca18661609641bb43a2d2b3c59032032f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 14/57] fix: sums of 64-bit integers were rounded to double
 precision and unsigned ones lost their upper half

---
 src/Reduce.cpp | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 9d05a03..dce5673 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -545,8 +545,9 @@ void CMathWorker::WorkScatterGatherCall(FUNCTION_LIST * anyScatterGatherCall, vo
             {
                 pstScatterGatherFunc->lenOut += pZeroArray[i].lenOut;
                 pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, pZeroArray[i].resultOut);
-                pstScatterGatherFunc->resultOutInt64 =
-                    riptide::add(pstScatterGatherFunc->resultOutInt64, pZeroArray[i].resultOutInt64);
+                // Integers wrap: the sums of the parts may leave the int64 range when the inputs are unsigned
+                pstScatterGatherFunc->resultOutInt64 = static_cast<int64_t>(
+                    static_cast<uint64_t>(pstScatterGatherFunc->resultOutInt64) + static_cast<uint64_t>(pZeroArray[i].resultOutInt64));
 
                 // The double decides validity: the integer of a floating-point sum may be out of range
                 if (! invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut))
@@ -2175,10 +2176,13 @@ class ReduceSum final
         T * pIn = (T *)pDataIn;
         T * pEnd;
         double result = 0;
+        // Integers are summed exactly; the double tells invalid and overflowing sums
+        uint64_t exact = 0;
 
         if (pstScatterGatherFunc->inputType == NPY_BOOL)
         {
-            result = (double)SumBooleanMask((int8_t *)pDataIn, length);
+            exact = static_cast<uint64_t>(SumBooleanMask((int8_t *)pDataIn, length));
+            result = (double)exact;
         }
         else
         {
@@ -2193,12 +2197,31 @@ class ReduceSum final
                     break;
                 }
                 result += static_cast<double>(value);
+                if constexpr (std::is_integral_v<T>)
+                {
+                    exact += static_cast<uint64_t>(value);
+                }
             }
         }
 
         pstScatterGatherFunc->lenOut += length;
         pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, result);
-        pstScatterGatherFunc->resultOutInt64 = riptide::cast<int64_t>(pstScatterGatherFunc->resultOut);
+        if constexpr (std::is_integral_v<T>)
+        {
+            if (riptide::invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut))
+            {
+                pstScatterGatherFunc->resultOutInt64 =
+                    static_cast<int64_t>(static_cast<uint64_t>(pstScatterGatherFunc->resultOutInt64) + exact);
+            }
+            else
+            {
+                pstScatterGatherFunc->resultOutInt64 = riptide::invalid_for_type<int64_t>::value;
+            }
+        }
+        else
+        {
+            pstScatterGatherFunc->resultOutInt64 = riptide::cast<int64_t>(pstScatterGatherFunc->resultOut);
+        }
         return result;
     }
 
@@ -2615,6 +2638,8 @@ class ReduceNanSum final
     static double non_vector(void * pDataIn, int64_t len, stScatterGatherFunc * pstScatterGatherFunc)
     {
         double result = 0;
+        // Integers are summed exactly; the double tells overflowing sums
+        uint64_t exact = 0;
         int64_t count = 0;
         T * pIn = (T *)pDataIn;
 
@@ -2623,12 +2648,17 @@ class ReduceNanSum final
             if (invalid_for_type<T>::is_valid(pIn[i]))
             {
                 result += pIn[i];
+                if constexpr (std::is_integral_v<T>)
+                {
+                    exact += static_cast<uint64_t>(pIn[i]);
+                }
                 count += 1;
             }
         }
         pstScatterGatherFunc->lenOut += count;
         pstScatterGatherFunc->resultOut += result;
-        pstScatterGatherFunc->resultOutInt64 += (int64_t)result;
+        pstScatterGatherFunc->resultOutInt64 =
+            static_cast<int64_t>(static_cast<uint64_t>(pstScatterGatherFunc->resultOutInt64) + exact);
         return result;
     }
 
@@ -3277,7 +3307,9 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
                     LOGGING("Returning overflow %lf  for func %lld\n", sgFunc.resultOut, func);
                     return PyFloat_FromDouble(sgFunc.resultOut);
                 }
-                return PyLong_FromUnsignedLongLong(riptide::cast<uint64_t>(sgFunc.resultOutInt64));
+                return PyLong_FromUnsignedLongLong(invalid_for_type<double>::is_valid(sgFunc.resultOut) ?
+                                                       static_cast<uint64_t>(sgFunc.resultOutInt64) :
+                                                       invalid_for_type<uint64_t>::value);
             case NPY_FLOAT:
             case NPY_DOUBLE:
             case NPY_LONGDOUBLE:
-- 
2.43.0


From b65280eb1006d60f4d88b4c8ead6c04c3b156643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 15/57] fix: Reduce read past non-contiguous arrays of more
 than one dimension and crashed on those of none

---
 src/Reduce.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index dce5673..c642150 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3424,7 +3424,9 @@ PyObject * Reduce(PyObject * self, PyObject * args)
     if (IsFastArrayOrNumpy(inArr1))
     {
         // make sure not strided -- we don't currently handle those
-        if (PyArray_DIM(inArr1, 0) <= 1 || PyArray_STRIDE(inArr1, 0) == PyArray_ITEMSIZE(inArr1))
+        const int ndim = PyArray_NDIM(inArr1);
+        if (ndim > 0 && (PyArray_DIM(inArr1, 0) <= 1 || PyArray_STRIDE(inArr1, 0) == PyArray_ITEMSIZE(inArr1)) &&
+            (ndim == 1 || PyArray_IS_C_CONTIGUOUS(inArr1) || PyArray_IS_F_CONTIGUOUS(inArr1)))
         {
             PyObject * object2 = PyTuple_GET_ITEM(args, 1);
             if (PyLong_Check(object2))
-- 
2.43.0


From 1ed20490a402e373a64c33d3ea037642d6edd346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 16/57] fix: boolean selection of strided items of odd sizes
 wrote past the result

---
 src/Merge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 1e9c356..15bdea7 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -583,7 +583,7 @@ PyObject * BooleanIndexInternal(PyArrayObject * aValues, PyArrayObject * aIndex)
                                 if (*pBooleanMask++)
                                 {
                                     memcpy(pValuesOut, pValuesIn, itemSize);
-                                    pValuesOut += strideValues;
+                                    pValuesOut += itemSize;
                                 }
                                 pValuesIn += strideValues;
                             }
-- 
2.43.0


From 2412d4af62610a704f65495cd91ed8478dde89c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 17/57] fix: boolean selection mixed up elements of
 column-major arrays

---
 src/Merge.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 15bdea7..b3a7b67 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -261,9 +261,8 @@ PyObject * BooleanIndexInternal(PyArrayObject * aValues, PyArrayObject * aIndex)
     int result1 = GetStridesAndContig(aValues, ndimValue, strideValue);
     int result2 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
 
-    // This logic is not quite correct, if the strides on all dimensions are the
-    // same, we can use this routine
-    if (result1 != 0)
+    // The result lists the selected elements in row-major order, which must be the order in memory
+    if (result1 != 0 || ndimValue > 1)
     {
         if (! PyArray_ISCONTIGUOUS(aValues))
         {
@@ -273,7 +272,7 @@ PyObject * BooleanIndexInternal(PyArrayObject * aValues, PyArrayObject * aIndex)
             return NULL;
         }
     }
-    if (result2 != 0)
+    if (result2 != 0 || ndimBoolean > 1)
     {
         if (! PyArray_ISCONTIGUOUS(aIndex))
         {
-- 
2.43.0


From a19aaa1d95fc34f01f72e5010e3a900508fa32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 18/57] fix: mask to indices and mask counting ignored the
 layout of masks with gaps

---
 src/Merge.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index b3a7b67..fa8c0fc 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -744,6 +744,12 @@ PyObject * BooleanSum(PyObject * self, PyObject * args)
 
     int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
 
+    if (result1 != 0)
+    {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle a multidimensional boolean array that is not contiguous.");
+        return NULL;
+    }
+
     int64_t * pChunkCount = NULL;
     int64_t chunks = BooleanCount(aIndex, &pChunkCount, strideBoolean);
 
@@ -1508,6 +1514,13 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
     int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
 
+    // The positions count in row-major order, which must be the order in memory
+    if ((result1 != 0 || ndimBoolean > 1) && ! PyArray_ISCONTIGUOUS(aIndex))
+    {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle a multidimensional boolean array that is not contiguous.");
+        return NULL;
+    }
+
     // if bothMode is set, will return fancy index for both True and False
     bool bothMode = GetKwargBoth(kwargs);
 
@@ -1585,6 +1598,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
             int64_t * pChunkCount;
             int64_t * pChunkCountFalse;
             int8_t * pBooleanMask;
+            int64_t strideBoolean;
             void * pValuesOut;
             int64_t totalTrue;
             int dtype;
@@ -1598,6 +1612,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
             int64_t chunkCount = callbackArg->pChunkCount[start / g_cMathWorker->WORK_ITEM_CHUNK];
             int8_t * pBooleanMask = callbackArg->pBooleanMask;
+            const int64_t strideBoolean = callbackArg->strideBoolean;
             bool bothMode = callbackArg->bothMode;
 
             if (bothMode)
@@ -1616,7 +1631,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = i;
                         }
@@ -1636,7 +1651,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = (int32_t)i;
                         }
@@ -1656,7 +1671,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = i;
                         }
@@ -1669,7 +1684,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = (int32_t)i;
                         }
@@ -1684,6 +1699,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         stBTFCallback.pChunkCount = pChunkCount;
         stBTFCallback.pChunkCountFalse = pChunkCountFalse;
         stBTFCallback.pBooleanMask = (int8_t *)PyArray_BYTES(aIndex);
+        stBTFCallback.strideBoolean = strideBoolean;
         stBTFCallback.pValuesOut = (int64_t *)PyArray_BYTES(returnArray);
         stBTFCallback.dtype = dtype;
         stBTFCallback.totalTrue = totalTrue;
-- 
2.43.0


From da3086f80cf3b4cc6641324fe623aecadf7be74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 19/57] fix: results of fixed-size void arrays were allocated
 one byte per item and overrun

---
 src/RipTide.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 4998f22..82769b1 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -857,7 +857,7 @@ PyArrayObject * AllocateLikeResize(PyArrayObject * inArr, npy_intp rowSize)
         printf("!!! Cannot allocate for object\n");
         return nullptr;
     }
-    else if (PyTypeNum_ISSTRING(numpyType))
+    else if (PyTypeNum_ISFLEXIBLE(numpyType))
     {
         int64_t itemSize = NpyItemSize((PyObject *)inArr);
         result = AllocateNumpyArray(1, &rowSize, numpyType, itemSize);
-- 
2.43.0


From cbfe78b08a0c1dd76b4193aa8ff35b2e1eba0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 20/57] fix: mask to indices in both mode read past its counts
 for an empty mask

---
 src/Merge.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index fa8c0fc..63a8df0 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1537,7 +1537,6 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         // TJD: April 2019 note -- when the chunk size is between 65536 and 128000
         // it is really one chunk, but the code still works
         int64_t chunkSize = g_cMathWorker->WORK_ITEM_CHUNK;
-        int64_t chunks = (indexLength + (chunkSize - 1)) / chunkSize;
 
         // Also need false count
         pChunkCountFalse = (int64_t *)WORKSPACE_ALLOC(chunks * sizeof(int64_t));
-- 
2.43.0


From c8adb496f0a97ff272693b02ba52bacd33ff5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 21/57] fix: MBGet writes contiguous output for strided values
 in worker blocks

---
 src/Merge.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 63a8df0..e0a1178 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1107,7 +1107,8 @@ static bool GetItemCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int core,
         // work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        // the output is never strided
+        int64_t valueAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING(
-- 
2.43.0


From f704dd9e400d54abba915690ed32d30681645d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 22/57] fix: MBGet handles unsigned indexes as unsigned and
 does not skip output items

---
 src/Merge.cpp | 61 ++++++++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index e0a1178..914638e 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -860,7 +860,7 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             *pDataOut =
                 // Make sure the item is in range
-                index >= 0 && index < valLength ? pValues[index] : defaultVal;
+                (uint64_t)index < (uint64_t)valLength ? pValues[index] : defaultVal;
             pIndex++;
             pDataOut++;
         }
@@ -871,9 +871,8 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
         while (pDataOut != pDataOutEnd)
         {
             const INDEX index = *pIndex;
-            // Make sure the item is in range; if the index is negative -- but
-            // otherwise still in range -- mimic Python's negative-indexing support.
-            if (index >= 0 && index < valLength)
+            // Make sure the item is in range
+            if ((uint64_t)index < (uint64_t)valLength)
             {
                 *pDataOut = *(VALUE *)((char *)pValues + (strideValue * index));
             }
@@ -995,7 +994,7 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if ((uint64_t)index < (uint64_t)valLength)
             {
                 pSrc = pValues + (itemSize * index);
             }
@@ -1019,7 +1018,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else
@@ -1029,7 +1027,7 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if ((uint64_t)index < (uint64_t)valLength)
             {
                 pSrc = pValues + (strideValue * index);
             }
@@ -1051,7 +1049,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
@@ -1157,17 +1154,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int8_t>;
+            return GetItemUInt<int8_t, uint8_t>;
         case 2:
-            return GetItemUInt<int16_t, int8_t>;
+            return GetItemUInt<int16_t, uint8_t>;
         case 4:
-            return GetItemUInt<int32_t, int8_t>;
+            return GetItemUInt<int32_t, uint8_t>;
         case 8:
-            return GetItemUInt<int64_t, int8_t>;
+            return GetItemUInt<int64_t, uint8_t>;
         case 16:
-            return GetItemUInt<__m128, int8_t>;
+            return GetItemUInt<__m128, uint8_t>;
         default:
-            return GetItemUIntVariable<int8_t>;
+            return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -1192,17 +1189,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int16_t>;
+            return GetItemUInt<int8_t, uint16_t>;
         case 2:
-            return GetItemUInt<int16_t, int16_t>;
+            return GetItemUInt<int16_t, uint16_t>;
         case 4:
-            return GetItemUInt<int32_t, int16_t>;
+            return GetItemUInt<int32_t, uint16_t>;
         case 8:
-            return GetItemUInt<int64_t, int16_t>;
+            return GetItemUInt<int64_t, uint16_t>;
         case 16:
-            return GetItemUInt<__m128, int16_t>;
+            return GetItemUInt<__m128, uint16_t>;
         default:
-            return GetItemUIntVariable<int16_t>;
+            return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -1227,17 +1224,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int32_t>;
+            return GetItemUInt<int8_t, uint32_t>;
         case 2:
-            return GetItemUInt<int16_t, int32_t>;
+            return GetItemUInt<int16_t, uint32_t>;
         case 4:
-            return GetItemUInt<int32_t, int32_t>;
+            return GetItemUInt<int32_t, uint32_t>;
         case 8:
-            return GetItemUInt<int64_t, int32_t>;
+            return GetItemUInt<int64_t, uint32_t>;
         case 16:
-            return GetItemUInt<__m128, int32_t>;
+            return GetItemUInt<__m128, uint32_t>;
         default:
-            return GetItemUIntVariable<int32_t>;
+            return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1262,17 +1259,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int64_t>;
+            return GetItemUInt<int8_t, uint64_t>;
         case 2:
-            return GetItemUInt<int16_t, int64_t>;
+            return GetItemUInt<int16_t, uint64_t>;
         case 4:
-            return GetItemUInt<int32_t, int64_t>;
+            return GetItemUInt<int32_t, uint64_t>;
         case 8:
-            return GetItemUInt<int64_t, int64_t>;
+            return GetItemUInt<int64_t, uint64_t>;
         case 16:
-            return GetItemUInt<__m128, int64_t>;
+            return GetItemUInt<__m128, uint64_t>;
         default:
-            return GetItemUIntVariable<int64_t>;
+            return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From aa1757fa4f3abaf28dba710e4d95222324d1a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 23/57] fix: MBGet declines multidimensional arrays that are
 not in row major order

---
 src/Merge.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 914638e..bb52955 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1338,9 +1338,8 @@ PyObject * MBGet(PyObject * self, PyObject * args)
     int result1 = GetStridesAndContig(aValues, ndimValue, strideValue);
     int result2 = GetStridesAndContig(aIndex, ndimIndex, strideIndex);
 
-    // This logic is not quite correct, if the strides on all dimensions are the
-    // same, we can use this routine
-    if (result1 != 0)
+    // one loop visits the elements of a multidimensional array in row major order only if it is contiguous
+    if (result1 != 0 || ndimValue > 1)
     {
         if (! PyArray_ISCONTIGUOUS(aValues))
         {
@@ -1351,7 +1350,7 @@ PyObject * MBGet(PyObject * self, PyObject * args)
             return NULL;
         }
     }
-    if (result2 != 0)
+    if (result2 != 0 || ndimIndex > 1)
     {
         if (! PyArray_ISCONTIGUOUS(aIndex))
         {
-- 
2.43.0


From 1ff96824a4bd0f8c8355d8d935a46c7cc917a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 24/57] fix: MBGet string defaults cover the whole item, values
 without a default are declined

---
 src/Merge.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index bb52955..a813f38 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -5,6 +5,7 @@
 #include "Convert.h"
 
 #include <algorithm>
+#include <vector>
 
 // for _pext_u64
 #if defined(__GNUC__) || defined(__clang__)
@@ -1317,7 +1318,10 @@ PyObject * MBGet(PyObject * self, PyObject * args)
     int32_t numpyIndexType = PyArray_TYPE(aIndex);
 
     // TODO: For boolean call
-    if (numpyIndexType > NPY_LONGDOUBLE)
+    // There is no default for the other types of values
+    const bool noDefault =
+        numpyValuesType > NPY_LONGDOUBLE && numpyValuesType != NPY_STRING && numpyValuesType != NPY_UNICODE;
+    if (numpyIndexType > NPY_LONGDOUBLE || (noDefault && numpyIndexType != NPY_BOOL && ArrayLength(aIndex) > 0))
     {
         PyErr_Format(PyExc_ValueError, "Dont know how to convert these types %d using index dtype: %d", numpyValuesType,
                      numpyIndexType);
@@ -1391,6 +1395,14 @@ PyObject * MBGet(PyObject * self, PyObject * args)
                 // reserve a full 16 bytes for default in case we have oneS
                 _m256all tempDefault;
 
+                // strings are padded with zeros to the full width
+                std::vector<char> stringDefault;
+                if (numpyValuesType == NPY_STRING || numpyValuesType == NPY_UNICODE)
+                {
+                    stringDefault.resize(aValueItemSize);
+                    pDefault = stringDefault.data();
+                }
+
                 // Check if a default value was passed in as third parameter
                 if (defaultValue != Py_None)
                 {
@@ -1399,7 +1411,15 @@ PyObject * MBGet(PyObject * self, PyObject * args)
                     void * pTempData = NULL;
                     // Try to convert the scalar
                     result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
-                    if (result)
+                    if (PyBytes_Check(defaultValue) || PyUnicode_Check(defaultValue))
+                    {
+                        // only usable as the default if it is the kind of string held by the values
+                        if (result && numpyValuesType == (PyBytes_Check(defaultValue) ? NPY_STRING : NPY_UNICODE))
+                        {
+                            memcpy(stringDefault.data(), pTempData, std::min(itemSize, aValueItemSize));
+                        }
+                    }
+                    else if (result)
                     {
                         // Assign the new default for out of range indexes
                         pDefault = &tempDefault;
-- 
2.43.0


From 7f64cd17162fd40dcbbcadd997d03e5ebf38b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 25/57] fix: MBGet of 16 byte items does not require aligned
 arrays

---
 src/Merge.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index a813f38..5804d5e 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -764,6 +764,12 @@ PyObject * BooleanSum(PyObject * self, PyObject * args)
     return PyLong_FromSize_t(totalTrue);
 }
 
+// A 16 byte item, which need not be aligned
+struct GetItem16
+{
+    int64_t parts[2];
+};
+
 //----------------------------------------------------
 // Consider:  C=A[B]   where A is a value array
 // C must be the same type as A (and is also a value array)
@@ -1146,7 +1152,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int8_t>;
         case 16:
-            return GetItemInt<__m128, int8_t>;
+            return GetItemInt<GetItem16, int8_t>;
         default:
             return GetItemIntVariable<int8_t>;
         }
@@ -1163,7 +1169,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, uint8_t>;
         case 16:
-            return GetItemUInt<__m128, uint8_t>;
+            return GetItemUInt<GetItem16, uint8_t>;
         default:
             return GetItemUIntVariable<uint8_t>;
         }
@@ -1181,7 +1187,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int16_t>;
         case 16:
-            return GetItemInt<__m128, int16_t>;
+            return GetItemInt<GetItem16, int16_t>;
         default:
             return GetItemIntVariable<int16_t>;
         }
@@ -1198,7 +1204,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, uint16_t>;
         case 16:
-            return GetItemUInt<__m128, uint16_t>;
+            return GetItemUInt<GetItem16, uint16_t>;
         default:
             return GetItemUIntVariable<uint16_t>;
         }
@@ -1216,7 +1222,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int32_t>;
         case 16:
-            return GetItemInt<__m128, int32_t>;
+            return GetItemInt<GetItem16, int32_t>;
         default:
             return GetItemIntVariable<int32_t>;
         }
@@ -1233,7 +1239,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, uint32_t>;
         case 16:
-            return GetItemUInt<__m128, uint32_t>;
+            return GetItemUInt<GetItem16, uint32_t>;
         default:
             return GetItemUIntVariable<uint32_t>;
         }
@@ -1251,7 +1257,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int64_t>;
         case 16:
-            return GetItemInt<__m128, int64_t>;
+            return GetItemInt<GetItem16, int64_t>;
         default:
             return GetItemIntVariable<int64_t>;
         }
@@ -1268,7 +1274,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, uint64_t>;
         case 16:
-            return GetItemUInt<__m128, uint64_t>;
+            return GetItemUInt<GetItem16, uint64_t>;
         default:
             return GetItemUIntVariable<uint64_t>;
         }
-- 
2.43.0


From 75115a3b822f310e22660fec050f00266a661149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 26/57] fix: SetItem and PutMask leave strided arrays to NumPy

---
 src/Convert.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index d057913..b8ebe7f 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3851,7 +3851,8 @@ PyObject * SetItem(PyObject * self, PyObject * args)
             // check for strides, same itemsize, 1 dimensional
             // TODO: improvement when string itemsize is different length -- we can do
             // a custom string copy
-            if (PyArray_NDIM(arr) == 1 && PyArray_ITEMSIZE(arr) > 0 && PyArray_NDIM(inValues) == 1 &&
+            if (PyArray_NDIM(arr) == 1 && PyArray_ITEMSIZE(arr) > 0 && PyArray_NDIM(inValues) == 1 && PyArray_NDIM(mask) == 1 &&
+                PyArray_ISCONTIGUOUS(arr) && PyArray_ISCONTIGUOUS(mask) && PyArray_ISCONTIGUOUS(inValues) &&
                 PyArray_ITEMSIZE(inValues) == PyArray_ITEMSIZE(arr) && PyArray_TYPE(arr) == PyArray_TYPE(inValues))
             {
                 // Boolean path...
@@ -3936,9 +3937,10 @@ PyObject * PutMask(PyObject * self, PyObject * args)
             int64_t itemSizeOut = PyArray_ITEMSIZE(arr);
             int64_t itemSizeIn = PyArray_ITEMSIZE(inValues);
 
-            // check for strides... ?
+            // every array is read and written as one run of items
             int64_t arrayLength = ArrayLength(arr);
-            if (arrayLength == ArrayLength(mask) && (arrayLength <= 1 || itemSizeOut == PyArray_STRIDE(arr, 0)))
+            if (arrayLength == ArrayLength(mask) && PyArray_ISCONTIGUOUS(arr) && PyArray_ISCONTIGUOUS(mask) &&
+                PyArray_ISCONTIGUOUS(inValues))
             {
                 int64_t valLength = ArrayLength(inValues);
 
-- 
2.43.0


From 793bd12698393fbf0e529366fb86298d83633187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 27/57] fix: SetItem and PutMask handle values that cannot
 become an array

---
 src/Convert.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index b8ebe7f..abedc14 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3896,6 +3896,8 @@ PyObject * SetItem(PyObject * self, PyObject * args)
     }
     else
     {
+        // NumPy reports what is wrong with the value
+        PyErr_Clear();
         LOGGING("SetItem Could not convert value to array\n");
     }
     // punt to numpy
@@ -3926,6 +3928,10 @@ PyObject * PutMask(PyObject * self, PyObject * args)
     if (! PyArray_Check(value))
     {
         value = PyArray_FromAny(value, NULL, 0, 0, NPY_ARRAY_ENSUREARRAY, NULL);
+        if (! value)
+        {
+            return NULL;
+        }
     }
 
     if (PyArray_Check(arr) && PyArray_Check(mask) && PyArray_Check(value))
-- 
2.43.0


From 9b67234206513165fdb61a357803038d4afa9d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 28/57] fix: PutMask converts False and infinities as
 ConvertSafe does

---
 src/Convert.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index abedc14..e73baa4 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -147,7 +147,7 @@ public:
         {
             if (pMask[i])
             {
-                if (pIn[i] != pBadValueIn)
+                if (pIn[i] != pBadValueIn || std::is_same<T, bool>::value)
                 {
                     pOut[i] = (U)pIn[i];
                 }
@@ -187,7 +187,8 @@ public:
         {
             if (pMask[i])
             {
-                if (pIn[i] == pIn[i])
+                // an infinity has no integer value
+                if (std::is_floating_point<U>::value ? pIn[i] == pIn[i] : std::isfinite(pIn[i]))
                 {
                     pOut[i] = (U)pIn[i];
                 }
@@ -943,7 +944,7 @@ static MASK_CONVERT_SAFE GetConversionPutMask(int inputType, int outputType)
     {
         // case NPY_BOOL:   return GetConversionStep2Safe<bool>(outputType);
     case NPY_BOOL:
-        return GetConversionPutMask2<int8_t>(outputType);
+        return GetConversionPutMask2<bool>(outputType);
     case NPY_FLOAT:
         return GetConversionPutMask2Float<float>(outputType);
     case NPY_DOUBLE:
-- 
2.43.0


From 586697fb0ccfcae504957ba0a34a1d5ae8aa20aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 29/57] fix: BitCount rejects arrays that are not contiguous

---
 src/BitCount.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BitCount.cpp b/src/BitCount.cpp
index 59b181e..f897924 100644
--- a/src/BitCount.cpp
+++ b/src/BitCount.cpp
@@ -26,6 +26,12 @@ PyObject * BitCount(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!", &PyArray_Type, &inArr))
         return NULL;
 
+    if (! PyArray_ISCONTIGUOUS(inArr))
+    {
+        PyErr_Format(PyExc_ValueError, "BitCount array is not contiguous");
+        return NULL;
+    }
+
     const int ndim = PyArray_NDIM(inArr);
     // N.B. AllocateNumpyArray doesn't accept const pointer for dims
     npy_intp * dims = PyArray_DIMS(inArr);
-- 
2.43.0


From 2d126148f4e58328fe6124baae24e2db8071879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 30/57] fix: ReIndexGroups and ReverseShuffle reject arrays
 that are not contiguous

---
 src/Merge.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 5804d5e..620686f 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1873,6 +1873,12 @@ PyObject * ReIndexGroups(PyObject * self, PyObject * args)
     {
         return NULL;
     }
+    if (! PyArray_ISCONTIGUOUS(ikey) || ! PyArray_ISCONTIGUOUS(uikey) || ! PyArray_ISCONTIGUOUS(u_cutoffs) ||
+        ! PyArray_ISCONTIGUOUS(i_cutoffs))
+    {
+        PyErr_Format(PyExc_ValueError, "ReIndexGroups: arrays must be contiguous");
+        return NULL;
+    }
     if (PyArray_ITEMSIZE(u_cutoffs) != 8)
     {
         PyErr_Format(PyExc_ValueError, "u-cutoffs must be int64");
@@ -1986,6 +1992,12 @@ PyObject * ReverseShuffle(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! PyArray_ISCONTIGUOUS(ikey))
+    {
+        PyErr_Format(PyExc_ValueError, "ReverseShuffle: ikey must be contiguous");
+        return NULL;
+    }
+
     PyArrayObject * pReturnArray = AllocateLikeNumpyArray(ikey, dtype);
 
     if (pReturnArray)
-- 
2.43.0


From 743f5a25fc6d812ca34685b13cbd69ea9e1a0d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 31/57] fix: Where fits scalar strings to the output width and
 frees them

---
 src/BasicMath.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 2f66ef2..2298056 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3900,7 +3900,7 @@ PyObject * Where(PyObject * self, PyObject * args)
                     // These are small allocs that should never fail
                     extraAlloc1 = (char *)malloc(numpyItemSize);
                     memset(extraAlloc1, 0, numpyItemSize);
-                    memcpy(extraAlloc1, pInput1, itemSize1);
+                    memcpy(extraAlloc1, pInput1, std::min(itemSize1, numpyItemSize));
 
                     // swap out for the new one
                     pInput1 = extraAlloc1;
@@ -3909,7 +3909,7 @@ PyObject * Where(PyObject * self, PyObject * args)
                 {
                     extraAlloc2 = (char *)malloc(numpyItemSize);
                     memset(extraAlloc2, 0, numpyItemSize);
-                    memcpy(extraAlloc2, pInput2, itemSize2);
+                    memcpy(extraAlloc2, pInput2, std::min(itemSize2, numpyItemSize));
                     pInput2 = extraAlloc2;
                 }
             }
@@ -3961,7 +3961,7 @@ PyObject * Where(PyObject * self, PyObject * args)
             {
                 free(extraAlloc1);
             }
-            if (extraAlloc2 == nullptr)
+            if (extraAlloc2)
             {
                 free(extraAlloc2);
             }
-- 
2.43.0


From 4cbc6be6c2c360ccac59d1ff69ba3d6d6869438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 32/57] fix: Where of choices that are not a whole number of
 items apart

---
 src/BasicMath.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 2298056..46d9d9a 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3620,7 +3620,8 @@ bool WhereCallback(void * callbackArgT, int core, int64_t start, int64_t length)
 
                 // calculate the address delta since we know input1 and input2 are the
                 // same itemsize assumes 64bit addressing
-                uint64_t delta = pInput2 - pInput1;
+                // (in bytes, as the two inputs need not be a whole number of items apart)
+                uint64_t delta = (char *)pInput2 - (char *)pInput1;
                 uint64_t ulength = (uint64_t)length;
 
                 for (uint64_t i = 0; i < ulength; i++)
@@ -3628,7 +3629,7 @@ bool WhereCallback(void * callbackArgT, int core, int64_t start, int64_t length)
                     // The condition is either 1 or 0.  if 1 we use the address delta to get
                     // from input2 to input1
                     uint64_t test = pCondition[i] == 0;
-                    pOutput[i] = pInput1[i + delta * test];
+                    pOutput[i] = *(T *)((char *)&pInput1[i] + delta * test);
                 }
 
                 // This is slower on msft windows compiler
-- 
2.43.0


From 8fb69f8ddeb226a4658abb019f7d10ee21d9ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 33/57] fix: Where leaves strided conditions and choices of
 another width to NumPy

---
 src/BasicMath.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 46d9d9a..174ed07 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3851,6 +3851,13 @@ PyObject * Where(PyObject * self, PyObject * args)
         return nullptr;
     }
 
+    if (PyArray_NDIM(inBool1) != 1 || ! PyArray_ISCONTIGUOUS(inBool1))
+    {
+        // punt to numpy
+        Py_INCREF(Py_None);
+        return Py_None;
+    }
+
     // Examine data
     CTwoInputs twoInputs((int)numpyOutputType, 0);
 
@@ -3865,6 +3872,19 @@ PyObject * Where(PyObject * self, PyObject * args)
 
     result = twoInputs.CheckInputs(tuple, 0, MATH_OPERATION::WHERE);
 
+    if (PyErr_Occurred())
+    {
+        return nullptr;
+    }
+
+    // the items of an array are copied as they are
+    const bool array1 = twoInputs.scalarMode == SCALAR_MODE::NO_SCALARS || twoInputs.scalarMode == SCALAR_MODE::SECOND_ARG_SCALAR;
+    const bool array2 = twoInputs.scalarMode == SCALAR_MODE::NO_SCALARS || twoInputs.scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR;
+    if (result && ((array1 && twoInputs.itemSize1 != numpyItemSize) || (array2 && twoInputs.itemSize2 != numpyItemSize)))
+    {
+        result = false;
+    }
+
     if (result)
     {
         LOGGING(
-- 
2.43.0


From 0c71af3b98035a74a44ca6e8cf21cb160db5b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 34/57] fix: RemoveTrailingSpaces honours the stride of the
 array

---
 src/Convert.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index e73baa4..d6a3524 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -2562,11 +2562,11 @@ PyObject * MakeiFirst(PyObject * self, PyObject * args)
 
 //=====================================================================================
 //
-void TrailingSpaces(char * pStringArray, int64_t length, int64_t itemSize)
+void TrailingSpaces(char * pStringArray, int64_t length, int64_t itemSize, int64_t stride)
 {
     for (int64_t i = 0; i < length; i++)
     {
-        char * pStart = pStringArray + (i * itemSize);
+        char * pStart = pStringArray + (i * stride);
         char * pEnd = pStart + itemSize - 1;
         while (pEnd >= pStart && (*pEnd == ' ' || *pEnd == 0))
         {
@@ -2577,13 +2577,13 @@ void TrailingSpaces(char * pStringArray, int64_t length, int64_t itemSize)
 
 //=====================================================================================
 //
-void TrailingSpacesUnicode(uint32_t * pUnicodeArray, int64_t length, int64_t itemSize)
+void TrailingSpacesUnicode(char * pUnicodeArray, int64_t length, int64_t itemSize, int64_t stride)
 {
     itemSize = itemSize / 4;
 
     for (int64_t i = 0; i < length; i++)
     {
-        uint32_t * pStart = pUnicodeArray + (i * itemSize);
+        uint32_t * pStart = (uint32_t *)(pUnicodeArray + (i * stride));
         uint32_t * pEnd = pStart + itemSize - 1;
         while (pEnd >= pStart && (*pEnd == 32 || *pEnd == 0))
         {
@@ -2612,14 +2612,26 @@ PyObject * RemoveTrailingSpaces(PyObject * self, PyObject * args)
         void * pDataIn1 = PyArray_BYTES(inArr1);
         int64_t arraySize1 = ArrayLength(inArr1);
         int64_t itemSize = PyArray_ITEMSIZE(inArr1);
+        int64_t stride = itemSize;
+
+        // the order of the items does not matter here, but gaps between them do
+        if (PyArray_NDIM(inArr1) == 1)
+        {
+            stride = PyArray_STRIDE(inArr1, 0);
+        }
+        else if (! PyArray_ISONESEGMENT(inArr1))
+        {
+            PyErr_Format(PyExc_ValueError, "RemoveTrailingSpaces: multidimensional arrays must be contiguous");
+            return NULL;
+        }
 
         if (dtype == NPY_STRING)
         {
-            TrailingSpaces((char *)pDataIn1, arraySize1, itemSize);
+            TrailingSpaces((char *)pDataIn1, arraySize1, itemSize, stride);
         }
         else
         {
-            TrailingSpacesUnicode((uint32_t *)pDataIn1, arraySize1, itemSize);
+            TrailingSpacesUnicode((char *)pDataIn1, arraySize1, itemSize, stride);
         }
 
         Py_IncRef((PyObject *)inArr1);
-- 
2.43.0


From 7c44df00c5bc0620be8f228c154aa6fc3f4a345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 35/57] fix: string concatenation leaves multidimensional
 arrays to NumPy

---
 src/BasicMath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 174ed07..384be56 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3347,6 +3347,12 @@ static PyObject * PossiblyAddUnicode(CTwoInputs & twoInputs)
 {
     int32_t inType = -1;
 
+    // the result is one dimensional: punt anything else to numpy
+    if (twoInputs.ndim1 > 1 || twoInputs.ndim2 > 1)
+    {
+        return nullptr;
+    }
+
     if (twoInputs.scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR &&
         (twoInputs.numpyInType2 == NPY_STRING || twoInputs.numpyInType2 == NPY_UNICODE))
     {
-- 
2.43.0


From d3a4e057467eb2edd83b9eb03fd8f5c693b2aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 36/57] fix: records without fields never stopped converting

---
 src/TileRepeat.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TileRepeat.cpp b/src/TileRepeat.cpp
index 5b46e1f..15d98b4 100644
--- a/src/TileRepeat.cpp
+++ b/src/TileRepeat.cpp
@@ -153,6 +153,9 @@ void ConvertRecArray(char * pStartOffset, int64_t startRow, int64_t totalRows, s
                 break;
             }
         }
+
+        // also when there is no field to copy
+        startRow = endRow;
     }
 }
 
-- 
2.43.0


From 65fd9eec576222748e2be5fa8d5166c16d9dfef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 37/57] fix: combined group numbers were truncated before the
 range check, overflowing sizes accepted

---
 src/Convert.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index d6a3524..5d2e853 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1579,7 +1579,7 @@ static void CombineAccum2Mask(void * pDataIn1T, void * pDataIn2T, void * pDataOu
     U * pDataIn2 = (U *)pDataIn2T;
     V * pDataOut = (V *)pDataOutT;
 
-    const V maxbin = (V)maxbinT;
+    const int64_t maxbin = maxbinT;
 
     if (pCountOut2)
     {
@@ -1592,11 +1592,11 @@ static void CombineAccum2Mask(void * pDataIn1T, void * pDataIn2T, void * pDataOu
             {
                 if (pFilter[i])
                 {
-                    V bin = (V)(pDataIn2[i] * multiplier + pDataIn1[i]);
+                    int64_t bin = pDataIn2[i] * multiplier + pDataIn1[i];
                     if (bin >= 0 && bin < maxbin)
                     {
                         pCountOut[bin]++;
-                        pDataOut[i] = bin;
+                        pDataOut[i] = (V)bin;
                     }
                     else
                     {
@@ -1615,11 +1615,11 @@ static void CombineAccum2Mask(void * pDataIn1T, void * pDataIn2T, void * pDataOu
         {
             for (int64_t i = 0; i < len; i++)
             {
-                V bin = (V)(pDataIn2[i] * multiplier + pDataIn1[i]);
+                int64_t bin = pDataIn2[i] * multiplier + pDataIn1[i];
                 if (bin >= 0 && bin < maxbin)
                 {
                     pCountOut[bin]++;
-                    pDataOut[i] = bin;
+                    pDataOut[i] = (V)bin;
                 }
                 else
                 {
@@ -1638,10 +1638,10 @@ static void CombineAccum2Mask(void * pDataIn1T, void * pDataIn2T, void * pDataOu
             {
                 if (pFilter[i])
                 {
-                    V bin = (V)(pDataIn2[i] * multiplier + pDataIn1[i]);
+                    int64_t bin = pDataIn2[i] * multiplier + pDataIn1[i];
                     if (bin >= 0 && bin < maxbin)
                     {
-                        pDataOut[i] = bin;
+                        pDataOut[i] = (V)bin;
                     }
                     else
                     {
@@ -1780,6 +1780,12 @@ PyObject * CombineAccum2Filter(PyObject * self, PyObject * args)
     inArr1Max++;
     inArr2Max++;
 
+    if (inArr1Max > 0 && inArr2Max > INT64_MAX / inArr1Max)
+    {
+        PyErr_Format(PyExc_ValueError, "CombineAccum2Filter: Index sizes are too large %lld %lld", inArr1Max, inArr2Max);
+        return NULL;
+    }
+
     int64_t hashSize = inArr1Max * inArr2Max;
     // printf("Combine hashsize is %lld     %lld x %lld\n", hashSize, inArr1Max,
     // inArr2Max);
@@ -1818,7 +1824,7 @@ PyObject * CombineAccum2Filter(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (hashSize < 0)
+    if (inArr1Max < 0 || inArr2Max < 0 || hashSize < 0)
     {
         PyErr_Format(PyExc_ValueError, "CombineAccum2Filter: Index sizes are negative %lld", hashSize);
         return NULL;
-- 
2.43.0


From fc762020db9150838a5417c03bdbed587ac77564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 38/57] fix: combining groups and filters misread arrays that
 are not contiguous and ignored unsupported filters

---
 src/Convert.cpp | 63 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 5d2e853..b665989 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1460,6 +1460,23 @@ static bool CombineThreadCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int
     return didSomeWork;
 }
 
+//=====================================================================================
+// The combine routines walk the raw memory of their arrays in parallel.
+// Returns false and sets the error if the two arrays are not laid out alike without gaps.
+static bool CheckCombineLayout(const char * name, PyArrayObject * inArr1, PyArrayObject * inArr2)
+{
+    if (PyArray_IS_C_CONTIGUOUS(inArr1) && PyArray_IS_C_CONTIGUOUS(inArr2))
+    {
+        return true;
+    }
+    if (PyArray_IS_F_CONTIGUOUS(inArr1) && PyArray_IS_F_CONTIGUOUS(inArr2) && PyArray_SAMESHAPE(inArr1, inArr2))
+    {
+        return true;
+    }
+    PyErr_Format(PyExc_ValueError, "%s: the arrays must be contiguous", name);
+    return false;
+}
+
 //=====================================================================================
 // Input: Two parameters
 // Arg1: Index array
@@ -1497,6 +1514,11 @@ PyObject * CombineFilter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! CheckCombineLayout("CombineFilter", inArr1, inFilter))
+    {
+        return NULL;
+    }
+
     // SWTICH
     COMBINE_MASK pFunction = NULL;
 
@@ -1522,7 +1544,7 @@ PyObject * CombineFilter(PyObject * self, PyObject * args)
 
     if (pFunction != NULL)
     {
-        PyArrayObject * outArray = AllocateNumpyArray(ndim, dims, numpyOutType);
+        PyArrayObject * outArray = AllocateNumpyArray(ndim, dims, numpyOutType, 0, PyArray_IS_F_CONTIGUOUS(inArr1));
         CHECK_MEMORY_ERROR(outArray);
 
         if (outArray)
@@ -1804,6 +1826,11 @@ PyObject * CombineAccum2Filter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! CheckCombineLayout("CombineAccum2Filter", inArr1, inArr2))
+    {
+        return NULL;
+    }
+
     if (PyArray_Check(inFilter))
     {
         if (arraySize1 != ArrayLength((PyArrayObject *)inFilter))
@@ -1816,6 +1843,10 @@ PyObject * CombineAccum2Filter(PyObject * self, PyObject * args)
             PyErr_Format(PyExc_ValueError, "CombineAccum2Filter: Filter is not type NPY_BOOL");
             return NULL;
         }
+        if (! CheckCombineLayout("CombineAccum2Filter", inArr1, (PyArrayObject *)inFilter))
+        {
+            return NULL;
+        }
         pFilterIn = (int8_t *)PyArray_BYTES((PyArrayObject *)inFilter);
     }
     else if (inFilter != Py_None)
@@ -2252,8 +2283,21 @@ PyObject * CombineAccum1Filter(PyObject * self, PyObject * args)
             PyErr_Format(PyExc_ValueError, "CombineAccum1Filter: Filter is not type NPY_BOOL");
             return NULL;
         }
+        if (! CheckCombineLayout("CombineAccum1Filter", inArr1, (PyArrayObject *)inFilter))
+        {
+            return NULL;
+        }
         pFilterIn = (int8_t *)PyArray_BYTES((PyArrayObject *)inFilter);
     }
+    else if (inFilter != Py_None)
+    {
+        PyErr_Format(PyExc_ValueError, "CombineAccum1Filter: unsupported filter type, %s", Py_TYPE(inFilter)->tp_name);
+        return NULL;
+    }
+    else if (! CheckCombineLayout("CombineAccum1Filter", inArr1, inArr1))
+    {
+        return NULL;
+    }
 
     inArr1Max++;
     int64_t hashSize = inArr1Max;
@@ -2493,8 +2537,21 @@ PyObject * MakeiFirst(PyObject * self, PyObject * args)
             PyErr_Format(PyExc_ValueError, "MakeiFirst: Filter is not type NPY_BOOL");
             return NULL;
         }
+        if (! CheckCombineLayout("MakeiFirst", inArr1, (PyArrayObject *)inFilter))
+        {
+            return NULL;
+        }
         pFilterIn = (int8_t *)PyArray_BYTES((PyArrayObject *)inFilter);
     }
+    else if (inFilter != Py_None)
+    {
+        PyErr_Format(PyExc_ValueError, "MakeiFirst: unsupported filter type, %s", Py_TYPE(inFilter)->tp_name);
+        return NULL;
+    }
+    else if (! CheckCombineLayout("MakeiFirst", inArr1, inArr1))
+    {
+        return NULL;
+    }
 
     inArr1Max++;
     int64_t hashSize = inArr1Max;
@@ -2563,6 +2620,10 @@ PyObject * MakeiFirst(PyObject * self, PyObject * args)
             return (PyObject *)firstArray;
         }
     }
+    else
+    {
+        PyErr_Format(PyExc_ValueError, "MakeiFirst: Unsupported index type, %d", dtype);
+    }
     return NULL;
 }
 
-- 
2.43.0


From 48a0f6f587ec65aba0c632315950fc3daa41e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 39/57] fix: next and previous rows of narrow groups
 overflowed, rows out of range were left uninitialized

---
 src/MultiKey.cpp | 55 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index d2bd21d..8e91e47 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -484,22 +484,22 @@ public:
 };
 
 //-------------------------------------------------------
-// Calculate inext from ikey, keep same dtype
+// Calculate inext from ikey, keep same dtype if it can hold the row numbers
 // if there is no next it will be the invalid
-template <typename KEYTYPE>
+template <typename KEYTYPE, typename OUTTYPE>
 void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pIndexArrayK, void * pNextArrayK)
 {
     KEYTYPE * pIndexArray = (KEYTYPE *)pIndexArrayK;
-    KEYTYPE * pNextArray = (KEYTYPE *)pNextArrayK;
+    OUTTYPE * pNextArray = (OUTTYPE *)pNextArrayK;
 
     // TODO: option to pass this in
     numUnique += GB_BASE_INDEX;
 
     // get the invalid for int8/16/32/64
-    KEYTYPE invalid = *(KEYTYPE *)GetInvalid<KEYTYPE>();
+    OUTTYPE invalid = *(OUTTYPE *)GetInvalid<OUTTYPE>();
 
-    int64_t size = sizeof(KEYTYPE) * numUnique;
-    KEYTYPE * pGroupArray = (KEYTYPE *)WORKSPACE_ALLOC(size);
+    int64_t size = sizeof(OUTTYPE) * numUnique;
+    OUTTYPE * pGroupArray = (OUTTYPE *)WORKSPACE_ALLOC(size);
 
     if (pGroupArray)
     {
@@ -518,7 +518,11 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
                 if (group >= 0 && group < numUnique)
                 {
                     pNextArray[i] = pGroupArray[group];
-                    pGroupArray[group] = (KEYTYPE)i;
+                    pGroupArray[group] = (OUTTYPE)i;
+                }
+                else
+                {
+                    pNextArray[i] = invalid;
                 }
             }
         }
@@ -531,7 +535,11 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
                 if (group >= 0 && group < numUnique)
                 {
                     pNextArray[i] = pGroupArray[group];
-                    pGroupArray[group] = (KEYTYPE)i;
+                    pGroupArray[group] = (OUTTYPE)i;
+                }
+                else
+                {
+                    pNextArray[i] = invalid;
                 }
             }
         }
@@ -571,27 +579,44 @@ PyObject * MakeiNext(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    PyArrayObject * pReturnArray = AllocateLikeNumpyArray(ikey, dtype);
+    if (! PyArray_IS_C_CONTIGUOUS(ikey))
+    {
+        PyErr_Format(PyExc_ValueError, "MakeINext: ikey must be contiguous");
+        return NULL;
+    }
+
+    int64_t arrlength = ArrayLength(ikey);
+    int64_t itemsize = PyArray_ITEMSIZE(ikey);
+
+    // row numbers which do not fit in the dtype of ikey need a larger one
+    bool widen = (itemsize == 1 && arrlength > 0x80) || (itemsize == 2 && arrlength > 0x8000);
+
+    PyArrayObject * pReturnArray = AllocateLikeNumpyArray(ikey, widen ? NPY_INT32 : dtype);
 
     if (pReturnArray)
     {
-        int64_t arrlength = ArrayLength(ikey);
         void * pIKey = PyArray_BYTES(ikey);
         void * pOutKey = PyArray_BYTES(pReturnArray);
 
-        switch (PyArray_ITEMSIZE(ikey))
+        switch (itemsize)
         {
         case 1:
-            MakeNextKey<int8_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            if (widen)
+                MakeNextKey<int8_t, int32_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            else
+                MakeNextKey<int8_t, int8_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
         case 2:
-            MakeNextKey<int16_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            if (widen)
+                MakeNextKey<int16_t, int32_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            else
+                MakeNextKey<int16_t, int16_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
         case 4:
-            MakeNextKey<int32_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            MakeNextKey<int32_t, int32_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
         case 8:
-            MakeNextKey<int64_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            MakeNextKey<int64_t, int64_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
 
         default:
-- 
2.43.0


From 0f58bd2aa160d055a028ef5ca11668b532f3f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 40/57] fix: group structures read keys that are not contiguous
 integers as if they were, empty and out of range groups wrote out of bounds

---
 src/MultiKey.cpp | 85 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 73 insertions(+), 12 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 8e91e47..0b19897 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -483,6 +483,36 @@ public:
     }
 };
 
+//-------------------------------------------------------
+// The grouping routines walk the raw memory of the group numbers.
+// Returns false and sets the error if these are not contiguous signed integers.
+static bool CheckGroupKeys(const char * name, PyArrayObject * keys)
+{
+    int dtype = PyArray_TYPE(keys);
+
+    if (dtype >= 10 || (dtype & 1) == 0)
+    {
+        PyErr_Format(PyExc_ValueError, "%s: the keys must be int8/16/32/64", name);
+        return false;
+    }
+    if (! PyArray_IS_C_CONTIGUOUS(keys))
+    {
+        PyErr_Format(PyExc_ValueError, "%s: the keys must be contiguous", name);
+        return false;
+    }
+    return true;
+}
+
+static bool CheckUniqueCount(const char * name, int64_t uniqueCount)
+{
+    if (uniqueCount < 0)
+    {
+        PyErr_Format(PyExc_ValueError, "%s: the number of uniques is negative", name);
+        return false;
+    }
+    return true;
+}
+
 //-------------------------------------------------------
 // Calculate inext from ikey, keep same dtype if it can hold the row numbers
 // if there is no next it will be the invalid
@@ -573,15 +603,8 @@ PyObject * MakeiNext(PyObject * self, PyObject * args)
     int dtype = PyArray_TYPE(ikey);
 
     // check for only signed ints
-    if (dtype >= 10 || (dtype & 1) == 0)
+    if (! CheckGroupKeys("MakeINext", ikey) || ! CheckUniqueCount("MakeINext", unique_rows))
     {
-        PyErr_Format(PyExc_ValueError, "MakeINext: ikey must be int8/16/32/64");
-        return NULL;
-    }
-
-    if (! PyArray_IS_C_CONTIGUOUS(ikey))
-    {
-        PyErr_Format(PyExc_ValueError, "MakeINext: ikey must be contiguous");
         return NULL;
     }
 
@@ -633,6 +656,7 @@ PyObject * MakeiNext(PyObject * self, PyObject * args)
 
 //-------------------------------------------------------
 // When next was not calculated
+// Returns NULL if a bin is out of range
 template <typename K>
 int32_t * GroupByPackFixup32(int64_t numUnique, int64_t totalRows, void * pIndexArrayK, int32_t * pGroupArray)
 {
@@ -661,6 +685,12 @@ int32_t * GroupByPackFixup32(int64_t numUnique, int64_t totalRows, void * pIndex
     {
         K group = pIndexArray[i];
 
+        if (group < 0 || group >= numUnique)
+        {
+            WORKSPACE_FREE(pNextArray);
+            return NULL;
+        }
+
         pNextArray[i] = pGroupArray[group];
 
         // printf("%d  - group %d next %d\n", i, (int)group, pNextArray[i]);
@@ -707,8 +737,11 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
 
         int32_t i = (int32_t)totalRows;
 
-        // TODO -- how to handle empty?
-        pSortArray[0] = GB_INVALID_INDEX;
+        // there is no row to mark when empty
+        if (totalRows > 0)
+        {
+            pSortArray[0] = GB_INVALID_INDEX;
+        }
         pFirstArray[0] = GB_INVALID_INDEX;
         pCountArray[0] = 0;
 
@@ -750,7 +783,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
         {
             // Check if first item is filtered out
             // If so, go ahead and chain this now
-            if (pIndexArray[0] == 0)
+            if (totalRows > 0 && pIndexArray[0] == 0)
             {
                 int32_t count = runningCount;
 
@@ -805,7 +838,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
             LOGGING("running count %d\n", runningCount);
 
             // Check if first item was not filtered out
-            if (pIndexArray[0] != 0)
+            if (totalRows > 0 && pIndexArray[0] != 0)
             {
                 // Have to search for invalid bins
                 for (int32_t i = 0; i < totalRows; i++)
@@ -875,6 +908,11 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! CheckGroupKeys("GroupByPack32", indexArray) || ! CheckUniqueCount("GroupByPack32", numUnique))
+    {
+        return NULL;
+    }
+
     try
     {
         int64_t totalRows = ArrayLength(indexArray);
@@ -914,6 +952,13 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
                 PyErr_Format(PyExc_ValueError, "GroupByPack32 index must be int8 int16, int32, int64");
                 return NULL;
             }
+
+            if (! pNextArray)
+            {
+                WORKSPACE_FREE(pGroupArray);
+                PyErr_Format(PyExc_ValueError, "GroupByPack32 index has a bin out of range");
+                return NULL;
+            }
         }
         else
         {
@@ -922,6 +967,12 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
                 PyErr_Format(PyExc_ValueError, "GroupByPack32 array length does not match %llu", totalRows);
                 return NULL;
             }
+            if (PyArray_ITEMSIZE((PyArrayObject *)nextArray) != sizeof(int32_t) ||
+                ! CheckGroupKeys("GroupByPack32", (PyArrayObject *)nextArray))
+            {
+                PyErr_Format(PyExc_ValueError, "GroupByPack32 next must be a contiguous int32 array");
+                return NULL;
+            }
             pNextArray = (int32_t *)PyArray_BYTES((PyArrayObject *)nextArray);
         }
 
@@ -2091,6 +2142,11 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! CheckGroupKeys("GroupFromBinCount", iKey) || ! CheckGroupKeys("GroupFromBinCount", nCountGroup))
+    {
+        return NULL;
+    }
+
     int32_t iKeyType = PyArray_TYPE(iKey);
     int64_t totalRows = ArrayLength(iKey);
     int64_t totalUnique = ArrayLength(nCountGroup);
@@ -2439,6 +2495,11 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
         return NULL;
     }
 
+    if (! CheckGroupKeys("BinCount", iKey) || ! CheckUniqueCount("BinCount", unique_rows))
+    {
+        return NULL;
+    }
+
     int32_t iKeyType = PyArray_TYPE(iKey);
     int64_t totalRows = ArrayLength(iKey);
     int64_t pack = GetPack(kwargs);
-- 
2.43.0


From 4a95c3c5b5b5ab64b9a82aabacf31d5fbce062ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 41/57] fix: GroupByPack32 followed the links of MakeiNext,
 which end in the invalid integer, out of bounds

---
 src/MultiKey.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 0b19897..6a73c02 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -768,7 +768,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                 pFirstArray[lookfor] = runningCount;
 
                 // We are at the head of the list, now count up how many
-                while (j != GB_INVALID_INDEX)
+                while (j >= 0)
                 {
                     pSortArray[runningCount++] = j;
                     j = pNextArray[j];
@@ -794,7 +794,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                 int32_t j = pNextArray[0];
 
                 // We are at the head of the list, now count up how many
-                while (j != GB_INVALID_INDEX)
+                while (j >= 0)
                 {
                     pSortArray[runningCount++] = j;
                     j = pNextArray[j];
@@ -822,7 +822,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                     int32_t j = pNextArray[i];
 
                     // We are at the head of the list, now count up how many
-                    while (j != GB_INVALID_INDEX)
+                    while (j >= 0)
                     {
                         pSortArray[runningCount++] = j;
                         j = pNextArray[j];
@@ -857,7 +857,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
                         int32_t j = pNextArray[i];
 
                         // We are at the head of the list, now count up how many
-                        while (j != GB_INVALID_INDEX)
+                        while (j >= 0)
                         {
                             pSortArray[runningCount++] = j;
                             j = pNextArray[j];
-- 
2.43.0


From 1abc7bc0501e22ae73276579eef58ba05584c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 42/57] fix: merge, heap and quick sorts compared doubles as
 floats

---
 src/Sort.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 433027a..38b159e 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -859,11 +859,11 @@ static int aheapsort_float(T * vv, UINDEX * tosort, UINDEX n)
         tmp = a[l];
         for (i = l, j = l << 1; j <= n;)
         {
-            if (j < n && COMPARE_LT<float, Ascending>(v[a[j]], v[a[j + 1]]))
+            if (j < n && COMPARE_LT<T, Ascending>(v[a[j]], v[a[j + 1]]))
             {
                 j += 1;
             }
-            if (COMPARE_LT<float, Ascending>(v[tmp], v[a[j]]))
+            if (COMPARE_LT<T, Ascending>(v[tmp], v[a[j]]))
             {
                 a[i] = a[j];
                 i = j;
@@ -884,11 +884,11 @@ static int aheapsort_float(T * vv, UINDEX * tosort, UINDEX n)
         n -= 1;
         for (i = 1, j = 2; j <= n;)
         {
-            if (j < n && COMPARE_LT<float, Ascending>(v[a[j]], v[a[j + 1]]))
+            if (j < n && COMPARE_LT<T, Ascending>(v[a[j]], v[a[j + 1]]))
             {
                 j++;
             }
-            if (COMPARE_LT<float, Ascending>(v[tmp], v[a[j]]))
+            if (COMPARE_LT<T, Ascending>(v[tmp], v[a[j]]))
             {
                 a[i] = a[j];
                 i = j;
@@ -1122,11 +1122,11 @@ static int aquicksort_float(T * vv, UINDEX * tosort, UINDEX num)
         {
             /* quicksort partition */
             pm = pl + ((pr - pl) >> 1);
-            if (COMPARE_LT<float, Ascending>(v[*pm], v[*pl]))
+            if (COMPARE_LT<T, Ascending>(v[*pm], v[*pl]))
                 INTP_SWAP(*pm, *pl);
-            if (COMPARE_LT<float, Ascending>(v[*pr], v[*pm]))
+            if (COMPARE_LT<T, Ascending>(v[*pr], v[*pm]))
                 INTP_SWAP(*pr, *pm);
-            if (COMPARE_LT<float, Ascending>(v[*pm], v[*pl]))
+            if (COMPARE_LT<T, Ascending>(v[*pm], v[*pl]))
                 INTP_SWAP(*pm, *pl);
             vp = v[*pm];
             pi = pl;
@@ -1136,10 +1136,10 @@ static int aquicksort_float(T * vv, UINDEX * tosort, UINDEX num)
             {
                 do
                     ++pi;
-                while (COMPARE_LT<float, Ascending>(v[*pi], vp));
+                while (COMPARE_LT<T, Ascending>(v[*pi], vp));
                 do
                     --pj;
-                while (COMPARE_LT<float, Ascending>(vp, v[*pj]));
+                while (COMPARE_LT<T, Ascending>(vp, v[*pj]));
                 if (pi >= pj)
                 {
                     break;
@@ -1171,7 +1171,7 @@ static int aquicksort_float(T * vv, UINDEX * tosort, UINDEX num)
             vp = v[vi];
             pj = pi;
             pk = pi - 1;
-            while (pj > pl && COMPARE_LT<float, Ascending>(vp, v[*pk]))
+            while (pj > pl && COMPARE_LT<T, Ascending>(vp, v[*pk]))
             {
                 *pj-- = *pk--;
             }
@@ -1437,7 +1437,7 @@ static void mergesort0_float(T * pl, T * pr, T * pw, T * head)
         pk = pl;
         while (pj < pi && pm < pr)
         {
-            if (COMPARE_LT<float, Ascending>(*pm, *pj))
+            if (COMPARE_LT<T, Ascending>(*pm, *pj))
             {
                 *pk++ = *pm++;
             }
@@ -1470,7 +1470,7 @@ static void mergesort0_float(T * pl, T * pr, T * pw, T * head)
             vp = *pi;
             pj = pi;
             pk = pi - 1;
-            while (pj > pl && COMPARE_LT<float, Ascending>(vp, *pk))
+            while (pj > pl && COMPARE_LT<T, Ascending>(vp, *pk))
             {
                 *pj-- = *pk--;
             }
-- 
2.43.0


From 2ab49f273043f9f16a9e4064e2c440cfa075ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 43/57] fix: descending sort of void items ordered their last
 byte ascending

---
 src/Sort.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 38b159e..d153b47 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -162,7 +162,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 4:
@@ -180,7 +180,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 4;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 6:
@@ -210,7 +210,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 8:
@@ -237,7 +237,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
             case 1:
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 2:
@@ -255,7 +255,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 2;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 4:
@@ -273,7 +273,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 4;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 6:
@@ -303,7 +303,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 2;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 8:
-- 
2.43.0


From 4d4972266df51a34dcee19a01ef71d495e53004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 44/57] fix: sorting read strided arrays, unsupported dtypes,
 cutoffs and start indices as if they were valid

---
 src/MultiKey.cpp |  2 +-
 src/Sort.cpp     | 90 +++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 83 insertions(+), 9 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 6a73c02..d9395a4 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1104,7 +1104,7 @@ PyObject * MultiKeyGroupBy32(PyObject * self, PyObject * args, PyObject * kwargs
         }
         if (cutOffLength == -1)
         {
-            PyErr_Format(PyExc_ValueError, "MultiKeyGroupBy32 'cutoffs' must be an array of type int64_t");
+            PyErr_Format(PyExc_ValueError, "MultiKeyGroupBy32 'cutoffs' must be an ascending array of type int64_t");
             return NULL;
         }
 
diff --git a/src/Sort.cpp b/src/Sort.cpp
index d153b47..0e20d19 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -2865,9 +2865,6 @@ static void SortArray(void * pDataIn1, int64_t arraySize1, int32_t arrayType1, S
 {
     switch (arrayType1)
     {
-    case NPY_STRING:
-        SortInPlace<char, Ascending>(pDataIn1, arraySize1, mode);
-        break;
     case NPY_BOOL:
         SortInPlace<bool, Ascending>(pDataIn1, arraySize1, mode);
         break;
@@ -2910,6 +2907,24 @@ static void SortArray(void * pDataIn1, int64_t arraySize1, int32_t arrayType1, S
     }
 }
 
+//===============================================================================
+// Sets an error and returns false if the values cannot be sorted
+static bool CheckSortable(PyArrayObject * inArr, int32_t sortMode)
+{
+    if (sortMode < SORT_MODE::SORT_MODE_QSORT || sortMode > SORT_MODE::SORT_MODE_HEAP)
+    {
+        PyErr_Format(PyExc_ValueError, "Sort does not know the mode %d", sortMode);
+        return false;
+    }
+    int32_t const dtype = PyArray_TYPE(inArr);
+    if (dtype > NPY_LONGDOUBLE)
+    {
+        PyErr_Format(PyExc_ValueError, "Sort does not understand type %d", dtype);
+        return false;
+    }
+    return true;
+}
+
 //===============================================================================
 // Pass in a numpy array, it will be sorted in place
 // the same array is returned
@@ -2922,6 +2937,15 @@ PyObject * SortInPlace(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!i", &PyArray_Type, &inArr1, &sortMode))
         return NULL;
 
+    if (! CheckSortable(inArr1, sortMode))
+        return NULL;
+
+    if (! PyArray_IS_C_CONTIGUOUS(inArr1))
+    {
+        PyErr_Format(PyExc_ValueError, "SortInPlace array must be contiguous");
+        return NULL;
+    }
+
     int32_t arrayType1 = PyArray_TYPE(inArr1);
     int ndim = PyArray_NDIM(inArr1);
     npy_intp * dims = PyArray_DIMS(inArr1);
@@ -3036,12 +3060,21 @@ PyObject * Sort(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!i", &PyArray_Type, &inArr1, &sortMode))
         return NULL;
 
+    if (! CheckSortable(inArr1, sortMode))
+        return NULL;
+
     int32_t arrayType1 = PyArray_TYPE(inArr1);
     int ndim = PyArray_NDIM(inArr1);
     npy_intp * dims = PyArray_DIMS(inArr1);
 
     int64_t arraySize1 = CalcArrayLength(ndim, dims);
 
+    if (! PyArray_IS_C_CONTIGUOUS(inArr1))
+    {
+        PyErr_Format(PyExc_ValueError, "Sort array must be contiguous");
+        return NULL;
+    }
+
     // The output is a boolean where the nth item was found
     PyArrayObject * duplicateArray = AllocateNumpyArray(ndim, dims, arrayType1);
 
@@ -3364,8 +3397,21 @@ int64_t * GetCutOffs(PyObject * kwargs, int64_t & cutoffLength)
             switch (PyArray_TYPE(pCutOffs))
             {
             CASE_NPY_INT64:
+            {
                 cutoffLength = ArrayLength(pCutOffs);
-                return (int64_t *)PyArray_BYTES(pCutOffs);
+                int64_t * const pCut = (int64_t *)PyArray_BYTES(pCutOffs);
+                bool valid = cutoffLength > 0 && PyArray_IS_C_CONTIGUOUS(pCutOffs);
+                for (int64_t i = 0; valid && i < cutoffLength; i++)
+                {
+                    valid = pCut[i] >= (i == 0 ? 0 : pCut[i - 1]);
+                }
+                if (! valid)
+                {
+                    cutoffLength = -1;
+                    return NULL;
+                }
+                return pCut;
+            }
             default:
                 printf("Bad cutoff dtype... make sure int64_t\n");
                 cutoffLength = -1;
@@ -3395,6 +3441,12 @@ bool * GetAscending(PyObject * kwargs, int64_t & ascLen, bool & scalarVal)
     if (PyArray_Check((PyArrayObject *)asc_item))
     {
         auto const ascending = (PyArrayObject *)asc_item;
+        if (PyArray_TYPE(ascending) != NPY_BOOL || ! PyArray_IS_C_CONTIGUOUS(ascending))
+        {
+            // no length matches this one
+            ascLen = -2;
+            return (bool *)PyArray_BYTES(ascending);
+        }
         ascLen = ArrayLength(ascending);
         return (bool *)PyArray_BYTES(ascending);
     }
@@ -3434,6 +3486,12 @@ static PyArrayObject * GetKwargIndex(PyObject * kwargs, int64_t & indexLength, i
         {
             indexLength = ArrayLength(pStartIndex);
 
+            if (! PyArray_IS_C_CONTIGUOUS(pStartIndex))
+            {
+                indexLength = -1;
+                return NULL;
+            }
+
             switch (PyArray_TYPE(pStartIndex))
             {
             CASE_NPY_INT64:
@@ -3500,7 +3558,7 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
         }
         if (cutOffLength == -1)
         {
-            PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must be an array of type int64_t");
+            PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must be an ascending array of type int64_t");
             return NULL;
         }
 
@@ -3513,11 +3571,11 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
 
         if (indexLength == -1)
         {
-            PyErr_Format(PyExc_ValueError, "LexSort 'index' must be an array of type int64_t or int32_t");
+            PyErr_Format(PyExc_ValueError, "LexSort 'index' must be a contiguous array of type int64_t or int32_t");
             return NULL;
         }
 
-        if (indexLength > 0)
+        if (index != NULL)
         {
             if (indexLength > arraySize1)
             {
@@ -3525,6 +3583,12 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
                 return NULL;
             }
 
+            if (pCutOffs)
+            {
+                PyErr_Format(PyExc_ValueError, "LexSort does not support both 'index' and 'cutoffs'");
+                return NULL;
+            }
+
             if (sizeof(UINDEX) == 8 && indexDType != NPY_INT64)
             {
                 PyErr_Format(PyExc_ValueError, "LexSort 'index' is not int64_t");
@@ -3537,6 +3601,16 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
                 return NULL;
             }
 
+            UINDEX const * const pStart = (UINDEX const *)PyArray_BYTES(index);
+            for (int64_t i = 0; i < indexLength; i++)
+            {
+                if (pStart[i] < 0 || pStart[i] >= arraySize1)
+                {
+                    PyErr_Format(PyExc_ValueError, "LexSort 'index' is out of range");
+                    return NULL;
+                }
+            }
+
             // reduce what we sort to the startindex
             arraySize1 = indexLength;
             result = index;
@@ -3941,7 +4015,7 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
     }
     if (cutOffLength == -1)
     {
-        return PyErr_Format(PyExc_ValueError, "GroupFromLexSort 'cutoffs' must be an array of type int64_t");
+        return PyErr_Format(PyExc_ValueError, "GroupFromLexSort 'cutoffs' must be an ascending array of type int64_t");
     }
     if (pFilter && filterLength != indexLength)
     {
-- 
2.43.0


From 9a26a86a7c1e6dc56d7a5191e4a54eae3b98893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 45/57] fix: counts of a grouping from a sort were shifted or
 left uninitialized for a base index of 0 and for cutoffs

---
 src/Sort.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 0e20d19..b96d8ef 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3906,7 +3906,10 @@ static int64_t GroupIndexStep2String(void * pDataIn1, UINDEX arraySize1, UINDEX
     UINDEX curGroup = 0;
 
     // Invalid bin init when base_index is 1
-    pCountOut[0] = 0;
+    if (base_index != 0)
+    {
+        *pCountOut++ = 0;
+    }
 
     pFirstOut[0] = curIndex;
     pGroupOut[curIndex] = baseIndex;
@@ -3923,16 +3926,16 @@ static int64_t GroupIndexStep2String(void * pDataIn1, UINDEX arraySize1, UINDEX
         }
         else
         {
-            curGroup++;
             pCountOut[curGroup] = curCount;
+            curGroup++;
             pFirstOut[curGroup] = curIndex;
             pGroupOut[curIndex] = curGroup + baseIndex;
             val1 = val2;
             curCount = 1;
         }
     }
-    curGroup++;
     pCountOut[curGroup] = curCount;
+    curGroup++;
     return curGroup;
 }
 
@@ -4350,7 +4353,7 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
         g_cMathWorker->DoMultiThreadedWork((int)cutOffLength, lambdaPGADDCallback, &pgroupadd);
 
         Py_DecRef((PyObject *)first);
-        // Py_DecRef((PyObject*)count);
+        Py_DecRef((PyObject *)count);
 
         PyObject * returnObject = PyList_New(4);
         PyList_SET_ITEM(returnObject, 0, (PyObject *)keys);
@@ -4365,7 +4368,10 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
         // When multiple arrays are passed, we sort in order of how it is passed
         // Thus, the last array is the last sort, and therefore determines the
         // primary sort order
-        uniqueCount = gpfunc(pValues, indexLength, pIndex, pKeyOut, pFirstOut, pCountOut, pFilter, base_index, itemSizeValues);
+        // the first count is for the zero bin, which is written for a base index of 1
+        pCountOut[0] = 0;
+        uniqueCount = gpfunc(pValues, indexLength, pIndex, pKeyOut, pFirstOut, base_index == 0 ? pCountOut + 1 : pCountOut,
+                             pFilter, base_index, itemSizeValues);
 
         // prior we allocate based on worst case
         // now we know the actual unique counts
-- 
2.43.0


From 38a07d473e89a48abe0799ab299497c2502dcb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 46/57] fix: grouping from a sort told equal floats with
 different bits apart

---
 src/Sort.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index b96d8ef..6e8b033 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3760,6 +3760,13 @@ static int64_t GetBaseIndex(PyObject * kwargs)
 //================================================================================
 // typedef int64_t *(GROUP_INDEX_FUNC)()
 
+// NaNs sort together and so make one group
+template <typename T>
+static inline bool SameGroup(T val1, T val2)
+{
+    return val1 == val2 || (val1 != val1 && val2 != val2);
+}
+
 template <typename T, typename UINDEX, bool Ascending>
 static int64_t GroupIndexStep2(void * pDataIn1, UINDEX arraySize1, UINDEX * pDataIndexIn, UINDEX * pGroupOut, UINDEX * pFirstOut,
                                UINDEX * pCountOut, bool * pFilter, int64_t base_index, UINDEX strlen = 0)
@@ -3840,7 +3847,7 @@ static int64_t GroupIndexStep2(void * pDataIn1, UINDEX arraySize1, UINDEX * pDat
                 curIndex = pDataIndexIn[i];
                 T val2 = pDataIn[curIndex];
 
-                if (val1 == val2)
+                if (SameGroup(val1, val2))
                 {
                     curCount++;
                     pGroupOut[curIndex] = curGroup;
@@ -3872,7 +3879,7 @@ static int64_t GroupIndexStep2(void * pDataIn1, UINDEX arraySize1, UINDEX * pDat
                 curIndex = pDataIndexIn[i];
                 T val2 = pDataIn[curIndex];
 
-                if (val1 == val2)
+                if (SameGroup(val1, val2))
                 {
                     curCount++;
                     pGroupOut[curIndex] = curGroup + 1;
@@ -3948,7 +3955,7 @@ typedef int64_t (*GROUP_INDEX_FUNC)(void * pDataIn1, int64_t arraySize1V, void *
 // Internal and can be called from groupby
 // caller must allocate the pGroupOut as int32_t or int64_t with size arraySize1
 // UINDEX = int32_t or int64_t
-template <typename UINDEX, bool Ascending = true>
+template <typename UINDEX, bool IsFloat = false, bool Ascending = true>
 static int64_t GroupIndex(void * pDataIn1, int64_t arraySize1V, void * pDataIndexInV, void * pGroupOutV, void * pFirstOutV,
                           void * pCountOutV,
                           bool * pFilter, // optional
@@ -3979,11 +3986,11 @@ static int64_t GroupIndex(void * pDataIn1, int64_t arraySize1V, void * pDataInde
                                                                   pCountOut, pFilter, base_index, 0);
         break;
     case 4:
-        uniqueCount = GroupIndexStep2<int32_t, UINDEX, Ascending>(pDataIn1, arraySize1, pDataIndexIn, pGroupOut, pFirstOut,
+        uniqueCount = GroupIndexStep2<typename std::conditional<IsFloat, float, int32_t>::type, UINDEX, Ascending>(pDataIn1, arraySize1, pDataIndexIn, pGroupOut, pFirstOut,
                                                                   pCountOut, pFilter, base_index, 0);
         break;
     case 8:
-        uniqueCount = GroupIndexStep2<int64_t, UINDEX, Ascending>(pDataIn1, arraySize1, pDataIndexIn, pGroupOut, pFirstOut,
+        uniqueCount = GroupIndexStep2<typename std::conditional<IsFloat, double, int64_t>::type, UINDEX, Ascending>(pDataIn1, arraySize1, pDataIndexIn, pGroupOut, pFirstOut,
                                                                   pCountOut, pFilter, base_index, 0);
         break;
     default:
@@ -4002,7 +4009,7 @@ static int64_t GroupIndex(void * pDataIn1, int64_t arraySize1V, void * pDataInde
 //       PyExc_MemoryError and returning).
 template <typename UINDEX>
 static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, npy_intp indexLength, npy_intp indexLengthValues,
-                                           void * pValues, npy_intp itemSizeValues)
+                                           void * pValues, npy_intp itemSizeValues, bool isFloat)
 {
     int64_t cutOffLength = 0;
     int64_t * pCutOffs = GetCutOffs(kwargs, cutOffLength);
@@ -4057,7 +4064,7 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
     UINDEX * pCountOut = (UINDEX *)PyArray_BYTES(count);
 
     int64_t uniqueCount = 0;
-    GROUP_INDEX_FUNC gpfunc = GroupIndex<UINDEX>;
+    GROUP_INDEX_FUNC gpfunc = isFloat ? GroupIndex<UINDEX, true> : GroupIndex<UINDEX>;
 
     if (pCutOffs)
     {
@@ -4440,6 +4447,9 @@ PyObject * GroupFromLexSort(PyObject * self, PyObject * args, PyObject * kwargs)
 
     const auto itemSize = PyArray_ITEMSIZE(inArrValues);
 
+    // zeros of either sign and NaNs compare by value
+    const bool isFloat = PyArray_TYPE(inArrValues) == NPY_FLOAT32 || PyArray_TYPE(inArrValues) == NPY_FLOAT64;
+
     const auto dtype = PyArray_TYPE(inArrSortIndex);
 
     void * pIndex = PyArray_BYTES(inArrSortIndex);
@@ -4448,11 +4458,11 @@ PyObject * GroupFromLexSort(PyObject * self, PyObject * args, PyObject * kwargs)
     switch (dtype)
     {
     CASE_NPY_INT32:
-        return GroupFromLexSortInternal<int32_t>(kwargs, (int32_t *)pIndex, arrLength, arrLengthValues, pValues, itemSize);
+        return GroupFromLexSortInternal<int32_t>(kwargs, (int32_t *)pIndex, arrLength, arrLengthValues, pValues, itemSize, isFloat);
         break;
 
     CASE_NPY_INT64:
-        return GroupFromLexSortInternal<int64_t>(kwargs, (int64_t *)pIndex, arrLength, arrLengthValues, pValues, itemSize);
+        return GroupFromLexSortInternal<int64_t>(kwargs, (int64_t *)pIndex, arrLength, arrLengthValues, pValues, itemSize, isFloat);
         break;
 
     default:
-- 
2.43.0


From fca0232fc75772f2b2c147c00a42a532928d3ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 47/57] fix: grouping from a sort read strided arrays as
 contiguous and left the bins of filtered rows uninitialized

---
 src/Sort.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 6e8b033..06ad72b 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -4063,6 +4063,12 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
     UINDEX * pFirstOut = (UINDEX *)PyArray_BYTES(first);
     UINDEX * pCountOut = (UINDEX *)PyArray_BYTES(count);
 
+    // rows that the index leaves out are in the zero bin
+    if (indexLength != indexLengthValues)
+    {
+        memset(pKeyOut, 0, sizeof(UINDEX) * indexLengthValues);
+    }
+
     int64_t uniqueCount = 0;
     GROUP_INDEX_FUNC gpfunc = isFloat ? GroupIndex<UINDEX, true> : GroupIndex<UINDEX>;
 
@@ -4445,6 +4451,11 @@ PyObject * GroupFromLexSort(PyObject * self, PyObject * args, PyObject * kwargs)
                             arrLengthValues);
     }
 
+    if (! PyArray_IS_C_CONTIGUOUS(inArrSortIndex) || ! PyArray_IS_C_CONTIGUOUS(inArrValues))
+    {
+        return PyErr_Format(PyExc_ValueError, "GroupFromLexSort needs contiguous arrays");
+    }
+
     const auto itemSize = PyArray_ITEMSIZE(inArrValues);
 
     // zeros of either sign and NaNs compare by value
-- 
2.43.0


From 5ae646b7e3b83f5ebd983a2840d62cee3c2a4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 48/57] fix: 7 byte keys in descending order of their last byte
 were taken for equal

---
 src/Sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 06ad72b..9bf29da 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -396,7 +396,7 @@ NPY_INLINE static int BINARY_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return 1;
         }
         return 0;
     case 8:
-- 
2.43.0


From 83ac77f0f3d710dabcd31e9ddaa3ceaad62b3499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 49/57] fix: values were binned after the cuts were truncated
 to their type or they to the cuts', false counted as invalid

---
 src/Bins.cpp | 85 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 29 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 0959de3..0580e16 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -814,6 +814,28 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
     return Py_None;
 }
 
+//=================================================================================================
+// The type in which values of type T compare to cuts of type BINTYPE, neither is truncated to the other
+template <typename T, typename BINTYPE, bool BothInt = std::is_integral<T>::value && std::is_integral<BINTYPE>::value>
+struct CutCompare
+{
+    // integers and mixed floats compare as double, as in numpy
+    typedef typename std::conditional<
+        std::is_same<T, long double>::value, long double,
+        typename std::conditional<std::is_same<T, float>::value && std::is_same<BINTYPE, float>::value, float, double>::type>::type
+        type;
+};
+
+template <typename T, typename BINTYPE>
+struct CutCompare<T, BINTYPE, true>
+{
+    typedef typename std::conditional<
+        std::is_signed<T>::value == std::is_signed<BINTYPE>::value,
+        typename std::conditional<(sizeof(T) > sizeof(BINTYPE)), T, BINTYPE>::type,
+        typename std::conditional<std::is_same<T, uint64_t>::value || std::is_same<BINTYPE, uint64_t>::value, double,
+                                  int64_t>::type>::type type;
+};
+
 //=================================================================================================
 // T is the value type
 // U is the index type (often INT32)
@@ -836,8 +858,9 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    typedef typename CutCompare<T, BINTYPE>::type WIDE;
+    const WIDE verylast = (WIDE)pBin1[lastbin];
+    const WIDE veryfirst = (WIDE)pBin1[0];
 
     LOGGING("SearchSortedRight Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -845,26 +868,26 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
+        const WIDE val = (WIDE)value;
 
-        if (value >= veryfirst && value < verylast)
+        if (val >= veryfirst && val < verylast)
         {
             // bin search
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((WIDE)pBin1[middle] > val)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] <= val)
+                else if ((WIDE)pBin1[middle] <= val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -881,7 +904,7 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
         else
         {
             // First bin for invalid values
-            if (value < veryfirst)
+            if (val < veryfirst)
             {
                 pOut[i] = 0;
             }
@@ -916,8 +939,9 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    typedef typename CutCompare<T, BINTYPE>::type WIDE;
+    const WIDE verylast = (WIDE)pBin1[lastbin];
+    const WIDE veryfirst = (WIDE)pBin1[0];
 
     LOGGING("SearchSortedLeft Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -925,26 +949,26 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
+        const WIDE val = (WIDE)value;
 
-        if (value > veryfirst && value <= verylast)
+        if (val > veryfirst && val <= verylast)
         {
             // bin search
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] >= val)     // if it's in the lower half
+                if ((WIDE)pBin1[middle] >= val)     // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((WIDE)pBin1[middle] < val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -961,7 +985,7 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
         else
         {
             // First bin for invalid values
-            if (value <= veryfirst)
+            if (val <= veryfirst)
             {
                 pOut[i] = 0;
             }
@@ -1372,8 +1396,9 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     OUT_TYPE maxbin = (OUT_TYPE)maxbin1;
 
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    typedef typename CutCompare<T, BINTYPE>::type WIDE;
+    const WIDE verylast = (WIDE)pBin1[lastbin];
+    const WIDE veryfirst = (WIDE)pBin1[0];
 
     LOGGING(
         "MakeBinsBSearchFloat Array length %lld   bin length %lld    bintype "
@@ -1384,24 +1409,24 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
-        if (std::isfinite(value) && value >= veryfirst && value <= verylast)
+        const WIDE val = (WIDE)value;
+        if (std::isfinite(value) && val >= veryfirst && val <= verylast)
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((WIDE)pBin1[middle] > val)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((WIDE)pBin1[middle] < val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1420,7 +1445,7 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (val <= (WIDE)pBin1[first])
                 {
                     pOut[i] = first;
                 }
@@ -1466,11 +1491,13 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
 
     OUT_TYPE maxbin = (OUT_TYPE)maxbin1;
 
-    void * pDefault = GetDefaultForType(numpyInType);
+    // bool cannot have invalid
+    void * pDefault = GetDefaultForType(numpyInType == NPY_BOOL ? NPY_INT8 : numpyInType);
     const T defaultNan = *(T *)pDefault;
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    typedef typename CutCompare<T, BINTYPE>::type WIDE;
+    const WIDE verylast = (WIDE)pBin1[lastbin];
+    const WIDE veryfirst = (WIDE)pBin1[0];
 
     LOGGING("MakeBinsBSearch Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -1478,26 +1505,26 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
+        const WIDE val = (WIDE)value;
 
-        if (value != defaultNan && value >= veryfirst && value <= verylast)
+        if (value != defaultNan && val >= veryfirst && val <= verylast)
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((WIDE)pBin1[middle] > val)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((WIDE)pBin1[middle] < val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1516,7 +1543,7 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (val <= (WIDE)pBin1[first])
                 {
                     pOut[i] = first;
                 }
-- 
2.43.0


From 08f7183e6304deab363e240ee76ccd0e44005d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 50/57] fix: strings beyond the first block were binned by
 other strings, unicode got no bins, left and right searches of strings cut
 bins

---
 src/Bins.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 0580e16..cac78bc 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -1192,7 +1192,7 @@ void SearchSortedLeftString(void * pDataIn1, void * pOut1, const int64_t start,
                             int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
@@ -1287,7 +1287,7 @@ void MakeBinsBSearchString(void * pDataIn1, void * pOut1, const int64_t start, c
                            int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
@@ -1792,8 +1792,8 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
 
     if (numpyInType == binType)
     {
-        // string or unicode comparison
-        if (numpyInType == NPY_STRING || numpyInType == NPY_UNICODE)
+        // string comparison for bin cuts, the only one there is
+        if (numpyInType == NPY_STRING && searchMode == 0)
         {
             isString = true;
         }
@@ -1840,7 +1840,7 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
         {
             if (isString)
             {
-                // handles string or unicode
+                // handles string
                 struct BSearchCallbackStruct
                 {
                     void * pDataOut;
-- 
2.43.0


From 480011ad1f9f4ad5a45e312c103afbe9b7ed09aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 51/57] fix: binning read strided arrays as contiguous and
 beyond the cuts, counts and index went unchecked, errors were returned as
 None

---
 src/Bins.cpp | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index cac78bc..a6fe21b 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -510,8 +510,11 @@ PyObject * NanInfCountFromSort(PyObject * self, PyObject * args)
                      "param is the value array");
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    if (! PyErr_Occurred())
+    {
+        PyErr_Format(PyExc_ValueError, "NanInfCountFromSort: unsupported dtype");
+    }
+    return NULL;
 }
 
 //=================================================================================================
@@ -610,7 +613,10 @@ void MakeBinsSorted(void * pDataIn1, void * pSortIndex1, void * pOut1, int64_t l
             {
                 // move to next bin
                 ++bin;
-                compare = pBin1[bin];
+                if (bin < maxbin)
+                {
+                    compare = pBin1[bin];
+                }
                 LOGGING("comparing to %lld %lld  %lf  %lf\n", i, (int64_t)bin, (double)pData[index], compare);
             }
             if (bin >= maxbin)
@@ -714,7 +720,14 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
 
     if (PyArray_TYPE(binArr1) != NPY_DOUBLE)
     {
-        PyErr_Format(PyExc_ValueError, "bin array must be float64 -- not %d", PyArray_TYPE(binArr1));
+        return PyErr_Format(PyExc_ValueError, "bin array must be float64 -- not %d", PyArray_TYPE(binArr1));
+    }
+    else if (ArrayLength(binArr1) == 0 || ArrayLength(indexArr1) != ArrayLength(inArr1) || nancount < 0 || infcount < 0 ||
+             neginfcount < 0 || nancount > ArrayLength(inArr1) || infcount > ArrayLength(inArr1) - nancount ||
+             neginfcount > ArrayLength(inArr1) - nancount - infcount || ! PyArray_IS_C_CONTIGUOUS(binArr1) ||
+             ! PyArray_IS_C_CONTIGUOUS(indexArr1) || ! PyArray_IS_C_CONTIGUOUS(inArr1))
+    {
+        return PyErr_Format(PyExc_ValueError, "BinsToCutsSorted needs cuts, contiguous arrays, an index and counts that fit the values");
     }
     else
     {
@@ -810,8 +823,7 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
         }
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    return PyErr_Format(PyExc_ValueError, "BinsToCutsSorted does not support the dtype of the values or the index");
 }
 
 //=================================================================================================
@@ -1773,6 +1785,11 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
     int numpyInType = PyArray_TYPE(inArr1);
     int64_t binSize = ArrayLength(binArr1);
 
+    if (binSize == 0 || ! PyArray_IS_C_CONTIGUOUS(binArr1) || ! (PyArray_IS_C_CONTIGUOUS(inArr1) || PyArray_IS_F_CONTIGUOUS(inArr1)))
+    {
+        return PyErr_Format(PyExc_ValueError, "BinsToCutsBSearch needs at least one cut and contiguous arrays");
+    }
+
     // Choose INT8,INT16,int32_t for bin mode
     int binmode = 0;
     if (binSize > 100)
@@ -1975,8 +1992,5 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
             return (PyObject *)result;
         }
     }
-    PyErr_Format(PyExc_ValueError, "bin array must be int32/int64/float32/float64 -- not %d", PyArray_TYPE(binArr1));
-
-    Py_INCREF(Py_None);
-    return Py_None;
+    return PyErr_Format(PyExc_ValueError, "bin array must be int32/int64/float32/float64 -- not %d", PyArray_TYPE(binArr1));
 }
-- 
2.43.0


From 314adf4a33bb27ba52acf1cfb1e9afbf032d7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 52/57] fix: rolling sums kept a NaN that had left the window,
 nanmean counted invalid integers, negative windows and strided time windows
 read foreign memory

---
 src/Ema.cpp        | 42 +++++++++++++++++++++++++++++++++++-------
 src/TimeWindow.cpp |  6 ++++++
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 119ebe4..872f7d6 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -94,6 +94,28 @@ public:
     // int64_t len, int32_t scalarMode); typedef void(*ANY_ONE_FUNC)(void* pDataIn,
     // void* pDataOut, int64_t len);
 
+    // The sum without the item which leaves the window that ends at row i.
+    // A NaN or an infinity cannot be subtracted out again: the window is summed afresh.
+    static U SumWithoutOldest(U currentSum, T const * pIn, int64_t i, int64_t windowSize, bool skipInvalid)
+    {
+        T const oldest = pIn[i - windowSize];
+
+        if (oldest - oldest == 0)
+        {
+            return currentSum - oldest;
+        }
+
+        currentSum = 0;
+        for (int64_t j = i - windowSize + 1; j <= i; j++)
+        {
+            if (! skipInvalid || pIn[j] == pIn[j])
+            {
+                currentSum += pIn[j];
+            }
+        }
+        return currentSum;
+    }
+
     static void RollingSum(void * pDataIn, void * pDataOut, int64_t len, int64_t windowSize)
     {
         T * pIn = (T *)pDataIn;
@@ -113,7 +135,7 @@ public:
             currentSum += pIn[i];
 
             // subtract the item leaving the window
-            currentSum -= pIn[i - windowSize];
+            currentSum = SumWithoutOldest(currentSum, pIn, i, windowSize, false);
 
             pOut[i] = currentSum;
         }
@@ -183,7 +205,7 @@ public:
                 // subtract the item leaving the window
                 temp = pIn[i - windowSize];
                 if (temp == temp)
-                    currentSum -= pIn[i - windowSize];
+                    currentSum = SumWithoutOldest(currentSum, pIn, i, windowSize, true);
 
                 pOut[i] = currentSum;
             }
@@ -209,7 +231,7 @@ public:
             currentSum += pIn[i];
 
             // subtract the item leaving the window
-            currentSum -= pIn[i - windowSize];
+            currentSum = SumWithoutOldest(currentSum, pIn, i, windowSize, false);
 
             pOut[i] = currentSum / windowSize;
         }
@@ -228,7 +250,7 @@ public:
         {
             T temp = pIn[i];
 
-            if (temp == temp)
+            if (riptide::invalid_for_type<T>::is_valid(temp))
             {
                 currentSum += temp;
                 count++;
@@ -240,7 +262,7 @@ public:
         {
             T temp = pIn[i];
 
-            if (temp == temp)
+            if (riptide::invalid_for_type<T>::is_valid(temp))
             {
                 currentSum += pIn[i];
                 count++;
@@ -249,9 +271,9 @@ public:
             // subtract the item leaving the window
             temp = pIn[i - windowSize];
 
-            if (temp == temp)
+            if (riptide::invalid_for_type<T>::is_valid(temp))
             {
-                currentSum -= pIn[i - windowSize];
+                currentSum = SumWithoutOldest(currentSum, pIn, i, windowSize, true);
                 count--;
             }
 
@@ -695,6 +717,12 @@ PyObject * Rolling(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (param1 < 0)
+    {
+        PyErr_Format(PyExc_ValueError, "Rolling: the window size cannot be negative: %lld", param1);
+        return NULL;
+    }
+
     // TODO: determine based on function
     int32_t numpyOutType = NPY_FLOAT64;
 
diff --git a/src/TimeWindow.cpp b/src/TimeWindow.cpp
index 81f26a0..d0946a8 100644
--- a/src/TimeWindow.cpp
+++ b/src/TimeWindow.cpp
@@ -190,6 +190,12 @@ PyObject * TimeWindow(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! PyArray_ISCONTIGUOUS(inArr) || ! PyArray_ISCONTIGUOUS(timeArr))
+    {
+        PyErr_Format(PyExc_ValueError, "TimeWindow array and time array must be contiguous");
+        return NULL;
+    }
+
     TIMEWINDOW_FUNC pTimeWindowFunc;
 
     // determine based on function
-- 
2.43.0


From ebc3fd9a9c5b3dc24c73af8242c89e677dade876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 53/57] fix: cumulative extremes accumulated bin 0 or left it
 unset, filtered and reset decay returned 0, strided keys and masks and short
 columns were misread

---
 src/Ema.cpp | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 60 insertions(+), 1 deletion(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 872f7d6..c645ab8 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -979,6 +979,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -1006,6 +1010,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1038,6 +1046,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1048,6 +1060,12 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                 K const location = pKey[i];
 
                 // Bin 0 is bad
+                if (location < GB_BASE_INDEX)
+                {
+                    pDest[i] = Invalid;
+                    continue;
+                }
+
                 // if new value (pSrc[i]) is invalid, do nothing
                 if (riptide::invalid_for_type<T>::is_valid(pSrc[i]))
                 {
@@ -1128,6 +1146,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -1158,6 +1180,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1189,6 +1215,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1199,6 +1229,12 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                 K const location = pKey[i];
 
                 // Bin 0 is bad
+                if (location < GB_BASE_INDEX)
+                {
+                    pDest[i] = Invalid;
+                    continue;
+                }
+
                 if (not pWorkSpaceDataSeen[location])
                 {
                     pWorkSpace[location] = pSrc[i];
@@ -1218,6 +1254,7 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
         }
     }
 
+    WORKSPACE_FREE(pWorkSpaceDataSeen);
     WORKSPACE_FREE(pWorkSpace);
 }
 
@@ -1500,7 +1537,7 @@ public:
                             pLastTime[location] = pTime[i];
                         }
 
-                        pDest[i] = 0;
+                        pDest[i] = pLastEma[location];
                     }
                     else
                     {
@@ -2407,6 +2444,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inTime))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inTime must be an array");
+            return NULL;
         }
 
         if (inIncludeMask == (PyArrayObject *)Py_None)
@@ -2416,6 +2454,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inIncludeMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inIncludeMask must be an array");
+            return NULL;
         }
 
         if (inResetMask == (PyArrayObject *)Py_None)
@@ -2425,6 +2464,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inResetMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inResetMask must be an array");
+            return NULL;
         }
         break;
 
@@ -2435,6 +2475,14 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
 
     int64_t totalArrayLength = ArrayLength(iKey);
 
+    if (! PyArray_ISCONTIGUOUS(iKey) || (inTime != NULL && ! PyArray_ISCONTIGUOUS(inTime)) ||
+        (inIncludeMask != NULL && ! PyArray_ISCONTIGUOUS(inIncludeMask)) ||
+        (inResetMask != NULL && ! PyArray_ISCONTIGUOUS(inResetMask)))
+    {
+        PyErr_Format(PyExc_ValueError, "EmaAll32 key, time and masks must be contiguous");
+        return NULL;
+    }
+
     if (inResetMask != NULL && (PyArray_TYPE(inResetMask) != 0 || ArrayLength(inResetMask) != totalArrayLength))
     {
         PyErr_Format(PyExc_ValueError, "EmaAll32 inResetMask must be a bool mask of same size");
@@ -2465,6 +2513,17 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    for (int64_t i = 0; i < tupleSize; i++)
+    {
+        if (aInfo[i].ArrayLength != totalArrayLength)
+        {
+            PyErr_Format(PyExc_ValueError, "EmaAll32 array lengths must match the key: %lld %lld", aInfo[i].ArrayLength,
+                         totalArrayLength);
+            FreeArrayInfo(aInfo);
+            return NULL;
+        }
+    }
+
     LOGGING("Ema started %llu  param:%lf\n", tupleSize, doubleParam);
 
     // Allocate the struct + ROOM at the end of struct for all the tuple objects
-- 
2.43.0


From c0fabc94ac5059b6625adadf2cab1f50238fd59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 54/57] fix: interpolation read past the last knot, strided x
 was misread

---
 src/Ema.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index c645ab8..ce9a7ef 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2655,7 +2655,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2690,7 +2690,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2736,7 +2736,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2770,7 +2770,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2869,13 +2869,13 @@ PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (PyArray_NDIM(arr) > 1)
+    if (PyArray_NDIM(arr) != 1 || ! PyArray_ISCONTIGUOUS(arr))
     {
-        PyErr_Format(PyExc_ValueError, "The 1st argument must be 1 dimensional arrays");
+        PyErr_Format(PyExc_ValueError, "The 1st argument must be a contiguous 1 dimensional array");
         return NULL;
     }
 
-    if ((PyArray_NDIM(xp) != PyArray_NDIM(yp)) || PyArray_NDIM(yp) > 2)
+    if ((PyArray_NDIM(xp) != PyArray_NDIM(yp)) || PyArray_NDIM(yp) < 1 || PyArray_NDIM(yp) > 2)
     {
         PyErr_Format(PyExc_ValueError, "The 2nd and 3rd argument must be the same dimensions");
         return NULL;
-- 
2.43.0


From c310933b6e2c013892a9d27a5b1ef64db5821cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:15 +0000
Subject: [PATCH 55/57] fix: nansum by group left the last bin unset, strided
 keys were misread

---
 src/GroupBy.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index f2438d2..5a028ad 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -395,7 +395,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOutAccum, 0, sizeof(double) * (binHigh - binLow));
         }
 
@@ -880,7 +880,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOriginalOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOriginalOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOut, 0, sizeof(double) * (binHigh - binLow));
         }
 
@@ -4607,6 +4607,13 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the key is read as a packed array
+    if (! PyArray_IS_C_CONTIGUOUS(iKey))
+    {
+        PyErr_Format(PyExc_ValueError, "GroupByAll32 key param must be contiguous");
+        return NULL;
+    }
+
     int32_t iKeyType = PyArray_TYPE(iKey);
 
     // Valid types we can index by
-- 
2.43.0


From 0dbdde77b988e9e6c07eeb99ec21e31ddf20861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 56/57] fix: impossible days and strided arrays were accepted
 in date strings, white space was looked up outside its table

---
 src/DateTime.cpp | 59 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index db40c95..5933e9b 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -51,7 +51,7 @@ public:
 
     void consume_leading_whitespace()
     {
-        while (! at_end() && std::isspace(*pStart))
+        while (! at_end() && is_space(*pStart))
             pStart++;
     }
 
@@ -59,13 +59,19 @@ public:
     {
         while (! at_end())
         {
-            if (! std::isspace(*pStart))
+            if (! is_space(*pStart))
                 set_error("Unexpected characters");
 
             pStart++;
         }
     }
 
+    // std::isspace is defined for the values of unsigned char only
+    static bool is_space(T c)
+    {
+        return c == ' ' || (c >= '\t' && c <= '\r');
+    }
+
     bool at_end() const
     {
         return pStart >= pEnd || *pStart == '\0';
@@ -130,7 +136,7 @@ RT_FORCEINLINE int64_t ParseDecimal(const T ** ppStart, const T * pEnd)
 template <typename T>
 bool DateTimeParser<T>::ParseSingleNonNumber(T expected)
 {
-    if (pStart < pEnd && (*pStart < '0' || *pStart > '9'))
+    if (! at_end() && (*pStart < '0' || *pStart > '9'))
     {
         if (*pStart != expected)
             set_error("Unexpected delimiter");
@@ -151,7 +157,7 @@ template <typename T>
 RT_FORCEINLINE int64_t DateTimeParser<T>::ParseNumber(int64_t maxplaces)
 {
     // skip non numbers in front
-    while (pStart < pEnd)
+    while (! at_end())
     {
         if (*pStart < '0' || *pStart > '9')
         {
@@ -285,14 +291,14 @@ int64_t YearToEpochNano(int64_t year, int64_t month, int64_t day)
     if (year >= 1970 && year <= 2099 && month >= 1 && month <= 12 && day >= 1 && day <= 31)
     {
         // check for leap.
-        if ((year % 4) == 0)
-        {
-            day = MONTH_SPLITS_LEAP[month - 1] + day - 1;
-        }
-        else
+        const int64_t * splits = (year % 4) == 0 ? MONTH_SPLITS_LEAP : MONTH_SPLITS;
+
+        // no such day in this month
+        if (month < 12 && splits[month - 1] + day > splits[month])
         {
-            day = MONTH_SPLITS[month - 1] + day - 1;
+            return -1;
         }
+        day = splits[month - 1] + day - 1;
         // calculate how many leap years we skipped over
         // 1973 has 1 leap year (3)
         // 1977 has 2 leap years (7)
@@ -403,7 +409,7 @@ void DateTimeParser<T>::ParseDateTimeString(int64_t * pOutNanoTime, int64_t arra
         int64_t minute = 0;
         int64_t seconds = 0;
 
-        if (pStart < pEnd && (*pStart < '0' || *pStart > '9'))
+        if (! at_end() && (*pStart < '0' || *pStart > '9'))
         {
             if (*pStart != 'T' && *pStart != ' ')
                 set_error("Unexpected delimiter");
@@ -500,6 +506,12 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! PyArray_IS_C_CONTIGUOUS(inArr))
+    {
+        PyErr_Format(PyExc_ValueError, "TimeStringToNanos first argument must be contiguous");
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
@@ -563,6 +575,12 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! PyArray_IS_C_CONTIGUOUS(inArr))
+    {
+        PyErr_Format(PyExc_ValueError, "DateStringToNanos first argument must be contiguous");
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
@@ -626,6 +644,12 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! PyArray_IS_C_CONTIGUOUS(inArr))
+    {
+        PyErr_Format(PyExc_ValueError, "DateTimeStringToNanos first argument must be contiguous");
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
@@ -704,10 +728,13 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
             yearresult = YearToEpochNano(timeBack.tm_year + 1900, timeBack.tm_mon + 1, timeBack.tm_mday);
 
             // addin hours min secs
-            yearresult += (1000000000LL * ((timeBack.tm_hour * 3600LL) + (timeBack.tm_min * 60LL) + timeBack.tm_sec));
+            if (yearresult >= 0)
+            {
+                yearresult += (1000000000LL * ((timeBack.tm_hour * 3600LL) + (timeBack.tm_min * 60LL) + timeBack.tm_sec));
+            }
 
             // check for milli/micro/etc seconds
-            if (*pStop == PERIOD)
+            if (yearresult >= 0 && *pStop == PERIOD)
             {
                 // skip decimal
                 pStop++;
@@ -764,6 +791,12 @@ PyObject * StrptimeToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! PyArray_IS_C_CONTIGUOUS(inArr))
+    {
+        PyErr_Format(PyExc_ValueError, "StrptimeToNanos first argument must be contiguous");
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
-- 
2.43.0


From 6d80952313845ae256ffb8076ada1a5bd1eee224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 57/57] fix: group functions: midpoints of integers overflowed,
 rolling sums kept NaN and infinities that left, wide windows and strided
 indexes were read out of bounds

---
 src/GroupBy.cpp | 79 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 16 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 5a028ad..07c2fa9 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -45,19 +45,20 @@ inline uint16_t MEDIAN_SPLIT(uint16_t X, uint16_t Y)
 }
 inline int32_t MEDIAN_SPLIT(int32_t X, int32_t Y)
 {
-    return (X + Y) / 2;
+    return static_cast<int32_t>((static_cast<int64_t>(X) + Y) / 2);
 }
 inline uint32_t MEDIAN_SPLIT(uint32_t X, uint32_t Y)
 {
-    return (X + Y) / 2;
+    return static_cast<uint32_t>((static_cast<int64_t>(X) + Y) / 2);
 }
 inline int64_t MEDIAN_SPLIT(int64_t X, int64_t Y)
 {
-    return (X + Y) / 2;
+    // the sum of two values of the same sign may overflow
+    return (X < 0) == (Y < 0) ? X / 2 + Y / 2 + (X % 2 + Y % 2) / 2 : (X + Y) / 2;
 }
 inline uint64_t MEDIAN_SPLIT(uint64_t X, uint64_t Y)
 {
-    return (X + Y) / 2;
+    return X / 2 + Y / 2 + (X % 2 + Y % 2) / 2;
 }
 inline float MEDIAN_SPLIT(float X, float Y)
 {
@@ -75,7 +76,8 @@ inline long double MEDIAN_SPLIT(long double X, long double Y)
 template <typename T, typename U>
 inline U QUANTILE_SPLIT(T X, T Y)
 {
-    return (X + Y) / 2.0;
+    // the sum of two integers may overflow their type
+    return (static_cast<double>(X) + static_cast<double>(Y)) / 2.0;
 }
 
 // Overloads to handle cases of bool, float, long double
@@ -1356,6 +1358,38 @@ public:
         }
     }
 
+    //------------------------------
+    // A window of more than all the rows is the same as one of all the rows, and does not overflow V
+    static int64_t ClampWindow(int64_t windowSize, int64_t totalInputRows)
+    {
+        return windowSize > totalInputRows ? totalInputRows : windowSize < -totalInputRows ? -totalInputRows : windowSize;
+    }
+
+    //------------------------------
+    // The sum without the item which leaves the window that ends at group position j.
+    // A NaN or an infinity cannot be subtracted out again: the window is summed afresh.
+    template <typename S>
+    static S SumWithoutOldest(S currentSum, T const * pSrc, V const * pGroup, V j, int64_t windowSize, bool skipInvalid)
+    {
+        T const oldest{ pSrc[pGroup[j - windowSize]] };
+
+        if (! std::is_floating_point<T>::value || oldest - oldest == 0)
+        {
+            return currentSum - static_cast<S>(oldest);
+        }
+
+        currentSum = 0;
+        for (V k = j - windowSize + 1; k <= j; k++)
+        {
+            T const value{ pSrc[pGroup[k]] };
+            if (! skipInvalid || riptide::invalid_for_type<T>::is_valid(value))
+            {
+                currentSum += static_cast<S>(value);
+            }
+        }
+        return currentSum;
+    }
+
     //------------------------------
     // Rolling uses entire size: totalInputRows
     static void AccumRollingSum(void const * pColumn, void const * pGroupT, void const * pFirstT, void const * pCountT,
@@ -1369,7 +1403,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = funcParam;
+        int64_t windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1413,7 +1447,7 @@ public:
                 currentSum += (U)pSrc[index];
 
                 // subtract the item leaving the window
-                currentSum -= (U)pSrc[pGroup[j - windowSize]];
+                currentSum = SumWithoutOldest(currentSum, pSrc, pGroup, j, windowSize, false);
 
                 pDest[index] = currentSum;
             }
@@ -1433,7 +1467,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = funcParam;
+        int64_t windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1486,7 +1520,7 @@ public:
                 value = pSrc[pGroup[j - windowSize]];
                 if (riptide::invalid_for_type<T>::is_valid(value))
                 {
-                    currentSum -= static_cast<U>(value);
+                    currentSum = SumWithoutOldest(currentSum, pSrc, pGroup, j, windowSize, true);
                 }
 
                 pDest[index] = currentSum;
@@ -1507,7 +1541,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t const windowSize = funcParam;
+        int64_t const windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid_out{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1551,7 +1585,7 @@ public:
                 currentSum += pSrc[index];
 
                 // subtract the item leaving the window
-                currentSum -= pSrc[pGroup[j - windowSize]];
+                currentSum = SumWithoutOldest(currentSum, pSrc, pGroup, j, windowSize, false);
 
                 pDest[index] = currentSum / windowSize;
             }
@@ -1571,7 +1605,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t const windowSize = funcParam;
+        int64_t const windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid_out{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1627,7 +1661,7 @@ public:
                 value = pSrc[pGroup[j - windowSize]];
                 if (riptide::invalid_for_type<T>::is_valid(value))
                 {
-                    currentSum -= static_cast<U>(value);
+                    currentSum = SumWithoutOldest(currentSum, pSrc, pGroup, j, windowSize, true);
                     count--;
                 }
 
@@ -1751,7 +1785,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t const windowSize = funcParam;
+        int64_t const windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         logger->debug("AccumRollingCount {} {}  sizeofdest {}", binLow, binHigh, sizeof(U));
@@ -1817,7 +1851,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = (int64_t)funcParam;
+        int64_t windowSize = ClampWindow(funcParam, totalInputRows);
 
         logger->debug("AcculRollingShift: binlow {},  binhigh {},  windowSize: {}", binLow, binHigh, windowSize);
 
@@ -1927,7 +1961,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = funcParam;
+        int64_t windowSize = ClampWindow(funcParam, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -4922,6 +4956,12 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (! PyArray_ISCONTIGUOUS(iGroup) || ! PyArray_ISCONTIGUOUS(iFirst) || ! PyArray_ISCONTIGUOUS(nCount))
+    {
+        PyErr_Format(PyExc_ValueError, "GroupByAllPack32 iGroup, iFirstGroup, and nCountGroup params must be contiguous");
+        return NULL;
+    }
+
     // Add 1 for zero bin
     unique_rows += GB_BASE_INDEX;
 
@@ -5057,6 +5097,13 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
             int64_t binHigh = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinHigh, i), &overflow);
             pstGroupBy32->returnObjects[i].binHigh = binHigh;
 
+            if (funcParam < 0 && (funcNum == GB_ROLLING_SUM || funcNum == GB_ROLLING_NANSUM || funcNum == GB_ROLLING_MEAN ||
+                                  funcNum == GB_ROLLING_NANMEAN))
+            {
+                PyErr_Format(PyExc_ValueError, "GroupByAllPack32: the window size cannot be negative: %lld", funcParam);
+                return NULL;
+            }
+
             numpyOutType = aInfo[i].NumpyDType;
 
             GROUPBY_X_FUNC pFunction = NULL;
-- 
2.43.0

