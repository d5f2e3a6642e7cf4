From 96ef6875b0ddfec06894a09742b44751fc2d4be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:28 +0000
Subject: [PATCH 01/72] fix: inplace_row_swap swaps rows instead of columns

---
 gmatlib/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 455146a..bf129a9 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -252,9 +252,9 @@ where T: Element<T>
         let mut storage: T;
         for i in 0..self.cols
         {
-            storage       = self[(i, r1)];
-            self[(i, r1)] = self[(i, r2)];
-            self[(i, r2)] = storage;
+            storage       = self[(r1, i)];
+            self[(r1, i)] = self[(r2, i)];
+            self[(r2, i)] = storage;
         } 
     }
 
-- 
2.43.0


From f9466263b9485db9f25a132b9710a7d50f1bcfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:28 +0000
Subject: [PATCH 02/72] fix: mutable matrix indexing refuses out-of-bounds
 indices like shared indexing does

---
 gmatlib/src/trait_impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index d5999b4..9f11a11 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -805,6 +805,10 @@ where T: Element<T>
     #[inline]
     fn index_mut(&mut self, index: (usize, usize)) -> &mut T 
     {
+        if index.0 >= self.rows || index.1 >= self.cols 
+        {
+            panic!("index out of bounds: the matrix has {} rows and {} cols but the index was [({}, {})]", self.rows, self.cols, index.0, index.1)
+        }
         &mut (self.vals[index.0 * self.cols + index.1])
     }
 }
-- 
2.43.0


From a9360a478f71407fb160207961dab491c0b153f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:28 +0000
Subject: [PATCH 03/72] fix: from_vec rejects elements for zero columns instead
 of panicking

---
 gmatlib/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index bf129a9..20df2e1 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -114,13 +114,13 @@ where T: Element<T>
     /// ```
     pub fn from_vec(cols: usize, vec: Vec<T>) -> Result<Matrix<T>>
     {
-        if vec.len() % cols != 0
+        if (cols == 0 && !vec.is_empty()) || (cols != 0 && vec.len() % cols != 0)
         {
             return Err(MatrixFromVecError.into())
         }
 
         Ok(Matrix {
-            rows: vec.len() / cols,
+            rows: if cols == 0 { 0 } else { vec.len() / cols },
             cols,
             vals: vec,
         })
-- 
2.43.0


From 7756cee4fdc4364754d2cdef51dec1b1a727bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:04 +0000
Subject: [PATCH 04/72] fix: displaying a matrix with no rows or columns no
 longer underflows

---
 gmatlib/src/trait_impls.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index 9f11a11..9c5adc1 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -8,6 +8,11 @@ where T: Element<T>
 {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         
+        if self.rows == 0 || self.cols == 0
+        {
+            return write!(f, "[]");
+        }
+
         let mut output = "[".to_string();
         let r = self.rows - 1;
         let c = self.cols - 1;
-- 
2.43.0


From d36ae41c27ba81e13efd81c64e3153abb333a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:21 +0000
Subject: [PATCH 05/72] fix: general matrix inversion exchanges rows instead of
 failing on a zero pivot

---
 gmatlib/src/lib.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 20df2e1..0424bb1 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -17,7 +17,7 @@ use error::*;
 use num_traits::Num;
 
 /// A helper trait to constrain the type of the elements of a `Matrix<T>`.
-pub trait Element<T>: Num + Copy + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> {}
+pub trait Element<T>: Num + PartialOrd + Copy + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> {}
 
 impl Element<f32> for f32 {}
 impl Element<f64> for f64 {}
@@ -684,8 +684,31 @@ where T: Element<T>
         let n = self.rows;
         let mut inv: Matrix<T> = Matrix::new_identity(n);
 
+        // Integer types cannot represent the multipliers that a larger pivot
+        // would need, so they only exchange rows when the pivot is zero.
+        let can_divide = T::one() / (T::one() + T::one()) != T::zero();
+        let magnitude = |x: T| if x < T::zero() { -x } else { x };
+
         for j in 0..n
         {
+            let mut pivot = j;
+            for i in j+1..n
+            {
+                if self[(pivot, j)] == T::zero() || can_divide
+                {
+                    if magnitude(self[(i, j)]) > magnitude(self[(pivot, j)])
+                    {
+                        pivot = i;
+                    }
+                }
+            }
+
+            if pivot != j
+            {
+                self.inplace_row_swap(j, pivot);
+                inv.inplace_row_swap(j, pivot);
+            }
+
             for i in 0..n
             {
                 if i == j
-- 
2.43.0


From 033560e842c9bd4f4344d6395b5785146fc4bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:49 +0000
Subject: [PATCH 06/72] fix: matrix C interface never frees a caller's matrix
 when an operation is refused

---
 gmatlib/src/ffi.rs | 67 ++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 47 deletions(-)

diff --git a/gmatlib/src/ffi.rs b/gmatlib/src/ffi.rs
index 16ed4e1..a4c3fda 100644
--- a/gmatlib/src/ffi.rs
+++ b/gmatlib/src/ffi.rs
@@ -1,5 +1,4 @@
 use std::ffi::{c_double, c_uint, c_void};
-use std::mem;
 use std::panic::catch_unwind;
 use std::ptr::null_mut;
 use crate::{Matrix, MatrixInversionError};
@@ -39,10 +38,8 @@ pub extern "C" fn new_double_identity_matrix(n: c_uint) -> *mut c_void
 pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_swap(r1 as usize, r2 as usize);
-        
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -56,10 +53,8 @@ pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) ->
 pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_scale(row as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -73,10 +68,8 @@ pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_dou
 pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scale(scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -90,10 +83,8 @@ pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_add(r1 as usize, r2 as usize);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -107,10 +98,8 @@ pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c
 pub extern "C" fn inplace_scaled_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scaled_row_add(r1 as usize, r2 as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -126,19 +115,16 @@ pub extern "C" fn multiply_matrix(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mu
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.multiply_matrix(&b) 
+        let ab = match a.multiply_matrix(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
 
@@ -155,19 +141,16 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.augment_with(&b) 
+        let ab = match a.augment_with(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
     
@@ -182,9 +165,8 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
 pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c2: c_uint) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let b = Box::new(a.subset(r1 as usize, c1 as usize, r2 as usize, c2 as usize));
-        mem::forget(a); // Prevent drop that would deallocate matrix data.
         Box::into_raw(b) as *mut c_void
     });
 
@@ -199,15 +181,13 @@ pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c
 pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let trace = match a.trace()
         {
             Ok(t) => t,
             Err(_) => c_double::NAN
         };
 
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
-
         trace
     });
 
@@ -222,9 +202,8 @@ pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let b = Box::new(a.transpose());
-        mem::forget(a);
 
         Box::into_raw(b) as *mut c_void
     });
@@ -240,7 +219,7 @@ pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         let status = match a.try_inplace_invert()
         {
             Ok(_)  => c_uint::MAX,
@@ -255,8 +234,6 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
                 }
             }
         };
-    
-        mem::forget(a);
         status
     });
     
@@ -267,10 +244,8 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint, value: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a[(i as usize, j as usize)] = value;
-
-        mem::forget(a);
     });
 
     match res
@@ -284,9 +259,8 @@ pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint
 pub extern "C" fn index_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let value = a[(i as usize, j as usize)];
-        mem::forget(a);
         value
     });
 
@@ -305,11 +279,10 @@ pub extern "C" fn clone_double_matrix(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
         // Get the actual matrix instance
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
 
-        // Use clone to allocate a new instance and mem::forget it AND the old instance
-        let b = a.clone();
-        mem::forget(a);
+        // Use clone to allocate a new instance and leave the old instance alone
+        let b = Box::new(a.clone());
     
         Box::into_raw(b) as *mut c_void
     });
-- 
2.43.0


From d63c1613b920935883751dc2565015e7c1667b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 07/72] fix: a function applies to its own parenthesised
 arguments only

---
 geqslib/src/shunting.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index ddcb1c5..d793935 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -174,6 +174,19 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                         return Err(ShuntingYardError::UnclosedParenthesis.into())
                     }
                 }
+
+                // if the parentheses held a function's arguments, then the function applies to them alone
+                if let Some(op) = stack.pop()
+                {
+                    if matches!(context.get(op), Some(Token::Func(_, _)))
+                    {
+                        queue.push(tokenize_with_context(op, context)?);
+                    }
+                    else
+                    {
+                        stack.push(op);
+                    }
+                }
                 unary_minus = false;
             },
 
-- 
2.43.0


From 1ba5a1413455985d12eb3334f8c44c56b95d53c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 08/72] fix: tabs and newlines separate tokens in expressions
 like spaces do

---
 geqslib/src/shunting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index d793935..dc53c73 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -127,7 +127,7 @@ fn tokenize_with_context(tok: &str, context: &ContextHashMap) -> anyhow::Result<
 fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>> 
 {
     let punctuated = punctuate(expr);
-    let words = punctuated.split(' ').filter(|c| !c.is_empty());
+    let words = punctuated.split_whitespace();
 
     let mut stack: Vec<&str> = Vec::new();
     let mut queue: Vec<Token> = Vec::new();
-- 
2.43.0


From 70a1af7b2c6fe3157ca8512a1364ef0da5fcffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 09/72] fix: a closing parenthesis without an opening one is an
 error

---
 geqslib/src/shunting.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index dc53c73..8cb5a5d 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -159,20 +159,23 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
             },
 
             ")" => {
+                let mut found_open = false;
                 while let Some(op) = stack.pop() 
                 {
                     if op != "(" 
                     {
                         queue.push(tokenize_with_context(op, context)?);
                     } 
-                    else if op == "(" 
+                    else
                     {
+                        found_open = true;
                         break;
                     } 
-                    else 
-                    {
-                        return Err(ShuntingYardError::UnclosedParenthesis.into())
-                    }
+                }
+
+                if !found_open
+                {
+                    return Err(ShuntingYardError::UnclosedParenthesis.into())
                 }
 
                 // if the parentheses held a function's arguments, then the function applies to them alone
-- 
2.43.0


From 93c175ff12b82abff1911b45320e5720aa56b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:30 +0000
Subject: [PATCH 10/72] fix: malformed expressions and wrong argument counts
 are rejected instead of evaluated

---
 geqslib/src/shunting.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 8cb5a5d..c82b8f4 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -132,12 +132,32 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
     let mut stack: Vec<&str> = Vec::new();
     let mut queue: Vec<Token> = Vec::new();
     let mut unary_minus = true; // Indicator for whether the next '-' token is a unary operator
+    let mut arg_counts: Vec<usize> = Vec::new(); // Number of comma-delimited values in each open parenthesis
+    let mut previous = "";
 
     for word in words 
     {
+        // Operands may only appear where one is expected, and everything else only after one
+        match word
+        {
+            "-" => {},
+            ")" if previous == "(" => {},
+            "," | ")" | "^" | "/" | "*" | "+" => {
+                if unary_minus { return Err(ShuntingYardError::ExpectedArg.into()) }
+            },
+            _ => {
+                if !unary_minus { return Err(ShuntingYardError::LeftoverToken.into()) }
+            },
+        }
+
         match word 
         {
             "," => {
+                match arg_counts.last_mut()
+                {
+                    Some(count) => *count += 1,
+                    None => return Err(ShuntingYardError::LeftoverToken.into()),
+                }
                 while let Some(op) = stack.pop() 
                 {
                     if op != "(" 
@@ -154,6 +174,7 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
             },
 
             "(" => {
+                arg_counts.push(1);
                 stack.push(word);
                 unary_minus = true;
             },
@@ -178,11 +199,16 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                     return Err(ShuntingYardError::UnclosedParenthesis.into())
                 }
 
+                let counted = arg_counts.pop().unwrap_or(1);
+                let num_args = if previous == "(" { 0 } else { counted };
+                let mut expected_args = 1;
+
                 // if the parentheses held a function's arguments, then the function applies to them alone
                 if let Some(op) = stack.pop()
                 {
-                    if matches!(context.get(op), Some(Token::Func(_, _)))
+                    if let Some(Token::Func(args, _)) = context.get(op)
                     {
+                        expected_args = *args;
                         queue.push(tokenize_with_context(op, context)?);
                     }
                     else
@@ -190,6 +216,11 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                         stack.push(op);
                     }
                 }
+
+                if num_args != expected_args
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into())
+                }
                 unary_minus = false;
             },
 
@@ -255,6 +286,7 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                 }
             },
         }   
+        previous = word;
     }
     
     while let Some(tok) = stack.pop() 
-- 
2.43.0


From d510ef179e03732256b489bd9690320ccb6d8844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 11/72] fix: variables may be named like the special numbers
 inf and nan

---
 geqslib/src/shunting.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index c82b8f4..de245c8 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -255,7 +255,8 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
 
             other => {
 
-                if let Ok(num) = other.parse::<f64>() 
+                // names like `inf` and `nan` also parse as numbers, but literals never start with a letter
+                if let (false, Ok(num)) = (other.starts_with(char::is_alphabetic), other.parse::<f64>())
                 {
                     queue.push(Token::Num(num));
                     unary_minus = false;
-- 
2.43.0


From 021c2d65a68e9cedeeafaada5406ecd75fad1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 12/72] fix: the exponent of a number literal is not an unknown
 variable

---
 geqslib/src/shunting.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index de245c8..c711dcd 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -30,9 +30,12 @@ pub fn get_legal_variables_iter(text: &str) -> impl Iterator<Item = &str>
 {
     lazy_static! 
     {
-        static ref RE: Regex = Regex::new(r"(?i)[a-z][a-z0-9_]*").unwrap();
+        // Number literals are matched too so that their exponents are not mistaken for variables
+        static ref RE: Regex = Regex::new(r"(?i)[0-9.]+(e[0-9]+)?|[a-z][a-z0-9_]*").unwrap();
     }
-    RE.find_iter(text).map(|i| i.as_str())
+    RE.find_iter(text)
+        .map(|i| i.as_str())
+        .filter(|i| i.starts_with(|c: char| c.is_ascii_alphabetic()))
 }
 
 const _OPERATORS_: &str = "()^*/+-";
-- 
2.43.0


From 0a598cb43da19425cfee0f5bccd53e5a7583be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 13/72] fix: the single-equation solver starts from the given
 guess

---
 geqslib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 5e58539..01e1d59 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -102,7 +102,7 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, ctx)?;
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, 1.0, margin, limit)?))
+    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From 35ea10ab0da41cf535d599734bc4a2e623d0caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 14/72] fix: the Newton solver checks the size of its last
 step, not its sign

---
 geqslib/src/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 195bbae..8655159 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -48,7 +48,7 @@ where anyhow::Error: From<E>
     let delta = y / y_prime;
 
     // Check if we are sufficiently close to the solution:
-    if y.abs() <= margin && delta <= margin // ...in both the y AND x directions...
+    if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
     {
         return Ok(guess); // ...if so, exit early
     }
-- 
2.43.0


From f6d341ef6297947bc0a8b62f94880f0cb834cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 15/72] fix: the multivariate Newton solver compares the
 magnitude of F with the margin

---
 geqslib/src/newton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 8655159..5f9737d 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -165,7 +165,8 @@ where
     }
     let error = y.iter()
         .map(|v| v.powi(2))
-        .sum::<f64>();
+        .sum::<f64>()
+        .sqrt();
 
     // Calculate change vector and its magnitude
     let deltas = jacobian * Matrix::from_col_vec(y);
-- 
2.43.0


From 8feda54045adc40382ee938fb9d5df4eb51b7624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 16/72] fix: compiled equations ignore variables that they do
 not depend on

---
 geqslib/src/shunting.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index c711dcd..2a658db 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -363,6 +363,7 @@ pub fn compile_to_fn_of_hashmap(expr: &str, context: &ContextHashMap) -> anyhow:
             match arg_lookup_table.get(var)
             {
                 Some(Token::Var(r)) => (*r.borrow_mut()).set(*value),
+                None => continue, // the expression does not depend on this variable
                 _ => return Err(CompiledExpressionLookupError.into()),
             }
         }
-- 
2.43.0


From a27cb8c2ea8bd4ff0c4f0a334716c388fabd65f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:03 +0000
Subject: [PATCH 17/72] fix: an equation that cannot be compiled or solved does
 not leave its unknowns in the context

---
 geqslib/src/lib.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 01e1d59..77f09fe 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -56,12 +56,23 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         .collect();
 
     // Add a default guess value of 1 for all unspecified vars
-    for var in unknowns
+    for var in &unknowns
     {
-        ctx.add_var_with_domain_to_ctx(&var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
+        ctx.add_var_with_domain_to_ctx(var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
-    compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    let compiled = compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx);
+
+    // A refused equation must not leave its unknowns behind
+    if compiled.is_err()
+    {
+        for var in &unknowns
+        {
+            ctx.remove(var);
+        }
+    }
+
+    compiled
 }
 
 /// Solves an equation given as a string for the SINGLE
@@ -100,9 +111,16 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     }
     
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
-    let f = compile_equation_to_fn(equation, ctx)?;
+    let soln = compile_equation_to_fn(equation, ctx)
+        .and_then(|f| newton_raphson(f, guess, margin, limit));
+
+    // The variable is only known if a solution was found
+    if soln.is_err()
+    {
+        ctx.remove(unknowns[0]);
+    }
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
+    Ok((unknowns[0].to_owned(), soln?))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From 3f8db25a66530b4e9782210d1276a2fd45bf908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 18/72] fix: an equation with nothing on its left side is
 refused

---
 geqslib/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 77f09fe..57c0700 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -35,7 +35,7 @@ pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -
         _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
     }
     
-    compile_to_fn(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    compile_to_fn(&format!("({}) - ({})", sides[0], sides[1]), ctx)
 }
 
 /// An internal function for formatting an equation to an expression prior to tokenization 
@@ -61,7 +61,7 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         ctx.add_var_with_domain_to_ctx(var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
-    let compiled = compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx);
+    let compiled = compile_to_fn_of_hashmap(&format!("({}) - ({})", sides[0], sides[1]), ctx);
 
     // A refused equation must not leave its unknowns behind
     if compiled.is_err()
-- 
2.43.0


From 5a7eaa4ca1d3968ad226bc7494c862ffc72eb6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 19/72] fix: solutions stay within the domains of their
 variables

---
 geqslib/src/lib.rs    |  6 +++++-
 geqslib/src/system.rs | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 57c0700..356360f 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -22,6 +22,7 @@ use errors::EquationSolverError;
 use newton::newton_raphson;
 use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
 use system::get_equation_unknowns;
+use variable::Variable;
 
 /// An internal function for formatting a single-unknown equation to an expression prior to tokenization 
 pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -> anyhow::Result<impl Fn(f64) -> anyhow::Result<f64>>
@@ -120,7 +121,10 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
         ctx.remove(unknowns[0]);
     }
 
-    Ok((unknowns[0].to_owned(), soln?))
+    // Newton's method may step past a bound of the domain, where the variable itself stays
+    let mut value = Variable::new(soln?, min, max);
+    value.set(f64::from(value));
+    Ok((unknowns[0].to_owned(), value.into()))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 1e41440..3b0a681 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -337,11 +337,11 @@ impl System
     pub fn solve(self, margin: f64, limit: usize) -> anyhow::Result<HashMap<String, f64>>
     {
         let mut guess = HashMap::new();
-        for (key, var) in self.context
+        for (key, var) in &self.context
         {
             match var
             {
-                Token::Var(x) => guess.insert(key, (*x.borrow()).into()),
+                Token::Var(x) => guess.insert(key.to_owned(), (*x.borrow()).into()),
                 _ => continue,
             };
         }
@@ -353,6 +353,16 @@ impl System
             limit
         )?;
 
+        // Newton's method may step past a bound of a domain, where the variable itself stays
+        for (key, val) in res.iter_mut()
+        {
+            if let Some(Token::Var(x)) = self.context.get(key)
+            {
+                (*x.borrow_mut()).set(*val);
+                *val = (*x.borrow()).into();
+            }
+        }
+
         Ok(res.clone())
     }
 }
-- 
2.43.0


From 6ab4296cc1c5730846e36405741483322314707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 20/72] fix: variables specified in the context of a system
 count as its unknowns

---
 geqslib/src/system.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 3b0a681..46dfe4a 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -48,9 +48,7 @@ impl SystemBuilder
     /// ```
     pub fn new(equation: &str, mut ctx: ContextHashMap) -> anyhow::Result<SystemBuilder>
     {
-        let system_vars = get_equation_unknowns(equation, &ctx)
-            .map(|x| x.to_owned())
-            .collect();
+        let system_vars = get_system_unknowns(equation, &ctx, &[]);
 
         let starting_eqn = Box::new(compile_equation_to_fn_of_hashmap(equation, &mut ctx)?);
 
@@ -124,10 +122,7 @@ impl SystemBuilder
             return Ok(ConstrainResult::WillOverConstrain);
         }
 
-        let mut unknowns: Vec<String> = get_equation_unknowns(equation, &self.context)
-            // .filter(|&x| !self.system_vars.contains(&x.to_owned()))
-            .map(|x| x.to_owned())
-            .collect();
+        let mut unknowns = get_system_unknowns(equation, &self.context, &self.system_vars);
 
         if unknowns.len() > 1 
         {
@@ -341,7 +336,7 @@ impl System
         {
             match var
             {
-                Token::Var(x) => guess.insert(key.to_owned(), (*x.borrow()).into()),
+                Token::Var(x) if self.system_vars.contains(key) => guess.insert(key.to_owned(), (*x.borrow()).into()),
                 _ => continue,
             };
         }
@@ -367,6 +362,23 @@ impl System
     }
 }
 
+/// Returns the unknowns that an equation would add to a system: those missing from the context
+/// and the variables specified there that are not part of the system yet.
+fn get_system_unknowns(equation: &str, ctx: &ContextHashMap, system_vars: &[String]) -> Vec<String>
+{
+    get_legal_variables_iter(equation)
+        .filter(|&x| match ctx.get(x)
+        {
+            None => true,
+            Some(Token::Var(_)) => !system_vars.iter().any(|var| var == x),
+            Some(_) => false,
+        })
+        .collect::<HashSet<&str>>()
+        .into_iter()
+        .map(|x| x.to_owned())
+        .collect()
+}
+
 /// Returns an iterator with the unknown variables in a given equation or expression. 
 /// Note that the variables must exist in the given context in order to ensure that
 /// they are variables and not constants or functions.
-- 
2.43.0


From 4b0e272efcdc03bbd95728b5303694e3474b0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 21/72] fix: the C equation solver works on its own copy of the
 caller's context

---
 geqslib/src/ffi.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index 40e3d88..c8d0b03 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -1,6 +1,6 @@
 use std::ffi::{c_char, c_int, c_void, c_double, c_uint, CStr, CString};
 use std::panic::catch_unwind;
-use std::ptr::{null, copy_nonoverlapping};
+use std::ptr::null;
 
 use crate::shunting::{ContextHashMap, new_context, ContextLike};
 use crate::solve_equation_with_context;
@@ -57,8 +57,7 @@ pub extern "C" fn solve_equation(equation: *const c_char, context: *const c_void
     let res = catch_unwind(|| {
         let equation_str = unsafe { new_owned_string(equation) };
 
-        let mut ctx = ContextHashMap::new();
-        unsafe { copy_nonoverlapping(context as *const ContextHashMap, &mut ctx, 1) };
+        let mut ctx = unsafe { (*(context as *const ContextHashMap)).clone() };
 
         let (var, val) = match solve_equation_with_context(&equation_str, &mut ctx, guess, min, max, margin, limit as usize)
         {
-- 
2.43.0


From 4965f91ce0a29d93af708df89575ba82779e3684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 22/72] fix: specifying an unknown variable through the C
 interface reports the error

---
 geqslib/src/ffi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index c8d0b03..cfa4067 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -192,14 +192,14 @@ pub extern "C" fn specify_variable(p_system: *mut c_void, var: *const c_char, gu
         unsafe
         {    
             let var_str = new_owned_string(var);
-            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max);
+            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max)
         }
     });
 
     match res
     {
-        Ok(_) => 1,
-        Err(_) => -1,
+        Ok(true) => 1,
+        _ => -1,
     }
 }
 
-- 
2.43.0


From 8c02f609bdc9f1cfd3cb3d8e02ed4c92e3d0e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 23/72] fix: a source that drives its input node starts it
 below its output node

---
 neapolitan/src/dc_circuits.rs   | 2 +-
 neapolitan/src/heat_transfer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index 25c65a5..d31ad85 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -54,7 +54,7 @@ pub fn voltage_source(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index c7a811a..91fe3bf 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -115,7 +115,7 @@ pub fn temperature_delta(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
-- 
2.43.0


From 5e3d14442d40f6c13606d08b9d702060c4ef7e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 24/72] fix: the flux of a source that drives its input node
 has the right sign

---
 neapolitan/src/flux_formulas.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neapolitan/src/flux_formulas.rs b/neapolitan/src/flux_formulas.rs
index 3ac3fe8..91c0500 100644
--- a/neapolitan/src/flux_formulas.rs
+++ b/neapolitan/src/flux_formulas.rs
@@ -55,7 +55,11 @@ pub fn observe_flux(
     let mut discrepancy = sub_ref.try_borrow()?
         .get_flux_discrepancy()?;
 
-    discrepancy.inplace_scale(-1.0);
+    // The flux leaves an output node that this element drives, but enters an input node that it drives
+    if drives_output
+    {
+        discrepancy.inplace_scale(-1.0);
+    }
 
     Ok(discrepancy)
 }
-- 
2.43.0


From 233914c89733aabff4a1700474ecae9456d40932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 25/72] fix: driven nodes follow their driving nodes before
 fluxes are balanced or reported

---
 neapolitan/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 222c295..a9a9115 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -286,6 +286,7 @@ impl NodalAnalysisStudyBuilder
                 };
 
                 let local_nodes = nodes.to_vec();
+                let local_elements = elements.to_vec();
 
                 guess.insert(idx, 1.0);
                 partials.push(move |x: &HashMap<ComponentIndex, f64>| {
@@ -296,6 +297,12 @@ impl NodalAnalysisStudyBuilder
                             .potential[(component as usize, 0)] = val;
                     }
 
+                    // Driven nodes follow the new potentials before any flux is balanced
+                    for elem in &local_elements
+                    {
+                        elem.get_flux()?;
+                    }
+
                     let flux_discrepancy = local_nodes[node_idx]
                         .try_borrow()?
                         .get_flux_discrepancy()?;
@@ -314,6 +321,11 @@ impl NodalAnalysisStudyBuilder
             node.potential[(idx.component as usize, 0)] = *component;
         }
 
+        for elem in &elements
+        {
+            elem.get_flux()?;
+        }
+
         // Step 6 - gather results
         let mut result = NodalAnalysisStudyResult 
         { 
-- 
2.43.0


From b0a3fa304ced9d9969ba96a16c2aba708c1396f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 26/72] fix: a malformed nodal analysis model is reported as an
 error instead of panicking

---
 neapolitan/src/dc_circuits.rs   | 17 +++++++++++++++-
 neapolitan/src/errors.rs        |  6 ++++++
 neapolitan/src/heat_transfer.rs | 12 ++++++++++-
 neapolitan/src/lib.rs           | 35 +++++++++++++++++++++++++++++++++
 4 files changed, 68 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index d31ad85..ef87587 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -6,7 +6,7 @@ use std::cell::RefCell;
 use gmatlib::{col_vec, Matrix};
 
 // Local modules
-use crate::errors::ElementCreationError;
+use crate::errors::{ElementCreationError, NodalAnalysisModellingError};
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
 
@@ -21,6 +21,11 @@ pub fn resistor(
     resistance: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if resistance.is_empty()
+    {
+        return Err(NodalAnalysisModellingError::WrongGainDimension.into());
+    }
+
     GenericElement::try_new(
         vec![1.0 / resistance[0]],  // Conductance (gain) is reciprocal of resistance in ohms
         input_node, output_node,    // Input and output_node nodes
@@ -36,6 +41,11 @@ pub fn voltage_source(
     voltage: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if voltage.len() != 1
+    {
+        return Err(NodalAnalysisModellingError::WrongGainDimension.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -79,6 +89,11 @@ pub fn current_source(
     current: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if current.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(NodalAnalysisModellingError::WrongGainDimension.into());
+    }
+
     GenericElement::try_new(
         current,
         input_node, output_node,
diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index 6e6f2dd..d9fbdca 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -41,4 +41,10 @@ pub enum NodalAnalysisModellingError
     NodeDoesNotExist,
     #[error("could not find desired model type in the given or default configurators")]
     ModelTypeNotFound,
+    #[error("could not find desired element type in the configurator for this type of model")]
+    ElementTypeNotFound,
+    #[error("a node was configured with a potential whose number of components is not the dimension of the model")]
+    WrongPotentialDimension,
+    #[error("an element was given the wrong number of gain values")]
+    WrongGainDimension,
 }
\ No newline at end of file
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index 91fe3bf..f98644d 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -6,7 +6,7 @@ use std::cell::RefCell;
 use gmatlib::{col_vec, Matrix};
 use thiserror::Error;
 
-use crate::errors::ElementCreationError;
+use crate::errors::{ElementCreationError, NodalAnalysisModellingError};
 // Local modules
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
@@ -97,6 +97,11 @@ pub fn temperature_delta(
     temp_delta: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if temp_delta.len() != 1
+    {
+        return Err(NodalAnalysisModellingError::WrongGainDimension.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -140,6 +145,11 @@ pub fn heat_flux(
     flux: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if flux.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(NodalAnalysisModellingError::WrongGainDimension.into());
+    }
+
     GenericElement::try_new(
         flux, 
         input_node, output_node, 
diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index a9a9115..2844bb0 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -230,8 +230,43 @@ impl NodalAnalysisStudyBuilder
         Ok(self)
     }
 
+    /// Checks that everything the model refers to exists before it is used.
+    fn check_model(&self) -> anyhow::Result<()>
+    {
+        let configurator = self.configurator.get(&self.model.model_type)
+            .ok_or(NodalAnalysisModellingError::ModelTypeNotFound)?;
+
+        for (&node, node_data) in &self.model.configuration
+        {
+            if node >= self.model.nodes
+            {
+                return Err(NodalAnalysisModellingError::NodeDoesNotExist.into());
+            }
+            if node_data.potential.len() != configurator.dimension
+            {
+                return Err(NodalAnalysisModellingError::WrongPotentialDimension.into());
+            }
+        }
+
+        for element in &self.model.elements
+        {
+            if element.input >= self.model.nodes || element.output >= self.model.nodes
+            {
+                return Err(NodalAnalysisModellingError::NodeDoesNotExist.into());
+            }
+            if !configurator.elements.contains_key(element.element_type.as_str())
+            {
+                return Err(NodalAnalysisModellingError::ElementTypeNotFound.into());
+            }
+        }
+
+        Ok(())
+    }
+
     pub fn run_study(self, margin: f64, limit: usize) -> anyhow::Result<NodalAnalysisStudyResult>
     {
+        self.check_model()?;
+
         let n = self.get_dimension();
         let mut nodes = vec![];
         let mut elements = vec![];
-- 
2.43.0


From 9a30379c46c7d78ecbb80c83f490501dda6c7d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 27/72] fix: a nodal analysis model can be parsed from its JSON
 text

---
 neapolitan/src/modelling/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/modelling/mod.rs b/neapolitan/src/modelling/mod.rs
index 42fce1f..2cb9012 100644
--- a/neapolitan/src/modelling/mod.rs
+++ b/neapolitan/src/modelling/mod.rs
@@ -5,7 +5,7 @@ pub mod node;
 use std::{collections::HashMap, str::FromStr, usize};
 
 /// 3rd party modules
-use serde::de::{Deserialize, IntoDeserializer, value};
+use serde::de::{Error, value};
 
 /// Local modules
 pub use element::GenericElement;
@@ -55,6 +55,6 @@ impl FromStr for NodalAnalysisModel
 
     fn from_str(s: &str) -> Result<Self, Self::Err> 
     {
-        Self::deserialize(s.into_deserializer())
+        serde_json::from_str(s).map_err(value::Error::custom)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 6c70f1b00b79cf5e20076687cfea858e4870aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 28/72] fix: the neapolitan command line writes its solution
 beside the model, never over it

---
 neapolitan/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index ff50a91..bf5b2a5 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -105,7 +105,8 @@ fn main()
         }
     };
 
-    let solution_file = args[1].replace(".json", ".soln.json");
+    // Never write over the model itself, whatever it is called
+    let solution_file = format!("{}.soln.json", args[1].strip_suffix(".json").unwrap_or(&args[1]));
     match write(solution_file, solution_json) 
     {
         Ok(_) => process::exit(0),
-- 
2.43.0


From b21fd1a153f1ffc100e09cce6f26cd43e9815ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 29/72] fix: the neapolitan command line reports missing
 arguments instead of panicking

---
 neapolitan/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index bf5b2a5..669c4ee 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -10,6 +10,12 @@ fn main()
     let mut precision: Option<f64> = None;
     let mut iteration_limit: Option<usize> = None;
 
+    if args.len() < 2
+    {
+        println!("[neapolitan].....ERR: no model file was given!");
+        process::exit(1);
+    }
+
     let model_json = match read_to_string(&args[1]) 
     {
         Ok(o) => o,
@@ -29,7 +35,7 @@ fn main()
         if arg == "--precision" ||
            arg == "-p"
         {
-            precision = match args[i + 1].parse()
+            precision = match args.get(i + 1).map_or("", String::as_str).parse()
             {
                 Ok(o) => 
                 {
@@ -50,7 +56,7 @@ fn main()
         else if arg == "--iterations" ||
                 arg == "-i"
         {
-            iteration_limit = match args[i + 1].parse()
+            iteration_limit = match args.get(i + 1).map_or("", String::as_str).parse()
             {
                 Ok(o) => 
                 {
-- 
2.43.0


From 3ac2dddb197b02ecf0f4f27077ce0739ce07950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 30/72] fix: nxc writes its results beside the program, never
 over it

---
 nexsys/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 62f9350..d8eb519 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -92,7 +92,7 @@ OPTIONS:
     );
 
     if output_file {
-        match write(args[1].replace(".nxs", ".txt"), output) {
+        match write(format!("{}.txt", args[1].strip_suffix(".nxs").unwrap_or(&args[1])), output) {
             Ok(_) => process::exit(0),
             Err(_) => {
                 println!("[nxc].....ERR: nxc could not write to the output file");
-- 
2.43.0


From 7efd4ab8ddd6e4979ac86e91cbf8532613d37c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 31/72] fix: nxc reports a missing option value instead of
 panicking

---
 nexsys/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index d8eb519..746d8ac 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -35,7 +35,7 @@ OPTIONS:
 
     for i in 0..args.len() {
         if args[i] == *"--margin" || args[i] == *"-tol" {
-            match args[i+1].parse::<f64>() {
+            match args.get(i+1).map_or("", String::as_str).parse::<f64>() {
                 Ok(o) => {
                     println!("[nxc].....margin set to {o}");
                     margin = o;
@@ -47,7 +47,7 @@ OPTIONS:
             }
         }
         if args[i] == *"--max-iterations" || args[i] == *"-max" {
-            match args[i+1].parse::<usize>() {
+            match args.get(i+1).map_or("", String::as_str).parse::<usize>() {
                 Ok(o) => {
                     println!("[nxc].....iteration limit set to: {o}");
                     limit = o;
-- 
2.43.0


From 74b5abb34e1964cfdf959d0edd863ec05a5f750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 32/72] fix: nxc accepts the --output-file option that its help
 text lists

---
 nexsys/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 746d8ac..149c1aa 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -67,7 +67,7 @@ OPTIONS:
             
             println!("\n{preprocess}\n");
         }
-        if args[i] == *"--to-file" || args[i] == *"-o" {
+        if args[i] == *"--output-file" || args[i] == *"--to-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
             output_file = true;
         }
-- 
2.43.0


From ad66dac0babc6b9bac5fa343284edf60f7ab70ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 33/72] fix: nxc --verbose reports code that does not compile
 instead of panicking

---
 nexsys/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 149c1aa..c97d8bd 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -1,6 +1,6 @@
 use std::{env, process};
 use std::fs::{read_to_string, write};
-use nexsys::{solve_with_preprocessors, parsing::{conditionals, conversions, consts}};
+use nexsys::{solve_with_preprocessors, parsing::{comments, conditionals, conversions, consts}};
 
 fn main() {
     let args: Vec<String> = env::args().collect();
@@ -61,11 +61,14 @@ OPTIONS:
         if args[i] == *"--verbose" || args[i] == *"-v" {
             println!("[nxc].....Printing compiled code...");
 
-            let mut preprocess = conversions(&system).unwrap();
-            preprocess = consts(&preprocess).unwrap();
-            preprocess = conditionals(&preprocess).unwrap();
+            let preprocess = conversions(&comments(&system))
+                .and_then(|text| consts(&text))
+                .and_then(|text| conditionals(&text));
             
-            println!("\n{preprocess}\n");
+            match preprocess {
+                Ok(o) => println!("\n{o}\n"),
+                Err(e) => println!("[nxc].....ERR: {e}")
+            }
         }
         if args[i] == *"--output-file" || args[i] == *"--to-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
-- 
2.43.0


From 4caab8f5b49acbdfbe2a27ccf950dada2670d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 34/72] fix: removing a comment leaves longer comments that
 start the same way intact

---
 nexsys/src/parsing/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index a8087d9..662db7b 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -74,14 +74,7 @@ pub fn comments(text: &str) -> String
     {
         static ref RE: Regex = nexsys_regex(r"//[^\n]*");
     }
-    let mut output = text.to_string();
-
-    for f in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        output = output.replace(f, "");
-    }
-
-    output
+    RE.replace_all(text, "").to_string()
 }
 
 /// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-- 
2.43.0


From c937798582b1cf507371497a60194bcf2700b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 35/72] fix: constants whose names contain digits or start with
 another name are replaced exactly

---
 nexsys/src/parsing/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 662db7b..d7625d4 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -107,23 +107,27 @@ pub fn consts(text: &str) -> anyhow::Result<String>
 {
     lazy_static! 
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_][a-z0-9_]*");
         static ref CONSTS: HashMap<String, f64> = const_data();
     }
 
-    let mut output = text.to_string();
+    let mut output = String::new();
+    let mut end = 0;
 
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    for m in RE.find_iter(text)
     {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
+        if let Some(c) = CONSTS.get(m.as_str()) 
         {
-            output = output.replace(m, &c.to_string());
+            output += &text[end..m.start()];
+            output += &c.to_string();
+            end = m.end();
         } 
         else 
         {
             return Err(ConstFormatError.into())
         }
     }
+    output += &text[end..];
     Ok(output)
 }
 
-- 
2.43.0


From 9149b353712bf87ab436c8e1f1f4a2b6e92a7bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 36/72] fix: raising a negative constant to a power includes
 its sign

---
 nexsys/src/parsing/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index d7625d4..5baf71c 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -119,8 +119,15 @@ pub fn consts(text: &str) -> anyhow::Result<String>
         if let Some(c) = CONSTS.get(m.as_str()) 
         {
             output += &text[end..m.start()];
-            output += &c.to_string();
             end = m.end();
+            if *c < 0.0 && text[end..].trim_start().starts_with('^')
+            {
+                output += &format!("({c})"); // the sign belongs to the base of the power
+            }
+            else
+            {
+                output += &c.to_string();
+            }
         } 
         else 
         {
-- 
2.43.0


From ddc0a854992166a91ef1ed476c0c11fb303978e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 37/72] fix: a space after the minus sign of a guess or bound
 no longer panics

---
 nexsys/src/parsing/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 5baf71c..c89dec7 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -36,7 +36,7 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
         res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
+            g.get(1).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse number in guess declaration")
         );
     }
@@ -58,9 +58,9 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
         res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
         res.1.insert(
             d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
+            [d.get(2).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
+            d.get(3).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse second number in domain declaration")]
         );
     }
-- 
2.43.0


From 07b9bf9b17ad6acbf9b92d88abfe8c3658147ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 38/72] fix: a constant is defined by the whole right side of
 its declaration

---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index c89dec7..09af1e2 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -142,7 +142,7 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
 {
     lazy_static!
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *([^\n]+)");
     }
     let mut res = (text.to_owned(), HashMap::new());
     let const_vals = RE.captures_iter(text);
-- 
2.43.0


From 72aea4dbdacd15ca238c26bbe67c975e94c075ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 39/72] fix: volume units generated from length units are
 cubes, not squares

---
 nexsys/src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index ddbc04e..b09636b 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -61,7 +61,7 @@ fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> Hash
     let mut temp = HashMap::new();
     
     for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1);    
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
     }
 
     if let Some(d) = data.get_mut("VOLUME") {
-- 
2.43.0


From a895c802cc1645c6fa6692a94991e1e98997cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 40/72] fix: the US bushel is 0.03523907016688 cubic metres

---
 nexsys/src/units/units.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/units/units.json b/nexsys/src/units/units.json
index 07cc519..9afc3b4 100644
--- a/nexsys/src/units/units.json
+++ b/nexsys/src/units/units.json
@@ -124,7 +124,7 @@
         "gallon": 0.0037854118,
         "l": 0.001,
         "L": 0.001,
-        "Bu": 0.03523007016688,
+        "Bu": 0.03523907016688,
         "ml": 1e-06,
         "milliliter": 1e-06,
         "\u00c2\u00b5l": 1e-09,
-- 
2.43.0


From 43225d058ef106d67d2a5d056a7278942e8e1921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 41/72] fix: names that contain if, else or end survive inside
 conditionals

---
 nexsys/src/parsing/conditionals.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 95fd7ba..b0e1b45 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -13,11 +13,18 @@ macro_rules! contains_any {
 /// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
 pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 
-    let mut args = cndl.replace("if ",  "if(")  // make start of function call
-    .replace([' ', '\n'], "")   // strip whitespace
-    .replace(':',   ",")        // delimit arguments
-    .replace("else", "")        // (ditto)
-    .replace("end", ")");       // close function call
+    // Only whole words are keywords. They are replaced while there is still whitespace between words
+    lazy_static!{
+        static ref IF:   Regex = nexsys_regex(r"\bif +");
+        static ref ELSE: Regex = nexsys_regex(r"\belse\b");
+        static ref END:  Regex = nexsys_regex(r"\bend\b");
+    }
+
+    let mut args = IF.replace_all(cndl, "if(").to_string(); // make start of function call
+    args = ELSE.replace_all(&args, "").to_string();         // delimited by its colon
+    args = END.replace_all(&args, ")").to_string();         // close function call
+    args = args.replace([' ', '\n'], "")   // strip whitespace
+    .replace(':',   ",");       // delimit arguments
 
     //if(a<b,a-b=1,b-a=1)
     // println!("SUBBED TOKENS: {}", args);
-- 
2.43.0


From 88288cea6aa65dd1a13bbc33d8c575c919d5bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 42/72] fix: code with Windows line endings compiles like any
 other

---
 nexsys/src/parsing/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 09af1e2..414e50f 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -169,7 +169,8 @@ pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<Stri
     let sys_guesses: HashMap<String, f64>;
     let sys_consts:  HashMap<String, f64>;
     
-    let mut nil = comments(code); 
+    // Conditionals are matched line by line, so all lines must end the same way
+    let mut nil = comments(&code.replace("\r\n", "\n")); 
 
     // Copy-paste all common engineering constants (this happens first so users can rename constants)
     nil = consts(&nil)?;
-- 
2.43.0


From b5e1f40e625ec50dc29d503787beb2c7e5801d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:22 +0000
Subject: [PATCH 43/72] fix: equations with one unknown are found wherever they
 stand in the program

---
 nexsys/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index dfcd9a8..ba5fd73 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -24,7 +24,7 @@ fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHas
         let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
         if unknowns.len() != 1
         {
-            return Ok(false);
+            continue;
         }
 
         let var_info: [f64; 3];
-- 
2.43.0


From 1ae5419a833da11f44d65d9f3bfee330662afbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:22 +0000
Subject: [PATCH 44/72] fix: a solved variable is a known value in the
 equations that follow

---
 nexsys/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index ba5fd73..faa1755 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -38,7 +38,7 @@ fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHas
         }
 
         let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_var_with_domain_to_ctx(&soln.0, soln.1, var_info[1], var_info[2]);
+        ctx.add_const_to_ctx(&soln.0, soln.1); // the value is known from here on
         *log_step = format!(
             "Var: {:#?} \nEquation: {}", 
             soln.0, equation
-- 
2.43.0


From d2ab105b0bb4de107eb34dd5e4aea0e937e6cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:22 +0000
Subject: [PATCH 45/72] fix: the search for a solvable subsystem does not
 depend on the order of its equations

---
 nexsys/src/lib.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index faa1755..6db040c 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -56,25 +56,32 @@ fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut Contex
         let mut builder = SystemBuilder::new(equation, ctx.clone())?;
         let mut eqn_strings = vec![equation.to_owned()];
 
-        for (j, equation) in eqn_pool.iter().enumerate()
+        // An equation that was skipped may become useful once others have joined the system
+        let mut still_learning = true;
+        while still_learning
         {
-            // Skip the current equation we're building a system with 
-            // OR an equation that we've already added to the system
-            if j == i || eqn_strings.contains(equation)
+            still_learning = false;
+            for (j, equation) in eqn_pool.iter().enumerate()
             {
-                continue;
-            }
-
-            // println!("Constraint status: {}", builder.is_fully_constrained());
-
-            match builder.try_constrain_with(equation)?
-            {
-                ConstrainResult::WillConstrain => {
-                    eqn_strings.push(equation.to_owned());
-                    // println!("constrained with: {}", equation);
-                },
-                ConstrainResult::WillOverConstrain => break,
-                _ => {}
+                // Skip the current equation we're building a system with 
+                // OR an equation that we've already added to the system
+                if j == i || eqn_strings.contains(equation)
+                {
+                    continue;
+                }
+
+                // println!("Constraint status: {}", builder.is_fully_constrained());
+
+                match builder.try_constrain_with(equation)?
+                {
+                    ConstrainResult::WillConstrain => {
+                        eqn_strings.push(equation.to_owned());
+                        still_learning = true;
+                        // println!("constrained with: {}", equation);
+                    },
+                    ConstrainResult::WillOverConstrain => break,
+                    _ => {}
+                }
             }
         }
             
-- 
2.43.0


From cd2f32c1abbfaf1f336d4d8215698c1817f2f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 46/72] fix: the inverse of a 3x3 matrix was transposed

---
 gmatlib/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 0424bb1..ddfb785 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -593,13 +593,13 @@ where T: Element<T>
     fn try_inplace_invert_3(&mut self) -> Result<()>
     {
         let a11 = self[(0, 0)];
-        let a12 = self[(1, 0)];
-        let a13 = self[(2, 0)];
-        let a21 = self[(0, 1)];
+        let a12 = self[(0, 1)];
+        let a13 = self[(0, 2)];
+        let a21 = self[(1, 0)];
         let a22 = self[(1, 1)];
-        let a23 = self[(2, 1)];
-        let a31 = self[(0, 2)];
-        let a32 = self[(1, 2)];
+        let a23 = self[(1, 2)];
+        let a31 = self[(2, 0)];
+        let a32 = self[(2, 1)];
         let a33 = self[(2, 2)];
 
         let det  = a11*a22*a33 + a21*a32*a13 + a31*a12*a23 
-- 
2.43.0


From 0be48aa94247bf6232ba2b76b3ba8388f2b3372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 47/72] fix: one term of the determinant in the 4x4 inversion
 was wrong

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index ddfb785..c06b1df 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -646,7 +646,7 @@ where T: Element<T>
         let det  = a11*a22*a33*a44 + a11*a23*a34*a42 + a11*a24*a32*a43 +
                    a12*a21*a34*a43 + a12*a23*a31*a44 + a12*a24*a33*a41 + 
                    a13*a21*a32*a44 + a13*a22*a34*a41 + a13*a24*a31*a42 + 
-                   a14*a21*a33*a42 + a14*a22*a34*a43 + a14*a23*a32*a41 -
+                   a14*a21*a33*a42 + a14*a22*a31*a43 + a14*a23*a32*a41 -
                    a11*a22*a34*a43 - a11*a23*a32*a44 - a11*a24*a33*a42 -
                    a12*a21*a33*a44 - a12*a23*a34*a41 - a12*a24*a31*a43 -
                    a13*a21*a34*a42 - a13*a22*a31*a44 - a13*a24*a32*a41 -
-- 
2.43.0


From 7d535a2c1a0de7326c615f132963ace86ab1fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 48/72] fix: each side of an equation must be an expression by
 itself

---
 geqslib/src/lib.rs      | 13 ++++++++++---
 geqslib/src/shunting.rs |  6 ++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 356360f..ec5e559 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -36,7 +36,11 @@ pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -
         _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
     }
     
-    compile_to_fn(&format!("({}) - ({})", sides[0], sides[1]), ctx)
+    // Each side must be an expression by itself
+    let lhs = compile_to_fn(sides[0], ctx)?;
+    let rhs = compile_to_fn(sides[1], ctx)?;
+
+    Ok(move |x: f64| Ok(lhs(x)? - rhs(x)?))
 }
 
 /// An internal function for formatting an equation to an expression prior to tokenization 
@@ -62,7 +66,9 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         ctx.add_var_with_domain_to_ctx(var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
-    let compiled = compile_to_fn_of_hashmap(&format!("({}) - ({})", sides[0], sides[1]), ctx);
+    // Each side must be an expression by itself
+    let compiled = compile_to_fn_of_hashmap(sides[0], ctx)
+        .and_then(|lhs| Ok((lhs, compile_to_fn_of_hashmap(sides[1], ctx)?)));
 
     // A refused equation must not leave its unknowns behind
     if compiled.is_err()
@@ -73,7 +79,8 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         }
     }
 
-    compiled
+    let (lhs, rhs) = compiled?;
+    Ok(move |x: &HashMap<String, f64>| Ok(lhs(x)? - rhs(x)?))
 }
 
 /// Solves an equation given as a string for the SINGLE
diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 2a658db..c4c5637 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -292,6 +292,12 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
         }   
         previous = word;
     }
+
+    // An expression never ends where an operand is expected
+    if unary_minus
+    {
+        return Err(ShuntingYardError::ExpectedArg.into())
+    }
     
     while let Some(tok) = stack.pop() 
     {
-- 
2.43.0


From 2ffbc0330c19a1250cdba4e88e22485483280463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 49/72] fix: a large iteration limit no longer overflows the
 stack

---
 geqslib/src/newton.rs | 57 +++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 5f9737d..9c159e1 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -37,26 +37,26 @@ where anyhow::Error: From<E>
         return Err(NewtonRaphsonSolverError::NegativeMargin.into());
     }
 
-    // Allow user to manually prevent stack overflow
-    if limit == 0
+    let mut guess = guess;
+
+    // The stack must not grow with the number of iterations
+    for _ in 0..limit
     {
-        return Err(NewtonRaphsonSolverError::ReachedIterationLimit.into());
-    }
+        let y = f(guess)?;
+        let y_prime = (f(guess + _DX_)? - y) / _DX_;
+        let delta = y / y_prime;
 
-    let y = f(guess)?;
-    let y_prime = (f(guess + _DX_)? - y) / _DX_;
-    let delta = y / y_prime;
+        // Check if we are sufficiently close to the solution:
+        if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
+        {
+            return Ok(guess); // ...if so, exit early
+        }
 
-    // Check if we are sufficiently close to the solution:
-    if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
-    {
-        return Ok(guess); // ...if so, exit early
+        // ...if not, calculate next iteration
+        guess -= delta;
     }
 
-    // ...if not, calculate next iteration
-    let next_guess = guess - delta;
-
-    newton_raphson(f, next_guess, margin, limit - 1)
+    Err(NewtonRaphsonSolverError::ReachedIterationLimit.into())
 }
 
 /// A basic implementation of the Newton-Raphson method for multivariate
@@ -123,9 +123,30 @@ where
         return Err(NewtonRaphsonSolverError::ImproperlyConstrainedSystem.into());
     }
 
+    // The stack must not grow with the number of iterations
+    for _ in 0..limit
+    {
+        if multivariate_newton_raphson_step(&f, guess, margin)?
+        {
+            return Ok(guess);
+        }
+    }
+
+    Err(NewtonRaphsonSolverError::ReachedIterationLimit.into())
+}
+
+/// Performs one iteration of the multivariate Newton-Raphson method, returning whether `guess`
+/// was the solution. If it was not, then `guess` is moved closer to it.
+fn multivariate_newton_raphson_step<K, E>(f: &[impl Fn(&HashMap<K, f64>) -> Result<f64, E>], guess: &mut HashMap<K, f64>, margin: f64) -> anyhow::Result<bool>
+where 
+    K: Clone + Eq + Hash,
+    anyhow::Error: From<E>,
+{
+    let n = f.len();
+
     // Build jacobian w/ F(X) values... we will mutate them to F'(X) later
     let mut elements = vec![];
-    for func in &f 
+    for func in f 
     {
         let row = &mut vec![func(guess)?; n];
         elements.append(row);
@@ -177,7 +198,7 @@ where
 
     if error <= margin && change <= margin
     {
-        return Ok(guess);
+        return Ok(true);
     }
 
     // Build next guess vector
@@ -190,5 +211,5 @@ where
     }
 
     // COMPUTER, ENHANCE!
-    multivariate_newton_raphson(f, guess, margin, limit - 1)
+    Ok(false)
 }
\ No newline at end of file
-- 
2.43.0


From 34f2d5c1e7b1b6ceaff674e982dec4f289bb6c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 50/72] fix: comments, empty lines and trailing spaces inside a
 conditional block no longer disable it

---
 nexsys/src/parsing/conditionals.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index b0e1b45..1876d6c 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -74,7 +74,13 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
 ^[ \t]*end"#
         );
     }
-    let mut output = text.to_string();
+
+    // Blocks are matched line by line, so neither empty lines nor spaces at the end of a line may remain
+    let mut output = text.lines()
+        .map(str::trim_end)
+        .filter(|line| !line.is_empty())
+        .collect::<Vec<&str>>()
+        .join("\n");
     
     loop {
         let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
-- 
2.43.0


From 3752cbe2f66857077b33fb643456da4f5d322703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 51/72] fix: a conditional block that is not understood is an
 error

---
 nexsys/src/parsing/conditionals.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 1876d6c..af3de4c 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -15,7 +15,7 @@ pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 
     // Only whole words are keywords. They are replaced while there is still whitespace between words
     lazy_static!{
-        static ref IF:   Regex = nexsys_regex(r"\bif +");
+        static ref IF:   Regex = nexsys_regex(r"(?m)^[ \t]*if[ \t]+");
         static ref ELSE: Regex = nexsys_regex(r"\belse\b");
         static ref END:  Regex = nexsys_regex(r"\bend\b");
     }
@@ -67,12 +67,13 @@ pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 pub fn conditionals(text: &str) -> anyhow::Result<String> {
     lazy_static!{
         static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+r#"(?m)^[ \t]*if[ \t]+[^<>=]+[<>=]{1,2}[^<>=]+:$
 ^.*$
-^[ \t]*else:$
+^[ \t]*else[ \t]*:$
 ^.*$
 ^[ \t]*end"#
         );
+        static ref LEFTOVER: Regex = nexsys_regex(r"(?m)^[ \t]*(if\b.*:|else[ \t]*:|end)$");
     }
 
     // Blocks are matched line by line, so neither empty lines nor spaces at the end of a line may remain
@@ -119,6 +120,12 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
 
         if cdls.is_empty() { break } // keep going until there are no if statement matches left
     }
+
+    // A block that was not understood must not leave the equations of both branches in the system
+    if LEFTOVER.is_match(&output)
+    {
+        return Err(ConditionFormatError::ConditionalSyntax.into())
+    }
     
     Ok(output)
 }
-- 
2.43.0


From 02c2a18a5e7fb9daa559548691b28fba1be4d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 52/72] fix: removing a declaration leaves longer declarations
 that start the same way intact

---
 nexsys/src/parsing/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 414e50f..48ad486 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -28,12 +28,11 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
     {
         static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
     }
-    let mut res = (text.to_owned(), HashMap::new());
+    let mut res = (RE.replace_all(text, "").to_string(), HashMap::new());
     let guesses = RE.captures_iter(text);
 
     for g in guesses 
     {
-        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
             g.get(1).unwrap().as_str().replace(' ', "").parse()
@@ -50,12 +49,11 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
     {
         static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
     }
-    let mut res = (text.to_owned(), HashMap::new());
+    let mut res = (RE.replace_all(text, "").to_string(), HashMap::new());
     let domains = RE.captures_iter(text);
 
     for d in domains 
     {
-        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
         res.1.insert(
             d.get(1).unwrap().as_str().to_owned(),
             [d.get(2).unwrap().as_str().replace(' ', "").parse()
@@ -144,12 +142,11 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
     {
         static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *([^\n]+)");
     }
-    let mut res = (text.to_owned(), HashMap::new());
+    let mut res = (RE.replace_all(text, "").to_string(), HashMap::new());
     let const_vals = RE.captures_iter(text);
 
     for c in const_vals
     {
-        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
         res.1.insert(
             c.get(1).unwrap().as_str().to_owned(), 
             eval_str(c.get(2).unwrap().as_str())?
-- 
2.43.0


From f85a4ba5581fe02b82d792a7a81c0ce78be3a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 53/72] fix: guesses and bounds may be written like any other
 number

---
 nexsys/src/parsing/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 48ad486..bbcc607 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -10,7 +10,7 @@ use crate::{units::{convert, const_data}, errors::ConstFormatError};
 pub use conditionals::*;
 
 const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:e[0-9]+)?";
 
 /// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
 fn nexsys_regex(pattern: &str) -> Regex
@@ -47,7 +47,7 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
 {
     lazy_static!
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
+        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N) *, *(@N) *\]");
     }
     let mut res = (RE.replace_all(text, "").to_string(), HashMap::new());
     let domains = RE.captures_iter(text);
-- 
2.43.0


From c6bf3b7e6165af4fa33213a8c98c68293347cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:57 +0000
Subject: [PATCH 54/72] fix: a line that starts with a name like endx does not
 end a conditional block

---
 nexsys/src/parsing/conditionals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index af3de4c..58e162a 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -71,7 +71,7 @@ r#"(?m)^[ \t]*if[ \t]+[^<>=]+[<>=]{1,2}[^<>=]+:$
 ^.*$
 ^[ \t]*else[ \t]*:$
 ^.*$
-^[ \t]*end"#
+^[ \t]*end$"#
         );
         static ref LEFTOVER: Regex = nexsys_regex(r"(?m)^[ \t]*(if\b.*:|else[ \t]*:|end)$");
     }
-- 
2.43.0


From 36e919cee203af357c33659c6ef66f6f7e15c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 55/72] fix: the C interface separates the values of a solution

---
 nexsys/src/ffi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/ffi.rs b/nexsys/src/ffi.rs
index f34680f..ad30eae 100644
--- a/nexsys/src/ffi.rs
+++ b/nexsys/src/ffi.rs
@@ -96,7 +96,7 @@ pub unsafe extern "C" fn solve_with_preprocessors(system: *const c_char, margin:
                 let steps_str = log.join("\n");
                 let soln_str = soln.iter()
                     .fold(String::new(), |mut acc, (x, y)| {
-                        acc.push_str(&format!("{} {:#?}", x, y));
+                        acc.push_str(&format!("{}: {:#?}, ", x, y));
                         acc
                     });
                 CString::new(format!("{{ log: {:#?}, \nsoln: {:#?} }}", steps_str, soln_str))
-- 
2.43.0


From 99cd442e89be35a956571e49fa1aeae8afcce54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 56/72] fix: a study whose potentials or fluxes are not finite
 numbers is an error

---
 neapolitan/src/errors.rs | 2 ++
 neapolitan/src/lib.rs    | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index d9fbdca..c8cb383 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -47,4 +47,6 @@ pub enum NodalAnalysisModellingError
     WrongPotentialDimension,
     #[error("an element was given the wrong number of gain values")]
     WrongGainDimension,
+    #[error("the model has no solution in which every potential and flux is a finite number")]
+    SolutionNotFinite,
 }
\ No newline at end of file
diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 2844bb0..38070c5 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -385,6 +385,11 @@ impl NodalAnalysisStudyBuilder
             );
         }
 
+        if result.nodes.values().chain(result.elements.values()).flatten().any(|x| !x.is_finite())
+        {
+            return Err(NodalAnalysisModellingError::SolutionNotFinite.into());
+        }
+
         Ok(result)
     }
 }
-- 
2.43.0


From 2e5f52007ac89f7c3f8a438c6991fac5aed717a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 57/72] fix: the potential of a node can be read while the node
 is borrowed

---
 neapolitan/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 38070c5..1bc01c2 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -439,7 +439,7 @@ pub fn get_node_potential(node_ref: &Weak<RefCell<GenericNode>>) -> anyhow::Resu
 {
     if let Some(node) = node_ref.upgrade()
     {
-        Ok(node.try_borrow_mut()?.potential.clone())
+        Ok(node.try_borrow()?.potential.clone())
     }
     else
     {
-- 
2.43.0


From 81b6c3dc44dfd31008f0bb11e865f5a29acda5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 58/72] fix: sources between nodes take one value per component
 of the potential

---
 neapolitan/src/dc_circuits.rs   | 8 ++++----
 neapolitan/src/heat_transfer.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index ef87587..2cef3cc 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -3,7 +3,7 @@ use std::rc::{Rc, Weak};
 use std::cell::RefCell;
 
 // 3rd party modules
-use gmatlib::{col_vec, Matrix};
+use gmatlib::Matrix;
 
 // Local modules
 use crate::errors::{ElementCreationError, NodalAnalysisModellingError};
@@ -41,7 +41,7 @@ pub fn voltage_source(
     voltage: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
-    if voltage.len() != 1
+    if voltage.len() != get_node_potential(&input_node)?.get_rows()
     {
         return Err(NodalAnalysisModellingError::WrongGainDimension.into());
     }
@@ -59,12 +59,12 @@ pub fn voltage_source(
     if drives_output
     {
         lock_node(&output_node)?;
-        set_node_potential(&output_node, (get_node_potential(&input_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&output_node, (get_node_potential(&input_node)? + Matrix::from_col_vec(voltage.to_vec())).into())?;
     }
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - Matrix::from_col_vec(voltage.to_vec())).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index f98644d..b21b890 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -3,7 +3,7 @@ use std::rc::{Rc, Weak};
 use std::cell::RefCell;
 
 // 3rd party modules
-use gmatlib::{col_vec, Matrix};
+use gmatlib::Matrix;
 use thiserror::Error;
 
 use crate::errors::{ElementCreationError, NodalAnalysisModellingError};
@@ -97,7 +97,7 @@ pub fn temperature_delta(
     temp_delta: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
-    if temp_delta.len() != 1
+    if temp_delta.len() != get_node_potential(&input_node)?.get_rows()
     {
         return Err(NodalAnalysisModellingError::WrongGainDimension.into());
     }
@@ -115,12 +115,12 @@ pub fn temperature_delta(
     if drives_output
     {
         lock_node(&output_node)?;
-        set_node_potential(&output_node, (get_node_potential(&input_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&output_node, (get_node_potential(&input_node)? + Matrix::from_col_vec(temp_delta.to_vec())).into())?;
     }
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - Matrix::from_col_vec(temp_delta.to_vec())).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
-- 
2.43.0


From 43deca56692d0549f046fe4ffcadea796dc26cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 59/72] fix: the multivariate Newton solver puts each variable
 back where it was after differencing

---
 geqslib/src/newton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 9c159e1..aea3f41 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -161,6 +161,7 @@ where
     // Correct jacobian values and invert
     for (j, var) in vars.iter().enumerate()
     {
+        let unmoved = guess[var];
         if let Some(v) = guess.get_mut(var)
         {
             *v += _DX_;
@@ -172,7 +173,7 @@ where
         }
         if let Some(v) = guess.get_mut(var)
         {
-            *v -= _DX_;
+            *v = unmoved;
         } 
     }
 
-- 
2.43.0


From 48e5bb30ad286fa6c25c927497f7b1044a5d41cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 60/72] fix: closed-form inversion neither under- nor overflows
 for tiny or huge matrices

---
 gmatlib/src/lib.rs | 69 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 66 insertions(+), 3 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index c06b1df..8a0265b 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -677,6 +677,69 @@ where T: Element<T>
         Ok(())
     }
 
+    /// Returns the power of two that brings the largest magnitude in the given row 
+    /// into the range [1, 2), or one if there is no such power. That is always the 
+    /// case for integer types, which have no fractions.
+    fn row_normalizing_scale(&self, row: usize) -> T
+    {
+        let two = T::one() + T::one();
+        let mut largest = T::zero();
+
+        for j in 0..self.cols
+        {
+            let x = self[(row, j)];
+            let magnitude = if x < T::zero() { -x } else { x };
+            if magnitude > largest
+            {
+                largest = magnitude;
+            }
+        }
+
+        let is_integer = T::one() / two == T::zero();
+        if is_integer || largest == T::zero() || largest - largest != T::zero()
+        {
+            return T::one();
+        }
+
+        let mut scale = T::one();
+        while largest * scale >= two
+        {
+            scale = scale / two;
+        }
+        while largest * scale < T::one() && scale * two / two == scale
+        {
+            scale = scale * two;
+        }
+        scale
+    }
+
+    /// Attempts to invert a `Matrix<T>` with the given closed-form inversion, which 
+    /// multiplies elements of every row together. The rows are first scaled by powers 
+    /// of two so that these products neither underflow nor overflow. 
+    fn try_invert_row_scaled(&mut self, invert: fn(&mut Self) -> Result<()>) -> Result<()>
+    {
+        let scales: Vec<T> = (0..self.rows).map(|i| self.row_normalizing_scale(i)).collect();
+        let mut scaled = self.clone();
+
+        for (i, scale) in scales.iter().enumerate()
+        {
+            scaled.inplace_row_scale(i, *scale);
+        }
+
+        invert(&mut scaled)?;
+
+        for i in 0..self.rows
+        {
+            for (j, scale) in scales.iter().enumerate()
+            {
+                scaled[(i, j)] *= *scale;
+            }
+        }
+
+        *self = scaled;
+        Ok(())
+    }
+
     /// Attempts to invert a NxN `Matrix<T>` in-place.
     fn try_inplace_invert_n(&mut self) -> Result<()>
     {
@@ -773,9 +836,9 @@ where T: Element<T>
 
         match self.rows {
             1 => self.vals[0] = T::one() / self.vals[0],
-            2 => self.try_inplace_invert_2()?,
-            3 => self.try_inplace_invert_3()?,
-            4 => self.try_inplace_invert_4()?,
+            2 => self.try_invert_row_scaled(Self::try_inplace_invert_2)?,
+            3 => self.try_invert_row_scaled(Self::try_inplace_invert_3)?,
+            4 => self.try_invert_row_scaled(Self::try_inplace_invert_4)?,
             _ => self.try_inplace_invert_n()?,
         };
 
-- 
2.43.0


From 6b77523171bab8efa17681ee8a7c96dd0db7ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 61/72] fix: gmatlib.h can be compiled as C++

---
 gmatlib/gmatlib.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 60e5ed1..57c30e2 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -3,9 +3,10 @@
 // includes
 #include <limits.h>
 #ifdef __cplusplus
-#include <exception>
 #include <sstream>
-#include <tuple>
+#include <stdexcept>
+#include <string>
+#include <utility>
 
 // uses
 using std::pair;
@@ -356,7 +357,7 @@ namespace ngineer
         /// @brief inverts the given matrix by mutating its values through gaussian elimination
         inline void inplace_invert()
         {
-            constexpr char *ERROR_MESSAGE_PREFIX = "failed to invert matrix because ";
+            constexpr const char *ERROR_MESSAGE_PREFIX = "failed to invert matrix because ";
             unsigned result = _ngffi_::try_inplace_invert(ptr);
             string errorText;
             stringstream ss;
@@ -411,7 +412,7 @@ namespace ngineer
         /// @param out the stringstream to format this matrix in
         /// @param o the matrix to append to the stringstream with the stream operator `<<`
         /// @return a reference to the given stringstream
-        inline friend stringstream& operator<<(stringstream &out, Matrix &const o)
+        inline friend stringstream& operator<<(stringstream &out, Matrix &o)
         {
             unsigned numElems = o.rows * o.cols;
 
-- 
2.43.0


From 41c9b5d8874631aa1c1fa98f1d40a06b5cc04304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 62/72] fix: the C++ matrix operators pass on the matrix and
 not its wrapper

---
 gmatlib/gmatlib.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 57c30e2..79a5548 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -265,9 +265,9 @@ namespace ngineer
         /// @brief returns the matrix product between two matrices
         /// @param rhs the right-hand operand matrix
         /// @return the matrix product of `this` matrix and `rhs`
-        inline Matrix operator*(const Matrix rhs) const
+        inline Matrix operator*(const Matrix &rhs) const
         {
-            void* matrixProduct = _ngffi_::multiply_matrix(ptr, const_cast<Matrix *>(&rhs));
+            void* matrixProduct = _ngffi_::multiply_matrix(ptr, rhs.ptr);
             if (matrixProduct == nullptr)
             {
                 string errorText;
@@ -282,9 +282,9 @@ namespace ngineer
         /// @brief returns the augment of the two given matrices if their number of rows are equal
         /// @param rhs the right-hand operand matrix
         /// @return a new matrix produced by appending the rows of the right-hand matrix to the rows of the left 
-        inline Matrix operator|(const Matrix rhs) const
+        inline Matrix operator|(const Matrix &rhs) const
         {
-            void *augmentMatrix = _ngffi_::augment_with(ptr, const_cast<Matrix *>(&rhs));
+            void *augmentMatrix = _ngffi_::augment_with(ptr, rhs.ptr);
             if (augmentMatrix == nullptr)
             {
                 string errorText;
-- 
2.43.0


From 1f677bfa7b885a0b2e09caa914b101f46ad82c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 63/72] fix: the C++ transpose is the transpose and not the
 matrix itself

---
 gmatlib/gmatlib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 79a5548..f13ac60 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -351,7 +351,7 @@ namespace ngineer
         inline Matrix transpose() const noexcept
         {
             void *transposed = _ngffi_::transpose(ptr);
-            return Matrix { cols, rows, ptr };
+            return Matrix { cols, rows, transposed };
         }
 
         /// @brief inverts the given matrix by mutating its values through gaussian elimination
-- 
2.43.0


From 0f973cd03cabf2990f07f6445f5bc2bcc39afaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 64/72] fix: copies of a C++ matrix own their elements, so that
 none is released twice

---
 gmatlib/gmatlib.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index f13ac60..62362ab 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -183,6 +183,26 @@ namespace ngineer
         {
         }
 
+        /// @brief creates a matrix with elements of its own that equal those of the given matrix
+        /// @param o the matrix to copy
+        Matrix(const Matrix &o):
+            rows(o.rows),
+            cols(o.cols),
+            ptr(_ngffi_::clone_double_matrix(o.ptr))
+        {
+        }
+
+        /// @brief replaces this matrix by a copy of the given matrix
+        /// @param o the matrix to copy
+        /// @return a reference to this matrix
+        inline Matrix &operator=(Matrix o) noexcept
+        {
+            std::swap(rows, o.rows);
+            std::swap(cols, o.cols);
+            std::swap(ptr, o.ptr);
+            return *this;
+        }
+
         /// @brief creates a new identity matrix with the specified edge length
         /// @param n the number of rows/columns that the matrix should have
         /// @return a new identity matrix
-- 
2.43.0


From 710f7045c8ab1ceb167d259ae70af997cb99009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 65/72] fix: the exceptions of a C++ matrix carry the whole
 message and not its first word

---
 gmatlib/gmatlib.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 62362ab..09bb9ea 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -229,7 +229,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to scale row " << row << " by " << scalar << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
         }
@@ -244,7 +244,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to scale matrix by " << scalar << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
         }
@@ -260,7 +260,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to add row " << r1 << " to row " << r2 << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
         }
@@ -277,7 +277,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to add row " << r1 << " scaled by " << scalar << " to row " << r2 << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
         }
@@ -293,7 +293,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to multiply matrix: " << this << " by matrix: " << &rhs << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
             return Matrix { rows, rhs.cols, matrixProduct };
@@ -310,7 +310,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to augment matrix: " << this << " with matrix: " << &rhs << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
             return Matrix { rows, cols + rhs.cols, augmentMatrix };
@@ -349,7 +349,7 @@ namespace ngineer
                 ss << "failed to slice matrix: "  ".\n";
             }
 
-            ss >> errorText;
+            errorText = ss.str();
 
             if (!errorText.empty())
             {
@@ -404,8 +404,7 @@ namespace ngineer
                 break;
             }
             ss << ERROR_MESSAGE_PREFIX << errorText;
-            errorText.clear(); // TODO: is this necessary?
-            ss >> errorText;
+            errorText = ss.str();
             throw runtime_error { errorText };
         }
 
-- 
2.43.0


From de86ecb4a044458cf6cb89a16457d9a8b7cb1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 66/72] fix: a C++ matrix that could not be created is an
 exception

---
 gmatlib/gmatlib.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 09bb9ea..5a43a2c 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -181,6 +181,10 @@ namespace ngineer
             cols(cols), 
             ptr(_ngffi_::new_double_matrix(rows, cols))
         {
+            if (ptr == nullptr)
+            {
+                throw runtime_error { "failed to create a matrix of the given size.\n" };
+            }
         }
 
         /// @brief creates a matrix with elements of its own that equal those of the given matrix
-- 
2.43.0


From fd7bba583943c674502636c58cc4197de16ff852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 67/72] fix: gmatlib.h says which row is added to and what an
 inversion returns

---
 gmatlib/gmatlib.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 5a43a2c..de2f10b 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -69,18 +69,18 @@ namespace _ngffi_
         /// @return a boolean integer value indicating success (0 on failure) 
         unsigned inplace_scale(void *ptr, double scalar);
 
-        /// @brief adds the row r1 to the row r2 in an element-wise manner
+        /// @brief adds the row r2 to the row r1 in an element-wise manner
         /// @param ptr a raw pointer to the matrix to mutate
-        /// @param r1 the row to add without mutating
-        /// @param r2 the row to mutably add to
+        /// @param r1 the row to mutably add to
+        /// @param r2 the row to add without mutating
         /// @return a boolean integer value indicating success (0 on failure)
         unsigned inplace_row_add(void *ptr, unsigned r1, unsigned r2);
 
-        /// @brief adds the row r1 to the row r2 in an element-wise manner AFTER scaling row r1 by a given value
+        /// @brief adds the row r2 to the row r1 in an element-wise manner AFTER scaling row r2 by a given value
         /// @param ptr a raw pointer to the matrix to mutate
-        /// @param r1 the row to add without mutating
-        /// @param r2 the row to mutably add to
-        /// @param scalar the quantity to scale row r1 by
+        /// @param r1 the row to mutably add to
+        /// @param r2 the row to add without mutating
+        /// @param scalar the quantity to scale row r2 by
         /// @return a boolean integer value indicating success (0 on failure)
         unsigned inplace_scaled_row_add(void *ptr, unsigned r1, unsigned r2, double scalar);
 
@@ -117,7 +117,7 @@ namespace _ngffi_
 
         /// @brief attempts to invert the matrix by mutating it in-place
         /// @param ptr a raw pointer to the matrix to invert
-        /// @return a boolean integer value indicating success (0 on failure)
+        /// @return a value of `MatrixInversionError`, which is `Ok` on success
         unsigned try_inplace_invert(void *ptr);
 
         /// @brief mutates the individual `double` value at the `i`th row and `j`th column
@@ -253,9 +253,9 @@ namespace ngineer
             }
         }
 
-        /// @brief adds the row `r1` to row `r2` in an element-wise fashion
-        /// @param r1 the row to add to another row
-        /// @param r2 the row to mutate by the addition operation
+        /// @brief adds the row `r2` to row `r1` in an element-wise fashion
+        /// @param r1 the row to mutate by the addition operation
+        /// @param r2 the row to add to another row
         inline void inplace_row_add(unsigned r1, unsigned r2)
         {
             unsigned result = _ngffi_::inplace_row_add(ptr, r1, r2);
@@ -263,16 +263,16 @@ namespace ngineer
             {
                 string errorText;
                 stringstream ss;
-                ss << "failed to add row " << r1 << " to row " << r2 << ".\n";
+                ss << "failed to add row " << r2 << " to row " << r1 << ".\n";
                 errorText = ss.str();
                 throw runtime_error { errorText };
             }
         }
 
-        /// @brief scales the row `r1` by `scalar` before adding it to row `r2` in an element-wise fashion
-        /// @param r1 the row to scale and add
-        /// @param r2 the row to mutate by the scaled addition operation
-        /// @param scalar the value to scaled 
+        /// @brief scales the row `r2` by `scalar` before adding it to row `r1` in an element-wise fashion
+        /// @param r1 the row to mutate by the scaled addition operation
+        /// @param r2 the row to scale and add
+        /// @param scalar the value to scale by
         inline void inplace_scaled_row_add(unsigned r1, unsigned r2, double scalar)
         {
             unsigned result = _ngffi_::inplace_scaled_row_add(ptr, r1, r2, scalar);
@@ -280,7 +280,7 @@ namespace ngineer
             {
                 string errorText;
                 stringstream ss;
-                ss << "failed to add row " << r1 << " scaled by " << scalar << " to row " << r2 << ".\n";
+                ss << "failed to add row " << r2 << " scaled by " << scalar << " to row " << r1 << ".\n";
                 errorText = ss.str();
                 throw runtime_error { errorText };
             }
-- 
2.43.0


From ff09ced5686f0991fcd456a2fe494f8a83cd5f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 68/72] fix: geqslib.h can be compiled as C++

---
 geqslib/geqslib.h | 50 +++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index c05f199..2b283a6 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -2,8 +2,8 @@
 #define _GEQSLIB_H_
 #ifdef __cplusplus
 // includes
-#include <exception>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 
 // uses
@@ -169,6 +169,30 @@ namespace ngineer
         }
     }; // class ContextHashMap
 
+    class ConstrainedSystem
+    {
+        // Allow SystemBuilder access to private constructor 
+        friend class SystemBuilder;
+
+    private:
+        void *ptr;
+
+        ConstrainedSystem(const void *ptr): ptr(const_cast<void *>(ptr))
+        {
+        }
+
+    public:
+        inline int specify_variable(string var, double guess, double min, double max)
+        {
+            return _ngffi_::specify_variable(ptr, var.c_str(), guess, min, max);
+        }
+
+        inline const char *solve_system(double margin, unsigned limit)
+        {
+            return _ngffi_::solve_system(ptr, margin, limit);
+        }
+    }; // class ConstrainedSystem
+
     class SystemBuilder
     {
     private:
@@ -222,30 +246,6 @@ namespace ngineer
             _ngffi_::free_system_builder(ptr);
         }
     }; // class SystemBuilder
-
-    class ConstrainedSystem
-    {
-        // Allow SystemBuilder access to private constructor 
-        friend class SystemBuilder;
-
-    private:
-        void *ptr;
-
-        ConstrainedSystem(const void *ptr): ptr(const_cast<void *>(ptr))
-        {
-        }
-
-    public:
-        inline int specify_variable(string var, double guess, double min, double max)
-        {
-            return _ngffi_::specify_variable(ptr, var.c_str(), guess, min, max);
-        }
-
-        inline const char *solve_system(double margin, unsigned limit)
-        {
-            return _ngffi_::solve_system(ptr, margin, limit);
-        }
-    }; // class ConstrainedSystem
 } // namespace ngineer
 #endif // __cplusplus
 #endif // _GEQSLIB_H_
\ No newline at end of file
-- 
2.43.0


From d7323161af4a4da4ba052d8c6878a04040a0e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 69/72] fix: C++ contexts, builders and systems are released
 exactly once

---
 geqslib/geqslib.h | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index 2b283a6..dce107c 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -147,12 +147,21 @@ namespace ngineer
         {
         }
 
+        // There is no copy of a context to be had, and only one owner may free it
+        ContextHashMap(const ContextHashMap &) = delete;
+        ContextHashMap &operator=(const ContextHashMap &) = delete;
+
     public:
         ContextHashMap() noexcept
         {
             ptr = _ngffi_::new_default_context_hash_map();
         }
 
+        ContextHashMap(ContextHashMap &&o) noexcept: ptr(o.ptr)
+        {
+            o.ptr = nullptr;
+        }
+
         inline static ContextHashMap newEmpty() noexcept
         {
             return ContextHashMap { _ngffi_::new_context_hash_map() };
@@ -165,7 +174,10 @@ namespace ngineer
 
         ~ContextHashMap()
         {
-            _ngffi_::free_context_hash_map(ptr);
+            if (ptr != nullptr)
+            {
+                _ngffi_::free_context_hash_map(ptr);
+            }
         }
     }; // class ContextHashMap
 
@@ -181,7 +193,15 @@ namespace ngineer
         {
         }
 
+        ConstrainedSystem(const ConstrainedSystem &) = delete;
+        ConstrainedSystem &operator=(const ConstrainedSystem &) = delete;
+
     public:
+        ConstrainedSystem(ConstrainedSystem &&o) noexcept: ptr(o.ptr)
+        {
+            o.ptr = nullptr;
+        }
+
         inline int specify_variable(string var, double guess, double min, double max)
         {
             return _ngffi_::specify_variable(ptr, var.c_str(), guess, min, max);
@@ -189,7 +209,17 @@ namespace ngineer
 
         inline const char *solve_system(double margin, unsigned limit)
         {
-            return _ngffi_::solve_system(ptr, margin, limit);
+            void *system = ptr;
+            ptr = nullptr; // solving uses up the system
+            return _ngffi_::solve_system(system, margin, limit);
+        }
+
+        ~ConstrainedSystem()
+        {
+            if (ptr != nullptr)
+            {
+                _ngffi_::free_system(ptr);
+            }
         }
     }; // class ConstrainedSystem
 
@@ -199,7 +229,10 @@ namespace ngineer
         void *ptr;
 
     public:
-        SystemBuilder(string equation, ContextHashMap context)
+        SystemBuilder(const SystemBuilder &) = delete;
+        SystemBuilder &operator=(const SystemBuilder &) = delete;
+
+        SystemBuilder(string equation, const ContextHashMap &context)
         {
             ptr = const_cast<void *>(
                 _ngffi_::new_system_builder(
@@ -229,6 +262,7 @@ namespace ngineer
         inline ConstrainedSystem build_system()
         {
             const void *result = _ngffi_::build_system(ptr);
+            ptr = nullptr; // building uses up the builder
             if (result == nullptr)
             {
                 // TODO: throw exception
@@ -243,7 +277,10 @@ namespace ngineer
 
         ~SystemBuilder()
         {
-            _ngffi_::free_system_builder(ptr);
+            if (ptr != nullptr)
+            {
+                _ngffi_::free_system_builder(ptr);
+            }
         }
     }; // class SystemBuilder
 } // namespace ngineer
-- 
2.43.0


From 34a1f67e01fb0337283b8d2dcd2ac3258d733648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 70/72] fix: failures of a C++ system builder are exceptions,
 and over-constraining has a name

---
 geqslib/geqslib.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index dce107c..bf3fa35 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -23,13 +23,14 @@ namespace _ngffi_
         /// has yet to be fully constrained, or is over/improperly constrained.
         enum SystemBuilderConstraintStatus
         {
-            /// @brief The system is either over-constrained or otherwise 
-            /// experienced an error during the constraint-checking process
+            /// @brief an error was experienced during the constraint-checking process
             ConstraintError = -1,
             /// @brief the system is under-constrained
             NotConstrained  =  0,
             /// @brief the system is properly constrained
             Constrained     =  1,
+            /// @brief the equation would over-constrain the system and was not added
+            OverConstrained =  2,
         };
 
         /// @brief
@@ -237,6 +238,11 @@ namespace ngineer
             ptr = const_cast<void *>(
                 _ngffi_::new_system_builder(
                     equation.c_str(), context.ptr));
+
+            if (ptr == nullptr)
+            {
+                throw runtime_error { "failed to create a system from the given equation.\n" };
+            }
         }
 
         inline SystemBuilderConstraintStatus try_constrain_with(string equation)
@@ -247,7 +253,7 @@ namespace ngineer
 
             if (SystemBuilderConstraintStatus::ConstraintError == result)
             {
-                // TODO: throw exception
+                throw runtime_error { "failed to constrain the system with the given equation.\n" };
             }
 
             return result;
@@ -265,7 +271,7 @@ namespace ngineer
             ptr = nullptr; // building uses up the builder
             if (result == nullptr)
             {
-                // TODO: throw exception
+                throw runtime_error { "failed to build a system that is not fully constrained.\n" };
             }
             return ConstrainedSystem { result };
         }
-- 
2.43.0


From ba8fb13eb0d577bda4dfea1571d99fed7302b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 71/72] fix: writing a matrix without rows to a stream closes
 the bracket

---
 gmatlib/gmatlib.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index de2f10b..1f0c98d 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -456,12 +456,10 @@ namespace ngineer
                 {
                     out << ';'; // ...append a semicolon, MATLAB style
                 }
-                else
-                {
-                    out << ']'; // append a bracket after the last row has been printed
-                }
             }
 
+            out << ']'; // append a bracket after the last row has been printed
+
             return out;
         }
 
-- 
2.43.0


From 244c50118210cdc2928806489aa5ae91a29a64b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 72/72] fix: the message about a column beyond the matrix has
 its number by itself

---
 gmatlib/gmatlib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 1f0c98d..0168403 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -346,7 +346,7 @@ namespace ngineer
             }
             else if (c2 >= cols)
             {
-                ss << "failed to slice matrix ending at column " << c2 << "because it only has " << cols << " columns.\n";
+                ss << "failed to slice matrix ending at column " << c2 << " because it only has " << cols << " columns.\n";
             }
             else if (matrixSlice == nullptr)
             {
-- 
2.43.0

