From 309e52b2425abf7b286b1314320dd61afc3a9fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 01/78] fix: inplace_row_swap swaps the two rows, not the two
 columns

---
 gmatlib/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 455146a..bf129a9 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -252,9 +252,9 @@ where T: Element<T>
         let mut storage: T;
         for i in 0..self.cols
         {
-            storage       = self[(i, r1)];
-            self[(i, r1)] = self[(i, r2)];
-            self[(i, r2)] = storage;
+            storage       = self[(r1, i)];
+            self[(r1, i)] = self[(r2, i)];
+            self[(r2, i)] = storage;
         } 
     }
 
-- 
2.43.0


From e293410b6cba43bb126017d7f0d3fcdf28479561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 02/78] fix: mutable matrix indexing rejects an out-of-range
 column instead of writing to another row

---
 gmatlib/src/trait_impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index d5999b4..9f11a11 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -805,6 +805,10 @@ where T: Element<T>
     #[inline]
     fn index_mut(&mut self, index: (usize, usize)) -> &mut T 
     {
+        if index.0 >= self.rows || index.1 >= self.cols 
+        {
+            panic!("index out of bounds: the matrix has {} rows and {} cols but the index was [({}, {})]", self.rows, self.cols, index.0, index.1)
+        }
         &mut (self.vals[index.0 * self.cols + index.1])
     }
 }
-- 
2.43.0


From 185ef4abfb3517d26262e3290fcfffbb1820f205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 03/78] fix: Matrix::from_vec reports zero columns as an error
 instead of panicking

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index bf129a9..cd14e6f 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -114,7 +114,7 @@ where T: Element<T>
     /// ```
     pub fn from_vec(cols: usize, vec: Vec<T>) -> Result<Matrix<T>>
     {
-        if vec.len() % cols != 0
+        if cols == 0 || vec.len() % cols != 0
         {
             return Err(MatrixFromVecError.into())
         }
-- 
2.43.0


From 598042fab6f1e98f78d9b4e66b07f3cc55b8f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 04/78] fix: invert matrices of size 5 and up with row
 pivoting, leaving the matrix untouched on failure

---
 gmatlib/src/lib.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index cd14e6f..bc12727 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -17,7 +17,13 @@ use error::*;
 use num_traits::Num;
 
 /// A helper trait to constrain the type of the elements of a `Matrix<T>`.
-pub trait Element<T>: Num + Copy + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> {}
+pub trait Element<T>: Num + Copy + PartialOrd + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> {}
+
+/// Returns the absolute value of a matrix element.
+fn magnitude<T: Element<T>>(x: T) -> T
+{
+    if x < T::zero() { -x } else { x }
+}
 
 impl Element<f32> for f32 {}
 impl Element<f64> for f64 {}
@@ -682,10 +688,29 @@ where T: Element<T>
     {
         // assertion that rows == cols has already happened prior to function call
         let n = self.rows;
+        let mut a = self.clone(); // `self` is only overwritten once the inverse has been found
         let mut inv: Matrix<T> = Matrix::new_identity(n);
 
         for j in 0..n
         {
+            // Use the largest remaining element in the column as the pivot
+            let mut pivot = j;
+            for i in j+1..n
+            {
+                if magnitude(a[(i, j)]) > magnitude(a[(pivot, j)])
+                {
+                    pivot = i;
+                }
+            }
+
+            if a[(pivot, j)] == T::zero()
+            {
+                return Err(MatrixInversionError::ZeroDuringInversion.into())
+            }
+
+            a.inplace_row_swap(j, pivot);
+            inv.inplace_row_swap(j, pivot);
+
             for i in 0..n
             {
                 if i == j
@@ -694,12 +719,8 @@ where T: Element<T>
                 }
                 else
                 {
-                    if self[(j, j)] == T::zero()
-                    {
-                        return Err(MatrixInversionError::ZeroDuringInversion.into())
-                    }
-                    let scalar = self[(i, j)] / self[(j, j)];
-                    self.inplace_scaled_row_add(i, j, -scalar);
+                    let scalar = a[(i, j)] / a[(j, j)];
+                    a.inplace_scaled_row_add(i, j, -scalar);
                     inv.inplace_scaled_row_add(i, j, -scalar);
                 }
             }
@@ -707,8 +728,7 @@ where T: Element<T>
 
         for i in 0..n
         {
-            let scalar: T = T::one() / self[(i, i)];
-            self.inplace_row_scale(i, scalar);
+            let scalar: T = T::one() / a[(i, i)];
             inv.inplace_row_scale(i, scalar);
         }
 
-- 
2.43.0


From 29e531d6612917ad715e24f086424481499c102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:22 +0000
Subject: [PATCH 05/78] fix: a failing gmatlib FFI call no longer frees the
 caller's matrices

---
 gmatlib/src/ffi.rs | 44 +++++++++++++-------------------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/gmatlib/src/ffi.rs b/gmatlib/src/ffi.rs
index 16ed4e1..73ef5ca 100644
--- a/gmatlib/src/ffi.rs
+++ b/gmatlib/src/ffi.rs
@@ -39,10 +39,8 @@ pub extern "C" fn new_double_identity_matrix(n: c_uint) -> *mut c_void
 pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_swap(r1 as usize, r2 as usize);
-        
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -56,10 +54,8 @@ pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) ->
 pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_scale(row as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -90,10 +86,8 @@ pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_add(r1 as usize, r2 as usize);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -107,10 +101,8 @@ pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c
 pub extern "C" fn inplace_scaled_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scaled_row_add(r1 as usize, r2 as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -126,19 +118,16 @@ pub extern "C" fn multiply_matrix(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mu
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.multiply_matrix(&b) 
+        let ab = match a.multiply_matrix(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
 
@@ -155,19 +144,16 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.augment_with(&b) 
+        let ab = match a.augment_with(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
     
@@ -182,9 +168,8 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
 pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c2: c_uint) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let b = Box::new(a.subset(r1 as usize, c1 as usize, r2 as usize, c2 as usize));
-        mem::forget(a); // Prevent drop that would deallocate matrix data.
         Box::into_raw(b) as *mut c_void
     });
 
@@ -267,10 +252,8 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint, value: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a[(i as usize, j as usize)] = value;
-
-        mem::forget(a);
     });
 
     match res
@@ -284,9 +267,8 @@ pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint
 pub extern "C" fn index_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let value = a[(i as usize, j as usize)];
-        mem::forget(a);
         value
     });
 
-- 
2.43.0


From 7ac897e25623d90d97072dd67820fbf6d6abe000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 06/78] fix: a function applies to its parenthesised arguments
 only, not to the operators after them

---
 geqslib/src/shunting.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index ddcb1c5..8e95472 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -167,6 +167,18 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                     } 
                     else if op == "(" 
                     {
+                        // These parentheses may hold the arguments of a function
+                        if let Some(func) = stack.pop()
+                        {
+                            if matches!(context.get(func), Some(Token::Func(_, _)))
+                            {
+                                queue.push(tokenize_with_context(func, context)?);
+                            }
+                            else 
+                            {
+                                stack.push(func);
+                            }
+                        }
                         break;
                     } 
                     else 
-- 
2.43.0


From 3372017dddf20218bc0d39655a6f8b8ced1c47b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 07/78] fix: reject expressions with misplaced operands, commas
 or parentheses or the wrong number of arguments

---
 geqslib/src/shunting.rs | 47 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 8e95472..b5b05b1 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -131,13 +131,44 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
 
     let mut stack: Vec<&str> = Vec::new();
     let mut queue: Vec<Token> = Vec::new();
-    let mut unary_minus = true; // Indicator for whether the next '-' token is a unary operator
+    let mut unary_minus = true; // Indicator for whether the next '-' token is a unary operator (i.e. an operand is expected)
+    let mut calls: Vec<Option<(usize, usize)>> = Vec::new(); // (expected, separated) arguments for each open parenthesis
 
     for word in words 
     {
+        // A function must be followed by its arguments
+        let called_func = match stack.last().and_then(|&op| context.get(op))
+        {
+            Some(Token::Func(args, _)) => Some(*args),
+            _ => None,
+        };
+        if called_func.is_some() && word != "("
+        {
+            return Err(ShuntingYardError::ExpectedArg.into());
+        }
+
+        // An operand cannot follow another operand, and an operator cannot go without one
+        let expects_operand = match word
+        {
+            "," | "^" | "/" | "*" | "+" => false,
+            "-" => unary_minus,
+            ")" => stack.last() == Some(&"(") && matches!(calls.last(), Some(Some((0, 0)))) && unary_minus,
+            _ => true,
+        };
+        if expects_operand != unary_minus
+        {
+            return Err(ShuntingYardError::LeftoverToken.into());
+        }
+
         match word 
         {
             "," => {
+                match calls.last_mut()
+                {
+                    Some(Some((_, separated))) => *separated += 1,
+                    _ => return Err(ShuntingYardError::LeftoverToken.into()),
+                }
+
                 while let Some(op) = stack.pop() 
                 {
                     if op != "(" 
@@ -154,11 +185,20 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
             },
 
             "(" => {
+                calls.push(called_func.map(|args| (args, 0)));
                 stack.push(word);
                 unary_minus = true;
             },
 
             ")" => {
+                match calls.pop()
+                {
+                    Some(Some((0, 0))) if unary_minus => {},
+                    Some(Some((args, separated))) if args != separated + 1 => return Err(ShuntingYardError::ExpectedArg.into()),
+                    Some(_) => {},
+                    None => return Err(ShuntingYardError::UnclosedParenthesis.into()),
+                }
+
                 while let Some(op) = stack.pop() 
                 {
                     if op != "(" 
@@ -253,6 +293,11 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
         }   
     }
     
+    if unary_minus
+    {
+        return Err(ShuntingYardError::ExpectedArg.into());
+    }
+    
     while let Some(tok) = stack.pop() 
     {
         if "()".contains(tok) 
-- 
2.43.0


From a9ca843da349039514186a4a6c5c3d2ed5dcec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 08/78] fix: newton_raphson only accepts a point whose next
 step is within the margin in either direction

---
 geqslib/src/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 195bbae..8655159 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -48,7 +48,7 @@ where anyhow::Error: From<E>
     let delta = y / y_prime;
 
     // Check if we are sufficiently close to the solution:
-    if y.abs() <= margin && delta <= margin // ...in both the y AND x directions...
+    if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
     {
         return Ok(guess); // ...if so, exit early
     }
-- 
2.43.0


From 36622032aa831f7c5e6f6dd68153d599bd50dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 09/78] fix: multivariate_newton_raphson compares the magnitude
 of F, not its square, with the margin

---
 geqslib/src/newton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 8655159..5f9737d 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -165,7 +165,8 @@ where
     }
     let error = y.iter()
         .map(|v| v.powi(2))
-        .sum::<f64>();
+        .sum::<f64>()
+        .sqrt();
 
     // Calculate change vector and its magnitude
     let deltas = jacobian * Matrix::from_col_vec(y);
-- 
2.43.0


From caa28b5d778b3b46816dd2c221565e03e25cc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 10/78] fix: multivariate_newton_raphson accepts a system with
 no unknowns

---
 geqslib/src/newton.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 5f9737d..afa0d55 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -123,6 +123,12 @@ where
         return Err(NewtonRaphsonSolverError::ImproperlyConstrainedSystem.into());
     }
 
+    // A system without unknowns is already solved
+    if n == 0
+    {
+        return Ok(guess);
+    }
+
     // Build jacobian w/ F(X) values... we will mutate them to F'(X) later
     let mut elements = vec![];
     for func in &f 
-- 
2.43.0


From 7eec7d74f75711e3a2642ffae8fc518ee64f2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 11/78] fix: a new Variable starts inside its domain

---
 geqslib/src/variable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/variable.rs b/geqslib/src/variable.rs
index ca08bf9..812e2a9 100644
--- a/geqslib/src/variable.rs
+++ b/geqslib/src/variable.rs
@@ -13,12 +13,14 @@ impl Variable
     pub fn new<T>(value: T, min: T, max: T) -> Variable
     where T: Into<f64> + Copy
     {
-        Variable
+        let mut var = Variable
         {
             value: value.into(),
             min: min.into(),
             max: max.into(),
-        }
+        };
+        var.set(value);
+        var
     }
 
     /// Sets the value of the variable, clamping its 
-- 
2.43.0


From f7f2a5f3524dd172635cd3550f843e1b7df1d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 12/78] fix: solve_equation_with_context starts from the given
 guess

---
 geqslib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 5e58539..01e1d59 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -102,7 +102,7 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, ctx)?;
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, 1.0, margin, limit)?))
+    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From f8a2c4dbaad367628f0b860c64fb0979b5cd0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 13/78] fix: solve_equation_with_context does not leave the
 unknown in the caller's context

---
 geqslib/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 01e1d59..cf23259 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -100,9 +100,10 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     }
     
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
-    let f = compile_equation_to_fn(equation, ctx)?;
+    let f = compile_equation_to_fn(equation, ctx);
+    ctx.remove(unknowns[0]); // the unknown is only needed to compile the equation
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
+    Ok((unknowns[0].to_owned(), newton_raphson(f?, guess, margin, limit)?))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From 13a5e3237e352f736b961cdd052562917d24e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 14/78] fix: solve_equation_with_context returns a value inside
 the given domain

---
 geqslib/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index cf23259..6884aff 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -22,6 +22,7 @@ use errors::EquationSolverError;
 use newton::newton_raphson;
 use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
 use system::get_equation_unknowns;
+use variable::Variable;
 
 /// An internal function for formatting a single-unknown equation to an expression prior to tokenization 
 pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -> anyhow::Result<impl Fn(f64) -> anyhow::Result<f64>>
@@ -103,7 +104,9 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     let f = compile_equation_to_fn(equation, ctx);
     ctx.remove(unknowns[0]); // the unknown is only needed to compile the equation
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f?, guess, margin, limit)?))
+    let soln = Variable::new(newton_raphson(f?, guess, margin, limit)?, min, max);
+
+    Ok((unknowns[0].to_owned(), soln.into()))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From 27d81dd92631be286e9ddd8d145059d6df9e85ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 15/78] fix: an equation that fails to compile does not add its
 unknowns to the system's context

---
 geqslib/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 6884aff..49880de 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -57,12 +57,23 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         .collect();
 
     // Add a default guess value of 1 for all unspecified vars
-    for var in unknowns
+    for var in &unknowns
     {
-        ctx.add_var_with_domain_to_ctx(&var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
+        ctx.add_var_with_domain_to_ctx(var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
-    compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    let compiled = compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx);
+
+    // An equation that does not compile must not leave its unknowns behind
+    if compiled.is_err()
+    {
+        for var in &unknowns
+        {
+            ctx.remove(var);
+        }
+    }
+
+    compiled
 }
 
 /// Solves an equation given as a string for the SINGLE
-- 
2.43.0


From 0dd9350643a42673777ebf9c6c3bc5ae91ac0bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 16/78] fix: System::solve only solves for the unknowns of the
 system, not for known variables of its context

---
 geqslib/src/system.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 1e41440..eb2af9b 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -337,9 +337,9 @@ impl System
     pub fn solve(self, margin: f64, limit: usize) -> anyhow::Result<HashMap<String, f64>>
     {
         let mut guess = HashMap::new();
-        for (key, var) in self.context
+        for key in self.system_vars
         {
-            match var
+            match &self.context[&key]
             {
                 Token::Var(x) => guess.insert(key, (*x.borrow()).into()),
                 _ => continue,
-- 
2.43.0


From 1504195979de38ae952f237222087ca1520eefa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 17/78] fix: reject equations with a side that is not an
 expression by itself

---
 geqslib/src/lib.rs      | 11 +++++++++--
 geqslib/src/shunting.rs |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 49880de..b9b429c 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -20,7 +20,7 @@ use std::collections::{HashMap, HashSet};
 use context::ContextLike;
 use errors::EquationSolverError;
 use newton::newton_raphson;
-use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
+use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context, rpnify};
 use system::get_equation_unknowns;
 use variable::Variable;
 
@@ -35,6 +35,10 @@ pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -
         2 => (),
         _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
     }
+
+    // Each side must be an expression of its own
+    rpnify(sides[0], ctx)?;
+    rpnify(sides[1], ctx)?;
     
     compile_to_fn(&format!("{} - ({})", sides[0], sides[1]), ctx)
 }
@@ -62,7 +66,10 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         ctx.add_var_with_domain_to_ctx(var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
-    let compiled = compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx);
+    // Each side must be an expression of its own
+    let compiled = rpnify(sides[0], ctx)
+        .and_then(|_| rpnify(sides[1], ctx))
+        .and_then(|_| compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx));
 
     // An equation that does not compile must not leave its unknowns behind
     if compiled.is_err()
diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index b5b05b1..8cb65cb 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -124,7 +124,7 @@ fn tokenize_with_context(tok: &str, context: &ContextHashMap) -> anyhow::Result<
 
 /// See shunting yard implementation details at: 
 /// https://en.wikipedia.org/wiki/Shunting_yard_algorithm
-fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>> 
+pub (in crate) fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>> 
 {
     let punctuated = punctuate(expr);
     let words = punctuated.split(' ').filter(|c| !c.is_empty());
-- 
2.43.0


From 78a7ba6be3d95e0bfad7530951190d870d8f03b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 18/78] fix: equations of a system know the unknowns that later
 equations add

---
 geqslib/src/system.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index eb2af9b..640fa8a 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -30,7 +30,7 @@ pub struct SystemBuilder
 {
     context: ContextHashMap,
     system_vars: Vec<String>,
-    system_equations: Vec<BoxedFnOfHashMapToResultF64>,
+    system_equations: Vec<String>,
 }
 impl SystemBuilder
 {
@@ -52,13 +52,13 @@ impl SystemBuilder
             .map(|x| x.to_owned())
             .collect();
 
-        let starting_eqn = Box::new(compile_equation_to_fn_of_hashmap(equation, &mut ctx)?);
+        compile_equation_to_fn_of_hashmap(equation, &mut ctx)?;
 
         Ok(SystemBuilder
         {
             context: ctx,
             system_vars,
-            system_equations: vec![starting_eqn],
+            system_equations: vec![equation.to_owned()],
         })
     }
 
@@ -136,9 +136,8 @@ impl SystemBuilder
         }        
 
         // Add the equation to the system, updating the context with any newly-added variables
-        self.system_equations.push(
-            Box::new(compile_equation_to_fn_of_hashmap(equation, &mut self.context)?) 
-        );
+        compile_equation_to_fn_of_hashmap(equation, &mut self.context)?;
+        self.system_equations.push(equation.to_owned());
 
         // Add possible newly-found variable to the system
         if let Some(new_var) = unknowns.pop()
@@ -227,14 +226,23 @@ impl SystemBuilder
 
     /// Consumes `self` in order to produce a `System` object, representing 
     /// a constrained system of equations.
-    pub fn build_system(self) -> Option<System>
+    pub fn build_system(mut self) -> Option<System>
     {
         if self.is_fully_constrained()
         {
+            // Compile the equations now that the context holds every unknown in the system
+            let mut system_equations: Vec<BoxedFnOfHashMapToResultF64> = vec![];
+            for equation in &self.system_equations
+            {
+                system_equations.push(
+                    Box::new(compile_equation_to_fn_of_hashmap(equation, &mut self.context).ok()?)
+                );
+            }
+
             return Some(System {
                 context: self.context,
                 system_vars: self.system_vars,
-                system_equations: self.system_equations,
+                system_equations,
             });
         }
         
-- 
2.43.0


From 46e21dae474dc4dc5421c7acbc74da3385b1a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 19/78] fix: System::solve returns values inside the domains of
 the variables

---
 geqslib/src/system.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 640fa8a..cc42fc6 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -345,11 +345,11 @@ impl System
     pub fn solve(self, margin: f64, limit: usize) -> anyhow::Result<HashMap<String, f64>>
     {
         let mut guess = HashMap::new();
-        for key in self.system_vars
+        for key in &self.system_vars
         {
-            match &self.context[&key]
+            match &self.context[key]
             {
-                Token::Var(x) => guess.insert(key, (*x.borrow()).into()),
+                Token::Var(x) => guess.insert(key.to_owned(), (*x.borrow()).into()),
                 _ => continue,
             };
         }
@@ -361,6 +361,17 @@ impl System
             limit
         )?;
 
+        // Report the values that the equations were evaluated at, i.e. those in the variables' domains
+        for (key, val) in res.iter_mut()
+        {
+            if let Token::Var(x) = &self.context[key]
+            {
+                let mut var = *x.borrow();
+                var.set(*val);
+                *val = var.into();
+            }
+        }
+
         Ok(res.clone())
     }
 }
-- 
2.43.0


From ec8050fad066fb2cf34a83fd41ddd0e545a1a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 20/78] fix: solve_equation over FFI no longer frees the
 caller's context

---
 geqslib/src/ffi.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index 40e3d88..c8d0b03 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -1,6 +1,6 @@
 use std::ffi::{c_char, c_int, c_void, c_double, c_uint, CStr, CString};
 use std::panic::catch_unwind;
-use std::ptr::{null, copy_nonoverlapping};
+use std::ptr::null;
 
 use crate::shunting::{ContextHashMap, new_context, ContextLike};
 use crate::solve_equation_with_context;
@@ -57,8 +57,7 @@ pub extern "C" fn solve_equation(equation: *const c_char, context: *const c_void
     let res = catch_unwind(|| {
         let equation_str = unsafe { new_owned_string(equation) };
 
-        let mut ctx = ContextHashMap::new();
-        unsafe { copy_nonoverlapping(context as *const ContextHashMap, &mut ctx, 1) };
+        let mut ctx = unsafe { (*(context as *const ContextHashMap)).clone() };
 
         let (var, val) = match solve_equation_with_context(&equation_str, &mut ctx, guess, min, max, margin, limit as usize)
         {
-- 
2.43.0


From 8a9cf0ea6fa3421ec5974bd0ba216fc1a6bce3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:30 +0000
Subject: [PATCH 21/78] fix: specify_variable over FFI reports a variable that
 is not in the system

---
 geqslib/src/ffi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index c8d0b03..cfa4067 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -192,14 +192,14 @@ pub extern "C" fn specify_variable(p_system: *mut c_void, var: *const c_char, gu
         unsafe
         {    
             let var_str = new_owned_string(var);
-            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max);
+            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max)
         }
     });
 
     match res
     {
-        Ok(_) => 1,
-        Err(_) => -1,
+        Ok(true) => 1,
+        _ => -1,
     }
 }
 
-- 
2.43.0


From 0dd8818333bd0f6155bf1494f311cbcce3951d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 22/78] fix: a variable solved on its own is a known value in
 the equations solved after it

---
 nexsys/src/lib.rs | 402 +++++++++++++++++++++++-----------------------
 1 file changed, 201 insertions(+), 201 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index dfcd9a8..20e5ed1 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -1,202 +1,202 @@
-/// Different errors specific to Nexsys implementations of algorithms.
-pub mod errors;
-/// Provides `extern "C"` functions for use in other programming languages. Not 
-/// intended for use in other Rust projects.
-pub mod ffi;
-/// Provides tools for parsing text prior to passing to the equation solving engine.
-pub mod parsing;
-/// Provides data sets of common units and functions for converting between them.
-pub mod units;
-
-use std::collections::HashMap;
-
-use geqslib::solve_equation_with_context;
-use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
-use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
-
-use parsing::compile;
-
-/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
-fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
-        if unknowns.len() != 1
-        {
-            return Ok(false);
-        }
-
-        let var_info: [f64; 3];
-        if declared.contains_key(unknowns[0])
-        {
-            var_info = declared[unknowns[0]];
-        }
-        else
-        {
-            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
-        }
-
-        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_var_with_domain_to_ctx(&soln.0, soln.1, var_info[1], var_info[2]);
-        *log_step = format!(
-            "Var: {:#?} \nEquation: {}", 
-            soln.0, equation
-        );
-        eqn_pool.remove(i);
-        return Ok(true);
-    }
-    Ok(false)
-}
-
-fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
-        let mut eqn_strings = vec![equation.to_owned()];
-
-        for (j, equation) in eqn_pool.iter().enumerate()
-        {
-            // Skip the current equation we're building a system with 
-            // OR an equation that we've already added to the system
-            if j == i || eqn_strings.contains(equation)
-            {
-                continue;
-            }
-
-            // println!("Constraint status: {}", builder.is_fully_constrained());
-
-            match builder.try_constrain_with(equation)?
-            {
-                ConstrainResult::WillConstrain => {
-                    eqn_strings.push(equation.to_owned());
-                    // println!("constrained with: {}", equation);
-                },
-                ConstrainResult::WillOverConstrain => break,
-                _ => {}
-            }
-        }
-            
-        *log_step = format!("{:#?}", eqn_strings);
-
-        // Solve the found constrained system:
-        if let Some(mut system) = builder.build_system()
-        {
-            for (var, var_info) in declared
-            {
-                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
-            }
-
-            let soln = system.solve(margin, limit)?;
-            for (var, val) in soln 
-            {
-                ctx.add_const_to_ctx(&var, val);
-            }
-            
-            let remaining_eqns: Vec<String> = eqn_pool.iter()
-                .filter(|x| !eqn_strings.contains(x) && x != &equation)
-                .map(|x| x.to_owned())
-                .collect();
-
-            eqn_pool.clear();
-            eqn_pool.extend(remaining_eqns);
-
-            // println!("{:#?}", eqn_pool);
-
-            return Ok(true);
-        }
-    }
-
-    Ok(false)
-}
-
-/// Solves a system of equations in plain-text format.
-/// For more supported syntax, see `solve_with_preprocessors`
-/// 
-/// # Example
-/// ```
-/// ```
-pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut log = vec![];
-    let mut eqn_pool = system.split('\n')
-        .filter(|x| x.contains('='))
-        .map(|x| x.to_owned())
-        .collect();
-
-    loop
-    {
-        let mut log_step = String::default();
-        // Get less expensive solutions:
-        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-
-        // Dig in and solve a more expensive subsystem:
-        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-        
-        break;
-    }
-
-    let mut soln_map = HashMap::new(); 
-    for (name, val) in ctx
-    {
-        match val
-        {
-            Token::Var(v) => {
-                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
-            },
-            Token::Num(n) => {
-                soln_map.insert(name.to_owned(), *n);
-            },
-            _ => {} 
-        }
-    }
-
-    Ok((log, soln_map))
-}
-
-/// Solves a system of equations with additional syntax used to indicate 
-/// unit conversions, constant known values, nicer if statements, and more.
-/// 
-/// # Example
-/// ```
-/// use nexsys::solve_with_preprocessors;
-/// 
-/// let system = r#"
-/// keep x on [0, 100]
-/// guess 3 for y
-/// const nine = 9
-/// 
-/// x + y = nine
-/// x - y = 4
-/// 
-/// if x > y:
-///     i = 1
-/// else:
-///     i = -1
-/// end
-/// "#;
-/// 
-/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
-///     .expect("failed to solve system!");
-/// 
-/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
-/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
-/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
-/// ```
-pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut ctx = new_context(); 
-    let mut declared = HashMap::new();
-    let compiled = compile(system, &mut ctx, &mut declared)?;
-
-    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
+/// Different errors specific to Nexsys implementations of algorithms.
+pub mod errors;
+/// Provides `extern "C"` functions for use in other programming languages. Not 
+/// intended for use in other Rust projects.
+pub mod ffi;
+/// Provides tools for parsing text prior to passing to the equation solving engine.
+pub mod parsing;
+/// Provides data sets of common units and functions for converting between them.
+pub mod units;
+
+use std::collections::HashMap;
+
+use geqslib::solve_equation_with_context;
+use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
+use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
+
+use parsing::compile;
+
+/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
+fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
+        if unknowns.len() != 1
+        {
+            return Ok(false);
+        }
+
+        let var_info: [f64; 3];
+        if declared.contains_key(unknowns[0])
+        {
+            var_info = declared[unknowns[0]];
+        }
+        else
+        {
+            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
+        }
+
+        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
+        ctx.add_const_to_ctx(&soln.0, soln.1);
+        *log_step = format!(
+            "Var: {:#?} \nEquation: {}", 
+            soln.0, equation
+        );
+        eqn_pool.remove(i);
+        return Ok(true);
+    }
+    Ok(false)
+}
+
+fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
+        let mut eqn_strings = vec![equation.to_owned()];
+
+        for (j, equation) in eqn_pool.iter().enumerate()
+        {
+            // Skip the current equation we're building a system with 
+            // OR an equation that we've already added to the system
+            if j == i || eqn_strings.contains(equation)
+            {
+                continue;
+            }
+
+            // println!("Constraint status: {}", builder.is_fully_constrained());
+
+            match builder.try_constrain_with(equation)?
+            {
+                ConstrainResult::WillConstrain => {
+                    eqn_strings.push(equation.to_owned());
+                    // println!("constrained with: {}", equation);
+                },
+                ConstrainResult::WillOverConstrain => break,
+                _ => {}
+            }
+        }
+            
+        *log_step = format!("{:#?}", eqn_strings);
+
+        // Solve the found constrained system:
+        if let Some(mut system) = builder.build_system()
+        {
+            for (var, var_info) in declared
+            {
+                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
+            }
+
+            let soln = system.solve(margin, limit)?;
+            for (var, val) in soln 
+            {
+                ctx.add_const_to_ctx(&var, val);
+            }
+            
+            let remaining_eqns: Vec<String> = eqn_pool.iter()
+                .filter(|x| !eqn_strings.contains(x) && x != &equation)
+                .map(|x| x.to_owned())
+                .collect();
+
+            eqn_pool.clear();
+            eqn_pool.extend(remaining_eqns);
+
+            // println!("{:#?}", eqn_pool);
+
+            return Ok(true);
+        }
+    }
+
+    Ok(false)
+}
+
+/// Solves a system of equations in plain-text format.
+/// For more supported syntax, see `solve_with_preprocessors`
+/// 
+/// # Example
+/// ```
+/// ```
+pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut log = vec![];
+    let mut eqn_pool = system.split('\n')
+        .filter(|x| x.contains('='))
+        .map(|x| x.to_owned())
+        .collect();
+
+    loop
+    {
+        let mut log_step = String::default();
+        // Get less expensive solutions:
+        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+
+        // Dig in and solve a more expensive subsystem:
+        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+        
+        break;
+    }
+
+    let mut soln_map = HashMap::new(); 
+    for (name, val) in ctx
+    {
+        match val
+        {
+            Token::Var(v) => {
+                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
+            },
+            Token::Num(n) => {
+                soln_map.insert(name.to_owned(), *n);
+            },
+            _ => {} 
+        }
+    }
+
+    Ok((log, soln_map))
+}
+
+/// Solves a system of equations with additional syntax used to indicate 
+/// unit conversions, constant known values, nicer if statements, and more.
+/// 
+/// # Example
+/// ```
+/// use nexsys::solve_with_preprocessors;
+/// 
+/// let system = r#"
+/// keep x on [0, 100]
+/// guess 3 for y
+/// const nine = 9
+/// 
+/// x + y = nine
+/// x - y = 4
+/// 
+/// if x > y:
+///     i = 1
+/// else:
+///     i = -1
+/// end
+/// "#;
+/// 
+/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
+///     .expect("failed to solve system!");
+/// 
+/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
+/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
+/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
+/// ```
+pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut ctx = new_context(); 
+    let mut declared = HashMap::new();
+    let compiled = compile(system, &mut ctx, &mut declared)?;
+
+    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
 }
\ No newline at end of file
-- 
2.43.0


From 9dbcf08efbb09d97cb48107dcd9d60c6384eb539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 23/78] fix: look for a single-unknown equation in the whole
 pool, not just at its start

---
 nexsys/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 20e5ed1..0f52ec1 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -24,7 +24,7 @@ fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHas
         let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
         if unknowns.len() != 1
         {
-            return Ok(false);
+            continue;
         }
 
         let var_info: [f64; 3];
-- 
2.43.0


From b15e1acdd93b6e343511401dd5fda871e7a8a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 24/78] fix: whether a subsystem is found does not depend on
 the order of its equations

---
 nexsys/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 0f52ec1..29fa455 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -56,6 +56,12 @@ fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut Contex
         let mut builder = SystemBuilder::new(equation, ctx.clone())?;
         let mut eqn_strings = vec![equation.to_owned()];
 
+        // Pass over the pool again while the system is growing: an equation may
+        // constrain the system once another one has added its unknown
+        let mut n_eqns = 0;
+        while n_eqns != eqn_strings.len()
+        {
+        n_eqns = eqn_strings.len();
         for (j, equation) in eqn_pool.iter().enumerate()
         {
             // Skip the current equation we're building a system with 
@@ -77,6 +83,7 @@ fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut Contex
                 _ => {}
             }
         }
+        }
             
         *log_step = format!("{:#?}", eqn_strings);
 
-- 
2.43.0


From e87958018048b056b23b8a01366966eeedd5a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 25/78] fix: removing a comment does not change the rest of the
 text

---
 nexsys/src/parsing/mod.rs | 423 +++++++++++++++++++-------------------
 1 file changed, 208 insertions(+), 215 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index a8087d9..7643625 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -1,216 +1,209 @@
-mod conditionals;
-// mod duplicate; TODO: need to polish this up.
-
-use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
-use lazy_static::lazy_static;
-use regex::Regex;
-use std::collections::HashMap;
-use crate::{units::{convert, const_data}, errors::ConstFormatError};
-
-pub use conditionals::*;
-
-const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
-
-/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
-fn nexsys_regex(pattern: &str) -> Regex
-{
-    Regex::new(&pattern
-        .replace("@N", LEGAL_NUM_PATTERN)
-        .replace("@V", LEGAL_VAR_PATTERN)
-    ).unwrap()
-}
-
-/// Identifies and returns guess values found in a Nexsys-legal string.
-pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let guesses = RE.captures_iter(text);
-
-    for g in guesses 
-    {
-        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
-                .expect("failed to parse number in guess declaration")
-        );
-    }
-    res
-}
-
-/// Identifies and returns domains found in a Nexsys-legal string.
-pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let domains = RE.captures_iter(text);
-
-    for d in domains 
-    {
-        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
-                .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
-                .expect("failed to parse second number in domain declaration")]
-        );
-    }
-    res
-}
-
-/// Identifies and removes comments found in a Nexsys-legal string.
-pub fn comments(text: &str) -> String 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
-    }
-    let mut output = text.to_string();
-
-    for f in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        output = output.replace(f, "");
-    }
-
-    output
-}
-
-/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-pub fn conversions(text: &str) -> anyhow::Result<String> {
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
-    }
-
-    let mut output = text.to_string();
-
-    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
-
-    for m in res 
-    {
-        let pre = m.replace(['[', ']'], "");
-        
-        let args: Vec<&str> = pre.split("->").collect();
-        
-        output = output.replace(m, 
-            &format!("{}", convert(args[0], args[1])? )
-        );
-    }
-
-    Ok(output)
-}
-
-/// Identifies and replaces any constants in a Nexsys-legal string.
-pub fn consts(text: &str) -> anyhow::Result<String> 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
-        static ref CONSTS: HashMap<String, f64> = const_data();
-    }
-
-    let mut output = text.to_string();
-
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
-        {
-            output = output.replace(m, &c.to_string());
-        } 
-        else 
-        {
-            return Err(ConstFormatError.into())
-        }
-    }
-    Ok(output)
-}
-
-pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let const_vals = RE.captures_iter(text);
-
-    for c in const_vals
-    {
-        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            c.get(1).unwrap().as_str().to_owned(), 
-            eval_str(c.get(2).unwrap().as_str())?
-        );
-    }
-    Ok(res)
-}
-
-/// Wraps most functions in `nexsys::parsing`, returning either an error that 
-/// prevents the code from being solvable or the intermediate language representation
-/// of the `.nxs`-formatted code.
-/// 
-/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
-pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
-{    
-    let sys_domains: HashMap<String, [f64; 2]>;
-    let sys_guesses: HashMap<String, f64>;
-    let sys_consts:  HashMap<String, f64>;
-    
-    let mut nil = comments(code); 
-
-    // Copy-paste all common engineering constants (this happens first so users can rename constants)
-    nil = consts(&nil)?;
-
-    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
-    nil = conversions(&nil)?;
-
-    // Set all constants used in the solution
-    (nil, sys_consts) = const_values(&nil)?;
-    for (var, val) in sys_consts
-    {
-        ctx.add_const_to_ctx(&var, val);
-    }
-
-    // Set all domains for variables in the solution
-    (nil, sys_domains) = domains(&nil);
-    for (var, bounds) in sys_domains
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[1] = bounds[0];
-            var_info[2] = bounds[1];
-        }
-        else 
-        {
-            declared.insert(var, [1.0, bounds[0], bounds[1]]);
-        }
-    }
-
-    // Set all initial guesses for variables in the solution
-    (nil, sys_guesses) = guess_values(&nil);
-    for (var, guess) in sys_guesses
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[0] = guess;
-        }
-        else 
-        {
-            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
-        }
-    }
-
-    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
-    nil = conditionals(&nil)?;
-
-    Ok(nil)
+mod conditionals;
+// mod duplicate; TODO: need to polish this up.
+
+use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
+use lazy_static::lazy_static;
+use regex::Regex;
+use std::collections::HashMap;
+use crate::{units::{convert, const_data}, errors::ConstFormatError};
+
+pub use conditionals::*;
+
+const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
+
+/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
+fn nexsys_regex(pattern: &str) -> Regex
+{
+    Regex::new(&pattern
+        .replace("@N", LEGAL_NUM_PATTERN)
+        .replace("@V", LEGAL_VAR_PATTERN)
+    ).unwrap()
+}
+
+/// Identifies and returns guess values found in a Nexsys-legal string.
+pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let guesses = RE.captures_iter(text);
+
+    for g in guesses 
+    {
+        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            g.get(2).unwrap().as_str().to_owned(), 
+            g.get(1).unwrap().as_str().parse()
+                .expect("failed to parse number in guess declaration")
+        );
+    }
+    res
+}
+
+/// Identifies and returns domains found in a Nexsys-legal string.
+pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let domains = RE.captures_iter(text);
+
+    for d in domains 
+    {
+        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            d.get(1).unwrap().as_str().to_owned(),
+            [d.get(2).unwrap().as_str().parse()
+                .expect("failed to parse first number in domain declaration"),
+            d.get(3).unwrap().as_str().parse()
+                .expect("failed to parse second number in domain declaration")]
+        );
+    }
+    res
+}
+
+/// Identifies and removes comments found in a Nexsys-legal string.
+pub fn comments(text: &str) -> String 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
+    }
+    RE.replace_all(text, "").to_string()
+}
+
+/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
+pub fn conversions(text: &str) -> anyhow::Result<String> {
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
+    }
+
+    let mut output = text.to_string();
+
+    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
+
+    for m in res 
+    {
+        let pre = m.replace(['[', ']'], "");
+        
+        let args: Vec<&str> = pre.split("->").collect();
+        
+        output = output.replace(m, 
+            &format!("{}", convert(args[0], args[1])? )
+        );
+    }
+
+    Ok(output)
+}
+
+/// Identifies and replaces any constants in a Nexsys-legal string.
+pub fn consts(text: &str) -> anyhow::Result<String> 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref CONSTS: HashMap<String, f64> = const_data();
+    }
+
+    let mut output = text.to_string();
+
+    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    {
+        if let Some(c) = CONSTS.get(&m.to_string()) 
+        {
+            output = output.replace(m, &c.to_string());
+        } 
+        else 
+        {
+            return Err(ConstFormatError.into())
+        }
+    }
+    Ok(output)
+}
+
+pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let const_vals = RE.captures_iter(text);
+
+    for c in const_vals
+    {
+        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            c.get(1).unwrap().as_str().to_owned(), 
+            eval_str(c.get(2).unwrap().as_str())?
+        );
+    }
+    Ok(res)
+}
+
+/// Wraps most functions in `nexsys::parsing`, returning either an error that 
+/// prevents the code from being solvable or the intermediate language representation
+/// of the `.nxs`-formatted code.
+/// 
+/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
+pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
+{    
+    let sys_domains: HashMap<String, [f64; 2]>;
+    let sys_guesses: HashMap<String, f64>;
+    let sys_consts:  HashMap<String, f64>;
+    
+    let mut nil = comments(code); 
+
+    // Copy-paste all common engineering constants (this happens first so users can rename constants)
+    nil = consts(&nil)?;
+
+    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
+    nil = conversions(&nil)?;
+
+    // Set all constants used in the solution
+    (nil, sys_consts) = const_values(&nil)?;
+    for (var, val) in sys_consts
+    {
+        ctx.add_const_to_ctx(&var, val);
+    }
+
+    // Set all domains for variables in the solution
+    (nil, sys_domains) = domains(&nil);
+    for (var, bounds) in sys_domains
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[1] = bounds[0];
+            var_info[2] = bounds[1];
+        }
+        else 
+        {
+            declared.insert(var, [1.0, bounds[0], bounds[1]]);
+        }
+    }
+
+    // Set all initial guesses for variables in the solution
+    (nil, sys_guesses) = guess_values(&nil);
+    for (var, guess) in sys_guesses
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[0] = guess;
+        }
+        else 
+        {
+            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
+        }
+    }
+
+    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
+    nil = conditionals(&nil)?;
+
+    Ok(nil)
 }
\ No newline at end of file
-- 
2.43.0


From 8bc46e137f1cac0218239012b03af316ee092258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:03 +0000
Subject: [PATCH 26/78] fix: constants whose name has a digit or starts with
 another constant's name get their own value

---
 nexsys/src/parsing/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 7643625..37941d3 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -107,24 +107,27 @@ pub fn consts(text: &str) -> anyhow::Result<String>
 {
     lazy_static! 
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_][a-z0-9_]*");
         static ref CONSTS: HashMap<String, f64> = const_data();
     }
 
-    let mut output = text.to_string();
+    let mut output = String::new();
+    let mut end = 0;
 
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    for m in RE.find_iter(text) 
     {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
+        if let Some(c) = CONSTS.get(m.as_str()) 
         {
-            output = output.replace(m, &c.to_string());
+            output += &text[end..m.start()];
+            output += &c.to_string();
+            end = m.end();
         } 
         else 
         {
             return Err(ConstFormatError.into())
         }
     }
-    Ok(output)
+    Ok(output + &text[end..])
 }
 
 pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
-- 
2.43.0


From bc580c8afe5ceb2018482c6b644fe1bd0dfc2c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:03 +0000
Subject: [PATCH 27/78] fix: raising a negative constant to a power keeps its
 sign under the exponent

---
 nexsys/src/parsing/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 37941d3..5f6e0cf 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -119,7 +119,15 @@ pub fn consts(text: &str) -> anyhow::Result<String>
         if let Some(c) = CONSTS.get(m.as_str()) 
         {
             output += &text[end..m.start()];
-            output += &c.to_string();
+            // The exponent applies to all of a negative constant, not just its digits
+            if *c < 0.0 && text[m.end()..].trim_start().starts_with('^')
+            {
+                output += &format!("({c})");
+            }
+            else
+            {
+                output += &c.to_string();
+            }
             end = m.end();
         } 
         else 
-- 
2.43.0


From 2616754620ced06fbe2454314b68310cc412a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 28/78] fix: a space after the minus sign of a guess or bound
 no longer panics

---
 nexsys/src/parsing/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 5f6e0cf..5f6e5f1 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -36,7 +36,7 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
         res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
+            g.get(1).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse number in guess declaration")
         );
     }
@@ -58,9 +58,9 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
         res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
         res.1.insert(
             d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
+            [d.get(2).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
+            d.get(3).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse second number in domain declaration")]
         );
     }
-- 
2.43.0


From 70cae1aea7f6eec805c5d490fa4b6763627310ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 29/78] fix: volume units are the cube of the length unit

---
 nexsys/src/units/mod.rs | 326 ++++++++++++++++++++--------------------
 1 file changed, 163 insertions(+), 163 deletions(-)

diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index ddbc04e..d175f83 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -1,164 +1,164 @@
-use lazy_static::lazy_static;
-use serde_json::{Value, from_str};
-use std::collections::HashMap;
-
-use crate::errors::UnitConversionError;
-
-/// Handles generating additional units for various combinations of other units
-fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
-    
-    let mut temp = HashMap::new();
-    
-    for i in &data[&num.to_string()] {
-    
-        for j in &data[&denom.to_string()] {
-    
-            temp.insert(
-                format!("{}/{}", i.0, j.0),
-                *i.1 / *j.1
-            );
-        
-        }
-    
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    if fc1 == fc2 {
-        for i in &data[&fc1.to_string()] {
-            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
-        }
-    } else {
-        for i in &data[&fc1.to_string()] {
-            for j in &data[&fc2.to_string()] {
-                let val = *i.1 * *j.1;
-                temp.insert( format!("{}-{}", i.0, j.0), val);
-                temp.insert( format!("{}-{}", j.0, i.0), val);
-            }
-        }
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1);    
-    }
-
-    if let Some(d) = data.get_mut("VOLUME") {
-        d.extend(temp.into_iter());
-    }
-    
-    data
-}
-
-/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
-
-    let raw_text = include_str!("units.json");
-    let err = "failed to parse json... is the formatting of 'units.json' correct?";
-    
-    // again I ask, lord forgive me for what I am about to do...
-    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| (
-            i.0.to_string(), 
-            i.1.as_object().expect(err).into_iter()
-            .map(
-                |j| (
-                    j.0.to_string(), 
-                    j.1.as_f64().expect(err)
-                )
-            ).collect()
-        )
-    ).collect();
-
-    dejson
-}
-
-/// Generates a more complete set of unit conversion data by combining different units to create other common units.
-pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
-    let mut data = raw_unit_data();
-    data.insert("SPRING FORCE".to_string(), HashMap::new());
-
-    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
-    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
-    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
-    data =    generate_volume_units(data);
-
-
-    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
-    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
-    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
-    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
-    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
-    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
-
-    data
-}
-
-/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
-pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
-    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
-        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
-    }
-
-    let cf: Vec<f64> = UD.iter()
-    .filter(|&i| { 
-        let qty = UD.get(i.0).unwrap().clone();
-        qty.contains_key(fro) && qty.contains_key(to)
-    }).map(|i| {
-        i.1[fro] / i.1[to]
-    }).collect();
-
-    if cf.len() != 1 {
-        return Err(UnitConversionError.into())
-    }
-
-    Ok(cf[0])
-}
-
-/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn const_data() -> HashMap<String, f64> {
-
-    let raw_text = include_str!("consts.json");
-    let err = "failed to parse json... is the formatting of consts.json correct?";
-    
-    // thankfully this isn't as bad as reading units.json
-    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| {
-            let err = format!("failed to parse json: {:#?}", i.1);
-            let c1 = i.1.as_array().expect(&err);
-
-            let err = format!("failed to parse json: {:#?}", c1[1]);
-            let c2 = match c1[1].as_f64() {
-                Some(c) => c,
-                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
-            };
-
-            (i.0.to_string(), c2)
-
-    }).collect();
-
-    dejson
+use lazy_static::lazy_static;
+use serde_json::{Value, from_str};
+use std::collections::HashMap;
+
+use crate::errors::UnitConversionError;
+
+/// Handles generating additional units for various combinations of other units
+fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
+    
+    let mut temp = HashMap::new();
+    
+    for i in &data[&num.to_string()] {
+    
+        for j in &data[&denom.to_string()] {
+    
+            temp.insert(
+                format!("{}/{}", i.0, j.0),
+                *i.1 / *j.1
+            );
+        
+        }
+    
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    if fc1 == fc2 {
+        for i in &data[&fc1.to_string()] {
+            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
+        }
+    } else {
+        for i in &data[&fc1.to_string()] {
+            for j in &data[&fc2.to_string()] {
+                let val = *i.1 * *j.1;
+                temp.insert( format!("{}-{}", i.0, j.0), val);
+                temp.insert( format!("{}-{}", j.0, i.0), val);
+            }
+        }
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    for i in &data[&"LENGTH".to_string()] {
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
+    }
+
+    if let Some(d) = data.get_mut("VOLUME") {
+        d.extend(temp.into_iter());
+    }
+    
+    data
+}
+
+/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
+
+    let raw_text = include_str!("units.json");
+    let err = "failed to parse json... is the formatting of 'units.json' correct?";
+    
+    // again I ask, lord forgive me for what I am about to do...
+    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| (
+            i.0.to_string(), 
+            i.1.as_object().expect(err).into_iter()
+            .map(
+                |j| (
+                    j.0.to_string(), 
+                    j.1.as_f64().expect(err)
+                )
+            ).collect()
+        )
+    ).collect();
+
+    dejson
+}
+
+/// Generates a more complete set of unit conversion data by combining different units to create other common units.
+pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
+    let mut data = raw_unit_data();
+    data.insert("SPRING FORCE".to_string(), HashMap::new());
+
+    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
+    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
+    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
+    data =    generate_volume_units(data);
+
+
+    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
+    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
+    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
+    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
+    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
+    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
+
+    data
+}
+
+/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
+pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
+    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
+        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
+    }
+
+    let cf: Vec<f64> = UD.iter()
+    .filter(|&i| { 
+        let qty = UD.get(i.0).unwrap().clone();
+        qty.contains_key(fro) && qty.contains_key(to)
+    }).map(|i| {
+        i.1[fro] / i.1[to]
+    }).collect();
+
+    if cf.len() != 1 {
+        return Err(UnitConversionError.into())
+    }
+
+    Ok(cf[0])
+}
+
+/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn const_data() -> HashMap<String, f64> {
+
+    let raw_text = include_str!("consts.json");
+    let err = "failed to parse json... is the formatting of consts.json correct?";
+    
+    // thankfully this isn't as bad as reading units.json
+    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| {
+            let err = format!("failed to parse json: {:#?}", i.1);
+            let c1 = i.1.as_array().expect(&err);
+
+            let err = format!("failed to parse json: {:#?}", c1[1]);
+            let c2 = match c1[1].as_f64() {
+                Some(c) => c,
+                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
+            };
+
+            (i.0.to_string(), c2)
+
+    }).collect();
+
+    dejson
 }
\ No newline at end of file
-- 
2.43.0


From 7326f4e6720b1e9a2bcb177a9217e00b87c9b9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 30/78] fix: the bushel is 2150.42 cubic inches

---
 nexsys/src/units/units.json | 638 ++++++++++++++++++------------------
 1 file changed, 319 insertions(+), 319 deletions(-)

diff --git a/nexsys/src/units/units.json b/nexsys/src/units/units.json
index 07cc519..478b720 100644
--- a/nexsys/src/units/units.json
+++ b/nexsys/src/units/units.json
@@ -1,320 +1,320 @@
-{
-    "LENGTH": {
-        "m": 1.0,
-        "meter": 1.0,
-        "metre": 1.0,
-        "Angstrom": 1e-10,
-        "nm": 1e-09,
-        "ft": 0.3048,
-        "dm": 0.1,
-        "in": 0.0254,
-        "inch": 0.0254,
-        "mm": 0.001,
-        "micron": 1e-06,
-        "micrometer": 1e-06,
-        "\u00c2\u00b5m": 1e-06,
-        "nanometer": 1e-09,
-        "millimeter": 0.001,
-        "cm": 0.01,
-        "km": 1000.0,
-        "yd": 0.9144,
-        "yard": 0.9144,
-        "mi": 1609.344,
-        "mile": 1609.344,
-        "miles": 1609.344,
-        "fathom": 1.8288,
-        "mil": 2.54e-05,
-        "rod": 5.0292,
-        "furlong": 201.168,
-        "league": 5556.0,
-        "hectometer": 100.0
-    },
-    "MASS": {
-        "kg": 1.0,
-        "lbm": 0.453592374,
-        "lb_m": 0.453592374,
-        "g": 0.001,
-        "ton": 907.184749,
-        "grain": 6.4799e-05,
-        "mg": 1e-06,
-        "oz": 0.028349523,
-        "ozm": 0.028349523,
-        "slug": 14.593881,
-        "stone": 6.350293236,
-        "amu": 1.660531e-27,
-        "\u00c2\u00b5g": 1e-09,
-        "microgram": 1e-09,
-        "mt": 1000.0,
-        "tonne": 1000.0
-    },
-    "MOLES": {
-        "kgmole": 1.0,
-        "kgmol": 1.0,
-        "kmole": 1.0,
-        "kmol": 1.0,
-        "lbmole": 0.453592374,
-        "lbmol": 0.453592374,
-        "gmole": 0.001,
-        "gmol": 0.001,
-        "mole": 0.001,
-        "mol": 0.001
-    },
-    "TIME": {
-        "s": 1.0,
-        "sec": 1.0,
-        "second": 1.0,
-        "min": 60.0,
-        "minute": 60.0,
-        "h": 3600.0,
-        "hr": 3600.0,
-        "hour": 3600.0,
-        "day": 86400.0,
-        "days": 86400.0,
-        "week": 604800.0,
-        "weeks": 604800.0,
-        "fortnight": 1209600.0,
-        "year": 31556952.0,
-        "yr": 31556952.0,
-        "years": 31556952.0,
-        "millisec": 0.001,
-        "\u00c2\u00b5sec": 1e-06,
-        "microsec": 1e-06
-    },
-    "FREQUENCY": {
-        "cps": 1.0,
-        "cpm": 0.016666667,
-        "Bq": 1.0,
-        "ci": 37000000000.0,
-        "Hz": 1.0
-    },
-    "TEMPERATURE": {
-        "K": 1.0,
-        "C": 1.0,
-        "R": 0.55555556,
-        "F": 0.55555556,
-        "\u00c2\u00b0C": 1.0,
-        "\u00c2\u00b0F": 0.55555556
-    },
-    "TEMP. DIFFERENCE": {
-        "DELTAK": 1.0,
-        "DELTAC": 1.0,
-        "DELTAF": 0.55555556,
-        "DELTAR": 0.55555556
-    },
-    "VELOCITY": {
-        "mph": 0.44704,
-        "knot": 0.51444,
-        "m/s": 1.0,
-        "km/s": 0.001,
-        "ft/s": 0.3048,
-        "kph": 0.2777778,
-        "km/h": 0.2777778
-    },
-    "AREA": {
-        "sqm": 1.0,
-        "sqcm": 0.0001,
-        "sqft": 0.09290304,
-        "sqin": 0.00064516,
-        "acre": 4046.856,
-        "hectare": 10000.0,
-        "barn": 1e-28
-    },
-    "VOLUME": {
-        "gal": 0.0037854118,
-        "gallon": 0.0037854118,
-        "l": 0.001,
-        "L": 0.001,
-        "Bu": 0.03523007016688,
-        "ml": 1e-06,
-        "milliliter": 1e-06,
-        "\u00c2\u00b5l": 1e-09,
-        "microliter": 1e-09,
-        "liter": 0.001,
-        "quart": 0.0009463264,
-        "oz": 2.9572702e-05,
-        "ozv": 2.9572702e-05,
-        "pint": 0.000473163,
-        "bbl": 0.1589873
-    },
-    "VOLUMETRIC FLOW": {
-        "cfm": 0.00047194744,
-        "gph": 1.051503e-06,
-        "gpm": 6.30902e-05
-    },
-    "FORCE": {
-        "N": 1.0,
-        "kN": 1000.0,
-        "lbf": 4.448222,
-        "lb_f": 4.448222,
-        "dyne": 1e-05,
-        "kgf": 9.80665,
-        "kg_f": 9.80665
-    },
-    "PRESSURE": {
-        "Pa": 1.0,
-        "milliPa": 0.001,
-        "microPa": 1e-06,
-        "\u00c2\u00b5Pa": 1e-06,
-        "kPa": 1000.0,
-        "MPa": 1000000.0,
-        "GPa": 1000000000.0,
-        "gigaPa": 1000000000.0,
-        "bar": 100000.0,
-        "milliBar": 100.0,
-        "atm": 101325.0,
-        "psia": 6894.75788958,
-        "psi": 6894.75788958,
-        "ksi": 6894757.88958,
-        "psig": 6894.75788958,
-        "psf": 47.88055555,
-        "mmH2O": 9.80665,
-        "mH2O": 9806.65,
-        "mmHg": 133.3224,
-        "inHg": 3386.388,
-        "torr": 133.3224,
-        "inH2O": 249.088,
-        "in.H2O": 249.088,
-        "ftH2O": 2989.057
-    },
-    "ENERGY": {
-        "J": 1.0,
-        "milliJ": 0.001,
-        "kJ": 1000.0,
-        "MJ": 1000000.0,
-        "Wh": 3600.0,
-        "Whr": 3600.0,
-        "kWh": 3600000.0,
-        "kWhr": 3600000.0,
-        "MWh": 3600000000.0,
-        "MWhr": 3600000000.0,
-        "GWh": 3600000000000.0,
-        "GWhr": 3600000000000.0,
-        "GJ": 1000000000.0,
-        "Btu": 1055.056,
-        "MBtu": 1055056000.0,
-        "MMBtu": 1055056000.0,
-        "kBtu": 1055056.0,
-        "cal": 4.1868,
-        "kcal": 4186.8,
-        "erg": 1e-07,
-        "ev": 1.60207e-19,
-        "eV": 1.60207e-19,
-        "keV": 1.60207e-16,
-        "kev": 1.60207e-16,
-        "mev": 1.60207e-13,
-        "meV": 1.60207e-13,
-        "bev": 1.60207e-10,
-        "beV": 1.60207e-10,
-        "therm": 105505600.0,
-        "therms": 105505600.0,
-        "quad": 1.055056e+18,
-        "quads": 1.055056e+18
-    },
-    "POWER": {
-        "W": 1.0,
-        "hp": 745.7,
-        "ton": 3516.852,
-        "tons": 3516.852,
-        "microW": 1e-06,
-        "milliW": 0.001,
-        "kW": 1000.0,
-        "MW": 1000000.0,
-        "MegaW": 1000000.0,
-        "gW": 1000000000.0,
-        "gigaW": 1000000000.0
-    },
-    "VISCOSITY-DYNAMIC": {
-        "poise": 0.1,
-        "centipoise": 0.001,
-        "micropoise": 1e-07,
-        "cp": 0.001,
-        "Reyn": 6894.7
-    },
-    "VISCOSITY-KINEMATIC": {
-        "Stoke": 0.0001,
-        "centiStoke": 1e-06
-    },
-    "ANGLES": {
-        "radian": 1.0,
-        "radians": 1.0,
-        "rad": 1.0,
-        "deg": 0.017453293,
-        "degree": 0.017453293,
-        "degrees": 0.017453293,
-        "\u00c2\u00b0": 0.017453293,
-        "rev": 6.28318530718,
-        "revs": 6.28318530718,
-        "revolutions": 6.28318530718,
-        "minute": 0.000290888,
-        "quadrant": 1.5707963,
-        "cycle": 6.28318530718,
-        "cycles": 6.28318530718
-    },
-    "CHARGE": {
-        "Coulomb": 1.0,
-        "Faraday": 96517.844,
-        "Abcoulomb": 10.0
-    },
-    "ELECTRICAL CAPACITANCE": {
-        "Farad": 1.0,
-        "pFarad": 1e-12,
-        "pF": 1e-12
-    },
-    "DIPOLE MOMENT": {
-        "Debye": 3.33564e-30
-    },
-    "CURRENT": {
-        "Amp": 1.0,
-        "Ampere": 1.0,
-        "A": 1.0
-    },
-    "ELECTRICAL RESISTANCE": {
-        "ohm": 1.0,
-        "kohm": 1000.0
-    },
-    "ELECTROMOTIVE FORCE": {
-        "Volt": 1.0,
-        "millivolt": 0.001,
-        "kV": 1000.0,
-        "MegaVolt": 1000000.0,
-        "v": 1.0
-    },
-    "INDUCTANCE": {
-        "Henry": 1.0
-    },
-    "NON DIMENSIONAL": {
-        "-": 1.0,
-        "space": 1.0,
-        "Percent": 0.01,
-        "%": 0.01,
-        "person": 1.0,
-        "persons": 1.0,
-        "ppm": 1e-06,
-        "ppb": 1e-09,
-        "any": 1.0
-    },
-    "MAGNETIC FLUX DENSITY": {
-        "Gauss": 0.0001,
-        "G": 0.0001,
-        "Tesla": 1.0,
-        "T": 1.0
-    },
-    "MAGNETIC FLUX": {
-        "Maxwell": 1e-08,
-        "Mx": 1e-08,
-        "Weber": 1.0,
-        "Wb": 1.0
-    },
-    "MAGNETIC FIELD STRENGTH": {
-        "Oersted": 79.5774715459,
-        "Oe": 79.5774715459
-    },
-    "ILLUMINANCE": {
-        "lm": 1.0
-    },
-    "ILLUMINANCE FLUX": {
-        "lux": 1.0,
-        "ftcndl": 10.763910417,
-        "mcndl": 1.0
-    }
+{
+    "LENGTH": {
+        "m": 1.0,
+        "meter": 1.0,
+        "metre": 1.0,
+        "Angstrom": 1e-10,
+        "nm": 1e-09,
+        "ft": 0.3048,
+        "dm": 0.1,
+        "in": 0.0254,
+        "inch": 0.0254,
+        "mm": 0.001,
+        "micron": 1e-06,
+        "micrometer": 1e-06,
+        "\u00c2\u00b5m": 1e-06,
+        "nanometer": 1e-09,
+        "millimeter": 0.001,
+        "cm": 0.01,
+        "km": 1000.0,
+        "yd": 0.9144,
+        "yard": 0.9144,
+        "mi": 1609.344,
+        "mile": 1609.344,
+        "miles": 1609.344,
+        "fathom": 1.8288,
+        "mil": 2.54e-05,
+        "rod": 5.0292,
+        "furlong": 201.168,
+        "league": 5556.0,
+        "hectometer": 100.0
+    },
+    "MASS": {
+        "kg": 1.0,
+        "lbm": 0.453592374,
+        "lb_m": 0.453592374,
+        "g": 0.001,
+        "ton": 907.184749,
+        "grain": 6.4799e-05,
+        "mg": 1e-06,
+        "oz": 0.028349523,
+        "ozm": 0.028349523,
+        "slug": 14.593881,
+        "stone": 6.350293236,
+        "amu": 1.660531e-27,
+        "\u00c2\u00b5g": 1e-09,
+        "microgram": 1e-09,
+        "mt": 1000.0,
+        "tonne": 1000.0
+    },
+    "MOLES": {
+        "kgmole": 1.0,
+        "kgmol": 1.0,
+        "kmole": 1.0,
+        "kmol": 1.0,
+        "lbmole": 0.453592374,
+        "lbmol": 0.453592374,
+        "gmole": 0.001,
+        "gmol": 0.001,
+        "mole": 0.001,
+        "mol": 0.001
+    },
+    "TIME": {
+        "s": 1.0,
+        "sec": 1.0,
+        "second": 1.0,
+        "min": 60.0,
+        "minute": 60.0,
+        "h": 3600.0,
+        "hr": 3600.0,
+        "hour": 3600.0,
+        "day": 86400.0,
+        "days": 86400.0,
+        "week": 604800.0,
+        "weeks": 604800.0,
+        "fortnight": 1209600.0,
+        "year": 31556952.0,
+        "yr": 31556952.0,
+        "years": 31556952.0,
+        "millisec": 0.001,
+        "\u00c2\u00b5sec": 1e-06,
+        "microsec": 1e-06
+    },
+    "FREQUENCY": {
+        "cps": 1.0,
+        "cpm": 0.016666667,
+        "Bq": 1.0,
+        "ci": 37000000000.0,
+        "Hz": 1.0
+    },
+    "TEMPERATURE": {
+        "K": 1.0,
+        "C": 1.0,
+        "R": 0.55555556,
+        "F": 0.55555556,
+        "\u00c2\u00b0C": 1.0,
+        "\u00c2\u00b0F": 0.55555556
+    },
+    "TEMP. DIFFERENCE": {
+        "DELTAK": 1.0,
+        "DELTAC": 1.0,
+        "DELTAF": 0.55555556,
+        "DELTAR": 0.55555556
+    },
+    "VELOCITY": {
+        "mph": 0.44704,
+        "knot": 0.51444,
+        "m/s": 1.0,
+        "km/s": 0.001,
+        "ft/s": 0.3048,
+        "kph": 0.2777778,
+        "km/h": 0.2777778
+    },
+    "AREA": {
+        "sqm": 1.0,
+        "sqcm": 0.0001,
+        "sqft": 0.09290304,
+        "sqin": 0.00064516,
+        "acre": 4046.856,
+        "hectare": 10000.0,
+        "barn": 1e-28
+    },
+    "VOLUME": {
+        "gal": 0.0037854118,
+        "gallon": 0.0037854118,
+        "l": 0.001,
+        "L": 0.001,
+        "Bu": 0.03523907016688,
+        "ml": 1e-06,
+        "milliliter": 1e-06,
+        "\u00c2\u00b5l": 1e-09,
+        "microliter": 1e-09,
+        "liter": 0.001,
+        "quart": 0.0009463264,
+        "oz": 2.9572702e-05,
+        "ozv": 2.9572702e-05,
+        "pint": 0.000473163,
+        "bbl": 0.1589873
+    },
+    "VOLUMETRIC FLOW": {
+        "cfm": 0.00047194744,
+        "gph": 1.051503e-06,
+        "gpm": 6.30902e-05
+    },
+    "FORCE": {
+        "N": 1.0,
+        "kN": 1000.0,
+        "lbf": 4.448222,
+        "lb_f": 4.448222,
+        "dyne": 1e-05,
+        "kgf": 9.80665,
+        "kg_f": 9.80665
+    },
+    "PRESSURE": {
+        "Pa": 1.0,
+        "milliPa": 0.001,
+        "microPa": 1e-06,
+        "\u00c2\u00b5Pa": 1e-06,
+        "kPa": 1000.0,
+        "MPa": 1000000.0,
+        "GPa": 1000000000.0,
+        "gigaPa": 1000000000.0,
+        "bar": 100000.0,
+        "milliBar": 100.0,
+        "atm": 101325.0,
+        "psia": 6894.75788958,
+        "psi": 6894.75788958,
+        "ksi": 6894757.88958,
+        "psig": 6894.75788958,
+        "psf": 47.88055555,
+        "mmH2O": 9.80665,
+        "mH2O": 9806.65,
+        "mmHg": 133.3224,
+        "inHg": 3386.388,
+        "torr": 133.3224,
+        "inH2O": 249.088,
+        "in.H2O": 249.088,
+        "ftH2O": 2989.057
+    },
+    "ENERGY": {
+        "J": 1.0,
+        "milliJ": 0.001,
+        "kJ": 1000.0,
+        "MJ": 1000000.0,
+        "Wh": 3600.0,
+        "Whr": 3600.0,
+        "kWh": 3600000.0,
+        "kWhr": 3600000.0,
+        "MWh": 3600000000.0,
+        "MWhr": 3600000000.0,
+        "GWh": 3600000000000.0,
+        "GWhr": 3600000000000.0,
+        "GJ": 1000000000.0,
+        "Btu": 1055.056,
+        "MBtu": 1055056000.0,
+        "MMBtu": 1055056000.0,
+        "kBtu": 1055056.0,
+        "cal": 4.1868,
+        "kcal": 4186.8,
+        "erg": 1e-07,
+        "ev": 1.60207e-19,
+        "eV": 1.60207e-19,
+        "keV": 1.60207e-16,
+        "kev": 1.60207e-16,
+        "mev": 1.60207e-13,
+        "meV": 1.60207e-13,
+        "bev": 1.60207e-10,
+        "beV": 1.60207e-10,
+        "therm": 105505600.0,
+        "therms": 105505600.0,
+        "quad": 1.055056e+18,
+        "quads": 1.055056e+18
+    },
+    "POWER": {
+        "W": 1.0,
+        "hp": 745.7,
+        "ton": 3516.852,
+        "tons": 3516.852,
+        "microW": 1e-06,
+        "milliW": 0.001,
+        "kW": 1000.0,
+        "MW": 1000000.0,
+        "MegaW": 1000000.0,
+        "gW": 1000000000.0,
+        "gigaW": 1000000000.0
+    },
+    "VISCOSITY-DYNAMIC": {
+        "poise": 0.1,
+        "centipoise": 0.001,
+        "micropoise": 1e-07,
+        "cp": 0.001,
+        "Reyn": 6894.7
+    },
+    "VISCOSITY-KINEMATIC": {
+        "Stoke": 0.0001,
+        "centiStoke": 1e-06
+    },
+    "ANGLES": {
+        "radian": 1.0,
+        "radians": 1.0,
+        "rad": 1.0,
+        "deg": 0.017453293,
+        "degree": 0.017453293,
+        "degrees": 0.017453293,
+        "\u00c2\u00b0": 0.017453293,
+        "rev": 6.28318530718,
+        "revs": 6.28318530718,
+        "revolutions": 6.28318530718,
+        "minute": 0.000290888,
+        "quadrant": 1.5707963,
+        "cycle": 6.28318530718,
+        "cycles": 6.28318530718
+    },
+    "CHARGE": {
+        "Coulomb": 1.0,
+        "Faraday": 96517.844,
+        "Abcoulomb": 10.0
+    },
+    "ELECTRICAL CAPACITANCE": {
+        "Farad": 1.0,
+        "pFarad": 1e-12,
+        "pF": 1e-12
+    },
+    "DIPOLE MOMENT": {
+        "Debye": 3.33564e-30
+    },
+    "CURRENT": {
+        "Amp": 1.0,
+        "Ampere": 1.0,
+        "A": 1.0
+    },
+    "ELECTRICAL RESISTANCE": {
+        "ohm": 1.0,
+        "kohm": 1000.0
+    },
+    "ELECTROMOTIVE FORCE": {
+        "Volt": 1.0,
+        "millivolt": 0.001,
+        "kV": 1000.0,
+        "MegaVolt": 1000000.0,
+        "v": 1.0
+    },
+    "INDUCTANCE": {
+        "Henry": 1.0
+    },
+    "NON DIMENSIONAL": {
+        "-": 1.0,
+        "space": 1.0,
+        "Percent": 0.01,
+        "%": 0.01,
+        "person": 1.0,
+        "persons": 1.0,
+        "ppm": 1e-06,
+        "ppb": 1e-09,
+        "any": 1.0
+    },
+    "MAGNETIC FLUX DENSITY": {
+        "Gauss": 0.0001,
+        "G": 0.0001,
+        "Tesla": 1.0,
+        "T": 1.0
+    },
+    "MAGNETIC FLUX": {
+        "Maxwell": 1e-08,
+        "Mx": 1e-08,
+        "Weber": 1.0,
+        "Wb": 1.0
+    },
+    "MAGNETIC FIELD STRENGTH": {
+        "Oersted": 79.5774715459,
+        "Oe": 79.5774715459
+    },
+    "ILLUMINANCE": {
+        "lm": 1.0
+    },
+    "ILLUMINANCE FLUX": {
+        "lux": 1.0,
+        "ftcndl": 10.763910417,
+        "mcndl": 1.0
+    }
 }
\ No newline at end of file
-- 
2.43.0


From 99e174e1b14ee5433f07bbcd9f635e4ff68dc115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 31/78] fix: separate the variables in the solution string of
 solve_with_preprocessors

---
 nexsys/src/ffi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/ffi.rs b/nexsys/src/ffi.rs
index f34680f..ad30eae 100644
--- a/nexsys/src/ffi.rs
+++ b/nexsys/src/ffi.rs
@@ -96,7 +96,7 @@ pub unsafe extern "C" fn solve_with_preprocessors(system: *const c_char, margin:
                 let steps_str = log.join("\n");
                 let soln_str = soln.iter()
                     .fold(String::new(), |mut acc, (x, y)| {
-                        acc.push_str(&format!("{} {:#?}", x, y));
+                        acc.push_str(&format!("{}: {:#?}, ", x, y));
                         acc
                     });
                 CString::new(format!("{{ log: {:#?}, \nsoln: {:#?} }}", steps_str, soln_str))
-- 
2.43.0


From 3c67b499feb15baa98c7ad5235c2c17a600411da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 32/78] fix: names that contain 'if', 'else' or 'end' stay
 intact inside conditionals

---
 nexsys/src/parsing/conditionals.rs | 293 +++++++++++++++--------------
 1 file changed, 150 insertions(+), 143 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 95fd7ba..ba632ab 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -1,144 +1,151 @@
-use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
-use lazy_static::lazy_static;
-use regex::Regex;
-
-/// Evaluates if the first expression contains any of the later expressions
-macro_rules! contains_any {
-    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
-        $s.contains($ch1) $( || $s.contains($ch) )*
-    }};
-}
-
-/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
-/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
-pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
-
-    let mut args = cndl.replace("if ",  "if(")  // make start of function call
-    .replace([' ', '\n'], "")   // strip whitespace
-    .replace(':',   ",")        // delimit arguments
-    .replace("else", "")        // (ditto)
-    .replace("end", ")");       // close function call
-
-    //if(a<b,a-b=1,b-a=1)
-    // println!("SUBBED TOKENS: {}", args);
-
-    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
-        return Err(ConditionFormatError::ConditionalSyntax.into())
-    }
-
-    // replace conditional sign with f64 code number
-    if args.contains("==") {args = args.replace("==", ",1.0,");} 
-    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
-    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
-    if args.contains('<') {
-
-        if args.contains("=<") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('<',  ",4.0,");
-        
-    } 
-    if args.contains('>') {
-        
-        if args.contains("=>") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('>',  ",5.0,");
-                
-    } 
-    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
-
-    // println!("FINAL: {}", args);
-    // Conditional statement reformatted as function call
-    // This allows us to use `better` notation to call a function via meval
-    Ok(args + " = 0")
-}
-
-/// Identifies and returns conditional statements found in a Nexsys-legal string.
-pub fn conditionals(text: &str) -> anyhow::Result<String> {
-    lazy_static!{
-        static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
-^.*$
-^[ \t]*else:$
-^.*$
-^[ \t]*end"#
-        );
-    }
-    let mut output = text.to_string();
-    
-    loop {
-        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
-        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
-
-        // println!("{cdls:#?}");
-    
-        for raw in &cdls {
-    
-            let mut rows = raw
-                .split('\n')
-                .map(|i| i.to_string())
-                .collect::<Vec<String>>();
-    
-            // println!("{rows:#?}");
-    
-            for r in [1,3] {
-                if rows[r].contains('=') {
-                    let terms = rows[r].split('=').collect::<Vec<&str>>();
-                    if terms[1].replace(' ',"") == 0.to_string() {
-                        rows[r] = terms[0].to_string();
-                    } else {
-                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
-                    }
-                }
-            }
-            
-            let fmt_eqns = rows.join("\n");
-    
-            // println!("{}", fmt_eqns);
-    
-            let fmtd = &format_conditional(&fmt_eqns)?;
-    
-            output = output.replace(raw, fmtd);
-        }
-
-        if cdls.is_empty() { break } // keep going until there are no if statement matches left
-    }
-    
-    Ok(output)
-}
-
-/// Testing for non-public macros
-#[cfg(test)]
-mod test {
-
-    /// Tests the `contains_any!` macro
-    #[test]
-    fn test_contains_any_macro() {
-        assert_eq!(
-            contains_any!("test_string", "a", "b", "c"), 
-            false  
-        );
-
-        assert_eq!(
-            !(contains_any!("test_string", "a", "b", "c")),
-            true
-        );
-
-        assert_eq!(
-            contains_any!("test_string", "t", "b", "c"),
-            true
-        );
-    } 
-    
-    /// Additional testing for how the `contains_any!` macro works
-    #[test]
-    fn buggy_case() {
-        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
-            panic!()
-        }
-    }
-    
+use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
+use lazy_static::lazy_static;
+use regex::Regex;
+
+/// Evaluates if the first expression contains any of the later expressions
+macro_rules! contains_any {
+    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
+        $s.contains($ch1) $( || $s.contains($ch) )*
+    }};
+}
+
+/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
+/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
+pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
+
+    lazy_static!{
+        static ref IF: Regex = nexsys_regex(r"\A[ \t]*if ");
+        static ref ELSE: Regex = nexsys_regex(r"(?m)^[ \t]*else:$");
+        static ref END: Regex = nexsys_regex(r"(?m)^[ \t]*end\z");
+    }
+
+    // The keywords are only keywords at the start of a line, not within names
+    let mut args = IF.replace_all(cndl, "if(").to_string(); // make start of function call
+    args = ELSE.replace_all(&args, ":").to_string();        // delimit arguments
+    args = END.replace_all(&args, ")").to_string()          // close function call
+    .replace([' ', '\n'], "")   // strip whitespace
+    .replace(':',   ",");       // delimit arguments
+
+    //if(a<b,a-b=1,b-a=1)
+    // println!("SUBBED TOKENS: {}", args);
+
+    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
+        return Err(ConditionFormatError::ConditionalSyntax.into())
+    }
+
+    // replace conditional sign with f64 code number
+    if args.contains("==") {args = args.replace("==", ",1.0,");} 
+    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
+    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
+    if args.contains('<') {
+
+        if args.contains("=<") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('<',  ",4.0,");
+        
+    } 
+    if args.contains('>') {
+        
+        if args.contains("=>") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('>',  ",5.0,");
+                
+    } 
+    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
+
+    // println!("FINAL: {}", args);
+    // Conditional statement reformatted as function call
+    // This allows us to use `better` notation to call a function via meval
+    Ok(args + " = 0")
+}
+
+/// Identifies and returns conditional statements found in a Nexsys-legal string.
+pub fn conditionals(text: &str) -> anyhow::Result<String> {
+    lazy_static!{
+        static ref RE: Regex = nexsys_regex(            
+r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+^.*$
+^[ \t]*else:$
+^.*$
+^[ \t]*end"#
+        );
+    }
+    let mut output = text.to_string();
+    
+    loop {
+        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
+        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
+
+        // println!("{cdls:#?}");
+    
+        for raw in &cdls {
+    
+            let mut rows = raw
+                .split('\n')
+                .map(|i| i.to_string())
+                .collect::<Vec<String>>();
+    
+            // println!("{rows:#?}");
+    
+            for r in [1,3] {
+                if rows[r].contains('=') {
+                    let terms = rows[r].split('=').collect::<Vec<&str>>();
+                    if terms[1].replace(' ',"") == 0.to_string() {
+                        rows[r] = terms[0].to_string();
+                    } else {
+                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
+                    }
+                }
+            }
+            
+            let fmt_eqns = rows.join("\n");
+    
+            // println!("{}", fmt_eqns);
+    
+            let fmtd = &format_conditional(&fmt_eqns)?;
+    
+            output = output.replace(raw, fmtd);
+        }
+
+        if cdls.is_empty() { break } // keep going until there are no if statement matches left
+    }
+    
+    Ok(output)
+}
+
+/// Testing for non-public macros
+#[cfg(test)]
+mod test {
+
+    /// Tests the `contains_any!` macro
+    #[test]
+    fn test_contains_any_macro() {
+        assert_eq!(
+            contains_any!("test_string", "a", "b", "c"), 
+            false  
+        );
+
+        assert_eq!(
+            !(contains_any!("test_string", "a", "b", "c")),
+            true
+        );
+
+        assert_eq!(
+            contains_any!("test_string", "t", "b", "c"),
+            true
+        );
+    } 
+    
+    /// Additional testing for how the `contains_any!` macro works
+    #[test]
+    fn buggy_case() {
+        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
+            panic!()
+        }
+    }
+    
 }
\ No newline at end of file
-- 
2.43.0


From 4a99d53cf69cd14a42a1c6692774310cb34c1c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 33/78] fix: a source that drives its input node has the
 polarity and flux direction of one that drives its output node

---
 neapolitan/src/dc_circuits.rs   | 2 +-
 neapolitan/src/flux_formulas.rs | 7 ++++++-
 neapolitan/src/heat_transfer.rs | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index 25c65a5..d31ad85 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -54,7 +54,7 @@ pub fn voltage_source(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/flux_formulas.rs b/neapolitan/src/flux_formulas.rs
index 3ac3fe8..cb2d191 100644
--- a/neapolitan/src/flux_formulas.rs
+++ b/neapolitan/src/flux_formulas.rs
@@ -55,7 +55,12 @@ pub fn observe_flux(
     let mut discrepancy = sub_ref.try_borrow()?
         .get_flux_discrepancy()?;
 
-    discrepancy.inplace_scale(-1.0);
+    // The flux out of the input node enters the output node, so it makes up 
+    // for what the output node lacks or for what the input node has too much
+    if drives_output
+    {
+        discrepancy.inplace_scale(-1.0);
+    }
 
     Ok(discrepancy)
 }
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index c7a811a..91fe3bf 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -115,7 +115,7 @@ pub fn temperature_delta(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
-- 
2.43.0


From d3f441f76fd008e4579b3e0ff2b63e42dd657082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 34/78] fix: nodes driven by a source follow the potential of a
 floating node

---
 neapolitan/src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 222c295..5032d1f 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -286,6 +286,7 @@ impl NodalAnalysisStudyBuilder
                 };
 
                 let local_nodes = nodes.to_vec();
+                let local_elements = elements.to_vec();
 
                 guess.insert(idx, 1.0);
                 partials.push(move |x: &HashMap<ComponentIndex, f64>| {
@@ -295,6 +296,7 @@ impl NodalAnalysisStudyBuilder
                             .try_borrow_mut()?
                             .potential[(component as usize, 0)] = val;
                     }
+                    update_driven_potentials(&local_elements)?;
 
                     let flux_discrepancy = local_nodes[node_idx]
                         .try_borrow()?
@@ -313,6 +315,7 @@ impl NodalAnalysisStudyBuilder
             let mut node = nodes[idx.node as usize].try_borrow_mut()?;
             node.potential[(idx.component as usize, 0)] = *component;
         }
+        update_driven_potentials(&elements)?;
 
         // Step 6 - gather results
         let mut result = NodalAnalysisStudyResult 
@@ -342,6 +345,18 @@ impl NodalAnalysisStudyBuilder
     }
 }
 
+/// Makes the potentials of the nodes that are driven by an element consistent 
+/// with the potentials of the other nodes. Calculating the flux of an element 
+/// sets the potential of the node it drives, and of the nodes that depend on it.
+fn update_driven_potentials(elements: &[Rc<GenericElement>]) -> anyhow::Result<()>
+{
+    for elem in elements
+    {
+        elem.get_flux()?;
+    }
+    Ok(())
+}
+
 /// Returns a boolean indicating whether the `GenericNode` at the given pointer 
 /// is locked or not. This function will return a `DroppedNodeError` if the 
 /// node was dropped for some reason prior to checking the state of `is_locked`.
-- 
2.43.0


From 5a227966e1c706895200e4a8fdf0ae5976488a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 35/78] fix: a model with an unknown type, element or node
 gives an error instead of a panic

---
 neapolitan/src/errors.rs |  4 ++++
 neapolitan/src/lib.rs    | 35 +++++++++++++++++++++++++----------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index 6e6f2dd..8c350b2 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -41,4 +41,8 @@ pub enum NodalAnalysisModellingError
     NodeDoesNotExist,
     #[error("could not find desired model type in the given or default configurators")]
     ModelTypeNotFound,
+    #[error("could not find the element type of one or more elements in the configurator for the model type")]
+    ElementTypeNotFound,
+    #[error("the potential of one or more nodes did not have one value for each dimension of the model type")]
+    PotentialDimension,
 }
\ No newline at end of file
diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 5032d1f..30eccfc 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -183,16 +183,21 @@ impl NodalAnalysisStudyBuilder
         }
     }
 
-    fn get_element_constructor(&self, elem: &str) -> ElementConstructor
+    fn get_configurator(&self) -> Result<&NodalAnalysisStudyConfigurator, NodalAnalysisModellingError>
     {
-        let configurator = &self.configurator[&self.model.model_type];
-        configurator.elements[elem]
+        self.configurator.get(&self.model.model_type)
+            .ok_or(NodalAnalysisModellingError::ModelTypeNotFound)
     }
 
-    fn get_dimension(&self) -> usize
+    fn get_element_constructor(&self, elem: &str) -> Result<ElementConstructor, NodalAnalysisModellingError>
     {
-        let configurator = &self.configurator[&self.model.model_type];
-        configurator.dimension
+        self.get_configurator()?.elements.get(elem).copied()
+            .ok_or(NodalAnalysisModellingError::ElementTypeNotFound)
+    }
+
+    fn get_dimension(&self) -> Result<usize, NodalAnalysisModellingError>
+    {
+        self.get_configurator().map(|c| c.dimension)
     }
 
     pub fn add_nodes(mut self, n: usize) -> NodalAnalysisStudyBuilder
@@ -232,7 +237,7 @@ impl NodalAnalysisStudyBuilder
 
     pub fn run_study(self, margin: f64, limit: usize) -> anyhow::Result<NodalAnalysisStudyResult>
     {
-        let n = self.get_dimension();
+        let n = self.get_dimension()?;
         let mut nodes = vec![];
         let mut elements = vec![];
 
@@ -254,7 +259,13 @@ impl NodalAnalysisStudyBuilder
         // Step 2 - set nodal metadata if it is given
         for (&i, node_data) in &self.model.configuration
         {
-            let mut node = nodes[i].borrow_mut();
+            let mut node = nodes.get(i)
+                .ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?
+                .borrow_mut();
+            if node_data.potential.len() != n
+            {
+                return Err(NodalAnalysisModellingError::PotentialDimension.into());
+            }
             node.potential = Matrix::from_col_vec(node_data.potential.to_vec());
             node.is_locked = node_data.is_locked;
             node._metadata = node_data.metadata.clone();
@@ -264,7 +275,11 @@ impl NodalAnalysisStudyBuilder
         for element_data in &self.model.elements
         {
             let NodalAnalysisElement { element_type, input, output, gain } = element_data;
-            let constructor = self.get_element_constructor(element_type);
+            let constructor = self.get_element_constructor(element_type)?;
+            if *input >= nodes.len() || *output >= nodes.len()
+            {
+                return Err(NodalAnalysisModellingError::NodeDoesNotExist.into());
+            }
             elements.push(constructor(
                 Rc::downgrade(&nodes[*input]), 
                 Rc::downgrade(&nodes[*output]), 
@@ -277,7 +292,7 @@ impl NodalAnalysisStudyBuilder
         let mut guess = HashMap::new();
         for (node_idx, _) in nodes.iter().enumerate().filter(|(_, x)| !x.borrow().is_locked)
         {
-            for comp_idx in 0..self.get_dimension()
+            for comp_idx in 0..n
             {
                 let idx = ComponentIndex 
                 { 
-- 
2.43.0


From b88e3ee5c753a4ee89dd25a698243d9d4a593878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 36/78] fix: an element with an empty or too long gain gives an
 error instead of a panic

---
 neapolitan/src/dc_circuits.rs   | 17 ++++++++++++++++-
 neapolitan/src/errors.rs        |  4 ++++
 neapolitan/src/heat_transfer.rs | 12 +++++++++++-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index d31ad85..57e4aa3 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -6,7 +6,7 @@ use std::cell::RefCell;
 use gmatlib::{col_vec, Matrix};
 
 // Local modules
-use crate::errors::ElementCreationError;
+use crate::errors::{ElementCreationError, ElementGainError};
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
 
@@ -21,6 +21,11 @@ pub fn resistor(
     resistance: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if resistance.len() != 1
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         vec![1.0 / resistance[0]],  // Conductance (gain) is reciprocal of resistance in ohms
         input_node, output_node,    // Input and output_node nodes
@@ -36,6 +41,11 @@ pub fn voltage_source(
     voltage: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if voltage.len() != 1
+    {
+        return Err(ElementGainError.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -79,6 +89,11 @@ pub fn current_source(
     current: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if current.len() != 1
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         current,
         input_node, output_node,
diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index 8c350b2..1d81fb3 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -5,6 +5,10 @@ use thiserror::Error;
 #[error("the element could not be created because both its input and output nodes were already locked.")]
 pub struct ElementCreationError;
 
+#[derive(Debug, Error)]
+#[error("the element could not be created because its gain did not have exactly one value.")]
+pub struct ElementGainError;
+
 #[derive(Debug, Error)]
 pub enum EquationGenerationError
 {
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index 91fe3bf..c055f0a 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -6,7 +6,7 @@ use std::cell::RefCell;
 use gmatlib::{col_vec, Matrix};
 use thiserror::Error;
 
-use crate::errors::ElementCreationError;
+use crate::errors::{ElementCreationError, ElementGainError};
 // Local modules
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
@@ -97,6 +97,11 @@ pub fn temperature_delta(
     temp_delta: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if temp_delta.len() != 1
+    {
+        return Err(ElementGainError.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -140,6 +145,11 @@ pub fn heat_flux(
     flux: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if flux.len() != 1
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         flux, 
         input_node, output_node, 
-- 
2.43.0


From 737c223c04fbec4962d9270064f4f53ca17cd2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 37/78] fix: NodalAnalysisModel::from_str reads the json
 representation of a model

---
 neapolitan/src/modelling/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/modelling/mod.rs b/neapolitan/src/modelling/mod.rs
index 42fce1f..2cb9012 100644
--- a/neapolitan/src/modelling/mod.rs
+++ b/neapolitan/src/modelling/mod.rs
@@ -5,7 +5,7 @@ pub mod node;
 use std::{collections::HashMap, str::FromStr, usize};
 
 /// 3rd party modules
-use serde::de::{Deserialize, IntoDeserializer, value};
+use serde::de::{Error, value};
 
 /// Local modules
 pub use element::GenericElement;
@@ -55,6 +55,6 @@ impl FromStr for NodalAnalysisModel
 
     fn from_str(s: &str) -> Result<Self, Self::Err> 
     {
-        Self::deserialize(s.into_deserializer())
+        serde_json::from_str(s).map_err(value::Error::custom)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 4911bf6af24e1bdb73128ba73ff80d9d1000f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:53 +0000
Subject: [PATCH 38/78] fix: the command line programs never write their output
 over the input file

---
 neapolitan/src/main.rs | 2 +-
 nexsys/src/main.rs     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index ff50a91..a1c5583 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -105,7 +105,7 @@ fn main()
         }
     };
 
-    let solution_file = args[1].replace(".json", ".soln.json");
+    let solution_file = format!("{}.soln.json", args[1].strip_suffix(".json").unwrap_or(&args[1]));
     match write(solution_file, solution_json) 
     {
         Ok(_) => process::exit(0),
diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 62f9350..cde6d10 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -92,7 +92,8 @@ OPTIONS:
     );
 
     if output_file {
-        match write(args[1].replace(".nxs", ".txt"), output) {
+        let output_path = format!("{}.txt", args[1].strip_suffix(".nxs").unwrap_or(&args[1]));
+        match write(output_path, output) {
             Ok(_) => process::exit(0),
             Err(_) => {
                 println!("[nxc].....ERR: nxc could not write to the output file");
-- 
2.43.0


From f28a17e70cf428237b25699d0e295d842d39ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:53 +0000
Subject: [PATCH 39/78] fix: the command line programs report a missing
 argument or an invalid system instead of panicking

---
 neapolitan/src/main.rs | 10 ++++++++--
 nexsys/src/main.rs     | 21 ++++++++++++++-------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index a1c5583..6b48ce4 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -10,6 +10,12 @@ fn main()
     let mut precision: Option<f64> = None;
     let mut iteration_limit: Option<usize> = None;
 
+    if args.len() < 2
+    {
+        println!("[neapolitan].....ERR: no filepath was specified!");
+        process::exit(1);
+    }
+
     let model_json = match read_to_string(&args[1]) 
     {
         Ok(o) => o,
@@ -29,7 +35,7 @@ fn main()
         if arg == "--precision" ||
            arg == "-p"
         {
-            precision = match args[i + 1].parse()
+            precision = match args.get(i + 1).map_or("", |x| x).parse()
             {
                 Ok(o) => 
                 {
@@ -50,7 +56,7 @@ fn main()
         else if arg == "--iterations" ||
                 arg == "-i"
         {
-            iteration_limit = match args[i + 1].parse()
+            iteration_limit = match args.get(i + 1).map_or("", |x| x).parse()
             {
                 Ok(o) => 
                 {
diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index cde6d10..27446e9 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -35,7 +35,7 @@ OPTIONS:
 
     for i in 0..args.len() {
         if args[i] == *"--margin" || args[i] == *"-tol" {
-            match args[i+1].parse::<f64>() {
+            match args.get(i+1).map_or("", |x| x).parse::<f64>() {
                 Ok(o) => {
                     println!("[nxc].....margin set to {o}");
                     margin = o;
@@ -47,7 +47,7 @@ OPTIONS:
             }
         }
         if args[i] == *"--max-iterations" || args[i] == *"-max" {
-            match args[i+1].parse::<usize>() {
+            match args.get(i+1).map_or("", |x| x).parse::<usize>() {
                 Ok(o) => {
                     println!("[nxc].....iteration limit set to: {o}");
                     limit = o;
@@ -61,11 +61,18 @@ OPTIONS:
         if args[i] == *"--verbose" || args[i] == *"-v" {
             println!("[nxc].....Printing compiled code...");
 
-            let mut preprocess = conversions(&system).unwrap();
-            preprocess = consts(&preprocess).unwrap();
-            preprocess = conditionals(&preprocess).unwrap();
-            
-            println!("\n{preprocess}\n");
+            let preprocess = conversions(&system)
+                .and_then(|x| consts(&x))
+                .and_then(|x| conditionals(&x));
+
+            match preprocess {
+                Ok(o) => println!("\n{o}\n"),
+                Err(e) => {
+                    println!("[nxc].....ERR: nxc could not compile the system");
+                    println!("[nxc].....{e}");
+                    process::exit(1);
+                }
+            }
         }
         if args[i] == *"--to-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
-- 
2.43.0


From cbdf9c3bc43b44d28c3bee845a1c9e9c67642cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 40/78] fix: inverting a 3x3 matrix no longer gives the
 transpose of the inverse

---
 gmatlib/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index bc12727..25ed800 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -599,13 +599,13 @@ where T: Element<T>
     fn try_inplace_invert_3(&mut self) -> Result<()>
     {
         let a11 = self[(0, 0)];
-        let a12 = self[(1, 0)];
-        let a13 = self[(2, 0)];
-        let a21 = self[(0, 1)];
+        let a12 = self[(0, 1)];
+        let a13 = self[(0, 2)];
+        let a21 = self[(1, 0)];
         let a22 = self[(1, 1)];
-        let a23 = self[(2, 1)];
-        let a31 = self[(0, 2)];
-        let a32 = self[(1, 2)];
+        let a23 = self[(1, 2)];
+        let a31 = self[(2, 0)];
+        let a32 = self[(2, 1)];
         let a33 = self[(2, 2)];
 
         let det  = a11*a22*a33 + a21*a32*a13 + a31*a12*a23 
-- 
2.43.0


From 550729f5a19ec14c21fd4087964fc3452eb7e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 41/78] fix: the determinant of a 4x4 matrix has no repeated
 column in its terms

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 25ed800..3eab2f9 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -652,7 +652,7 @@ where T: Element<T>
         let det  = a11*a22*a33*a44 + a11*a23*a34*a42 + a11*a24*a32*a43 +
                    a12*a21*a34*a43 + a12*a23*a31*a44 + a12*a24*a33*a41 + 
                    a13*a21*a32*a44 + a13*a22*a34*a41 + a13*a24*a31*a42 + 
-                   a14*a21*a33*a42 + a14*a22*a34*a43 + a14*a23*a32*a41 -
+                   a14*a21*a33*a42 + a14*a22*a31*a43 + a14*a23*a32*a41 -
                    a11*a22*a34*a43 - a11*a23*a32*a44 - a11*a24*a33*a42 -
                    a12*a21*a33*a44 - a12*a23*a34*a41 - a12*a24*a31*a43 -
                    a13*a21*a34*a42 - a13*a22*a31*a44 - a13*a24*a32*a41 -
-- 
2.43.0


From e70b8093f5c48c71961cf0681eb43125ce0632fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 42/78] fix: an equation can be solved with a context that has
 known variables

---
 geqslib/src/lib.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index b9b429c..89e5396 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -20,7 +20,7 @@ use std::collections::{HashMap, HashSet};
 use context::ContextLike;
 use errors::EquationSolverError;
 use newton::newton_raphson;
-use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context, rpnify};
+use shunting::{ContextHashMap, Token, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context, rpnify};
 use system::get_equation_unknowns;
 use variable::Variable;
 
@@ -118,11 +118,18 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
         return Err(EquationSolverError::SingleUnknownNotFound.into());
     }
     
-    ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
-    let f = compile_equation_to_fn(equation, ctx);
-    ctx.remove(unknowns[0]); // the unknown is only needed to compile the equation
+    // Known variables do not change while solving for the unknown
+    let mut solve_ctx: ContextHashMap = ctx.iter()
+        .map(|(name, token)| (name.to_owned(), match token {
+            Token::Var(known) => Token::Num((*known.borrow()).into()),
+            _ => token.clone(),
+        }))
+        .collect();
+
+    solve_ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
+    let f = compile_equation_to_fn(equation, &solve_ctx)?;
 
-    let soln = Variable::new(newton_raphson(f?, guess, margin, limit)?, min, max);
+    let soln = Variable::new(newton_raphson(f, guess, margin, limit)?, min, max);
 
     Ok((unknowns[0].to_owned(), soln.into()))
 }
-- 
2.43.0


From 54c117861081773edaddbeb94f74faa37a4bcc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 43/78] fix: equations whose variables are all known take no
 part in a subsystem

---
 nexsys/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 29fa455..32b567c 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -71,6 +71,12 @@ fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut Contex
                 continue;
             }
 
+            // An equation without unknowns cannot constrain the system
+            if get_equation_unknowns(equation, ctx).next().is_none()
+            {
+                continue;
+            }
+
             // println!("Constraint status: {}", builder.is_fully_constrained());
 
             match builder.try_constrain_with(equation)?
-- 
2.43.0


From e9181d2378d49d8b443e4b1398c5507e9b2a71cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 44/78] fix: the verbose output of nxc ignores comments as the
 solver does

---
 nexsys/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 27446e9..fdeccd1 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -1,6 +1,6 @@
 use std::{env, process};
 use std::fs::{read_to_string, write};
-use nexsys::{solve_with_preprocessors, parsing::{conditionals, conversions, consts}};
+use nexsys::{solve_with_preprocessors, parsing::{comments, conditionals, conversions, consts}};
 
 fn main() {
     let args: Vec<String> = env::args().collect();
@@ -61,7 +61,7 @@ OPTIONS:
         if args[i] == *"--verbose" || args[i] == *"-v" {
             println!("[nxc].....Printing compiled code...");
 
-            let preprocess = conversions(&system)
+            let preprocess = conversions(&comments(&system))
                 .and_then(|x| consts(&x))
                 .and_then(|x| conditionals(&x));
 
-- 
2.43.0


From 73eb820e67f372f7924550800a59bdb4749cc18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 45/78] fix: comments, declarations and blank lines inside a
 conditional do not disable it

---
 nexsys/src/parsing/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 5f6e5f1..1d76586 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -213,6 +213,13 @@ pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<Stri
         }
     }
 
+    // Blank lines and trailing spaces, e.g. those left behind above, do not break up conditional statements
+    nil = nil.lines()
+        .map(|line| line.trim_end())
+        .filter(|line| !line.is_empty())
+        .collect::<Vec<&str>>()
+        .join("\n");
+
     // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
     nil = conditionals(&nil)?;
 
-- 
2.43.0


From 7941772c55eb9cfbf130539eac6b89e4c0811949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 46/78] fix: the branches of a conditional can be indented with
 tabs

---
 nexsys/src/parsing/conditionals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index ba632ab..d07a533 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -23,7 +23,7 @@ pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
     let mut args = IF.replace_all(cndl, "if(").to_string(); // make start of function call
     args = ELSE.replace_all(&args, ":").to_string();        // delimit arguments
     args = END.replace_all(&args, ")").to_string()          // close function call
-    .replace([' ', '\n'], "")   // strip whitespace
+    .replace([' ', '\t', '\n'], "")   // strip whitespace
     .replace(':',   ",");       // delimit arguments
 
     //if(a<b,a-b=1,b-a=1)
-- 
2.43.0


From 1d75063e78d74d75086576e359a3a50c8db9bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 47/78] fix: removing a guess does not cut into a guess for a
 longer name

---
 nexsys/src/parsing/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 1d76586..1b78bed 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -28,12 +28,12 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
     {
         static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
     }
-    let mut res = (text.to_owned(), HashMap::new());
+    // Remove whole declarations only, not the start of one for a longer name
+    let mut res = (RE.replace_all(text, "").to_string(), HashMap::new());
     let guesses = RE.captures_iter(text);
 
     for g in guesses 
     {
-        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
             g.get(1).unwrap().as_str().replace(' ', "").parse()
-- 
2.43.0


From 96e46a55615f583944c833d1c492b2727994c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 48/78] fix: the sources of nexsys keep their original line
 endings

---
 nexsys/src/lib.rs                  | 428 +++++++++----------
 nexsys/src/parsing/conditionals.rs | 300 +++++++-------
 nexsys/src/parsing/mod.rs          | 452 ++++++++++----------
 nexsys/src/units/mod.rs            | 326 +++++++--------
 nexsys/src/units/units.json        | 638 ++++++++++++++---------------
 5 files changed, 1072 insertions(+), 1072 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 32b567c..2f5b377 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -1,215 +1,215 @@
-/// Different errors specific to Nexsys implementations of algorithms.
-pub mod errors;
-/// Provides `extern "C"` functions for use in other programming languages. Not 
-/// intended for use in other Rust projects.
-pub mod ffi;
-/// Provides tools for parsing text prior to passing to the equation solving engine.
-pub mod parsing;
-/// Provides data sets of common units and functions for converting between them.
-pub mod units;
-
-use std::collections::HashMap;
-
-use geqslib::solve_equation_with_context;
-use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
-use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
-
-use parsing::compile;
-
-/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
-fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
-        if unknowns.len() != 1
-        {
-            continue;
-        }
-
-        let var_info: [f64; 3];
-        if declared.contains_key(unknowns[0])
-        {
-            var_info = declared[unknowns[0]];
-        }
-        else
-        {
-            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
-        }
-
-        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_const_to_ctx(&soln.0, soln.1);
-        *log_step = format!(
-            "Var: {:#?} \nEquation: {}", 
-            soln.0, equation
-        );
-        eqn_pool.remove(i);
-        return Ok(true);
-    }
-    Ok(false)
-}
-
-fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
-        let mut eqn_strings = vec![equation.to_owned()];
-
-        // Pass over the pool again while the system is growing: an equation may
-        // constrain the system once another one has added its unknown
-        let mut n_eqns = 0;
-        while n_eqns != eqn_strings.len()
-        {
-        n_eqns = eqn_strings.len();
-        for (j, equation) in eqn_pool.iter().enumerate()
-        {
-            // Skip the current equation we're building a system with 
-            // OR an equation that we've already added to the system
-            if j == i || eqn_strings.contains(equation)
-            {
-                continue;
-            }
-
-            // An equation without unknowns cannot constrain the system
-            if get_equation_unknowns(equation, ctx).next().is_none()
-            {
-                continue;
-            }
-
-            // println!("Constraint status: {}", builder.is_fully_constrained());
-
-            match builder.try_constrain_with(equation)?
-            {
-                ConstrainResult::WillConstrain => {
-                    eqn_strings.push(equation.to_owned());
-                    // println!("constrained with: {}", equation);
-                },
-                ConstrainResult::WillOverConstrain => break,
-                _ => {}
-            }
-        }
-        }
-            
-        *log_step = format!("{:#?}", eqn_strings);
-
-        // Solve the found constrained system:
-        if let Some(mut system) = builder.build_system()
-        {
-            for (var, var_info) in declared
-            {
-                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
-            }
-
-            let soln = system.solve(margin, limit)?;
-            for (var, val) in soln 
-            {
-                ctx.add_const_to_ctx(&var, val);
-            }
-            
-            let remaining_eqns: Vec<String> = eqn_pool.iter()
-                .filter(|x| !eqn_strings.contains(x) && x != &equation)
-                .map(|x| x.to_owned())
-                .collect();
-
-            eqn_pool.clear();
-            eqn_pool.extend(remaining_eqns);
-
-            // println!("{:#?}", eqn_pool);
-
-            return Ok(true);
-        }
-    }
-
-    Ok(false)
-}
-
-/// Solves a system of equations in plain-text format.
-/// For more supported syntax, see `solve_with_preprocessors`
-/// 
-/// # Example
-/// ```
-/// ```
-pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut log = vec![];
-    let mut eqn_pool = system.split('\n')
-        .filter(|x| x.contains('='))
-        .map(|x| x.to_owned())
-        .collect();
-
-    loop
-    {
-        let mut log_step = String::default();
-        // Get less expensive solutions:
-        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-
-        // Dig in and solve a more expensive subsystem:
-        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-        
-        break;
-    }
-
-    let mut soln_map = HashMap::new(); 
-    for (name, val) in ctx
-    {
-        match val
-        {
-            Token::Var(v) => {
-                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
-            },
-            Token::Num(n) => {
-                soln_map.insert(name.to_owned(), *n);
-            },
-            _ => {} 
-        }
-    }
-
-    Ok((log, soln_map))
-}
-
-/// Solves a system of equations with additional syntax used to indicate 
-/// unit conversions, constant known values, nicer if statements, and more.
-/// 
-/// # Example
-/// ```
-/// use nexsys::solve_with_preprocessors;
-/// 
-/// let system = r#"
-/// keep x on [0, 100]
-/// guess 3 for y
-/// const nine = 9
-/// 
-/// x + y = nine
-/// x - y = 4
-/// 
-/// if x > y:
-///     i = 1
-/// else:
-///     i = -1
-/// end
-/// "#;
-/// 
-/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
-///     .expect("failed to solve system!");
-/// 
-/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
-/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
-/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
-/// ```
-pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut ctx = new_context(); 
-    let mut declared = HashMap::new();
-    let compiled = compile(system, &mut ctx, &mut declared)?;
-
-    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
+/// Different errors specific to Nexsys implementations of algorithms.
+pub mod errors;
+/// Provides `extern "C"` functions for use in other programming languages. Not 
+/// intended for use in other Rust projects.
+pub mod ffi;
+/// Provides tools for parsing text prior to passing to the equation solving engine.
+pub mod parsing;
+/// Provides data sets of common units and functions for converting between them.
+pub mod units;
+
+use std::collections::HashMap;
+
+use geqslib::solve_equation_with_context;
+use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
+use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
+
+use parsing::compile;
+
+/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
+fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
+        if unknowns.len() != 1
+        {
+            continue;
+        }
+
+        let var_info: [f64; 3];
+        if declared.contains_key(unknowns[0])
+        {
+            var_info = declared[unknowns[0]];
+        }
+        else
+        {
+            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
+        }
+
+        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
+        ctx.add_const_to_ctx(&soln.0, soln.1);
+        *log_step = format!(
+            "Var: {:#?} \nEquation: {}", 
+            soln.0, equation
+        );
+        eqn_pool.remove(i);
+        return Ok(true);
+    }
+    Ok(false)
+}
+
+fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
+        let mut eqn_strings = vec![equation.to_owned()];
+
+        // Pass over the pool again while the system is growing: an equation may
+        // constrain the system once another one has added its unknown
+        let mut n_eqns = 0;
+        while n_eqns != eqn_strings.len()
+        {
+        n_eqns = eqn_strings.len();
+        for (j, equation) in eqn_pool.iter().enumerate()
+        {
+            // Skip the current equation we're building a system with 
+            // OR an equation that we've already added to the system
+            if j == i || eqn_strings.contains(equation)
+            {
+                continue;
+            }
+
+            // An equation without unknowns cannot constrain the system
+            if get_equation_unknowns(equation, ctx).next().is_none()
+            {
+                continue;
+            }
+
+            // println!("Constraint status: {}", builder.is_fully_constrained());
+
+            match builder.try_constrain_with(equation)?
+            {
+                ConstrainResult::WillConstrain => {
+                    eqn_strings.push(equation.to_owned());
+                    // println!("constrained with: {}", equation);
+                },
+                ConstrainResult::WillOverConstrain => break,
+                _ => {}
+            }
+        }
+        }
+            
+        *log_step = format!("{:#?}", eqn_strings);
+
+        // Solve the found constrained system:
+        if let Some(mut system) = builder.build_system()
+        {
+            for (var, var_info) in declared
+            {
+                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
+            }
+
+            let soln = system.solve(margin, limit)?;
+            for (var, val) in soln 
+            {
+                ctx.add_const_to_ctx(&var, val);
+            }
+            
+            let remaining_eqns: Vec<String> = eqn_pool.iter()
+                .filter(|x| !eqn_strings.contains(x) && x != &equation)
+                .map(|x| x.to_owned())
+                .collect();
+
+            eqn_pool.clear();
+            eqn_pool.extend(remaining_eqns);
+
+            // println!("{:#?}", eqn_pool);
+
+            return Ok(true);
+        }
+    }
+
+    Ok(false)
+}
+
+/// Solves a system of equations in plain-text format.
+/// For more supported syntax, see `solve_with_preprocessors`
+/// 
+/// # Example
+/// ```
+/// ```
+pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut log = vec![];
+    let mut eqn_pool = system.split('\n')
+        .filter(|x| x.contains('='))
+        .map(|x| x.to_owned())
+        .collect();
+
+    loop
+    {
+        let mut log_step = String::default();
+        // Get less expensive solutions:
+        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+
+        // Dig in and solve a more expensive subsystem:
+        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+        
+        break;
+    }
+
+    let mut soln_map = HashMap::new(); 
+    for (name, val) in ctx
+    {
+        match val
+        {
+            Token::Var(v) => {
+                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
+            },
+            Token::Num(n) => {
+                soln_map.insert(name.to_owned(), *n);
+            },
+            _ => {} 
+        }
+    }
+
+    Ok((log, soln_map))
+}
+
+/// Solves a system of equations with additional syntax used to indicate 
+/// unit conversions, constant known values, nicer if statements, and more.
+/// 
+/// # Example
+/// ```
+/// use nexsys::solve_with_preprocessors;
+/// 
+/// let system = r#"
+/// keep x on [0, 100]
+/// guess 3 for y
+/// const nine = 9
+/// 
+/// x + y = nine
+/// x - y = 4
+/// 
+/// if x > y:
+///     i = 1
+/// else:
+///     i = -1
+/// end
+/// "#;
+/// 
+/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
+///     .expect("failed to solve system!");
+/// 
+/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
+/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
+/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
+/// ```
+pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut ctx = new_context(); 
+    let mut declared = HashMap::new();
+    let compiled = compile(system, &mut ctx, &mut declared)?;
+
+    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
 }
\ No newline at end of file
diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index d07a533..c61d927 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -1,151 +1,151 @@
-use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
-use lazy_static::lazy_static;
-use regex::Regex;
-
-/// Evaluates if the first expression contains any of the later expressions
-macro_rules! contains_any {
-    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
-        $s.contains($ch1) $( || $s.contains($ch) )*
-    }};
-}
-
-/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
-/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
-pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
-
-    lazy_static!{
-        static ref IF: Regex = nexsys_regex(r"\A[ \t]*if ");
-        static ref ELSE: Regex = nexsys_regex(r"(?m)^[ \t]*else:$");
-        static ref END: Regex = nexsys_regex(r"(?m)^[ \t]*end\z");
-    }
-
-    // The keywords are only keywords at the start of a line, not within names
-    let mut args = IF.replace_all(cndl, "if(").to_string(); // make start of function call
-    args = ELSE.replace_all(&args, ":").to_string();        // delimit arguments
-    args = END.replace_all(&args, ")").to_string()          // close function call
-    .replace([' ', '\t', '\n'], "")   // strip whitespace
-    .replace(':',   ",");       // delimit arguments
-
-    //if(a<b,a-b=1,b-a=1)
-    // println!("SUBBED TOKENS: {}", args);
-
-    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
-        return Err(ConditionFormatError::ConditionalSyntax.into())
-    }
-
-    // replace conditional sign with f64 code number
-    if args.contains("==") {args = args.replace("==", ",1.0,");} 
-    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
-    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
-    if args.contains('<') {
-
-        if args.contains("=<") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('<',  ",4.0,");
-        
-    } 
-    if args.contains('>') {
-        
-        if args.contains("=>") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('>',  ",5.0,");
-                
-    } 
-    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
-
-    // println!("FINAL: {}", args);
-    // Conditional statement reformatted as function call
-    // This allows us to use `better` notation to call a function via meval
-    Ok(args + " = 0")
-}
-
-/// Identifies and returns conditional statements found in a Nexsys-legal string.
-pub fn conditionals(text: &str) -> anyhow::Result<String> {
-    lazy_static!{
-        static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
-^.*$
-^[ \t]*else:$
-^.*$
-^[ \t]*end"#
-        );
-    }
-    let mut output = text.to_string();
-    
-    loop {
-        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
-        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
-
-        // println!("{cdls:#?}");
-    
-        for raw in &cdls {
-    
-            let mut rows = raw
-                .split('\n')
-                .map(|i| i.to_string())
-                .collect::<Vec<String>>();
-    
-            // println!("{rows:#?}");
-    
-            for r in [1,3] {
-                if rows[r].contains('=') {
-                    let terms = rows[r].split('=').collect::<Vec<&str>>();
-                    if terms[1].replace(' ',"") == 0.to_string() {
-                        rows[r] = terms[0].to_string();
-                    } else {
-                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
-                    }
-                }
-            }
-            
-            let fmt_eqns = rows.join("\n");
-    
-            // println!("{}", fmt_eqns);
-    
-            let fmtd = &format_conditional(&fmt_eqns)?;
-    
-            output = output.replace(raw, fmtd);
-        }
-
-        if cdls.is_empty() { break } // keep going until there are no if statement matches left
-    }
-    
-    Ok(output)
-}
-
-/// Testing for non-public macros
-#[cfg(test)]
-mod test {
-
-    /// Tests the `contains_any!` macro
-    #[test]
-    fn test_contains_any_macro() {
-        assert_eq!(
-            contains_any!("test_string", "a", "b", "c"), 
-            false  
-        );
-
-        assert_eq!(
-            !(contains_any!("test_string", "a", "b", "c")),
-            true
-        );
-
-        assert_eq!(
-            contains_any!("test_string", "t", "b", "c"),
-            true
-        );
-    } 
-    
-    /// Additional testing for how the `contains_any!` macro works
-    #[test]
-    fn buggy_case() {
-        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
-            panic!()
-        }
-    }
-    
+use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
+use lazy_static::lazy_static;
+use regex::Regex;
+
+/// Evaluates if the first expression contains any of the later expressions
+macro_rules! contains_any {
+    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
+        $s.contains($ch1) $( || $s.contains($ch) )*
+    }};
+}
+
+/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
+/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
+pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
+
+    lazy_static!{
+        static ref IF: Regex = nexsys_regex(r"\A[ \t]*if ");
+        static ref ELSE: Regex = nexsys_regex(r"(?m)^[ \t]*else:$");
+        static ref END: Regex = nexsys_regex(r"(?m)^[ \t]*end\z");
+    }
+
+    // The keywords are only keywords at the start of a line, not within names
+    let mut args = IF.replace_all(cndl, "if(").to_string(); // make start of function call
+    args = ELSE.replace_all(&args, ":").to_string();        // delimit arguments
+    args = END.replace_all(&args, ")").to_string()          // close function call
+    .replace([' ', '\t', '\n'], "")   // strip whitespace
+    .replace(':',   ",");       // delimit arguments
+
+    //if(a<b,a-b=1,b-a=1)
+    // println!("SUBBED TOKENS: {}", args);
+
+    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
+        return Err(ConditionFormatError::ConditionalSyntax.into())
+    }
+
+    // replace conditional sign with f64 code number
+    if args.contains("==") {args = args.replace("==", ",1.0,");} 
+    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
+    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
+    if args.contains('<') {
+
+        if args.contains("=<") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('<',  ",4.0,");
+        
+    } 
+    if args.contains('>') {
+        
+        if args.contains("=>") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('>',  ",5.0,");
+                
+    } 
+    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
+
+    // println!("FINAL: {}", args);
+    // Conditional statement reformatted as function call
+    // This allows us to use `better` notation to call a function via meval
+    Ok(args + " = 0")
+}
+
+/// Identifies and returns conditional statements found in a Nexsys-legal string.
+pub fn conditionals(text: &str) -> anyhow::Result<String> {
+    lazy_static!{
+        static ref RE: Regex = nexsys_regex(            
+r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+^.*$
+^[ \t]*else:$
+^.*$
+^[ \t]*end"#
+        );
+    }
+    let mut output = text.to_string();
+    
+    loop {
+        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
+        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
+
+        // println!("{cdls:#?}");
+    
+        for raw in &cdls {
+    
+            let mut rows = raw
+                .split('\n')
+                .map(|i| i.to_string())
+                .collect::<Vec<String>>();
+    
+            // println!("{rows:#?}");
+    
+            for r in [1,3] {
+                if rows[r].contains('=') {
+                    let terms = rows[r].split('=').collect::<Vec<&str>>();
+                    if terms[1].replace(' ',"") == 0.to_string() {
+                        rows[r] = terms[0].to_string();
+                    } else {
+                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
+                    }
+                }
+            }
+            
+            let fmt_eqns = rows.join("\n");
+    
+            // println!("{}", fmt_eqns);
+    
+            let fmtd = &format_conditional(&fmt_eqns)?;
+    
+            output = output.replace(raw, fmtd);
+        }
+
+        if cdls.is_empty() { break } // keep going until there are no if statement matches left
+    }
+    
+    Ok(output)
+}
+
+/// Testing for non-public macros
+#[cfg(test)]
+mod test {
+
+    /// Tests the `contains_any!` macro
+    #[test]
+    fn test_contains_any_macro() {
+        assert_eq!(
+            contains_any!("test_string", "a", "b", "c"), 
+            false  
+        );
+
+        assert_eq!(
+            !(contains_any!("test_string", "a", "b", "c")),
+            true
+        );
+
+        assert_eq!(
+            contains_any!("test_string", "t", "b", "c"),
+            true
+        );
+    } 
+    
+    /// Additional testing for how the `contains_any!` macro works
+    #[test]
+    fn buggy_case() {
+        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
+            panic!()
+        }
+    }
+    
 }
\ No newline at end of file
diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 1b78bed..ac376f5 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -1,227 +1,227 @@
-mod conditionals;
-// mod duplicate; TODO: need to polish this up.
-
-use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
-use lazy_static::lazy_static;
-use regex::Regex;
-use std::collections::HashMap;
-use crate::{units::{convert, const_data}, errors::ConstFormatError};
-
-pub use conditionals::*;
-
-const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
-
-/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
-fn nexsys_regex(pattern: &str) -> Regex
-{
-    Regex::new(&pattern
-        .replace("@N", LEGAL_NUM_PATTERN)
-        .replace("@V", LEGAL_VAR_PATTERN)
-    ).unwrap()
-}
-
-/// Identifies and returns guess values found in a Nexsys-legal string.
-pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
-    }
-    // Remove whole declarations only, not the start of one for a longer name
-    let mut res = (RE.replace_all(text, "").to_string(), HashMap::new());
-    let guesses = RE.captures_iter(text);
-
-    for g in guesses 
-    {
-        res.1.insert(
-            g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().replace(' ', "").parse()
-                .expect("failed to parse number in guess declaration")
-        );
-    }
-    res
-}
-
-/// Identifies and returns domains found in a Nexsys-legal string.
-pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let domains = RE.captures_iter(text);
-
-    for d in domains 
-    {
-        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().replace(' ', "").parse()
-                .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().replace(' ', "").parse()
-                .expect("failed to parse second number in domain declaration")]
-        );
-    }
-    res
-}
-
-/// Identifies and removes comments found in a Nexsys-legal string.
-pub fn comments(text: &str) -> String 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
-    }
-    RE.replace_all(text, "").to_string()
-}
-
-/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-pub fn conversions(text: &str) -> anyhow::Result<String> {
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
-    }
-
-    let mut output = text.to_string();
-
-    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
-
-    for m in res 
-    {
-        let pre = m.replace(['[', ']'], "");
-        
-        let args: Vec<&str> = pre.split("->").collect();
-        
-        output = output.replace(m, 
-            &format!("{}", convert(args[0], args[1])? )
-        );
-    }
-
-    Ok(output)
-}
-
-/// Identifies and replaces any constants in a Nexsys-legal string.
-pub fn consts(text: &str) -> anyhow::Result<String> 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_][a-z0-9_]*");
-        static ref CONSTS: HashMap<String, f64> = const_data();
-    }
-
-    let mut output = String::new();
-    let mut end = 0;
-
-    for m in RE.find_iter(text) 
-    {
-        if let Some(c) = CONSTS.get(m.as_str()) 
-        {
-            output += &text[end..m.start()];
-            // The exponent applies to all of a negative constant, not just its digits
-            if *c < 0.0 && text[m.end()..].trim_start().starts_with('^')
-            {
-                output += &format!("({c})");
-            }
-            else
-            {
-                output += &c.to_string();
-            }
-            end = m.end();
-        } 
-        else 
-        {
-            return Err(ConstFormatError.into())
-        }
-    }
-    Ok(output + &text[end..])
-}
-
-pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let const_vals = RE.captures_iter(text);
-
-    for c in const_vals
-    {
-        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            c.get(1).unwrap().as_str().to_owned(), 
-            eval_str(c.get(2).unwrap().as_str())?
-        );
-    }
-    Ok(res)
-}
-
-/// Wraps most functions in `nexsys::parsing`, returning either an error that 
-/// prevents the code from being solvable or the intermediate language representation
-/// of the `.nxs`-formatted code.
-/// 
-/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
-pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
-{    
-    let sys_domains: HashMap<String, [f64; 2]>;
-    let sys_guesses: HashMap<String, f64>;
-    let sys_consts:  HashMap<String, f64>;
-    
-    let mut nil = comments(code); 
-
-    // Copy-paste all common engineering constants (this happens first so users can rename constants)
-    nil = consts(&nil)?;
-
-    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
-    nil = conversions(&nil)?;
-
-    // Set all constants used in the solution
-    (nil, sys_consts) = const_values(&nil)?;
-    for (var, val) in sys_consts
-    {
-        ctx.add_const_to_ctx(&var, val);
-    }
-
-    // Set all domains for variables in the solution
-    (nil, sys_domains) = domains(&nil);
-    for (var, bounds) in sys_domains
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[1] = bounds[0];
-            var_info[2] = bounds[1];
-        }
-        else 
-        {
-            declared.insert(var, [1.0, bounds[0], bounds[1]]);
-        }
-    }
-
-    // Set all initial guesses for variables in the solution
-    (nil, sys_guesses) = guess_values(&nil);
-    for (var, guess) in sys_guesses
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[0] = guess;
-        }
-        else 
-        {
-            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
-        }
-    }
-
-    // Blank lines and trailing spaces, e.g. those left behind above, do not break up conditional statements
-    nil = nil.lines()
-        .map(|line| line.trim_end())
-        .filter(|line| !line.is_empty())
-        .collect::<Vec<&str>>()
-        .join("\n");
-
-    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
-    nil = conditionals(&nil)?;
-
-    Ok(nil)
+mod conditionals;
+// mod duplicate; TODO: need to polish this up.
+
+use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
+use lazy_static::lazy_static;
+use regex::Regex;
+use std::collections::HashMap;
+use crate::{units::{convert, const_data}, errors::ConstFormatError};
+
+pub use conditionals::*;
+
+const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
+
+/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
+fn nexsys_regex(pattern: &str) -> Regex
+{
+    Regex::new(&pattern
+        .replace("@N", LEGAL_NUM_PATTERN)
+        .replace("@V", LEGAL_VAR_PATTERN)
+    ).unwrap()
+}
+
+/// Identifies and returns guess values found in a Nexsys-legal string.
+pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
+    }
+    // Remove whole declarations only, not the start of one for a longer name
+    let mut res = (RE.replace_all(text, "").to_string(), HashMap::new());
+    let guesses = RE.captures_iter(text);
+
+    for g in guesses 
+    {
+        res.1.insert(
+            g.get(2).unwrap().as_str().to_owned(), 
+            g.get(1).unwrap().as_str().replace(' ', "").parse()
+                .expect("failed to parse number in guess declaration")
+        );
+    }
+    res
+}
+
+/// Identifies and returns domains found in a Nexsys-legal string.
+pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let domains = RE.captures_iter(text);
+
+    for d in domains 
+    {
+        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            d.get(1).unwrap().as_str().to_owned(),
+            [d.get(2).unwrap().as_str().replace(' ', "").parse()
+                .expect("failed to parse first number in domain declaration"),
+            d.get(3).unwrap().as_str().replace(' ', "").parse()
+                .expect("failed to parse second number in domain declaration")]
+        );
+    }
+    res
+}
+
+/// Identifies and removes comments found in a Nexsys-legal string.
+pub fn comments(text: &str) -> String 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
+    }
+    RE.replace_all(text, "").to_string()
+}
+
+/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
+pub fn conversions(text: &str) -> anyhow::Result<String> {
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
+    }
+
+    let mut output = text.to_string();
+
+    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
+
+    for m in res 
+    {
+        let pre = m.replace(['[', ']'], "");
+        
+        let args: Vec<&str> = pre.split("->").collect();
+        
+        output = output.replace(m, 
+            &format!("{}", convert(args[0], args[1])? )
+        );
+    }
+
+    Ok(output)
+}
+
+/// Identifies and replaces any constants in a Nexsys-legal string.
+pub fn consts(text: &str) -> anyhow::Result<String> 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_][a-z0-9_]*");
+        static ref CONSTS: HashMap<String, f64> = const_data();
+    }
+
+    let mut output = String::new();
+    let mut end = 0;
+
+    for m in RE.find_iter(text) 
+    {
+        if let Some(c) = CONSTS.get(m.as_str()) 
+        {
+            output += &text[end..m.start()];
+            // The exponent applies to all of a negative constant, not just its digits
+            if *c < 0.0 && text[m.end()..].trim_start().starts_with('^')
+            {
+                output += &format!("({c})");
+            }
+            else
+            {
+                output += &c.to_string();
+            }
+            end = m.end();
+        } 
+        else 
+        {
+            return Err(ConstFormatError.into())
+        }
+    }
+    Ok(output + &text[end..])
+}
+
+pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let const_vals = RE.captures_iter(text);
+
+    for c in const_vals
+    {
+        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            c.get(1).unwrap().as_str().to_owned(), 
+            eval_str(c.get(2).unwrap().as_str())?
+        );
+    }
+    Ok(res)
+}
+
+/// Wraps most functions in `nexsys::parsing`, returning either an error that 
+/// prevents the code from being solvable or the intermediate language representation
+/// of the `.nxs`-formatted code.
+/// 
+/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
+pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
+{    
+    let sys_domains: HashMap<String, [f64; 2]>;
+    let sys_guesses: HashMap<String, f64>;
+    let sys_consts:  HashMap<String, f64>;
+    
+    let mut nil = comments(code); 
+
+    // Copy-paste all common engineering constants (this happens first so users can rename constants)
+    nil = consts(&nil)?;
+
+    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
+    nil = conversions(&nil)?;
+
+    // Set all constants used in the solution
+    (nil, sys_consts) = const_values(&nil)?;
+    for (var, val) in sys_consts
+    {
+        ctx.add_const_to_ctx(&var, val);
+    }
+
+    // Set all domains for variables in the solution
+    (nil, sys_domains) = domains(&nil);
+    for (var, bounds) in sys_domains
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[1] = bounds[0];
+            var_info[2] = bounds[1];
+        }
+        else 
+        {
+            declared.insert(var, [1.0, bounds[0], bounds[1]]);
+        }
+    }
+
+    // Set all initial guesses for variables in the solution
+    (nil, sys_guesses) = guess_values(&nil);
+    for (var, guess) in sys_guesses
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[0] = guess;
+        }
+        else 
+        {
+            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
+        }
+    }
+
+    // Blank lines and trailing spaces, e.g. those left behind above, do not break up conditional statements
+    nil = nil.lines()
+        .map(|line| line.trim_end())
+        .filter(|line| !line.is_empty())
+        .collect::<Vec<&str>>()
+        .join("\n");
+
+    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
+    nil = conditionals(&nil)?;
+
+    Ok(nil)
 }
\ No newline at end of file
diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index d175f83..b09636b 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -1,164 +1,164 @@
-use lazy_static::lazy_static;
-use serde_json::{Value, from_str};
-use std::collections::HashMap;
-
-use crate::errors::UnitConversionError;
-
-/// Handles generating additional units for various combinations of other units
-fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
-    
-    let mut temp = HashMap::new();
-    
-    for i in &data[&num.to_string()] {
-    
-        for j in &data[&denom.to_string()] {
-    
-            temp.insert(
-                format!("{}/{}", i.0, j.0),
-                *i.1 / *j.1
-            );
-        
-        }
-    
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    if fc1 == fc2 {
-        for i in &data[&fc1.to_string()] {
-            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
-        }
-    } else {
-        for i in &data[&fc1.to_string()] {
-            for j in &data[&fc2.to_string()] {
-                let val = *i.1 * *j.1;
-                temp.insert( format!("{}-{}", i.0, j.0), val);
-                temp.insert( format!("{}-{}", j.0, i.0), val);
-            }
-        }
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
-    }
-
-    if let Some(d) = data.get_mut("VOLUME") {
-        d.extend(temp.into_iter());
-    }
-    
-    data
-}
-
-/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
-
-    let raw_text = include_str!("units.json");
-    let err = "failed to parse json... is the formatting of 'units.json' correct?";
-    
-    // again I ask, lord forgive me for what I am about to do...
-    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| (
-            i.0.to_string(), 
-            i.1.as_object().expect(err).into_iter()
-            .map(
-                |j| (
-                    j.0.to_string(), 
-                    j.1.as_f64().expect(err)
-                )
-            ).collect()
-        )
-    ).collect();
-
-    dejson
-}
-
-/// Generates a more complete set of unit conversion data by combining different units to create other common units.
-pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
-    let mut data = raw_unit_data();
-    data.insert("SPRING FORCE".to_string(), HashMap::new());
-
-    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
-    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
-    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
-    data =    generate_volume_units(data);
-
-
-    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
-    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
-    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
-    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
-    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
-    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
-
-    data
-}
-
-/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
-pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
-    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
-        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
-    }
-
-    let cf: Vec<f64> = UD.iter()
-    .filter(|&i| { 
-        let qty = UD.get(i.0).unwrap().clone();
-        qty.contains_key(fro) && qty.contains_key(to)
-    }).map(|i| {
-        i.1[fro] / i.1[to]
-    }).collect();
-
-    if cf.len() != 1 {
-        return Err(UnitConversionError.into())
-    }
-
-    Ok(cf[0])
-}
-
-/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn const_data() -> HashMap<String, f64> {
-
-    let raw_text = include_str!("consts.json");
-    let err = "failed to parse json... is the formatting of consts.json correct?";
-    
-    // thankfully this isn't as bad as reading units.json
-    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| {
-            let err = format!("failed to parse json: {:#?}", i.1);
-            let c1 = i.1.as_array().expect(&err);
-
-            let err = format!("failed to parse json: {:#?}", c1[1]);
-            let c2 = match c1[1].as_f64() {
-                Some(c) => c,
-                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
-            };
-
-            (i.0.to_string(), c2)
-
-    }).collect();
-
-    dejson
+use lazy_static::lazy_static;
+use serde_json::{Value, from_str};
+use std::collections::HashMap;
+
+use crate::errors::UnitConversionError;
+
+/// Handles generating additional units for various combinations of other units
+fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
+    
+    let mut temp = HashMap::new();
+    
+    for i in &data[&num.to_string()] {
+    
+        for j in &data[&denom.to_string()] {
+    
+            temp.insert(
+                format!("{}/{}", i.0, j.0),
+                *i.1 / *j.1
+            );
+        
+        }
+    
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    if fc1 == fc2 {
+        for i in &data[&fc1.to_string()] {
+            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
+        }
+    } else {
+        for i in &data[&fc1.to_string()] {
+            for j in &data[&fc2.to_string()] {
+                let val = *i.1 * *j.1;
+                temp.insert( format!("{}-{}", i.0, j.0), val);
+                temp.insert( format!("{}-{}", j.0, i.0), val);
+            }
+        }
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    for i in &data[&"LENGTH".to_string()] {
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
+    }
+
+    if let Some(d) = data.get_mut("VOLUME") {
+        d.extend(temp.into_iter());
+    }
+    
+    data
+}
+
+/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
+
+    let raw_text = include_str!("units.json");
+    let err = "failed to parse json... is the formatting of 'units.json' correct?";
+    
+    // again I ask, lord forgive me for what I am about to do...
+    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| (
+            i.0.to_string(), 
+            i.1.as_object().expect(err).into_iter()
+            .map(
+                |j| (
+                    j.0.to_string(), 
+                    j.1.as_f64().expect(err)
+                )
+            ).collect()
+        )
+    ).collect();
+
+    dejson
+}
+
+/// Generates a more complete set of unit conversion data by combining different units to create other common units.
+pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
+    let mut data = raw_unit_data();
+    data.insert("SPRING FORCE".to_string(), HashMap::new());
+
+    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
+    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
+    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
+    data =    generate_volume_units(data);
+
+
+    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
+    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
+    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
+    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
+    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
+    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
+
+    data
+}
+
+/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
+pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
+    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
+        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
+    }
+
+    let cf: Vec<f64> = UD.iter()
+    .filter(|&i| { 
+        let qty = UD.get(i.0).unwrap().clone();
+        qty.contains_key(fro) && qty.contains_key(to)
+    }).map(|i| {
+        i.1[fro] / i.1[to]
+    }).collect();
+
+    if cf.len() != 1 {
+        return Err(UnitConversionError.into())
+    }
+
+    Ok(cf[0])
+}
+
+/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn const_data() -> HashMap<String, f64> {
+
+    let raw_text = include_str!("consts.json");
+    let err = "failed to parse json... is the formatting of consts.json correct?";
+    
+    // thankfully this isn't as bad as reading units.json
+    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| {
+            let err = format!("failed to parse json: {:#?}", i.1);
+            let c1 = i.1.as_array().expect(&err);
+
+            let err = format!("failed to parse json: {:#?}", c1[1]);
+            let c2 = match c1[1].as_f64() {
+                Some(c) => c,
+                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
+            };
+
+            (i.0.to_string(), c2)
+
+    }).collect();
+
+    dejson
 }
\ No newline at end of file
diff --git a/nexsys/src/units/units.json b/nexsys/src/units/units.json
index 478b720..9afc3b4 100644
--- a/nexsys/src/units/units.json
+++ b/nexsys/src/units/units.json
@@ -1,320 +1,320 @@
-{
-    "LENGTH": {
-        "m": 1.0,
-        "meter": 1.0,
-        "metre": 1.0,
-        "Angstrom": 1e-10,
-        "nm": 1e-09,
-        "ft": 0.3048,
-        "dm": 0.1,
-        "in": 0.0254,
-        "inch": 0.0254,
-        "mm": 0.001,
-        "micron": 1e-06,
-        "micrometer": 1e-06,
-        "\u00c2\u00b5m": 1e-06,
-        "nanometer": 1e-09,
-        "millimeter": 0.001,
-        "cm": 0.01,
-        "km": 1000.0,
-        "yd": 0.9144,
-        "yard": 0.9144,
-        "mi": 1609.344,
-        "mile": 1609.344,
-        "miles": 1609.344,
-        "fathom": 1.8288,
-        "mil": 2.54e-05,
-        "rod": 5.0292,
-        "furlong": 201.168,
-        "league": 5556.0,
-        "hectometer": 100.0
-    },
-    "MASS": {
-        "kg": 1.0,
-        "lbm": 0.453592374,
-        "lb_m": 0.453592374,
-        "g": 0.001,
-        "ton": 907.184749,
-        "grain": 6.4799e-05,
-        "mg": 1e-06,
-        "oz": 0.028349523,
-        "ozm": 0.028349523,
-        "slug": 14.593881,
-        "stone": 6.350293236,
-        "amu": 1.660531e-27,
-        "\u00c2\u00b5g": 1e-09,
-        "microgram": 1e-09,
-        "mt": 1000.0,
-        "tonne": 1000.0
-    },
-    "MOLES": {
-        "kgmole": 1.0,
-        "kgmol": 1.0,
-        "kmole": 1.0,
-        "kmol": 1.0,
-        "lbmole": 0.453592374,
-        "lbmol": 0.453592374,
-        "gmole": 0.001,
-        "gmol": 0.001,
-        "mole": 0.001,
-        "mol": 0.001
-    },
-    "TIME": {
-        "s": 1.0,
-        "sec": 1.0,
-        "second": 1.0,
-        "min": 60.0,
-        "minute": 60.0,
-        "h": 3600.0,
-        "hr": 3600.0,
-        "hour": 3600.0,
-        "day": 86400.0,
-        "days": 86400.0,
-        "week": 604800.0,
-        "weeks": 604800.0,
-        "fortnight": 1209600.0,
-        "year": 31556952.0,
-        "yr": 31556952.0,
-        "years": 31556952.0,
-        "millisec": 0.001,
-        "\u00c2\u00b5sec": 1e-06,
-        "microsec": 1e-06
-    },
-    "FREQUENCY": {
-        "cps": 1.0,
-        "cpm": 0.016666667,
-        "Bq": 1.0,
-        "ci": 37000000000.0,
-        "Hz": 1.0
-    },
-    "TEMPERATURE": {
-        "K": 1.0,
-        "C": 1.0,
-        "R": 0.55555556,
-        "F": 0.55555556,
-        "\u00c2\u00b0C": 1.0,
-        "\u00c2\u00b0F": 0.55555556
-    },
-    "TEMP. DIFFERENCE": {
-        "DELTAK": 1.0,
-        "DELTAC": 1.0,
-        "DELTAF": 0.55555556,
-        "DELTAR": 0.55555556
-    },
-    "VELOCITY": {
-        "mph": 0.44704,
-        "knot": 0.51444,
-        "m/s": 1.0,
-        "km/s": 0.001,
-        "ft/s": 0.3048,
-        "kph": 0.2777778,
-        "km/h": 0.2777778
-    },
-    "AREA": {
-        "sqm": 1.0,
-        "sqcm": 0.0001,
-        "sqft": 0.09290304,
-        "sqin": 0.00064516,
-        "acre": 4046.856,
-        "hectare": 10000.0,
-        "barn": 1e-28
-    },
-    "VOLUME": {
-        "gal": 0.0037854118,
-        "gallon": 0.0037854118,
-        "l": 0.001,
-        "L": 0.001,
-        "Bu": 0.03523907016688,
-        "ml": 1e-06,
-        "milliliter": 1e-06,
-        "\u00c2\u00b5l": 1e-09,
-        "microliter": 1e-09,
-        "liter": 0.001,
-        "quart": 0.0009463264,
-        "oz": 2.9572702e-05,
-        "ozv": 2.9572702e-05,
-        "pint": 0.000473163,
-        "bbl": 0.1589873
-    },
-    "VOLUMETRIC FLOW": {
-        "cfm": 0.00047194744,
-        "gph": 1.051503e-06,
-        "gpm": 6.30902e-05
-    },
-    "FORCE": {
-        "N": 1.0,
-        "kN": 1000.0,
-        "lbf": 4.448222,
-        "lb_f": 4.448222,
-        "dyne": 1e-05,
-        "kgf": 9.80665,
-        "kg_f": 9.80665
-    },
-    "PRESSURE": {
-        "Pa": 1.0,
-        "milliPa": 0.001,
-        "microPa": 1e-06,
-        "\u00c2\u00b5Pa": 1e-06,
-        "kPa": 1000.0,
-        "MPa": 1000000.0,
-        "GPa": 1000000000.0,
-        "gigaPa": 1000000000.0,
-        "bar": 100000.0,
-        "milliBar": 100.0,
-        "atm": 101325.0,
-        "psia": 6894.75788958,
-        "psi": 6894.75788958,
-        "ksi": 6894757.88958,
-        "psig": 6894.75788958,
-        "psf": 47.88055555,
-        "mmH2O": 9.80665,
-        "mH2O": 9806.65,
-        "mmHg": 133.3224,
-        "inHg": 3386.388,
-        "torr": 133.3224,
-        "inH2O": 249.088,
-        "in.H2O": 249.088,
-        "ftH2O": 2989.057
-    },
-    "ENERGY": {
-        "J": 1.0,
-        "milliJ": 0.001,
-        "kJ": 1000.0,
-        "MJ": 1000000.0,
-        "Wh": 3600.0,
-        "Whr": 3600.0,
-        "kWh": 3600000.0,
-        "kWhr": 3600000.0,
-        "MWh": 3600000000.0,
-        "MWhr": 3600000000.0,
-        "GWh": 3600000000000.0,
-        "GWhr": 3600000000000.0,
-        "GJ": 1000000000.0,
-        "Btu": 1055.056,
-        "MBtu": 1055056000.0,
-        "MMBtu": 1055056000.0,
-        "kBtu": 1055056.0,
-        "cal": 4.1868,
-        "kcal": 4186.8,
-        "erg": 1e-07,
-        "ev": 1.60207e-19,
-        "eV": 1.60207e-19,
-        "keV": 1.60207e-16,
-        "kev": 1.60207e-16,
-        "mev": 1.60207e-13,
-        "meV": 1.60207e-13,
-        "bev": 1.60207e-10,
-        "beV": 1.60207e-10,
-        "therm": 105505600.0,
-        "therms": 105505600.0,
-        "quad": 1.055056e+18,
-        "quads": 1.055056e+18
-    },
-    "POWER": {
-        "W": 1.0,
-        "hp": 745.7,
-        "ton": 3516.852,
-        "tons": 3516.852,
-        "microW": 1e-06,
-        "milliW": 0.001,
-        "kW": 1000.0,
-        "MW": 1000000.0,
-        "MegaW": 1000000.0,
-        "gW": 1000000000.0,
-        "gigaW": 1000000000.0
-    },
-    "VISCOSITY-DYNAMIC": {
-        "poise": 0.1,
-        "centipoise": 0.001,
-        "micropoise": 1e-07,
-        "cp": 0.001,
-        "Reyn": 6894.7
-    },
-    "VISCOSITY-KINEMATIC": {
-        "Stoke": 0.0001,
-        "centiStoke": 1e-06
-    },
-    "ANGLES": {
-        "radian": 1.0,
-        "radians": 1.0,
-        "rad": 1.0,
-        "deg": 0.017453293,
-        "degree": 0.017453293,
-        "degrees": 0.017453293,
-        "\u00c2\u00b0": 0.017453293,
-        "rev": 6.28318530718,
-        "revs": 6.28318530718,
-        "revolutions": 6.28318530718,
-        "minute": 0.000290888,
-        "quadrant": 1.5707963,
-        "cycle": 6.28318530718,
-        "cycles": 6.28318530718
-    },
-    "CHARGE": {
-        "Coulomb": 1.0,
-        "Faraday": 96517.844,
-        "Abcoulomb": 10.0
-    },
-    "ELECTRICAL CAPACITANCE": {
-        "Farad": 1.0,
-        "pFarad": 1e-12,
-        "pF": 1e-12
-    },
-    "DIPOLE MOMENT": {
-        "Debye": 3.33564e-30
-    },
-    "CURRENT": {
-        "Amp": 1.0,
-        "Ampere": 1.0,
-        "A": 1.0
-    },
-    "ELECTRICAL RESISTANCE": {
-        "ohm": 1.0,
-        "kohm": 1000.0
-    },
-    "ELECTROMOTIVE FORCE": {
-        "Volt": 1.0,
-        "millivolt": 0.001,
-        "kV": 1000.0,
-        "MegaVolt": 1000000.0,
-        "v": 1.0
-    },
-    "INDUCTANCE": {
-        "Henry": 1.0
-    },
-    "NON DIMENSIONAL": {
-        "-": 1.0,
-        "space": 1.0,
-        "Percent": 0.01,
-        "%": 0.01,
-        "person": 1.0,
-        "persons": 1.0,
-        "ppm": 1e-06,
-        "ppb": 1e-09,
-        "any": 1.0
-    },
-    "MAGNETIC FLUX DENSITY": {
-        "Gauss": 0.0001,
-        "G": 0.0001,
-        "Tesla": 1.0,
-        "T": 1.0
-    },
-    "MAGNETIC FLUX": {
-        "Maxwell": 1e-08,
-        "Mx": 1e-08,
-        "Weber": 1.0,
-        "Wb": 1.0
-    },
-    "MAGNETIC FIELD STRENGTH": {
-        "Oersted": 79.5774715459,
-        "Oe": 79.5774715459
-    },
-    "ILLUMINANCE": {
-        "lm": 1.0
-    },
-    "ILLUMINANCE FLUX": {
-        "lux": 1.0,
-        "ftcndl": 10.763910417,
-        "mcndl": 1.0
-    }
+{
+    "LENGTH": {
+        "m": 1.0,
+        "meter": 1.0,
+        "metre": 1.0,
+        "Angstrom": 1e-10,
+        "nm": 1e-09,
+        "ft": 0.3048,
+        "dm": 0.1,
+        "in": 0.0254,
+        "inch": 0.0254,
+        "mm": 0.001,
+        "micron": 1e-06,
+        "micrometer": 1e-06,
+        "\u00c2\u00b5m": 1e-06,
+        "nanometer": 1e-09,
+        "millimeter": 0.001,
+        "cm": 0.01,
+        "km": 1000.0,
+        "yd": 0.9144,
+        "yard": 0.9144,
+        "mi": 1609.344,
+        "mile": 1609.344,
+        "miles": 1609.344,
+        "fathom": 1.8288,
+        "mil": 2.54e-05,
+        "rod": 5.0292,
+        "furlong": 201.168,
+        "league": 5556.0,
+        "hectometer": 100.0
+    },
+    "MASS": {
+        "kg": 1.0,
+        "lbm": 0.453592374,
+        "lb_m": 0.453592374,
+        "g": 0.001,
+        "ton": 907.184749,
+        "grain": 6.4799e-05,
+        "mg": 1e-06,
+        "oz": 0.028349523,
+        "ozm": 0.028349523,
+        "slug": 14.593881,
+        "stone": 6.350293236,
+        "amu": 1.660531e-27,
+        "\u00c2\u00b5g": 1e-09,
+        "microgram": 1e-09,
+        "mt": 1000.0,
+        "tonne": 1000.0
+    },
+    "MOLES": {
+        "kgmole": 1.0,
+        "kgmol": 1.0,
+        "kmole": 1.0,
+        "kmol": 1.0,
+        "lbmole": 0.453592374,
+        "lbmol": 0.453592374,
+        "gmole": 0.001,
+        "gmol": 0.001,
+        "mole": 0.001,
+        "mol": 0.001
+    },
+    "TIME": {
+        "s": 1.0,
+        "sec": 1.0,
+        "second": 1.0,
+        "min": 60.0,
+        "minute": 60.0,
+        "h": 3600.0,
+        "hr": 3600.0,
+        "hour": 3600.0,
+        "day": 86400.0,
+        "days": 86400.0,
+        "week": 604800.0,
+        "weeks": 604800.0,
+        "fortnight": 1209600.0,
+        "year": 31556952.0,
+        "yr": 31556952.0,
+        "years": 31556952.0,
+        "millisec": 0.001,
+        "\u00c2\u00b5sec": 1e-06,
+        "microsec": 1e-06
+    },
+    "FREQUENCY": {
+        "cps": 1.0,
+        "cpm": 0.016666667,
+        "Bq": 1.0,
+        "ci": 37000000000.0,
+        "Hz": 1.0
+    },
+    "TEMPERATURE": {
+        "K": 1.0,
+        "C": 1.0,
+        "R": 0.55555556,
+        "F": 0.55555556,
+        "\u00c2\u00b0C": 1.0,
+        "\u00c2\u00b0F": 0.55555556
+    },
+    "TEMP. DIFFERENCE": {
+        "DELTAK": 1.0,
+        "DELTAC": 1.0,
+        "DELTAF": 0.55555556,
+        "DELTAR": 0.55555556
+    },
+    "VELOCITY": {
+        "mph": 0.44704,
+        "knot": 0.51444,
+        "m/s": 1.0,
+        "km/s": 0.001,
+        "ft/s": 0.3048,
+        "kph": 0.2777778,
+        "km/h": 0.2777778
+    },
+    "AREA": {
+        "sqm": 1.0,
+        "sqcm": 0.0001,
+        "sqft": 0.09290304,
+        "sqin": 0.00064516,
+        "acre": 4046.856,
+        "hectare": 10000.0,
+        "barn": 1e-28
+    },
+    "VOLUME": {
+        "gal": 0.0037854118,
+        "gallon": 0.0037854118,
+        "l": 0.001,
+        "L": 0.001,
+        "Bu": 0.03523907016688,
+        "ml": 1e-06,
+        "milliliter": 1e-06,
+        "\u00c2\u00b5l": 1e-09,
+        "microliter": 1e-09,
+        "liter": 0.001,
+        "quart": 0.0009463264,
+        "oz": 2.9572702e-05,
+        "ozv": 2.9572702e-05,
+        "pint": 0.000473163,
+        "bbl": 0.1589873
+    },
+    "VOLUMETRIC FLOW": {
+        "cfm": 0.00047194744,
+        "gph": 1.051503e-06,
+        "gpm": 6.30902e-05
+    },
+    "FORCE": {
+        "N": 1.0,
+        "kN": 1000.0,
+        "lbf": 4.448222,
+        "lb_f": 4.448222,
+        "dyne": 1e-05,
+        "kgf": 9.80665,
+        "kg_f": 9.80665
+    },
+    "PRESSURE": {
+        "Pa": 1.0,
+        "milliPa": 0.001,
+        "microPa": 1e-06,
+        "\u00c2\u00b5Pa": 1e-06,
+        "kPa": 1000.0,
+        "MPa": 1000000.0,
+        "GPa": 1000000000.0,
+        "gigaPa": 1000000000.0,
+        "bar": 100000.0,
+        "milliBar": 100.0,
+        "atm": 101325.0,
+        "psia": 6894.75788958,
+        "psi": 6894.75788958,
+        "ksi": 6894757.88958,
+        "psig": 6894.75788958,
+        "psf": 47.88055555,
+        "mmH2O": 9.80665,
+        "mH2O": 9806.65,
+        "mmHg": 133.3224,
+        "inHg": 3386.388,
+        "torr": 133.3224,
+        "inH2O": 249.088,
+        "in.H2O": 249.088,
+        "ftH2O": 2989.057
+    },
+    "ENERGY": {
+        "J": 1.0,
+        "milliJ": 0.001,
+        "kJ": 1000.0,
+        "MJ": 1000000.0,
+        "Wh": 3600.0,
+        "Whr": 3600.0,
+        "kWh": 3600000.0,
+        "kWhr": 3600000.0,
+        "MWh": 3600000000.0,
+        "MWhr": 3600000000.0,
+        "GWh": 3600000000000.0,
+        "GWhr": 3600000000000.0,
+        "GJ": 1000000000.0,
+        "Btu": 1055.056,
+        "MBtu": 1055056000.0,
+        "MMBtu": 1055056000.0,
+        "kBtu": 1055056.0,
+        "cal": 4.1868,
+        "kcal": 4186.8,
+        "erg": 1e-07,
+        "ev": 1.60207e-19,
+        "eV": 1.60207e-19,
+        "keV": 1.60207e-16,
+        "kev": 1.60207e-16,
+        "mev": 1.60207e-13,
+        "meV": 1.60207e-13,
+        "bev": 1.60207e-10,
+        "beV": 1.60207e-10,
+        "therm": 105505600.0,
+        "therms": 105505600.0,
+        "quad": 1.055056e+18,
+        "quads": 1.055056e+18
+    },
+    "POWER": {
+        "W": 1.0,
+        "hp": 745.7,
+        "ton": 3516.852,
+        "tons": 3516.852,
+        "microW": 1e-06,
+        "milliW": 0.001,
+        "kW": 1000.0,
+        "MW": 1000000.0,
+        "MegaW": 1000000.0,
+        "gW": 1000000000.0,
+        "gigaW": 1000000000.0
+    },
+    "VISCOSITY-DYNAMIC": {
+        "poise": 0.1,
+        "centipoise": 0.001,
+        "micropoise": 1e-07,
+        "cp": 0.001,
+        "Reyn": 6894.7
+    },
+    "VISCOSITY-KINEMATIC": {
+        "Stoke": 0.0001,
+        "centiStoke": 1e-06
+    },
+    "ANGLES": {
+        "radian": 1.0,
+        "radians": 1.0,
+        "rad": 1.0,
+        "deg": 0.017453293,
+        "degree": 0.017453293,
+        "degrees": 0.017453293,
+        "\u00c2\u00b0": 0.017453293,
+        "rev": 6.28318530718,
+        "revs": 6.28318530718,
+        "revolutions": 6.28318530718,
+        "minute": 0.000290888,
+        "quadrant": 1.5707963,
+        "cycle": 6.28318530718,
+        "cycles": 6.28318530718
+    },
+    "CHARGE": {
+        "Coulomb": 1.0,
+        "Faraday": 96517.844,
+        "Abcoulomb": 10.0
+    },
+    "ELECTRICAL CAPACITANCE": {
+        "Farad": 1.0,
+        "pFarad": 1e-12,
+        "pF": 1e-12
+    },
+    "DIPOLE MOMENT": {
+        "Debye": 3.33564e-30
+    },
+    "CURRENT": {
+        "Amp": 1.0,
+        "Ampere": 1.0,
+        "A": 1.0
+    },
+    "ELECTRICAL RESISTANCE": {
+        "ohm": 1.0,
+        "kohm": 1000.0
+    },
+    "ELECTROMOTIVE FORCE": {
+        "Volt": 1.0,
+        "millivolt": 0.001,
+        "kV": 1000.0,
+        "MegaVolt": 1000000.0,
+        "v": 1.0
+    },
+    "INDUCTANCE": {
+        "Henry": 1.0
+    },
+    "NON DIMENSIONAL": {
+        "-": 1.0,
+        "space": 1.0,
+        "Percent": 0.01,
+        "%": 0.01,
+        "person": 1.0,
+        "persons": 1.0,
+        "ppm": 1e-06,
+        "ppb": 1e-09,
+        "any": 1.0
+    },
+    "MAGNETIC FLUX DENSITY": {
+        "Gauss": 0.0001,
+        "G": 0.0001,
+        "Tesla": 1.0,
+        "T": 1.0
+    },
+    "MAGNETIC FLUX": {
+        "Maxwell": 1e-08,
+        "Mx": 1e-08,
+        "Weber": 1.0,
+        "Wb": 1.0
+    },
+    "MAGNETIC FIELD STRENGTH": {
+        "Oersted": 79.5774715459,
+        "Oe": 79.5774715459
+    },
+    "ILLUMINANCE": {
+        "lm": 1.0
+    },
+    "ILLUMINANCE FLUX": {
+        "lux": 1.0,
+        "ftcndl": 10.763910417,
+        "mcndl": 1.0
+    }
 }
\ No newline at end of file
-- 
2.43.0


From bf2d0912d541d0c755498c6a714eb9449ab5e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 49/78] fix: a declaration does not start inside a name that
 ends with its keyword

---
 nexsys/src/parsing/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index ac376f5..e013f37 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -26,7 +26,7 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
 {
     lazy_static!
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
+        static ref RE: Regex = nexsys_regex(r"(?i)\bguess +(@N) +for +(@V)");
     }
     // Remove whole declarations only, not the start of one for a longer name
     let mut res = (RE.replace_all(text, "").to_string(), HashMap::new());
@@ -48,7 +48,7 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
 {
     lazy_static!
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
+        static ref RE: Regex = nexsys_regex(r"(?i)\bkeep +(@V) +on +\[ *(@N), *(@N) *\]");
     }
     let mut res = (text.to_owned(), HashMap::new());
     let domains = RE.captures_iter(text);
@@ -142,7 +142,7 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
 {
     lazy_static!
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+        static ref RE: Regex = nexsys_regex(r"(?i)\bconst +(@V) *= *(@N)");
     }
     let mut res = (text.to_owned(), HashMap::new());
     let const_vals = RE.captures_iter(text);
-- 
2.43.0


From cd2340c0ab28d9c28c390c11544c1f144d31d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 50/78] fix: a name that starts with 'end' does not end a
 conditional

---
 nexsys/src/parsing/conditionals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index c61d927..49409af 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -71,7 +71,7 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
 ^.*$
 ^[ \t]*else:$
 ^.*$
-^[ \t]*end"#
+^[ \t]*end\b"#
         );
     }
     let mut output = text.to_string();
-- 
2.43.0


From 8fdc4713daae6b412418255ecffccf37a9f72610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:51 +0000
Subject: [PATCH 51/78] fix: whether sources can drive their nodes does not
 depend on the order of the elements

---
 neapolitan/src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 30eccfc..54c69f4 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -271,21 +271,35 @@ impl NodalAnalysisStudyBuilder
             node._metadata = node_data.metadata.clone();
         }
 
-        // Step 3 - build model 
-        for element_data in &self.model.elements
+        // Step 3 - build model. Elements at a locked node are built first, so that 
+        // the nodes driven by sources spread out from the nodes that are already fixed
+        let mut pending: Vec<usize> = (0..self.model.elements.len()).collect();
+        let mut built = HashMap::new();
+        while !pending.is_empty()
         {
-            let NodalAnalysisElement { element_type, input, output, gain } = element_data;
+            let next = pending.iter()
+                .position(|&i| {
+                    let NodalAnalysisElement { input, output, .. } = &self.model.elements[i];
+                    [input, output].into_iter()
+                        .filter_map(|&node| nodes.get(node))
+                        .any(|node| node.borrow().is_locked)
+                })
+                .unwrap_or(0);
+            let idx = pending.remove(next);
+
+            let NodalAnalysisElement { element_type, input, output, gain } = &self.model.elements[idx];
             let constructor = self.get_element_constructor(element_type)?;
             if *input >= nodes.len() || *output >= nodes.len()
             {
                 return Err(NodalAnalysisModellingError::NodeDoesNotExist.into());
             }
-            elements.push(constructor(
+            built.insert(idx, constructor(
                 Rc::downgrade(&nodes[*input]), 
                 Rc::downgrade(&nodes[*output]), 
                 gain.to_vec(),
             )?);
         }
+        elements.extend((0..built.len()).map(|idx| Rc::clone(&built[&idx])));
 
         // Step 4 - solve model
         let mut partials = vec![];
-- 
2.43.0


From 0c6c619863e486118004a64bfc713d402b787d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:29 +0000
Subject: [PATCH 52/78] fix: nxc accepts the --output-file option its usage
 text lists

---
 nexsys/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index fdeccd1..39d9607 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -74,7 +74,7 @@ OPTIONS:
                 }
             }
         }
-        if args[i] == *"--to-file" || args[i] == *"-o" {
+        if args[i] == *"--output-file" || args[i] == *"--to-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
             output_file = true;
         }
-- 
2.43.0


From 5ca0c0f8eaaba86cd3028655014fda017f691bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 53/78] fix: a large iteration limit overflowed the stack when
 the root finders did not converge

---
 geqslib/src/newton.rs | 173 +++++++++++++++++++++---------------------
 1 file changed, 85 insertions(+), 88 deletions(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index afa0d55..e8821ff 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -28,7 +28,7 @@ const _DX_: f64 = 0.001;
 /// 
 /// assert!((x - 0.0001).abs() < 0.001); // solution is APPROXIMATE. In this case, very close to 0.
 /// ```
-pub fn newton_raphson<E>(f: impl Fn(f64) -> Result<f64, E>, guess: f64, margin: f64, limit: usize) -> anyhow::Result<f64>
+pub fn newton_raphson<E>(f: impl Fn(f64) -> Result<f64, E>, mut guess: f64, margin: f64, limit: usize) -> anyhow::Result<f64>
 where anyhow::Error: From<E>
 {
     // Catch illegal margin of error
@@ -37,26 +37,24 @@ where anyhow::Error: From<E>
         return Err(NewtonRaphsonSolverError::NegativeMargin.into());
     }
 
-    // Allow user to manually prevent stack overflow
-    if limit == 0
+    // Allow user to limit the number of iterations
+    for _ in 0..limit
     {
-        return Err(NewtonRaphsonSolverError::ReachedIterationLimit.into());
-    }
+        let y = f(guess)?;
+        let y_prime = (f(guess + _DX_)? - y) / _DX_;
+        let delta = y / y_prime;
 
-    let y = f(guess)?;
-    let y_prime = (f(guess + _DX_)? - y) / _DX_;
-    let delta = y / y_prime;
+        // Check if we are sufficiently close to the solution:
+        if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
+        {
+            return Ok(guess); // ...if so, exit early
+        }
 
-    // Check if we are sufficiently close to the solution:
-    if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
-    {
-        return Ok(guess); // ...if so, exit early
+        // ...if not, calculate next iteration
+        guess -= delta;
     }
 
-    // ...if not, calculate next iteration
-    let next_guess = guess - delta;
-
-    newton_raphson(f, next_guess, margin, limit - 1)
+    Err(NewtonRaphsonSolverError::ReachedIterationLimit.into())
 }
 
 /// A basic implementation of the Newton-Raphson method for multivariate
@@ -110,91 +108,90 @@ where
         return Err(NewtonRaphsonSolverError::NegativeMargin.into());
     }
 
-    // Allow user to manually prevent stack overflow
-    if limit == 0
+    // Allow user to limit the number of iterations
+    for _ in 0..limit
     {
-        return Err(NewtonRaphsonSolverError::ReachedIterationLimit.into());
-    }
-
-    // Establish system size and ensure number of functions == number of vars
-    let n = f.len();
-    if guess.len() != n
-    {
-        return Err(NewtonRaphsonSolverError::ImproperlyConstrainedSystem.into());
-    }
+        // Establish system size and ensure number of functions == number of vars
+        let n = f.len();
+        if guess.len() != n
+        {
+            return Err(NewtonRaphsonSolverError::ImproperlyConstrainedSystem.into());
+        }
 
-    // A system without unknowns is already solved
-    if n == 0
-    {
-        return Ok(guess);
-    }
+        // A system without unknowns is already solved
+        if n == 0
+        {
+            return Ok(guess);
+        }
 
-    // Build jacobian w/ F(X) values... we will mutate them to F'(X) later
-    let mut elements = vec![];
-    for func in &f 
-    {
-        let row = &mut vec![func(guess)?; n];
-        elements.append(row);
-    }
-    let mut jacobian = Matrix::from_vec(n, elements)?; // <- should this be a panic on failure?
+        // Build jacobian w/ F(X) values... we will mutate them to F'(X) later
+        let mut elements = vec![];
+        for func in &f 
+        {
+            let row = &mut vec![func(guess)?; n];
+            elements.append(row);
+        }
+        let mut jacobian = Matrix::from_vec(n, elements)?; // <- should this be a panic on failure?
     
-    // Copy keys to iterate over hashmap
-    let vars = Vec::from_iter(
-        guess.keys().map(|x| x.to_owned())
-    );
+        // Copy keys to iterate over hashmap
+        let vars = Vec::from_iter(
+            guess.keys().map(|x| x.to_owned())
+        );
 
-    // Correct jacobian values and invert
-    for (j, var) in vars.iter().enumerate()
-    {
-        if let Some(v) = guess.get_mut(var)
+        // Correct jacobian values and invert
+        for (j, var) in vars.iter().enumerate()
         {
-            *v += _DX_;
-        } 
+            if let Some(v) = guess.get_mut(var)
+            {
+                *v += _DX_;
+            } 
+            for i in 0..n
+            {
+                // mutate values to partial derivatives
+                jacobian[(i, j)] = (f[i](guess)? - jacobian[(i, j)]) / _DX_;
+            }
+            if let Some(v) = guess.get_mut(var)
+            {
+                *v -= _DX_;
+            } 
+        }
+
+        jacobian.try_inplace_invert()?;
+
+        // Calculate current error
+        let mut y = vec![0.0; n];
         for i in 0..n
         {
-            // mutate values to partial derivatives
-            jacobian[(i, j)] = (f[i](guess)? - jacobian[(i, j)]) / _DX_;
+            y[i] = f[i](guess)?;
         }
-        if let Some(v) = guess.get_mut(var)
+        let error = y.iter()
+            .map(|v| v.powi(2))
+            .sum::<f64>()
+            .sqrt();
+
+        // Calculate change vector and its magnitude
+        let deltas = jacobian * Matrix::from_col_vec(y);
+        let change = deltas.iter()
+            .map(|d| d.powi(2))
+            .sum::<f64>()
+            .sqrt();
+
+        if error <= margin && change <= margin
         {
-            *v -= _DX_;
-        } 
-    }
-
-    jacobian.try_inplace_invert()?;
-
-    // Calculate current error
-    let mut y = vec![0.0; n];
-    for i in 0..n
-    {
-        y[i] = f[i](guess)?;
-    }
-    let error = y.iter()
-        .map(|v| v.powi(2))
-        .sum::<f64>()
-        .sqrt();
-
-    // Calculate change vector and its magnitude
-    let deltas = jacobian * Matrix::from_col_vec(y);
-    let change = deltas.iter()
-        .map(|d| d.powi(2))
-        .sum::<f64>()
-        .sqrt();
-
-    if error <= margin && change <= margin
-    {
-        return Ok(guess);
-    }
+            return Ok(guess);
+        }
 
-    // Build next guess vector
-    for (i, var) in vars.iter().enumerate().take(n)
-    {
-        if let (Some(guess_val), delta) = (guess.get_mut(var), deltas[(i, 0)])
+        // Build next guess vector
+        for (i, var) in vars.iter().enumerate().take(n)
         {
-            *guess_val -= delta;
+            if let (Some(guess_val), delta) = (guess.get_mut(var), deltas[(i, 0)])
+            {
+                *guess_val -= delta;
+            }
         }
+
+        // COMPUTER, ENHANCE!
     }
 
-    // COMPUTER, ENHANCE!
-    multivariate_newton_raphson(f, guess, margin, limit - 1)
+    Err(NewtonRaphsonSolverError::ReachedIterationLimit.into())
 }
\ No newline at end of file
-- 
2.43.0


From 290634d984198bce2be9f9764963159c516aa919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 54/78] fix: ids and classes of tags are escaped in the markup
 of the page

---
 ngineer_js/src/tagbuilder.ts    | 14 +++++++++++---
 ngineer_js/target/tagbuilder.js |  9 ++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/ngineer_js/src/tagbuilder.ts b/ngineer_js/src/tagbuilder.ts
index dad3f53..e673066 100644
--- a/ngineer_js/src/tagbuilder.ts
+++ b/ngineer_js/src/tagbuilder.ts
@@ -86,6 +86,14 @@ export interface DynTag
     children: TagGetter[],
 }
 
+/**
+ * Escapes text for use as the value of an attribute in single quotes
+ */
+function escapeAttribute(text: string): string
+{
+    return text.replace(/&/g, '&amp;').replace(/'/g, '&#39;');
+}
+
 /**
  * 
  */
@@ -124,14 +132,14 @@ export class TagBuilder
     setTagClass(tagClass: string): TagBuilder
     {
         this.tagClass = tagClass;
-        this.tagClassText = `class='${tagClass}'`;
+        this.tagClassText = ` class='${escapeAttribute(tagClass)}'`;
         return this;
     }
 
     setTagId(id: string)
     {
         this.tagId = id;
-        this.tagIdText = `id='${id}'`;
+        this.tagIdText = ` id='${escapeAttribute(id)}'`;
         return this;
     }
 
@@ -158,7 +166,7 @@ export class TagBuilder
     buildInto(parentTag: DynTag, append?: boolean): DynTag
     {
         const children: TagGetter[] = [];
-        let preview = `<${this.tagType} ${this.tagIdText}${this.tagClassText}>${this.tagContent}</${this.tagType}>`;
+        let preview = `<${this.tagType}${this.tagIdText}${this.tagClassText}>${this.tagContent}</${this.tagType}>`;
         let getter = () => {
             let maybeElem = document.getElementById(this.tagId);
             if (maybeElem === null)
diff --git a/ngineer_js/target/tagbuilder.js b/ngineer_js/target/tagbuilder.js
index 8b1b48a..fafac1d 100644
--- a/ngineer_js/target/tagbuilder.js
+++ b/ngineer_js/target/tagbuilder.js
@@ -19,6 +19,9 @@ var TagGetterError = (function () {
 var UNIQUE_ELEMENT_IDS = new Set();
 var LastGeneratedHtmlIdNumber = 0;
 ;
+function escapeAttribute(text) {
+    return text.replace(/&/g, '&amp;').replace(/'/g, '&#39;');
+}
 var TagBuilder = (function () {
     function TagBuilder(tagType) {
         this.tagType = tagType;
@@ -38,12 +41,12 @@ var TagBuilder = (function () {
     }
     TagBuilder.prototype.setTagClass = function (tagClass) {
         this.tagClass = tagClass;
-        this.tagClassText = "class='".concat(tagClass, "'");
+        this.tagClassText = " class='".concat(escapeAttribute(tagClass), "'");
         return this;
     };
     TagBuilder.prototype.setTagId = function (id) {
         this.tagId = id;
-        this.tagIdText = "id='".concat(id, "'");
+        this.tagIdText = " id='".concat(escapeAttribute(id), "'");
         return this;
     };
     TagBuilder.prototype.setTagContent = function (content) {
@@ -57,7 +60,7 @@ var TagBuilder = (function () {
     TagBuilder.prototype.buildInto = function (parentTag, append) {
         var _this = this;
         var children = [];
-        var preview = "<".concat(this.tagType, " ").concat(this.tagIdText).concat(this.tagClassText, ">").concat(this.tagContent, "</").concat(this.tagType, ">");
+        var preview = "<".concat(this.tagType).concat(this.tagIdText).concat(this.tagClassText, ">").concat(this.tagContent, "</").concat(this.tagType, ">");
         var getter = function () {
             var maybeElem = document.getElementById(_this.tagId);
             if (maybeElem === null) {
-- 
2.43.0


From 33f4ed7cdce3daa0912a6daa1dc41a7c70b0f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 55/78] fix: appending a tag leaves the parent's elements and
 their callbacks alone

---
 ngineer_js/src/tagbuilder.ts    | 10 ++++------
 ngineer_js/target/tagbuilder.js |  8 ++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/ngineer_js/src/tagbuilder.ts b/ngineer_js/src/tagbuilder.ts
index e673066..692a7db 100644
--- a/ngineer_js/src/tagbuilder.ts
+++ b/ngineer_js/src/tagbuilder.ts
@@ -191,13 +191,11 @@ export class TagBuilder
         if (append)
         {
             const el = parentTag.getter();
-            console.info(`refreshed element and children for: ${el.id}`);
-            el.innerHTML += preview;
+            console.info(`appended to element: ${el.id}`);
+            // Adding to the element's content leaves what it already holds, and
+            // its callbacks, alone
+            el.insertAdjacentHTML('beforeend', preview);
             parentTag.children.push(getter);
-            for (let childGetter of parentTag.children)
-            { 
-                childGetter(); // Re-initialize old tags
-            }
         }
         else
         {
diff --git a/ngineer_js/target/tagbuilder.js b/ngineer_js/target/tagbuilder.js
index fafac1d..419318a 100644
--- a/ngineer_js/target/tagbuilder.js
+++ b/ngineer_js/target/tagbuilder.js
@@ -79,13 +79,9 @@ var TagBuilder = (function () {
         UNIQUE_ELEMENT_IDS.add(this.tagId);
         if (append) {
             var el = parentTag.getter();
-            console.info("refreshed element and children for: ".concat(el.id));
-            el.innerHTML += preview;
+            console.info("appended to element: ".concat(el.id));
+            el.insertAdjacentHTML('beforeend', preview);
             parentTag.children.push(getter);
-            for (var _i = 0, _a = parentTag.children; _i < _a.length; _i++) {
-                var childGetter = _a[_i];
-                childGetter();
-            }
         }
         else {
             parentTag.getter().innerHTML = preview;
-- 
2.43.0


From 64cfd8d501a42d204ea3d2b0725f30b91110d3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 56/78] fix: the close button of a file's tab closes that tab

---
 ngineer_js/src/leftRibbonMenu.ts    | 26 ++++++++++++++++----------
 ngineer_js/target/leftRibbonMenu.js | 23 +++++++++++++----------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/ngineer_js/src/leftRibbonMenu.ts b/ngineer_js/src/leftRibbonMenu.ts
index d1b110c..20eb75c 100644
--- a/ngineer_js/src/leftRibbonMenu.ts
+++ b/ngineer_js/src/leftRibbonMenu.ts
@@ -18,34 +18,40 @@ export function generateFocusCallback(filename: string, elementId?: string): (e:
 {
     const onclickFocusHandler = () => console.log(`clicked the ${filename} tab!`);
 
-    const newChildIndex = PROJ_TABS_BAR.children.length;
+    // Prefixed, as a file may be named like one of the application's own tabs
+    const tabId = 'file-' + filename + '-tab';
+    const filenameTagId = 'file-' + filename + '-filename-tag';
+    const closeButtonId = 'file-' + filename + '-close-button';
 
     const onclickCloseHandler = () => {
-        const ptb = PROJ_TABS_BAR.getter();
-        const tagToRemove = ptb.children[newChildIndex];
-        console.log('chugya');
-        ptb.removeChild(tagToRemove);
-        dropTagFromApplication(tagToRemove.id);
+        const tagToRemove = document.getElementById(tabId);
+        if (tagToRemove === null)
+        {
+            return;
+        }
+
+        PROJ_TABS_BAR.getter().removeChild(tagToRemove);
+        [tabId, filenameTagId, closeButtonId].forEach(dropTagFromApplication);
     }
 
     return (event: Event) => {
-        const tabElement = document.getElementById(filename + '-tab');
+        const tabElement = document.getElementById(tabId);
 
         if (tabElement === null)
         {
             // If the tab doesn't exist, make one:
             const tab = new TagBuilder('span')
-                .setTagId(filename + '-tab')
+                .setTagId(tabId)
                 .setTagClass(CommonTagClasses.TopRibbonMenuFileItem)
                 .setTagCallback('onmouseup', onclickFocusHandler)
                 .buildInto(PROJ_TABS_BAR, true);
             const _filenameTag = new TagBuilder('span')
-                .setTagId(filename+ '-filename-tag')
+                .setTagId(filenameTagId)
                 .setTagClass(CommonTagClasses.FilenameTag)
                 .setTagContent(filename)
                 .buildInto(tab, false);
             const _closeButton = new TagBuilder('span')
-                .setTagId(filename + '-close-button')
+                .setTagId(closeButtonId)
                 .setTagClass(CommonTagClasses.CloseButton)
                 .setTagCallback('onmousedown', onclickCloseHandler)
                 .setTagContent('X')
diff --git a/ngineer_js/target/leftRibbonMenu.js b/ngineer_js/target/leftRibbonMenu.js
index 80197e0..a412cb4 100644
--- a/ngineer_js/target/leftRibbonMenu.js
+++ b/ngineer_js/target/leftRibbonMenu.js
@@ -12,29 +12,32 @@ export function createLeftRibbonMenuFileItem(filename) {
 }
 export function generateFocusCallback(filename, elementId) {
     var onclickFocusHandler = function () { return console.log("clicked the ".concat(filename, " tab!")); };
-    var newChildIndex = PROJ_TABS_BAR.children.length;
+    var tabId = 'file-' + filename + '-tab';
+    var filenameTagId = 'file-' + filename + '-filename-tag';
+    var closeButtonId = 'file-' + filename + '-close-button';
     var onclickCloseHandler = function () {
-        var ptb = PROJ_TABS_BAR.getter();
-        var tagToRemove = ptb.children[newChildIndex];
-        console.log('chugya');
-        ptb.removeChild(tagToRemove);
-        dropTagFromApplication(tagToRemove.id);
+        var tagToRemove = document.getElementById(tabId);
+        if (tagToRemove === null) {
+            return;
+        }
+        PROJ_TABS_BAR.getter().removeChild(tagToRemove);
+        [tabId, filenameTagId, closeButtonId].forEach(dropTagFromApplication);
     };
     return function (event) {
-        var tabElement = document.getElementById(filename + '-tab');
+        var tabElement = document.getElementById(tabId);
         if (tabElement === null) {
             var tab = new TagBuilder('span')
-                .setTagId(filename + '-tab')
+                .setTagId(tabId)
                 .setTagClass(CommonTagClasses.TopRibbonMenuFileItem)
                 .setTagCallback('onmouseup', onclickFocusHandler)
                 .buildInto(PROJ_TABS_BAR, true);
             var _filenameTag = new TagBuilder('span')
-                .setTagId(filename + '-filename-tag')
+                .setTagId(filenameTagId)
                 .setTagClass(CommonTagClasses.FilenameTag)
                 .setTagContent(filename)
                 .buildInto(tab, false);
             var _closeButton = new TagBuilder('span')
-                .setTagId(filename + '-close-button')
+                .setTagId(closeButtonId)
                 .setTagClass(CommonTagClasses.CloseButton)
                 .setTagCallback('onmousedown', onclickCloseHandler)
                 .setTagContent('X')
-- 
2.43.0


From cf99af7aa0ab342a20ebfbf4bd25d0fc5a15bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 57/78] fix: side panels keep their elements and callbacks
 while the other one is shown

---
 ngineer_js/src/panelManager.ts    | 30 +++++++++++++++++++-----------
 ngineer_js/target/panelManager.js | 25 +++++++++++++++----------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/ngineer_js/src/panelManager.ts b/ngineer_js/src/panelManager.ts
index 6ae7290..09c968e 100644
--- a/ngineer_js/src/panelManager.ts
+++ b/ngineer_js/src/panelManager.ts
@@ -5,16 +5,21 @@ export const SCREEN_PANEL_MANAGER: string[] = [];
 
 export const LEFT_PANEL_MANAGER = 
 {
-    filesTabState: '', // This is the default tab. It's text is determined by the hard-coded html value.
-    modelTabState: 'view a file to see modelling tools',
+    // The content of the tab that is not shown. The nodes themselves are kept, 
+    // so that they come back with their callbacks.
+    filesTabState: [] as (Node | string)[], // This is the default tab. It's text is determined by the hard-coded html value.
+    modelTabState: ['view a file to see modelling tools'] as (Node | string)[],
+    modelTabShown: false,
 
     focusModelTab(): void
     {
-        let lr = LEFT_RIBBON.getter();
-        
-        LEFT_PANEL_MANAGER.filesTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.modelTabState;
-        LEFT_RIBBON.getter();
+        if (!LEFT_PANEL_MANAGER.modelTabShown)
+        {
+            let lr = LEFT_RIBBON.getter();
+            LEFT_PANEL_MANAGER.filesTabState = Array.from(lr.childNodes);
+            lr.replaceChildren(...LEFT_PANEL_MANAGER.modelTabState);
+            LEFT_PANEL_MANAGER.modelTabShown = true;
+        }
 
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
@@ -24,10 +29,13 @@ export const LEFT_PANEL_MANAGER =
 
     focusFilesTab(): void
     {
-        let lr = LEFT_RIBBON.getter();
-        LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
-        LEFT_RIBBON.getter();
+        if (LEFT_PANEL_MANAGER.modelTabShown)
+        {
+            let lr = LEFT_RIBBON.getter();
+            LEFT_PANEL_MANAGER.modelTabState = Array.from(lr.childNodes);
+            lr.replaceChildren(...LEFT_PANEL_MANAGER.filesTabState);
+            LEFT_PANEL_MANAGER.modelTabShown = false;
+        }
 
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
diff --git a/ngineer_js/target/panelManager.js b/ngineer_js/target/panelManager.js
index e4d265f..3884ce7 100644
--- a/ngineer_js/target/panelManager.js
+++ b/ngineer_js/target/panelManager.js
@@ -2,22 +2,27 @@ import { CommonBGColors, FILES_TAB, LEFT_RIBBON, MODEL_TAB } from "./common.js";
 import { DebugRibbon } from "./debugRibbon.js";
 export var SCREEN_PANEL_MANAGER = [];
 export var LEFT_PANEL_MANAGER = {
-    filesTabState: '',
-    modelTabState: 'view a file to see modelling tools',
+    filesTabState: [],
+    modelTabState: ['view a file to see modelling tools'],
+    modelTabShown: false,
     focusModelTab: function () {
-        var lr = LEFT_RIBBON.getter();
-        LEFT_PANEL_MANAGER.filesTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.modelTabState;
-        LEFT_RIBBON.getter();
+        if (!LEFT_PANEL_MANAGER.modelTabShown) {
+            var lr = LEFT_RIBBON.getter();
+            LEFT_PANEL_MANAGER.filesTabState = Array.from(lr.childNodes);
+            lr.replaceChildren.apply(lr, LEFT_PANEL_MANAGER.modelTabState);
+            LEFT_PANEL_MANAGER.modelTabShown = true;
+        }
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         DebugRibbon.print("now showing modelling tab.");
     },
     focusFilesTab: function () {
-        var lr = LEFT_RIBBON.getter();
-        LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
-        LEFT_RIBBON.getter();
+        if (LEFT_PANEL_MANAGER.modelTabShown) {
+            var lr = LEFT_RIBBON.getter();
+            LEFT_PANEL_MANAGER.modelTabState = Array.from(lr.childNodes);
+            lr.replaceChildren.apply(lr, LEFT_PANEL_MANAGER.filesTabState);
+            LEFT_PANEL_MANAGER.modelTabShown = false;
+        }
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
         DebugRibbon.print("now showing the filetree tab.");
-- 
2.43.0


From 959f12951e5562da3708350b07f8b3bfae3e94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 58/78] fix: a tag builder used again changed the tags it had
 built

---
 ngineer_js/src/tagbuilder.ts    | 15 +++++++++------
 ngineer_js/target/tagbuilder.js | 15 ++++++++-------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/ngineer_js/src/tagbuilder.ts b/ngineer_js/src/tagbuilder.ts
index 692a7db..4c68825 100644
--- a/ngineer_js/src/tagbuilder.ts
+++ b/ngineer_js/src/tagbuilder.ts
@@ -166,21 +166,24 @@ export class TagBuilder
     buildInto(parentTag: DynTag, append?: boolean): DynTag
     {
         const children: TagGetter[] = [];
+        // The builder may be used again for other tags
+        const tagId = this.tagId;
+        const tagCallbacks = Object.assign({}, this.tagCallbacks);
         let preview = `<${this.tagType}${this.tagIdText}${this.tagClassText}>${this.tagContent}</${this.tagType}>`;
         let getter = () => {
-            let maybeElem = document.getElementById(this.tagId);
+            let maybeElem = document.getElementById(tagId);
             if (maybeElem === null)
             {
-                dropTagFromApplication(this.tagId);
-                console.warn(`dropped ${this.tagId} from the application register`);
-                throw new TagGetterError(this.tagId);
+                dropTagFromApplication(tagId);
+                console.warn(`dropped ${tagId} from the application register`);
+                throw new TagGetterError(tagId);
             }
             else
             {
-                for (let callback in this.tagCallbacks)
+                for (let callback in tagCallbacks)
                 {
                     let cb = callback as keyof TagCallbacks;
-                    maybeElem[cb] = this.tagCallbacks[cb];
+                    maybeElem[cb] = tagCallbacks[cb];
                 }
             }
             return maybeElem;
diff --git a/ngineer_js/target/tagbuilder.js b/ngineer_js/target/tagbuilder.js
index 419318a..a484816 100644
--- a/ngineer_js/target/tagbuilder.js
+++ b/ngineer_js/target/tagbuilder.js
@@ -58,20 +58,21 @@ var TagBuilder = (function () {
         return this;
     };
     TagBuilder.prototype.buildInto = function (parentTag, append) {
-        var _this = this;
         var children = [];
+        var tagId = this.tagId;
+        var tagCallbacks = Object.assign({}, this.tagCallbacks);
         var preview = "<".concat(this.tagType).concat(this.tagIdText).concat(this.tagClassText, ">").concat(this.tagContent, "</").concat(this.tagType, ">");
         var getter = function () {
-            var maybeElem = document.getElementById(_this.tagId);
+            var maybeElem = document.getElementById(tagId);
             if (maybeElem === null) {
-                dropTagFromApplication(_this.tagId);
-                console.warn("dropped ".concat(_this.tagId, " from the application register"));
-                throw new TagGetterError(_this.tagId);
+                dropTagFromApplication(tagId);
+                console.warn("dropped ".concat(tagId, " from the application register"));
+                throw new TagGetterError(tagId);
             }
             else {
-                for (var callback in _this.tagCallbacks) {
+                for (var callback in tagCallbacks) {
                     var cb = callback;
-                    maybeElem[cb] = _this.tagCallbacks[cb];
+                    maybeElem[cb] = tagCallbacks[cb];
                 }
             }
             return maybeElem;
-- 
2.43.0


From c93d64c8bce42d5bc1a600270faf9c1b73baee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 59/78] fix: gmatlib.h could not be compiled as C++

---
 gmatlib/gmatlib.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 60e5ed1..8bff6d9 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -3,9 +3,10 @@
 // includes
 #include <limits.h>
 #ifdef __cplusplus
-#include <exception>
 #include <sstream>
-#include <tuple>
+#include <stdexcept>
+#include <string>
+#include <utility>
 
 // uses
 using std::pair;
@@ -356,7 +357,7 @@ namespace ngineer
         /// @brief inverts the given matrix by mutating its values through gaussian elimination
         inline void inplace_invert()
         {
-            constexpr char *ERROR_MESSAGE_PREFIX = "failed to invert matrix because ";
+            constexpr const char *ERROR_MESSAGE_PREFIX = "failed to invert matrix because ";
             unsigned result = _ngffi_::try_inplace_invert(ptr);
             string errorText;
             stringstream ss;
@@ -400,7 +401,7 @@ namespace ngineer
         /// @brief returns a copy of the value at the given index in the matrix
         /// @param indices the row and column of the element to get
         /// @return the `double` value located at that index
-        inline const double operator[](pair<unsigned, unsigned> indices)
+        inline double operator[](pair<unsigned, unsigned> indices) const
         {
             return _ngffi_::index_double_matrix(ptr, indices.first, indices.second);
         }
@@ -411,10 +412,8 @@ namespace ngineer
         /// @param out the stringstream to format this matrix in
         /// @param o the matrix to append to the stringstream with the stream operator `<<`
         /// @return a reference to the given stringstream
-        inline friend stringstream& operator<<(stringstream &out, Matrix &const o)
+        inline friend stringstream& operator<<(stringstream &out, const Matrix &o)
         {
-            unsigned numElems = o.rows * o.cols;
-
             out << '[';
 
             for (unsigned i = 0; i < o.rows; i++)
-- 
2.43.0


From 8dc9d496e221eca84115b4cd64708518ac52fb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 60/78] fix: the C++ matrix product and augmentation passed the
 address of the object for the matrix

---
 gmatlib/gmatlib.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 8bff6d9..d9fe7ea 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -265,9 +265,9 @@ namespace ngineer
         /// @brief returns the matrix product between two matrices
         /// @param rhs the right-hand operand matrix
         /// @return the matrix product of `this` matrix and `rhs`
-        inline Matrix operator*(const Matrix rhs) const
+        inline Matrix operator*(const Matrix &rhs) const
         {
-            void* matrixProduct = _ngffi_::multiply_matrix(ptr, const_cast<Matrix *>(&rhs));
+            void* matrixProduct = _ngffi_::multiply_matrix(ptr, rhs.ptr);
             if (matrixProduct == nullptr)
             {
                 string errorText;
@@ -282,9 +282,9 @@ namespace ngineer
         /// @brief returns the augment of the two given matrices if their number of rows are equal
         /// @param rhs the right-hand operand matrix
         /// @return a new matrix produced by appending the rows of the right-hand matrix to the rows of the left 
-        inline Matrix operator|(const Matrix rhs) const
+        inline Matrix operator|(const Matrix &rhs) const
         {
-            void *augmentMatrix = _ngffi_::augment_with(ptr, const_cast<Matrix *>(&rhs));
+            void *augmentMatrix = _ngffi_::augment_with(ptr, rhs.ptr);
             if (augmentMatrix == nullptr)
             {
                 string errorText;
-- 
2.43.0


From 741fc732b1c42f803cfaeebd6174b0c6115d58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 61/78] fix: copies of a C++ matrix shared one matrix, which
 was freed twice

---
 gmatlib/gmatlib.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index d9fe7ea..e475f5b 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -183,6 +183,26 @@ namespace ngineer
         {
         }
 
+        /// @brief creates a matrix with the same elements as another one
+        /// @param other the matrix to copy
+        Matrix(const Matrix &other):
+            rows(other.rows),
+            cols(other.cols),
+            ptr(_ngffi_::clone_double_matrix(other.ptr))
+        {
+        }
+
+        /// @brief gives this matrix the shape and the elements of another one
+        /// @param other the matrix to copy
+        /// @return this matrix
+        inline Matrix &operator=(Matrix other) noexcept
+        {
+            std::swap(rows, other.rows);
+            std::swap(cols, other.cols);
+            std::swap(ptr, other.ptr);
+            return *this;
+        }
+
         /// @brief creates a new identity matrix with the specified edge length
         /// @param n the number of rows/columns that the matrix should have
         /// @return a new identity matrix
-- 
2.43.0


From b19e564afd5e26062923a2a9cfeb633d81a30bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 62/78] fix: transposing a C++ matrix gave the matrix itself,
 which was freed twice

---
 gmatlib/gmatlib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index e475f5b..a8ceee0 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -371,7 +371,7 @@ namespace ngineer
         inline Matrix transpose() const noexcept
         {
             void *transposed = _ngffi_::transpose(ptr);
-            return Matrix { cols, rows, ptr };
+            return Matrix { cols, rows, transposed };
         }
 
         /// @brief inverts the given matrix by mutating its values through gaussian elimination
-- 
2.43.0


From cd309d1188c375f43c7fc12f0dcc1fd3b040b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 63/78] fix: the errors of C++ matrices had only the first word
 of their text

---
 gmatlib/gmatlib.h | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index a8ceee0..00f174e 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -226,11 +226,9 @@ namespace ngineer
             unsigned result = _ngffi_::inplace_row_scale(ptr, row, scalar);
             if (!result)
             {
-                string errorText;
                 stringstream ss;
                 ss << "failed to scale row " << row << " by " << scalar << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                throw runtime_error { ss.str() };
             }
         }
 
@@ -241,11 +239,9 @@ namespace ngineer
             unsigned result = _ngffi_::inplace_scale(ptr, scalar);
             if (!result)
             {
-                string errorText;
                 stringstream ss;
                 ss << "failed to scale matrix by " << scalar << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                throw runtime_error { ss.str() };
             }
         }
 
@@ -257,11 +253,9 @@ namespace ngineer
             unsigned result = _ngffi_::inplace_row_add(ptr, r1, r2);
             if (!result)
             {
-                string errorText;
                 stringstream ss;
                 ss << "failed to add row " << r1 << " to row " << r2 << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                throw runtime_error { ss.str() };
             }
         }
 
@@ -274,11 +268,9 @@ namespace ngineer
             unsigned result = _ngffi_::inplace_scaled_row_add(ptr, r1, r2, scalar);
             if (!result)
             {
-                string errorText;
                 stringstream ss;
                 ss << "failed to add row " << r1 << " scaled by " << scalar << " to row " << r2 << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                throw runtime_error { ss.str() };
             }
         }
 
@@ -290,11 +282,9 @@ namespace ngineer
             void* matrixProduct = _ngffi_::multiply_matrix(ptr, rhs.ptr);
             if (matrixProduct == nullptr)
             {
-                string errorText;
                 stringstream ss;
                 ss << "failed to multiply matrix: " << this << " by matrix: " << &rhs << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                throw runtime_error { ss.str() };
             }
             return Matrix { rows, rhs.cols, matrixProduct };
         }
@@ -307,11 +297,9 @@ namespace ngineer
             void *augmentMatrix = _ngffi_::augment_with(ptr, rhs.ptr);
             if (augmentMatrix == nullptr)
             {
-                string errorText;
                 stringstream ss;
                 ss << "failed to augment matrix: " << this << " with matrix: " << &rhs << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                throw runtime_error { ss.str() };
             }
             return Matrix { rows, cols + rhs.cols, augmentMatrix };
         }
@@ -324,7 +312,6 @@ namespace ngineer
         /// @return the slice of the parent matrix
         inline Matrix subset(unsigned r1, unsigned c1, unsigned r2, unsigned c2) const
         {
-            string errorText;
             stringstream ss;
             void *matrixSlice = _ngffi_::subset(ptr, r1, c1, r2, c2);
 
@@ -342,18 +329,16 @@ namespace ngineer
             }
             else if (c2 >= cols)
             {
-                ss << "failed to slice matrix ending at column " << c2 << "because it only has " << cols << " columns.\n";
+                ss << "failed to slice matrix ending at column " << c2 << " because it only has " << cols << " columns.\n";
             }
             else if (matrixSlice == nullptr)
             {
-                ss << "failed to slice matrix: "  ".\n";
+                ss << "failed to slice matrix from (" << r1 << ", " << c1 << ") to (" << r2 << ", " << c2 << ").\n";
             }
 
-            ss >> errorText;
-
-            if (!errorText.empty())
+            if (!ss.str().empty())
             {
-                throw runtime_error { errorText };
+                throw runtime_error { ss.str() };
             }
 
             return Matrix { r2 - r1 + 1, c2 - c1 + 1, matrixSlice };
@@ -404,9 +389,7 @@ namespace ngineer
                 break;
             }
             ss << ERROR_MESSAGE_PREFIX << errorText;
-            errorText.clear(); // TODO: is this necessary?
-            ss >> errorText;
-            throw runtime_error { errorText };
+            throw runtime_error { ss.str() };
         }
 
         /// @brief mutates the value at the given index in the matrix to a desired value.
-- 
2.43.0


From faa402331349a8f02c3f4cf4f70630a84db4c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 64/78] fix: gmatlib.h did not declare inplace_row_swap

---
 gmatlib/gmatlib.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 00f174e..3a29979 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -56,6 +56,13 @@ namespace _ngffi_
         /// @return a raw pointer to the new matrix.
         void *new_double_identity_matrix(unsigned n);
 
+        /// @brief swaps the given rows of the matrix
+        /// @param ptr a raw pointer to the matrix to mutate
+        /// @param r1 the first 0-indexed row to swap
+        /// @param r2 the second 0-indexed row to swap
+        /// @return a boolean integer value indicating success (0 on failure)
+        unsigned inplace_row_swap(void *ptr, unsigned r1, unsigned r2);
+
         /// @brief scales the given row of the matrix
         /// @param ptr a raw pointer to the matrix to mutate
         /// @param row the 0-indexed row to scale 
-- 
2.43.0


From 8cc9a7a0fea0c5cdb165faee0e3c553d795e75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 65/78] fix: gmatlib.h described the row additions the wrong
 way round

---
 gmatlib/gmatlib.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 3a29979..8acca4e 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -76,18 +76,18 @@ namespace _ngffi_
         /// @return a boolean integer value indicating success (0 on failure) 
         unsigned inplace_scale(void *ptr, double scalar);
 
-        /// @brief adds the row r1 to the row r2 in an element-wise manner
+        /// @brief adds the row r2 to the row r1 in an element-wise manner
         /// @param ptr a raw pointer to the matrix to mutate
-        /// @param r1 the row to add without mutating
-        /// @param r2 the row to mutably add to
+        /// @param r1 the row to mutably add to
+        /// @param r2 the row to add without mutating
         /// @return a boolean integer value indicating success (0 on failure)
         unsigned inplace_row_add(void *ptr, unsigned r1, unsigned r2);
 
-        /// @brief adds the row r1 to the row r2 in an element-wise manner AFTER scaling row r1 by a given value
+        /// @brief adds the row r2 to the row r1 in an element-wise manner AFTER scaling row r2 by a given value
         /// @param ptr a raw pointer to the matrix to mutate
-        /// @param r1 the row to add without mutating
-        /// @param r2 the row to mutably add to
-        /// @param scalar the quantity to scale row r1 by
+        /// @param r1 the row to mutably add to
+        /// @param r2 the row to add without mutating
+        /// @param scalar the quantity to scale row r2 by
         /// @return a boolean integer value indicating success (0 on failure)
         unsigned inplace_scaled_row_add(void *ptr, unsigned r1, unsigned r2, double scalar);
 
@@ -252,23 +252,23 @@ namespace ngineer
             }
         }
 
-        /// @brief adds the row `r1` to row `r2` in an element-wise fashion
-        /// @param r1 the row to add to another row
-        /// @param r2 the row to mutate by the addition operation
+        /// @brief adds the row `r2` to row `r1` in an element-wise fashion
+        /// @param r1 the row to mutate by the addition operation
+        /// @param r2 the row to add to another row
         inline void inplace_row_add(unsigned r1, unsigned r2)
         {
             unsigned result = _ngffi_::inplace_row_add(ptr, r1, r2);
             if (!result)
             {
                 stringstream ss;
-                ss << "failed to add row " << r1 << " to row " << r2 << ".\n";
+                ss << "failed to add row " << r2 << " to row " << r1 << ".\n";
                 throw runtime_error { ss.str() };
             }
         }
 
-        /// @brief scales the row `r1` by `scalar` before adding it to row `r2` in an element-wise fashion
-        /// @param r1 the row to scale and add
-        /// @param r2 the row to mutate by the scaled addition operation
+        /// @brief scales the row `r2` by `scalar` before adding it to row `r1` in an element-wise fashion
+        /// @param r1 the row to mutate by the scaled addition operation
+        /// @param r2 the row to scale and add
         /// @param scalar the value to scaled 
         inline void inplace_scaled_row_add(unsigned r1, unsigned r2, double scalar)
         {
@@ -276,7 +276,7 @@ namespace ngineer
             if (!result)
             {
                 stringstream ss;
-                ss << "failed to add row " << r1 << " scaled by " << scalar << " to row " << r2 << ".\n";
+                ss << "failed to add row " << r2 << " scaled by " << scalar << " to row " << r1 << ".\n";
                 throw runtime_error { ss.str() };
             }
         }
-- 
2.43.0


From 94c062a796e42129200afa833f938b2bdecc2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 66/78] fix: a C++ matrix too large to be created was used
 without one

---
 gmatlib/gmatlib.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 8acca4e..c3d8d8c 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -177,6 +177,12 @@ namespace ngineer
             cols(cols),
             ptr(ptr)
         {
+            if (ptr == nullptr)
+            {
+                stringstream ss;
+                ss << "failed to create a matrix with " << rows << " rows and " << cols << " columns.\n";
+                throw runtime_error { ss.str() };
+            }
         }
 
     public:
@@ -184,18 +190,14 @@ namespace ngineer
         /// @param rows the number of rows that the matrix should have
         /// @param cols the number of columns that the matrix should have
         Matrix(unsigned rows, unsigned cols): 
-            rows(rows), 
-            cols(cols), 
-            ptr(_ngffi_::new_double_matrix(rows, cols))
+            Matrix(rows, cols, _ngffi_::new_double_matrix(rows, cols))
         {
         }
 
         /// @brief creates a matrix with the same elements as another one
         /// @param other the matrix to copy
         Matrix(const Matrix &other):
-            rows(other.rows),
-            cols(other.cols),
-            ptr(_ngffi_::clone_double_matrix(other.ptr))
+            Matrix(other.rows, other.cols, _ngffi_::clone_double_matrix(other.ptr))
         {
         }
 
@@ -213,7 +215,7 @@ namespace ngineer
         /// @brief creates a new identity matrix with the specified edge length
         /// @param n the number of rows/columns that the matrix should have
         /// @return a new identity matrix
-        inline const static Matrix Identity(unsigned n) noexcept
+        inline const static Matrix Identity(unsigned n)
         {   
             return Matrix { n, n, _ngffi_::new_double_identity_matrix(n) };
         }
@@ -360,7 +362,7 @@ namespace ngineer
 
         /// @brief produces a copy of the matrix containing the same elements but transposed 
         /// @return the transpose of the given matrix as a new matrix object
-        inline Matrix transpose() const noexcept
+        inline Matrix transpose() const
         {
             void *transposed = _ngffi_::transpose(ptr);
             return Matrix { cols, rows, transposed };
-- 
2.43.0


From 543247135167c45a086d90d990f6327592cbd76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 67/78] fix: geqslib.h could not be compiled as C++

---
 geqslib/geqslib.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index c05f199..8b883a2 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -2,8 +2,8 @@
 #define _GEQSLIB_H_
 #ifdef __cplusplus
 // includes
-#include <exception>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 
 // uses
@@ -135,6 +135,8 @@ namespace ngineer
 {
     using _ngffi_::SystemBuilderConstraintStatus;
 
+    class ConstrainedSystem;
+
     class ContextHashMap
     {
         // Allow SystemBuilder to access raw data
@@ -202,15 +204,7 @@ namespace ngineer
                 _ngffi_::is_fully_constrained(ptr));
         }
 
-        inline ConstrainedSystem build_system()
-        {
-            const void *result = _ngffi_::build_system(ptr);
-            if (result == nullptr)
-            {
-                // TODO: throw exception
-            }
-            return ConstrainedSystem { result };
-        }
+        inline ConstrainedSystem build_system();
 
         inline void show_system_builder() const noexcept
         {
@@ -246,6 +240,16 @@ namespace ngineer
             return _ngffi_::solve_system(ptr, margin, limit);
         }
     }; // class ConstrainedSystem
+
+    inline ConstrainedSystem SystemBuilder::build_system()
+    {
+        const void *result = _ngffi_::build_system(ptr);
+        if (result == nullptr)
+        {
+            // TODO: throw exception
+        }
+        return ConstrainedSystem { result };
+    }
 } // namespace ngineer
 #endif // __cplusplus
 #endif // _GEQSLIB_H_
\ No newline at end of file
-- 
2.43.0


From 70fe46feb829fbe88a0a58eebe22b7676d23730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 68/78] fix: a C++ context was freed by every builder made from
 it and by every copy

---
 geqslib/geqslib.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index 8b883a2..046c63b 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -5,6 +5,7 @@
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <utility>
 
 // uses
 using std::runtime_error;
@@ -155,6 +156,19 @@ namespace ngineer
             ptr = _ngffi_::new_default_context_hash_map();
         }
 
+        /// @brief takes over the context of another `ContextHashMap`, which is left without one
+        ContextHashMap(ContextHashMap &&other) noexcept: ptr(other.ptr)
+        {
+            other.ptr = nullptr;
+        }
+
+        /// @brief exchanges the context with that of another `ContextHashMap`
+        inline ContextHashMap &operator=(ContextHashMap &&other) noexcept
+        {
+            std::swap(ptr, other.ptr);
+            return *this;
+        }
+
         inline static ContextHashMap newEmpty() noexcept
         {
             return ContextHashMap { _ngffi_::new_context_hash_map() };
@@ -167,7 +181,10 @@ namespace ngineer
 
         ~ContextHashMap()
         {
-            _ngffi_::free_context_hash_map(ptr);
+            if (ptr != nullptr)
+            {
+                _ngffi_::free_context_hash_map(ptr);
+            }
         }
     }; // class ContextHashMap
 
@@ -177,7 +194,7 @@ namespace ngineer
         void *ptr;
 
     public:
-        SystemBuilder(string equation, ContextHashMap context)
+        SystemBuilder(string equation, const ContextHashMap &context)
         {
             ptr = const_cast<void *>(
                 _ngffi_::new_system_builder(
-- 
2.43.0


From 823f8cc8d6bac49922172431666bdd9a3c097fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 69/78] fix: a C++ builder was freed again after building the
 system or being copied

---
 geqslib/geqslib.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index 046c63b..49c08c4 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -201,6 +201,19 @@ namespace ngineer
                     equation.c_str(), context.ptr));
         }
 
+        /// @brief takes over the builder of another `SystemBuilder`, which is left without one
+        SystemBuilder(SystemBuilder &&other) noexcept: ptr(other.ptr)
+        {
+            other.ptr = nullptr;
+        }
+
+        /// @brief exchanges the builder with that of another `SystemBuilder`
+        inline SystemBuilder &operator=(SystemBuilder &&other) noexcept
+        {
+            std::swap(ptr, other.ptr);
+            return *this;
+        }
+
         inline SystemBuilderConstraintStatus try_constrain_with(string equation)
         {
             SystemBuilderConstraintStatus result;
@@ -230,7 +243,10 @@ namespace ngineer
 
         ~SystemBuilder()
         {
-            _ngffi_::free_system_builder(ptr);
+            if (ptr != nullptr)
+            {
+                _ngffi_::free_system_builder(ptr);
+            }
         }
     }; // class SystemBuilder
 
@@ -261,6 +277,7 @@ namespace ngineer
     inline ConstrainedSystem SystemBuilder::build_system()
     {
         const void *result = _ngffi_::build_system(ptr);
+        ptr = nullptr; // used up, whether or not there is a system
         if (result == nullptr)
         {
             // TODO: throw exception
-- 
2.43.0


From 4aa2b832e3f34e9fda1f4a95750fdde6990898af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 70/78] fix: a C++ system was never freed unless solved, and
 used again after that

---
 geqslib/geqslib.h | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index 49c08c4..c0f8720 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -263,6 +263,19 @@ namespace ngineer
         }
 
     public:
+        /// @brief takes over the system of another `ConstrainedSystem`, which is left without one
+        ConstrainedSystem(ConstrainedSystem &&other) noexcept: ptr(other.ptr)
+        {
+            other.ptr = nullptr;
+        }
+
+        /// @brief exchanges the system with that of another `ConstrainedSystem`
+        inline ConstrainedSystem &operator=(ConstrainedSystem &&other) noexcept
+        {
+            std::swap(ptr, other.ptr);
+            return *this;
+        }
+
         inline int specify_variable(string var, double guess, double min, double max)
         {
             return _ngffi_::specify_variable(ptr, var.c_str(), guess, min, max);
@@ -270,7 +283,17 @@ namespace ngineer
 
         inline const char *solve_system(double margin, unsigned limit)
         {
-            return _ngffi_::solve_system(ptr, margin, limit);
+            const char *result = _ngffi_::solve_system(ptr, margin, limit);
+            ptr = nullptr; // used up, whether or not there is a solution
+            return result;
+        }
+
+        ~ConstrainedSystem()
+        {
+            if (ptr != nullptr)
+            {
+                _ngffi_::free_system(ptr);
+            }
         }
     }; // class ConstrainedSystem
 
-- 
2.43.0


From 628a3d04f1518da6647e9736deabfd25ec6d2816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 71/78] fix: failures of the C++ equation classes were passed
 over and used as if they were results

---
 geqslib/geqslib.h | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index c0f8720..459c24d 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -199,6 +199,10 @@ namespace ngineer
             ptr = const_cast<void *>(
                 _ngffi_::new_system_builder(
                     equation.c_str(), context.ptr));
+            if (ptr == nullptr)
+            {
+                throw runtime_error { "failed to start a system with the equation: " + equation + "\n" };
+            }
         }
 
         /// @brief takes over the builder of another `SystemBuilder`, which is left without one
@@ -216,13 +220,18 @@ namespace ngineer
 
         inline SystemBuilderConstraintStatus try_constrain_with(string equation)
         {
+            if (ptr == nullptr)
+            {
+                throw runtime_error { "failed to constrain the system because it has been built already.\n" };
+            }
+
             SystemBuilderConstraintStatus result;
             result = static_cast<SystemBuilderConstraintStatus>(
                 _ngffi_::try_constrain_with(ptr, equation.c_str()));
 
             if (SystemBuilderConstraintStatus::ConstraintError == result)
             {
-                // TODO: throw exception
+                throw runtime_error { "failed to constrain the system with the equation: " + equation + "\n" };
             }
 
             return result;
@@ -230,7 +239,7 @@ namespace ngineer
 
         inline SystemBuilderConstraintStatus is_fully_constrained() const noexcept
         {
-            return static_cast<SystemBuilderConstraintStatus>(
+            return ptr == nullptr ? SystemBuilderConstraintStatus::ConstraintError : static_cast<SystemBuilderConstraintStatus>(
                 _ngffi_::is_fully_constrained(ptr));
         }
 
@@ -238,7 +247,10 @@ namespace ngineer
 
         inline void show_system_builder() const noexcept
         {
-            _ngffi_::debug_system_builder(ptr);
+            if (ptr != nullptr)
+            {
+                _ngffi_::debug_system_builder(ptr);
+            }
         }
 
         ~SystemBuilder()
@@ -278,14 +290,28 @@ namespace ngineer
 
         inline int specify_variable(string var, double guess, double min, double max)
         {
-            return _ngffi_::specify_variable(ptr, var.c_str(), guess, min, max);
+            return ptr == nullptr ? -1 : _ngffi_::specify_variable(ptr, var.c_str(), guess, min, max);
         }
 
-        inline const char *solve_system(double margin, unsigned limit)
+        inline string solve_system(double margin, unsigned limit)
         {
+            if (ptr == nullptr)
+            {
+                throw runtime_error { "failed to solve the system because it has been solved already.\n" };
+            }
+
             const char *result = _ngffi_::solve_system(ptr, margin, limit);
             ptr = nullptr; // used up, whether or not there is a solution
-            return result;
+            if (result == nullptr)
+            {
+                stringstream ss;
+                ss << "failed to solve the system within a margin of " << margin << " in " << limit << " iterations.\n";
+                throw runtime_error { ss.str() };
+            }
+
+            string solution { result };
+            _ngffi_::free_solution_string(const_cast<char *>(result));
+            return solution;
         }
 
         ~ConstrainedSystem()
@@ -299,11 +325,16 @@ namespace ngineer
 
     inline ConstrainedSystem SystemBuilder::build_system()
     {
+        if (ptr == nullptr)
+        {
+            throw runtime_error { "failed to build the system because it has been built already.\n" };
+        }
+
         const void *result = _ngffi_::build_system(ptr);
         ptr = nullptr; // used up, whether or not there is a system
         if (result == nullptr)
         {
-            // TODO: throw exception
+            throw runtime_error { "failed to build the system because it is not fully constrained.\n" };
         }
         return ConstrainedSystem { result };
     }
-- 
2.43.0


From 7cf6f8c038b983ab1469aed74dd76926f4cae3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 72/78] fix: the status of an equation that over-constrains a
 system had no name in geqslib.h

---
 geqslib/geqslib.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index 459c24d..0217505 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -31,6 +31,8 @@ namespace _ngffi_
             NotConstrained  =  0,
             /// @brief the system is properly constrained
             Constrained     =  1,
+            /// @brief the equation would over-constrain the system and was not added
+            OverConstrained =  2,
         };
 
         /// @brief
-- 
2.43.0


From 7ec09532048ba9402c8076005a46256f1847bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 73/78] fix: reading the potential of a node is possible while
 others read it

Flux formulas outside of the crate can read potentials only with
get_node_potential, which failed whenever the flux was calculated for a node.
---
 neapolitan/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 54c69f4..5f9d220 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -431,7 +431,7 @@ pub fn get_node_potential(node_ref: &Weak<RefCell<GenericNode>>) -> anyhow::Resu
 {
     if let Some(node) = node_ref.upgrade()
     {
-        Ok(node.try_borrow_mut()?.potential.clone())
+        Ok(node.try_borrow()?.potential.clone())
     }
     else
     {
-- 
2.43.0


From 4009b3f7b710ac3df798382fa58187b81b7b4abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 74/78] fix: a source that cannot be created leaves the node it
 would drive unlocked

---
 neapolitan/src/dc_circuits.rs   | 6 ++++--
 neapolitan/src/heat_transfer.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index 57e4aa3..4e511b5 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -58,13 +58,15 @@ pub fn voltage_source(
     // Remove the appropriate DOF
     if drives_output
     {
+        let potential = get_node_potential(&input_node)? + col_vec![voltage[0]];
         lock_node(&output_node)?;
-        set_node_potential(&output_node, (get_node_potential(&input_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&output_node, potential.into())?;
     }
     else // driving input_node node:
     {
+        let potential = get_node_potential(&output_node)? - col_vec![voltage[0]];
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, potential.into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index c055f0a..64bf589 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -114,13 +114,15 @@ pub fn temperature_delta(
     // Remove the appropriate DOF
     if drives_output
     {
+        let potential = get_node_potential(&input_node)? + col_vec![temp_delta[0]];
         lock_node(&output_node)?;
-        set_node_potential(&output_node, (get_node_potential(&input_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&output_node, potential.into())?;
     }
     else // driving input_node node:
     {
+        let potential = get_node_potential(&output_node)? - col_vec![temp_delta[0]];
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, potential.into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
-- 
2.43.0


From 76e16b0286a0b2a9795ea18bdacf669782c2bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 75/78] fix: an element of the wrong dimension gives an error,
 not a panic

---
 neapolitan/src/dc_circuits.rs       |  8 +++++++-
 neapolitan/src/errors.rs            |  2 ++
 neapolitan/src/flux_formulas.rs     | 15 +++++++++++++++
 neapolitan/src/heat_transfer.rs     |  8 +++++++-
 neapolitan/src/modelling/element.rs | 13 ++++++++++++-
 5 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index 4e511b5..d7f10c4 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -6,7 +6,7 @@ use std::cell::RefCell;
 use gmatlib::{col_vec, Matrix};
 
 // Local modules
-use crate::errors::{ElementCreationError, ElementGainError};
+use crate::errors::{ElementCreationError, ElementGainError, FluxCalculationError};
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
 
@@ -52,6 +52,12 @@ pub fn voltage_source(
         return Err(ElementCreationError.into())
     }
 
+    // The difference is that of potentials with a single component
+    if get_node_potential(&input_node)?.get_rows() != 1 || get_node_potential(&output_node)?.get_rows() != 1
+    {
+        return Err(FluxCalculationError::DimensionMismatch.into());
+    }
+
     // Determine if we're driving the input or output node
     let drives_output = !is_locked(&output_node)?;
 
diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index 1d81fb3..aa1d6a4 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -23,6 +23,8 @@ pub enum FluxCalculationError
 {
     #[error("failed to access nodes during flux calculation because they were already dropped.")]
     NodeRefsAlreadyDropped,
+    #[error("the flux or the gain of an element did not have one value for each component of the potential of its nodes.")]
+    DimensionMismatch,
 }
 
 #[derive(Debug, Error)]
diff --git a/neapolitan/src/flux_formulas.rs b/neapolitan/src/flux_formulas.rs
index cb2d191..922659f 100644
--- a/neapolitan/src/flux_formulas.rs
+++ b/neapolitan/src/flux_formulas.rs
@@ -2,6 +2,7 @@ use gmatlib::Matrix;
 use std::rc::Rc;
 use std::cell::RefCell;
 
+use crate::errors::FluxCalculationError;
 use crate::modelling::node::GenericNode;
 
 pub fn normal_flux(
@@ -19,6 +20,18 @@ pub fn normal_flux(
     Ok(deltas)
 }
 
+fn check_dimension(potential: &Matrix<f64>, delta: &Matrix<f64>) -> Result<(), FluxCalculationError>
+{
+    if potential.get_rows() == delta.get_rows() && potential.get_cols() == delta.get_cols()
+    {
+        Ok(())
+    }
+    else
+    {
+        Err(FluxCalculationError::DimensionMismatch)
+    }
+}
+
 pub fn observe_flux(
     inode_ref: Rc<RefCell<GenericNode>>, 
     onode_ref: Rc<RefCell<GenericNode>>, 
@@ -33,6 +46,7 @@ pub fn observe_flux(
     {
         let mut sub = onode_ref.try_borrow_mut()?;
         let dom = inode_ref.try_borrow()?;
+        check_dimension(&dom.potential, delta)?;
 
         // Add delta if output node is the driver
         sub.potential = &(dom.potential) + delta;
@@ -44,6 +58,7 @@ pub fn observe_flux(
     {
         let mut sub = inode_ref.try_borrow_mut()?;
         let dom = onode_ref.try_borrow()?;
+        check_dimension(&dom.potential, delta)?;
 
         // Subtract delta if output node is the driver
         sub.potential = &(dom.potential) - delta;
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index 64bf589..1a71d01 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -6,7 +6,7 @@ use std::cell::RefCell;
 use gmatlib::{col_vec, Matrix};
 use thiserror::Error;
 
-use crate::errors::{ElementCreationError, ElementGainError};
+use crate::errors::{ElementCreationError, ElementGainError, FluxCalculationError};
 // Local modules
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
@@ -108,6 +108,12 @@ pub fn temperature_delta(
         return Err(ElementCreationError.into())
     }
 
+    // The difference is that of potentials with a single component
+    if get_node_potential(&input_node)?.get_rows() != 1 || get_node_potential(&output_node)?.get_rows() != 1
+    {
+        return Err(FluxCalculationError::DimensionMismatch.into());
+    }
+
     // Determine if we're driving the input or output node
     let drives_output = !is_locked(&output_node)?;
 
diff --git a/neapolitan/src/modelling/element.rs b/neapolitan/src/modelling/element.rs
index 947eda4..f14bee1 100644
--- a/neapolitan/src/modelling/element.rs
+++ b/neapolitan/src/modelling/element.rs
@@ -186,7 +186,18 @@ impl GenericElement
     {
         if let (Some(inode), Some(onode)) = (self.input_node.upgrade(), self.output_node.upgrade())
         {
-            Ok((self.flux_calc)(inode, onode, &self.gain, self.drives_output)?)
+            let flux = (self.flux_calc)(Rc::clone(&inode), Rc::clone(&onode), &self.gain, self.drives_output)?;
+
+            // The nodes could not add up a flux of another dimension
+            for node in [inode, onode]
+            {
+                let potential = &node.try_borrow()?.potential;
+                if flux.get_rows() != potential.get_rows() || flux.get_cols() != potential.get_cols()
+                {
+                    return Err(FluxCalculationError::DimensionMismatch.into());
+                }
+            }
+            Ok(flux)
         }
         else
         {
-- 
2.43.0


From bada45c24249f5dfa82a3952fe8fb35dadfc8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 76/78] fix: an element without a gain gives an error instead
 of a panic

---
 neapolitan/src/errors.rs        | 2 ++
 neapolitan/src/flux_formulas.rs | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index aa1d6a4..c39f9a1 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -25,6 +25,8 @@ pub enum FluxCalculationError
     NodeRefsAlreadyDropped,
     #[error("the flux or the gain of an element did not have one value for each component of the potential of its nodes.")]
     DimensionMismatch,
+    #[error("the element has no gain to calculate its flux with.")]
+    NoGain,
 }
 
 #[derive(Debug, Error)]
diff --git a/neapolitan/src/flux_formulas.rs b/neapolitan/src/flux_formulas.rs
index 922659f..9752b77 100644
--- a/neapolitan/src/flux_formulas.rs
+++ b/neapolitan/src/flux_formulas.rs
@@ -12,6 +12,11 @@ pub fn normal_flux(
     _drives_output: bool
 ) -> anyhow::Result<Matrix<f64>>
 {
+    if gain.get_rows() == 0
+    {
+        return Err(FluxCalculationError::NoGain.into());
+    }
+
     let onode = onode_ref.try_borrow()?;
     let inode = inode_ref.try_borrow()?;
 
-- 
2.43.0


From 777bddf9364f9b01c7e8bbc169915c64c1b31ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 77/78] fix: a variable with a domain but no guess starts
 within the domain

---
 nexsys/src/parsing/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index e013f37..dd4cf99 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -195,7 +195,9 @@ pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<Stri
         }
         else 
         {
-            declared.insert(var, [1.0, bounds[0], bounds[1]]);
+            // Start below the upper bound, where the variable would not move up
+            let guess = if bounds[0] <= 1.0 && 1.0 < bounds[1] { 1.0 } else { (bounds[0] + bounds[1]) / 2.0 };
+            declared.insert(var, [guess, bounds[0], bounds[1]]);
         }
     }
 
-- 
2.43.0


From 06009c8861631a96932b3ae1a2f10981db12431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 78/78] fix: the root finders did not find solutions on the
 upper bound of a domain and stayed beyond a bound once they had passed it

---
 geqslib/src/lib.rs    |  5 +++--
 geqslib/src/newton.rs | 50 +++++++++++++++++++++++++++++++++++++------
 geqslib/src/system.rs | 15 +++++++++++--
 3 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 89e5396..020ea7a 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -19,7 +19,7 @@ use std::collections::{HashMap, HashSet};
 
 use context::ContextLike;
 use errors::EquationSolverError;
-use newton::newton_raphson;
+use newton::newton_raphson_within;
 use shunting::{ContextHashMap, Token, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context, rpnify};
 use system::get_equation_unknowns;
 use variable::Variable;
@@ -129,7 +129,8 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     solve_ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, &solve_ctx)?;
 
-    let soln = Variable::new(newton_raphson(f, guess, margin, limit)?, min, max);
+    let within = |x: f64| Variable::new(x, min, max).into();
+    let soln = Variable::new(newton_raphson_within(f, within, guess, margin, limit)?, min, max);
 
     Ok((unknowns[0].to_owned(), soln.into()))
 }
diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index e8821ff..790d91d 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -28,9 +28,19 @@ const _DX_: f64 = 0.001;
 /// 
 /// assert!((x - 0.0001).abs() < 0.001); // solution is APPROXIMATE. In this case, very close to 0.
 /// ```
-pub fn newton_raphson<E>(f: impl Fn(f64) -> Result<f64, E>, mut guess: f64, margin: f64, limit: usize) -> anyhow::Result<f64>
+pub fn newton_raphson<E>(f: impl Fn(f64) -> Result<f64, E>, guess: f64, margin: f64, limit: usize) -> anyhow::Result<f64>
 where anyhow::Error: From<E>
 {
+    newton_raphson_within(f, |x| x, guess, margin, limit)
+}
+
+/// The same for a variable with a domain: `within` gives the value in the
+/// domain that is closest to a given one. The search does not leave the domain.
+pub (in crate) fn newton_raphson_within<E>(f: impl Fn(f64) -> Result<f64, E>, within: impl Fn(f64) -> f64, guess: f64, margin: f64, limit: usize) -> anyhow::Result<f64>
+where anyhow::Error: From<E>
+{
+    let mut guess = within(guess);
+
     // Catch illegal margin of error
     if margin <= 0.0
     {
@@ -41,7 +51,8 @@ where anyhow::Error: From<E>
     for _ in 0..limit
     {
         let y = f(guess)?;
-        let y_prime = (f(guess + _DX_)? - y) / _DX_;
+        let dx = step_within(guess, within(guess + _DX_));
+        let y_prime = (f(guess + dx)? - y) / dx;
         let delta = y / y_prime;
 
         // Check if we are sufficiently close to the solution:
@@ -51,12 +62,19 @@ where anyhow::Error: From<E>
         }
 
         // ...if not, calculate next iteration
-        guess -= delta;
+        guess = within(guess - delta);
     }
 
     Err(NewtonRaphsonSolverError::ReachedIterationLimit.into())
 }
 
+/// The step from `x` with which to approximate derivatives: ahead, or back where
+/// the domain ends ahead (`ahead` is `x + _DX_` within the domain).
+fn step_within(x: f64, ahead: f64) -> f64
+{
+    if ahead < x + _DX_ { -_DX_ } else { _DX_ }
+}
+
 /// A basic implementation of the Newton-Raphson method for multivariate
 /// systems. This function allows the caller to specify an initial guess 
 /// vector as a `HashMap<String, f64>`, a margin of error, and a maximum 
@@ -102,6 +120,22 @@ where
     K: Clone + Eq + Hash,
     anyhow::Error: From<E>,
 {
+    multivariate_newton_raphson_within(f, |_, x| x, guess, margin, limit)
+}
+
+/// The same for variables with domains: `within` gives the value in the domain
+/// of a variable that is closest to a given one. The search does not leave the
+/// domains.
+pub (in crate) fn multivariate_newton_raphson_within<K, E>(f: Vec<impl Fn(&HashMap<K, f64>) -> Result<f64, E>>, within: impl Fn(&K, f64) -> f64, guess: &mut HashMap<K, f64>, margin: f64, limit: usize) -> anyhow::Result<&mut HashMap<K, f64>>
+where 
+    K: Clone + Eq + Hash,
+    anyhow::Error: From<E>,
+{
+    for (var, x) in guess.iter_mut()
+    {
+        *x = within(var, *x);
+    }
+
     // Catch illegal margin of error
     if margin <= 0.0
     {
@@ -141,18 +175,20 @@ where
         // Correct jacobian values and invert
         for (j, var) in vars.iter().enumerate()
         {
+            let mut dx = _DX_;
             if let Some(v) = guess.get_mut(var)
             {
-                *v += _DX_;
+                dx = step_within(*v, within(var, *v + _DX_));
+                *v += dx;
             } 
             for i in 0..n
             {
                 // mutate values to partial derivatives
-                jacobian[(i, j)] = (f[i](guess)? - jacobian[(i, j)]) / _DX_;
+                jacobian[(i, j)] = (f[i](guess)? - jacobian[(i, j)]) / dx;
             }
             if let Some(v) = guess.get_mut(var)
             {
-                *v -= _DX_;
+                *v -= dx;
             } 
         }
 
@@ -186,7 +222,7 @@ where
         {
             if let (Some(guess_val), delta) = (guess.get_mut(var), deltas[(i, 0)])
             {
-                *guess_val -= delta;
+                *guess_val = within(var, *guess_val - delta);
             }
         }
 
diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index cc42fc6..d3277f5 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -1,5 +1,5 @@
 use std::collections::{HashMap, HashSet};
-use crate::newton::multivariate_newton_raphson;
+use crate::newton::multivariate_newton_raphson_within;
 use crate::shunting::{get_legal_variables_iter, ContextHashMap, Token};
 use crate::compile_equation_to_fn_of_hashmap;
 
@@ -354,8 +354,19 @@ impl System
             };
         }
 
-        let res = multivariate_newton_raphson(
+        let within = |key: &String, val: f64| match &self.context[key]
+        {
+            Token::Var(x) => {
+                let mut var = *x.borrow();
+                var.set(val);
+                var.into()
+            },
+            _ => val,
+        };
+
+        let res = multivariate_newton_raphson_within(
             self.system_equations, 
+            within,
             &mut guess,
             margin, 
             limit
-- 
2.43.0

