From 962e59a15f5613337bf25e5d0aad80c2a5ee5bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 01/36] fix: inplace_row_swap exchanged columns instead of rows

---
 gmatlib/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 455146a..bf129a9 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -252,9 +252,9 @@ where T: Element<T>
         let mut storage: T;
         for i in 0..self.cols
         {
-            storage       = self[(i, r1)];
-            self[(i, r1)] = self[(i, r2)];
-            self[(i, r2)] = storage;
+            storage       = self[(r1, i)];
+            self[(r1, i)] = self[(r2, i)];
+            self[(r2, i)] = storage;
         } 
     }
 
-- 
2.43.0


From f1f924f2dfc42f75d78af0d90b1f8ec119d7a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 02/36] fix: mutable matrix indexing wrote to another element
 when the column was out of range

---
 gmatlib/src/trait_impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index d5999b4..9f11a11 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -805,6 +805,10 @@ where T: Element<T>
     #[inline]
     fn index_mut(&mut self, index: (usize, usize)) -> &mut T 
     {
+        if index.0 >= self.rows || index.1 >= self.cols 
+        {
+            panic!("index out of bounds: the matrix has {} rows and {} cols but the index was [({}, {})]", self.rows, self.cols, index.0, index.1)
+        }
         &mut (self.vals[index.0 * self.cols + index.1])
     }
 }
-- 
2.43.0


From 397a10b4ea5922b27b834f70ca09a920590ed5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 03/36] fix: inverting a 3x3 matrix stored the transpose of the
 inverse

---
 gmatlib/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index bf129a9..62f3396 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -593,13 +593,13 @@ where T: Element<T>
     fn try_inplace_invert_3(&mut self) -> Result<()>
     {
         let a11 = self[(0, 0)];
-        let a12 = self[(1, 0)];
-        let a13 = self[(2, 0)];
-        let a21 = self[(0, 1)];
+        let a12 = self[(0, 1)];
+        let a13 = self[(0, 2)];
+        let a21 = self[(1, 0)];
         let a22 = self[(1, 1)];
-        let a23 = self[(2, 1)];
-        let a31 = self[(0, 2)];
-        let a32 = self[(1, 2)];
+        let a23 = self[(1, 2)];
+        let a31 = self[(2, 0)];
+        let a32 = self[(2, 1)];
         let a33 = self[(2, 2)];
 
         let det  = a11*a22*a33 + a21*a32*a13 + a31*a12*a23 
-- 
2.43.0


From 106a6b8bdd53a20ced39f3753fc13aa9a49aa873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 04/36] fix: wrong term in the 4x4 determinant used by matrix
 inversion

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 62f3396..4591078 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -646,7 +646,7 @@ where T: Element<T>
         let det  = a11*a22*a33*a44 + a11*a23*a34*a42 + a11*a24*a32*a43 +
                    a12*a21*a34*a43 + a12*a23*a31*a44 + a12*a24*a33*a41 + 
                    a13*a21*a32*a44 + a13*a22*a34*a41 + a13*a24*a31*a42 + 
-                   a14*a21*a33*a42 + a14*a22*a34*a43 + a14*a23*a32*a41 -
+                   a14*a21*a33*a42 + a14*a22*a31*a43 + a14*a23*a32*a41 -
                    a11*a22*a34*a43 - a11*a23*a32*a44 - a11*a24*a33*a42 -
                    a12*a21*a33*a44 - a12*a23*a34*a41 - a12*a24*a31*a43 -
                    a13*a21*a34*a42 - a13*a22*a31*a44 - a13*a24*a32*a41 -
-- 
2.43.0


From 52a2b00d5c092e3bcd41a6d516822590737d4618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 05/36] fix: newton_raphson accepted any step in the negative
 direction as converged

---
 geqslib/src/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 195bbae..8655159 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -48,7 +48,7 @@ where anyhow::Error: From<E>
     let delta = y / y_prime;
 
     // Check if we are sufficiently close to the solution:
-    if y.abs() <= margin && delta <= margin // ...in both the y AND x directions...
+    if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
     {
         return Ok(guess); // ...if so, exit early
     }
-- 
2.43.0


From 0fbf04db3065b035583516df2ef51573766bf368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 06/36] fix: solve_equation_with_context ignored the caller's
 initial guess

---
 geqslib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 5e58539..01e1d59 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -102,7 +102,7 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, ctx)?;
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, 1.0, margin, limit)?))
+    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From a0deb1f4d8ec8157ee6d7115eec298924ca56291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 07/36] fix: multivariate_newton_raphson compared the squared
 residual magnitude with the margin

---
 geqslib/src/newton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 8655159..5f9737d 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -165,7 +165,8 @@ where
     }
     let error = y.iter()
         .map(|v| v.powi(2))
-        .sum::<f64>();
+        .sum::<f64>()
+        .sqrt();
 
     // Calculate change vector and its magnitude
     let deltas = jacobian * Matrix::from_col_vec(y);
-- 
2.43.0


From a2d90d5a60ab16c1596ec313d4b2c5229d196f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 08/36] fix: an unmatched closing parenthesis in an expression
 was silently accepted

---
 geqslib/src/shunting.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index ddcb1c5..0b3b80f 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -159,20 +159,22 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
             },
 
             ")" => {
+                let mut found_opening = false;
                 while let Some(op) = stack.pop() 
                 {
                     if op != "(" 
                     {
                         queue.push(tokenize_with_context(op, context)?);
                     } 
-                    else if op == "(" 
+                    else 
                     {
+                        found_opening = true;
                         break;
                     } 
-                    else 
-                    {
-                        return Err(ShuntingYardError::UnclosedParenthesis.into())
-                    }
+                }
+                if !found_opening
+                {
+                    return Err(ShuntingYardError::UnclosedParenthesis.into())
                 }
                 unary_minus = false;
             },
-- 
2.43.0


From 4c5ecd069cf933b9d48641260eebd02cd268f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 09/36] fix: a function call was applied to the operators that
 follow its closing parenthesis

---
 geqslib/src/shunting.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 0b3b80f..faacbb6 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -176,6 +176,19 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                 {
                     return Err(ShuntingYardError::UnclosedParenthesis.into())
                 }
+
+                // A function in front of the parentheses takes exactly what they enclose
+                if let Some(name) = stack.pop()
+                {
+                    if let Some(Token::Func(_, _)) = context.get(name)
+                    {
+                        queue.push(tokenize_with_context(name, context)?);
+                    }
+                    else
+                    {
+                        stack.push(name);
+                    }
+                }
                 unary_minus = false;
             },
 
-- 
2.43.0


From 72453be8df6b2860a1a43ab550060530ae5dad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 10/36] fix: expressions whose operands and operators do not
 alternate were given a value

---
 geqslib/src/shunting.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index faacbb6..de3a623 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -133,8 +133,27 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
     let mut queue: Vec<Token> = Vec::new();
     let mut unary_minus = true; // Indicator for whether the next '-' token is a unary operator
 
+    let mut call_opened = false; // Indicator for whether the previous token opened a function's argument list
+
     for word in words 
     {
+        // Operands and binary operators must alternate
+        let expects_operand = unary_minus;
+        match word
+        {
+            "-" if expects_operand => {},
+            ")" if call_opened => {},
+            "," | ")" | "^" | "/" | "*" | "+" | "-" => if expects_operand
+            {
+                return Err(ShuntingYardError::ExpectedArg.into())
+            },
+            _ => if !expects_operand
+            {
+                return Err(ShuntingYardError::LeftoverToken.into())
+            },
+        }
+        call_opened = word == "(" && stack.last().is_some_and(|name| matches!(context.get(*name), Some(Token::Func(_, _))));
+
         match word 
         {
             "," => {
@@ -256,6 +275,11 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
         }   
     }
     
+    if unary_minus && !(queue.is_empty() && stack.is_empty())
+    {
+        return Err(ShuntingYardError::ExpectedArg.into())
+    }
+
     while let Some(tok) = stack.pop() 
     {
         if "()".contains(tok) 
-- 
2.43.0


From 32cb907cf36d98d792d6187820272d45dfaa5b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 11/36] fix: an equation rejected by SystemBuilder left its
 unknowns in the builder's context

---
 geqslib/src/system.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 1e41440..bb39026 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -136,9 +136,12 @@ impl SystemBuilder
         }        
 
         // Add the equation to the system, updating the context with any newly-added variables
+        // only if the equation could be compiled
+        let mut context = self.context.clone();
         self.system_equations.push(
-            Box::new(compile_equation_to_fn_of_hashmap(equation, &mut self.context)?) 
+            Box::new(compile_equation_to_fn_of_hashmap(equation, &mut context)?) 
         );
+        self.context = context;
 
         // Add possible newly-found variable to the system
         if let Some(new_var) = unknowns.pop()
-- 
2.43.0


From c294e9c4f3ca27fa0c4348c84669f7d69d151a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 12/36] fix: a system could not be solved when a later equation
 introduced a new unknown

---
 geqslib/src/shunting.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index de3a623..459b398 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -350,6 +350,7 @@ pub fn compile_to_fn_of_hashmap(expr: &str, context: &ContextHashMap) -> anyhow:
             match arg_lookup_table.get(var)
             {
                 Some(Token::Var(r)) => (*r.borrow_mut()).set(*value),
+                None => {}, // not used by this expression
                 _ => return Err(CompiledExpressionLookupError.into()),
             }
         }
-- 
2.43.0


From a014a4a0a3635e6bd5fc767c569b57a8a2f1eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 13/36] fix: known variables in the context made System::solve
 fail

---
 geqslib/src/system.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index bb39026..8f14327 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -342,6 +342,12 @@ impl System
         let mut guess = HashMap::new();
         for (key, var) in self.context
         {
+            // Variables that were already in the given context are known values
+            if !self.system_vars.contains(&key)
+            {
+                continue;
+            }
+
             match var
             {
                 Token::Var(x) => guess.insert(key, (*x.borrow()).into()),
-- 
2.43.0


From de77ba70523b1b93f77291d55ac36df1fc7064a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 14/36] fix: a solved single-unknown equation made the
 following equations unsolvable

---
 nexsys/src/lib.rs | 402 +++++++++++++++++++++++-----------------------
 1 file changed, 201 insertions(+), 201 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index dfcd9a8..20e5ed1 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -1,202 +1,202 @@
-/// Different errors specific to Nexsys implementations of algorithms.
-pub mod errors;
-/// Provides `extern "C"` functions for use in other programming languages. Not 
-/// intended for use in other Rust projects.
-pub mod ffi;
-/// Provides tools for parsing text prior to passing to the equation solving engine.
-pub mod parsing;
-/// Provides data sets of common units and functions for converting between them.
-pub mod units;
-
-use std::collections::HashMap;
-
-use geqslib::solve_equation_with_context;
-use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
-use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
-
-use parsing::compile;
-
-/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
-fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
-        if unknowns.len() != 1
-        {
-            return Ok(false);
-        }
-
-        let var_info: [f64; 3];
-        if declared.contains_key(unknowns[0])
-        {
-            var_info = declared[unknowns[0]];
-        }
-        else
-        {
-            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
-        }
-
-        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_var_with_domain_to_ctx(&soln.0, soln.1, var_info[1], var_info[2]);
-        *log_step = format!(
-            "Var: {:#?} \nEquation: {}", 
-            soln.0, equation
-        );
-        eqn_pool.remove(i);
-        return Ok(true);
-    }
-    Ok(false)
-}
-
-fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
-        let mut eqn_strings = vec![equation.to_owned()];
-
-        for (j, equation) in eqn_pool.iter().enumerate()
-        {
-            // Skip the current equation we're building a system with 
-            // OR an equation that we've already added to the system
-            if j == i || eqn_strings.contains(equation)
-            {
-                continue;
-            }
-
-            // println!("Constraint status: {}", builder.is_fully_constrained());
-
-            match builder.try_constrain_with(equation)?
-            {
-                ConstrainResult::WillConstrain => {
-                    eqn_strings.push(equation.to_owned());
-                    // println!("constrained with: {}", equation);
-                },
-                ConstrainResult::WillOverConstrain => break,
-                _ => {}
-            }
-        }
-            
-        *log_step = format!("{:#?}", eqn_strings);
-
-        // Solve the found constrained system:
-        if let Some(mut system) = builder.build_system()
-        {
-            for (var, var_info) in declared
-            {
-                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
-            }
-
-            let soln = system.solve(margin, limit)?;
-            for (var, val) in soln 
-            {
-                ctx.add_const_to_ctx(&var, val);
-            }
-            
-            let remaining_eqns: Vec<String> = eqn_pool.iter()
-                .filter(|x| !eqn_strings.contains(x) && x != &equation)
-                .map(|x| x.to_owned())
-                .collect();
-
-            eqn_pool.clear();
-            eqn_pool.extend(remaining_eqns);
-
-            // println!("{:#?}", eqn_pool);
-
-            return Ok(true);
-        }
-    }
-
-    Ok(false)
-}
-
-/// Solves a system of equations in plain-text format.
-/// For more supported syntax, see `solve_with_preprocessors`
-/// 
-/// # Example
-/// ```
-/// ```
-pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut log = vec![];
-    let mut eqn_pool = system.split('\n')
-        .filter(|x| x.contains('='))
-        .map(|x| x.to_owned())
-        .collect();
-
-    loop
-    {
-        let mut log_step = String::default();
-        // Get less expensive solutions:
-        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-
-        // Dig in and solve a more expensive subsystem:
-        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-        
-        break;
-    }
-
-    let mut soln_map = HashMap::new(); 
-    for (name, val) in ctx
-    {
-        match val
-        {
-            Token::Var(v) => {
-                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
-            },
-            Token::Num(n) => {
-                soln_map.insert(name.to_owned(), *n);
-            },
-            _ => {} 
-        }
-    }
-
-    Ok((log, soln_map))
-}
-
-/// Solves a system of equations with additional syntax used to indicate 
-/// unit conversions, constant known values, nicer if statements, and more.
-/// 
-/// # Example
-/// ```
-/// use nexsys::solve_with_preprocessors;
-/// 
-/// let system = r#"
-/// keep x on [0, 100]
-/// guess 3 for y
-/// const nine = 9
-/// 
-/// x + y = nine
-/// x - y = 4
-/// 
-/// if x > y:
-///     i = 1
-/// else:
-///     i = -1
-/// end
-/// "#;
-/// 
-/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
-///     .expect("failed to solve system!");
-/// 
-/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
-/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
-/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
-/// ```
-pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut ctx = new_context(); 
-    let mut declared = HashMap::new();
-    let compiled = compile(system, &mut ctx, &mut declared)?;
-
-    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
+/// Different errors specific to Nexsys implementations of algorithms.
+pub mod errors;
+/// Provides `extern "C"` functions for use in other programming languages. Not 
+/// intended for use in other Rust projects.
+pub mod ffi;
+/// Provides tools for parsing text prior to passing to the equation solving engine.
+pub mod parsing;
+/// Provides data sets of common units and functions for converting between them.
+pub mod units;
+
+use std::collections::HashMap;
+
+use geqslib::solve_equation_with_context;
+use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
+use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
+
+use parsing::compile;
+
+/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
+fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
+        if unknowns.len() != 1
+        {
+            return Ok(false);
+        }
+
+        let var_info: [f64; 3];
+        if declared.contains_key(unknowns[0])
+        {
+            var_info = declared[unknowns[0]];
+        }
+        else
+        {
+            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
+        }
+
+        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
+        ctx.add_const_to_ctx(&soln.0, soln.1);
+        *log_step = format!(
+            "Var: {:#?} \nEquation: {}", 
+            soln.0, equation
+        );
+        eqn_pool.remove(i);
+        return Ok(true);
+    }
+    Ok(false)
+}
+
+fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
+        let mut eqn_strings = vec![equation.to_owned()];
+
+        for (j, equation) in eqn_pool.iter().enumerate()
+        {
+            // Skip the current equation we're building a system with 
+            // OR an equation that we've already added to the system
+            if j == i || eqn_strings.contains(equation)
+            {
+                continue;
+            }
+
+            // println!("Constraint status: {}", builder.is_fully_constrained());
+
+            match builder.try_constrain_with(equation)?
+            {
+                ConstrainResult::WillConstrain => {
+                    eqn_strings.push(equation.to_owned());
+                    // println!("constrained with: {}", equation);
+                },
+                ConstrainResult::WillOverConstrain => break,
+                _ => {}
+            }
+        }
+            
+        *log_step = format!("{:#?}", eqn_strings);
+
+        // Solve the found constrained system:
+        if let Some(mut system) = builder.build_system()
+        {
+            for (var, var_info) in declared
+            {
+                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
+            }
+
+            let soln = system.solve(margin, limit)?;
+            for (var, val) in soln 
+            {
+                ctx.add_const_to_ctx(&var, val);
+            }
+            
+            let remaining_eqns: Vec<String> = eqn_pool.iter()
+                .filter(|x| !eqn_strings.contains(x) && x != &equation)
+                .map(|x| x.to_owned())
+                .collect();
+
+            eqn_pool.clear();
+            eqn_pool.extend(remaining_eqns);
+
+            // println!("{:#?}", eqn_pool);
+
+            return Ok(true);
+        }
+    }
+
+    Ok(false)
+}
+
+/// Solves a system of equations in plain-text format.
+/// For more supported syntax, see `solve_with_preprocessors`
+/// 
+/// # Example
+/// ```
+/// ```
+pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut log = vec![];
+    let mut eqn_pool = system.split('\n')
+        .filter(|x| x.contains('='))
+        .map(|x| x.to_owned())
+        .collect();
+
+    loop
+    {
+        let mut log_step = String::default();
+        // Get less expensive solutions:
+        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+
+        // Dig in and solve a more expensive subsystem:
+        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+        
+        break;
+    }
+
+    let mut soln_map = HashMap::new(); 
+    for (name, val) in ctx
+    {
+        match val
+        {
+            Token::Var(v) => {
+                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
+            },
+            Token::Num(n) => {
+                soln_map.insert(name.to_owned(), *n);
+            },
+            _ => {} 
+        }
+    }
+
+    Ok((log, soln_map))
+}
+
+/// Solves a system of equations with additional syntax used to indicate 
+/// unit conversions, constant known values, nicer if statements, and more.
+/// 
+/// # Example
+/// ```
+/// use nexsys::solve_with_preprocessors;
+/// 
+/// let system = r#"
+/// keep x on [0, 100]
+/// guess 3 for y
+/// const nine = 9
+/// 
+/// x + y = nine
+/// x - y = 4
+/// 
+/// if x > y:
+///     i = 1
+/// else:
+///     i = -1
+/// end
+/// "#;
+/// 
+/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
+///     .expect("failed to solve system!");
+/// 
+/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
+/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
+/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
+/// ```
+pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut ctx = new_context(); 
+    let mut declared = HashMap::new();
+    let compiled = compile(system, &mut ctx, &mut declared)?;
+
+    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
 }
\ No newline at end of file
-- 
2.43.0


From 9322649edd74806439228c4f5cc295a42995d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 15/36] fix: cubed length units used the square of the length
 factor

---
 nexsys/src/units/mod.rs | 326 ++++++++++++++++++++--------------------
 1 file changed, 163 insertions(+), 163 deletions(-)

diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index ddbc04e..d175f83 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -1,164 +1,164 @@
-use lazy_static::lazy_static;
-use serde_json::{Value, from_str};
-use std::collections::HashMap;
-
-use crate::errors::UnitConversionError;
-
-/// Handles generating additional units for various combinations of other units
-fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
-    
-    let mut temp = HashMap::new();
-    
-    for i in &data[&num.to_string()] {
-    
-        for j in &data[&denom.to_string()] {
-    
-            temp.insert(
-                format!("{}/{}", i.0, j.0),
-                *i.1 / *j.1
-            );
-        
-        }
-    
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    if fc1 == fc2 {
-        for i in &data[&fc1.to_string()] {
-            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
-        }
-    } else {
-        for i in &data[&fc1.to_string()] {
-            for j in &data[&fc2.to_string()] {
-                let val = *i.1 * *j.1;
-                temp.insert( format!("{}-{}", i.0, j.0), val);
-                temp.insert( format!("{}-{}", j.0, i.0), val);
-            }
-        }
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1);    
-    }
-
-    if let Some(d) = data.get_mut("VOLUME") {
-        d.extend(temp.into_iter());
-    }
-    
-    data
-}
-
-/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
-
-    let raw_text = include_str!("units.json");
-    let err = "failed to parse json... is the formatting of 'units.json' correct?";
-    
-    // again I ask, lord forgive me for what I am about to do...
-    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| (
-            i.0.to_string(), 
-            i.1.as_object().expect(err).into_iter()
-            .map(
-                |j| (
-                    j.0.to_string(), 
-                    j.1.as_f64().expect(err)
-                )
-            ).collect()
-        )
-    ).collect();
-
-    dejson
-}
-
-/// Generates a more complete set of unit conversion data by combining different units to create other common units.
-pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
-    let mut data = raw_unit_data();
-    data.insert("SPRING FORCE".to_string(), HashMap::new());
-
-    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
-    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
-    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
-    data =    generate_volume_units(data);
-
-
-    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
-    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
-    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
-    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
-    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
-    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
-
-    data
-}
-
-/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
-pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
-    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
-        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
-    }
-
-    let cf: Vec<f64> = UD.iter()
-    .filter(|&i| { 
-        let qty = UD.get(i.0).unwrap().clone();
-        qty.contains_key(fro) && qty.contains_key(to)
-    }).map(|i| {
-        i.1[fro] / i.1[to]
-    }).collect();
-
-    if cf.len() != 1 {
-        return Err(UnitConversionError.into())
-    }
-
-    Ok(cf[0])
-}
-
-/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn const_data() -> HashMap<String, f64> {
-
-    let raw_text = include_str!("consts.json");
-    let err = "failed to parse json... is the formatting of consts.json correct?";
-    
-    // thankfully this isn't as bad as reading units.json
-    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| {
-            let err = format!("failed to parse json: {:#?}", i.1);
-            let c1 = i.1.as_array().expect(&err);
-
-            let err = format!("failed to parse json: {:#?}", c1[1]);
-            let c2 = match c1[1].as_f64() {
-                Some(c) => c,
-                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
-            };
-
-            (i.0.to_string(), c2)
-
-    }).collect();
-
-    dejson
+use lazy_static::lazy_static;
+use serde_json::{Value, from_str};
+use std::collections::HashMap;
+
+use crate::errors::UnitConversionError;
+
+/// Handles generating additional units for various combinations of other units
+fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
+    
+    let mut temp = HashMap::new();
+    
+    for i in &data[&num.to_string()] {
+    
+        for j in &data[&denom.to_string()] {
+    
+            temp.insert(
+                format!("{}/{}", i.0, j.0),
+                *i.1 / *j.1
+            );
+        
+        }
+    
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    if fc1 == fc2 {
+        for i in &data[&fc1.to_string()] {
+            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
+        }
+    } else {
+        for i in &data[&fc1.to_string()] {
+            for j in &data[&fc2.to_string()] {
+                let val = *i.1 * *j.1;
+                temp.insert( format!("{}-{}", i.0, j.0), val);
+                temp.insert( format!("{}-{}", j.0, i.0), val);
+            }
+        }
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    for i in &data[&"LENGTH".to_string()] {
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
+    }
+
+    if let Some(d) = data.get_mut("VOLUME") {
+        d.extend(temp.into_iter());
+    }
+    
+    data
+}
+
+/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
+
+    let raw_text = include_str!("units.json");
+    let err = "failed to parse json... is the formatting of 'units.json' correct?";
+    
+    // again I ask, lord forgive me for what I am about to do...
+    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| (
+            i.0.to_string(), 
+            i.1.as_object().expect(err).into_iter()
+            .map(
+                |j| (
+                    j.0.to_string(), 
+                    j.1.as_f64().expect(err)
+                )
+            ).collect()
+        )
+    ).collect();
+
+    dejson
+}
+
+/// Generates a more complete set of unit conversion data by combining different units to create other common units.
+pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
+    let mut data = raw_unit_data();
+    data.insert("SPRING FORCE".to_string(), HashMap::new());
+
+    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
+    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
+    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
+    data =    generate_volume_units(data);
+
+
+    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
+    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
+    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
+    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
+    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
+    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
+
+    data
+}
+
+/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
+pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
+    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
+        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
+    }
+
+    let cf: Vec<f64> = UD.iter()
+    .filter(|&i| { 
+        let qty = UD.get(i.0).unwrap().clone();
+        qty.contains_key(fro) && qty.contains_key(to)
+    }).map(|i| {
+        i.1[fro] / i.1[to]
+    }).collect();
+
+    if cf.len() != 1 {
+        return Err(UnitConversionError.into())
+    }
+
+    Ok(cf[0])
+}
+
+/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn const_data() -> HashMap<String, f64> {
+
+    let raw_text = include_str!("consts.json");
+    let err = "failed to parse json... is the formatting of consts.json correct?";
+    
+    // thankfully this isn't as bad as reading units.json
+    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| {
+            let err = format!("failed to parse json: {:#?}", i.1);
+            let c1 = i.1.as_array().expect(&err);
+
+            let err = format!("failed to parse json: {:#?}", c1[1]);
+            let c2 = match c1[1].as_f64() {
+                Some(c) => c,
+                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
+            };
+
+            (i.0.to_string(), c2)
+
+    }).collect();
+
+    dejson
 }
\ No newline at end of file
-- 
2.43.0


From 6b7bab10259b326e9b605e2fd878e1802477e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 16/36] fix: a potential source driving its input node started
 it on the wrong side of the output node

---
 neapolitan/src/dc_circuits.rs   | 2 +-
 neapolitan/src/heat_transfer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index 25c65a5..d31ad85 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -54,7 +54,7 @@ pub fn voltage_source(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index c7a811a..91fe3bf 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -115,7 +115,7 @@ pub fn temperature_delta(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
-- 
2.43.0


From d880498341427b612076a9a6173a1200934f290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 17/36] fix: flux through a potential source driving its input
 node had the wrong sign

---
 neapolitan/src/flux_formulas.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neapolitan/src/flux_formulas.rs b/neapolitan/src/flux_formulas.rs
index 3ac3fe8..f71e491 100644
--- a/neapolitan/src/flux_formulas.rs
+++ b/neapolitan/src/flux_formulas.rs
@@ -55,7 +55,11 @@ pub fn observe_flux(
     let mut discrepancy = sub_ref.try_borrow()?
         .get_flux_discrepancy()?;
 
-    discrepancy.inplace_scale(-1.0);
+    // The element carries flux into its output node but out of its input node
+    if drives_output
+    {
+        discrepancy.inplace_scale(-1.0);
+    }
 
     Ok(discrepancy)
 }
-- 
2.43.0


From e25dde7f8d37f63d09215f8aca3ca9e241c997f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 18/36] fix: removing a short comment also cut the start of
 longer comments

---
 nexsys/src/parsing/mod.rs | 423 +++++++++++++++++++-------------------
 1 file changed, 208 insertions(+), 215 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index a8087d9..f60fe43 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -1,216 +1,209 @@
-mod conditionals;
-// mod duplicate; TODO: need to polish this up.
-
-use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
-use lazy_static::lazy_static;
-use regex::Regex;
-use std::collections::HashMap;
-use crate::{units::{convert, const_data}, errors::ConstFormatError};
-
-pub use conditionals::*;
-
-const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
-
-/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
-fn nexsys_regex(pattern: &str) -> Regex
-{
-    Regex::new(&pattern
-        .replace("@N", LEGAL_NUM_PATTERN)
-        .replace("@V", LEGAL_VAR_PATTERN)
-    ).unwrap()
-}
-
-/// Identifies and returns guess values found in a Nexsys-legal string.
-pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let guesses = RE.captures_iter(text);
-
-    for g in guesses 
-    {
-        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
-                .expect("failed to parse number in guess declaration")
-        );
-    }
-    res
-}
-
-/// Identifies and returns domains found in a Nexsys-legal string.
-pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let domains = RE.captures_iter(text);
-
-    for d in domains 
-    {
-        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
-                .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
-                .expect("failed to parse second number in domain declaration")]
-        );
-    }
-    res
-}
-
-/// Identifies and removes comments found in a Nexsys-legal string.
-pub fn comments(text: &str) -> String 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
-    }
-    let mut output = text.to_string();
-
-    for f in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        output = output.replace(f, "");
-    }
-
-    output
-}
-
-/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-pub fn conversions(text: &str) -> anyhow::Result<String> {
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
-    }
-
-    let mut output = text.to_string();
-
-    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
-
-    for m in res 
-    {
-        let pre = m.replace(['[', ']'], "");
-        
-        let args: Vec<&str> = pre.split("->").collect();
-        
-        output = output.replace(m, 
-            &format!("{}", convert(args[0], args[1])? )
-        );
-    }
-
-    Ok(output)
-}
-
-/// Identifies and replaces any constants in a Nexsys-legal string.
-pub fn consts(text: &str) -> anyhow::Result<String> 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
-        static ref CONSTS: HashMap<String, f64> = const_data();
-    }
-
-    let mut output = text.to_string();
-
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
-        {
-            output = output.replace(m, &c.to_string());
-        } 
-        else 
-        {
-            return Err(ConstFormatError.into())
-        }
-    }
-    Ok(output)
-}
-
-pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let const_vals = RE.captures_iter(text);
-
-    for c in const_vals
-    {
-        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            c.get(1).unwrap().as_str().to_owned(), 
-            eval_str(c.get(2).unwrap().as_str())?
-        );
-    }
-    Ok(res)
-}
-
-/// Wraps most functions in `nexsys::parsing`, returning either an error that 
-/// prevents the code from being solvable or the intermediate language representation
-/// of the `.nxs`-formatted code.
-/// 
-/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
-pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
-{    
-    let sys_domains: HashMap<String, [f64; 2]>;
-    let sys_guesses: HashMap<String, f64>;
-    let sys_consts:  HashMap<String, f64>;
-    
-    let mut nil = comments(code); 
-
-    // Copy-paste all common engineering constants (this happens first so users can rename constants)
-    nil = consts(&nil)?;
-
-    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
-    nil = conversions(&nil)?;
-
-    // Set all constants used in the solution
-    (nil, sys_consts) = const_values(&nil)?;
-    for (var, val) in sys_consts
-    {
-        ctx.add_const_to_ctx(&var, val);
-    }
-
-    // Set all domains for variables in the solution
-    (nil, sys_domains) = domains(&nil);
-    for (var, bounds) in sys_domains
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[1] = bounds[0];
-            var_info[2] = bounds[1];
-        }
-        else 
-        {
-            declared.insert(var, [1.0, bounds[0], bounds[1]]);
-        }
-    }
-
-    // Set all initial guesses for variables in the solution
-    (nil, sys_guesses) = guess_values(&nil);
-    for (var, guess) in sys_guesses
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[0] = guess;
-        }
-        else 
-        {
-            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
-        }
-    }
-
-    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
-    nil = conditionals(&nil)?;
-
-    Ok(nil)
+mod conditionals;
+// mod duplicate; TODO: need to polish this up.
+
+use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
+use lazy_static::lazy_static;
+use regex::Regex;
+use std::collections::HashMap;
+use crate::{units::{convert, const_data}, errors::ConstFormatError};
+
+pub use conditionals::*;
+
+const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
+
+/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
+fn nexsys_regex(pattern: &str) -> Regex
+{
+    Regex::new(&pattern
+        .replace("@N", LEGAL_NUM_PATTERN)
+        .replace("@V", LEGAL_VAR_PATTERN)
+    ).unwrap()
+}
+
+/// Identifies and returns guess values found in a Nexsys-legal string.
+pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let guesses = RE.captures_iter(text);
+
+    for g in guesses 
+    {
+        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            g.get(2).unwrap().as_str().to_owned(), 
+            g.get(1).unwrap().as_str().parse()
+                .expect("failed to parse number in guess declaration")
+        );
+    }
+    res
+}
+
+/// Identifies and returns domains found in a Nexsys-legal string.
+pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let domains = RE.captures_iter(text);
+
+    for d in domains 
+    {
+        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            d.get(1).unwrap().as_str().to_owned(),
+            [d.get(2).unwrap().as_str().parse()
+                .expect("failed to parse first number in domain declaration"),
+            d.get(3).unwrap().as_str().parse()
+                .expect("failed to parse second number in domain declaration")]
+        );
+    }
+    res
+}
+
+/// Identifies and removes comments found in a Nexsys-legal string.
+pub fn comments(text: &str) -> String 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
+    }
+    RE.replace_all(text, "").into_owned()
+}
+
+/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
+pub fn conversions(text: &str) -> anyhow::Result<String> {
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
+    }
+
+    let mut output = text.to_string();
+
+    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
+
+    for m in res 
+    {
+        let pre = m.replace(['[', ']'], "");
+        
+        let args: Vec<&str> = pre.split("->").collect();
+        
+        output = output.replace(m, 
+            &format!("{}", convert(args[0], args[1])? )
+        );
+    }
+
+    Ok(output)
+}
+
+/// Identifies and replaces any constants in a Nexsys-legal string.
+pub fn consts(text: &str) -> anyhow::Result<String> 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref CONSTS: HashMap<String, f64> = const_data();
+    }
+
+    let mut output = text.to_string();
+
+    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    {
+        if let Some(c) = CONSTS.get(&m.to_string()) 
+        {
+            output = output.replace(m, &c.to_string());
+        } 
+        else 
+        {
+            return Err(ConstFormatError.into())
+        }
+    }
+    Ok(output)
+}
+
+pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let const_vals = RE.captures_iter(text);
+
+    for c in const_vals
+    {
+        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            c.get(1).unwrap().as_str().to_owned(), 
+            eval_str(c.get(2).unwrap().as_str())?
+        );
+    }
+    Ok(res)
+}
+
+/// Wraps most functions in `nexsys::parsing`, returning either an error that 
+/// prevents the code from being solvable or the intermediate language representation
+/// of the `.nxs`-formatted code.
+/// 
+/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
+pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
+{    
+    let sys_domains: HashMap<String, [f64; 2]>;
+    let sys_guesses: HashMap<String, f64>;
+    let sys_consts:  HashMap<String, f64>;
+    
+    let mut nil = comments(code); 
+
+    // Copy-paste all common engineering constants (this happens first so users can rename constants)
+    nil = consts(&nil)?;
+
+    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
+    nil = conversions(&nil)?;
+
+    // Set all constants used in the solution
+    (nil, sys_consts) = const_values(&nil)?;
+    for (var, val) in sys_consts
+    {
+        ctx.add_const_to_ctx(&var, val);
+    }
+
+    // Set all domains for variables in the solution
+    (nil, sys_domains) = domains(&nil);
+    for (var, bounds) in sys_domains
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[1] = bounds[0];
+            var_info[2] = bounds[1];
+        }
+        else 
+        {
+            declared.insert(var, [1.0, bounds[0], bounds[1]]);
+        }
+    }
+
+    // Set all initial guesses for variables in the solution
+    (nil, sys_guesses) = guess_values(&nil);
+    for (var, guess) in sys_guesses
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[0] = guess;
+        }
+        else 
+        {
+            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
+        }
+    }
+
+    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
+    nil = conditionals(&nil)?;
+
+    Ok(nil)
 }
\ No newline at end of file
-- 
2.43.0


From 1746fd49670546830016e670236844053040bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 19/36] fix: removing a declaration also cut the start of
 longer declarations

---
 nexsys/src/parsing/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index f60fe43..36bf78b 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -28,12 +28,11 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
     {
         static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
     }
-    let mut res = (text.to_owned(), HashMap::new());
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
     let guesses = RE.captures_iter(text);
 
     for g in guesses 
     {
-        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
             g.get(1).unwrap().as_str().parse()
@@ -50,12 +49,11 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
     {
         static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
     }
-    let mut res = (text.to_owned(), HashMap::new());
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
     let domains = RE.captures_iter(text);
 
     for d in domains 
     {
-        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
         res.1.insert(
             d.get(1).unwrap().as_str().to_owned(),
             [d.get(2).unwrap().as_str().parse()
@@ -133,12 +131,11 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
     {
         static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
     }
-    let mut res = (text.to_owned(), HashMap::new());
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
     let const_vals = RE.captures_iter(text);
 
     for c in const_vals
     {
-        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
         res.1.insert(
             c.get(1).unwrap().as_str().to_owned(), 
             eval_str(c.get(2).unwrap().as_str())?
-- 
2.43.0


From 412eab265e7011ed23402be948238deb3dbdb782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 20/36] fix: substituting a constant also replaced the start of
 longer constant names

---
 nexsys/src/parsing/mod.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 36bf78b..1cbf7e8 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -105,24 +105,16 @@ pub fn consts(text: &str) -> anyhow::Result<String>
 {
     lazy_static! 
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z][a-z0-9_]*");
         static ref CONSTS: HashMap<String, f64> = const_data();
     }
 
-    let mut output = text.to_string();
-
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    if RE.find_iter(text).any(|m| !CONSTS.contains_key(m.as_str()))
     {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
-        {
-            output = output.replace(m, &c.to_string());
-        } 
-        else 
-        {
-            return Err(ConstFormatError.into())
-        }
+        return Err(ConstFormatError.into())
     }
-    Ok(output)
+
+    Ok(RE.replace_all(text, |m: &regex::Captures| CONSTS[&m[0]].to_string()).into_owned())
 }
 
 pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
-- 
2.43.0


From e78adc0df2c8bf64d6ff5ef423125dde1f27c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 21/36] fix: function calls without parentheses or with the
 wrong number of arguments were given a value

---
 geqslib/src/shunting.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 459b398..9353bd5 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -134,6 +134,7 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
     let mut unary_minus = true; // Indicator for whether the next '-' token is a unary operator
 
     let mut call_opened = false; // Indicator for whether the previous token opened a function's argument list
+    let mut open_calls: Vec<Option<(usize, usize)>> = Vec::new(); // Expected and found arguments for each open parenthesis
 
     for word in words 
     {
@@ -152,7 +153,37 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                 return Err(ShuntingYardError::LeftoverToken.into())
             },
         }
-        call_opened = word == "(" && stack.last().is_some_and(|name| matches!(context.get(*name), Some(Token::Func(_, _))));
+
+        // Functions must be called on an argument list of the right length
+        let callee_args = match stack.last().and_then(|name| context.get(*name))
+        {
+            Some(Token::Func(args, _)) => Some(*args),
+            _ => None,
+        };
+        match word
+        {
+            "(" => open_calls.push(callee_args.map(|args| (args, 1))),
+            _ if callee_args.is_some() => return Err(ShuntingYardError::ExpectedArg.into()),
+            "," => match open_calls.last_mut()
+            {
+                Some(Some((_, found))) => *found += 1,
+                _ => return Err(ShuntingYardError::LeftoverToken.into()),
+            },
+            ")" => if let Some(Some((expected, found))) = open_calls.pop()
+            {
+                let found = if call_opened { 0 } else { found };
+                if found < expected
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into())
+                }
+                if found > expected
+                {
+                    return Err(ShuntingYardError::LeftoverToken.into())
+                }
+            },
+            _ => {},
+        }
+        call_opened = word == "(" && callee_args.is_some();
 
         match word 
         {
-- 
2.43.0


From f4d3deeb5c9c787be5e02e2a0d914656c1aefcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 22/36] fix: solutions could lie outside the domain the
 equation was evaluated in

---
 geqslib/src/lib.rs    |  7 ++++++-
 geqslib/src/system.rs | 19 +++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 01e1d59..e1cd3ce 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -22,6 +22,7 @@ use errors::EquationSolverError;
 use newton::newton_raphson;
 use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
 use system::get_equation_unknowns;
+use variable::Variable;
 
 /// An internal function for formatting a single-unknown equation to an expression prior to tokenization 
 pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -> anyhow::Result<impl Fn(f64) -> anyhow::Result<f64>>
@@ -102,7 +103,11 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, ctx)?;
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
+    // The equation was evaluated inside the variable's domain, so its solution lies there too
+    let mut solution = Variable::new(guess, min, max);
+    solution.set(newton_raphson(f, guess, margin, limit)?);
+
+    Ok((unknowns[0].to_owned(), solution.into()))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 8f14327..a03ec30 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -340,17 +340,17 @@ impl System
     pub fn solve(self, margin: f64, limit: usize) -> anyhow::Result<HashMap<String, f64>>
     {
         let mut guess = HashMap::new();
-        for (key, var) in self.context
+        for (key, var) in &self.context
         {
             // Variables that were already in the given context are known values
-            if !self.system_vars.contains(&key)
+            if !self.system_vars.contains(key)
             {
                 continue;
             }
 
             match var
             {
-                Token::Var(x) => guess.insert(key, (*x.borrow()).into()),
+                Token::Var(x) => guess.insert(key.clone(), (*x.borrow()).into()),
                 _ => continue,
             };
         }
@@ -362,7 +362,18 @@ impl System
             limit
         )?;
 
-        Ok(res.clone())
+        // The equations were evaluated inside the variables' domains, so their solution lies there too
+        let mut soln = res.clone();
+        for (key, value) in soln.iter_mut()
+        {
+            if let Some(Token::Var(x)) = self.context.get(key)
+            {
+                (*x.borrow_mut()).set(*value);
+                *value = (*x.borrow()).into();
+            }
+        }
+
+        Ok(soln)
     }
 }
 
-- 
2.43.0


From eb7b82aae493621a6b32ef71bc5e376023eb450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 23/36] fix: a system without unknowns made the multivariate
 solver panic

---
 geqslib/src/newton.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 5f9737d..b5e965b 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -123,6 +123,12 @@ where
         return Err(NewtonRaphsonSolverError::ImproperlyConstrainedSystem.into());
     }
 
+    // Nothing to solve for
+    if n == 0
+    {
+        return Ok(guess);
+    }
+
     // Build jacobian w/ F(X) values... we will mutate them to F'(X) later
     let mut elements = vec![];
     for func in &f 
-- 
2.43.0


From e66f5800819a4872cb439ccc518edf799a44f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 24/36] fix: nodal study could report a network out of balance
 by using stale driven potentials

---
 neapolitan/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 222c295..d6e6f4e 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -286,6 +286,7 @@ impl NodalAnalysisStudyBuilder
                 };
 
                 let local_nodes = nodes.to_vec();
+                let local_elements = elements.to_vec();
 
                 guess.insert(idx, 1.0);
                 partials.push(move |x: &HashMap<ComponentIndex, f64>| {
@@ -296,6 +297,12 @@ impl NodalAnalysisStudyBuilder
                             .potential[(component as usize, 0)] = val;
                     }
 
+                    // Driven nodes must follow the new potentials before any flux is observed
+                    for elem in &local_elements
+                    {
+                        elem.get_flux()?;
+                    }
+
                     let flux_discrepancy = local_nodes[node_idx]
                         .try_borrow()?
                         .get_flux_discrepancy()?;
@@ -314,6 +321,11 @@ impl NodalAnalysisStudyBuilder
             node.potential[(idx.component as usize, 0)] = *component;
         }
 
+        for elem in &elements
+        {
+            elem.get_flux()?;
+        }
+
         // Step 6 - gather results
         let mut result = NodalAnalysisStudyResult 
         { 
-- 
2.43.0


From 4ee935c22be1ff67dc540dd19a9f91ffa4f8668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:23 +0000
Subject: [PATCH 25/36] fix: each side of an equation must be an expression on
 its own

---
 geqslib/src/lib.rs      | 14 +++++++++++++-
 geqslib/src/shunting.rs | 11 +++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index e1cd3ce..1decae7 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -20,7 +20,7 @@ use std::collections::{HashMap, HashSet};
 use context::ContextLike;
 use errors::EquationSolverError;
 use newton::newton_raphson;
-use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
+use shunting::{ContextHashMap, check_expression, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
 use system::get_equation_unknowns;
 use variable::Variable;
 
@@ -35,6 +35,12 @@ pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -
         2 => (),
         _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
     }
+
+    // Joining the sides must not make up for what either of them lacks
+    for side in &sides
+    {
+        check_expression(side, ctx)?;
+    }
     
     compile_to_fn(&format!("{} - ({})", sides[0], sides[1]), ctx)
 }
@@ -62,6 +68,12 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         ctx.add_var_with_domain_to_ctx(&var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
+    // Joining the sides must not make up for what either of them lacks
+    for side in &sides
+    {
+        check_expression(side, ctx)?;
+    }
+
     compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx)
 }
 
diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 9353bd5..3b6a472 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -457,6 +457,17 @@ pub fn compile_to_fn(expr: &str, context: &ContextHashMap) -> anyhow::Result<imp
     }
 }
 
+/// Checks that a string is an expression in its own right.
+pub (in crate) fn check_expression(expr: &str, context: &ContextHashMap) -> anyhow::Result<()>
+{
+    if rpnify(expr, context)?.is_empty()
+    {
+        return Err(ShuntingYardError::NoTokens.into());
+    }
+
+    Ok(())
+}
+
 /// Evaluates a postfix token stack, returning an f64 value on success.
 fn eval_rpn_expression(expr: &Vec<Token>) -> anyhow::Result<f64> 
 {    
-- 
2.43.0


From 8bf04594f86bf1f84012a0cfdb3c9f20755b8314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 26/36] fix: a failing matrix operation called through the C
 interface freed the caller's matrix

---
 gmatlib/src/ffi.rs | 69 ++++++++++++++--------------------------------
 1 file changed, 21 insertions(+), 48 deletions(-)

diff --git a/gmatlib/src/ffi.rs b/gmatlib/src/ffi.rs
index 16ed4e1..fe0476d 100644
--- a/gmatlib/src/ffi.rs
+++ b/gmatlib/src/ffi.rs
@@ -1,5 +1,4 @@
 use std::ffi::{c_double, c_uint, c_void};
-use std::mem;
 use std::panic::catch_unwind;
 use std::ptr::null_mut;
 use crate::{Matrix, MatrixInversionError};
@@ -39,10 +38,8 @@ pub extern "C" fn new_double_identity_matrix(n: c_uint) -> *mut c_void
 pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_swap(r1 as usize, r2 as usize);
-        
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -56,10 +53,8 @@ pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) ->
 pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_scale(row as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -73,10 +68,8 @@ pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_dou
 pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scale(scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -90,10 +83,8 @@ pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_add(r1 as usize, r2 as usize);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -107,10 +98,8 @@ pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c
 pub extern "C" fn inplace_scaled_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scaled_row_add(r1 as usize, r2 as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -126,19 +115,16 @@ pub extern "C" fn multiply_matrix(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mu
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *mut Matrix<c_double>),
+            &*(ptr_b as *mut Matrix<c_double>),
         )};
     
-        let ab = match a.multiply_matrix(&b) 
+        let ab = match a.multiply_matrix(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
 
@@ -155,19 +141,16 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *mut Matrix<c_double>),
+            &*(ptr_b as *mut Matrix<c_double>),
         )};
     
-        let ab = match a.augment_with(&b) 
+        let ab = match a.augment_with(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
     
@@ -182,9 +165,8 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
 pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c2: c_uint) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *mut Matrix<c_double>) };
         let b = Box::new(a.subset(r1 as usize, c1 as usize, r2 as usize, c2 as usize));
-        mem::forget(a); // Prevent drop that would deallocate matrix data.
         Box::into_raw(b) as *mut c_void
     });
 
@@ -199,15 +181,13 @@ pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c
 pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *mut Matrix<c_double>) };
         let trace = match a.trace()
         {
             Ok(t) => t,
             Err(_) => c_double::NAN
         };
 
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
-
         trace
     });
 
@@ -222,9 +202,8 @@ pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *mut Matrix<c_double>) };
         let b = Box::new(a.transpose());
-        mem::forget(a);
 
         Box::into_raw(b) as *mut c_void
     });
@@ -240,7 +219,7 @@ pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         let status = match a.try_inplace_invert()
         {
             Ok(_)  => c_uint::MAX,
@@ -255,8 +234,6 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
                 }
             }
         };
-    
-        mem::forget(a);
         status
     });
     
@@ -267,10 +244,8 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint, value: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a[(i as usize, j as usize)] = value;
-
-        mem::forget(a);
     });
 
     match res
@@ -284,9 +259,8 @@ pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint
 pub extern "C" fn index_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *mut Matrix<c_double>) };
         let value = a[(i as usize, j as usize)];
-        mem::forget(a);
         value
     });
 
@@ -305,12 +279,11 @@ pub extern "C" fn clone_double_matrix(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
         // Get the actual matrix instance
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *mut Matrix<c_double>) };
+
+        // Use clone to allocate a new instance
+        let b = Box::new(a.clone());
 
-        // Use clone to allocate a new instance and mem::forget it AND the old instance
-        let b = a.clone();
-        mem::forget(a);
-    
         Box::into_raw(b) as *mut c_void
     });
     
-- 
2.43.0


From c9878f39f8a9dda61eda4e7e80105ce232049a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 27/36] fix: solve_equation freed the caller's context when
 called through the C interface

---
 geqslib/src/ffi.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index 40e3d88..c8d0b03 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -1,6 +1,6 @@
 use std::ffi::{c_char, c_int, c_void, c_double, c_uint, CStr, CString};
 use std::panic::catch_unwind;
-use std::ptr::{null, copy_nonoverlapping};
+use std::ptr::null;
 
 use crate::shunting::{ContextHashMap, new_context, ContextLike};
 use crate::solve_equation_with_context;
@@ -57,8 +57,7 @@ pub extern "C" fn solve_equation(equation: *const c_char, context: *const c_void
     let res = catch_unwind(|| {
         let equation_str = unsafe { new_owned_string(equation) };
 
-        let mut ctx = ContextHashMap::new();
-        unsafe { copy_nonoverlapping(context as *const ContextHashMap, &mut ctx, 1) };
+        let mut ctx = unsafe { (*(context as *const ContextHashMap)).clone() };
 
         let (var, val) = match solve_equation_with_context(&equation_str, &mut ctx, guess, min, max, margin, limit as usize)
         {
-- 
2.43.0


From a20ae25ebf617ecf72ea2f164ebcb0e9abc967ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 28/36] fix: build_system freed the caller's builder when
 called through the C interface

---
 geqslib/src/ffi.rs    | 13 ++++++++++---
 geqslib/src/system.rs |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index c8d0b03..89e01b2 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -1,3 +1,4 @@
+use std::mem::take;
 use std::ffi::{c_char, c_int, c_void, c_double, c_uint, CStr, CString};
 use std::panic::catch_unwind;
 use std::ptr::null;
@@ -151,13 +152,19 @@ pub extern "C" fn is_fully_constrained(p_builder: *mut c_void) -> c_int
 }
 
 /// Tries to create a system from a `SystemBuilder` located at the given pointer,
-/// returning a pointer to the created `System` if successful or `NULL` if not.
+/// returning a pointer to the created `System` if successful or `NULL` if not. The builder is 
+/// left empty if successful or as it was if not, and must still be freed by the caller.
 #[no_mangle]
 pub extern "C" fn build_system(p_builder: *mut c_void) -> *const c_void
 {
     let res = catch_unwind(|| {
-        let builder = unsafe { Box::from_raw(p_builder as *mut SystemBuilder) };
-        let system = match builder.build_system()
+        let builder = unsafe { &mut *(p_builder as *mut SystemBuilder) };
+        if !builder.is_fully_constrained()
+        {
+            return null();
+        }
+
+        let system = match take(builder).build_system()
         {
             Some(s) => s,
             None => return null(),
diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index a03ec30..d591aa7 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -26,6 +26,7 @@ type BoxedFnOfHashMapToResultF64 = Box<dyn Fn(&HashMap<String, f64>) -> anyhow::
 
 /// An object for building up a system of equations and ensuring that it is 
 /// fully constrained prior to attempting to solve it.
+#[derive(Default)]
 pub struct SystemBuilder
 {
     context: ContextHashMap,
-- 
2.43.0


From ca1d25c7cc99922bbd7b37bc37b8c4049e71e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 29/36] fix: solve_system freed the caller's system when called
 through the C interface

---
 geqslib/src/ffi.rs    | 2 +-
 geqslib/src/system.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index 89e01b2..24d926d 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -217,7 +217,7 @@ pub extern "C" fn specify_variable(p_system: *mut c_void, var: *const c_char, gu
 pub extern "C" fn solve_system(p_system: *mut c_void, margin: c_double, limit: c_uint) -> *const c_char
 {
     let res = catch_unwind(|| {
-        let system = unsafe { Box::from_raw(p_system as *mut System) };
+        let system = unsafe { &*(p_system as *const System) };
 
         let soln = match system.solve(margin, limit as usize)
         {
diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index d591aa7..99edee5 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -338,7 +338,7 @@ impl System
     /// assert!((6.5 - soln["x"]).abs() < 0.001);
     /// assert!((2.5 - soln["y"]).abs() < 0.001);
     /// ```
-    pub fn solve(self, margin: f64, limit: usize) -> anyhow::Result<HashMap<String, f64>>
+    pub fn solve(&self, margin: f64, limit: usize) -> anyhow::Result<HashMap<String, f64>>
     {
         let mut guess = HashMap::new();
         for (key, var) in &self.context
@@ -357,7 +357,7 @@ impl System
         }
 
         let res = multivariate_newton_raphson(
-            self.system_equations, 
+            self.system_equations.iter().collect(), 
             &mut guess,
             margin, 
             limit
-- 
2.43.0


From 167e897e7985d01d6bb8a2acf95da142c1e4707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 30/36] fix: debug_system_builder unwound into its C caller
 when printing failed

---
 geqslib/src/ffi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index 24d926d..0d1616f 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -184,7 +184,10 @@ pub extern "C" fn build_system(p_builder: *mut c_void) -> *const c_void
 #[no_mangle]
 pub unsafe extern "C" fn debug_system_builder(p_builder: *const c_void)
 {
-    println!("{:#?}", *(p_builder as *const SystemBuilder));
+    // Printing panics if the standard output cannot be written to
+    let _ = catch_unwind(|| {
+        println!("{:#?}", *(p_builder as *const SystemBuilder));
+    });
 }
 
 /// Specifies a guess and domain for a given variable in the `System` at the given pointer.
-- 
2.43.0


From 43c4f41498addb20c1653d57e8d584bb9c2626df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 31/36] fix: keep the line endings of files touched by earlier
 repairs

---
 nexsys/src/lib.rs         | 402 +++++++++++++++++++-------------------
 nexsys/src/parsing/mod.rs | 394 ++++++++++++++++++-------------------
 nexsys/src/units/mod.rs   | 326 +++++++++++++++----------------
 3 files changed, 561 insertions(+), 561 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 20e5ed1..caafd3a 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -1,202 +1,202 @@
-/// Different errors specific to Nexsys implementations of algorithms.
-pub mod errors;
-/// Provides `extern "C"` functions for use in other programming languages. Not 
-/// intended for use in other Rust projects.
-pub mod ffi;
-/// Provides tools for parsing text prior to passing to the equation solving engine.
-pub mod parsing;
-/// Provides data sets of common units and functions for converting between them.
-pub mod units;
-
-use std::collections::HashMap;
-
-use geqslib::solve_equation_with_context;
-use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
-use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
-
-use parsing::compile;
-
-/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
-fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
-        if unknowns.len() != 1
-        {
-            return Ok(false);
-        }
-
-        let var_info: [f64; 3];
-        if declared.contains_key(unknowns[0])
-        {
-            var_info = declared[unknowns[0]];
-        }
-        else
-        {
-            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
-        }
-
-        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_const_to_ctx(&soln.0, soln.1);
-        *log_step = format!(
-            "Var: {:#?} \nEquation: {}", 
-            soln.0, equation
-        );
-        eqn_pool.remove(i);
-        return Ok(true);
-    }
-    Ok(false)
-}
-
-fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
-        let mut eqn_strings = vec![equation.to_owned()];
-
-        for (j, equation) in eqn_pool.iter().enumerate()
-        {
-            // Skip the current equation we're building a system with 
-            // OR an equation that we've already added to the system
-            if j == i || eqn_strings.contains(equation)
-            {
-                continue;
-            }
-
-            // println!("Constraint status: {}", builder.is_fully_constrained());
-
-            match builder.try_constrain_with(equation)?
-            {
-                ConstrainResult::WillConstrain => {
-                    eqn_strings.push(equation.to_owned());
-                    // println!("constrained with: {}", equation);
-                },
-                ConstrainResult::WillOverConstrain => break,
-                _ => {}
-            }
-        }
-            
-        *log_step = format!("{:#?}", eqn_strings);
-
-        // Solve the found constrained system:
-        if let Some(mut system) = builder.build_system()
-        {
-            for (var, var_info) in declared
-            {
-                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
-            }
-
-            let soln = system.solve(margin, limit)?;
-            for (var, val) in soln 
-            {
-                ctx.add_const_to_ctx(&var, val);
-            }
-            
-            let remaining_eqns: Vec<String> = eqn_pool.iter()
-                .filter(|x| !eqn_strings.contains(x) && x != &equation)
-                .map(|x| x.to_owned())
-                .collect();
-
-            eqn_pool.clear();
-            eqn_pool.extend(remaining_eqns);
-
-            // println!("{:#?}", eqn_pool);
-
-            return Ok(true);
-        }
-    }
-
-    Ok(false)
-}
-
-/// Solves a system of equations in plain-text format.
-/// For more supported syntax, see `solve_with_preprocessors`
-/// 
-/// # Example
-/// ```
-/// ```
-pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut log = vec![];
-    let mut eqn_pool = system.split('\n')
-        .filter(|x| x.contains('='))
-        .map(|x| x.to_owned())
-        .collect();
-
-    loop
-    {
-        let mut log_step = String::default();
-        // Get less expensive solutions:
-        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-
-        // Dig in and solve a more expensive subsystem:
-        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-        
-        break;
-    }
-
-    let mut soln_map = HashMap::new(); 
-    for (name, val) in ctx
-    {
-        match val
-        {
-            Token::Var(v) => {
-                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
-            },
-            Token::Num(n) => {
-                soln_map.insert(name.to_owned(), *n);
-            },
-            _ => {} 
-        }
-    }
-
-    Ok((log, soln_map))
-}
-
-/// Solves a system of equations with additional syntax used to indicate 
-/// unit conversions, constant known values, nicer if statements, and more.
-/// 
-/// # Example
-/// ```
-/// use nexsys::solve_with_preprocessors;
-/// 
-/// let system = r#"
-/// keep x on [0, 100]
-/// guess 3 for y
-/// const nine = 9
-/// 
-/// x + y = nine
-/// x - y = 4
-/// 
-/// if x > y:
-///     i = 1
-/// else:
-///     i = -1
-/// end
-/// "#;
-/// 
-/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
-///     .expect("failed to solve system!");
-/// 
-/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
-/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
-/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
-/// ```
-pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut ctx = new_context(); 
-    let mut declared = HashMap::new();
-    let compiled = compile(system, &mut ctx, &mut declared)?;
-
-    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
+/// Different errors specific to Nexsys implementations of algorithms.
+pub mod errors;
+/// Provides `extern "C"` functions for use in other programming languages. Not 
+/// intended for use in other Rust projects.
+pub mod ffi;
+/// Provides tools for parsing text prior to passing to the equation solving engine.
+pub mod parsing;
+/// Provides data sets of common units and functions for converting between them.
+pub mod units;
+
+use std::collections::HashMap;
+
+use geqslib::solve_equation_with_context;
+use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
+use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
+
+use parsing::compile;
+
+/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
+fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
+        if unknowns.len() != 1
+        {
+            return Ok(false);
+        }
+
+        let var_info: [f64; 3];
+        if declared.contains_key(unknowns[0])
+        {
+            var_info = declared[unknowns[0]];
+        }
+        else
+        {
+            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
+        }
+
+        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
+        ctx.add_const_to_ctx(&soln.0, soln.1);
+        *log_step = format!(
+            "Var: {:#?} \nEquation: {}", 
+            soln.0, equation
+        );
+        eqn_pool.remove(i);
+        return Ok(true);
+    }
+    Ok(false)
+}
+
+fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
+        let mut eqn_strings = vec![equation.to_owned()];
+
+        for (j, equation) in eqn_pool.iter().enumerate()
+        {
+            // Skip the current equation we're building a system with 
+            // OR an equation that we've already added to the system
+            if j == i || eqn_strings.contains(equation)
+            {
+                continue;
+            }
+
+            // println!("Constraint status: {}", builder.is_fully_constrained());
+
+            match builder.try_constrain_with(equation)?
+            {
+                ConstrainResult::WillConstrain => {
+                    eqn_strings.push(equation.to_owned());
+                    // println!("constrained with: {}", equation);
+                },
+                ConstrainResult::WillOverConstrain => break,
+                _ => {}
+            }
+        }
+            
+        *log_step = format!("{:#?}", eqn_strings);
+
+        // Solve the found constrained system:
+        if let Some(mut system) = builder.build_system()
+        {
+            for (var, var_info) in declared
+            {
+                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
+            }
+
+            let soln = system.solve(margin, limit)?;
+            for (var, val) in soln 
+            {
+                ctx.add_const_to_ctx(&var, val);
+            }
+            
+            let remaining_eqns: Vec<String> = eqn_pool.iter()
+                .filter(|x| !eqn_strings.contains(x) && x != &equation)
+                .map(|x| x.to_owned())
+                .collect();
+
+            eqn_pool.clear();
+            eqn_pool.extend(remaining_eqns);
+
+            // println!("{:#?}", eqn_pool);
+
+            return Ok(true);
+        }
+    }
+
+    Ok(false)
+}
+
+/// Solves a system of equations in plain-text format.
+/// For more supported syntax, see `solve_with_preprocessors`
+/// 
+/// # Example
+/// ```
+/// ```
+pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut log = vec![];
+    let mut eqn_pool = system.split('\n')
+        .filter(|x| x.contains('='))
+        .map(|x| x.to_owned())
+        .collect();
+
+    loop
+    {
+        let mut log_step = String::default();
+        // Get less expensive solutions:
+        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+
+        // Dig in and solve a more expensive subsystem:
+        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+        
+        break;
+    }
+
+    let mut soln_map = HashMap::new(); 
+    for (name, val) in ctx
+    {
+        match val
+        {
+            Token::Var(v) => {
+                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
+            },
+            Token::Num(n) => {
+                soln_map.insert(name.to_owned(), *n);
+            },
+            _ => {} 
+        }
+    }
+
+    Ok((log, soln_map))
+}
+
+/// Solves a system of equations with additional syntax used to indicate 
+/// unit conversions, constant known values, nicer if statements, and more.
+/// 
+/// # Example
+/// ```
+/// use nexsys::solve_with_preprocessors;
+/// 
+/// let system = r#"
+/// keep x on [0, 100]
+/// guess 3 for y
+/// const nine = 9
+/// 
+/// x + y = nine
+/// x - y = 4
+/// 
+/// if x > y:
+///     i = 1
+/// else:
+///     i = -1
+/// end
+/// "#;
+/// 
+/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
+///     .expect("failed to solve system!");
+/// 
+/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
+/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
+/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
+/// ```
+pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut ctx = new_context(); 
+    let mut declared = HashMap::new();
+    let compiled = compile(system, &mut ctx, &mut declared)?;
+
+    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
 }
\ No newline at end of file
diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 1cbf7e8..934dc96 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -1,198 +1,198 @@
-mod conditionals;
-// mod duplicate; TODO: need to polish this up.
-
-use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
-use lazy_static::lazy_static;
-use regex::Regex;
-use std::collections::HashMap;
-use crate::{units::{convert, const_data}, errors::ConstFormatError};
-
-pub use conditionals::*;
-
-const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
-
-/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
-fn nexsys_regex(pattern: &str) -> Regex
-{
-    Regex::new(&pattern
-        .replace("@N", LEGAL_NUM_PATTERN)
-        .replace("@V", LEGAL_VAR_PATTERN)
-    ).unwrap()
-}
-
-/// Identifies and returns guess values found in a Nexsys-legal string.
-pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
-    }
-    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
-    let guesses = RE.captures_iter(text);
-
-    for g in guesses 
-    {
-        res.1.insert(
-            g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
-                .expect("failed to parse number in guess declaration")
-        );
-    }
-    res
-}
-
-/// Identifies and returns domains found in a Nexsys-legal string.
-pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
-    }
-    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
-    let domains = RE.captures_iter(text);
-
-    for d in domains 
-    {
-        res.1.insert(
-            d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
-                .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
-                .expect("failed to parse second number in domain declaration")]
-        );
-    }
-    res
-}
-
-/// Identifies and removes comments found in a Nexsys-legal string.
-pub fn comments(text: &str) -> String 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
-    }
-    RE.replace_all(text, "").into_owned()
-}
-
-/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-pub fn conversions(text: &str) -> anyhow::Result<String> {
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
-    }
-
-    let mut output = text.to_string();
-
-    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
-
-    for m in res 
-    {
-        let pre = m.replace(['[', ']'], "");
-        
-        let args: Vec<&str> = pre.split("->").collect();
-        
-        output = output.replace(m, 
-            &format!("{}", convert(args[0], args[1])? )
-        );
-    }
-
-    Ok(output)
-}
-
-/// Identifies and replaces any constants in a Nexsys-legal string.
-pub fn consts(text: &str) -> anyhow::Result<String> 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z][a-z0-9_]*");
-        static ref CONSTS: HashMap<String, f64> = const_data();
-    }
-
-    if RE.find_iter(text).any(|m| !CONSTS.contains_key(m.as_str()))
-    {
-        return Err(ConstFormatError.into())
-    }
-
-    Ok(RE.replace_all(text, |m: &regex::Captures| CONSTS[&m[0]].to_string()).into_owned())
-}
-
-pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
-    }
-    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
-    let const_vals = RE.captures_iter(text);
-
-    for c in const_vals
-    {
-        res.1.insert(
-            c.get(1).unwrap().as_str().to_owned(), 
-            eval_str(c.get(2).unwrap().as_str())?
-        );
-    }
-    Ok(res)
-}
-
-/// Wraps most functions in `nexsys::parsing`, returning either an error that 
-/// prevents the code from being solvable or the intermediate language representation
-/// of the `.nxs`-formatted code.
-/// 
-/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
-pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
-{    
-    let sys_domains: HashMap<String, [f64; 2]>;
-    let sys_guesses: HashMap<String, f64>;
-    let sys_consts:  HashMap<String, f64>;
-    
-    let mut nil = comments(code); 
-
-    // Copy-paste all common engineering constants (this happens first so users can rename constants)
-    nil = consts(&nil)?;
-
-    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
-    nil = conversions(&nil)?;
-
-    // Set all constants used in the solution
-    (nil, sys_consts) = const_values(&nil)?;
-    for (var, val) in sys_consts
-    {
-        ctx.add_const_to_ctx(&var, val);
-    }
-
-    // Set all domains for variables in the solution
-    (nil, sys_domains) = domains(&nil);
-    for (var, bounds) in sys_domains
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[1] = bounds[0];
-            var_info[2] = bounds[1];
-        }
-        else 
-        {
-            declared.insert(var, [1.0, bounds[0], bounds[1]]);
-        }
-    }
-
-    // Set all initial guesses for variables in the solution
-    (nil, sys_guesses) = guess_values(&nil);
-    for (var, guess) in sys_guesses
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[0] = guess;
-        }
-        else 
-        {
-            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
-        }
-    }
-
-    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
-    nil = conditionals(&nil)?;
-
-    Ok(nil)
+mod conditionals;
+// mod duplicate; TODO: need to polish this up.
+
+use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
+use lazy_static::lazy_static;
+use regex::Regex;
+use std::collections::HashMap;
+use crate::{units::{convert, const_data}, errors::ConstFormatError};
+
+pub use conditionals::*;
+
+const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
+
+/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
+fn nexsys_regex(pattern: &str) -> Regex
+{
+    Regex::new(&pattern
+        .replace("@N", LEGAL_NUM_PATTERN)
+        .replace("@V", LEGAL_VAR_PATTERN)
+    ).unwrap()
+}
+
+/// Identifies and returns guess values found in a Nexsys-legal string.
+pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
+    }
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
+    let guesses = RE.captures_iter(text);
+
+    for g in guesses 
+    {
+        res.1.insert(
+            g.get(2).unwrap().as_str().to_owned(), 
+            g.get(1).unwrap().as_str().parse()
+                .expect("failed to parse number in guess declaration")
+        );
+    }
+    res
+}
+
+/// Identifies and returns domains found in a Nexsys-legal string.
+pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
+    }
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
+    let domains = RE.captures_iter(text);
+
+    for d in domains 
+    {
+        res.1.insert(
+            d.get(1).unwrap().as_str().to_owned(),
+            [d.get(2).unwrap().as_str().parse()
+                .expect("failed to parse first number in domain declaration"),
+            d.get(3).unwrap().as_str().parse()
+                .expect("failed to parse second number in domain declaration")]
+        );
+    }
+    res
+}
+
+/// Identifies and removes comments found in a Nexsys-legal string.
+pub fn comments(text: &str) -> String 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
+    }
+    RE.replace_all(text, "").into_owned()
+}
+
+/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
+pub fn conversions(text: &str) -> anyhow::Result<String> {
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
+    }
+
+    let mut output = text.to_string();
+
+    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
+
+    for m in res 
+    {
+        let pre = m.replace(['[', ']'], "");
+        
+        let args: Vec<&str> = pre.split("->").collect();
+        
+        output = output.replace(m, 
+            &format!("{}", convert(args[0], args[1])? )
+        );
+    }
+
+    Ok(output)
+}
+
+/// Identifies and replaces any constants in a Nexsys-legal string.
+pub fn consts(text: &str) -> anyhow::Result<String> 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z][a-z0-9_]*");
+        static ref CONSTS: HashMap<String, f64> = const_data();
+    }
+
+    if RE.find_iter(text).any(|m| !CONSTS.contains_key(m.as_str()))
+    {
+        return Err(ConstFormatError.into())
+    }
+
+    Ok(RE.replace_all(text, |m: &regex::Captures| CONSTS[&m[0]].to_string()).into_owned())
+}
+
+pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+    }
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
+    let const_vals = RE.captures_iter(text);
+
+    for c in const_vals
+    {
+        res.1.insert(
+            c.get(1).unwrap().as_str().to_owned(), 
+            eval_str(c.get(2).unwrap().as_str())?
+        );
+    }
+    Ok(res)
+}
+
+/// Wraps most functions in `nexsys::parsing`, returning either an error that 
+/// prevents the code from being solvable or the intermediate language representation
+/// of the `.nxs`-formatted code.
+/// 
+/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
+pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
+{    
+    let sys_domains: HashMap<String, [f64; 2]>;
+    let sys_guesses: HashMap<String, f64>;
+    let sys_consts:  HashMap<String, f64>;
+    
+    let mut nil = comments(code); 
+
+    // Copy-paste all common engineering constants (this happens first so users can rename constants)
+    nil = consts(&nil)?;
+
+    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
+    nil = conversions(&nil)?;
+
+    // Set all constants used in the solution
+    (nil, sys_consts) = const_values(&nil)?;
+    for (var, val) in sys_consts
+    {
+        ctx.add_const_to_ctx(&var, val);
+    }
+
+    // Set all domains for variables in the solution
+    (nil, sys_domains) = domains(&nil);
+    for (var, bounds) in sys_domains
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[1] = bounds[0];
+            var_info[2] = bounds[1];
+        }
+        else 
+        {
+            declared.insert(var, [1.0, bounds[0], bounds[1]]);
+        }
+    }
+
+    // Set all initial guesses for variables in the solution
+    (nil, sys_guesses) = guess_values(&nil);
+    for (var, guess) in sys_guesses
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[0] = guess;
+        }
+        else 
+        {
+            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
+        }
+    }
+
+    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
+    nil = conditionals(&nil)?;
+
+    Ok(nil)
 }
\ No newline at end of file
diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index d175f83..b09636b 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -1,164 +1,164 @@
-use lazy_static::lazy_static;
-use serde_json::{Value, from_str};
-use std::collections::HashMap;
-
-use crate::errors::UnitConversionError;
-
-/// Handles generating additional units for various combinations of other units
-fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
-    
-    let mut temp = HashMap::new();
-    
-    for i in &data[&num.to_string()] {
-    
-        for j in &data[&denom.to_string()] {
-    
-            temp.insert(
-                format!("{}/{}", i.0, j.0),
-                *i.1 / *j.1
-            );
-        
-        }
-    
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    if fc1 == fc2 {
-        for i in &data[&fc1.to_string()] {
-            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
-        }
-    } else {
-        for i in &data[&fc1.to_string()] {
-            for j in &data[&fc2.to_string()] {
-                let val = *i.1 * *j.1;
-                temp.insert( format!("{}-{}", i.0, j.0), val);
-                temp.insert( format!("{}-{}", j.0, i.0), val);
-            }
-        }
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
-    }
-
-    if let Some(d) = data.get_mut("VOLUME") {
-        d.extend(temp.into_iter());
-    }
-    
-    data
-}
-
-/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
-
-    let raw_text = include_str!("units.json");
-    let err = "failed to parse json... is the formatting of 'units.json' correct?";
-    
-    // again I ask, lord forgive me for what I am about to do...
-    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| (
-            i.0.to_string(), 
-            i.1.as_object().expect(err).into_iter()
-            .map(
-                |j| (
-                    j.0.to_string(), 
-                    j.1.as_f64().expect(err)
-                )
-            ).collect()
-        )
-    ).collect();
-
-    dejson
-}
-
-/// Generates a more complete set of unit conversion data by combining different units to create other common units.
-pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
-    let mut data = raw_unit_data();
-    data.insert("SPRING FORCE".to_string(), HashMap::new());
-
-    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
-    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
-    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
-    data =    generate_volume_units(data);
-
-
-    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
-    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
-    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
-    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
-    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
-    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
-
-    data
-}
-
-/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
-pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
-    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
-        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
-    }
-
-    let cf: Vec<f64> = UD.iter()
-    .filter(|&i| { 
-        let qty = UD.get(i.0).unwrap().clone();
-        qty.contains_key(fro) && qty.contains_key(to)
-    }).map(|i| {
-        i.1[fro] / i.1[to]
-    }).collect();
-
-    if cf.len() != 1 {
-        return Err(UnitConversionError.into())
-    }
-
-    Ok(cf[0])
-}
-
-/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn const_data() -> HashMap<String, f64> {
-
-    let raw_text = include_str!("consts.json");
-    let err = "failed to parse json... is the formatting of consts.json correct?";
-    
-    // thankfully this isn't as bad as reading units.json
-    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| {
-            let err = format!("failed to parse json: {:#?}", i.1);
-            let c1 = i.1.as_array().expect(&err);
-
-            let err = format!("failed to parse json: {:#?}", c1[1]);
-            let c2 = match c1[1].as_f64() {
-                Some(c) => c,
-                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
-            };
-
-            (i.0.to_string(), c2)
-
-    }).collect();
-
-    dejson
+use lazy_static::lazy_static;
+use serde_json::{Value, from_str};
+use std::collections::HashMap;
+
+use crate::errors::UnitConversionError;
+
+/// Handles generating additional units for various combinations of other units
+fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
+    
+    let mut temp = HashMap::new();
+    
+    for i in &data[&num.to_string()] {
+    
+        for j in &data[&denom.to_string()] {
+    
+            temp.insert(
+                format!("{}/{}", i.0, j.0),
+                *i.1 / *j.1
+            );
+        
+        }
+    
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    if fc1 == fc2 {
+        for i in &data[&fc1.to_string()] {
+            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
+        }
+    } else {
+        for i in &data[&fc1.to_string()] {
+            for j in &data[&fc2.to_string()] {
+                let val = *i.1 * *j.1;
+                temp.insert( format!("{}-{}", i.0, j.0), val);
+                temp.insert( format!("{}-{}", j.0, i.0), val);
+            }
+        }
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    for i in &data[&"LENGTH".to_string()] {
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
+    }
+
+    if let Some(d) = data.get_mut("VOLUME") {
+        d.extend(temp.into_iter());
+    }
+    
+    data
+}
+
+/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
+
+    let raw_text = include_str!("units.json");
+    let err = "failed to parse json... is the formatting of 'units.json' correct?";
+    
+    // again I ask, lord forgive me for what I am about to do...
+    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| (
+            i.0.to_string(), 
+            i.1.as_object().expect(err).into_iter()
+            .map(
+                |j| (
+                    j.0.to_string(), 
+                    j.1.as_f64().expect(err)
+                )
+            ).collect()
+        )
+    ).collect();
+
+    dejson
+}
+
+/// Generates a more complete set of unit conversion data by combining different units to create other common units.
+pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
+    let mut data = raw_unit_data();
+    data.insert("SPRING FORCE".to_string(), HashMap::new());
+
+    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
+    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
+    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
+    data =    generate_volume_units(data);
+
+
+    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
+    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
+    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
+    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
+    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
+    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
+
+    data
+}
+
+/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
+pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
+    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
+        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
+    }
+
+    let cf: Vec<f64> = UD.iter()
+    .filter(|&i| { 
+        let qty = UD.get(i.0).unwrap().clone();
+        qty.contains_key(fro) && qty.contains_key(to)
+    }).map(|i| {
+        i.1[fro] / i.1[to]
+    }).collect();
+
+    if cf.len() != 1 {
+        return Err(UnitConversionError.into())
+    }
+
+    Ok(cf[0])
+}
+
+/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn const_data() -> HashMap<String, f64> {
+
+    let raw_text = include_str!("consts.json");
+    let err = "failed to parse json... is the formatting of consts.json correct?";
+    
+    // thankfully this isn't as bad as reading units.json
+    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| {
+            let err = format!("failed to parse json: {:#?}", i.1);
+            let c1 = i.1.as_array().expect(&err);
+
+            let err = format!("failed to parse json: {:#?}", c1[1]);
+            let c2 = match c1[1].as_f64() {
+                Some(c) => c,
+                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
+            };
+
+            (i.0.to_string(), c2)
+
+    }).collect();
+
+    dejson
 }
\ No newline at end of file
-- 
2.43.0


From 50b756aadc47eee75fffafe48d22ccbb015323f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 32/36] fix: a guess or domain bound with a blank after its
 sign made preprocessing panic

---
 nexsys/src/parsing/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 934dc96..a28ffe4 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -35,7 +35,7 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
     {
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
+            g.get(1).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse number in guess declaration")
         );
     }
@@ -56,9 +56,9 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
     {
         res.1.insert(
             d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
+            [d.get(2).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
+            d.get(3).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse second number in domain declaration")]
         );
     }
-- 
2.43.0


From 2a93add20f16477813dcc2f2d6189a559d0ce515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 33/36] fix: a const declaration recorded only the first number
 of its value and left the rest in the program

---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index a28ffe4..a4f35a5 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -121,7 +121,7 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
 {
     lazy_static!
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(-? ?\S*[^\s*/+^-](?: *[-+*/^] *-? ?\S*[^\s*/+^-])*)");
     }
     let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
     let const_vals = RE.captures_iter(text);
-- 
2.43.0


From a40a47380e6c1591226072fc18244f930fc2d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 34/36] fix: a row that only begins with the word end closed an
 if block, and a condition could run over several rows

---
 nexsys/src/parsing/conditionals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 95fd7ba..2750020 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -60,11 +60,11 @@ pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 pub fn conditionals(text: &str) -> anyhow::Result<String> {
     lazy_static!{
         static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+r#"(?m)^[ \t]*if [^<>=\n]+[<>=]{1,2}[^<>=\n]+:$
 ^.*$
 ^[ \t]*else:$
 ^.*$
-^[ \t]*end"#
+^[ \t]*end[ \t]*$"#
         );
     }
     let mut output = text.to_string();
-- 
2.43.0


From c94b7ac9622cee28b494f814dc35d0002c879661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 35/36] fix: if, else and end inside of names, and tabs,
 garbled the call an if block is turned into

---
 nexsys/src/parsing/conditionals.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 2750020..6d55c4c 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -13,13 +13,13 @@ macro_rules! contains_any {
 /// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
 pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 
-    let mut args = cndl.replace("if ",  "if(")  // make start of function call
-    .replace([' ', '\n'], "")   // strip whitespace
-    .replace(':',   ",")        // delimit arguments
-    .replace("else", "")        // (ditto)
-    .replace("end", ")");       // close function call
+    // The rows `if <condition>:`, `<expression>`, `else:`, `<expression>` and `end`, without whitespace
+    let rows: Vec<String> = cndl.split('\n').map(|row| row.replace([' ', '\t'], "")).collect();
 
-    //if(a<b,a-b=1,b-a=1)
+    let mut args = rows[0].replacen("if", "", 1)    // leave only the condition
+    .replace(':',   "");
+
+    //a<b
     // println!("SUBBED TOKENS: {}", args);
 
     if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
@@ -53,7 +53,7 @@ pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
     // println!("FINAL: {}", args);
     // Conditional statement reformatted as function call
     // This allows us to use `better` notation to call a function via meval
-    Ok(args + " = 0")
+    Ok(format!("if({},{},{}) = 0", args, rows[1], rows[3]))
 }
 
 /// Identifies and returns conditional statements found in a Nexsys-legal string.
-- 
2.43.0


From 67a9854980ed8779fdacbb8abeef2735153a5e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 36/36] fix: blanks or a comment after the colon of an if or
 else row kept the block from being recognized

---
 nexsys/src/parsing/conditionals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 6d55c4c..c4e347b 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -60,9 +60,9 @@ pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 pub fn conditionals(text: &str) -> anyhow::Result<String> {
     lazy_static!{
         static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=\n]+[<>=]{1,2}[^<>=\n]+:$
+r#"(?m)^[ \t]*if [^<>=\n]+[<>=]{1,2}[^<>=\n]+:[ \t]*$
 ^.*$
-^[ \t]*else:$
+^[ \t]*else:[ \t]*$
 ^.*$
 ^[ \t]*end[ \t]*$"#
         );
-- 
2.43.0

