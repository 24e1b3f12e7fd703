From 13e260c4582dcb31b794d3b687e3a30809d7da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:47 +0000
Subject: [PATCH 01/21] fix: convergence check must not lose a non-finite
 unknown

A later out-of-tolerance unknown overwrote the Divergent verdict with
Ok(false), and an unknown whose previous value was NaN counted as converged
because NaN > limit is false.
---
 src/engine.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index e11a08d..f731ddb 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -962,8 +962,7 @@ impl Engine {
         for (i,x) in xv.iter().enumerate() {
             if !x.is_finite() {
                 println!("*ERROR* math gone bad - infinites in convergence check {}", i);
-                res = Err(ConvergenceError::Divergent);
-                continue;
+                return Err(ConvergenceError::Divergent);
             }
             let limit: f64 = if i < self.c_nodes {
                 x.abs() * cfg.RELTOL + cfg.VNTOL
@@ -973,7 +972,7 @@ impl Engine {
 
             let this = (x - yv[i]).abs();
             trace!("  [CONVERGE] {} < {} = {}", this, limit, (this < limit));
-            if this > limit {
+            if this > limit || this.is_nan() {
                 res = Ok(false);
             }
         }
-- 
2.43.0


From ed0e9dd1f07745ba105dc50533863fd5739b18f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:04 +0000
Subject: [PATCH 02/21] fix: PWL source is NaN or restarts at its own
 breakpoints

At exactly t = delay + period a non-repeating pattern wrapped to its start
instead of holding the final value, and a pattern whose first point is at
time zero with a non-zero value evaluated to inf * 0 = NaN at that instant
(which made every DC solve of such a source diverge).
---
 src/element/vpwl.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index c38fbcd..0e6f927 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -29,13 +29,13 @@ impl VoltageSourcePwl {
 
         // If we're not repeating, and we're off the end of the pattern
         // return the final value
-        if (self.repeat < 0.0) && (t > (self.t_delay + t_period)) {
+        if (self.repeat < 0.0) && ((t - self.t_delay) >= t_period) {
             return self.pat[idx_last].1;
         }
 
         // where in the cycle are we?
         let t_cycle = ( t - self.t_delay ) % t_period;
-        if t_cycle < 0.0 {
+        if t < self.t_delay {
             return 0.0;
         }
 
@@ -59,10 +59,11 @@ impl VoltageSourcePwl {
         //dbg!(t1,v1, t2,v2);
 
         // ... and interpolate between them
-        let mut gradient = (v2-v1) / (t2-t1);
-        if gradient.is_nan() {
-            gradient = 0.0;
+        // (nothing to interpolate over if the pattern starts at time zero)
+        if t2 <= t1 {
+            return v2;
         }
+        let gradient = (v2-v1) / (t2-t1);
         gradient * (t_cycle - t1) + v1
 
     }
-- 
2.43.0


From 0c82676580011484d1a80b20bd00a22d3661a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:20 +0000
Subject: [PATCH 03/21] fix: malformed numbers panic in extract_value instead
 of yielding None

'+', '-k', '+.' and '1e+' reach the float parser and unwrap its error.
---
 src/bracket_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index 547dfed..0b46ea4 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -148,7 +148,7 @@ pub fn extract_value(text: &str) -> Option<f64> {
     let mut text_iter = text.chars();
 
     fn eval( txt :&str, mult: f64) -> Option<f64> {
-        Some( txt.parse::<f64>().unwrap() * mult )
+        txt.parse::<f64>().ok().map(|val| val * mult)
     }
 
     'things: loop {
-- 
2.43.0


From 397a9af12a13b32d883b51d61de735e16ec80bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:02 +0000
Subject: [PATCH 04/21] fix: unterminated bracket expression indexes past the
 end of the text

---
 src/bracket_expression.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index 0b46ea4..c5abbaa 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -62,9 +62,13 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
         return None
     }
 
+    if i >= expr_str.len() {
+        return None;
+    }
+
     while expr_str[i].is_whitespace() {
         i += 1;
-        if i >expr_str.len() {
+        if i >= expr_str.len() {
             return None;
         }
     }
@@ -74,7 +78,7 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
     while expr_str[i].is_ascii_alphanumeric() {
         ident_chars.push(expr_str[i]);
         i += 1;
-        if i > expr_str.len() {
+        if i >= expr_str.len() {
             return None;
         }
     }
@@ -84,7 +88,7 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
     trace!("looking for '}}'");
     while expr_str[i].is_whitespace() {
         i += 1;
-        if i > expr_str.len() {
+        if i >= expr_str.len() {
             return None;
         }
     }
-- 
2.43.0


From 5f43031719cbd11f174f791277c314b573c73853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:07 +0000
Subject: [PATCH 05/21] fix: engine reuse keeps the elements of the previous
 circuit

---
 src/engine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index f731ddb..07b4779 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -461,6 +461,12 @@ impl Engine {
         // assume here that nodes have been indexed 0 -> N-1
         // where n is the number of nodes (including ground) in the circuit
 
+        // Forget the elements of any circuit we've analysed before this one
+        self.nonlinear_elements.clear();
+        self.independent_sources.clear();
+        self.v_dependent_sources.clear();
+        self.storage_elements.clear();
+
         // Number of nodes, including ground (aka 0, aka gnd)
         self.c_nodes = ckt.count_nodes();
         println!("*INFO* There are {} nodes in the design, including ground", self.c_nodes);
-- 
2.43.0


From 9a4457911be46d45dfbd33524ff5aec9c7591c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:21 +0000
Subject: [PATCH 06/21] fix: transient starts from zero state instead of the DC
 operating point

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 07b4779..6bfa46c 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -188,7 +188,7 @@ impl Engine {
 
         // prep values
         let c_mna = self.c_nodes + self.c_vsrcs;
-        let mut unknowns_prev : Vec<f64> = vec![0.0; c_mna];
+        let mut unknowns_prev : Vec<f64> = unknowns.to_vec();
 
         // transient loop
         let mut t_delta = cfg.TSTEP * cfg.FS;
-- 
2.43.0


From df2cce1bfc1845162b65aa31b3042a352d892563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:27 +0000
Subject: [PATCH 07/21] fix: first timestep iteration is compared with zeros
 instead of its starting point

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6bfa46c..bd7c1e0 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -237,7 +237,7 @@ impl Engine {
 
             // solver iteration count
             let mut c_itl: usize = 0;
-            let mut unknowns_solve : Vec<f64> = vec![0.0; c_mna];
+            let mut unknowns_solve : Vec<f64> = unknowns.to_vec();
             let mut unknowns_solve_prev : Vec<f64> = vec![0.0; c_mna];
             let mut geared = false;
 
-- 
2.43.0


From 7b7e32d48f3528271b5663372aeb94e90c5468e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:59 +0000
Subject: [PATCH 08/21] fix: transient samples carry the time they were solved
 for, up to TSTOP

The next timestep was chosen before the clock moved on, so a solution was
labelled with a time it was not solved at; the last one was relabelled TSTOP
wherever it was, and a failed step still advanced the reported end time.
---
 src/engine.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index bd7c1e0..0863021 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -228,6 +228,13 @@ impl Engine {
                 break;
             }
 
+            // don't solve past the end of the simulation
+            let mut t_next = t_now + t_delta;
+            if t_next >= cfg.TSTOP {
+                t_next = cfg.TSTOP;
+                t_delta = t_next - t_now;
+                is_final_timestep = true;
+            }
 
             // solver loop
             // breaks when solved, or time-step too small
@@ -254,7 +261,7 @@ impl Engine {
                 let mut m = self.base_matrix.clone();
 
                 // stamp independent sources
-                self.independent_source_stamp(&mut m, t_now + t_delta);
+                self.independent_source_stamp(&mut m, t_next);
 
                 // Stamp voltage-dependent sources
                 self.v_dependent_source_stamp(&mut m);
@@ -297,6 +304,9 @@ impl Engine {
                                     trace!(" [TIMESTEP] Upshifting -> new t_delta = {}", t_delta);
                                     geared = true;
                                     c_itl = 0;
+                                    // we're solving for an earlier time now
+                                    t_next = t_now + t_delta;
+                                    is_final_timestep = false;
                                 }
                             }
                         }
@@ -311,6 +321,15 @@ impl Engine {
                 unknowns_solve = unknowns.to_vec();
             }
 
+            // break out of this loop if an error was detected
+            if error {
+                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
+                break;
+            }
+
+            // this is the time we have solved for
+            t_now = t_next;
+
             if converged {
                 // update things for next loop
                 unknowns_prev = unknowns.to_vec();
@@ -330,18 +349,6 @@ impl Engine {
             }
 
             c_step += 1;
-            t_now += t_delta;
-            if t_now > cfg.TSTOP {
-                t_now = cfg.TSTOP;
-                is_final_timestep = true;
-
-            } // solver
-
-            // break out of this loop if an error was detected
-            if error {
-                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
-                break;
-            }
         } // time
 
         println!("*INFO* Finished at time {}", t_now);
-- 
2.43.0


From 32c9285d2a6618cfade590f81311a9ef7f0bc114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:16 +0000
Subject: [PATCH 09/21] fix: default RMIN forbids every reduction of the
 timestep

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 10a3f37..a10144d 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -131,7 +131,7 @@ impl Configuration {
 
             FS: 0.25,
             FT: 0.25,
-            RMIN: 1e03,
+            RMIN: 1e-3,
             RMAX: 5.0,
             ITL3: 6,
             ITL4: 50,
-- 
2.43.0


From 6c05601b5c121d4027892bdec8da13fef9590dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:16 +0000
Subject: [PATCH 10/21] fix: inconsistent last equation is solved as 0 instead
 of being non-finite

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 0863021..fb98904 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -632,7 +632,7 @@ impl Engine {
         let i_last = c_mna - 1;
         n[i_last] = v[i_last][c_mna] / v[i_last][i_last];
         //println!("[lst]  {} / {}",  v[i_last][c_mna], v[i_last][i_last] );
-        if !n[i_last].is_finite() {
+        if v[i_last][i_last] == 0.0 && v[i_last][c_mna] == 0.0 {
             println!("*WARNING* have to hack the first solve to 0.0");
             println!(" This can happen if solving a 0V source from a node to ground");
             n[i_last] = 0.0;
-- 
2.43.0


From 003dee03d576e9ce7c919582b857698818b978fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:38 +0000
Subject: [PATCH 11/21] fix: end-of-line comments need not be surrounded by
 spaces

---
 src/spice.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 99884ee..01104a4 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -128,7 +128,10 @@ impl Reader {
 
         for line_wr in lines_iter {
             let line = line_wr.unwrap();
-            let all_bits :Vec<&str> = line.split_whitespace().collect();
+
+            // strip comments off the end
+            let code = line.split(';').next().unwrap_or("");
+            let all_bits :Vec<&str> = code.split_whitespace().collect();
 
             // jump blank lines
             if all_bits.is_empty() {
@@ -140,14 +143,7 @@ impl Reader {
                 continue;
             }
 
-            // strip comments off the end
-            let mut bits: Vec<&str> = vec![];
-            for b in all_bits {
-                if b == ";" {
-                    break;
-                }
-                bits.push(b);
-            }
+            let bits = all_bits;
 
             trace!("Bits: {:?}", bits);
 
-- 
2.43.0


From 3614234169652ecde3c3e90a78316c4e9cf54e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:44 +0000
Subject: [PATCH 12/21] fix: option without a spaced-out '= value' panics

---
 src/spice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spice.rs b/src/spice.rs
index 01104a4..29de5eb 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -401,7 +401,7 @@ impl Reader {
         }
 
         // FIXME - might be "abstol=2e6" too - lower case, no spaces surrounding '='
-        if bits[2] != "=" {
+        if bits.len() < 4 || bits[2] != "=" {
             println!("*ERROR* Expected '=' in option setting");
             return;
         }
-- 
2.43.0


From fb3c99465628edfa5d20b8d61501192289a63fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:50 +0000
Subject: [PATCH 13/21] fix: name of an aliased node depends on hash map order

---
 src/circuit.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 73fc865..c454f18 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -411,7 +411,19 @@ impl Circuit {
     /// Do this after reading in the SPICE circuit
     pub fn build_node_id_lut(&mut self) {
         for (name, id) in &self.nodes {
-            self.node_id_lut.insert(*id, String::from(name));
+            // A node can have aliases. Name it after the one highest up in the
+            // hierarchy, whatever order the map gives them to us in
+            let is_better = match self.node_id_lut.get(id) {
+                Some(other) => {
+                    let order = name.matches('.').count();
+                    let order_other = other.matches('.').count();
+                    order < order_other || (order == order_other && name < other)
+                },
+                None => true,
+            };
+            if is_better {
+                self.node_id_lut.insert(*id, String::from(name));
+            }
         }
     }
 
-- 
2.43.0


From 0398cef569d94385af3ae2a3aa175959e00881ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:26 +0000
Subject: [PATCH 14/21] fix: node count too small for sparse or large node
 indices

Matrix rows are indexed by NodeId, so a node without elements made node rows
collide with branch current rows, and 256 or more nodes panicked.
---
 src/circuit.rs | 132 ++++++++++++++++++++-----------------------------
 1 file changed, 54 insertions(+), 78 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index c454f18..5362013 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -141,135 +141,111 @@ impl Circuit {
     }
 
     /// Count the nodes in the circuit
+    ///
+    /// This is the number of rows needed to index the matrix by `NodeId`, so it
+    /// includes any nodes that have nothing connected to them.
     pub fn count_nodes(&self) -> usize {
 
-        // number of nodes in the circuit - there is always at least ground
-        let mut c_nodes: usize = 1;
-
-        let mut seen = [false; 256]; // max nodes magic number
-        seen[0] = true; // always a ground
+        // highest node index in the circuit - there is always at least ground
+        let mut nid_max: NodeId = 0;
 
         for el in &self.elements {
                 match *el {
                     Element::I(CurrentSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
+                        if *p > nid_max {
+                            nid_max = *p;
                         }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
+                        if *n > nid_max {
+                            nid_max = *n;
                         }
                     }
                     Element::R(Resistor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
+                        if *a > nid_max {
+                            nid_max = *a;
                         }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
+                        if *b > nid_max {
+                            nid_max = *b;
                         }
                     }
                     Element::V(VoltageSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
+                        if *p > nid_max {
+                            nid_max = *p;
                         }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
+                        if *n > nid_max {
+                            nid_max = *n;
                         }
                     }
                     Element::D(Diode{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
+                        if *p > nid_max {
+                            nid_max = *p;
                         }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
+                        if *n > nid_max {
+                            nid_max = *n;
                         }
                     }
                     Element::Isin(CurrentSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
+                        if *p > nid_max {
+                            nid_max = *p;
                         }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
+                        if *n > nid_max {
+                            nid_max = *n;
                         }
                     }
                     Element::Vsin(VoltageSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
+                        if *p > nid_max {
+                            nid_max = *p;
                         }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
+                        if *n > nid_max {
+                            nid_max = *n;
                         }
                     }
                     Element::C(Capacitor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
+                        if *a > nid_max {
+                            nid_max = *a;
                         }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
+                        if *b > nid_max {
+                            nid_max = *b;
                         }
                     }
                     Element::Vpwl(VoltageSourcePwl{ ref p, ref n, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
+                        if *p > nid_max {
+                            nid_max = *p;
                         }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
+                        if *n > nid_max {
+                            nid_max = *n;
                         }
                     }
                     Element::Vcvs(Vcvs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
+                        if *p > nid_max {
+                            nid_max = *p;
                         }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
+                        if *n > nid_max {
+                            nid_max = *n;
                         }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
+                        if *cp > nid_max {
+                            nid_max = *cp;
                         }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
+                        if *cn > nid_max {
+                            nid_max = *cn;
                         }
                     }
                     Element::Vccs(Vccs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
+                        if *p > nid_max {
+                            nid_max = *p;
                         }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
+                        if *n > nid_max {
+                            nid_max = *n;
                         }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
+                        if *cp > nid_max {
+                            nid_max = *cp;
                         }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
+                        if *cn > nid_max {
+                            nid_max = *cn;
                         }
                     }
                 }
         }
-        c_nodes
+        nid_max + 1
     }
 
     /// Count the voltage sources in the circuit
-- 
2.43.0


From 54f9e7e637ef63acec301b0799b7665038a3eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:33 +0000
Subject: [PATCH 15/21] fix: independent sources in subcircuits are dropped by
 the expander

---
 src/expander.rs | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index b47dd8c..e4a8117 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -337,11 +337,58 @@ fn expand_subckt(
     }
 
     hier.push(inst.name.to_string()); // inst-name
+    expand_sources(ckts, ckt, subckt_id, &hier);
     expand_instances(ckts, ckt, subckt_id, &hier);
     hier.pop(); // inst-name
 }
 
 
+/// Expand the independent sources of a subcircuit
+///
+/// These are elements of the subcircuit, rather than instances.
+fn expand_sources(
+    ckts: &[Circuit],
+    ckt: &mut Circuit,
+    subckt_id: usize,
+    hier: &[String] // the scope of the subcircuit instance
+) {
+    for el in &ckts[subckt_id].elements {
+        match *el {
+            Element::I(ref src) => {
+                let p = local_connect(ckts, ckt, subckt_id, hier, src.p);
+                let n = local_connect(ckts, ckt, subckt_id, hier, src.n);
+                ckt.add_i(p, n, src.value);
+            },
+            Element::V(ref src) => {
+                let p = local_connect(ckts, ckt, subckt_id, hier, src.p);
+                let n = local_connect(ckts, ckt, subckt_id, hier, src.n);
+                ckt.add_v(p, n, src.value);
+            },
+            Element::Isin(ref src) => {
+                let mut src = src.clone();
+                src.p = local_connect(ckts, ckt, subckt_id, hier, src.p);
+                src.n = local_connect(ckts, ckt, subckt_id, hier, src.n);
+                ckt.add_i_sin(src);
+            },
+            Element::Vsin(ref src) => {
+                let mut src = src.clone();
+                src.p = local_connect(ckts, ckt, subckt_id, hier, src.p);
+                src.n = local_connect(ckts, ckt, subckt_id, hier, src.n);
+                ckt.add_v_sin(src);
+            },
+            Element::Vpwl(ref src) => {
+                let mut src = src.clone();
+                src.p = local_connect(ckts, ckt, subckt_id, hier, src.p);
+                src.n = local_connect(ckts, ckt, subckt_id, hier, src.n);
+                ckt.add_v_pwl(src);
+            },
+            // everything else is read in as an instance
+            _ => {}
+        }
+    }
+}
+
+
 /// Expand a primitive instantiation
 /// (not recursive)
 //
-- 
2.43.0


From f8d6b32f3582114d792366305b367d0200129597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:19 +0000
Subject: [PATCH 16/21] fix: element lines that can't be used don't count as
 deck errors

---
 src/spice.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 29de5eb..7867afd 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -219,6 +219,9 @@ impl Reader {
                         trace!("*INFO* Isin");
                         let src = self.extract_i_sine(&bits);
                         self.ckts[self.c].add_i_sin(src);
+                    } else {
+                        println!("*ERROR* can't extract current source");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('V') {
                     let _ = extract_identifier(bits[0]);
@@ -239,36 +242,42 @@ impl Reader {
                     } else {
                         println!("Some weird V thing you've got going here");
                         println!("bits: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('R') {
                     if let Some(r) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(r);
                     } else {
                         println!("*ERROR* can't extract resistance");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('C') {
                     if let Some(c) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(c);
                     } else {
                         println!("*ERROR* can't extract capacitor");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('D') {
                     if let Some(d) = self.extract_primitive(&bits, 2, 0) {
                         self.ckts[self.c].add_instance(d);
                     } else {
                         println!("*ERROR* can't extract diode");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('E') {
                     if let Some(e) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(e);
                     } else {
                         println!("*ERROR* can't extract VCVS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('G') {
                     if let Some(g) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(g);
                     } else {
                         println!("*ERROR* can't extract VCCS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
-- 
2.43.0


From 02f6bf7032ca475a9a561e38cfdbafeb01618da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:14 +0000
Subject: [PATCH 17/21] fix: voltage source with both terminals on one node
 stamps a wrong equation

---
 src/engine.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index fb98904..dce5ebc 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -733,19 +733,19 @@ impl Engine {
 
         // put the voltage value in the 'known' vector
         let idx_unknown = m[0].len() - 1;
-        m[idx_vsrc][idx_unknown] = vsrc.value;
+        m[idx_vsrc][idx_unknown] += vsrc.value;
 
         let p_not_grounded = (vsrc.p != 0);
         let n_not_grounded = (vsrc.n != 0);
 
         if p_not_grounded {
-            m[idx_vsrc][vsrc.p] = 1.0;
-            m[vsrc.p][idx_vsrc] = 1.0;
+            m[idx_vsrc][vsrc.p] += 1.0;
+            m[vsrc.p][idx_vsrc] += 1.0;
         }
 
         if n_not_grounded {
-            m[idx_vsrc][vsrc.n] = -1.0;
-            m[vsrc.n][idx_vsrc] = -1.0;
+            m[idx_vsrc][vsrc.n] -= 1.0;
+            m[vsrc.n][idx_vsrc] -= 1.0;
         }
     }
 
-- 
2.43.0


From e9bbb7a10265e9243195575354b5fcba7666cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 18/21] fix: unresolvable identifier in an instance override
 silently falls back to the default

The override is what the deck asks for, so a name that isn't a parameter of the
enclosing scope has to stop the run, like every other value that can't be
resolved.
---
 src/expander.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index e4a8117..9aa89c0 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -163,9 +163,8 @@ fn expand_instances(
                         trace!("Found value for identifier in param");
                         Some(val)
                     } else {
-                        trace!("Can't find identifier '{}' for param '{}'",
+                        panic!("*FATAL* Can't find identifier '{}' for param '{}'",
                                lookup_param_name, param_full_name);
-                        None
                     }
                 },
 
-- 
2.43.0


From 988c1c7040ecaba9eee3ff9fffbed273d4c1a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 19/21] fix: report a PWL parameter that is not a number as a
 deck error

r={x} and td={x} were read as 0 without any report.
---
 src/spice.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 7867afd..7cd893e 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -535,6 +535,8 @@ impl Reader {
                     let val = if let Some(Literal(v)) = param.expr {
                         v
                     } else {
+                        println!("*ERROR* PWL parameter '{}' is not a number", param.name);
+                        self.there_are_errors = true;
                         0.0
                     };
 
-- 
2.43.0


From 67623adc6d94b1352087f9c61319d21c1d99bdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 20/21] fix: abort on an unterminated library section that
 follows a terminated one of the same name

---
 src/spice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 7cd893e..c8cd1c3 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -372,9 +372,9 @@ impl Reader {
         }
 
         // if we were reading a library definition and we haven't found a
-        // start (or FIXME a finish), then complain.
+        // start or a finish, then complain.
         if let ReadMode::Library(ref libn) = readmode {
-            if !lib_read_ok {
+            if !lib_read_ok || in_libdef {
                 panic!("Did not find lib definition for '{}'", libn);
             }
         }
-- 
2.43.0


From 232013be7027d3fa42c86829c67d55a9ed85f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 21/21] fix: a deck given by its absolute path aborts, its
 waveform directory being the deck file itself

---
 src/spice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index c8cd1c3..edaad93 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -168,14 +168,14 @@ impl Reader {
                 if bits[0] == "op" {
                     self.cfg.kind = Some(Kind::DcOperatingPoint);
                     let wavefile = Path::new("waves")
-                        .join(&self.cfg.ckt_name)
+                        .join(self.cfg.ckt_name.trim_start_matches('/'))
                         .join("dc.dat");
                     self.cfg.set_wavefile(wavefile.to_str().expect("CasdfasDF"));
 
                 } else if bits[0] == "tran" {
                     self.cfg.kind = Some(Kind::Transient);
                     let wavefile = Path::new("waves")
-                        .join(&self.cfg.ckt_name)
+                        .join(self.cfg.ckt_name.trim_start_matches('/'))
                         .join("tran.dat");
                     self.cfg.set_wavefile(wavefile.to_str().expect("CasdfasDF"));
 
-- 
2.43.0

