From acaf36b0c8210b414dbcc60b4199b09916acaccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH] fix: generate the module before touching the build target

A route config that parses but that the generator rejects (for example a
duplicate action) panicked after the output file had been truncated, or
after part of the module had gone to standard output.
---
 wayfinder/src/build/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/build/mod.rs b/wayfinder/src/build/mod.rs
index 55bafb1..6dd499c 100644
--- a/wayfinder/src/build/mod.rs
+++ b/wayfinder/src/build/mod.rs
@@ -177,6 +177,12 @@ impl Builder {
             }
         };
 
+        // The generator rejects some configs, so run it before touching the target.
+        let mut code = Vec::new();
+        if let Err(e) = codegen(&mut code, &input) {
+            fail!("Error generating code: {}", e);
+        }
+
         let mut output = match target {
             Target::Stdout => Either::Left(std::io::stdout()),
             Target::File(filename) => {
@@ -192,10 +198,10 @@ impl Builder {
             }
         };
 
-        match codegen(&mut output, &input) {
+        match output.write_all(&code).and_then(|_| output.flush()) {
             Ok(_) => {}
             Err(e) => {
-                fail!("Error generating code: {}", e);
+                fail!("Error writing code: {}", e);
             }
         }
     }
-- 
2.43.0

