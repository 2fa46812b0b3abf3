From c04c79e2ae344570ea20216a6e43eda829709e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 1/2] fix: stop repeating after an empty round

A repeated pattern whose match, together with its separator's, is empty
(as in `(digit*)*` or `""*`) kept matching the empty string at the same
place forever. Stop advancing after a round that consumed nothing, once the
minimum count is reached.
---
 src/parsers/repeat.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parsers/repeat.rs b/src/parsers/repeat.rs
index 236d1c9..da8ab29 100644
--- a/src/parsers/repeat.rs
+++ b/src/parsers/repeat.rs
@@ -100,6 +100,18 @@ where
         }
     }
 
+    /// True if the latest complete round, a match of `pattern` followed by a
+    /// match of `sep`, matched the empty string.
+    ///
+    /// Precondition: `self.is_pattern_next()`.
+    fn last_round_is_empty(&self) -> bool {
+        match self.sep_iters.len() {
+            0 => false,
+            1 => self.end() == self.start,
+            n => self.end() == self.sep_iters[n - 2].match_end(),
+        }
+    }
+
     /// Precondition: Either there are no iters or we just successfully
     /// backtracked the foremost iter.
     ///
@@ -113,6 +125,11 @@ where
             assert_eq!(self.sep_iters.len(), self.num_matches() / 2);
 
             if self.is_pattern_next() {
+                // After a round that didn't consume anything, the next one
+                // would start from the same place and could go on forever.
+                if self.pattern_iters.len() >= self.params.min && self.last_round_is_empty() {
+                    return Err(Reported);
+                }
                 let start = self.end();
                 let iter = self.params.pattern.parse_iter(context, start)?;
                 self.pattern_iters.push(iter);
-- 
2.43.0


From a2e4be34e7fab141ee80dc9483941ef1b57a5e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 2/2] fix: let a section with no lines end at the blank line

A section is zero or more nonblank lines followed by a blank line or the end
of input. When there were no nonblank lines, the blank line that ends the
section was handed to the section's pattern, together with whatever followed
it up to the next blank line.
---
 src/parsers/lines.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/lines.rs b/src/parsers/lines.rs
index bc20a83..1bf5069 100644
--- a/src/parsers/lines.rs
+++ b/src/parsers/lines.rs
@@ -84,6 +84,10 @@ impl Region for Section {
         // section at end of input. presumably not repeat forever. (why does
         // this not always hang forever if you try to use `sections`?)
         let source = context.source();
+        if source[start..].starts_with('\n') {
+            // no nonblank lines, ending at a blank line
+            return Ok((start, start + 1));
+        }
         match source[start..].find("\n\n") {
             // ending at a blank line
             Some(index) => Ok((start + index + 1, start + index + 2)),
-- 
2.43.0

