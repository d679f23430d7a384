From bbd7e774d30a5210563ecf93fe8735f798f54af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:56 +0000
Subject: [PATCH 1/4] fix: a hexadecimal integer literal needs at least one
 digit

The documented grammar is -?0[Xx][0-9A-Fa-f]+, but `0x` alone was accepted.
---
 src/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.rs b/src/literal.rs
index 34d9bb1..aae7e60 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -19,7 +19,7 @@ ast_types! {
                 opt!(char!('-')) >>
                 char!('0') >>
                 alt!(char!('x') | char!('X')) >>
-                take_while!(|c: char| c.is_ascii_hexdigit()) >>
+                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                 (())
             ))),
         )),
-- 
2.43.0


From 690832689f76bde891820a2c53199afbbdbb3677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:56 +0000
Subject: [PATCH 2/4] fix: accept a line comment that ends at the end of the
 input

A // comment on the last line without a trailing newline was not skipped,
so parsing stopped in front of it.
---
 src/whitespace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whitespace.rs b/src/whitespace.rs
index e6bbf0a..6106394 100644
--- a/src/whitespace.rs
+++ b/src/whitespace.rs
@@ -5,7 +5,7 @@ pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
         input,
         many0!(alt!(
             // ignores line comments
-            do_parse!(tag!("//") >> take_until!("\n") >> char!('\n') >> (()))
+            do_parse!(tag!("//") >> take_while!(|c| c != '\n') >> (()))
             |
             // ignores whitespace
             map!(take_while1!(|c| c == '\t' || c == '\n' || c == '\r' || c == ' '), |_| ())
-- 
2.43.0


From d0ded08fc5b36017455fd2387cffd9f6badd6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:56 +0000
Subject: [PATCH 3/4] fix: accept input that has only whitespace and comments

Such input holds zero definitions, but parse() treated it as redundant data.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 378268e..09a0590 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,6 +82,8 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
+    // Each definition skips the whitespace around itself, this is for input without any
+    let (remaining, _) = whitespace::sp(remaining)?;
     assert!(
         remaining.is_empty(),
         "There is redundant raw data after parsing"
-- 
2.43.0


From 4f0ca62564d4c9d1094fcb0b2409b65502dc4dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:56 +0000
Subject: [PATCH 4/4] fix: report malformed input as an error instead of
 panicking

parse() returns a Result, yet any input that is not entirely valid WebIDL
made it panic. Return an error that holds the part that could not be parsed.
---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 09a0590..ff28bf2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -84,10 +84,10 @@ pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
     // Each definition skips the whitespace around itself, this is for input without any
     let (remaining, _) = whitespace::sp(remaining)?;
-    assert!(
-        remaining.is_empty(),
-        "There is redundant raw data after parsing"
-    );
+    if !remaining.is_empty() {
+        // There is redundant raw data after parsing
+        return Err(Err::Error((remaining, ErrorKind::Eof)));
+    }
     Ok(parsed)
 }
 
-- 
2.43.0

