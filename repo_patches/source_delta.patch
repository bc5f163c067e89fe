From f38bdba602fdc8babc55638626cf0edc58887137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:53 +0000
Subject: [PATCH 01/17] fix: generate valid code when a static segment is a
 prefix of a sibling

Sibling segments like `user` and `users` share a trie node whose children
are both a character and the separator.  The code generated for that node
did not compile (a `Some('/')` pattern against a byte slice) and would have
lost the shorter route's resources.
---
 wayfinder/src/gen/gen.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 2cc4dc6..54b0028 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -665,9 +665,20 @@ where
     }
 
     // n.b. if we got here, the next character is ambiguous
-    writeln!(w, "{}if i == len {{", indent1)?;
-    writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
-    writeln!(w, "{}}}", indent1)?;
+
+    // one of the static segments may be a prefix of the others, in which
+    // case the path can end right here
+    let separator = trie.children.iter().find(|c| c.0 == Charlike::Separator);
+    match separator.and_then(|c| c.1.data.as_ref()) {
+        Some(route) if route.resources.len() != 0 => {
+            write_methods(w, route, indent)?;
+        }
+        _ => {
+            writeln!(w, "{}if i == len {{", indent1)?;
+            writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
+            writeln!(w, "{}}}", indent1)?;
+        }
+    }
 
     writeln!(w, "{}match &path[i..i+1] {{", indent1)?;
 
@@ -689,7 +700,12 @@ where
                 break;
             }
             Charlike::Separator => {
-                writeln!(w, "{}Some('/') => {{}}", indent2)?;
+                writeln!(w, "{}b\"/\" => {{", indent2)?;
+                writeln!(w, "{}    i += 1;", indent2)?;
+
+                codegen_trie(w, &child.1, indent + 2)?;
+
+                writeln!(w, "{}}},", indent2)?;
             }
         }
     }
-- 
2.43.0


From 387c0c7e5ea9d723d2b9db338c4712d32788724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 02/17] fix: don't index past the end of the path beside a
 one-character segment

With a one-character static segment next to a parameter, the generated
matcher sliced `path[i..i+1]` when already at the end of the path, so a
request for the parent path panicked.
---
 wayfinder/src/gen/gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 54b0028..3e0e15c 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -638,7 +638,7 @@ where
         );
 
         if match_len == 1 {
-            writeln!(w, "{}if i <= len {{", indent1)?;
+            writeln!(w, "{}if i < len {{", indent1)?;
         } else {
             writeln!(w, "{}if i + {} <= len {{", indent1, match_len)?;
         }
-- 
2.43.0


From 0e9405a4f6141254a4b68f2de648b9265f602fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 03/17] fix: generate valid code for several static segments
 beside a parameter

When static segments with different first characters had a parameter as a
sibling, the parameter's statements were written in between the arms of a
`match`, so the generated code did not compile.  Compare whole segments
there, so a path that only starts like a static segment still reaches the
parameter.
---
 wayfinder/src/gen/gen.rs | 115 +++++++++++++++++++++++++++++----------
 1 file changed, 85 insertions(+), 30 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 3e0e15c..f7baacb 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -501,29 +501,7 @@ where
         let (ref segment, ref child) = trie.children[0];
         match segment {
             Charlike::Separator => {
-                // check for child match
-                // TODO: this seems backwards??
-                match child.data {
-                    Some(ref route) if route.resources.len() != 0 => {
-                        write_methods(w, route, indent)?;
-                    }
-                    _ => {
-                        writeln!(w, "{}if i == len {{", indent1)?;
-                        writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
-                        writeln!(w, "{}}}", indent1)?;
-                    }
-                }
-
-                // check for separator
-                writeln!(w, "{}match &path[i..i+1] {{", indent1)?;
-                writeln!(w, "{}    b\"/\" => {{", indent1)?;
-                writeln!(w, "{}        i += 1;", indent1)?;
-                writeln!(w, "{}    }},", indent1)?;
-                writeln!(w, "{}    _ => return Ok(Match::NotFound),", indent1)?;
-                writeln!(w, "{}}}", indent1)?;
-
-                // continue with child
-                codegen_trie(w, child, indent)?;
+                write_separator(w, child, indent)?;
             }
             Charlike::Static(ch) => {
                 // find unambiguous match
@@ -680,6 +658,29 @@ where
         }
     }
 
+    if let Some((Charlike::Dynamic(ref name), ref child)) = dynamic {
+        // n.b. with a dynamic here, a partial match of a static segment
+        // is not a dead end, so compare whole segments
+        writeln!(w, "{}while i < len && &path[i..i+1] != b\"/\" {{", indent1)?;
+        writeln!(w, "{}    i += 1;", indent1)?;
+        writeln!(w, "{}}}", indent1)?;
+        writeln!(w)?;
+        writeln!(w, "{}match &path[start..i] {{", indent1)?;
+
+        for (segment, child) in static_segments(trie) {
+            writeln!(w, "{}b\"{}\" => {{", indent2, segment)?;
+
+            write_separator(w, child, indent + 2)?;
+
+            writeln!(w, "{}}},", indent2)?;
+        }
+
+        writeln!(w, "{}_ => {{}},", indent2)?;
+        writeln!(w, "{}}}", indent1)?;
+
+        return write_dynamic(w, child, indent, name);
+    }
+
     writeln!(w, "{}match &path[i..i+1] {{", indent1)?;
 
     for child in trie.children.iter() {
@@ -692,13 +693,7 @@ where
 
                 writeln!(w, "{}}},", indent2)?;
             }
-            Charlike::Dynamic(ref p) => {
-                write_dynamic(w, &child.1, indent, p)?;
-
-                // No further routes will possibly match.
-                // TODO: is this true still?
-                break;
-            }
+            Charlike::Dynamic(_) => unreachable!(),
             Charlike::Separator => {
                 writeln!(w, "{}b\"/\" => {{", indent2)?;
                 writeln!(w, "{}    i += 1;", indent2)?;
@@ -777,6 +772,66 @@ where
     Ok(())
 }
 
+/// The complete static segments below this node, each with the node that
+/// follows its separator.
+fn static_segments(
+    trie: &Trie<Charlike, FlattenedRoute>,
+) -> Vec<(String, &Trie<Charlike, FlattenedRoute>)> {
+    let mut segments = vec![];
+
+    for (key, child) in trie.children.iter() {
+        match key {
+            Charlike::Static(ch) => {
+                for (rest, end) in static_segments(child) {
+                    segments.push((format!("{}{}", ch, rest), end));
+                }
+            }
+            Charlike::Separator => segments.push((String::new(), child)),
+            Charlike::Dynamic(_) => {}
+        }
+    }
+
+    segments
+}
+
+fn write_separator<W>(
+    w: &mut W,
+    child: &Trie<Charlike, FlattenedRoute>,
+    indent: usize,
+) -> io::Result<()>
+where
+    W: Write,
+{
+    let mut indent1 = String::from("");
+    for _ in 0..indent {
+        indent1.push_str("    ");
+    }
+
+    // check for child match
+    // TODO: this seems backwards??
+    match child.data {
+        Some(ref route) if route.resources.len() != 0 => {
+            write_methods(w, route, indent)?;
+        }
+        _ => {
+            writeln!(w, "{}if i == len {{", indent1)?;
+            writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
+            writeln!(w, "{}}}", indent1)?;
+        }
+    }
+
+    // check for separator
+    writeln!(w, "{}match &path[i..i+1] {{", indent1)?;
+    writeln!(w, "{}    b\"/\" => {{", indent1)?;
+    writeln!(w, "{}        i += 1;", indent1)?;
+    writeln!(w, "{}    }},", indent1)?;
+    writeln!(w, "{}    _ => return Ok(Match::NotFound),", indent1)?;
+    writeln!(w, "{}}}", indent1)?;
+
+    // continue with child
+    codegen_trie(w, child, indent)
+}
+
 // assumes that a None case has already been written
 fn write_dynamic<W>(
     w: &mut W,
-- 
2.43.0


From e055a8cc90b1cb071b52f6b6c298b1ff5ed2b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:55 +0000
Subject: [PATCH 04/17] fix: refuse two parameters at the same position instead
 of dropping one

Sibling parameters with different names next to a static segment generated
a matcher in which only the alphabetically first one was reachable; the
other's routes were silently lost.
---
 wayfinder/src/gen/gen.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index f7baacb..4354024 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -552,10 +552,17 @@ where
 
     // n.b. if we got here, trie.children.len() > 1
 
-    let dynamic = trie.children.iter().find(|c| match c.0 {
+    let mut dynamics = trie.children.iter().filter(|c| match c.0 {
         Charlike::Dynamic(_) => true,
         _ => false,
     });
+    let dynamic = dynamics.next();
+    if dynamics.next().is_some() {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "only one parameter is possible at each position in a path",
+        ));
+    }
     let has_dynamic = match dynamic {
         Some(_) => true,
         None => false,
-- 
2.43.0


From ace9ba686b11c8d845cc05749e4719ed935946eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 05/17] fix: keep path parameters apart from the matcher's own
 variables

A path parameter named like one of the matcher's local variables shadowed
it: `{len: usize}` made the router compare positions with the value sent by
the client, and `{start: ..}`, `{path: ..}`, `{i: ..}`, `{text: ..}` or
`{method: ..}` generated code that did not compile.
---
 wayfinder/src/gen/gen.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 4354024..91c7b19 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -719,6 +719,15 @@ where
     Ok(())
 }
 
+/// The name of the local variable holding the value of a path parameter.
+/// The matcher's own variables must not be shadowed.
+fn local_name(param: &str) -> String {
+    match param {
+        "method" | "path" | "len" | "i" | "start" | "text" => format!("param_value_of_{}", param),
+        _ => param.to_string(),
+    }
+}
+
 fn write_methods<W>(w: &mut W, route: &FlattenedRoute, indent: usize) -> io::Result<()>
 where
     W: Write,
@@ -760,7 +769,12 @@ where
         )?;
 
         for param in route.path.dynamics() {
-            writeln!(w, "{}            {},", indent1, param.name)?;
+            let local = local_name(&param.name);
+            if local == param.name {
+                writeln!(w, "{}            {},", indent1, local)?;
+            } else {
+                writeln!(w, "{}            {}: {},", indent1, param.name, local)?;
+            }
         }
         for param in route.query_parameters.iter() {
             writeln!(w, "{}            {}: None,", indent1, param.name)?;
@@ -866,7 +880,7 @@ where
         "{}let text = std::str::from_utf8(&path[start..i]).unwrap();",
         indent1
     )?;
-    writeln!(w, "{}let {} = text.parse()", indent1, name)?;
+    writeln!(w, "{}let {} = text.parse()", indent1, local_name(name))?;
     writeln!(
         w,
         "{}    .map_err(|e| Error::fail(\"{}\", e))?;",
-- 
2.43.0


From 34121303256b6436ac8a912163c68318d393be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 06/17] fix: indent route listings nested more than seven
 levels deep

`stringify` wrote `--` in place of the indentation from the eighth level
on, so the text did not parse and the generated documentation was wrong.
---
 wayfinder/src/core/mod.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/wayfinder/src/core/mod.rs b/wayfinder/src/core/mod.rs
index 1bed836..ee80fc0 100644
--- a/wayfinder/src/core/mod.rs
+++ b/wayfinder/src/core/mod.rs
@@ -61,18 +61,8 @@ pub struct Routes {
     pub query_parameters: Vec<Param>,
 }
 
-fn indent(level: usize) -> &'static str {
-    match level {
-        0 => "",
-        1 => "  ",
-        2 => "    ",
-        3 => "      ",
-        4 => "        ",
-        5 => "          ",
-        6 => "            ",
-        7 => "              ",
-        _ => "              --",
-    }
+fn indent(level: usize) -> String {
+    "  ".repeat(level)
 }
 
 impl Routes {
-- 
2.43.0


From 0a18e26c34f1afa890d0a9ad8d2a51f56a6f3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 07/17] fix: don't take a trailing slash for an empty path
 parameter

Below a segment without resources of its own, `/people/` was dispatched to
`people/{id}` with an empty id (or failed to parse it), although `/people`
is not found.
---
 wayfinder/src/gen/gen.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 91c7b19..f996c62 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -705,7 +705,7 @@ where
                 writeln!(w, "{}b\"/\" => {{", indent2)?;
                 writeln!(w, "{}    i += 1;", indent2)?;
 
-                codegen_trie(w, &child.1, indent + 2)?;
+                write_after_separator(w, &child.1, indent + 2)?;
 
                 writeln!(w, "{}}},", indent2)?;
             }
@@ -850,7 +850,38 @@ where
     writeln!(w, "{}}}", indent1)?;
 
     // continue with child
-    codegen_trie(w, child, indent)
+    write_after_separator(w, child, indent)
+}
+
+fn write_after_separator<W>(
+    w: &mut W,
+    trie: &Trie<Charlike, FlattenedRoute>,
+    indent: usize,
+) -> io::Result<()>
+where
+    W: Write,
+{
+    let mut indent1 = String::from("");
+    for _ in 0..indent {
+        indent1.push_str("    ");
+    }
+
+    // a trailing slash is not an (empty) parameter
+    let has_resources = trie
+        .data
+        .as_ref()
+        .map_or(false, |route| route.resources.len() != 0);
+    let has_dynamic = trie.children.iter().any(|c| match c.0 {
+        Charlike::Dynamic(_) => true,
+        _ => false,
+    });
+    if has_dynamic && !has_resources {
+        writeln!(w, "{}if i == len {{", indent1)?;
+        writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
+        writeln!(w, "{}}}", indent1)?;
+    }
+
+    codegen_trie(w, trie, indent)
 }
 
 // assumes that a None case has already been written
-- 
2.43.0


From 60198f2534dc1a3607170e64c1fc0c2682d716df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 08/17] fix: refuse two resources for the same method on the
 same path

The generated matcher had two arms for the method, so the second resource
could never be reached although it was declared.
---
 wayfinder/src/gen/gen.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index f996c62..dd78120 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -740,7 +740,17 @@ where
     writeln!(w, "{}if i == len {{", indent1)?;
     writeln!(w, "{}    match method {{", indent1)?;
 
-    for resource in route.resources.iter() {
+    for (n, resource) in route.resources.iter().enumerate() {
+        if route.resources[..n]
+            .iter()
+            .any(|other| other.method == resource.method)
+        {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                format!("more than one {} resource on the same path", resource.method),
+            ));
+        }
+
         let (path, route_nest, close_parens) = {
             let mut path = String::new();
             let mut accum = String::new();
-- 
2.43.0


From 21b1433fad201d448dd30ffc5ccbc8c8af5b4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 09/17] fix: name the action in the duplicate action error

For an action outside of any module the message itself panicked on an
unwrap, and for a nested one it named only the outermost module.
---
 wayfinder/src/gen/flat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/gen/flat.rs b/wayfinder/src/gen/flat.rs
index 1b9c33b..f489c94 100644
--- a/wayfinder/src/gen/flat.rs
+++ b/wayfinder/src/gen/flat.rs
@@ -213,8 +213,12 @@ impl FlattenedModules {
                     },
                 ) {
                     Some(_) => panic!(
-                        "Duplicate controller action `{}::{}`!",
-                        resource.modules.iter().next().unwrap(),
+                        "Duplicate controller action `{}{}`!",
+                        resource
+                            .modules
+                            .iter()
+                            .map(|module| format!("{}::", module))
+                            .collect::<String>(),
                         resource.name,
                     ),
                     None => {}
-- 
2.43.0


From 328fe83c68b693697c7a07337969c0d846674e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 10/17] fix: generate code for a route config without any
 routes

Code generation panicked on an empty config (for instance
`RouteConfig::default()`), and its empty `Route` enum would not have
compiled.
---
 wayfinder/src/gen/gen.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index dd78120..650f2ef 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -248,7 +248,11 @@ where
         indent
     )?;
     writeln!(w, "{}    pub fn to_path(&self) -> String {{", indent)?;
-    writeln!(w, "{}        match self {{", indent)?;
+    if module.actions.is_empty() && module.modules.is_empty() {
+        writeln!(w, "{}        match *self {{", indent)?;
+    } else {
+        writeln!(w, "{}        match self {{", indent)?;
+    }
 
     for action in module.actions.iter() {
         writeln!(
@@ -299,9 +303,9 @@ where
     writeln!(w, "    //! ```ignore")?;
     writeln!(w, "    //! /")?;
 
-    let stringified_config = str::replace(&route_config.routes.stringify(1), "\n", "\n    //! ");
-    let stringified_config = &stringified_config[..stringified_config.len() - 8];
-    write!(w, "    //! {}", stringified_config)?;
+    for line in route_config.routes.stringify(1).lines() {
+        writeln!(w, "    //! {}", line)?;
+    }
     writeln!(w, "    //! ```")?;
     writeln!(w, "    //!")?;
 
-- 
2.43.0


From f492d4783a1c5c48c782468079f8edd2ec72c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 11/17] fix: show the line that could not be parsed

---
 wayfinder/src/parse/errors.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/parse/errors.rs b/wayfinder/src/parse/errors.rs
index 7baf9e4..3d74e62 100644
--- a/wayfinder/src/parse/errors.rs
+++ b/wayfinder/src/parse/errors.rs
@@ -46,8 +46,9 @@ where
 {
     match result {
         Ok(_) => (),
-        Err(Err::Error(Context::Code(_before, e))) => {
-            show_error(out, buf, 0, &format!("error {:?}", e), prefix);
+        Err(Err::Error(Context::Code(i, e))) => {
+            let pos = buf.len() - i.len();
+            show_error(out, buf, pos, &format!("error {:?}", e), prefix);
         }
         Err(Err::Error(Context::List(mut v))) => {
             v.reverse();
-- 
2.43.0


From 18a5f78e980b0f16a8f408f0765eaab70bef38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 12/17] fix: don't let a parameter share another parameter's
 local variable

---
 wayfinder/src/gen/gen.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 650f2ef..af392fd 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -728,6 +728,7 @@ where
 fn local_name(param: &str) -> String {
     match param {
         "method" | "path" | "len" | "i" | "start" | "text" => format!("param_value_of_{}", param),
+        p if p.starts_with("param_value_of_") => format!("param_value_of_{}", param),
         _ => param.to_string(),
     }
 }
-- 
2.43.0


From 2a8513dd5a1c92c34c67d27341f368458d7a3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 13/17] fix: accept comment lines in the header

---
 wayfinder/src/parse/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/parse/mod.rs b/wayfinder/src/parse/mod.rs
index aeef37a..f7bb95b 100644
--- a/wayfinder/src/parse/mod.rs
+++ b/wayfinder/src/parse/mod.rs
@@ -194,7 +194,13 @@ pub fn nested_routes(input: CompleteStr, level: usize) -> IResult<CompleteStr, N
 named!(pub header<CompleteStr, Header>,
     do_parse!(
         text: terminated!(
-            recognize!(pair!(not!(char!('/')), many0!(not_line_ending))),
+            recognize!(pair!(
+                // any Rust code, so a line may start with a comment
+                alt_complete!(
+                    not!(char!('/')) | value!((), tag!("//")) | value!((), tag!("/*"))
+                ),
+                many0!(not_line_ending)
+            )),
             many1!(line_ending)
         ) >>
         (Header::new(text))
-- 
2.43.0


From 1fb8494ccce92c131dccf3aba8752dd5b3a1b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 14/17] fix: put the error marker under the right column past
 line 9999

---
 wayfinder/src/parse/errors.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wayfinder/src/parse/errors.rs b/wayfinder/src/parse/errors.rs
index 3d74e62..3c7df19 100644
--- a/wayfinder/src/parse/errors.rs
+++ b/wayfinder/src/parse/errors.rs
@@ -90,12 +90,13 @@ where
     let line_start = line_start.next().map(|bytes| bytes.len() + 1).unwrap_or(0);
     let line = buf[line_start..].splitn(2, '\n').next().unwrap();
     let line_no = what_line(buf, line_start);
-    let pos_in_line = buf[line_start..pos].chars().count() + 1;
+    let gutter = format!("{:>4}:", line_no);
+    let pos_in_line = gutter.len() + buf[line_start..pos].chars().count() + 1;
     writeln!(
         out,
-        "{prefix}{:>4}:{}\n\
-         {prefix}     {:>pos$} {}",
-        line_no,
+        "{prefix}{}{}\n\
+         {prefix}{:>pos$} {}",
+        gutter,
         line,
         "^",
         msg,
-- 
2.43.0


From 59c3c957e5e77384e39efd6e2aee69d9a61ca55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 15/17] fix: keep the matcher's type parameters apart from the
 routes' structs

An action of the root called P or M was shadowed by a type parameter of the
generated match_route, so the generated code did not compile.
---
 wayfinder/src/gen/gen.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index af392fd..a2384d3 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -452,9 +452,15 @@ where
     writeln!(w, "    /// [`Match`]: enum.Match.html")?;
     writeln!(w, "    /// [`Route`]: enum.Route.html")?;
 
-    writeln!(w, "    pub fn match_route<P: AsRef<[u8]>, M: AsRef<[u8]>>(")?;
-    writeln!(w, "        path: P,")?;
-    writeln!(w, "        method: M,")?;
+    let path_type = type_parameter("P", &modules.root);
+    let method_type = type_parameter("M", &modules.root);
+    writeln!(
+        w,
+        "    pub fn match_route<{}: AsRef<[u8]>, {}: AsRef<[u8]>>(",
+        path_type, method_type
+    )?;
+    writeln!(w, "        path: {},", path_type)?;
+    writeln!(w, "        method: {},", method_type)?;
     writeln!(w, "    ) -> Result<Match<Route>, Error> {{")?;
     writeln!(w, "        let method = method.as_ref();")?;
     writeln!(w, "        let path = path.as_ref();")?;
@@ -475,6 +481,20 @@ where
     Ok(())
 }
 
+/// The name of a type parameter of the matcher, which must not shadow the
+/// struct of an action.
+fn type_parameter(name: &str, root: &FlattenedModule) -> String {
+    let mut name = name.to_string();
+    while root
+        .actions
+        .iter()
+        .any(|action| to_caps_case(&action.name) == name)
+    {
+        name.push_str("Arg");
+    }
+    name
+}
+
 pub fn codegen_trie<W>(
     w: &mut W,
     trie: &Trie<Charlike, FlattenedRoute>,
-- 
2.43.0


From 1057a5d1b7a08ee61285a9a3b4d67f64cd6fcf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:44 +0000
Subject: [PATCH 16/17] fix: report an error in writing the last of the output

Standard output keeps what did not end up on the device in its buffer, and
an error in writing that at the end of the process went unnoticed.
---
 wayfinder/src/build/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wayfinder/src/build/mod.rs b/wayfinder/src/build/mod.rs
index 55bafb1..d94620d 100644
--- a/wayfinder/src/build/mod.rs
+++ b/wayfinder/src/build/mod.rs
@@ -192,7 +192,7 @@ impl Builder {
             }
         };
 
-        match codegen(&mut output, &input) {
+        match codegen(&mut output, &input).and_then(|_| output.flush()) {
             Ok(_) => {}
             Err(e) => {
                 fail!("Error generating code: {}", e);
-- 
2.43.0


From 51c0412edb9c8b8eef33c4af287cb09ed012e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:05 +0000
Subject: [PATCH 17/17] fix: generate valid code for any text in a static
 segment

Route files allow any alphanumeric characters, but a segment that is not
ASCII was written into a byte string literal and compared character by
character, so the generated code did not compile; so did quotes,
backslashes and braces from structs. Compare bytes, and escape them.
---
 wayfinder/src/gen/flat.rs |  4 ++--
 wayfinder/src/gen/gen.rs  | 45 +++++++++++++++++++++++++--------------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/wayfinder/src/gen/flat.rs b/wayfinder/src/gen/flat.rs
index f489c94..bffc9be 100644
--- a/wayfinder/src/gen/flat.rs
+++ b/wayfinder/src/gen/flat.rs
@@ -5,7 +5,7 @@ use crate::gen::trie::*;
 
 #[derive(Debug, Clone, PartialOrd, Ord, PartialEq, Eq)]
 pub enum Charlike {
-    Static(char),
+    Static(u8),      // a byte of the segment's text
     Dynamic(String), // the param name
     Separator,
 }
@@ -21,7 +21,7 @@ impl FlattenedPath {
             .iter()
             .map(|segment| match segment {
                 PathSegment::Static(s) => Either::Left(
-                    s.chars()
+                    s.bytes()
                         .map(Charlike::Static)
                         .chain(std::iter::once(Charlike::Separator)),
                 ),
diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index a2384d3..d755008 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -86,8 +86,8 @@ where
                 Some(c) => c.clone(),
             };
             match ch {
-                Charlike::Static(s) => {
-                    write!(w, "{}", s)?;
+                Charlike::Static(b) => {
+                    w.write_all(&[b])?;
                 }
                 Charlike::Dynamic(ref p) => {
                     write!(w, "{{{}}}", p)?;
@@ -163,9 +163,11 @@ where
                 Some(c) => c.clone(),
             };
             match ch {
-                Charlike::Static(s) => {
-                    write!(w, "{}", s)?;
-                }
+                Charlike::Static(b) => match b {
+                    b'{' | b'}' => w.write_all(&[b, b])?,
+                    b'"' | b'\\' => w.write_all(&[b'\\', b])?,
+                    b => w.write_all(&[b])?,
+                },
                 Charlike::Dynamic(_) => {
                     write!(w, "{{}}")?;
                 }
@@ -529,8 +531,7 @@ where
             }
             Charlike::Static(ch) => {
                 // find unambiguous match
-                let mut unambiguous = String::new();
-                unambiguous.push(*ch);
+                let mut unambiguous = vec![*ch];
 
                 let mut child = child;
 
@@ -556,7 +557,7 @@ where
 
                 // check it
                 writeln!(w, "{}match &path[i..i+{}] {{", indent1, match_len)?;
-                writeln!(w, "{}    b\"{}\" => {{", indent1, unambiguous)?; // TODO quotes in paths - invalid, but??
+                writeln!(w, "{}    {} => {{", indent1, byte_str(&unambiguous))?;
                 writeln!(w, "{}        i += {};", indent1, match_len)?;
                 writeln!(w, "{}    }},", indent1)?;
                 writeln!(w, "{}    _ => return Ok(Match::NotFound),", indent1)?;
@@ -600,7 +601,7 @@ where
 
     let (unambiguous, l, next) = {
         let mut l = 0;
-        let mut s = String::new();
+        let mut s = vec![];
         let mut t = trie;
 
         loop {
@@ -637,7 +638,7 @@ where
 
     let match_len = if l == 0 { 1 } else { l };
 
-    if unambiguous != "" {
+    if !unambiguous.is_empty() {
         // n.b. if we got here, the next bit is unambiguous save a dynamic
 
         // TODO: refactor code to make this clearer!
@@ -653,7 +654,7 @@ where
         }
 
         writeln!(w, "{}match &path[i..i+{}] {{", indent2, match_len)?;
-        writeln!(w, "{}    b\"{}\" => {{", indent2, unambiguous)?; // TODO: quotes in paths - invalid, but??
+        writeln!(w, "{}    {} => {{", indent2, byte_str(&unambiguous))?;
         writeln!(w, "{}        i += {};", indent2, match_len)?;
 
         codegen_trie(w, next, indent + 3)?;
@@ -699,7 +700,7 @@ where
         writeln!(w, "{}match &path[start..i] {{", indent1)?;
 
         for (segment, child) in static_segments(trie) {
-            writeln!(w, "{}b\"{}\" => {{", indent2, segment)?;
+            writeln!(w, "{}{} => {{", indent2, byte_str(&segment))?;
 
             write_separator(w, child, indent + 2)?;
 
@@ -717,7 +718,7 @@ where
     for child in trie.children.iter() {
         match child.0 {
             Charlike::Static(c) => {
-                writeln!(w, "{}b\"{}\" => {{", indent2, c)?;
+                writeln!(w, "{}{} => {{", indent2, byte_str(&[c]))?;
                 writeln!(w, "{}    i += 1;", indent2)?;
 
                 codegen_trie(w, &child.1, indent + 2)?;
@@ -828,21 +829,33 @@ where
     Ok(())
 }
 
+/// The byte string literal for (a part of) a static segment.
+fn byte_str(text: &[u8]) -> String {
+    let escaped = text
+        .iter()
+        .flat_map(|b| std::ascii::escape_default(*b))
+        .map(char::from)
+        .collect::<String>();
+    format!("b\"{}\"", escaped)
+}
+
 /// The complete static segments below this node, each with the node that
 /// follows its separator.
 fn static_segments(
     trie: &Trie<Charlike, FlattenedRoute>,
-) -> Vec<(String, &Trie<Charlike, FlattenedRoute>)> {
+) -> Vec<(Vec<u8>, &Trie<Charlike, FlattenedRoute>)> {
     let mut segments = vec![];
 
     for (key, child) in trie.children.iter() {
         match key {
             Charlike::Static(ch) => {
                 for (rest, end) in static_segments(child) {
-                    segments.push((format!("{}{}", ch, rest), end));
+                    let mut segment = vec![*ch];
+                    segment.extend(rest);
+                    segments.push((segment, end));
                 }
             }
-            Charlike::Separator => segments.push((String::new(), child)),
+            Charlike::Separator => segments.push((vec![], child)),
             Charlike::Dynamic(_) => {}
         }
     }
-- 
2.43.0

