From 5ff6c7f76cdfb5e2a101bc898faf183891518bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 01/27] fix: folder lock refuses paths that climb out with ".."

---
 src/funcs/folder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index 97cc55b..14bdf5e 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -12,7 +12,10 @@ use tparam::*;
 
 pub fn safe_path(p: &Path, s: &str) -> Option<PathBuf> {
     let pres = p.join(s);
-    if pres.starts_with(p) {
+    let climbs = Path::new(s)
+        .components()
+        .any(|c| matches!(c, std::path::Component::ParentDir));
+    if !climbs && pres.starts_with(p) {
         return Some(pres);
     }
     None
-- 
2.43.0


From 89c1faf309eb3360f93768d7c4da7ed211bcbd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 02/27] fix: run without arguments is an error, not a panic,
 and evaluates its arguments once

---
 src/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index d904ce6..f785e35 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -68,7 +68,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         }
         //Convert TParams to pointers to call the Template
         let mut v: Vec<&dyn TParam> = Vec::new();
-        for p in &tds[1..] {
+        for p in tds.iter().skip(1) {
             v.push(p);
         }
         if let Some(tp) = tds.get(0) {
@@ -80,6 +80,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
                 return Ok(TCow::Owned(TData::String(s)));
             }
         }
+        return run_values(cname, &tds, tm, fm);
     }
     if cname == "first" {
         for p in args {
-- 
2.43.0


From 0e27b5f748a3b69246b361233a11365091fb2c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 03/27] fix: select out of range is an error, not a panic

---
 src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index f785e35..0c2c7b2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -98,14 +98,14 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         }
         let bval = args[0].run(scope, tm, fm)?;
         let bval = if let Some(n) = bval.as_usize() {
-            n + 1
+            n.saturating_add(1)
         } else if let Some(b) = bval.as_bool() {
             2 - (b as usize)
         } else {
             return e_string(format!("As Bool failed on {}", bval.deref()));
         };
 
-        if bval > args.len() {
+        if bval >= args.len() {
             return e_str("'select' first param must choose return a value less than the length of the rest of the args");
         }
 
-- 
2.43.0


From 677e5ac4dfde1951ab35d32b9e433fca8531ef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 04/27] fix: get with fewer than two arguments is an error, not
 a panic

---
 src/funcs/lists.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 88d4086..c110e6f 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -190,9 +190,10 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 }
 
 pub fn get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
-    let pos = match args[1].deref() {
-        TData::Int(i) => TData::UInt(*i as usize),
-        v => v.clone(),
+    let pos = match args.get(1).map(|p| p.deref()) {
+        Some(TData::Int(i)) => TData::UInt(*i as usize),
+        Some(v) => v.clone(),
+        None => TData::Null,
     };
     match args.len() {
         0 | 1 => e_str("Get requires List and Number"),
-- 
2.43.0


From e4ad7683d0c2a02dc3a07e4fd724c25466080d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 05/27] fix: bin_get returns the element found in the list

---
 src/funcs/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index c110e6f..25fa787 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -184,7 +184,7 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let comps = build_comparator(&args[2..])?;
     let n = list.binary_search_by(|v| compare(&comps, v, args[1].deref()));
     match n {
-        Ok(n) => Ok(args[n].clone()),
+        Ok(n) => Ok(TCow::Owned(list[n].clone())),
         Err(_) => Ok(TCow::Owned(TData::Null)),
     }
 }
-- 
2.43.0


From aac9ab1e4d8c5e8886f5f93c01063514042525c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 06/27] fix: rand over an empty range is an error, not a panic

---
 src/funcs/random.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/funcs/random.rs b/src/funcs/random.rs
index 14fea6d..e1104c3 100644
--- a/src/funcs/random.rs
+++ b/src/funcs/random.rs
@@ -13,16 +13,18 @@ pub fn get_rand<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 
     if args.len() == 2 {
         return match (args[0].deref(), args[1].deref()) {
-            (TData::Int(a), TData::Int(b)) => b_ok(TData::Int(rg.gen_range(a, b))),
-            (TData::UInt(a), TData::UInt(b)) => b_ok(TData::UInt(rg.gen_range(a, b))),
-            (TData::Float(a), TData::Float(b)) => b_ok(TData::Float(rg.gen_range(a, b))),
+            (TData::Int(a), TData::Int(b)) if a < b => b_ok(TData::Int(rg.gen_range(a, b))),
+            (TData::UInt(a), TData::UInt(b)) if a < b => b_ok(TData::UInt(rg.gen_range(a, b))),
+            (TData::Float(a), TData::Float(b)) if a < b && a.is_finite() && b.is_finite() => {
+                b_ok(TData::Float(rg.gen_range(a, b)))
+            }
             _ => e_str("Could not gen random"),
         };
     }
 
     match args[0].deref() {
-        TData::Int(n) => b_ok(TData::Int(rg.gen_range(0, n))),
-        TData::UInt(n) => b_ok(TData::UInt(rg.gen_range(0, n))),
+        TData::Int(n) if *n > 0 => b_ok(TData::Int(rg.gen_range(0, n))),
+        TData::UInt(n) if *n > 0 => b_ok(TData::UInt(rg.gen_range(0, n))),
         TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),
         TData::List(l) => {
             if l.len() == 0 {
-- 
2.43.0


From d25938a8b191348c8cb1dbe819bacf4cc52eca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 07/27] fix: mixed integers are matched in a type that holds
 both, never wrapped

---
 src/funcs/math.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index 2fb67a8..eebe215 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -1,5 +1,6 @@
 use crate::*;
 use err_tools::*;
+use std::convert::TryFrom;
 use std::ops::Deref;
 use tdata::*;
 use tparam::*;
@@ -25,9 +26,17 @@ use NumMatch::*;
 pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     Some(match (a, b) {
         (TData::UInt(a), TData::UInt(b)) => U(*a, *b),
-        (TData::UInt(a), TData::Int(b)) => I(*a as isize, *b),
+        (TData::UInt(a), TData::Int(b)) => match (isize::try_from(*a), usize::try_from(*b)) {
+            (Ok(a), _) => I(a, *b),
+            (_, Ok(b)) => U(*a, b),
+            _ => return None,
+        },
         (TData::UInt(a), TData::Float(b)) => F(*a as f64, *b),
-        (TData::Int(a), TData::UInt(b)) => I(*a, *b as isize),
+        (TData::Int(a), TData::UInt(b)) => match (usize::try_from(*a), isize::try_from(*b)) {
+            (_, Ok(b)) => I(*a, b),
+            (Ok(a), _) => U(a, *b),
+            _ => return None,
+        },
         (TData::Int(a), TData::Int(b)) => I(*a, *b),
         (TData::Int(a), TData::Float(b)) => F(*a as f64, *b),
         (TData::Float(a), TData::UInt(b)) => F(*a, *b as f64),
-- 
2.43.0


From b8ec4db21036b306501f387ea19143928f2076c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 08/27] fix: integer overflow and division by zero are errors,
 not panics

---
 src/funcs/math.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index eebe215..9941bb3 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -46,11 +46,23 @@ pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     })
 }
 
+fn int(r: Option<isize>) -> anyhow::Result<TCow<'static>> {
+    b_ok(TData::Int(
+        r.e_str("Division by zero, or integer out of range")?,
+    ))
+}
+
+fn uint(r: Option<usize>) -> anyhow::Result<TCow<'static>> {
+    b_ok(TData::UInt(
+        r.e_str("Division by zero, or integer out of range")?,
+    ))
+}
+
 pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a + b))),
+        Some(U(a, b)) => uint(a.checked_add(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a + b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a + b))),
+        Some(I(a, b)) => int(a.checked_add(b)),
         _ => e_str("Cannot add non numeric values"),
     })
 }
@@ -58,9 +70,9 @@ pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     if l.len() == 1 {
         match l[0].deref() {
-            TData::UInt(n) => return b_ok(TData::Int(-(*n as isize))),
+            TData::UInt(n) => return int(0isize.checked_sub_unsigned(*n)),
             TData::Float(f) => return b_ok(TData::Float(-*f)),
-            TData::Int(n) => return b_ok(TData::Int(-*n)),
+            TData::Int(n) => return int(n.checked_neg()),
             _ => return e_str("sub only works on numbers"),
         }
     }
@@ -69,38 +81,38 @@ pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             if a >= b {
                 Ok(TCow::Owned(TData::UInt(a - b)))
             } else {
-                Ok(TCow::Owned(TData::Int(a as isize - b as isize)))
+                int(0isize.checked_sub_unsigned(b - a))
             }
         }
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a - b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a - b))),
+        Some(I(a, b)) => int(a.checked_sub(b)),
         _ => e_str("Cannot sub non numeric values"),
     })
 }
 
 pub fn mul<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a * b))),
+        Some(U(a, b)) => uint(a.checked_mul(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a * b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a * b))),
+        Some(I(a, b)) => int(a.checked_mul(b)),
         _ => e_str("Cannot multiply non numeric values"),
     })
 }
 
 pub fn div<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a / b))),
+        Some(U(a, b)) => uint(a.checked_div(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a / b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a / b))),
+        Some(I(a, b)) => int(a.checked_div(b)),
         _ => e_str("Cannot divide non numeric values"),
     })
 }
 
 pub fn modulo<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a % b))),
+        Some(U(a, b)) => uint(a.checked_rem(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a % b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a % b))),
+        Some(I(a, b)) => int(a.checked_rem(b)),
         _ => e_str("Cannot take modulus non numeric values"),
     })
 }
-- 
2.43.0


From 0f6f010ab3b882928e1b71745ee6537da87e0010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 09/27] fix: JSON integers above i64::MAX convert instead of
 panicking

---
 src/tdata.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 6e3c6b8..61508a0 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -183,10 +183,12 @@ impl TData {
         match v {
             SV::String(s) => Self::String(s),
             SV::Number(n) => {
-                if n.is_f64() {
-                    Self::Float(n.as_f64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    Self::Int(i as isize)
+                } else if let Some(u) = n.as_u64() {
+                    Self::UInt(u as usize)
                 } else {
-                    Self::Int(n.as_i64().unwrap() as isize)
+                    Self::Float(n.as_f64().unwrap_or(std::f64::NAN))
                 }
             }
             SV::Null => Self::Null,
-- 
2.43.0


From 76dceb9ed689fde4ffe6ef83931bbe5f1b8831d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 10/27] fix: html_esc ends every entity with a semicolon

---
 src/funcs/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index e90dcd3..93d62c2 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -97,8 +97,8 @@ pub fn html_esc<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
                 '&' => res.push_str("&amp;"),
                 '<' => res.push_str("&lt;"),
                 '>' => res.push_str("&gt;"),
-                '"' => res.push_str("&quot"),
-                '\'' => res.push_str("&#39"),
+                '"' => res.push_str("&quot;"),
+                '\'' => res.push_str("&#39;"),
                 c => res.push(c),
             }
         }
-- 
2.43.0


From 617fccffd8e9dc5ec5c398f02cf9cc06328c0096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 11/27] fix: table continuation rows may be wider than the
 first, no panic

---
 src/funcs/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/table.rs b/src/funcs/table.rs
index e523f93..d167e18 100644
--- a/src/funcs/table.rs
+++ b/src/funcs/table.rs
@@ -40,7 +40,7 @@ parser! {(Table->String)
             match curr {
                 Some(ref mut v)=>{
                     for (n,s) in row[1..r_len-1].iter().enumerate(){
-                        if n >v.len() {
+                        if n >= v.len() {
                             v.push(s.to_string());
                         }else{
                             write!(v[n]," {}",s).ok();
-- 
2.43.0


From 397048c78b6335decf44126a0b0d5c9d249e6745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 12/27] fix: word_wrap keeps non-ASCII blanks instead of
 panicking on them

---
 src/funcs/strings.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 93d62c2..d154c60 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -125,7 +125,8 @@ pub fn regex<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     b_ok(TData::Bool(reg.is_match(&l[0].to_string())))
 }
 
-fn _word_wrap(s: &str, len: usize) -> Vec<String> {
+fn _word_wrap(s: &str, len: usize) -> anyhow::Result<Vec<String>> {
+    let blank = |c: char| "\n\t \r".contains(c);
     let mut res = Vec::new();
     let mut index = 0;
     let mut count = 0;
@@ -145,13 +146,13 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
         if count >= len {
             match brk {
                 Some(b) => {
-                    res.push(s[index..b].trim().to_string());
+                    res.push(s[index..b].trim_matches(blank).to_string());
                     index = b;
                     count = k - b;
                     brk = None;
                 }
                 None => {
-                    res.push(s[index..k].trim().to_string());
+                    res.push(s[index..k].trim_matches(blank).to_string());
                     index = k;
                     count = 0;
                     brk = None;
@@ -160,17 +161,19 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
         }
     }
     if index < s.len() {
-        res.push(s[index..].trim().to_string());
+        res.push(s[index..].trim_matches(blank).to_string());
     }
     //Assert the wrap has all the chars
     let mut s_join = String::new();
     for s in res.iter() {
         s_join.push_str(s);
     }
-    let s_no_line = s.replace(|c| "\n\t \r".contains(c), "");
-    s_join = s_join.replace(|c| "\n\t \r".contains(c), "");
-    assert_eq!(s_join, s_no_line, "Word wrap failure");
-    res
+    let s_no_line = s.replace(blank, "");
+    s_join = s_join.replace(blank, "");
+    if s_join != s_no_line {
+        return e_str("Word wrap failure");
+    }
+    Ok(res)
 }
 
 pub fn word_wrap<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
@@ -180,7 +183,7 @@ pub fn word_wrap<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let n = l[1]
         .as_usize()
         .e_str("'word_wrap' needs a length as usize")?;
-    let w = _word_wrap(&l[0].to_string(), n);
+    let w = _word_wrap(&l[0].to_string(), n)?;
     return b_ok(TData::List(
         w.into_iter().map(|s| TData::String(s)).collect(),
     ));
-- 
2.43.0


From 7ba0f89c846672c7caa2af1188a3c01659cb43d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 13/27] fix: a word that only starts with null is not the null
 literal

---
 src/parse/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 5b9c772..d749ddb 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -37,7 +37,7 @@ parser! {(Var->VarPart)
 
 parser! { (SimpleData->TData)
     or!(
-        "null".map(|_|TData::Null),
+        keyword("null").map(|_|TData::Null),
         common::Bool.map(|b|TData::Bool(b)),
         Date.map(|d|TData::Date(d)),
         common::Float.map(|f|TData::Float(f)),
-- 
2.43.0


From 9a100e437e364ecb96fb84cb873aff2cb964774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 14/27] fix: a block that fails does not leave its names bound

---
 src/template.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 62e5115..a3a1c33 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -96,12 +96,22 @@ pub fn run_block<TM: TempManager, FM: FuncManager>(
     tm: &mut TM,
     fm: &FM,
 ) -> anyhow::Result<String> {
-    let mut res = String::new();
     scope.push();
+    let res = run_items(block, scope, tm, fm);
+    scope.pop();
+    res
+}
+
+fn run_items<TM: TempManager, FM: FuncManager>(
+    block: &Block,
+    scope: &mut Scope,
+    tm: &mut TM,
+    fm: &FM,
+) -> anyhow::Result<String> {
+    let mut res = String::new();
     for item in block {
         res.push_str(&item.run(scope, tm, fm)?);
     }
-    scope.pop();
     Ok(res)
 }
 
-- 
2.43.0


From 7d46d0582c4f81f3e92518fcc91e0a3687283b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 15/27] fix: an as block that does not match does not leave its
 names bound

---
 src/template.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index a3a1c33..931638a 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -272,14 +272,15 @@ impl TreeItem {
                 return Ok(String::new());
             }
             TreeItem::As { exp, pat, block } => {
-                scope.push();
                 let val = exp.run(scope, tm, fm)?.into_owned();
-                if pat.match_data(&val, scope, tm, fm) {
-                    let r = run_block(block, scope, tm, fm)?;
-                    scope.pop();
-                    return Ok(r);
-                }
-                return Ok(String::new());
+                scope.push();
+                let r = if pat.match_data(&val, scope, tm, fm) {
+                    run_block(block, scope, tm, fm)
+                } else {
+                    Ok(String::new())
+                };
+                scope.pop();
+                return r;
             }
         }
     }
-- 
2.43.0


From 5112095ac37e0f16c04d74562372154ccd48c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 16/27] fix: a path that leads into a scalar parameter names
 nothing

---
 src/tparam.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/tparam.rs b/src/tparam.rs
index 3b6ff3b..4691bc5 100644
--- a/src/tparam.rs
+++ b/src/tparam.rs
@@ -101,35 +101,43 @@ impl TParam for serde_json::Value {
     }
 }
 
+/// A value with nothing inside it: only the empty path leads to it
+fn leaf<'a>(v: TData, s: &[VarPart]) -> TBop<'a> {
+    match s.len() {
+        0 => Some(Cow::Owned(v)),
+        _ => None,
+    }
+}
+
 impl TParam for String {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::String(self.clone())))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        leaf(TData::String(self.clone()), s)
     }
 }
 impl TParam for str {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::String(String::from(self))))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        leaf(TData::String(String::from(self)), s)
     }
 }
 
 impl TParam for &str {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::String(String::from(*self))))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        leaf(TData::String(String::from(*self)), s)
     }
 }
 impl TParam for usize {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::UInt(*self)))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        leaf(TData::UInt(*self), s)
     }
 }
 impl TParam for f64 {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::Float(*self)))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        leaf(TData::Float(*self), s)
     }
 }
 impl TParam for bool {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::Bool(*self)))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        leaf(TData::Bool(*self), s)
     }
 }
 
@@ -147,9 +155,7 @@ impl TParam for Vec<&str> {
                     self.iter().map(|s| TData::String(s.to_string())).collect(),
                 )));
             }
-            Some(VarPart::Num(n)) => self
-                .get(*n)
-                .map(|s| Cow::Owned(TData::String(s.to_string()))),
+            Some(VarPart::Num(n)) => leaf(TData::String(self.get(*n)?.to_string()), &s[1..]),
             _ => None,
         }
     }
@@ -163,10 +169,10 @@ impl TParam for Card {
         }
         let id = s[0].as_str()?;
         if id == "Name" {
-            return Some(Cow::Owned(TData::String(self.name.clone())));
+            return leaf(TData::String(self.name.clone()), &s[1..]);
         }
         if id == "Num" {
-            return Some(Cow::Owned(TData::UInt(self.num)));
+            return leaf(TData::UInt(self.num), &s[1..]);
         }
         let prop = self.data.get(id)?;
         prop.get_v(&s[1..])
@@ -207,7 +213,8 @@ impl<S: Debug + AsRef<str>, T: Into<TData> + Debug + Clone> TParam for KV<S, T>
             return None;
         }
         if s[0].as_str()? == self.0.as_ref() {
-            return Some(Cow::Owned(self.1.clone().into()));
+            let d: TData = self.1.clone().into();
+            return d.get_v(&s[1..]).map(|v| Cow::Owned(v.into_owned()));
         }
         None
     }
-- 
2.43.0


From 12cb2441ed018c410870db7fb9c17667fbf1ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 17/27] fix: integers and floats compare by exact value

---
 src/tdata.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 61508a0..90f31e9 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -21,10 +21,25 @@ pub enum TData {
     Bytes(Vec<u8>),
 }
 
+/// Compare without rounding the integer to the nearest float
+fn cmp_int_float(i: i128, f: f64) -> Option<Ordering> {
+    match (i as f64).partial_cmp(&f)? {
+        Ordering::Equal => Some(i.cmp(&(f as i128))),
+        o => Some(o),
+    }
+}
+
 impl PartialOrd for TData {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         use math::NumMatch::*;
         use TData::*;
+        match (self, other) {
+            (Int(a), Float(b)) => return cmp_int_float(*a as i128, *b),
+            (UInt(a), Float(b)) => return cmp_int_float(*a as i128, *b),
+            (Float(a), Int(b)) => return cmp_int_float(*b as i128, *a).map(Ordering::reverse),
+            (Float(a), UInt(b)) => return cmp_int_float(*b as i128, *a).map(Ordering::reverse),
+            _ => {}
+        }
         match math::num_match(self, other) {
             Some(I(a, b)) => return a.partial_cmp(&b),
             Some(U(a, b)) => return a.partial_cmp(&b),
@@ -42,15 +57,11 @@ impl PartialOrd for TData {
 
 impl PartialEq for TData {
     fn eq(&self, other: &Self) -> bool {
-        use math::NumMatch::*;
         use TData::*;
-        match math::num_match(self, other) {
-            Some(I(a, b)) => return a == b,
-            Some(U(a, b)) => return a == b,
-            Some(F(a, b)) => return a == b,
-            None => {}
-        }
         match (self, other) {
+            (Int(_) | UInt(_) | Float(_), Int(_) | UInt(_) | Float(_)) => {
+                self.partial_cmp(other) == Some(Ordering::Equal)
+            }
             (String(a), String(b)) => a == b,
             (Bool(a), Bool(b)) => a == b,
             (Date(a), Date(b)) => a == b,
-- 
2.43.0


From 204d6e3172a69b4f121b85e7e349ae921199b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 18/27] fix: lists, maps, bytes and templates with equal
 contents are equal

---
 src/tdata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tdata.rs b/src/tdata.rs
index 90f31e9..e6a5684 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -65,6 +65,10 @@ impl PartialEq for TData {
             (String(a), String(b)) => a == b,
             (Bool(a), Bool(b)) => a == b,
             (Date(a), Date(b)) => a == b,
+            (List(a), List(b)) => a == b,
+            (Map(a), Map(b)) => a == b,
+            (Bytes(a), Bytes(b)) => a == b,
+            (Template(a), Template(b)) => a == b,
             (Null, Null) => true,
             _ => false,
         }
-- 
2.43.0


From 38befc48a698a208fa6fa49b54cbd537894d3fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 19/27] fix: sorting uses one total order (dates apart from
 numbers, NaN last)

---
 src/funcs/lists.rs |  6 +++---
 src/tdata.rs       | 11 +++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 25fa787..d3d6c73 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -80,7 +80,7 @@ pub fn sort<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             }
         }
     }
-    res.sort_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
+    res.sort_by(|a, b| a.order(b));
     b_ok(TData::List(res))
 }
 
@@ -102,10 +102,10 @@ impl Comparator {
     fn compare(&self, a: &TData, b: &TData) -> Ordering {
         o_flip(
             match (a.get_v(&self.v), b.get_v(&self.v)) {
-                (Some(ba), Some(bb)) => ba.partial_cmp(&bb).unwrap_or(Ordering::Equal),
+                (Some(ba), Some(bb)) => ba.order(&bb),
                 (Some(_), None) => Ordering::Greater,
                 (None, Some(_)) => Ordering::Less,
-                _ => a.partial_cmp(b).unwrap_or(Ordering::Equal),
+                _ => a.order(b),
             },
             self.down,
         )
diff --git a/src/tdata.rs b/src/tdata.rs
index e6a5684..5701f1b 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -176,6 +176,13 @@ impl TData {
         }
     }
 
+    /// The order used for sorting and searching: a NaN comes after every other number
+    pub fn order(&self, other: &Self) -> Ordering {
+        let nan = |d: &TData| matches!(d, TData::Float(f) if f.is_nan());
+        self.partial_cmp(other)
+            .unwrap_or_else(|| nan(self).cmp(&nan(other)))
+    }
+
     pub fn mode_rank(&self) -> usize {
         use TData::*;
         match self {
@@ -186,8 +193,8 @@ impl TData {
             Bool(_) => 4,
             Int(_) => 5,
             UInt(_) => 6,
-            Date(_) => 7,
-            Float(_) => 8,
+            Float(_) => 7,
+            Date(_) => 8,
             String(_) => 9,
             Bytes(_) => 10,
         }
-- 
2.43.0


From 25dc56afd809af36adf751b7f5dc99953d90b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 20/27] fix: maps are printed, written and looped over in key
 order

---
 src/tdata.rs    | 32 ++++++++++++++++++++++++++++----
 src/template.rs |  2 +-
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 5701f1b..351bc71 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -2,11 +2,11 @@ use crate::funcs::math;
 use gobble::traits::*;
 use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
 use std::cmp::Ordering;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 
 use crate::template::TreeTemplate;
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 pub enum TData {
     Bool(bool),
     String(String),
@@ -55,6 +55,30 @@ impl PartialOrd for TData {
     }
 }
 
+/// The entries of a map in the order of their keys
+pub fn sorted(m: &HashMap<String, TData>) -> BTreeMap<&String, &TData> {
+    m.iter().collect()
+}
+
+impl fmt::Debug for TData {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        use TData::*;
+        match self {
+            Bool(v) => f.debug_tuple("Bool").field(v).finish(),
+            String(v) => f.debug_tuple("String").field(v).finish(),
+            Int(v) => f.debug_tuple("Int").field(v).finish(),
+            UInt(v) => f.debug_tuple("UInt").field(v).finish(),
+            Float(v) => f.debug_tuple("Float").field(v).finish(),
+            List(v) => f.debug_tuple("List").field(v).finish(),
+            Map(v) => f.debug_tuple("Map").field(&sorted(v)).finish(),
+            Template(v) => f.debug_tuple("Template").field(v).finish(),
+            Null => write!(f, "Null"),
+            Date(v) => f.debug_tuple("Date").field(v).finish(),
+            Bytes(v) => f.debug_tuple("Bytes").field(v).finish(),
+        }
+    }
+}
+
 impl PartialEq for TData {
     fn eq(&self, other: &Self) -> bool {
         use TData::*;
@@ -92,7 +116,7 @@ impl fmt::Display for TData {
                 }
                 write!(f, "]")
             }
-            Map(m) => write!(f, "{:?}", m),
+            Map(m) => write!(f, "{:?}", sorted(m)),
             Null => write!(f, "NULL"),
             Template(_t) => write!(f, "TEMPLATE"),
             Date(d) => write!(f, "{}", d.format("%d/%m/%Y")),
@@ -121,7 +145,7 @@ impl Serialize for TData {
             }
             TData::Map(m) => {
                 let mut map = ss.serialize_map(Some(m.len()))?;
-                for (k, v) in m {
+                for (k, v) in sorted(m) {
                     map.serialize_entry(k, v)?;
                 }
                 map.end()
diff --git a/src/template.rs b/src/template.rs
index 931638a..7e827b8 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -166,7 +166,7 @@ impl TreeItem {
                 let mut res = String::new();
                 match looper {
                     TData::Map(m) => {
-                        for (mapk, mapv) in m {
+                        for (mapk, mapv) in tdata::sorted(&m) {
                             scope.set(k, TData::String(mapk.to_string()));
                             scope.set(v, mapv.clone());
                             res.push_str(&run_block(&b, scope, tm, fm)?);
-- 
2.43.0


From 86259164202d6130a097a0e73970956e103fc570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:17 +0000
Subject: [PATCH 21/27] fix: with_ext gives an error for an extension with a
 path separator instead of panicking

---
 src/funcs/path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/funcs/path.rs b/src/funcs/path.rs
index 62b8487..875ef7d 100644
--- a/src/funcs/path.rs
+++ b/src/funcs/path.rs
@@ -77,7 +77,11 @@ pub fn with_ext<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         return e_str("'with_ext' requires a filenae then an extension");
     }
     let p = PathBuf::from(args[0].to_string());
-    let pe = p.with_extension(args[1].to_string());
+    let ext = args[1].to_string();
+    if ext.contains(std::path::is_separator) {
+        return e_str("'with_ext' extension cannot contain a path separator");
+    }
+    let pe = p.with_extension(ext);
     b_ok(path_dat(&pe))
 }
 
-- 
2.43.0


From 4192f1b4e983051ea1215e4b2669df342facba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 22/27] fix: folder lock on the empty path refuses absolute
 paths

---
 src/funcs/folder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index 14bdf5e..4c803c8 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -15,7 +15,9 @@ pub fn safe_path(p: &Path, s: &str) -> Option<PathBuf> {
     let climbs = Path::new(s)
         .components()
         .any(|c| matches!(c, std::path::Component::ParentDir));
-    if !climbs && pres.starts_with(p) {
+    // every path starts with the empty one
+    let leaves = pres.has_root() && !p.has_root();
+    if !climbs && !leaves && pres.starts_with(p) {
         return Some(pres);
     }
     None
-- 
2.43.0


From 21440a7fac69ffc58f7d2217209a2752261fc86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 23/27] fix: text that cannot be read as an item no longer
 hangs the parser

strings_plus_until never ends when its first item fails; a template with a
lone backslash at its end, or {{1}}\, hung Parser::parse for ever
---
 src/parse/template.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/template.rs b/src/parse/template.rs
index d68978e..7c8e0e6 100644
--- a/src/parse/template.rs
+++ b/src/parse/template.rs
@@ -55,5 +55,5 @@ parser! {(Item->FlatItem)
             ('/',Ident,WS.star()).map(|(_,n,_)|FlatItem::EndBlock(n)),
             Exp.map(|p|FlatItem::Exp(p)),
     ).brk(),wn_(IClose).brk())
-        .or(strings_plus_until(StringItem,peek(or_ig!(IOpen,eoi))).map(|(s,_)|FlatItem::String(s)))
+        .or(plus_until_ig(StringItem,peek(or_ig!(IOpen,eoi))).map(|v|FlatItem::String(v.concat())))
 }
-- 
2.43.0


From 38ef6e2f88da6b422d63406f6fde6fcbc7562bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 24/27] fix: keep the sign of fractions between -1 and 0

gobble's Float takes the sign from the integer part, so -0.5 was read as 0.5
---
 src/parse/expr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index d749ddb..98a6e04 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -40,6 +40,7 @@ parser! { (SimpleData->TData)
         keyword("null").map(|_|TData::Null),
         common::Bool.map(|b|TData::Bool(b)),
         Date.map(|d|TData::Date(d)),
+        ('-',peek(NumDigit.one()),common::Float).map(|(_,_,f)|TData::Float(-f)),
         common::Float.map(|f|TData::Float(f)),
         common::UInt.map(|n|TData::UInt(n)),
         common::Int.map(|i|TData::Int(i)),
-- 
2.43.0


From 1febf7f83017dfbdf8c36d7eae8d959c305d45da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 25/27] fix: a date literal's day and year never wrap

4294967298/1/2020 was read as 02/01/2020
---
 src/parse/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 98a6e04..44475d7 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::expr::*;
 use crate::TData;
 use gobble::*;
+use std::convert::TryFrom;
 
 parser! {(Month->usize)
     or!(
@@ -25,8 +26,10 @@ parser! {(Month->usize)
 
 parser! {(Date->chrono::NaiveDate)
     (common::UInt,"/",Month,"/",common::Int)
-        .try_map(|(d,_,m,_,y)| chrono::NaiveDate::from_ymd_opt(y as i32,m as u32,d as u32)
-            .ok_or(Expected::Str("Date Creation Failed")))
+        .try_map(|(d,_,m,_,y)| match (i32::try_from(y),u32::try_from(d)){
+            (Ok(y),Ok(d))=>chrono::NaiveDate::from_ymd_opt(y,m as u32,d),
+            _=>None,
+        }.ok_or(Expected::Str("Date Creation Failed")))
 
 }
 
-- 
2.43.0


From 4df9f5a7e6e4eefe10f335dfabe0a1bf732a2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 26/27] fix: r_json did not read all that w_json writes

---
 src/funcs/format.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/funcs/format.rs b/src/funcs/format.rs
index 8f06d5b..313fd96 100644
--- a/src/funcs/format.rs
+++ b/src/funcs/format.rs
@@ -9,6 +9,9 @@ use tparam::*;
 pub fn r_json<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let s = l.iter().next().e_str("r_json requires a string argument")?;
     if let TData::String(s) = s.deref() {
+        if let Ok(v) = serde_json::from_str(s) {
+            return b_ok(TData::from_json(v));
+        }
         return BasicData
             .parse_s(s)
             .map(|v| TCow::Owned(v))
-- 
2.43.0


From 74616cd1b7d3a7fa1ddf4c6f94463051ff8ec272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 27/27] fix: a card's own name hid an entry of its data of that
 name, but only in a lookup into the card

---
 src/tparam.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tparam.rs b/src/tparam.rs
index 4691bc5..a68bb18 100644
--- a/src/tparam.rs
+++ b/src/tparam.rs
@@ -168,14 +168,15 @@ impl TParam for Card {
             return Some(Cow::Owned(self.into()));
         }
         let id = s[0].as_str()?;
-        if id == "Name" {
-            return leaf(TData::String(self.name.clone()), &s[1..]);
+        // as in the value made of the card, its data comes before its own name and number
+        if let Some(prop) = self.data.get(id) {
+            return prop.get_v(&s[1..]);
         }
-        if id == "Num" {
-            return leaf(TData::UInt(self.num), &s[1..]);
+        match id {
+            "Name" => leaf(TData::String(self.name.clone()), &s[1..]),
+            "Num" => leaf(TData::UInt(self.num), &s[1..]),
+            _ => None,
         }
-        let prop = self.data.get(id)?;
-        prop.get_v(&s[1..])
     }
 }
 
-- 
2.43.0

