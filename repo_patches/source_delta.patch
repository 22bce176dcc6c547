From 61b4ef700fafb627db69d6819eb034334353600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:28 +0000
Subject: [PATCH 01/18] fix: longest alternation leaves the context at the end
 of the winner

The *_ltm drivers left the context wherever the last alternative stopped, did
not restore it when every alternative failed, and the constructing one
rejected zero-length matches.
---
 src/ctor.rs  | 3 ++-
 src/regex.rs | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 79fa4b4..73f20ef 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -962,12 +962,13 @@ where
 
             // construct value
             if let Ok(val) = t2p(item).construct(ctx, h)
-                && ctx.offset() > end
+                && (ret.is_none() || ctx.offset() > end)
             {
                 end = ctx.offset();
                 ret = Some((val, item));
             }
         }
+        ctx.set_offset(end);
         ret.map(|v| r2r(v.0, v.1)).ok_or(err)
     }
 }
diff --git a/src/regex.rs b/src/regex.rs
index 14bad7a..7028418 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -809,6 +809,7 @@ where
     move |slice: &[T], ctx: &mut C| {
         let beg = ctx.offset();
         let mut longest = None;
+        let mut end = beg;
 
         for item in slice.iter() {
             // reset offset for every regex
@@ -818,9 +819,11 @@ where
             if let Ok(span) = ctx.try_mat(t2p(item))
                 && longest.map(|v: Span| v.len() < span.len()).unwrap_or(true)
             {
+                end = ctx.offset();
                 longest = Some(span);
             }
         }
+        ctx.set_offset(end);
         longest.ok_or(err)
     }
 }
-- 
2.43.0


From 9d11a4f1f38d2b25b89b6d0c3406d28318f23def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:28 +0000
Subject: [PATCH 02/18] fix: longest-token match ends at the end of the winning
 span

The span may start after the entry offset when the context skips input before
the match.
---
 src/ctor/longest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctor/longest.rs b/src/ctor/longest.rs
index 406d815..1d8750e 100644
--- a/src/ctor/longest.rs
+++ b/src/ctor/longest.rs
@@ -256,7 +256,7 @@ where
             (Err(_), Err(r)) => Err(r),
         };
 
-        ctx.set_offset(offset + ret.map(|v| v.len()).unwrap_or_default());
+        ctx.set_offset(ret.map(|v| v.beg() + v.len()).unwrap_or(offset));
         debug_regex_reval!("LongestTokenMatch", ret)
     }
 }
-- 
2.43.0


From d791648becfe275b127b5f61972ded89cbaf6f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:28 +0000
Subject: [PATCH 03/18] fix: a failed match restores the offset moved by the
 skip policy

Match::try_mat documents that the offset is unchanged on failure.
---
 src/ctx/policy.rs | 16 +++++++++++++---
 src/ctx/regex.rs  | 10 ++++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/ctx/policy.rs b/src/ctx/policy.rs
index 46e18d6..3f3e3bd 100644
--- a/src/ctx/policy.rs
+++ b/src/ctx/policy.rs
@@ -155,8 +155,12 @@ where
     where
         Pat: Regex<PolicyCtx<I, R>> + ?Sized,
     {
+        let offset = Context::offset(self);
+
         self.regex.try_parse(&mut self.inner)?;
-        pat.try_parse(self)
+        pat.try_parse(self).inspect_err(|_| {
+            self.set_offset(offset);
+        })
     }
 }
 
@@ -176,10 +180,16 @@ where
         B: Regex<PolicyCtx<I, R>> + ?Sized,
         A: Regex<PolicyCtx<I, R>> + ?Sized,
     {
+        let offset = Context::offset(self);
+
         before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
+        let ret = pat.try_parse(self).inspect_err(|_| {
+            self.set_offset(offset);
+        })?;
 
-        after.try_parse(self)?;
+        after.try_parse(self).inspect_err(|_| {
+            self.set_offset(offset);
+        })?;
         Ok(ret)
     }
 }
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 1340a71..3474e5a 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -459,10 +459,16 @@ where
         B: Regex<RegexCtx<'a, T>> + ?Sized,
         A: Regex<RegexCtx<'a, T>> + ?Sized,
     {
+        let offset = Context::offset(self);
+
         before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
+        let ret = pat.try_parse(self).inspect_err(|_| {
+            self.set_offset(offset);
+        })?;
 
-        after.try_parse(self)?;
+        after.try_parse(self).inspect_err(|_| {
+            self.set_offset(offset);
+        })?;
         Ok(ret)
     }
 }
-- 
2.43.0


From 60c3f3e0e1d31c31e4c54ce23f233140a97da85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:28 +0000
Subject: [PATCH 04/18] fix: dynamic builders restore the offset when the
 builder function fails

---
 src/ctor/dthen.rs    | 4 +++-
 src/regex/builder.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ctor/dthen.rs b/src/ctor/dthen.rs
index e426248..b91dee5 100644
--- a/src/ctor/dthen.rs
+++ b/src/ctor/dthen.rs
@@ -227,11 +227,13 @@ where
             )
         };
         let l = ctx.process_ret(l)?;
+        let pat = (self.func)(ctx.ctx(), &l);
+        let pat = ctx.process_ret(pat)?;
         let r = {
             debug_ctor_stage!(
                 "DynamicCtorThenBuilder",
                 "right",
-                (self.func)(ctx.ctx(), &l)?.construct(ctx.ctx(), func)
+                pat.construct(ctx.ctx(), func)
             )
         };
         let r = ctx.process_ret(r)?;
diff --git a/src/regex/builder.rs b/src/regex/builder.rs
index f57ee5a..84e068f 100644
--- a/src/regex/builder.rs
+++ b/src/regex/builder.rs
@@ -50,7 +50,8 @@ where
         let span = ctx.try_mat(&pat)?;
         // build new regex base on result, let the user control ctx
         // continue match from end of previous span
-        let new_pat = (func)(ctx.ctx(), &span)?;
+        let new_pat = (func)(ctx.ctx(), &span);
+        let new_pat = ctx.process_ret(new_pat)?;
         // match again
         let ret = ctx.try_mat(&new_pat);
 
-- 
2.43.0


From ede75b419c9091d744f7df31b1f62b1b13f0ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:28 +0000
Subject: [PATCH 05/18] fix: Repeat2 and Separate2 stop after N elements

A further element indexed past the end of the result array, or turned a
successful match into a failure.
---
 src/ctor/repeat2.rs | 4 ++--
 src/ctor/sep.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 4a6c75f..30915cb 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -165,7 +165,7 @@ where
         let range = M..=N;
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
@@ -200,7 +200,7 @@ where
         let range = M..=N;
 
         crate::debug_regex_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 total.add_assign(p_span);
                 cnt += 1;
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 09cf563..8a469e5 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -789,7 +789,7 @@ where
         let range = M..=N;
 
         debug_ctor_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -832,7 +832,7 @@ where
         let range = M..=N;
 
         debug_regex_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
-- 
2.43.0


From 50983b3d1d16e1db69cb45a3002113fc8eea6998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 06/18] fix: separated lists end at the last accepted element

An element that is dropped because its trailing separator is missing, or that
fails after consuming input, must not move the offset past the returned list;
SepCollect no longer constructs another element after the last one.
---
 src/ctor/sep.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 8a469e5..51664d7 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -504,6 +504,7 @@ mod alloc_sep {
         #[inline(always)]
         fn construct(&self, ctx: &mut C, func: &mut H) -> Result<crate::alloc::Vec<O>, Error> {
             let offset: usize = ctx.offset();
+            let mut end = offset;
             let mut vals = crate::alloc::Vec::with_capacity(self.capacity.max(self.min));
             let range: CRange<usize> = (self.min..).into();
 
@@ -513,11 +514,13 @@ mod alloc_sep {
 
                 if s_span.is_ok() || self.skip {
                     vals.push(val);
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
                 }
             }
+            ctx.set_offset(end);
             let ret = if vals.len() >= self.min {
                 Ok(vals)
             } else {
@@ -541,6 +544,7 @@ mod alloc_sep {
         #[inline(always)]
         fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
             let offset = ctx.offset();
+            let mut end = offset;
             let mut cnt = 0;
             let mut total = Span::new(offset, 0);
             let range: CRange<usize> = (self.min..).into();
@@ -555,11 +559,13 @@ mod alloc_sep {
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
                 }
             }
+            ctx.set_offset(end);
             let ret = if cnt >= self.min {
                 Ok(total)
             } else {
@@ -784,6 +790,7 @@ where
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<[Option<O>; N], Error> {
         let offset: usize = ctx.offset();
+        let mut end = offset;
         let mut vals = [const { None }; N];
         let mut cnt = 0;
         let range = M..=N;
@@ -796,6 +803,7 @@ where
                 if s_span.is_ok() || self.skip {
                     vals[cnt] = Some(val);
                     cnt += 1;
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
@@ -804,6 +812,7 @@ where
                 break;
             }
         }
+        ctx.set_offset(end);
         let ret = if cnt >= M {
             Ok(vals)
         } else {
@@ -827,6 +836,7 @@ where
     #[inline(always)]
     fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
         let offset = ctx.offset();
+        let mut end = offset;
         let mut cnt = 0;
         let mut total = Span::new(offset, 0);
         let range = M..=N;
@@ -842,6 +852,7 @@ where
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
@@ -850,6 +861,7 @@ where
                 break;
             }
         }
+        ctx.set_offset(end);
         let ret = if cnt >= M {
             Ok(total)
         } else {
@@ -1093,12 +1105,16 @@ where
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<V, Error> {
         let offset = ctx.offset();
+        let mut last = offset;
         let mut cnt = 0;
         let mut end = false;
         let range: CRange<usize> = (self.min..).into();
         let ret = {
             debug_ctor_beg!("SepCollect", range, offset);
             V::from_iter(core::iter::from_fn(|| {
+                if end {
+                    return None;
+                }
                 self.pat.construct(ctx, func).ok().and_then(|ret| {
                     let s_span = ctx.try_mat(&self.sep);
 
@@ -1111,6 +1127,7 @@ where
                         // or the skip flag is true.
                         if s_span.is_ok() || self.skip {
                             cnt += 1;
+                            last = ctx.offset();
                             return Some(ret);
                         }
                     }
@@ -1118,6 +1135,7 @@ where
                 })
             }))
         };
+        ctx.set_offset(last);
         let ret = if cnt >= self.min {
             Ok(ret)
         } else {
@@ -1141,6 +1159,7 @@ where
     #[inline(always)]
     fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
         let offset = ctx.offset();
+        let mut end = offset;
         let mut cnt = 0;
         let mut total = Span::new(offset, 0);
         let range: CRange<usize> = (self.min..).into();
@@ -1155,11 +1174,13 @@ where
                 if let Ok(sep_ret) = s_span {
                     total.add_assign(sep_ret);
                 }
+                end = ctx.offset();
             }
             if s_span.is_err() {
                 break;
             }
         }
+        ctx.set_offset(end);
         let ret = if cnt >= self.min {
             Ok(total)
         } else {
-- 
2.43.0


From 242b6fe6f563260234110bf0ae5897b3d8c51add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 07/18] fix: repetitions end at the last constructed element

When constructing an element fails after its pattern matched, e.g. because the
handler rejects it, the offset stayed past the rejected element.
---
 src/ctor/collect.rs | 7 ++++++-
 src/ctor/repeat.rs  | 3 +++
 src/ctor/repeat2.rs | 3 +++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ctor/collect.rs b/src/ctor/collect.rs
index 38cf065..fc908cf 100644
--- a/src/ctor/collect.rs
+++ b/src/ctor/collect.rs
@@ -165,15 +165,20 @@ where
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<V, Error> {
         let offset = ctx.offset();
+        let mut end = offset;
         let mut cnt = 0;
         let val = {
             crate::debug_ctor_beg!("Collect", offset);
             V::from_iter(core::iter::from_fn(|| {
-                self.pat.construct(ctx, func).ok().inspect(|_| {
+                let val = self.pat.construct(ctx, func).ok();
+
+                val.inspect(|_| {
                     cnt += 1;
+                    end = ctx.offset();
                 })
             }))
         };
+        ctx.set_offset(end);
         let ret = if cnt >= self.min {
             Ok(val)
         } else {
diff --git a/src/ctor/repeat.rs b/src/ctor/repeat.rs
index 66f6021..2eecde7 100644
--- a/src/ctor/repeat.rs
+++ b/src/ctor/repeat.rs
@@ -213,6 +213,7 @@ where
     #[inline(always)]
     fn construct(&self, ctx: &mut C, handler: &mut H) -> Result<crate::alloc::Vec<O>, Error> {
         let offset = ctx.offset();
+        let mut end = offset;
         let mut cnt = 0;
         let mut vals = crate::alloc::Vec::with_capacity(self.capacity);
 
@@ -221,10 +222,12 @@ where
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals.push(val);
                 cnt += 1;
+                end = ctx.offset();
             } else {
                 break;
             }
         }
+        ctx.set_offset(end);
         let ret = if core::ops::RangeBounds::contains(&self.range, &cnt) {
             Ok(vals)
         } else {
diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 30915cb..a9a3ea6 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -160,6 +160,7 @@ where
     #[inline(always)]
     fn construct(&self, ctx: &mut C, handler: &mut H) -> Result<[Option<O>; N], Error> {
         let offset = ctx.offset();
+        let mut end = offset;
         let mut cnt = 0;
         let mut vals = [const { None }; N];
         let range = M..=N;
@@ -169,10 +170,12 @@ where
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
+                end = ctx.offset();
             } else {
                 break;
             }
         }
+        ctx.set_offset(end);
         let ret = if range.contains(&cnt) {
             Ok(vals)
         } else {
-- 
2.43.0


From 42684d74e8f77e173a90c41feacb5ba9b0b28f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:53 +0000
Subject: [PATCH 08/18] fix: size_hint of exhausted span iterators does not
 underflow

---
 src/iter/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 8e85228..48003c3 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -43,7 +43,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans.len().saturating_sub(self.cur);
 
         (size, Some(size))
     }
@@ -115,7 +115,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans.len().saturating_sub(self.cur);
 
         (size, Some(size))
     }
-- 
2.43.0


From 86369066376d31811f7fe66f3a77e498b0fdfd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:53 +0000
Subject: [PATCH 09/18] fix: a negated unit does not inherit the minimum length
 of its operand

The characters it accepts may be shorter, and the repetition pre-check then
rejected matching input.
---
 src/neu/op_not.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neu/op_not.rs b/src/neu/op_not.rs
index 4d67f0d..4a97e9a 100644
--- a/src/neu/op_not.rs
+++ b/src/neu/op_not.rs
@@ -109,7 +109,7 @@ where
     }
 
     fn min_length(&self) -> usize {
-        self.unit.min_length()
+        0
     }
 }
 
-- 
2.43.0


From 6710a628b20182c853238e5a077b9afa6e5ef750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:53 +0000
Subject: [PATCH 10/18] fix: Bounded reports Error::Bounded

---
 src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index d6ce9d9..511a9be 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -670,7 +670,7 @@ where
         if self.min <= val && val < self.max {
             Ok(val)
         } else {
-            Err(Error::SelectEq)
+            Err(Error::Bounded)
         }
     }
 }
-- 
2.43.0


From 5bc4322c23601c9b91815870a41823042c4f4bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:53 +0000
Subject: [PATCH 11/18] fix: find does not step past the end of the input

An empty match after skipping the rest of the input moved the offset to len + 1.
---
 src/ctx.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index cf7c4ed..d912351 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -501,7 +501,9 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                if ctx.offset() < ctx.len() {
+                    ctx.inc(1);
+                }
                 None
             }
         };
@@ -581,7 +583,9 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                if ctx.offset() < ctx.len() {
+                    ctx.inc(1);
+                }
                 None
             }
         };
-- 
2.43.0


From 1d4c750cc00c75d0b303d02775cae75f676a01ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:53 +0000
Subject: [PATCH 12/18] fix: orig_at past the end reports OutOfBound instead of
 underflowing

---
 src/ctx.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index d912351..ec5e336 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -72,7 +72,9 @@ pub trait Context<'a> {
 
     /// Returns a slice of the original data starting from a specific offset.
     fn orig_at(&self, offset: usize) -> Result<Self::Orig<'a>, Error> {
-        self.orig_sub(offset, self.len() - offset)
+        let len = self.len().checked_sub(offset).ok_or(Error::OutOfBound)?;
+
+        self.orig_sub(offset, len)
     }
 
     /// Returns a subslice of the original data with specified offset and length.
-- 
2.43.0


From 6cc8d0eb341f26175b88e2ffdc890bca2febe0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:01 +0000
Subject: [PATCH 13/18] fix: neu!() names a function that does not exist

---
 src/macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.rs b/src/macro.rs
index bfeeb28..8f5d123 100644
--- a/src/macro.rs
+++ b/src/macro.rs
@@ -261,7 +261,7 @@ macro_rules! neu {
         $crate::neu::equal($ch)
     };
     () => {
-        $crate::neu::space()
+        $crate::neu::whitespace()
     };
 }
 
-- 
2.43.0


From ea20e33cb2b039a8f30f9c8dd7fe3338ec14aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 14/18] fix: a thread-safe recursive pattern deadlocks when it
 recurses

---
 src/ctor.rs      | 7 +++++++
 src/lib.rs       | 1 +
 src/regex.rs     | 7 +++++++
 src/regex/rec.rs | 8 ++++----
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 73f20ef..2474ca6 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -281,6 +281,13 @@ impl_forward_ctor!(
     crate::std::Mutex<I>
 );
 
+#[cfg(feature = "std")]
+impl_forward_ctor!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<I>
+);
+
 impl<C, O, I, H> Ctor<C, O, H> for Cell<I>
 where
     I: Ctor<C, O, H> + Copy,
diff --git a/src/lib.rs b/src/lib.rs
index 5e61f0d..ab24393 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,7 @@ pub(crate) mod std {
     #[allow(unused)]
     pub use std::collections::HashSet;
     pub use std::sync::Mutex;
+    pub use std::sync::OnceLock;
 }
 
 #[cfg(any(feature = "log", feature = "tracing"))]
diff --git a/src/regex.rs b/src/regex.rs
index 7028418..f49d668 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -234,6 +234,13 @@ impl_forward_regex!(
     crate::std::Mutex<P>
 );
 
+#[cfg(feature = "std")]
+impl_forward_regex!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<P>
+);
+
 impl<P, C> Regex<C> for Cell<P>
 where
     P: Regex<C> + Copy,
diff --git a/src/regex/rec.rs b/src/regex/rec.rs
index 11fbc75..0e04fa4 100644
--- a/src/regex/rec.rs
+++ b/src/regex/rec.rs
@@ -8,10 +8,10 @@ mod rec_sync {
     use crate::ctor::Handler;
     use crate::ctx::Context;
     use crate::ctx::Match;
-    use crate::std::Mutex;
+    use crate::std::OnceLock;
 
     pub type RecursiveCtorSync<'b, C, O, H> =
-        Arc<Mutex<Option<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>>;
+        Arc<OnceLock<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>;
 
     ///
     /// This function will construct a [RecursiveCtorSync] for recursive parsing,
@@ -50,11 +50,11 @@ mod rec_sync {
         H: Handler<C>,
         I: Ctor<C, O, H> + Send + Sync + 'b,
     {
-        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(Mutex::new(None));
+        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(OnceLock::new());
         let r_ctor_clone = r_ctor.clone();
         let ctor = handler(r_ctor_clone);
 
-        *r_ctor.lock().unwrap() = Some(Adapter::dyn_box_sync(ctor));
+        let _ = r_ctor.set(Adapter::dyn_box_sync(ctor));
         r_ctor
     }
 
-- 
2.43.0


From 968784f93c34801e94be416419333d9668a0af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:24 +0000
Subject: [PATCH 15/18] fix: a huge lower bound overflows when multiplied by
 the unit's length

unit.times(usize::MAX..) and between::<M, N> with such an M panicked in debug builds as soon as the
unit takes more than one byte.
---
 src/neu/times.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/neu/times.rs b/src/neu/times.rs
index fda70ea..b8d8a7d 100644
--- a/src/neu/times.rs
+++ b/src/neu/times.rs
@@ -231,7 +231,7 @@ where
         let range = M..N;
 
         crate::debug_regex_beg!("Between", &range, ctx.offset());
-        if remaining_len >= M * self.unit.min_length() {
+        if remaining_len >= M.saturating_mul(self.unit.min_length()) {
             while cnt < N {
                 if let Some(pair) = iter.next() {
                     if self.unit.is_match(&pair.1) && self.cond.check(ctx, &pair)? {
@@ -447,8 +447,10 @@ where
         });
 
         let min_length = || match self.range.start_bound() {
-            core::ops::Bound::Included(max) => max * self.unit.min_length(),
-            core::ops::Bound::Excluded(max) => max.saturating_sub(1) * self.unit.min_length(),
+            core::ops::Bound::Included(max) => max.saturating_mul(self.unit.min_length()),
+            core::ops::Bound::Excluded(max) => {
+                max.saturating_sub(1).saturating_mul(self.unit.min_length())
+            }
             core::ops::Bound::Unbounded => 0,
         };
 
-- 
2.43.0


From 70302fe65e8534c58457cd981dde7323ac3666e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:26 +0000
Subject: [PATCH 16/18] fix: logging a construction that ends before its start
 overflows

---
 src/log.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index 5227dab..b61d8b2 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -161,7 +161,7 @@ mod macro_for_log {
                 "{}(Ctor) beg = {}, len = {} -> {:?}",
                 $name,
                 $beg,
-                $end - $beg,
+                usize::saturating_sub($end, $beg),
                 $ret
             );
         }};
@@ -171,7 +171,7 @@ mod macro_for_log {
                 $name,
                 $val,
                 $beg,
-                $end - $beg,
+                usize::saturating_sub($end, $beg),
                 $ret
             );
         }};
-- 
2.43.0


From ad48122cf238cd6919ff06d240981a3383c17c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:24 +0000
Subject: [PATCH 17/18] fix: an empty slot does not end the iteration over a
 group of spans

---
 src/iter/span.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 48003c3..7fac25c 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -105,17 +105,17 @@ where
     type Item = &'a <T as IndexBySpan>::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let cur = self.cur;
-
-        self.cur += 1;
-        self.spans
-            .get(cur)
-            .and_then(|v| v.as_ref())
-            .and_then(|v| self.value.get_by_span(v))
+        while let Some(slot) = self.spans.get(self.cur) {
+            self.cur += 1;
+            if let Some(span) = slot {
+                return self.value.get_by_span(span);
+            }
+        }
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len().saturating_sub(self.cur);
+        let size = self.spans.iter().skip(self.cur).flatten().count();
 
         (size, Some(size))
     }
@@ -140,13 +140,12 @@ impl Iterator for OptionSpanIterator<'_> {
     type Item = Span;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let offset = self.offset;
-
-        if offset < self.spans.len() {
+        while let Some(slot) = self.spans.get(self.offset) {
             self.offset += 1;
-            self.spans.get(offset).and_then(|v| v.as_ref()).copied()
-        } else {
-            None
+            if slot.is_some() {
+                return *slot;
+            }
         }
+        None
     }
 }
-- 
2.43.0


From 3e6010fecfef9ce2e421621972a8049bebae4e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:15 +0000
Subject: [PATCH 18/18] fix: a group without spans has no spans to iterate

---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index de15bb5..ce4c4cd 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -398,7 +398,7 @@ impl<const M: usize, const N: usize> ArrayStorer<M, N> {
     /// - The group exists but contains no spans
     pub fn spans(&self, id: usize) -> Option<&[Option<Span>]> {
         self.spans.get(id).and_then(|v| {
-            if v.is_empty() {
+            if v.iter().all(|v| v.is_none()) {
                 None
             } else {
                 Some(v.as_slice())
-- 
2.43.0

