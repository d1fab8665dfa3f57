From 0fe9ade57f94a2209408506dd9d65f0fdd2843fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 1/9] fix: unregister only the style itself, not a newer one
 with an equal key

---
 packages/stylist/src/manager/content.rs  |  2 +-
 packages/stylist/src/manager/mod.rs      |  4 ++--
 packages/stylist/src/manager/registry.rs | 12 ++++++++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 9c28968..07ea68d 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -35,7 +35,7 @@ impl StyleContent {
 
     pub fn unregister(&self) {
         if let Some(mgr) = self.manager() {
-            mgr.unregister_style(self.key());
+            mgr.unregister_style(self);
         }
     }
 }
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index c85ef2e..0f71689 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -207,8 +207,8 @@ impl StyleManager {
         Ok(content)
     }
 
-    pub(crate) fn unregister_style(&self, key: &Rc<StyleKey>) {
-        self.inner.registry.borrow_mut().unregister(key);
+    pub(crate) fn unregister_style(&self, content: &StyleContent) {
+        self.inner.registry.borrow_mut().unregister(content);
     }
 
     /// Return a reference of style key.
diff --git a/packages/stylist/src/manager/registry.rs b/packages/stylist/src/manager/registry.rs
index 31ac89d..fe8e0ac 100644
--- a/packages/stylist/src/manager/registry.rs
+++ b/packages/stylist/src/manager/registry.rs
@@ -16,8 +16,16 @@ impl StyleRegistry {
         }
     }
 
-    pub fn unregister(&mut self, key: &StyleKey) {
-        self.styles.remove(key);
+    pub fn unregister(&mut self, content: &StyleContent) {
+        // A different style may have been registered under an equal key in the meantime.
+        let is_registered = self
+            .styles
+            .get(content.key())
+            .map_or(false, |m| std::ptr::eq(m.as_ref(), content));
+
+        if is_registered {
+            self.styles.remove(content.key());
+        }
     }
 
     pub fn get(&self, key: &StyleKey) -> Option<Rc<StyleContent>> {
-- 
2.43.0


From 9e86761ec985ec974a372bc966e39f22b35697fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 2/9] fix: render hydrated global styles without a class name

---
 packages/stylist/src/manager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 0f71689..389f63c 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -386,7 +386,7 @@ mod feat_hydration {
                         m.insert(
                             StyleContent {
                                 id: id.clone(),
-                                style_str: key.ast.to_style_str(Some(id)),
+                                style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                                 manager: self.downgrade(),
                                 key: key.clone(),
                             }
-- 
2.43.0


From 9611780650e37d05831c8744e9a18f899f22a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 3/9] fix: prepend style elements to the container, not to its
 first child

---
 packages/stylist/src/manager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 389f63c..b80e6da 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -234,7 +234,7 @@ impl StyleManager {
             // Prepend element
             if !self.inner.append {
                 if let Some(m) = container.first_child() {
-                    return m.insert_before(&style_element, Some(&m)).map(|_m| ());
+                    return container.insert_before(&style_element, Some(&m)).map(|_m| ());
                 }
             }
 
-- 
2.43.0


From fcd1467cf86a17bf616ebd5799d761dbad18c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 4/9] fix: update use_media_query when its query changes

---
 packages/stylist/src/yew/hooks/use_media_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/stylist/src/yew/hooks/use_media_query.rs b/packages/stylist/src/yew/hooks/use_media_query.rs
index f66a5ee..54d42a4 100644
--- a/packages/stylist/src/yew/hooks/use_media_query.rs
+++ b/packages/stylist/src/yew/hooks/use_media_query.rs
@@ -38,6 +38,9 @@ pub fn use_media_query(query: &str) -> bool {
         let match_media = match_media();
         let match_media_clone = match_media.clone();
 
+        // The state still holds the result of the previous query if the query has changed.
+        state_clone.set(match_media.matches());
+
         let listener = EventListener::new(&match_media, "change", move |_event| {
             state_clone.set(match_media_clone.matches());
         });
-- 
2.43.0


From 555c148de052766788aa09bef96834ff532a8c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 5/9] fix: do not bring names into scope of expressions
 interpolated in macros

---
 packages/stylist-macros/src/inline/parse/mod.rs | 2 +-
 packages/stylist-macros/src/output/sheet.rs     | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/packages/stylist-macros/src/inline/parse/mod.rs b/packages/stylist-macros/src/inline/parse/mod.rs
index 30f1029..6542364 100644
--- a/packages/stylist-macros/src/inline/parse/mod.rs
+++ b/packages/stylist-macros/src/inline/parse/mod.rs
@@ -56,7 +56,7 @@ impl IntoOutputContext {
                 {
                     { #( #tokens )* }
 
-                    ::stylist::ast::Sheet::from(Vec::new())
+                    ::stylist::ast::Sheet::from(::std::vec::Vec::new())
                 }
             })
         }
diff --git a/packages/stylist-macros/src/output/sheet.rs b/packages/stylist-macros/src/output/sheet.rs
index 76f32a7..1eb93e0 100644
--- a/packages/stylist-macros/src/output/sheet.rs
+++ b/packages/stylist-macros/src/output/sheet.rs
@@ -15,11 +15,7 @@ impl Reify for OutputSheet {
 
         ctx.uses_static(); // Sheet::from
         let quoted_sheet = quote! {
-            {
-                use ::std::convert::{From, Into};
-                use ::stylist::ast::Sheet;
-                Sheet::from(#contents)
-            }
+            <::stylist::ast::Sheet as ::std::convert::From<_>>::from(#contents)
         };
 
         if ctx.is_static() {
-- 
2.43.0


From 947a7e7294f0b18860eeab66a8ccd8078b069b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 6/9] fix: compile yew_use_style without macros

---
 packages/stylist/src/yew/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/stylist/src/yew/mod.rs b/packages/stylist/src/yew/mod.rs
index 896502c..dbf3c48 100644
--- a/packages/stylist/src/yew/mod.rs
+++ b/packages/stylist/src/yew/mod.rs
@@ -92,7 +92,7 @@ pub use stylist_macros::styled_component_impl;
 ///     html! {<div class={style}>{"Hello world!"}</div>}
 /// }
 /// ```
-#[cfg(feature = "yew_use_style")]
+#[cfg(all(feature = "yew_use_style", feature = "macros"))]
 pub use stylist_macros::use_style;
 
 use crate::ast::Sheet;
-- 
2.43.0


From de507d66ed137d37867a24c72e27a2c8c096b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 7/9] fix: accept blank bodies of nested conditional rules and
 keyframes

A conditional rule inside a block, a keyframe block and a keyframes rule rejected a
body of only white space or comments, although the same at-rule accepts it at
the top level.
---
 packages/stylist-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index d51dceb..3a36141 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -355,7 +355,7 @@ impl Parser {
                     cond,
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Self::rule_block_contents, tag("}")),
+                    terminated(Self::trimmed(Self::rule_block_contents), tag("}")),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<RuleBlockContent>)| Rule {
@@ -437,7 +437,7 @@ impl Parser {
                     tag("{"),
                     // Collect contents with-in rules.
                     terminated(
-                        many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes)),
+                        Self::trimmed(many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes))),
                         tag("}"),
                     ),
                 ),
-- 
2.43.0


From 379e46a6fa740230a61c92b5dfd6a8f834adeaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 8/9] fix: separate keywords from parentheses in conditions of
 inline at-rules

`@media screen and (max-width: 500px)` was written as `and(max-width:500px)`, which
css reads as a function: the condition is invalid and its rules never apply.
---
 .../src/inline/component_value/mod.rs         | 33 +++++++++++++++++++
 .../stylist-macros/src/inline/parse/rule.rs   |  2 +-
 packages/stylist/src/macros.rs                |  2 ++
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-macros/src/inline/component_value/mod.rs b/packages/stylist-macros/src/inline/component_value/mod.rs
index 0ba172b..ac9e74f 100644
--- a/packages/stylist-macros/src/inline/component_value/mod.rs
+++ b/packages/stylist-macros/src/inline/component_value/mod.rs
@@ -113,6 +113,39 @@ impl ComponentValue {
         }
     }
 
+    // The fragments of a component value in the condition of an @-rule.
+    //
+    // `and`, `or` and `not` are never functions there: `and (` has to stay two css tokens, whereas
+    // `and(` makes the whole condition invalid.
+    pub fn to_condition_fragments(&self) -> Vec<OutputFragment> {
+        let (keyword, contents) = match self {
+            Self::Function(FunctionToken { name, args, .. })
+                if ["and", "or", "not"]
+                    .iter()
+                    .any(|m| name.to_output_string().eq_ignore_ascii_case(m)) =>
+            {
+                (Some(name), args)
+            }
+            Self::Block(SimpleBlock {
+                kind: BlockKind::Paren(_),
+                contents,
+            }) => (None, contents),
+            _ => return self.to_output_fragments(),
+        };
+
+        let mut output = vec![];
+        if let Some(m) = keyword {
+            output.push(m.clone().into());
+            output.push(' '.into());
+        }
+        output.push('('.into());
+        for c in contents {
+            output.extend(c.to_condition_fragments());
+        }
+        output.push(')'.into());
+        output
+    }
+
     // Overly simplified parsing of a css attribute
     #[must_use = "validation errors should not be discarded"]
     pub fn validate_attribute_token(&self) -> Vec<ParseError> {
diff --git a/packages/stylist-macros/src/inline/parse/rule.rs b/packages/stylist-macros/src/inline/parse/rule.rs
index 35ed37a..54e1a0a 100644
--- a/packages/stylist-macros/src/inline/parse/rule.rs
+++ b/packages/stylist-macros/src/inline/parse/rule.rs
@@ -76,7 +76,7 @@ impl CssAtRule {
             self.prelude
                 .clone()
                 .into_iter()
-                .flat_map(|p| p.to_output_fragments())
+                .flat_map(|p| p.to_condition_fragments())
                 .spaced_with(fragment_spacing),
         );
 
diff --git a/packages/stylist/src/macros.rs b/packages/stylist/src/macros.rs
index e625768..dac096a 100644
--- a/packages/stylist/src/macros.rs
+++ b/packages/stylist/src/macros.rs
@@ -102,6 +102,8 @@
 //!   number `3px`, or the '*' character.
 //! - `R` is either an identifier, a literal string or number, the '*' or '#' character.
 //!
+//! A space is also inserted between `and`, `or` or `not` and `(` in the condition of an at-rule.
+//!
 //! Spacing around interpolation is ignored regardless.
 //!
 //! Be aware that the above is subject to change once the Span API is stabilized. To avoid future
-- 
2.43.0


From ad0d85c1aeb5dd5c674b6f9031339667e2dd2463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:48 +0000
Subject: [PATCH 9/9] fix: reject text that breaks out of the block it is
 written in

A selector such as `a } body` or `colr red; body`, and a condition such as
`@media print }`, was accepted and rendered as is: inside an at-rule the
browser ends the block or the declaration there and applies the rest without
the class of the style. So was an unclosed comment (`a /* b`, `red //* x`),
which swallows the rest of the style. Closed comments and strings may still
contain any of them.
---
 packages/stylist-core/src/parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 3a36141..1f837e3 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -167,7 +167,7 @@ impl Parser {
                     is_not("${;}/\""),
                     recognize(Self::interpolation),
                     Self::string,
-                    recognize(preceded(tag("/"), none_of("${;}\"*"))),
+                    terminated(tag("/"), not(char('*'))),
                 )))),
                 |m: &str| StringFragment {
                     inner: m.to_string().trim().to_string().into(),
@@ -253,7 +253,9 @@ impl Parser {
             "Selector",
             Self::trimmed(expect_non_empty(map(
                 recognize(many1(alt((
-                    recognize(preceded(none_of("$,}@{\""), opt(is_not("$,\"{")))),
+                    recognize(Self::cmt),
+                    terminated(tag("/"), not(char('*'))),
+                    recognize(preceded(none_of("$,;}/@{\""), opt(is_not("$,;}/\"{")))),
                     Self::string,
                     recognize(Self::interpolation),
                 )))),
@@ -409,7 +411,13 @@ impl Parser {
                 pair(
                     tags,
                     map(
-                        recognize(many1(alt((is_not("${"), recognize(Self::interpolation))))),
+                        recognize(many1(alt((
+                            is_not("${}/\""),
+                            recognize(Self::interpolation),
+                            Self::string,
+                            recognize(Self::cmt),
+                            terminated(tag("/"), not(char('*'))),
+                        )))),
                         |m: &str| StringFragment {
                             inner: m.trim().to_string().into(),
                         },
-- 
2.43.0

