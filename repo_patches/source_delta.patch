From 4928a34a2c3d9acff126ee02a05d3462ac9a0179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 01/30] fix: keep a declaration that is followed by a
 tag:pseudo-class block

A dangling declaration list was only recognised when the text after its last
semicolon did not look like another declaration, so in

    color: red; a:hover { color: blue; }

`a:hover` made the whole list fail and `color: red; a:hover` was taken as the
selector of the block. Every dangling declaration now has to end with its own
semicolon, and anything after the last one is left to the next block.
---
 packages/stylist-core/src/parser.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index d51dceb..ac9bc4b 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -200,19 +200,23 @@ impl Parser {
         i: &str,
         dangling: bool,
     ) -> IResult<&str, Vec<StyleAttribute>, VerboseError<&str>> {
-        let final_semicolon = |i| {
-            if dangling {
-                map(tag(";"), Some)(i)
-            } else {
-                opt(tag(";"))(i)
-            }
-        };
+        // A dangling attribute always ends with a semicolon. Without one, it's the beginning of the
+        // selector of the next block (e.g.: `a:hover { ... }`).
+        if dangling {
+            return traced_context(
+                "StyleAttributes",
+                Self::trimmed(expect_non_empty(many1(terminated(
+                    Self::attribute,
+                    preceded(opt(Self::sp), tag(";")),
+                )))),
+            )(i);
+        }
 
         traced_context(
             "StyleAttributes",
             Self::trimmed(expect_non_empty(terminated(
                 separated_list1(tag(";"), Self::attribute),
-                preceded(opt(Self::sp), final_semicolon),
+                preceded(opt(Self::sp), opt(tag(";"))),
             ))),
         )(i)
     }
-- 
2.43.0


From d11461f5bd13ed5fab1e28c45d285a85d03919b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 02/30] fix: load global styles from style data unscoped

---
 packages/stylist/src/manager/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index c85ef2e..75883c7 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -386,7 +386,8 @@ mod feat_hydration {
                         m.insert(
                             StyleContent {
                                 id: id.clone(),
-                                style_str: key.ast.to_style_str(Some(id)),
+                                // Global styles are not scoped to a class.
+                                style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                                 manager: self.downgrade(),
                                 key: key.clone(),
                             }
-- 
2.43.0


From fb7adbaa3d9a6421a0468b81c04a886316ac2a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 03/30] fix: unregistering a style leaves a newer one of the
 same sheet alone

---
 packages/stylist/src/manager/content.rs  |  2 +-
 packages/stylist/src/manager/mod.rs      |  4 ++--
 packages/stylist/src/manager/registry.rs | 10 ++++++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 9c28968..07ea68d 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -35,7 +35,7 @@ impl StyleContent {
 
     pub fn unregister(&self) {
         if let Some(mgr) = self.manager() {
-            mgr.unregister_style(self.key());
+            mgr.unregister_style(self);
         }
     }
 }
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 75883c7..77334c1 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -207,8 +207,8 @@ impl StyleManager {
         Ok(content)
     }
 
-    pub(crate) fn unregister_style(&self, key: &Rc<StyleKey>) {
-        self.inner.registry.borrow_mut().unregister(key);
+    pub(crate) fn unregister_style(&self, content: &StyleContent) {
+        self.inner.registry.borrow_mut().unregister(content);
     }
 
     /// Return a reference of style key.
diff --git a/packages/stylist/src/manager/registry.rs b/packages/stylist/src/manager/registry.rs
index 31ac89d..94b185e 100644
--- a/packages/stylist/src/manager/registry.rs
+++ b/packages/stylist/src/manager/registry.rs
@@ -16,8 +16,14 @@ impl StyleRegistry {
         }
     }
 
-    pub fn unregister(&mut self, key: &StyleKey) {
-        self.styles.remove(key);
+    pub fn unregister(&mut self, content: &StyleContent) {
+        // A newer style may have been registered under the same key, that one stays.
+        if self
+            .get(content.key())
+            .is_some_and(|m| std::ptr::eq(&*m, content))
+        {
+            self.styles.remove(content.key());
+        }
     }
 
     pub fn get(&self, key: &StyleKey) -> Option<Rc<StyleContent>> {
-- 
2.43.0


From 82674f7808fde726978644ceacaaa129075ce985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 04/30] fix: keep unregistered styles in static mode so that
 they are captured once

---
 packages/stylist/src/manager/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 77334c1..c3eddd1 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -208,6 +208,13 @@ impl StyleManager {
     }
 
     pub(crate) fn unregister_style(&self, content: &StyleContent) {
+        // What has been rendered statically cannot be taken back, creating the same style again has
+        // to result in the class that is already part of the output.
+        #[cfg(feature = "ssr")]
+        if self.inner.style_data.is_some() {
+            return;
+        }
+
         self.inner.registry.borrow_mut().unregister(content);
     }
 
-- 
2.43.0


From 31dac8dce212eb7fb4b0525c0fbbcca0b8859bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 05/30] fix: refuse conflicting style data before loading any
 of it

---
 packages/stylist/src/manager/mod.rs | 47 +++++++++++++++++------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index c3eddd1..1e6eb0b 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -362,6 +362,7 @@ mod feat_hydration {
 
     use crate::ast::ToStyleStr;
     use std::collections::hash_map::Entry;
+    use std::collections::HashMap;
 
     impl StyleManager {
         /// Loads StyleData of current style manager.
@@ -378,29 +379,35 @@ mod feat_hydration {
         pub fn load_style_data(&self, data: &StyleData) {
             let mut reg = self.inner.registry.borrow_mut();
 
+            // Conflicting data is refused before anything is loaded.
+            let mut ids: HashMap<&StyleKey, &StyleId> = HashMap::new();
+            for StyleDataContent { id, key, .. } in data.0.iter() {
+                let registered = reg.get(key);
+                let known = registered.as_ref().map(|m| m.id());
+
+                if let Some(m) = known.or_else(|| ids.insert(key, id)) {
+                    assert_eq!(
+                        m,
+                        id,
+                        "An existing style has been rendered with a different class, this is not supported, please load style data first!"
+                    );
+                }
+            }
+
             for StyleDataContent { id, key, .. } in data.0.iter() {
                 let key = Rc::new(key.clone());
 
-                match reg.styles.entry(key.clone()) {
-                    Entry::Occupied(m) => {
-                        assert_eq!(
-                            m.get().id(),
-                            id,
-                            "An existing style has been rendered with a different class, this is not supported, please load style data first!"
-                        );
-                    }
-                    Entry::Vacant(m) => {
-                        m.insert(
-                            StyleContent {
-                                id: id.clone(),
-                                // Global styles are not scoped to a class.
-                                style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
-                                manager: self.downgrade(),
-                                key: key.clone(),
-                            }
-                            .into(),
-                        );
-                    }
+                if let Entry::Vacant(m) = reg.styles.entry(key.clone()) {
+                    m.insert(
+                        StyleContent {
+                            id: id.clone(),
+                            // Global styles are not scoped to a class.
+                            style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
+                            manager: self.downgrade(),
+                            key: key.clone(),
+                        }
+                        .into(),
+                    );
                 }
             }
         }
-- 
2.43.0


From 5ac856bbdd01e96bac05451375c9feed21b4aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 06/30] fix: never give a style an id that another style of the
 manager has

---
 packages/stylist/src/manager/content.rs |  3 +++
 packages/stylist/src/manager/mod.rs     | 23 ++++++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 07ea68d..aac0943 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -44,5 +44,8 @@ impl Drop for StyleContent {
     /// Unmounts the style from the HTML head web-sys style
     fn drop(&mut self) {
         let _result = self.unmount();
+        if let Some(mgr) = self.manager() {
+            mgr.release_id(self.id());
+        }
     }
 }
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 1e6eb0b..b8902b2 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -8,6 +8,7 @@
 
 use std::borrow::Cow;
 use std::cell::RefCell;
+use std::collections::HashSet;
 use std::rc::{Rc, Weak};
 
 use once_cell::unsync::Lazy;
@@ -33,6 +34,8 @@ pub use ssr::*;
 #[derive(Debug)]
 pub struct StyleManagerBuilder {
     registry: RefCell<StyleRegistry>,
+    // The ids of all styles that are registered or still referenced.
+    ids: RefCell<HashSet<StyleId>>,
 
     prefix: Cow<'static, str>,
     container: Option<Node>,
@@ -47,6 +50,7 @@ impl Default for StyleManagerBuilder {
     fn default() -> Self {
         Self {
             registry: RefCell::default(),
+            ids: RefCell::default(),
             prefix: "stylist".into(),
             container: None,
             append: true,
@@ -160,9 +164,16 @@ impl StyleManager {
             return Ok(m);
         }
 
-        let id = match key.is_global {
-            true => StyleId::new_global(&key.prefix),
-            false => StyleId::new_scoped(&key.prefix),
+        // An id may already be used by a style that has been loaded from style data.
+        let id = loop {
+            let id = match key.is_global {
+                true => StyleId::new_global(&key.prefix),
+                false => StyleId::new_scoped(&key.prefix),
+            };
+
+            if !self.inner.ids.borrow().contains(&id) {
+                break id;
+            }
         };
 
         // Non-global styles have ids prefixed in classes.
@@ -175,6 +186,7 @@ impl StyleManager {
             .parse::<crate::ast::Sheet>()
             .expect_display("debug: Stylist failed to parse the style with interpolated values");
 
+        self.inner.ids.borrow_mut().insert(id.clone());
         let content: Rc<_> = StyleContent {
             id,
             style_str,
@@ -218,6 +230,10 @@ impl StyleManager {
         self.inner.registry.borrow_mut().unregister(content);
     }
 
+    pub(crate) fn release_id(&self, id: &StyleId) {
+        self.inner.ids.borrow_mut().remove(id);
+    }
+
     /// Return a reference of style key.
     #[cfg(test)]
     fn get_registry(&self) -> &RefCell<StyleRegistry> {
@@ -398,6 +414,7 @@ mod feat_hydration {
                 let key = Rc::new(key.clone());
 
                 if let Entry::Vacant(m) = reg.styles.entry(key.clone()) {
+                    self.inner.ids.borrow_mut().insert(id.clone());
                     m.insert(
                         StyleContent {
                             id: id.clone(),
-- 
2.43.0


From fecde35531fa6e933d5d5a1f0dd529a3d9211aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 07/30] fix: do not keep every rendered style in the sheet
 cache in debug mode

---
 packages/stylist-core/src/ast/sheet.rs | 10 ++++++++++
 packages/stylist/src/manager/mod.rs    |  3 +--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/ast/sheet.rs b/packages/stylist-core/src/ast/sheet.rs
index 9b93afc..a2d10db 100644
--- a/packages/stylist-core/src/ast/sheet.rs
+++ b/packages/stylist-core/src/ast/sheet.rs
@@ -90,6 +90,16 @@ mod feat_parser {
 
     static CACHED_SHEETS: Lazy<Arc<Mutex<HashMap<String, Sheet>>>> = Lazy::new(Arc::default);
 
+    impl Sheet {
+        /// Parses a stylesheet that is not going to be seen again, bypassing the cache.
+        #[doc(hidden)]
+        pub fn parse_uncached(s: &str) -> crate::Result<Self> {
+            use crate::parser::Parser;
+
+            Parser::parse(s)
+        }
+    }
+
     impl FromStr for Sheet {
         type Err = crate::Error;
 
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index b8902b2..097f50e 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -182,8 +182,7 @@ impl StyleManager {
         // We parse the style str again in debug mode to ensure that interpolated values are
         // not corrupting the stylesheet.
         #[cfg(all(debug_assertions, feature = "debug_parser"))]
-        style_str
-            .parse::<crate::ast::Sheet>()
+        crate::ast::Sheet::parse_uncached(&style_str)
             .expect_display("debug: Stylist failed to parse the style with interpolated values");
 
         self.inner.ids.borrow_mut().insert(id.clone());
-- 
2.43.0


From d692e1bfdcf243cd58db7c4267975dbffe20590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 08/30] fix: evaluate an argument of the literal macros once,
 however often it is used

---
 packages/stylist-macros/src/literal/mod.rs | 36 ++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-macros/src/literal/mod.rs b/packages/stylist-macros/src/literal/mod.rs
index 53dbef7..7acaa6c 100644
--- a/packages/stylist-macros/src/literal/mod.rs
+++ b/packages/stylist-macros/src/literal/mod.rs
@@ -1,4 +1,5 @@
-use proc_macro2::{TokenStream, TokenTree};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
+use quote::quote;
 
 use std::collections::{HashMap, HashSet};
 
@@ -37,6 +38,7 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
     };
 
     let mut args = HashMap::new();
+    let mut arg_names = Vec::new();
 
     let is_comma = |t: &TokenTree| -> bool {
         match t {
@@ -77,6 +79,7 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
         };
 
         let name = name_ident.to_string();
+        arg_names.push(name.clone());
 
         let mut arg = Argument {
             name,
@@ -115,6 +118,25 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
         }
     }
 
+    // Evaluate every argument once and in the order given, however often it is used.
+    let mut arg_bindings = Vec::with_capacity(args.len());
+    let mut arg_values = Vec::with_capacity(args.len());
+
+    for name in arg_names.iter() {
+        let arg = match args.get_mut(name) {
+            Some(m) => m,
+            None => continue,
+        };
+
+        let binding = Ident::new(
+            &format!("arg_{}", arg.name.trim_start_matches("r#")),
+            Span::mixed_site(),
+        );
+
+        arg_values.push(std::mem::replace(&mut arg.tokens, quote! { #binding }));
+        arg_bindings.push(binding);
+    }
+
     let mut args_used = HashSet::with_capacity(args.len());
 
     let output = sheet.to_output_with_args(&args, &mut args_used);
@@ -130,5 +152,15 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
     }
 
     let mut ctx = ReifyContext::new();
-    output.into_token_stream(&mut ctx)
+    let sheet_tokens = output.into_token_stream(&mut ctx);
+
+    if arg_bindings.is_empty() {
+        return sheet_tokens;
+    }
+
+    quote! {
+        match (#( &(#arg_values), )*) {
+            (#( #arg_bindings, )*) => #sheet_tokens
+        }
+    }
 }
-- 
2.43.0


From 183248c7120ea19e439d5a1e50cd6c8812da2b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 09/30] fix: keep the space after and, or and not in conditions
 of inline at-rules

---
 .../stylist-macros/src/inline/parse/rule.rs   | 27 +++++++++++++++++--
 packages/stylist/src/macros.rs                |  3 +++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-macros/src/inline/parse/rule.rs b/packages/stylist-macros/src/inline/parse/rule.rs
index 35ed37a..3473fec 100644
--- a/packages/stylist-macros/src/inline/parse/rule.rs
+++ b/packages/stylist-macros/src/inline/parse/rule.rs
@@ -1,7 +1,8 @@
+use proc_macro2::Delimiter as DelimiterKind;
 use syn::parse::{Error as ParseError, Parse, ParseBuffer, Result as ParseResult};
 use syn::token;
 
-use super::super::component_value::{ComponentValue, ComponentValueStream};
+use super::super::component_value::{ComponentValue, ComponentValueStream, PreservedToken};
 use super::super::css_ident::CssIdent;
 use super::{fragment_spacing, CssScope, IntoOutputContext};
 use crate::output::{OutputFragment, OutputRule};
@@ -66,6 +67,28 @@ impl Parse for CssAtRule {
     }
 }
 
+/// In addition to the usual spacing, separates the keywords of a condition from the parenthesis
+/// that follows: `and(` would start a function instead.
+fn prelude_spacing() -> impl FnMut(&OutputFragment, &OutputFragment) -> Option<OutputFragment> {
+    use OutputFragment::*;
+
+    // `:not(` in `selector(...)` is a pseudo-class.
+    let mut after_colon = false;
+
+    move |l, r| {
+        let keyword = !after_colon
+            && matches!(l, Token(PreservedToken::Ident(ref m))
+                if matches!(m.to_output_string().to_lowercase().as_str(), "and" | "or" | "not"));
+        after_colon = matches!(l, Token(PreservedToken::Punct(ref p)) if p.as_char() == ':');
+
+        if keyword && matches!(r, Delimiter(DelimiterKind::Parenthesis, true)) {
+            return Some(' '.into());
+        }
+
+        fragment_spacing(l, r)
+    }
+}
+
 impl CssAtRule {
     pub fn condition_output(&self) -> Vec<OutputFragment> {
         let mut prelude = vec![OutputFragment::Str(format!(
@@ -77,7 +100,7 @@ impl CssAtRule {
                 .clone()
                 .into_iter()
                 .flat_map(|p| p.to_output_fragments())
-                .spaced_with(fragment_spacing),
+                .spaced_with(prelude_spacing()),
         );
 
         prelude
diff --git a/packages/stylist/src/macros.rs b/packages/stylist/src/macros.rs
index e625768..c76bedc 100644
--- a/packages/stylist/src/macros.rs
+++ b/packages/stylist/src/macros.rs
@@ -102,6 +102,9 @@
 //!   number `3px`, or the '*' character.
 //! - `R` is either an identifier, a literal string or number, the '*' or '#' character.
 //!
+//! In the condition of an at-rule, a space is also inserted between `and`, `or` or `not` and an
+//! opening parenthesis.
+//!
 //! Spacing around interpolation is ignored regardless.
 //!
 //! Be aware that the above is subject to change once the Span API is stabilized. To avoid future
-- 
2.43.0


From ba30405dcfdeffb308d946ab01ba308e38e2c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 10/30] fix: prepend styles to a container that is not empty

insert_before was called on the first child instead of its parent, which always fails.
---
 packages/stylist/src/manager/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 097f50e..13d3ecf 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -253,14 +253,12 @@ impl StyleManager {
             style_element.set_attribute("data-style", content.id())?;
             style_element.set_text_content(Some(content.get_style_str()));
 
-            // Prepend element
-            if !self.inner.append {
-                if let Some(m) = container.first_child() {
-                    return m.insert_before(&style_element, Some(&m)).map(|_m| ());
-                }
+            if self.inner.append {
+                container.append_child(&style_element)?;
+            } else {
+                container.insert_before(&style_element, container.first_child().as_ref())?;
             }
 
-            container.append_child(&style_element)?;
             Ok(())
         })()
         .map_err(|e| Error::Web(Some(e)))
-- 
2.43.0


From 3e8548f482d6fb28550ac43813aa536741795c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 11/30] fix: unmount styles from wherever they have been
 mounted

Styles in shadow roots, detached nodes and other documents could not be found from the document,
nor could styles whose id is not an identifier. A copy of the element may have been found instead.
---
 packages/stylist/src/manager/content.rs |  8 +++++++-
 packages/stylist/src/manager/mod.rs     | 23 ++++++++++++++++-------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index aac0943..5b83a1e 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -1,5 +1,8 @@
 use std::rc::Rc;
 
+use once_cell::unsync::OnceCell;
+use web_sys::Element;
+
 use crate::manager::{StyleId, StyleKey, StyleManager, WeakStyleManager};
 use crate::Result;
 
@@ -10,6 +13,9 @@ pub(crate) struct StyleContent {
     pub style_str: String,
 
     pub manager: WeakStyleManager,
+
+    /// The element this style has been mounted as.
+    pub element: OnceCell<Element>,
 }
 
 impl StyleContent {
@@ -22,7 +28,7 @@ impl StyleContent {
     }
 
     pub fn unmount(&self) -> Result<()> {
-        StyleManager::unmount(self.id())
+        StyleManager::unmount(self)
     }
 
     pub fn key(&self) -> &Rc<StyleKey> {
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 13d3ecf..9b284be 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -11,7 +11,7 @@ use std::cell::RefCell;
 use std::collections::HashSet;
 use std::rc::{Rc, Weak};
 
-use once_cell::unsync::Lazy;
+use once_cell::unsync::{Lazy, OnceCell};
 use stylist_core::ast::ToStyleStr;
 use stylist_core::ResultDisplay;
 use web_sys::Node;
@@ -191,6 +191,7 @@ impl StyleManager {
             style_str,
             manager: weak_mgr,
             key: Rc::new(key),
+            element: OnceCell::new(),
         }
         .into();
 
@@ -259,6 +260,7 @@ impl StyleManager {
                 container.insert_before(&style_element, container.first_child().as_ref())?;
             }
 
+            let _result = content.element.set(style_element);
             Ok(())
         })()
         .map_err(|e| Error::Web(Some(e)))
@@ -266,16 +268,22 @@ impl StyleManager {
 
     /// Unmount the [`Style`](crate::Style) from the DOM tree.
     #[cfg(target_arch = "wasm32")]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
         use crate::arch::document;
         use crate::Error;
 
+        // The element may not be reachable from the document, e.g.: if it is in a shadow root.
+        if let Some(m) = content.element.get() {
+            m.remove();
+            return Ok(());
+        }
+
+        // Styles loaded from style data are mounted with the static markup.
         let document = document()?;
         (|| {
-            if let Some(m) = document.query_selector(&format!("style[data-style={}]", id))? {
-                if let Some(parent) = m.parent_element() {
-                    parent.remove_child(&m)?;
-                }
+            let id = content.id().replace('\\', r"\\").replace('"', r#"\""#);
+            if let Some(m) = document.query_selector(&format!(r#"style[data-style="{}"]"#, id))? {
+                m.remove();
             }
 
             Ok(())
@@ -294,7 +302,7 @@ impl StyleManager {
     /// Unmount the [`Style`] from the DOM tree.
     #[cfg(not(target_arch = "wasm32"))]
     #[allow(unused_variables)]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
         // Does nothing on non-wasm targets.
         Ok(())
     }
@@ -419,6 +427,7 @@ mod feat_hydration {
                             style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                             manager: self.downgrade(),
                             key: key.clone(),
+                            element: OnceCell::new(),
                         }
                         .into(),
                     );
-- 
2.43.0


From 2c36f9c80c430c028297071865437e109817054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 12/30] fix: report a missing document from Style::new instead
 of panicking

The default manager was also never built again after a failure.
---
 packages/stylist/src/global_style.rs |  2 +-
 packages/stylist/src/manager/mod.rs  | 17 +++++++++++------
 packages/stylist/src/style.rs        |  4 ++--
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/packages/stylist/src/global_style.rs b/packages/stylist/src/global_style.rs
index 56f579e..a0c79bc 100644
--- a/packages/stylist/src/global_style.rs
+++ b/packages/stylist/src/global_style.rs
@@ -48,7 +48,7 @@ impl GlobalStyle {
         Css: TryInto<StyleSource>,
         crate::Error: From<Css::Error>,
     {
-        Self::new_with_manager(css, StyleManager::default())
+        Self::new_with_manager(css, StyleManager::try_default()?)
     }
 
     /// Creates a new style using a custom manager.
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 9b284be..bbdce16 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -11,7 +11,7 @@ use std::cell::RefCell;
 use std::collections::HashSet;
 use std::rc::{Rc, Weak};
 
-use once_cell::unsync::{Lazy, OnceCell};
+use once_cell::unsync::OnceCell;
 use stylist_core::ast::ToStyleStr;
 use stylist_core::ResultDisplay;
 use web_sys::Node;
@@ -139,6 +139,15 @@ impl StyleManager {
         StyleManagerBuilder::new()
     }
 
+    /// The default manager of current thread.
+    pub(crate) fn try_default() -> Result<StyleManager> {
+        thread_local! {
+            static MGR: OnceCell<StyleManager> = const { OnceCell::new() };
+        }
+
+        MGR.with(|m| m.get_or_try_init(Self::new).cloned())
+    }
+
     pub(crate) fn downgrade(&self) -> WeakStyleManager {
         WeakStyleManager {
             inner: Rc::downgrade(&self.inner),
@@ -316,11 +325,7 @@ impl From<&Self> for StyleManager {
 
 impl Default for StyleManager {
     fn default() -> Self {
-        thread_local! {
-            static MGR: Lazy<StyleManager> = Lazy::new(|| StyleManager::builder().build().expect_display("Failed to create default manager."));
-        }
-
-        MGR.with(|m| (*m).clone())
+        Self::try_default().expect_display("Failed to create default manager.")
     }
 }
 
diff --git a/packages/stylist/src/style.rs b/packages/stylist/src/style.rs
index d826bbc..c89020a 100644
--- a/packages/stylist/src/style.rs
+++ b/packages/stylist/src/style.rs
@@ -115,7 +115,7 @@ impl Style {
         Css: TryInto<StyleSource>,
         crate::Error: From<Css::Error>,
     {
-        Self::create(StyleManager::default().prefix(), css)
+        Self::create(StyleManager::try_default()?.prefix(), css)
     }
 
     /// Creates a new style with a custom class prefix from some parsable css.
@@ -134,7 +134,7 @@ impl Style {
         Css: TryInto<StyleSource>,
         crate::Error: From<Css::Error>,
     {
-        Self::create_with_manager(class_prefix, css, StyleManager::default())
+        Self::create_with_manager(class_prefix, css, StyleManager::try_default()?)
     }
 
     /// Creates a new style from some parsable css with a default prefix using a custom
-- 
2.43.0


From 92767566cbeee9428d19fe1781f914f048afe689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 13/30] fix: refresh the media query state when the query
 changes

---
 packages/stylist/src/yew/hooks/use_media_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/stylist/src/yew/hooks/use_media_query.rs b/packages/stylist/src/yew/hooks/use_media_query.rs
index f66a5ee..e1c8a94 100644
--- a/packages/stylist/src/yew/hooks/use_media_query.rs
+++ b/packages/stylist/src/yew/hooks/use_media_query.rs
@@ -38,6 +38,9 @@ pub fn use_media_query(query: &str) -> bool {
         let match_media = match_media();
         let match_media_clone = match_media.clone();
 
+        // The query (or whether it matches) may have changed since the state was last set.
+        state_clone.set(match_media.matches());
+
         let listener = EventListener::new(&match_media, "change", move |_event| {
             state_clone.set(match_media_clone.matches());
         });
-- 
2.43.0


From 5c884455e00d25c4a8158d3dfda2df50ce394a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 14/30] fix: do not load the style data of a page into a
 manager that replaces the hydrated one

---
 packages/stylist/src/yew/provider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/yew/provider.rs b/packages/stylist/src/yew/provider.rs
index b483324..c7c20af 100644
--- a/packages/stylist/src/yew/provider.rs
+++ b/packages/stylist/src/yew/provider.rs
@@ -55,8 +55,11 @@ pub fn manager_provider(props: &ManagerProviderProps) -> HtmlResult {
         #[cfg(feature = "hydration")]
         {
             // We must load the styles immediately before child components are rendered.
+            //
+            // The elements delivered with the page belong to the manager that has hydrated it and
+            // are removed with it, a manager that replaces it needs to mount its own.
             let manager = manager.clone();
-            use_memo(manager, move |manager| {
+            use_memo((), move |_| {
                 if let Some(m) = _style_data {
                     manager.load_style_data(m.as_ref());
                 }
-- 
2.43.0


From 237854e84b1320375ddc7f200c94b019f34f44c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 15/30] fix: hydrate a manager that is provided in more than
 one place

---
 packages/stylist/src/manager/mod.rs  | 28 ++++++++++++++++++++++++++++
 packages/stylist/src/yew/provider.rs |  2 +-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index bbdce16..0c30d9d 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -36,6 +36,9 @@ pub struct StyleManagerBuilder {
     registry: RefCell<StyleRegistry>,
     // The ids of all styles that are registered or still referenced.
     ids: RefCell<HashSet<StyleId>>,
+    // The ids of all styles that have been delivered to a provider.
+    #[cfg(all(feature = "hydration", feature = "yew"))]
+    provided_ids: RefCell<HashSet<StyleId>>,
 
     prefix: Cow<'static, str>,
     container: Option<Node>,
@@ -51,6 +54,8 @@ impl Default for StyleManagerBuilder {
         Self {
             registry: RefCell::default(),
             ids: RefCell::default(),
+            #[cfg(all(feature = "hydration", feature = "yew"))]
+            provided_ids: RefCell::default(),
             prefix: "stylist".into(),
             container: None,
             append: true,
@@ -389,6 +394,8 @@ mod feat_hydration {
     use crate::ast::ToStyleStr;
     use std::collections::hash_map::Entry;
     use std::collections::HashMap;
+    #[cfg(feature = "yew")]
+    use std::sync::Arc;
 
     impl StyleManager {
         /// Loads StyleData of current style manager.
@@ -439,5 +446,26 @@ mod feat_hydration {
                 }
             }
         }
+
+        /// Loads StyleData that has been delivered to a provider of current style manager.
+        ///
+        /// A manager may be provided in many places, which are hydrated one after another. In
+        /// between, a style can be created or, together with its element, be removed. Such styles
+        /// are not loaded (again).
+        #[cfg(feature = "yew")]
+        pub(crate) fn load_provided_style_data(&self, data: &StyleData) {
+            let missing = {
+                let reg = self.inner.registry.borrow();
+                let mut provided_ids = self.inner.provided_ids.borrow_mut();
+
+                data.0
+                    .iter()
+                    .filter(|m| provided_ids.insert(m.id.clone()) && reg.get(&m.key).is_none())
+                    .cloned()
+                    .collect()
+            };
+
+            self.load_style_data(&StyleData(Arc::new(missing)));
+        }
     }
 }
diff --git a/packages/stylist/src/yew/provider.rs b/packages/stylist/src/yew/provider.rs
index c7c20af..bcae10f 100644
--- a/packages/stylist/src/yew/provider.rs
+++ b/packages/stylist/src/yew/provider.rs
@@ -61,7 +61,7 @@ pub fn manager_provider(props: &ManagerProviderProps) -> HtmlResult {
             let manager = manager.clone();
             use_memo((), move |_| {
                 if let Some(m) = _style_data {
-                    manager.load_style_data(m.as_ref());
+                    manager.load_provided_style_data(m.as_ref());
                 }
             });
         }
-- 
2.43.0


From d803ea475e52622aa90e2667a90a8e59cee7c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 16/30] fix: keep native release builds free of lints about the
 mounted element

---
 packages/stylist/src/manager/content.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 5b83a1e..19c0876 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -15,6 +15,7 @@ pub(crate) struct StyleContent {
     pub manager: WeakStyleManager,
 
     /// The element this style has been mounted as.
+    #[cfg_attr(not(target_arch = "wasm32"), allow(dead_code))]
     pub element: OnceCell<Element>,
 }
 
-- 
2.43.0


From 0b392df77bba49e110ad87019d007b6bf1adcfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 17/30] fix: parse single-quoted strings

---
 packages/stylist-core/src/parser.rs | 32 +++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index ac9bc4b..50758e5 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -164,10 +164,10 @@ impl Parser {
             "StyleAttrValue",
             Self::trimmed(map(
                 recognize(many1(alt((
-                    is_not("${;}/\""),
+                    is_not("${;}/\"'"),
                     recognize(Self::interpolation),
                     Self::string,
-                    recognize(preceded(tag("/"), none_of("${;}\"*"))),
+                    recognize(preceded(tag("/"), none_of("${;}\"'*"))),
                 )))),
                 |m: &str| StringFragment {
                     inner: m.to_string().trim().to_string().into(),
@@ -221,17 +221,31 @@ impl Parser {
         )(i)
     }
 
+    /// Parse an escaped character.
+    fn escaped_char(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        traced_context("EscapedChar", recognize(preceded(tag("\\"), anychar)))(i)
+    }
+
     /// Parse a quoted string.
-    // TODO: Parse ' quoted strings.
     fn string(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
-        let escaped_char = traced_context("EscapedChar", recognize(preceded(tag("\\"), anychar)));
-
-        let parse_str = recognize(preceded(
+        let double_quoted = delimited(
             tag("\""),
-            terminated(many0(alt((is_not(r#"\""#), escaped_char))), tag("\"")),
-        ));
+            recognize(many0(alt((is_not("\\\""), Self::escaped_char)))),
+            tag("\""),
+        );
+        let single_quoted = delimited(
+            tag("'"),
+            recognize(many0(alt((is_not("\\'"), Self::escaped_char)))),
+            tag("'"),
+        );
 
-        traced_context("String", Self::trimmed(expect_non_empty(parse_str)))(i)
+        traced_context(
+            "String",
+            Self::trimmed(expect_non_empty(recognize(alt((
+                double_quoted,
+                single_quoted,
+            ))))),
+        )(i)
     }
 
     /// Parse a string interpolation.
-- 
2.43.0


From b6fbd29aaf318df47e82dbd88cd2e6cc140f4a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 18/30] fix: parse brackets and escapes in selectors

---
 packages/stylist-core/src/parser.rs | 35 ++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 50758e5..7ceac54 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -264,6 +264,30 @@ impl Parser {
         )(i)
     }
 
+    /// Parse anything in brackets in a selector.
+    fn selector_brackets(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        fn contents(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+            recognize(many0(alt((
+                Parser::cmt,
+                is_not("$;{}()[]\"'\\/"),
+                tag("/"),
+                tag("$="),
+                Parser::escaped_char,
+                Parser::string,
+                Parser::interpolation,
+                Parser::selector_brackets,
+            ))))(i)
+        }
+
+        traced_context(
+            "SelectorBrackets",
+            recognize(alt((
+                delimited(tag("("), contents, tag(")")),
+                delimited(tag("["), contents, tag("]")),
+            ))),
+        )(i)
+    }
+
     /// Parse a selector.
     // TODO: Parse selector properly.
     fn selector(i: &str) -> IResult<&str, Selector, VerboseError<&str>> {
@@ -271,9 +295,13 @@ impl Parser {
             "Selector",
             Self::trimmed(expect_non_empty(map(
                 recognize(many1(alt((
-                    recognize(preceded(none_of("$,}@{\""), opt(is_not("$,\"{")))),
+                    Self::cmt,
+                    is_not("$,;@{}()[]\"'\\/"),
+                    tag("/"),
+                    Self::escaped_char,
                     Self::string,
                     recognize(Self::interpolation),
+                    Self::selector_brackets,
                 )))),
                 |p: &str| vec![p.trim().to_owned().into()].into(),
             ))),
@@ -284,10 +312,7 @@ impl Parser {
     fn condition(i: &str) -> IResult<&str, Vec<Selector>, VerboseError<&str>> {
         traced_context(
             "Condition",
-            Self::trimmed(expect_non_empty(many1(terminated(
-                Self::selector,
-                opt(tag(",")),
-            )))),
+            Self::trimmed(expect_non_empty(separated_list1(tag(","), Self::selector))),
         )(i)
     }
 
-- 
2.43.0


From 1de929920b2aa10b5106669e2bfe283a42ea8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 19/30] fix: reject at-rules with stray semicolons or braces in
 their condition

---
 packages/stylist-core/src/parser.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 7ceac54..922949e 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -437,6 +437,23 @@ impl Parser {
         )(i)
     }
 
+    /// Parse anything in brackets in the condition of an at-rule.
+    fn condition_brackets(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        traced_context(
+            "ConditionBrackets",
+            recognize(delimited(
+                tag("("),
+                many0(alt((
+                    is_not("${}()\"'"),
+                    Self::string,
+                    recognize(Self::interpolation),
+                    Self::condition_brackets,
+                ))),
+                tag(")"),
+            )),
+        )(i)
+    }
+
     fn at_rule_condition<'a, T>(
         i: &'a str,
         tags: T,
@@ -452,7 +469,12 @@ impl Parser {
                 pair(
                     tags,
                     map(
-                        recognize(many1(alt((is_not("${"), recognize(Self::interpolation))))),
+                        recognize(many1(alt((
+                            is_not("${;}()\"'"),
+                            Self::string,
+                            recognize(Self::interpolation),
+                            Self::condition_brackets,
+                        )))),
                         |m: &str| StringFragment {
                             inner: m.trim().to_string().into(),
                         },
-- 
2.43.0


From 7e4af1a83e002d4c7b23f00c4bcfe3c5f60db6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 20/30] fix: parse rules with empty bodies

---
 packages/stylist-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 922949e..5fe553b 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -398,7 +398,7 @@ impl Parser {
                     cond,
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Self::rule_block_contents, tag("}")),
+                    terminated(Self::rule_block_contents, preceded(Self::sp, tag("}"))),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<RuleBlockContent>)| Rule {
@@ -503,7 +503,7 @@ impl Parser {
                     // Collect contents with-in rules.
                     terminated(
                         many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes)),
-                        tag("}"),
+                        preceded(Self::sp, tag("}")),
                     ),
                 ),
                 // Map Results into a scope
-- 
2.43.0


From 00f2b317b9aaa8b550af3ae5d1a15af092d5bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 21/30] fix: keep strings and escapes in selectors when
 substituting the current selector

---
 packages/stylist-core/src/ast/selector.rs | 45 +++++++++++++++++++----
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/packages/stylist-core/src/ast/selector.rs b/packages/stylist-core/src/ast/selector.rs
index 6eefcb9..d83a2e6 100644
--- a/packages/stylist-core/src/ast/selector.rs
+++ b/packages/stylist-core/src/ast/selector.rs
@@ -15,6 +15,39 @@ pub struct Selector {
     pub fragments: Cow<'static, [StringFragment]>,
 }
 
+/// Replaces every occurrence of `targets` that is neither escaped nor part of a string.
+///
+/// Returns `None` if there is no such occurrence.
+fn replace_current(selector: &str, targets: &[&str], current: &str) -> Option<String> {
+    let mut replaced = false;
+    let mut s = String::with_capacity(selector.len());
+    let mut quote = None;
+    let mut rest = selector;
+
+    while let Some(c) = rest.chars().next() {
+        if quote.is_none() {
+            if let Some(m) = targets.iter().find_map(|m| rest.strip_prefix(m)) {
+                s.push_str(current);
+                rest = m;
+                replaced = true;
+                continue;
+            }
+        }
+
+        let mut len = c.len_utf8();
+        match c {
+            '\\' => len += rest[len..].chars().next().map_or(0, char::len_utf8),
+            '"' | '\'' if quote.is_none() => quote = Some(c),
+            _ if quote == Some(c) => quote = None,
+            _ => {}
+        }
+        s.push_str(&rest[..len]);
+        rest = &rest[len..];
+    }
+
+    replaced.then_some(s)
+}
+
 impl ToStyleStr for Selector {
     fn write_style(&self, w: &mut String, ctx: &mut StyleContext<'_>) {
         let mut joined_s = "".to_string();
@@ -26,12 +59,8 @@ impl ToStyleStr for Selector {
         if let Some(ref m) = ctx.class_name {
             let scoped_class = format!(".{m}");
             // If contains current selector or root pseudo class, replace them with class name.
-            if joined_s.contains('&') || joined_s.contains(":root") {
-                w.push_str(
-                    &joined_s
-                        .replace('&', scoped_class.as_str())
-                        .replace(":root", scoped_class.as_str()),
-                );
+            if let Some(m) = replace_current(&joined_s, &["&", ":root"], &scoped_class) {
+                w.push_str(&m);
             } else {
                 w.push_str(&scoped_class);
 
@@ -44,8 +73,8 @@ impl ToStyleStr for Selector {
             }
 
         // For global styles, if it contains &, it will be replaced with html.
-        } else if joined_s.contains('&') {
-            w.push_str(&joined_s.replace('&', ":root"));
+        } else if let Some(m) = replace_current(&joined_s, &["&"], ":root") {
+            w.push_str(&m);
         // For other styles, it will be written as is.
         } else {
             w.push_str(&joined_s);
-- 
2.43.0


From 39089fa547a16d952f9428539183a638e376a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 22/30] fix: refuse style data that gives a style the name of
 another

---
 packages/stylist/src/manager/content.rs |  2 +-
 packages/stylist/src/manager/mod.rs     | 37 +++++++++++++++++++------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 19c0876..40e8661 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -52,7 +52,7 @@ impl Drop for StyleContent {
     fn drop(&mut self) {
         let _result = self.unmount();
         if let Some(mgr) = self.manager() {
-            mgr.release_id(self.id());
+            mgr.release_id(self);
         }
     }
 }
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 0c30d9d..be2acbb 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -8,6 +8,8 @@
 
 use std::borrow::Cow;
 use std::cell::RefCell;
+use std::collections::HashMap;
+#[cfg(all(feature = "hydration", feature = "yew"))]
 use std::collections::HashSet;
 use std::rc::{Rc, Weak};
 
@@ -35,7 +37,7 @@ pub use ssr::*;
 pub struct StyleManagerBuilder {
     registry: RefCell<StyleRegistry>,
     // The ids of all styles that are registered or still referenced.
-    ids: RefCell<HashSet<StyleId>>,
+    ids: RefCell<HashMap<StyleId, Rc<StyleKey>>>,
     // The ids of all styles that have been delivered to a provider.
     #[cfg(all(feature = "hydration", feature = "yew"))]
     provided_ids: RefCell<HashSet<StyleId>>,
@@ -185,7 +187,7 @@ impl StyleManager {
                 false => StyleId::new_scoped(&key.prefix),
             };
 
-            if !self.inner.ids.borrow().contains(&id) {
+            if !self.inner.ids.borrow().contains_key(&id) {
                 break id;
             }
         };
@@ -199,12 +201,13 @@ impl StyleManager {
         crate::ast::Sheet::parse_uncached(&style_str)
             .expect_display("debug: Stylist failed to parse the style with interpolated values");
 
-        self.inner.ids.borrow_mut().insert(id.clone());
+        let key = Rc::new(key);
+        self.inner.ids.borrow_mut().insert(id.clone(), key.clone());
         let content: Rc<_> = StyleContent {
             id,
             style_str,
             manager: weak_mgr,
-            key: Rc::new(key),
+            key,
             element: OnceCell::new(),
         }
         .into();
@@ -244,8 +247,16 @@ impl StyleManager {
         self.inner.registry.borrow_mut().unregister(content);
     }
 
-    pub(crate) fn release_id(&self, id: &StyleId) {
-        self.inner.ids.borrow_mut().remove(id);
+    pub(crate) fn release_id(&self, content: &StyleContent) {
+        let mut ids = self.inner.ids.borrow_mut();
+
+        // The same style may have been loaded again.
+        if ids
+            .get(content.id())
+            .is_some_and(|m| Rc::ptr_eq(m, content.key()))
+        {
+            ids.remove(content.id());
+        }
     }
 
     /// Return a reference of style key.
@@ -393,7 +404,6 @@ mod feat_hydration {
 
     use crate::ast::ToStyleStr;
     use std::collections::hash_map::Entry;
-    use std::collections::HashMap;
     #[cfg(feature = "yew")]
     use std::sync::Arc;
 
@@ -413,11 +423,21 @@ mod feat_hydration {
             let mut reg = self.inner.registry.borrow_mut();
 
             // Conflicting data is refused before anything is loaded.
+            let used_ids = self.inner.ids.borrow();
             let mut ids: HashMap<&StyleKey, &StyleId> = HashMap::new();
+            let mut keys: HashMap<&StyleId, &StyleKey> = HashMap::new();
             for StyleDataContent { id, key, .. } in data.0.iter() {
                 let registered = reg.get(key);
                 let known = registered.as_ref().map(|m| m.id());
 
+                let used = used_ids.get(id).map(|m| m.as_ref());
+                if let Some(m) = used.or_else(|| keys.insert(id, key)) {
+                    assert!(
+                        m == key,
+                        "A different style has been rendered with the same class, this is not supported, please load style data first!"
+                    );
+                }
+
                 if let Some(m) = known.or_else(|| ids.insert(key, id)) {
                     assert_eq!(
                         m,
@@ -426,12 +446,13 @@ mod feat_hydration {
                     );
                 }
             }
+            drop(used_ids);
 
             for StyleDataContent { id, key, .. } in data.0.iter() {
                 let key = Rc::new(key.clone());
 
                 if let Entry::Vacant(m) = reg.styles.entry(key.clone()) {
-                    self.inner.ids.borrow_mut().insert(id.clone());
+                    self.inner.ids.borrow_mut().insert(id.clone(), key.clone());
                     m.insert(
                         StyleContent {
                             id: id.clone(),
-- 
2.43.0


From 972e26aeece8ffa57f9f0c88ddd7f6e1d48f9395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 23/30] fix: refuse style data with rules that are nested too
 deeply

---
 packages/stylist-core/src/bow.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/packages/stylist-core/src/bow.rs b/packages/stylist-core/src/bow.rs
index 9c9bedf..8ceca8a 100644
--- a/packages/stylist-core/src/bow.rs
+++ b/packages/stylist-core/src/bow.rs
@@ -1,8 +1,14 @@
 use serde::{Deserialize, Serialize};
+use std::cell::Cell;
 use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 use Bow::*;
 
+/// How deep values can be nested in data that is deserialised.
+///
+/// Not every format has a limit by itself, malformed data would overflow the stack.
+const MAX_NESTED: usize = 64;
+
 /// A clone-on-write smart pointer with boxed owned data.
 ///
 /// This type behaves like [`Cow`](std::borrow::Cow) but uses [`Box`] to store the owned value.
@@ -32,6 +38,25 @@ where
     where
         D: serde::Deserializer<'de>,
     {
+        thread_local! {
+            static DEPTH: Cell<usize> = const { Cell::new(0) };
+        }
+
+        struct Nested;
+
+        impl Drop for Nested {
+            fn drop(&mut self) {
+                DEPTH.with(|m| m.set(m.get() - 1));
+            }
+        }
+
+        let depth = DEPTH.with(|m| m.replace(m.get() + 1));
+        let _nested = Nested;
+
+        if depth >= MAX_NESTED {
+            return Err(serde::de::Error::custom("rules are nested too deeply"));
+        }
+
         T::deserialize(deserializer).map(Box::new).map(Bow::Boxed)
     }
 }
-- 
2.43.0


From 429e7953d30b0be747b3cef006e6c5f26841b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 24/30] fix: reject style text that is nested too deeply

---
 packages/stylist-core/src/parser.rs | 60 +++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 5fe553b..1df6e1e 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -1,4 +1,5 @@
 use std::borrow::Cow;
+use std::cell::Cell;
 use std::fmt;
 
 use nom::branch::{alt, Alt};
@@ -82,6 +83,42 @@ where
     }
 }
 
+/// How deep blocks and brackets can be nested in the text that is parsed.
+///
+/// Malformed text would otherwise overflow the stack.
+const MAX_NESTED: usize = 64;
+
+/// Returns Failure when it is nested in itself too deeply.
+fn nested<'a, O>(
+    mut p: impl nom::Parser<&'a str, O, VerboseError<&'a str>>,
+) -> impl FnMut(&'a str) -> IResult<&'a str, O, VerboseError<&'a str>> {
+    thread_local! {
+        static DEPTH: Cell<usize> = const { Cell::new(0) };
+    }
+
+    struct Nested;
+
+    impl Drop for Nested {
+        fn drop(&mut self) {
+            DEPTH.with(|m| m.set(m.get() - 1));
+        }
+    }
+
+    move |i| {
+        let depth = DEPTH.with(|m| m.replace(m.get() + 1));
+        let _nested = Nested;
+
+        if depth >= MAX_NESTED {
+            return Err(nom::Err::Failure(ParseError::from_error_kind(
+                i,
+                ErrorKind::TooLarge,
+            )));
+        }
+
+        p.parse(i)
+    }
+}
+
 /// A lightweight CSS Parser.
 #[derive(Debug)]
 pub(crate) struct Parser {}
@@ -282,8 +319,8 @@ impl Parser {
         traced_context(
             "SelectorBrackets",
             recognize(alt((
-                delimited(tag("("), contents, tag(")")),
-                delimited(tag("["), contents, tag("]")),
+                delimited(tag("("), nested(contents), tag(")")),
+                delimited(tag("["), nested(contents), tag("]")),
             ))),
         )(i)
     }
@@ -344,7 +381,11 @@ impl Parser {
             Self::trimmed(expect_non_empty(map(
                 pair(
                     Self::condition,
-                    delimited(tag("{"), Self::trimmed(Self::block_contents), tag("}")),
+                    delimited(
+                        tag("{"),
+                        nested(Self::trimmed(Self::block_contents)),
+                        tag("}"),
+                    ),
                 ),
                 |p: (Vec<Selector>, Vec<RuleBlockContent>)| {
                     ScopeContent::Block(Block {
@@ -398,7 +439,10 @@ impl Parser {
                     cond,
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Self::rule_block_contents, preceded(Self::sp, tag("}"))),
+                    terminated(
+                        nested(Self::rule_block_contents),
+                        preceded(Self::sp, tag("}")),
+                    ),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<RuleBlockContent>)| Rule {
@@ -443,12 +487,12 @@ impl Parser {
             "ConditionBrackets",
             recognize(delimited(
                 tag("("),
-                many0(alt((
+                nested(many0(alt((
                     is_not("${}()\"'"),
                     Self::string,
                     recognize(Self::interpolation),
                     Self::condition_brackets,
-                ))),
+                )))),
                 tag(")"),
             )),
         )(i)
@@ -502,7 +546,7 @@ impl Parser {
                     tag("{"),
                     // Collect contents with-in rules.
                     terminated(
-                        many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes)),
+                        nested(many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes))),
                         preceded(Self::sp, tag("}")),
                     ),
                 ),
@@ -534,7 +578,7 @@ impl Parser {
                     },
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Parser::scope_contents, tag("}")),
+                    terminated(nested(Parser::scope_contents), tag("}")),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<ScopeContent>)| {
-- 
2.43.0


From d1259e90ecb1ddd337b37d73dfa3c6e5ee399fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 25/30] fix: keep the id of a style until its last instance is
 gone

---
 packages/stylist/src/manager/mod.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index be2acbb..464da80 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -36,8 +36,9 @@ pub use ssr::*;
 #[derive(Debug)]
 pub struct StyleManagerBuilder {
     registry: RefCell<StyleRegistry>,
-    // The ids of all styles that are registered or still referenced.
-    ids: RefCell<HashMap<StyleId, Rc<StyleKey>>>,
+    // The ids of all styles that are registered or still referenced, with the number of instances:
+    // a style can be loaded again while an unregistered instance of it is still referenced.
+    ids: RefCell<HashMap<StyleId, (Rc<StyleKey>, usize)>>,
     // The ids of all styles that have been delivered to a provider.
     #[cfg(all(feature = "hydration", feature = "yew"))]
     provided_ids: RefCell<HashSet<StyleId>>,
@@ -202,7 +203,7 @@ impl StyleManager {
             .expect_display("debug: Stylist failed to parse the style with interpolated values");
 
         let key = Rc::new(key);
-        self.inner.ids.borrow_mut().insert(id.clone(), key.clone());
+        self.claim_id(&id, &key);
         let content: Rc<_> = StyleContent {
             id,
             style_str,
@@ -247,15 +248,20 @@ impl StyleManager {
         self.inner.registry.borrow_mut().unregister(content);
     }
 
+    fn claim_id(&self, id: &StyleId, key: &Rc<StyleKey>) {
+        let mut ids = self.inner.ids.borrow_mut();
+        ids.entry(id.clone()).or_insert_with(|| (key.clone(), 0)).1 += 1;
+    }
+
     pub(crate) fn release_id(&self, content: &StyleContent) {
         let mut ids = self.inner.ids.borrow_mut();
 
-        // The same style may have been loaded again.
-        if ids
-            .get(content.id())
-            .is_some_and(|m| Rc::ptr_eq(m, content.key()))
-        {
-            ids.remove(content.id());
+        if let Some((_, instances)) = ids.get_mut(content.id()) {
+            *instances -= 1;
+
+            if *instances == 0 {
+                ids.remove(content.id());
+            }
         }
     }
 
@@ -430,7 +436,7 @@ mod feat_hydration {
                 let registered = reg.get(key);
                 let known = registered.as_ref().map(|m| m.id());
 
-                let used = used_ids.get(id).map(|m| m.as_ref());
+                let used = used_ids.get(id).map(|(m, _)| m.as_ref());
                 if let Some(m) = used.or_else(|| keys.insert(id, key)) {
                     assert!(
                         m == key,
@@ -452,7 +458,7 @@ mod feat_hydration {
                 let key = Rc::new(key.clone());
 
                 if let Entry::Vacant(m) = reg.styles.entry(key.clone()) {
-                    self.inner.ids.borrow_mut().insert(id.clone(), key.clone());
+                    self.claim_id(id, &key);
                     m.insert(
                         StyleContent {
                             id: id.clone(),
-- 
2.43.0


From 0f6e4b4df0507d86fd2b87864abebc2c0cc11c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:10 +0000
Subject: [PATCH 26/30] fix: parse comments and slashes in values and at-rule
 conditions

---
 packages/stylist-core/src/parser.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 1df6e1e..d0af4a5 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -5,7 +5,7 @@ use std::fmt;
 use nom::branch::{alt, Alt};
 use nom::bytes::complete::{is_not, tag, take_while1};
 use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of};
-use nom::combinator::{fail, map, not, opt, recognize};
+use nom::combinator::{fail, map, not, opt, peek, recognize};
 use nom::error::{convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
@@ -201,10 +201,12 @@ impl Parser {
             "StyleAttrValue",
             Self::trimmed(map(
                 recognize(many1(alt((
+                    // Comments after the value are no part of it.
+                    terminated(Self::cmt, peek(preceded(Self::sp, none_of(";}")))),
                     is_not("${;}/\"'"),
                     recognize(Self::interpolation),
                     Self::string,
-                    recognize(preceded(tag("/"), none_of("${;}\"'*"))),
+                    recognize(terminated(tag("/"), peek(none_of("{;}*")))),
                 )))),
                 |m: &str| StringFragment {
                     inner: m.to_string().trim().to_string().into(),
@@ -488,7 +490,9 @@ impl Parser {
             recognize(delimited(
                 tag("("),
                 nested(many0(alt((
-                    is_not("${}()\"'"),
+                    Self::cmt,
+                    is_not("${}()/\"'"),
+                    terminated(tag("/"), not(char('*'))),
                     Self::string,
                     recognize(Self::interpolation),
                     Self::condition_brackets,
@@ -514,7 +518,9 @@ impl Parser {
                     tags,
                     map(
                         recognize(many1(alt((
-                            is_not("${;}()\"'"),
+                            Self::cmt,
+                            is_not("${;}()/\"'"),
+                            terminated(tag("/"), not(char('*'))),
                             Self::string,
                             recognize(Self::interpolation),
                             Self::condition_brackets,
-- 
2.43.0


From b3b2941f2043b07c438e8bcc7399183f8e5a16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:10 +0000
Subject: [PATCH 27/30] fix: parse urls with semicolons

---
 packages/stylist-core/src/parser.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index d0af4a5..eb65ce1 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -203,9 +203,12 @@ impl Parser {
                 recognize(many1(alt((
                     // Comments after the value are no part of it.
                     terminated(Self::cmt, peek(preceded(Self::sp, none_of(";}")))),
-                    is_not("${;}/\"'"),
+                    is_not("${;}(/\"'"),
                     recognize(Self::interpolation),
                     Self::string,
+                    // Brackets are kept together, so that urls can contain semicolons.
+                    Self::brackets,
+                    tag("("),
                     recognize(terminated(tag("/"), peek(none_of("{;}*")))),
                 )))),
                 |m: &str| StringFragment {
@@ -483,10 +486,10 @@ impl Parser {
         )(i)
     }
 
-    /// Parse anything in brackets in the condition of an at-rule.
-    fn condition_brackets(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+    /// Parse anything in brackets in the condition of an at-rule or the value of an attribute.
+    fn brackets(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
         traced_context(
-            "ConditionBrackets",
+            "Brackets",
             recognize(delimited(
                 tag("("),
                 nested(many0(alt((
@@ -495,7 +498,7 @@ impl Parser {
                     terminated(tag("/"), not(char('*'))),
                     Self::string,
                     recognize(Self::interpolation),
-                    Self::condition_brackets,
+                    Self::brackets,
                 )))),
                 tag(")"),
             )),
@@ -523,7 +526,7 @@ impl Parser {
                             terminated(tag("/"), not(char('*'))),
                             Self::string,
                             recognize(Self::interpolation),
-                            Self::condition_brackets,
+                            Self::brackets,
                         )))),
                         |m: &str| StringFragment {
                             inner: m.trim().to_string().into(),
-- 
2.43.0


From a688e4a2fe0824775626e79ca5431d1686bcf01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:10 +0000
Subject: [PATCH 28/30] fix: parse at-rules without a space after their name

---
 packages/stylist-core/src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index eb65ce1..90eab2e 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -512,7 +512,10 @@ impl Parser {
     where
         T: Alt<&'a str, &'a str, VerboseError<&'a str>>,
     {
-        let tags = recognize(terminated(alt(tags), tag(" ")));
+        let tags = terminated(
+            alt(tags),
+            alt((tag(" "), tag("\t"), tag("\r"), tag("\n"), peek(tag("(")))),
+        );
 
         traced_context(
             "AtRuleCondition",
@@ -536,7 +539,7 @@ impl Parser {
                 |p: (&str, StringFragment)| {
                     vec![
                         StringFragment {
-                            inner: p.0.to_string().into(),
+                            inner: format!("{} ", p.0).into(),
                         },
                         p.1,
                     ]
-- 
2.43.0


From 5d33da7f411503db8cf49b9ce314cf36beb5dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:10 +0000
Subject: [PATCH 29/30] fix: keep comments in selectors when substituting the
 current selector

---
 packages/stylist-core/src/ast/selector.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-core/src/ast/selector.rs b/packages/stylist-core/src/ast/selector.rs
index d83a2e6..31f7e51 100644
--- a/packages/stylist-core/src/ast/selector.rs
+++ b/packages/stylist-core/src/ast/selector.rs
@@ -15,7 +15,7 @@ pub struct Selector {
     pub fragments: Cow<'static, [StringFragment]>,
 }
 
-/// Replaces every occurrence of `targets` that is neither escaped nor part of a string.
+/// Replaces every occurrence of `targets` that is neither escaped nor part of a string or comment.
 ///
 /// Returns `None` if there is no such occurrence.
 fn replace_current(selector: &str, targets: &[&str], current: &str) -> Option<String> {
@@ -36,6 +36,9 @@ fn replace_current(selector: &str, targets: &[&str], current: &str) -> Option<St
 
         let mut len = c.len_utf8();
         match c {
+            '/' if quote.is_none() && rest.starts_with("/*") => {
+                len = rest[2..].find("*/").map_or(rest.len(), |m| m + 4)
+            }
             '\\' => len += rest[len..].chars().next().map_or(0, char::len_utf8),
             '"' | '\'' if quote.is_none() => quote = Some(c),
             _ if quote == Some(c) => quote = None,
-- 
2.43.0


From 82e33440f4eb74f65408bdb534dcf490b369393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:10 +0000
Subject: [PATCH 30/30] fix: accept dollar signs and braces in literal macros

---
 packages/stylist-macros/src/literal/fstring.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/stylist-macros/src/literal/fstring.rs b/packages/stylist-macros/src/literal/fstring.rs
index 20f9995..8c9dbfc 100644
--- a/packages/stylist-macros/src/literal/fstring.rs
+++ b/packages/stylist-macros/src/literal/fstring.rs
@@ -1,10 +1,10 @@
 use nom::branch::alt;
 use nom::bytes::complete::{is_not, tag, take_while};
-use nom::character::complete::{alpha1, alphanumeric1};
-use nom::combinator::{all_consuming, cut, map, opt, recognize};
+use nom::character::complete::{alpha1, alphanumeric1, char};
+use nom::combinator::{all_consuming, cut, map, not, opt, recognize};
 use nom::error::{context, convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::many0;
-use nom::sequence::{delimited, preceded};
+use nom::sequence::{delimited, preceded, terminated};
 use nom::IResult;
 use stylist_core::{Error, Result};
 
@@ -99,7 +99,10 @@ impl Parser {
 
         let result = context(
             "Literal",
-            map(is_not("${"), |m: &str| Fragment::Literal(m.to_string())),
+            map(
+                alt((is_not("$"), terminated(tag("$"), not(char('{'))))),
+                |m: &str| Fragment::Literal(m.to_string()),
+            ),
         )(i);
 
         #[cfg(test)]
-- 
2.43.0

