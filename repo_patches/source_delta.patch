From 49872961f74f0752505a3142061e6d51b2ec602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:43 +0000
Subject: [PATCH 01/53] fix: detach a node from its old place before appending
 it

append_child linked the node into the new parent but left the old parent and
siblings pointing at it, so moving a node corrupted both child lists.
---
 crates/oxvg_ast/src/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 5973cfc..c00ef2e 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -426,6 +426,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
     ///
     /// [MDN | appendChild](https://developer.mozilla.org/en-US/docs/Web/API/Node/appendChild)
     pub fn append_child(&'arena self, a_child: Ref<'input, 'arena>) {
+        a_child.remove();
         a_child.parent.set(Some(self));
         if let Some(child) = self.last_child.replace(Some(a_child)) {
             child.next_sibling.set(Some(a_child));
-- 
2.43.0


From b7b90a515a2e4764715c8362cfba207e40d8cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:43 +0000
Subject: [PATCH 02/53] fix: keep the siblings when inserting before an element

Element::before set the parent of the new node before insert_before detached
it, so the parent's first and last child were cleared.
---
 crates/oxvg_ast/src/element.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index b120247..f573651 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -488,8 +488,6 @@ impl<'input, 'arena> Element<'input, 'arena> {
     /// [MDN | before](https://developer.mozilla.org/en-US/docs/Web/API/Element/before)
     pub fn before(&self, node: Ref<'input, 'arena>) -> Option<()> {
         let parent = self.parent_node()?;
-        node.remove();
-        node.set_parent_node(&parent);
         parent.insert_before(node, self);
         Some(())
     }
-- 
2.43.0


From 0ec0f271df27e4fb33ab7a5c0f1cd438f0d6b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:43 +0000
Subject: [PATCH 03/53] fix: detach the children of an emptied node

The removed children kept their parent and sibling links, so a later edit of
one of them changed the node they were removed from.
---
 crates/oxvg_ast/src/node.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index c00ef2e..2cd929a 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -274,8 +274,9 @@ impl<'input, 'arena> Node<'input, 'arena> {
 
     /// Removes all child nodes
     pub fn empty(&self) {
-        self.first_child.set(None);
-        self.last_child.set(None);
+        while let Some(child) = self.first_child.get() {
+            child.remove();
+        }
     }
 
     /// Does a breadth-first search to find an element from the current node, returning this node
-- 
2.43.0


From f307805e8340a8f7d8473c2211f814c80d4e4919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:43 +0000
Subject: [PATCH 04/53] fix: relink the retained children of a node

The next sibling of a retained child still pointed at the removed one, which
cut off every child after it.
---
 crates/oxvg_ast/src/node.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 2cd929a..a3b0c4d 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -346,13 +346,16 @@ impl<'input, 'arena> Node<'input, 'arena> {
     {
         self.last_child.set(None);
         let mut current = self.first_child.take();
-        let mut previously_retained = None;
+        let mut previously_retained: Option<Ref<'input, 'arena>> = None;
         while let Some(child) = current {
             current = child.next_sibling.get();
             let retain = f(child);
             if retain {
                 child.previous_sibling.set(previously_retained);
-                if previously_retained.is_none() {
+                child.next_sibling.set(None);
+                if let Some(previously_retained) = previously_retained {
+                    previously_retained.next_sibling.set(Some(child));
+                } else {
                     self.first_child.set(Some(child));
                 }
                 previously_retained = Some(child);
-- 
2.43.0


From adc5b71e44f6dee132e54480615fed9b965a83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:43 +0000
Subject: [PATCH 05/53] fix: clear the previous sibling of the first sorted
 child

---
 crates/oxvg_ast/src/element.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index f573651..7605d2a 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -693,9 +693,11 @@ impl<'input, 'arena> Element<'input, 'arena> {
         self.last_child.set(children.last().copied());
         for i in 0..children.len() {
             let child = children[i];
-            if i > 0 {
-                child.previous_sibling.set(children.get(i - 1).copied());
-            }
+            child.previous_sibling.set(if i > 0 {
+                children.get(i - 1).copied()
+            } else {
+                None
+            });
             child.next_sibling.set(children.get(i + 1).copied());
         }
     }
-- 
2.43.0


From 05c79321d35a95fb3f48cc96d1b217cb4007dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:43 +0000
Subject: [PATCH 06/53] fix: detach a node from its old place before prepending
 it

---
 crates/oxvg_ast/src/element.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 7605d2a..fa249d7 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -325,6 +325,7 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | prepend](https://developer.mozilla.org/en-US/docs/Web/API/Element/prepend)
     pub fn prepend(&self, node: Ref<'input, 'arena>) {
+        node.remove();
         if let Some(first_node) = self.first_child.get() {
             first_node.previous_sibling.set(Some(node));
             node.next_sibling.set(Some(first_node));
-- 
2.43.0


From d5014ffb3cd3e47bcd9fed6f514b61c84c1136fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:43 +0000
Subject: [PATCH 07/53] fix: detach the new child from its old place in
 replace_child

---
 crates/oxvg_ast/src/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index a3b0c4d..6f4566c 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -707,6 +707,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
         debug_assert_eq!(old_child.parent.get(), Some(self));
         debug_assert!(self.child_nodes_iter().contains(old_child));
 
+        new_child.remove();
         let previous_sibling = old_child.previous_sibling.take();
         let next_sibling = old_child.next_sibling.take();
         old_child.parent.set(None);
-- 
2.43.0


From 779608e1507152aeb309465f145b5f0483a5b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:43 +0000
Subject: [PATCH 08/53] fix: detach the old children in replace_children

The replaced children kept pointing at the element, and the new ones were not
removed from the place they came from.
---
 crates/oxvg_ast/src/element.rs | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index fa249d7..b710e32 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -6,7 +6,6 @@ use std::{
     ops::Deref,
 };
 
-use itertools::Itertools as _;
 use oxvg_collections::{
     atom::Atom,
     attribute::{Attr, AttrId},
@@ -350,25 +349,11 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | replaceChildren](https://developer.mozilla.org/en-US/docs/Web/API/Element/replaceChildren)
     pub fn replace_children(&self, children: impl std::iter::Iterator<Item = Ref<'input, 'arena>>) {
-        let mut children = children.peekable();
-        let first = children.peek().copied();
-        self.first_child.set(first);
-        first.inspect(|first| {
-            first.previous_sibling.set(None);
-        });
-        let mut last = first;
-        for (a, b) in children.tuple_windows() {
-            // NOTE: This only runs if children >= 2
-            a.parent.set(Some(self));
-            a.next_sibling.set(Some(b));
-            b.previous_sibling.set(Some(a));
-            last = Some(b);
+        let children: Vec<_> = children.collect();
+        self.empty();
+        for child in children {
+            self.append(child);
         }
-        last.inspect(|last| {
-            last.parent.set(Some(self));
-            last.next_sibling.set(None);
-        });
-        self.last_child.set(last);
     }
 
     /// Replaces this element in the children list of it's parent with another.
-- 
2.43.0


From 436317df1bd4ff13452599dbcbc76d82a23e7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:43 +0000
Subject: [PATCH 09/53] fix: attach the parsed content of a style element once

The style node was appended to its element twice and ended up as its own
sibling.
---
 crates/oxvg_ast/src/parse/roxmltree.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 81341af..986d2dc 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -206,8 +206,7 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         roxmltree::NodeType::PI => parse_pi(allocator, node.pi().unwrap()),
         roxmltree::NodeType::Element => {
             let (child, style) = parse_element(allocator, node, namespace_map, &mut popped_ns);
-            if let Some(style) = style {
-                attach_child(child, style);
+            if style.is_some() {
                 return Ok(child);
             }
             child
-- 
2.43.0


From 73be35051ec36762cbab194df65a062eb82b9bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:43 +0000
Subject: [PATCH 10/53] fix: keep the children of a renamed element

Converting a shape to a path dropped its title, description and animations.
---
 crates/oxvg_ast/src/element.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index b710e32..589096b 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -409,8 +409,12 @@ impl<'input, 'arena> Element<'input, 'arena> {
             #[cfg(feature = "range")]
             ranges: std::collections::HashMap::new(),
         });
+        let replacement = &*replacement;
+        while let Some(child) = self.first_child.get() {
+            replacement.append_child(child);
+        }
         self.replace_with(replacement);
-        Self(&*replacement)
+        Self(replacement)
     }
 
     /// Returns the element immediately following this one in it's parent's child list.
-- 
2.43.0


From 3cc0c1a7659b1dfc97de915ae5258ebac5f67d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:18 +0000
Subject: [PATCH 11/53] fix: order non-element children consistently when
 sorting

Two text nodes compared less than each other in both directions, which is not
a total order and makes sorting panic on long child lists.
---
 crates/oxvg_ast/src/element.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 589096b..e8bf390 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -669,14 +669,9 @@ impl<'input, 'arena> Element<'input, 'arena> {
         F: FnMut(Self, Self) -> std::cmp::Ordering,
     {
         let mut children: Vec<_> = self.child_nodes_iter().collect();
-        children.sort_by(|a, b| {
-            let Some(a) = Element::new(a) else {
-                return std::cmp::Ordering::Less;
-            };
-            let Some(b) = Element::new(b) else {
-                return std::cmp::Ordering::Greater;
-            };
-            f(a, b)
+        children.sort_by(|a, b| match (Element::new(a), Element::new(b)) {
+            (Some(a), Some(b)) => f(a, b),
+            (a, b) => a.is_some().cmp(&b.is_some()),
         });
 
         self.first_child.set(children.first().copied());
-- 
2.43.0


From b6e325ec057a6864454f1b3bf34efd86d84212aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:19 +0000
Subject: [PATCH 12/53] fix: omit the listed jobs without a preset too

---
 crates/oxvg/src/config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg/src/config.rs b/crates/oxvg/src/config.rs
index 9ea1f34..4ab9dfb 100644
--- a/crates/oxvg/src/config.rs
+++ b/crates/oxvg/src/config.rs
@@ -67,10 +67,10 @@ impl Optimise {
     /// Creates a job configuration where the user-configured jobs extends the preset
     /// specified in `extends`
     pub fn resolve_jobs(&self) -> oxvg_optimiser::Jobs {
-        let Some(extends) = &self.extends else {
-            return self.jobs.clone();
+        let mut result = match &self.extends {
+            Some(extends) => extends.extend(&self.jobs),
+            None => self.jobs.clone(),
         };
-        let mut result = extends.extend(&self.jobs);
         if let Some(omit) = self.omit.as_ref() {
             for omit in omit {
                 result.omit(omit);
-- 
2.43.0


From 0ef1837cc381f3fe8df1aabd99b367183f4be1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:26 +0000
Subject: [PATCH 13/53] fix: apply SVGO's removeUseless to empty and zero
 segments

---
 crates/oxvg_optimiser/src/jobs/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/mod.rs b/crates/oxvg_optimiser/src/jobs/mod.rs
index daf22da..f1c90df 100644
--- a/crates/oxvg_optimiser/src/jobs/mod.rs
+++ b/crates/oxvg_optimiser/src/jobs/mod.rs
@@ -177,8 +177,9 @@ macro_rules! jobs {
                                         convert_path_data.tolerance.precision = params.remove("floatPrecision").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.tolerance.precision);
                                         convert_path_data.close_segments = params.remove("convertToZ").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.close_segments);
                                         convert_path_data.join_nodes = params.remove("collapseRepeated").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.join_nodes);
-                                        convert_path_data.remove_empty_segments = params.remove("removeUseless").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.remove_empty_segments);
-                                        convert_path_data.remove_zero_segments = params.remove("removeUseless").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.remove_zero_segments);
+                                        let remove_useless = params.remove("removeUseless").map(serde_json::from_value).and_then(Result::ok);
+                                        convert_path_data.remove_empty_segments = remove_useless.unwrap_or(convert_path_data.remove_empty_segments);
+                                        convert_path_data.remove_zero_segments = remove_useless.unwrap_or(convert_path_data.remove_zero_segments);
                                         convert_path_data.straight_curves = params.remove("straightCurves").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.straight_curves);
                                         convert_path_data.arc_curves = make_arcs.is_some();
                                         convert_path_data.smart_arc_rounding = params.remove("smartArcRounding").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.smart_arc_rounding);
-- 
2.43.0


From 26236b6e230e1b81ea061c07dede181b09ff843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:26 +0000
Subject: [PATCH 14/53] fix: keep convertPathData without parameters in SVGO
 plugins over NAPI

---
 crates/oxvg_optimiser/src/jobs/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/mod.rs b/crates/oxvg_optimiser/src/jobs/mod.rs
index f1c90df..c6e40b6 100644
--- a/crates/oxvg_optimiser/src/jobs/mod.rs
+++ b/crates/oxvg_optimiser/src/jobs/mod.rs
@@ -116,6 +116,9 @@ macro_rules! jobs {
                                                 params.get("applyTransformsStroked")?.unwrap_or_default(),
                                         });
                                     }
+                                } else {
+                                    oxvg_config.convert_path_data = Some(ConvertPathData::default());
+                                    oxvg_config.apply_transforms = Some(ApplyTransforms::default());
                                 }
                             } else {
                                 match name.as_str() {
-- 
2.43.0


From f3c843e146542cad27167dd550a3f713c4235c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:57 +0000
Subject: [PATCH 15/53] fix: keep SVGO's convertPathData with parameters that
 are no object

---
 crates/oxvg_optimiser/src/jobs/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/mod.rs b/crates/oxvg_optimiser/src/jobs/mod.rs
index c6e40b6..ab3e578 100644
--- a/crates/oxvg_optimiser/src/jobs/mod.rs
+++ b/crates/oxvg_optimiser/src/jobs/mod.rs
@@ -186,7 +186,6 @@ macro_rules! jobs {
                                         convert_path_data.straight_curves = params.remove("straightCurves").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.straight_curves);
                                         convert_path_data.arc_curves = make_arcs.is_some();
                                         convert_path_data.smart_arc_rounding = params.remove("smartArcRounding").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.smart_arc_rounding);
-                                        oxvg_config.convert_path_data = Some(convert_path_data);
 
                                         if matches!(
                                             params.remove("applyTransforms"),
@@ -201,6 +200,7 @@ macro_rules! jobs {
                                             });
                                         }
                                     }
+                                    oxvg_config.convert_path_data = Some(convert_path_data);
                                 } else {
                                     match name.as_str() {
                                         $(stringify!($name) => oxvg_config.$name = Some(serde_json::from_value(params)?),)+
-- 
2.43.0


From e51ee2119e0047a08f658527ba3319bc095b74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:29 +0000
Subject: [PATCH 16/53] fix: fail the optimise command when a document fails

---
 crates/oxvg/src/commands/optimise.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg/src/commands/optimise.rs b/crates/oxvg/src/commands/optimise.rs
index 6afc5dd..3de69c8 100644
--- a/crates/oxvg/src/commands/optimise.rs
+++ b/crates/oxvg/src/commands/optimise.rs
@@ -1,4 +1,11 @@
-use std::{future, path::PathBuf};
+use std::{
+    future,
+    path::PathBuf,
+    sync::{
+        Arc,
+        atomic::{AtomicBool, Ordering},
+    },
+};
 
 use anyhow::anyhow;
 use oxvg_ast::{
@@ -64,8 +71,10 @@ impl Optimise {
     ///
     /// When invalid options are given
     pub fn walk(self, jobs: Jobs) -> anyhow::Result<()> {
-        self.walk.run(move || {
+        let error = Arc::new(AtomicBool::new(false));
+        self.walk.run(|| {
             let jobs = jobs.clone();
+            let error = Arc::clone(&error);
             let format_options = Options {
                 indent: self.pretty,
                 trim_whitespace: self.space,
@@ -101,13 +110,20 @@ impl Optimise {
                         Ok(())
                     },
                 );
+                if matches!(result, Err(_) | Ok(Err(_))) {
+                    error.store(true, Ordering::Relaxed);
+                }
                 match result {
                     Err(err) => eprintln!("{err}"),
                     Ok(Err(err)) => eprintln!("{err}"),
                     Ok(Ok(())) => {}
                 }
             })
-        })
+        })?;
+        if error.load(Ordering::Relaxed) {
+            return Err(anyhow!("Failed to optimise all documents!"));
+        }
+        Ok(())
     }
 
     fn handle_config(&self, config: Config) -> anyhow::Result<Option<Config>> {
-- 
2.43.0


From 900690d7076ef601d24dd75a66f142debdc86759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:29 +0000
Subject: [PATCH 17/53] fix: fail the action command when a document fails

---
 crates/oxvg/src/commands/action.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg/src/commands/action.rs b/crates/oxvg/src/commands/action.rs
index 9473dec..b04b918 100644
--- a/crates/oxvg/src/commands/action.rs
+++ b/crates/oxvg/src/commands/action.rs
@@ -132,7 +132,7 @@ impl RunCommand for ActionRun {
             Err(err) => return future::ready(Err(err)),
         };
         let error = Arc::new(AtomicBool::new(false));
-        future::ready(self.walk.run(|| {
+        if let Err(err) = self.walk.run(|| {
             let actions = actions.clone();
             let error = Arc::clone(&error);
             let format_options = Options {
@@ -177,7 +177,14 @@ impl RunCommand for ActionRun {
                     Ok(Ok(())) => {}
                 }
             })
-        }))
+        }) {
+            return future::ready(Err(err));
+        }
+        future::ready(if error.load(Ordering::Relaxed) {
+            Err(anyhow::anyhow!("Failed to transform all documents!"))
+        } else {
+            Ok(())
+        })
     }
 }
 
-- 
2.43.0


From 9bf15e53bb9ba81fb3d46c79666f57346d312e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:29 +0000
Subject: [PATCH 18/53] fix: report paths that cannot be read

---
 crates/oxvg/src/walk.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 5422beb..d08d49a 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -4,6 +4,7 @@ use std::{
     ffi::OsStr,
     io::{IsTerminal, Read},
     path::PathBuf,
+    sync::atomic::{AtomicBool, Ordering},
 };
 
 use anyhow::anyhow;
@@ -98,7 +99,7 @@ impl Walk {
     ///
     /// # Errors
     ///
-    /// When invalid options are passed to [`Walk`].
+    /// When invalid options are passed to [`Walk`], or a path cannot be read.
     pub fn run<F: Fn() -> FnVisitor>(&self, f: F) -> anyhow::Result<()> {
         if !std::io::stdin().is_terminal()
             && self.paths.len() <= 1
@@ -115,8 +116,12 @@ impl Walk {
             ));
         }
 
+        let error = AtomicBool::new(false);
         for path in &self.paths {
-            self.handle_path(path, &f);
+            self.handle_path(path, &f, &error);
+        }
+        if error.load(Ordering::Relaxed) {
+            return Err(anyhow!("Failed to read all documents!"));
         }
         Ok(())
     }
@@ -132,7 +137,7 @@ impl Walk {
         Ok(())
     }
 
-    fn handle_path<F: Fn() -> FnVisitor>(&self, path: &PathBuf, f: F) {
+    fn handle_path<F: Fn() -> FnVisitor>(&self, path: &PathBuf, f: F, error: &AtomicBool) {
         let output_path = |input: &PathBuf| {
             let Some(output) = self.output.as_ref().and_then(|output| output.first()) else {
                 return Ok(None);
@@ -156,8 +161,13 @@ impl Walk {
             .run(|| {
                 let mut visitor = f();
                 Box::new(move |path| {
-                    let Ok(path) = path else {
-                        return WalkState::Continue;
+                    let path = match path {
+                        Ok(path) => path,
+                        Err(err) => {
+                            eprintln!("{err}");
+                            error.store(true, Ordering::Relaxed);
+                            return WalkState::Continue;
+                        }
                     };
                     if path.file_type().is_none_or(|f| !f.is_file()) {
                         return WalkState::Continue;
@@ -169,8 +179,13 @@ impl Walk {
                     let Ok(output_path) = output_path(&path) else {
                         return WalkState::Continue;
                     };
-                    let Ok(file) = std::fs::read_to_string(path.clone()) else {
-                        return WalkState::Continue;
+                    let file = match std::fs::read_to_string(path.clone()) {
+                        Ok(file) => file,
+                        Err(err) => {
+                            eprintln!("{}: {err}", path.display());
+                            error.store(true, Ordering::Relaxed);
+                            return WalkState::Continue;
+                        }
                     };
                     visitor(&file, Some(&path), output_path.as_ref());
                     WalkState::Continue
-- 
2.43.0


From f18be15e391814d906892c247e5f1b206fed590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:29 +0000
Subject: [PATCH 19/53] fix: write to the input when the output flag has no
 value

---
 crates/oxvg/src/walk.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index d08d49a..b72ca95 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -139,9 +139,12 @@ impl Walk {
 
     fn handle_path<F: Fn() -> FnVisitor>(&self, path: &PathBuf, f: F, error: &AtomicBool) {
         let output_path = |input: &PathBuf| {
-            let Some(output) = self.output.as_ref().and_then(|output| output.first()) else {
+            let Some(output) = self.output.as_ref() else {
                 return Ok(None);
             };
+            let Some(output) = output.first() else {
+                return Ok(Some(input.clone()));
+            };
             input.strip_prefix(path).map(|p| {
                 Some(if p.as_os_str().is_empty() {
                     output.clone()
-- 
2.43.0


From 3599802e80eacfb7ac3bb0748581274467e8ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:29 +0000
Subject: [PATCH 20/53] fix: keep the existing output when a document cannot be
 serialised

---
 crates/oxvg/src/walk.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index b72ca95..d6a92bb 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -71,9 +71,8 @@ impl Output<'_, '_, '_> {
                 if let Some(parent) = output.parent() {
                     std::fs::create_dir_all(parent)?;
                 }
-                let file = std::fs::File::create(output)?;
-                let writer = std::io::BufWriter::new(file);
-                self.dom.serialize_into(writer, self.options)?;
+                let document = self.dom.serialize_with_options(self.options)?;
+                std::fs::write(output, document)?;
 
                 let input_kb = self.input_bytes / 1000.0;
                 let output_kb = output.metadata()?.len() as f64 / 1000.0;
-- 
2.43.0


From 5e4661d086d54b7fa08d682ca5f329ef724ae41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:29 +0000
Subject: [PATCH 21/53] fix: keep the existing component when a document cannot
 be transformed

---
 crates/oxvg/src/commands/jsx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg/src/commands/jsx.rs b/crates/oxvg/src/commands/jsx.rs
index 5fe0074..c839516 100644
--- a/crates/oxvg/src/commands/jsx.rs
+++ b/crates/oxvg/src/commands/jsx.rs
@@ -312,8 +312,7 @@ impl RunCommand for JSX {
                                 }
                                 let component_name = state.component_name.clone();
                                 let template = declare_template!(template_ast);
-                                let file = std::fs::File::create(&output)?;
-                                let mut buf = std::io::BufWriter::new(file);
+                                let mut buf = Vec::new();
                                 transform(
                                     code,
                                     allocator,
@@ -323,6 +322,7 @@ impl RunCommand for JSX {
                                     &mut buf,
                                 )
                                 .map_err(|err| anyhow::Error::msg(err.to_string()))?;
+                                std::fs::write(&output, buf)?;
                                 count.update(Ordering::Relaxed, Ordering::Relaxed, |n| n + 1);
                                 append_to_index_js(
                                     &output,
-- 
2.43.0


From 5edd18bf7ed6c64df6139f1b4f0d88786e6be5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:29 +0000
Subject: [PATCH 22/53] fix: write no index when asked not to

---
 crates/oxvg/src/commands/jsx.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/oxvg/src/commands/jsx.rs b/crates/oxvg/src/commands/jsx.rs
index c839516..c2ed187 100644
--- a/crates/oxvg/src/commands/jsx.rs
+++ b/crates/oxvg/src/commands/jsx.rs
@@ -324,6 +324,9 @@ impl RunCommand for JSX {
                                 .map_err(|err| anyhow::Error::msg(err.to_string()))?;
                                 std::fs::write(&output, buf)?;
                                 count.update(Ordering::Relaxed, Ordering::Relaxed, |n| n + 1);
+                                if self.no_index {
+                                    return Ok(());
+                                }
                                 append_to_index_js(
                                     &output,
                                     typescript,
-- 
2.43.0


From 3eecdaa6ee9b8202309a1f672308e6872513b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:29 +0000
Subject: [PATCH 23/53] fix: fail the lint check at the given level

---
 crates/oxvg/src/commands/lint.rs | 33 ++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg/src/commands/lint.rs b/crates/oxvg/src/commands/lint.rs
index 650aed0..02c8521 100644
--- a/crates/oxvg/src/commands/lint.rs
+++ b/crates/oxvg/src/commands/lint.rs
@@ -1,4 +1,11 @@
-use std::{future, path::PathBuf};
+use std::{
+    future,
+    path::PathBuf,
+    sync::{
+        Arc,
+        atomic::{AtomicBool, Ordering},
+    },
+};
 
 use clap::Subcommand;
 use oxvg_lint::{Rules, Severity, error::LintingError};
@@ -26,17 +33,35 @@ impl RunCommand for Check {
 impl Check {
     fn walk(mut self, rules: &Rules) -> anyhow::Result<()> {
         self.walk.output = None;
+        let level = self.level;
+        let error = Arc::new(AtomicBool::new(false));
         self.walk.run(|| {
             let rules = rules.clone();
+            let error = Arc::clone(&error);
             Box::new(move |source, path, _| {
                 let result = rules.lint_with_path(source, path);
                 match result {
-                    Err(LintingError::Reported { .. }) => {}
-                    Err(err) => eprintln!("{err}"),
+                    Err(LintingError::Reported { errors, warnings }) => {
+                        if match level {
+                            Severity::Off => false,
+                            Severity::Warn => errors > 0 || warnings > 0,
+                            Severity::Error => errors > 0,
+                        } {
+                            error.store(true, Ordering::Relaxed);
+                        }
+                    }
+                    Err(err) => {
+                        eprintln!("{err}");
+                        error.store(true, Ordering::Relaxed);
+                    }
                     _ => {}
                 }
             })
-        })
+        })?;
+        if error.load(Ordering::Relaxed) {
+            return Err(anyhow::anyhow!("Found problems in the documents!"));
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 1e1db79e03f6a78a4363001fde56807edca3677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:23 +0000
Subject: [PATCH 24/53] fix: advance over whole characters when reading values

---
 crates/oxvg_parse/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index 7dfda4d..e964279 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -40,7 +40,7 @@ impl<'input> Parser<'input> {
 
     /// Go to the next value without reading
     pub fn advance(&mut self) {
-        self.cursor += 1;
+        self.cursor += self.slice().chars().next().map_or(0, char::len_utf8);
     }
 
     /// Move backwards without reading
-- 
2.43.0


From 19822a14d54e7f25be32d961fd82bef87e1b2361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:23 +0000
Subject: [PATCH 25/53] fix: skip only the leading separators of a value

---
 crates/oxvg_parse/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index e964279..82da0bb 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -121,7 +121,7 @@ impl<'input> Parser<'input> {
 
     /// Moves the cursor forward the number of matching characters
     pub fn skip_char(&mut self, char: char) {
-        self.skip_internal(self.slice().trim_matches(char).len());
+        self.skip_internal(self.slice().trim_start_matches(char).len());
     }
 
     /// Moves the cursor forward the number of whitespace characters
-- 
2.43.0


From b4e057c8f02850f547147c39f8418cde4e61f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:23 +0000
Subject: [PATCH 26/53] fix: stay within the value when an expected string is
 missing

---
 crates/oxvg_parse/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index 82da0bb..ce8632a 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -213,10 +213,10 @@ impl<'input> Parser<'input> {
     ///
     /// If the next set of characters does not match the given string
     pub fn expect_str(&mut self, expected: &'static str) -> Result<(), Error<'input>> {
-        let cursor = self.cursor;
-        self.cursor += expected.len();
-        let received = self.slice_from(cursor);
+        let slice = self.slice();
+        let received = slice.get(..expected.len()).unwrap_or(slice);
         if received == expected {
+            self.cursor += expected.len();
             Ok(())
         } else {
             Err(Error::ExpectedString { expected, received })
-- 
2.43.0


From ebb832febea9ab2dd88a2a26909ce022a9b7fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:23 +0000
Subject: [PATCH 27/53] fix: write every processing instruction

---
 crates/oxvg_ast/src/xmlwriter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index d673cc1..a58a630 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -484,12 +484,15 @@ impl<'input, W: Write> XmlWriter<'input, W> {
     ///
     /// # Errors
     ///
-    /// - When called twice.
+    /// - When called twice for the XML declaration.
     #[inline(never)]
     pub fn write_declaration(&mut self, target: &Atom, value: &Option<Atom>) -> Result {
-        if self.state != State::Empty {
+        if self.state != State::Empty && &**target == "xml" {
             return Err(XmlWriterError::DeclarationAlreadyWritten);
         }
+        if self.state == State::Attributes {
+            self.write_open_element()?;
+        }
         self.fmt_writer
             .writer
             .write_fmt(format_args!("<?{target}"))
-- 
2.43.0


From 94566900623f86c479200a3e45eb2f85444969a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:23 +0000
Subject: [PATCH 28/53] fix: end preserved whitespace with the element that
 asks for it

---
 crates/oxvg_ast/src/xmlwriter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index a58a630..6b6b859 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -348,6 +348,8 @@ enum State {
 struct DepthData<'input> {
     element_name: Option<ElementId<'input>>,
     has_children: bool,
+    /// Whether whitespace is preserved around the element
+    preserve_whitespaces: bool,
 }
 
 /// This wrapper writer is so that we can make sure formatted strings are properly escaped too,
@@ -556,6 +558,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -597,6 +600,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         self.depth_stack.push(DepthData {
             element_name: Some(name.clone()),
             has_children: false,
+            preserve_whitespaces: self.preserve_whitespaces,
         });
 
         self.state = State::Attributes;
@@ -956,6 +960,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -1017,6 +1022,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
                     .write_all(b"/>")
                     .map_err(XmlWriterError::IO)?;
             }
+            self.preserve_whitespaces = depth.preserve_whitespaces;
         }
 
         self.state = State::Document;
-- 
2.43.0


From 27593dc98786a310119004f0d43f36f99362892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:02 +0000
Subject: [PATCH 29/53] fix: keep non-breaking spaces in text

---
 crates/oxvg_ast/src/xmlwriter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 6b6b859..f88fc01 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -815,16 +815,16 @@ impl<'input, W: Write> XmlWriter<'input, W> {
 
         match space {
             Space::Default => {
-                if text.trim_start().is_empty() {
+                if text.trim_start_matches(is_xml_whitespace).is_empty() {
                     return Ok(());
                 }
                 self.before_write_text(false)?;
-                let mut parts = text.split_whitespace();
+                let mut parts = text.split(is_xml_whitespace).filter(|part| !part.is_empty());
                 if let Some(first) = parts.next() {
                     let mut chars = text.chars();
                     if !is_first
                         && self.opt.indent == Indent::None
-                        && chars.next().is_some_and(char::is_whitespace)
+                        && chars.next().is_some_and(is_xml_whitespace)
                     {
                         self.fmt_writer
                             .write_char(' ')
@@ -845,7 +845,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
 
                     if !is_last
                         && self.opt.indent == Indent::None
-                        && text.chars().next_back().is_some_and(char::is_whitespace)
+                        && text.chars().next_back().is_some_and(is_xml_whitespace)
                     {
                         self.fmt_writer
                             .write_char(' ')
@@ -1141,6 +1141,10 @@ impl<'input, W: Write> XmlWriter<'input, W> {
     }
 }
 
+fn is_xml_whitespace(char: char) -> bool {
+    matches!(char, ' ' | '\t' | '\n' | '\r')
+}
+
 fn is_text_content_element(data: &DepthData) -> bool {
     data.element_name.as_ref().is_some_and(|name| {
         is_element!(
-- 
2.43.0


From cf1cff4e0d39db28cd9e2e2d73e66fcf7cc15460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:02 +0000
Subject: [PATCH 30/53] fix: resolve an element's name with its own namespaces

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 986d2dc..9785b55 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -227,8 +227,6 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     namespace_map: &mut NamespaceMap<'a>,
     popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
 ) -> (Ref<'a, 'arena>, Option<Ref<'a, 'arena>>) {
-    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
-
     let xml_node_namespaces = xml_node.namespaces();
     let xml_node_attributes = xml_node.attributes();
     #[cfg(feature = "range")]
@@ -237,6 +235,7 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     let range = xml_node.range();
     let mut attrs = Vec::with_capacity(xml_node_attributes.len() + xml_node_namespaces.len());
     attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map, popped_ns)));
+    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
     attrs.extend(xml_node_attributes.map(|attr| {
         #[cfg(feature = "range")]
         let range = crate::node::Ranges {
-- 
2.43.0


From 1a92f6442e2ffedc3bf1fcdd2db0069770ad2779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:02 +0000
Subject: [PATCH 31/53] fix: end namespace declarations with the element that
 makes them

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 42 +++++++++++++++-----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 9785b55..181ccd8 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -36,7 +36,7 @@ pub enum ParseError {
     IO(std::io::Error),
 }
 
-#[derive(Debug, Default)]
+#[derive(Clone, Debug, Default)]
 struct NamespaceMap<'input> {
     prefix_to_uri: HashMap<Option<&'input str>, Option<&'input str>>,
     uri_to_prefix: HashMap<Option<&'input str>, Option<&'input str>>,
@@ -52,10 +52,9 @@ impl<'input> NamespaceMap<'input> {
         &mut self,
         prefix: Option<&'input str>,
         uri: Option<&'input str>,
-    ) -> Option<(Option<&'input str>, Option<&'input str>)> {
-        let p = self.uri_to_prefix.insert(uri, prefix);
-        let u = self.prefix_to_uri.insert(prefix, uri);
-        Some((p?, u?))
+    ) {
+        self.uri_to_prefix.insert(uri, prefix);
+        self.prefix_to_uri.insert(prefix, uri);
     }
 
     fn get_by_uri(&self, uri: Option<&'input str>) -> Option<&'input str> {
@@ -200,13 +199,16 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         return Err(ParseError::NodesLimitReached);
     }
 
-    let mut popped_ns: Vec<(Option<&'a str>, Option<&'a str>)> = vec![];
+    let mut outer_ns = None;
     let child = match node.node_type() {
         roxmltree::NodeType::Root => create_root(allocator),
         roxmltree::NodeType::PI => parse_pi(allocator, node.pi().unwrap()),
         roxmltree::NodeType::Element => {
-            let (child, style) = parse_element(allocator, node, namespace_map, &mut popped_ns);
+            let (child, style) = parse_element(allocator, node, namespace_map, &mut outer_ns);
             if style.is_some() {
+                if let Some(outer_ns) = outer_ns {
+                    *namespace_map = outer_ns;
+                }
                 return Ok(child);
             }
             child
@@ -215,8 +217,8 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         roxmltree::NodeType::Text => parse_text(allocator, node),
     };
     parse_xml_node_children(child, allocator, node, depth + 1, namespace_map)?;
-    for (prefix, value) in popped_ns {
-        namespace_map.insert(prefix, value);
+    if let Some(outer_ns) = outer_ns {
+        *namespace_map = outer_ns;
     }
     Ok(child)
 }
@@ -225,7 +227,7 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     arena: &mut Allocator<'a, 'arena>,
     xml_node: roxmltree::Node<'a, 'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
+    outer_ns: &mut Option<NamespaceMap<'a>>,
 ) -> (Ref<'a, 'arena>, Option<Ref<'a, 'arena>>) {
     let xml_node_namespaces = xml_node.namespaces();
     let xml_node_attributes = xml_node.attributes();
@@ -234,7 +236,7 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     #[cfg(feature = "range")]
     let range = xml_node.range();
     let mut attrs = Vec::with_capacity(xml_node_attributes.len() + xml_node_namespaces.len());
-    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map, popped_ns)));
+    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map, outer_ns)));
     let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
     attrs.extend(xml_node_attributes.map(|attr| {
         #[cfg(feature = "range")]
@@ -363,17 +365,20 @@ fn parse_expanded_name<'a, 'input: 'a>(
 fn find_new_xmlns<'a, 'input: 'a>(
     ns: &'a roxmltree::Namespace<'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
+    outer_ns: &mut Option<NamespaceMap<'a>>,
 ) -> Option<Attr<'a>> {
     if find_xml_uri(ns, namespace_map) {
         return None;
     }
     let uri = ns.uri();
     if let Some(prefix) = ns.name() {
-        if namespace_map.get_by_prefix(None) != Some(uri)
-            && let Some(popped) = namespace_map.insert(Some(prefix), Some(uri))
-        {
-            popped_ns.push(popped);
+        if outer_ns.is_none() {
+            *outer_ns = Some(namespace_map.clone());
+        }
+        if namespace_map.get_by_prefix(None) == Some(uri) {
+            namespace_map.prefix_to_uri.insert(Some(prefix), Some(uri));
+        } else {
+            namespace_map.insert(Some(prefix), Some(uri));
         }
         // return `xmlns:ns="uri"`
         Some(Attr::Unparsed {
@@ -384,9 +389,10 @@ fn find_new_xmlns<'a, 'input: 'a>(
             value: uri.into(),
         })
     } else if !ns.uri().is_empty() {
-        if let Some(popped) = namespace_map.insert(None, Some(uri)) {
-            popped_ns.push(popped);
+        if outer_ns.is_none() {
+            *outer_ns = Some(namespace_map.clone());
         }
+        namespace_map.insert(None, Some(uri));
         // return `xmlns="uri"`
         Some(Attr::XMLNS(uri.into()))
     } else {
-- 
2.43.0


From 933f2f47d58f2dcab8f72854b1dfb7d8f1511991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:13 +0000
Subject: [PATCH 32/53] fix: keep the space between adjacent text nodes

---
 crates/oxvg_ast/src/serialize.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg_ast/src/serialize.rs b/crates/oxvg_ast/src/serialize.rs
index 31a9acc..272cd07 100644
--- a/crates/oxvg_ast/src/serialize.rs
+++ b/crates/oxvg_ast/src/serialize.rs
@@ -123,14 +123,8 @@ fn serialize_node<'arena, W: Write>(
         serialize_node(
             child,
             xml,
-            node.first_child().is_none_or(|n| n == child)
-                || child
-                    .previous_sibling()
-                    .is_some_and(|n| n.node_type() == node::Type::Text),
-            node.last_child().is_none_or(|n| n == child)
-                || child
-                    .next_sibling()
-                    .is_some_and(|n| n.node_type() == node::Type::Text),
+            node.first_child().is_none_or(|n| n == child),
+            node.last_child().is_none_or(|n| n == child),
         )?;
     }
 
-- 
2.43.0


From 07c930b382df796e6e5e96331c399dc977d464cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:30 +0000
Subject: [PATCH 33/53] fix: keep the space between inline text elements

---
 crates/oxvg_ast/src/xmlwriter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index f88fc01..befe1cf 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -816,6 +816,14 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         match space {
             Space::Default => {
                 if text.trim_start_matches(is_xml_whitespace).is_empty() {
+                    // Blank text between inline elements still separates words
+                    if !is_first
+                        && !is_last
+                        && self.opt.indent == Indent::None
+                        && self.is_text_content_element()
+                    {
+                        return self.write_text_fmt(format_args!(" "));
+                    }
                     return Ok(());
                 }
                 self.before_write_text(false)?;
-- 
2.43.0


From 65b3c7054d1b84b6c817501c8923999788bc3d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:24 +0000
Subject: [PATCH 34/53] fix: clear diagnostics in the editor once every problem
 is gone

---
 crates/oxvg/src/commands/lint/lsp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg/src/commands/lint/lsp.rs b/crates/oxvg/src/commands/lint/lsp.rs
index 74e4fbc..7075fd5 100644
--- a/crates/oxvg/src/commands/lint/lsp.rs
+++ b/crates/oxvg/src/commands/lint/lsp.rs
@@ -84,7 +84,7 @@ impl Backend {
 
     async fn lint(&self, uri: &Uri, source: &str) {
         let uri = uri.clone();
-        let Ok(Err(diagnostics)) = parse_with_options(
+        let Ok(analysis) = parse_with_options(
             source,
             ParsingOptions {
                 allow_dtd: true,
@@ -94,6 +94,7 @@ impl Backend {
         ) else {
             return;
         };
+        let diagnostics = analysis.err().unwrap_or_default();
 
         let result = PublishDiagnosticsParams {
             uri,
-- 
2.43.0


From 2167d2da46205a0a7ac78f061f70b90578fe4602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:24 +0000
Subject: [PATCH 35/53] fix: report unused ids and namespaces in a stable order

---
 crates/oxvg_lint/src/rules/no_unused_ids.rs   | 4 +++-
 crates/oxvg_lint/src/rules/no_unused_xmlns.rs | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_lint/src/rules/no_unused_ids.rs b/crates/oxvg_lint/src/rules/no_unused_ids.rs
index 4eea702..d669e10 100644
--- a/crates/oxvg_lint/src/rules/no_unused_ids.rs
+++ b/crates/oxvg_lint/src/rules/no_unused_ids.rs
@@ -14,7 +14,9 @@ pub fn no_unused_ids<'a, 'input>(
     referenced_ids: &'a HashSet<String>,
     severity: Severity,
 ) {
-    reports.par_extend(ids.par_iter().filter_map(move |(id, ranges)| {
+    let mut ids: Vec<_> = ids.iter().collect();
+    ids.sort_by_key(|(id, ranges)| (ranges.as_ref().map(|ranges| ranges.value.start), *id));
+    reports.par_extend(ids.into_par_iter().filter_map(move |(id, ranges)| {
         if referenced_ids.contains(id.as_str()) {
             None
         } else {
diff --git a/crates/oxvg_lint/src/rules/no_unused_xmlns.rs b/crates/oxvg_lint/src/rules/no_unused_xmlns.rs
index c4b1d51..8a6f628 100644
--- a/crates/oxvg_lint/src/rules/no_unused_xmlns.rs
+++ b/crates/oxvg_lint/src/rules/no_unused_xmlns.rs
@@ -10,13 +10,15 @@ use super::Severity;
 pub fn no_unused_xmlns<'input>(
     reports: &mut Vec<Error<'input>>,
     range: Option<&Range<usize>>,
-    mut xmlns_set: HashSet<(Option<Atom<'input>>, Atom<'input>, bool)>,
+    xmlns_set: HashSet<(Option<Atom<'input>>, Atom<'input>, bool)>,
     severity: Severity,
 ) {
     let range = range.map(|r| r.start..r.start);
+    let mut xmlns_set: Vec<_> = xmlns_set.into_iter().collect();
+    xmlns_set.sort();
     reports.par_extend(
         xmlns_set
-            .par_drain()
+            .into_par_iter()
             .filter_map(move |(prefix, uri, is_used)| {
                 if is_used {
                     None
-- 
2.43.0


From 895e5922b71933fb74856ca4fe95bb3ff598a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:24 +0000
Subject: [PATCH 36/53] fix: write props and native imports of a component in a
 stable order

---
 crates/oxvg_jsx/src/swc/get_variables.rs | 4 +++-
 crates/oxvg_jsx/src/swc/preset.rs        | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_jsx/src/swc/get_variables.rs b/crates/oxvg_jsx/src/swc/get_variables.rs
index e77311c..335a90a 100644
--- a/crates/oxvg_jsx/src/swc/get_variables.rs
+++ b/crates/oxvg_jsx/src/swc/get_variables.rs
@@ -87,7 +87,9 @@ impl Variables {
                     is_type_only: false,
                 }));
             }
-            specifiers.extend(opts.native_idents.iter().filter(|i| **i != "Svg").map(|i| {
+            let mut native_idents: Vec<_> = opts.native_idents.iter().collect();
+            native_idents.sort();
+            specifiers.extend(native_idents.into_iter().filter(|i| *i != "Svg").map(|i| {
                 ImportSpecifier::Named(ImportNamedSpecifier {
                     span: DUMMY_SP,
                     local: i.as_str().into(),
diff --git a/crates/oxvg_jsx/src/swc/preset.rs b/crates/oxvg_jsx/src/swc/preset.rs
index c0ef524..e863ca9 100644
--- a/crates/oxvg_jsx/src/swc/preset.rs
+++ b/crates/oxvg_jsx/src/swc/preset.rs
@@ -38,6 +38,8 @@ pub fn preset<'a, S: std::hash::BuildHasher>(
         .map_err(Error::BuildError)?;
 
     if let Some(svg_props) = &config.svg_props {
+        let mut svg_props: Vec<_> = svg_props.iter().collect();
+        svg_props.sort();
         for (key, value) in svg_props {
             let attr = parse_templatable_attr(value).map_err(Error::ConfigError)?;
             set_attribute(svg_element, key, attr, true);
@@ -145,6 +147,8 @@ pub fn preset<'a, S: std::hash::BuildHasher>(
     }
 
     if let Some(replace_attr_values) = &config.replace_attr_values {
+        let mut replace_attr_values: Vec<_> = replace_attr_values.iter().collect();
+        replace_attr_values.sort();
         for (key, value) in replace_attr_values {
             let attr = parse_templatable_attr(value).map_err(Error::ConfigError)?;
             set_value_recursive(jsx, key, &attr);
-- 
2.43.0


From f565f5ebfb8060baf699e549d1c65907280ae3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:24 +0000
Subject: [PATCH 37/53] fix: keep the order of class names when adding classes

---
 .../src/jobs/add_classes_to_s_v_g_element.rs  | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
index 4b603e0..9c3204c 100644
--- a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
+++ b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
@@ -1,5 +1,3 @@
-use std::collections::HashSet;
-
 use oxvg_ast::{
     element::Element,
     get_attribute_mut, is_element,
@@ -100,17 +98,17 @@ impl<'input, 'arena> Visitor<'input, 'arena> for AddClassesToSVGElement {
 
         match &self.class_names {
             Some(names) => {
-                let mut set = HashSet::new();
-                for item in class.list.drain(..) {
-                    set.insert(item);
+                let mut list = Vec::with_capacity(class.list.len() + names.len());
+                let names = names
+                    .iter()
+                    .map(|name| &*context.info.allocator.alloc_str(name))
+                    .map(Into::into);
+                for item in class.list.drain(..).chain(names) {
+                    if !list.contains(&item) {
+                        list.push(item);
+                    }
                 }
-                set.extend(
-                    names
-                        .iter()
-                        .map(|name| &*context.info.allocator.alloc_str(name))
-                        .map(Into::into),
-                );
-                class.list = set.into_iter().collect();
+                class.list = list;
             }
             None => match &self.class_name {
                 Some(name) => {
-- 
2.43.0


From 31d6199854fece01c55d972723aea3eb256a0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:24 +0000
Subject: [PATCH 38/53] fix: remove emptied defs in a stable order when
 converting gradients

---
 .../oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 31bb659..0dd5bbd 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::{Cell, RefCell},
-    collections::HashMap,
+    collections::BTreeMap,
 };
 
 use lightningcss::{
@@ -52,10 +52,10 @@ pub struct ConvertOneStopGradients(pub bool);
 #[derive(Default)]
 struct State<'input, 'arena> {
     /// Parent defs with removed gradients
-    effected_defs: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
+    effected_defs: RefCell<BTreeMap<AllocationID, Element<'input, 'arena>>>,
     /// All defs and their associated parent
-    all_defs: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
-    gradients_to_detach: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
+    all_defs: RefCell<BTreeMap<AllocationID, Element<'input, 'arena>>>,
+    gradients_to_detach: RefCell<BTreeMap<AllocationID, Element<'input, 'arena>>>,
     xlink_href_count: Cell<usize>,
 }
 
-- 
2.43.0


From dec356846abaf711b64adda727e36a04a1d7b475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:24 +0000
Subject: [PATCH 39/53] fix: remove empty defs in a stable order

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 36eea70..4256f85 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -100,7 +100,7 @@ struct Data<'input, 'arena> {
     opacity_zero: bool,
     non_rendered_nodes: RefCell<HashSet<HashableElement<'input, 'arena>>>,
     removed_def_ids: RefCell<HashSet<Atom<'input>>>,
-    all_defs: RefCell<HashSet<HashableElement<'input, 'arena>>>,
+    all_defs: RefCell<Vec<Element<'input, 'arena>>>,
     all_references: RefCell<HashSet<String>>,
     references_by_id: RefCell<HashMap<String, Vec<Element<'input, 'arena>>>>,
 }
@@ -183,9 +183,7 @@ impl<'input, 'arena> Data<'input, 'arena> {
     fn ref_element(&self, element: Element<'input, 'arena>) {
         match element.qual_name().unaliased() {
             ElementId::Defs => {
-                self.all_defs
-                    .borrow_mut()
-                    .insert(HashableElement::new(element));
+                self.all_defs.borrow_mut().push(element);
             }
             ElementId::Use => {
                 for attr in element.attributes() {
-- 
2.43.0


From 008f49b3f9eaa668c3a5d5ca21e0574ee6153550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:38:17 +0000
Subject: [PATCH 40/53] fix: stop reading path data after a close command
 without a new command

---
 crates/oxvg_path/src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/parser.rs b/crates/oxvg_path/src/parser.rs
index 83c8048..f34b8cf 100644
--- a/crates/oxvg_path/src/parser.rs
+++ b/crates/oxvg_path/src/parser.rs
@@ -30,6 +30,9 @@ impl<'input> Path {
 
         while !input.is_empty() {
             input.skip_whitespace();
+            if input.is_empty() && !list.is_empty() {
+                break;
+            }
             if !list.is_empty() {
                 input.skip_char(',');
                 input.skip_whitespace();
@@ -38,7 +41,12 @@ impl<'input> Path {
                 .try_parse(command::ID::parse)
                 .or_else(|_| {
                     if let Some(last) = list.last() {
-                        Ok(command::ID::Implicit(Box::new(last.id().next_implicit())))
+                        match last.id().next_implicit() {
+                            command::ID::ClosePath => {
+                                Err(oxvg_parse::error::Error::Path(PathError::NoCommand))
+                            }
+                            id => Ok(command::ID::Implicit(Box::new(id))),
+                        }
                     } else if allow_implicit_start {
                         Ok(command::ID::MoveTo)
                     } else {
-- 
2.43.0


From 7f7cb2621055b8323d7384ddae3ad80831b5dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:38:17 +0000
Subject: [PATCH 41/53] fix: keep trailing zeros of exponents when writing
 numbers

---
 crates/oxvg_path/src/paths/svg/command.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/paths/svg/command.rs b/crates/oxvg_path/src/paths/svg/command.rs
index 5ab200d..d292506 100644
--- a/crates/oxvg_path/src/paths/svg/command.rs
+++ b/crates/oxvg_path/src/paths/svg/command.rs
@@ -515,7 +515,7 @@ pub(crate) fn short_number_from_buffer<W: std::fmt::Write>(
     w: &mut W,
 ) -> std::fmt::Result {
     // Remove trailing zeros
-    if raw.contains('.') {
+    if raw.contains('.') && !raw.contains('e') {
         raw = raw.strip_suffix('0').unwrap_or(raw);
     }
     if matches!(raw, "0." | "-0.") {
-- 
2.43.0


From bda6e166589c703ecd94eb755518e5c417aead4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:38:17 +0000
Subject: [PATCH 42/53] fix: keep a number in exponent notation apart from the
 command before it

---
 crates/oxvg_path/src/paths/svg/command.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/paths/svg/command.rs b/crates/oxvg_path/src/paths/svg/command.rs
index d292506..3a489c8 100644
--- a/crates/oxvg_path/src/paths/svg/command.rs
+++ b/crates/oxvg_path/src/paths/svg/command.rs
@@ -506,7 +506,10 @@ impl Args<'_> {
     /// command.
     /// This check is only needed when `self` is for an implicit command.
     pub(crate) fn is_space_needed(&self, prev: &Self) -> bool {
-        (prev.last() % 1.0) == 0.0 || self.first() >= &1.0 || self.first() == &0.0
+        (prev.last() % 1.0) == 0.0
+            || self.first() >= &1.0
+            || self.first() == &0.0
+            || (self.first() > &0.0 && self.first() < &1e-4)
     }
 }
 
-- 
2.43.0


From c807b70cab683625247e416258de69715552ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:50:04 +0000
Subject: [PATCH 43/53] fix: keep the letter of a repeated close command

---
 crates/oxvg_path/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/parser.rs b/crates/oxvg_path/src/parser.rs
index f34b8cf..1ea8b62 100644
--- a/crates/oxvg_path/src/parser.rs
+++ b/crates/oxvg_path/src/parser.rs
@@ -58,7 +58,10 @@ impl<'input> Path {
                     remaining_content: input.take_slice(),
                 })?;
             if let Some(last) = list.last() {
-                if !command_id.is_implicit() && last.id().next_implicit() == command_id {
+                if !command_id.is_implicit()
+                    && command_id != command::ID::ClosePath
+                    && last.id().next_implicit() == command_id
+                {
                     command_id = command::ID::Implicit(Box::new(command_id));
                 }
             } else if !matches!(command_id, command::ID::MoveBy | command::ID::MoveTo) {
-- 
2.43.0


From 9f8964ab20e566eb5ac5dc0baba4fcbad02378cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:17:19 +0000
Subject: [PATCH 44/53] fix: read inserts back from the history

---
 crates/oxvg_actions/src/state.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_actions/src/state.rs b/crates/oxvg_actions/src/state.rs
index a181c5e..0f28472 100644
--- a/crates/oxvg_actions/src/state.rs
+++ b/crates/oxvg_actions/src/state.rs
@@ -374,6 +374,12 @@ impl<'input> Action<'input> {
                 };
                 Ok(Self::SkewY(y))
             }
+            Self::INSERT => {
+                let Some(name) = args.next().transpose()? else {
+                    return Err(Error::MissingStateAttribute(Self::ARG));
+                };
+                Ok(Self::Insert(name))
+            }
             Self::FORGET => Ok(Self::Forget),
             Self::SELECT => {
                 let Some(string) = args.next().transpose()? else {
-- 
2.43.0


From 338787af40091ebd1eb10f6cf979a6d410fd2bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:19:24 +0000
Subject: [PATCH 45/53] fix: keep selections made after deselecting

---
 crates/oxvg_actions/src/effects.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_actions/src/effects.rs b/crates/oxvg_actions/src/effects.rs
index b45badd..b045866 100644
--- a/crates/oxvg_actions/src/effects.rs
+++ b/crates/oxvg_actions/src/effects.rs
@@ -63,6 +63,7 @@ impl<'input> Actor<'input, '_> {
         if selections.list.is_empty() {
             state_selections.remove_attribute(&create_oxvg_attr_id(StateElement::SELECTION_IDS));
             state_selections.remove();
+            self.state.selection = None;
             return Ok(());
         }
 
-- 
2.43.0


From 5ff879eda02f287d5cd829c8db74bfd0e9358d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:19:24 +0000
Subject: [PATCH 46/53] fix: keep the state in the document after every action

---
 crates/oxvg_actions/src/actions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_actions/src/actions.rs b/crates/oxvg_actions/src/actions.rs
index 061efcc..0b750e0 100644
--- a/crates/oxvg_actions/src/actions.rs
+++ b/crates/oxvg_actions/src/actions.rs
@@ -186,6 +186,7 @@ impl<'input, 'arena> Actor<'input, 'arena> {
     ///
     /// When the associated action fails
     pub fn dispatch(&mut self, action: Action<'input>) -> Result<(), Error<'input>> {
+        let forget = matches!(action, Action::Forget);
         match action {
             Action::Attr { name, value } => self.attr(&name, &value),
             Action::Class(name) => self.class(&name),
@@ -205,7 +206,11 @@ impl<'input, 'arena> Actor<'input, 'arena> {
             Action::Select(query) => self.select(&query),
             Action::SelectMore(query) => self.select_more(&query),
             Action::Deselect => self.deselect(),
+        }?;
+        if forget {
+            return Ok(());
         }
+        self.effect_state(StateEffect::Embed)
     }
 
     pub(crate) fn get_selections_list(
-- 
2.43.0


From f8f6fb523402618cf8bdc5a97eff387ad4a37b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:19:24 +0000
Subject: [PATCH 47/53] fix: add transforms only to elements that accept them

---
 crates/oxvg_actions/src/actions/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_actions/src/actions/transform.rs b/crates/oxvg_actions/src/actions/transform.rs
index 64fed81..65bbf22 100644
--- a/crates/oxvg_actions/src/actions/transform.rs
+++ b/crates/oxvg_actions/src/actions/transform.rs
@@ -124,7 +124,7 @@ impl<'input> Actor<'input, '_> {
             let Some(element) = node.element() else {
                 continue;
             };
-            if !element.qual_name().is_permitted_attribute(&AttrId::Style) {
+            if !element.qual_name().is_permitted_attribute(&AttrId::Transform) {
                 continue;
             }
             if let Some(transform_list) = get_attribute_mut!(element, Transform)
-- 
2.43.0


From 76d8ea3e519efe6449157bf0b8d63c3e898efaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:47 +0000
Subject: [PATCH 48/53] fix: keep zero-length lines when a line cap applies
 conditionally

A line cap set by a rule that only applies under a condition was taken for
no line cap, so zero-length lines that show as dots were removed.
---
 crates/oxvg_optimiser/src/utils/style_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/utils/style_info.rs b/crates/oxvg_optimiser/src/utils/style_info.rs
index a5ae1e1..f600f6d 100644
--- a/crates/oxvg_optimiser/src/utils/style_info.rs
+++ b/crates/oxvg_optimiser/src/utils/style_info.rs
@@ -26,7 +26,7 @@ pub fn gather_optimize_options(
     });
     let maybe_has_linecap = linecap.as_ref().entry().is_some_and(|linecap| {
         linecap.is_none_or(|(linecap, mode)| {
-            mode == Mode::Static && !matches!(linecap, Inheritable::Defined(StrokeLinecap::Butt))
+            mode == Mode::Dynamic || !matches!(linecap, Inheritable::Defined(StrokeLinecap::Butt))
         })
     });
     let safe_to_close = !maybe_has_stroke
-- 
2.43.0


From 3f87b0ec8d3672b571aa9bb7613afcff1c65966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:27:12 +0000
Subject: [PATCH 49/53] fix: inherit a parent's stylesheet declarations over
 its attributes

Declarations take precedence over presentation attributes on the element
itself, but the parent's attributes were inherited instead of them.
---
 crates/oxvg_ast/src/style.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 24510c5..6745147 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -213,12 +213,6 @@ impl<'input> ComputedStyles<'input> {
         }
         let parent_styles = ComputedStyles::default().with_all(parent, styles)?;
         self.inherited.extend(parent_styles.inherited);
-        self.inherited.extend(
-            parent_styles
-                .declarations
-                .into_iter()
-                .map(|(id, value)| (id.name().to_string(), value.1)),
-        );
         self.inherited
             .extend(parent_styles.attr.into_iter().map(|attr| {
                 (
@@ -226,6 +220,12 @@ impl<'input> ComputedStyles<'input> {
                     Style::Static(Static::Attr(attr.clone())),
                 )
             }));
+        self.inherited.extend(
+            parent_styles
+                .declarations
+                .into_iter()
+                .map(|(id, value)| (id.name().to_string(), value.1)),
+        );
         let (inline, important_inline) = parent_styles
             .inline
             .map(|style| (style.declarations, style.important_declarations))
-- 
2.43.0


From 329ac16abdd3642f36272075b7ffb5558e2c9e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:27:12 +0000
Subject: [PATCH 50/53] fix: match each selector of a rule on its own

A selector that did not match stayed in front of the ones after it, so a
list of selectors only applied through its first one.
---
 crates/oxvg_ast/src/style.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 6745147..7dcba1b 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -299,10 +299,9 @@ impl<'input> ComputedStyles<'input> {
                             selector: r.selectors.clone(),
                         }
                     })?;
-                    if !select.matches_naive(&SelectElement::new(element)) {
-                        continue;
+                    if select.matches_naive(&SelectElement::new(element)) {
+                        self.add_declarations(&r.declarations, specificity + s.specificity(), mode);
                     }
-                    self.add_declarations(&r.declarations, specificity + s.specificity(), mode);
                     selector.pop();
                 }
                 Ok(())
-- 
2.43.0


From f199f4d425fdb7454634c94acbb6844a4e8106c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:27:12 +0000
Subject: [PATCH 51/53] fix: let the more specific declaration apply

The last declaration of a property was taken for its value even when an
earlier one has a more specific selector.
---
 crates/oxvg_ast/src/style.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 7dcba1b..fcae9ed 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -512,6 +512,9 @@ impl<'input> ComputedStyles<'input> {
     ) {
         for d in declarations {
             let id = d.property_id();
+            if record.get(&id).is_some_and(|(other, _)| *other > specificity) {
+                continue;
+            }
             record.insert(id, (specificity, mode.style(Static::Css(d.clone()))));
         }
     }
-- 
2.43.0


From 490336e4a36a7f838d1b9b2a5a47e14f69463c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:27:12 +0000
Subject: [PATCH 52/53] fix: let the last declaration in a style attribute
 apply

The first of several declarations of a property was taken for its value.
---
 crates/oxvg_ast/src/style.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index fcae9ed..7853b4a 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -435,6 +435,7 @@ impl<'input> ComputedStyles<'input> {
                 inline
                     .important_declarations
                     .iter()
+                    .rev()
                     .find(|css| css.property_id() == *id)
                     .cloned()
                     .map(|css| (css, Mode::Static))
@@ -456,6 +457,7 @@ impl<'input> ComputedStyles<'input> {
                     inline
                         .declarations
                         .iter()
+                        .rev()
                         .find(|css| css.property_id() == *id)
                         .cloned()
                         .map(|css| (css, Mode::Static))
-- 
2.43.0


From 4968cd91eef5da00dc388bd674ac3115dfd1435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:38:48 +0000
Subject: [PATCH 53/53] fix: take rules under @supports into account

Rules that only apply when a feature is supported were left out of the
computed style, so jobs acted as if they never applied.
---
 crates/oxvg_ast/src/style.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 7853b4a..09633d8 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -307,7 +307,8 @@ impl<'input> ComputedStyles<'input> {
                 Ok(())
             }
             rules::CssRule::Container(rules::container::ContainerRule { rules, .. })
-            | rules::CssRule::Media(rules::media::MediaRule { rules, .. }) => {
+            | rules::CssRule::Media(rules::media::MediaRule { rules, .. })
+            | rules::CssRule::Supports(rules::supports::SupportsRule { rules, .. }) => {
                 for r in &rules.0 {
                     self.with_nested_style(element, r, selector, specificity, Mode::Dynamic)?;
                 }
-- 
2.43.0

