From 9996bfbdbfae82b9597e3866627211895585d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 01/68] fix: do not change shapes that markers are drawn on

---
 src/task/conv_shapes.rs |  8 +++++++-
 src/task/paths/mod.rs   |  3 +--
 src/task/utils.rs       | 31 ++++++++++++++++++++++++++++++-
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/task/conv_shapes.rs b/src/task/conv_shapes.rs
index 6f5530f..8e91206 100644
--- a/src/task/conv_shapes.rs
+++ b/src/task/conv_shapes.rs
@@ -26,6 +26,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId, Unit};
+use task::utils::has_marker;
 
 // TODO: convert thin rect to line-to path
 // view-calendar-list.svg
@@ -37,7 +38,12 @@ pub fn convert_shapes_to_paths(doc: &Document) {
     for (id, mut node) in doc.descendants().svg() {
         match id {
             EId::Line => convert_line(&mut node),
-            EId::Rect => convert_rect(&mut node),
+            EId::Rect => {
+                // Markers are not applicable to 'rect', but they are to 'path'.
+                if !has_marker(&node) {
+                    convert_rect(&mut node);
+                }
+            }
             EId::Polyline => convert_polyline(&mut node),
             EId::Polygon => convert_polygon(&mut node),
             _ => {}
diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index 18fc59a..a9d863b 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -37,8 +37,7 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         // it will break rendering.
         //
         // TODO: do not remove first segment if node has marker
-        let has_marker = node.has_attributes(&[AId::Marker, AId::MarkerStart,
-                                               AId::MarkerMid, AId::MarkerEnd]);
+        let has_marker = ::task::utils::has_marker(&node);
 
         let mut ts = None;
         if opt.apply_transform_to_paths {
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 26deec5..86df805 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -22,7 +22,7 @@ use svgdom::{
     Node,
 };
 
-use task::short::AId;
+use task::short::{EId, AId};
 
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
@@ -79,6 +79,35 @@ fn recalc_stroke_dasharray(node: &mut Node, scale_factor: f64) {
     }
 }
 
+/// Returns the node itself and all the elements from which it inherits when rendered.
+///
+/// It includes elements that are reached through the `use` elements that refer to the node
+/// or to any of its parents.
+pub fn rendering_parents(node: &Node) -> Vec<Node> {
+    let mut list: Vec<Node> = Vec::new();
+    let mut queue = vec![node.clone()];
+
+    while let Some(start) = queue.pop() {
+        for n in start.parents_with_self() {
+            if list.contains(&n) {
+                break;
+            }
+
+            queue.extend(n.linked_nodes().filter(|l| l.is_tag_name(EId::Use)));
+            list.push(n);
+        }
+    }
+
+    list
+}
+
+/// Checks that the node has a marker, either its own or inherited.
+pub fn has_marker(node: &Node) -> bool {
+    rendering_parents(node).iter().any(|n| {
+        n.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd])
+    })
+}
+
 pub fn remove_nodes(nodes: &mut Vec<Node>) {
     for n in nodes.iter_mut() {
         n.remove();
-- 
2.43.0


From 237e694ce3b4b1ddbb3da82effc1881ce19a455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 02/68] fix: keep own attributes and transform of an element
 that replaces use

---
 src/task/resolve_use.rs | 60 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 29e17bb..8c84e30 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -20,6 +20,7 @@ use svgdom::{
     AttributeValue,
     Document,
     Length,
+    Node,
     Transform,
 };
 
@@ -53,6 +54,15 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
+                // 'svg' doesn't support 'transform' and its size depends on the 'use' size.
+                if link.is_tag_name(EId::Svg) {
+                    continue;
+                }
+
+                if !is_mergeable(&node, link) {
+                    continue;
+                }
+
                 // Element should be used only once.
                 if link.uses_count() != 1 {
                     continue;
@@ -78,11 +88,6 @@ pub fn resolve_use(doc: &Document) {
                 let x = get_value!(attrs, Length, AId::X, Length::zero());
                 let y = get_value!(attrs, Length, AId::Y, Length::zero());
 
-                // We can apply 'x' and 'y' to transform only when they have 'none' units.
-                if !(x.unit == Unit::None && y.unit == Unit::None) {
-                    continue;
-                }
-
                 let mut ts = get_value!(attrs, Transform, AId::Transform, Transform::default());
                 ts.translate(x.num, y.num);
 
@@ -92,9 +97,26 @@ pub fn resolve_use(doc: &Document) {
             }
         }
 
+        // 'width' and 'height' of the 'use' impact only 'svg' and 'symbol'.
+        node.remove_attributes(&[AId::Width, AId::Height]);
+
         // Copy attributes.
         for attr in node.attributes().iter() {
-            link.set_attribute(attr.clone());
+            let own = link.attributes().get_value(attr.name.into_ref()).cloned();
+            match (own, &attr.value) {
+                (None, _) => link.set_attribute(attr.clone()),
+                (Some(AttributeValue::Transform(ts)), &AttributeValue::Transform(use_ts)) => {
+                    let mut new_ts = use_ts;
+                    new_ts.append(&ts);
+                    link.set_attribute((AId::Transform, new_ts));
+                }
+                (Some(AttributeValue::Number(op)), &AttributeValue::Number(use_op))
+                    if attr.has_id(AId::Opacity) => {
+                    link.set_attribute((AId::Opacity, use_op * op));
+                }
+                // Own attributes have a priority over the inherited one.
+                _ => {}
+            }
         }
 
         // TODO: maybe just change the tag name
@@ -105,6 +127,32 @@ pub fn resolve_use(doc: &Document) {
     }
 }
 
+// Checks that attributes of the 'use' can be moved to the linked element.
+fn is_mergeable(node: &Node, link: &Node) -> bool {
+    let attrs = node.attributes();
+
+    // We can apply 'x' and 'y' to transform only when they have 'none' units.
+    for aid in &[AId::X, AId::Y] {
+        if let Some(&AttributeValue::Length(len)) = attrs.get_value(*aid) {
+            if len.unit != Unit::None {
+                return false;
+            }
+        }
+    }
+
+    let effects = [AId::ClipPath, AId::Mask, AId::Filter];
+
+    // Effects of the 'use' are in its own coordinate system and they are applied
+    // after the link's ones.
+    if effects.iter().any(|aid| attrs.contains(*aid)) {
+        if link.has_attributes(&[AId::Transform, AId::Opacity]) || link.has_attributes(&effects) {
+            return false;
+        }
+    }
+
+    !(attrs.contains(AId::Display) && link.has_attribute(AId::Display))
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 53a3edc54104a57c2675e6d793f0919d95f3448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 03/68] fix: do not move an element into itself when resolving
 recursive use

---
 src/task/resolve_use.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 8c84e30..3a72546 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -59,6 +59,11 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
+                // Ignore recursive 'use'.
+                if node.parents().any(|n| n == *link) {
+                    continue;
+                }
+
                 if !is_mergeable(&node, link) {
                     continue;
                 }
-- 
2.43.0


From cde77034a1395ed4e9887e533db8979ac6c2142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 04/68] fix: do not apply a transform to elements that are also
 rendered through use

---
 src/task/apply_transforms/preproc.rs | 6 ++++++
 src/task/apply_transforms/shapes.rs  | 1 +
 src/task/paths/mod.rs                | 3 ++-
 src/task/utils.rs                    | 5 +++++
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/task/apply_transforms/preproc.rs b/src/task/apply_transforms/preproc.rs
index beb3271..1426a51 100644
--- a/src/task/apply_transforms/preproc.rs
+++ b/src/task/apply_transforms/preproc.rs
@@ -22,6 +22,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils::is_used_by_use;
 use super::utils;
 use options::CleaningOptions;
 
@@ -53,6 +54,11 @@ pub fn prepare_transforms(parent: &Node, recursive: bool, opt: &CleaningOptions)
             continue;
         }
 
+        // Elements can be rendered in a different context through 'use'.
+        if is_used_by_use(&node) || node.children().any(|n| n.is_used()) {
+            continue;
+        }
+
         // Check that all children is valid.
         let is_valid = node.children().svg().all(|(id, n)| {
             let is_valid_coords = if id == EId::Path || id == EId::G {
diff --git a/src/task/apply_transforms/shapes.rs b/src/task/apply_transforms/shapes.rs
index fdfde01..71cf384 100644
--- a/src/task/apply_transforms/shapes.rs
+++ b/src/task/apply_transforms/shapes.rs
@@ -45,6 +45,7 @@ fn process<F>(node: &mut Node, func: F)
 {
     if    !utils::has_valid_transform(node)
        || !utils::is_valid_attrs(node)
+       || ::task::utils::is_used_by_use(node)
        || !utils::is_valid_coords(node) {
         return;
     }
diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index a9d863b..a58aa0b 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -45,7 +45,8 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
                 let tsl = ts_utils::get_ts(&node);
 
                 if    ts_utils::is_valid_transform(&tsl)
-                   && ts_utils::is_valid_attrs(&node) {
+                   && ts_utils::is_valid_attrs(&node)
+                   && !::task::utils::is_used_by_use(&node) {
                     ts = Some(tsl);
 
                     node.remove_attribute(AId::Transform);
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 86df805..29505f2 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -101,6 +101,11 @@ pub fn rendering_parents(node: &Node) -> Vec<Node> {
     list
 }
 
+/// Checks that the node or any of its parents is referenced by a `use` element.
+pub fn is_used_by_use(node: &Node) -> bool {
+    node.parents_with_self().any(|n| n.linked_nodes().any(|l| l.is_tag_name(EId::Use)))
+}
+
 /// Checks that the node has a marker, either its own or inherited.
 pub fn has_marker(node: &Node) -> bool {
     rendering_parents(node).iter().any(|n| {
-- 
2.43.0


From 69421bf1f625e6afb543ce0256d73525eb2b3eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 05/68] fix: keep default attributes that override ones
 inherited through use

---
 src/task/rm_default_attrs.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 1eff726..4afc898 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -22,10 +22,12 @@ use svgdom::{
     AttributeValue,
     Document,
     Length,
+    Node,
     ValueId,
 };
 
 use task::short::{EId, AId, Unit};
+use task::utils::rendering_parents;
 
 // TODO: xml:space
 
@@ -38,6 +40,13 @@ pub fn remove_default_attributes(doc: &Document) {
         for (aid, attr) in node.attributes().iter_svg() {
             if attr.is_presentation() {
                 if attr.check_is_default() {
+                    // The attribute can override the one that is inherited through 'use'.
+                    let is_needed = |n: &Node| n.is_tag_name(EId::Use) && rendering_parents(n).iter()
+                        .any(|p| p.has_attribute(aid));
+                    if attr.is_inheritable() && rendering_parents(&node).iter().skip(1).any(is_needed) {
+                        continue;
+                    }
+
                     if let Some(n) = node.parents().find(|n| n.has_attribute(aid)) {
                         if let Some(a) = n.attributes().get(aid) {
                             if !a.visible {
-- 
2.43.0


From e1b362c08a216c543fd07695ba47147dcd547ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 06/68] fix: remove stroke and fill attributes only when
 nothing inherits or overrides them

---
 src/task/rm_needless_attrs.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 184ce33..c5202b8 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -27,6 +27,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils::{has_marker, rendering_parents};
 
 // TODO: split to suboptions
 
@@ -52,8 +53,11 @@ pub fn remove_needless_attributes(doc: &Document) {
             node.remove_attribute(AId::EnableBackground);
         }
 
-        process_fill(&mut node);
-        process_stroke(&mut node);
+        // A content of the 'use' can override its attributes.
+        if id != EId::Use {
+            process_fill(&mut node);
+            process_stroke(&mut node);
+        }
         process_overflow(&mut node);
     }
 }
@@ -184,7 +188,7 @@ static STROKE_ATTRIBUTES: &'static [AId] = &[
 fn process_stroke(node: &mut Node) {
     fn is_invisible(node: &Node) -> bool {
         // Skip nodes with marker, because it doesn't count opacity and stroke-width.
-        if node.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd]) {
+        if has_marker(node) {
             return false;
         }
 
@@ -217,11 +221,11 @@ fn process_stroke(node: &mut Node) {
 
             // If the parent element defines stroke - we must mark current element
             // with 'none' stroke.
-            if let Some(n) = node.parents().find(|n| n.has_attribute(AId::Stroke)) {
-                let value = n.attributes().get_value(AId::Stroke).cloned().unwrap();
-                if value != AttributeValue::PredefValue(ValueId::None) {
-                    node.set_attribute((AId::Stroke, ValueId::None));
-                }
+            let is_inherited = rendering_parents(node).iter().skip(1)
+                .filter_map(|n| n.attributes().get_value(AId::Stroke).cloned())
+                .any(|value| value != AttributeValue::PredefValue(ValueId::None));
+            if is_inherited {
+                node.set_attribute((AId::Stroke, ValueId::None));
             }
         } else {
             let av = node.attributes().get_value(AId::Stroke).cloned();
@@ -233,7 +237,7 @@ fn process_stroke(node: &mut Node) {
 
                     // If the parent element doesn't define 'stroke' - we can remove it
                     // from the current element.
-                    if node.parents().find(|n| n.has_attribute(AId::Stroke)).is_none() {
+                    if !rendering_parents(node).iter().skip(1).any(|n| n.has_attribute(AId::Stroke)) {
                         node.remove_attribute(AId::Stroke);
                     }
                 }
-- 
2.43.0


From 96f32f8f029382ed9cc56521ac2882aef723e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 07/68] fix: do not remove elements when it makes other
 elements visible or breaks them

---
 src/task/rm_invisible_elems.rs | 40 ++++++++++++++++++++++++----------
 src/task/ungroup_groups.rs     |  2 +-
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 96c3b20..55060ca 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -51,6 +51,20 @@ pub fn remove_invisible_elements(doc: &mut Document) {
     }
 }
 
+// Children of the 'switch' element can't be removed, because only the first one will be rendered.
+// And the root element is always preserved.
+fn is_fixed(node: &Node) -> bool {
+    match node.parent() {
+        Some(parent) => parent.is_tag_name(EId::Switch) || !parent.is_svg_element(),
+        None => true,
+    }
+}
+
+// Checks that the element can be removed with all it's children.
+fn is_removable(node: &Node) -> bool {
+    !is_fixed(node) && !node.descendants().any(|n| n.is_used())
+}
+
 // Remove invalid elements from 'clipPath' and if 'clipPath' is empty or became empty
 // - remove it and all elements that became invalid or unused.
 fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
@@ -60,7 +74,7 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Remove all invalid children.
     for node in doc.descendants().filter(|n| n.is_tag_name(EId::ClipPath)) {
         for child in node.children() {
-            if !is_valid_clip_path_elem(&child) {
+            if !is_valid_clip_path_elem(&child) && is_removable(&child) {
                 nodes.push(child.clone());
             }
         }
@@ -80,10 +94,11 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Note, that all elements that uses this clip path also became invisible,
     // so we can remove them as well.
     while let Some(mut n) = clip_paths.pop() {
-        for mut link in n.linked_nodes().collect::<Vec<Node>>() {
-            link.remove();
+        let mut links = n.linked_nodes().collect::<Vec<Node>>();
+        if links.iter().all(|link| is_removable(link)) {
+            utils::remove_nodes(&mut links);
+            n.remove();
         }
-        n.remove();
     }
 }
 
@@ -118,7 +133,7 @@ fn process_paths(doc: &mut Document, is_any_removed: &mut bool) {
         }
     }
 
-    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n));
+    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n) && !is_fixed(n));
     if c != 0 {
         *is_any_removed = true;
     }
@@ -141,7 +156,9 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
     for (_, node) in parent.children().svg() {
         // If elements has attribute 'display:none' and this element is not used - we can remove it.
         let val = AttributeValue::PredefValue(ValueId::None);
-        if node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used() {
+        if    node.attributes().get_value(AId::Display) == Some(&val)
+           && !node.is_used()
+           && !is_fixed(&node) {
             // All children must be unused to.
             if !node.descendants().any(|n| n.is_used()) {
                 // TODO: ungroup used elements and remove unused
@@ -166,10 +183,11 @@ fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     // Note, that all elements that uses this filter also became invisible,
     // so we can remove them as well.
     for n in &mut nodes {
-        for mut link in n.linked_nodes().collect::<Vec<Node>>() {
-            link.remove();
+        let mut links = n.linked_nodes().collect::<Vec<Node>>();
+        if links.iter().all(|link| is_removable(link)) {
+            utils::remove_nodes(&mut links);
+            n.remove();
         }
-        n.remove();
     }
 }
 
@@ -213,7 +231,7 @@ fn process_fe_color_matrix(doc: &mut Document) {
 
 // 'use' element without 'xlink:href' attribute is pointless.
 fn process_use(doc: &mut Document, is_any_removed: &mut bool) {
-    let c = doc.drain(|n| n.is_tag_name(EId::Use) && !n.has_attribute(AId::XlinkHref));
+    let c = doc.drain(|n| n.is_tag_name(EId::Use) && !n.has_attribute(AId::XlinkHref) && !is_fixed(n));
     if c != 0 {
         *is_any_removed = true;
     }
@@ -309,7 +327,7 @@ fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
 // Remove rects with a zero size.
 fn process_rect(doc: &mut Document, is_any_removed: &mut bool) {
     fn is_invisible(node: &Node) -> bool {
-        if !node.is_tag_name(EId::Rect) {
+        if !node.is_tag_name(EId::Rect) || is_fixed(node) {
             return false;
         }
 
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index e9e03e6..6e11134 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -67,7 +67,7 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
 
     // TODO: we should not ungroup groups with non-inheritable attributes.
 
-    if !g.has_children() && !g.has_attribute(AId::Filter) {
+    if !g.has_children() && !g.has_attribute(AId::Filter) && !parent.is_tag_name(EId::Switch) {
         // Empty group without filter attribute.
         // Checkout 'filters-tile-01-b.svg' in 'W3C_SVG_11_TestSuite' for details.
         return true;
-- 
2.43.0


From 2ec5cd8022cfaced929431285b764908a394392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 08/68] fix: keep feColorMatrix filter with an input other than
 the source graphic

---
 src/task/rm_invisible_elems.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 55060ca..ea04e5c 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -210,6 +210,13 @@ fn process_fe_color_matrix(doc: &mut Document) {
 
         let attrs = child.attributes();
 
+        // Only the source graphic remains the same.
+        match attrs.get_value(AId::In) {
+            None => {}
+            Some(&AttributeValue::String(ref s)) if s == "SourceGraphic" => {}
+            Some(_) => return false,
+        }
+
         // It's a very simple implementation since we do not parse matrix,
         // but it's enough to remove default feColorMatrix generated by Illustrator.
         if let Some(&AttributeValue::String(ref t)) = attrs.get_value(AId::Type) {
-- 
2.43.0


From e811e9015d176f74824637ead7721e5ef5f70cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 09/68] fix: keep opacity and linked gradients when a single
 stop gradient is replaced

---
 src/task/rm_invisible_elems.rs | 44 +++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index ea04e5c..8cf3c88 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -254,7 +254,7 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
                       .filter(|n| !n.has_children() && !n.has_attribute(AId::XlinkHref));
 
         for n in iter {
-            for mut link in n.linked_nodes().collect::<Vec<Node>>() {
+            for mut link in n.linked_nodes().filter(|n| !n.is_gradient()).collect::<Vec<Node>>() {
                 while let Some(aid) = find_link_attribute(&link, &n) {
                     link.set_attribute((aid, ValueId::None));
                 }
@@ -271,7 +271,8 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
         // defined for that gradient stop.'
         let iter = doc.descendants()
                       .filter(|n| n.is_gradient())
-                      .filter(|n| n.children().count() == 1 && !n.has_attribute(AId::XlinkHref));
+                      .filter(|n| n.children().count() == 1 && !n.has_attribute(AId::XlinkHref))
+                      .filter(|n| n.first_child().unwrap().is_tag_name(EId::Stop));
 
         for n in iter {
             let stop = n.first_child().unwrap();
@@ -288,21 +289,38 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
 
             // Replace links with colors, but not in gradients,
             // because it will lead to 'xlink:href=#ffffff', which is wrong.
-            for mut link in n.linked_nodes()
-                             .filter(|n| !n.is_gradient())
-                             .collect::<Vec<Node>>() {
+            let mut is_needed = false;
+            for mut link in n.linked_nodes().collect::<Vec<Node>>() {
+                if link.is_gradient() {
+                    is_needed = is_needed || link.is_used();
+                    continue;
+                }
+
+                // Opacity can be applied only to the element itself.
+                if opacity.fuzzy_ne(&1.0) {
+                    if    link.has_children()
+                       || link.is_tag_name(EId::Use)
+                       || utils::is_used_by_use(&link) {
+                        is_needed = true;
+                        continue;
+                    }
+                }
+
                 while let Some(aid) = find_link_attribute(&link, &n) {
                     link.set_attribute((aid, color));
                     if opacity.fuzzy_ne(&1.0) {
                         match aid {
-                            AId::Fill => link.set_attribute((AId::FillOpacity, opacity)),
-                            AId::Stroke => link.set_attribute((AId::StrokeOpacity, opacity)),
+                            AId::Fill => multiply_opacity(&mut link, AId::FillOpacity, opacity),
+                            AId::Stroke => multiply_opacity(&mut link, AId::StrokeOpacity, opacity),
                             _ => {}
                         }
                     }
                 }
             }
-            nodes.push(n.clone());
+
+            if !is_needed {
+                nodes.push(n.clone());
+            }
         }
     }
 
@@ -313,6 +331,16 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
     utils::remove_nodes(&mut nodes);
 }
 
+fn multiply_opacity(node: &mut Node, aid: AId, opacity: f64) {
+    let value = node.parents_with_self().find(|n| n.has_attribute(aid))
+                    .and_then(|n| n.attributes().get_value(aid).cloned());
+
+    match value {
+        Some(AttributeValue::Number(n)) => node.set_attribute((aid, n * opacity)),
+        _ => node.set_attribute((aid, opacity)),
+    }
+}
+
 fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
     let attrs = node.attributes();
 
-- 
2.43.0


From 314059e6d5cf0853deb4629667543f0b717bb61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 10/68] fix: keep stroke-width of an element with markers

---
 src/task/rm_needless_attrs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index c5202b8..d6e3a39 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -230,7 +230,8 @@ fn process_stroke(node: &mut Node) {
         } else {
             let av = node.attributes().get_value(AId::Stroke).cloned();
             if let Some(av) = av {
-                if av == AttributeValue::PredefValue(ValueId::None) {
+                // Note that markers still depend on 'stroke-width'.
+                if av == AttributeValue::PredefValue(ValueId::None) && !has_marker(node) {
                     // Remove all stroke-based attributes, except 'stroke' itself,
                     // if the stroke is 'none'.
                     node.remove_attributes(STROKE_ATTRIBUTES);
-- 
2.43.0


From 957b0c5e92b3bdad15d13c26a51aba28874a8715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 11/68] fix: resolve attributes of the gradient stops only

---
 src/task/resolve_gradients.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index e0bc491..a6ee862 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -114,7 +114,8 @@ pub fn resolve_radial_gradient_attributes(doc: &Document) {
 /// which is not a first child of a gradient, didn't have an `offset` attribute.
 pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
     for gradient in doc.descendants().filter(|n| n.is_gradient()) {
-        for (idx, mut node) in gradient.children().enumerate() {
+        let stops = gradient.children().filter(|n| n.is_tag_name(EId::Stop));
+        for (idx, mut node) in stops.enumerate() {
             let av = node.attributes().get_value(AId::Offset).cloned();
             if let Some(AttributeValue::Length(l)) = av {
                 if l.unit == LengthUnit::Percent {
-- 
2.43.0


From 7f5bec36d6250daec398dd348a84fa081d18797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 12/68] fix: resolve inherit against the parent, and keep it
 for elements rendered through use

---
 src/task/resolve_inherit.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index aa13dae..09e80ed 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -18,12 +18,15 @@
 
 use svgdom::{
     AttributeId,
+    AttributeType,
     AttributeValue,
     Document,
     Node,
     ValueId,
 };
 
+use task::utils::is_used_by_use;
+
 use error::{
     ErrorKind,
     Result,
@@ -58,6 +61,19 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
 
         for id in &vec_inherit {
             resolve_impl(&mut node, *id, *id)?;
+
+            if is_inheritable(*id) {
+                // Through 'use' the value will be inherited from the other place.
+                if is_used_by_use(&node) {
+                    node.remove_attribute(*id);
+                }
+            } else if !node.parent().map_or(false, |p| p.has_attribute(*id)) {
+                // A parent has an initial value.
+                match AttributeValue::default_value(*id) {
+                    Some(value) => node.set_attribute((*id, value)),
+                    None => node.remove_attribute(*id),
+                }
+            }
         }
 
         for id in &vec_curr_color {
@@ -73,6 +89,11 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
     Ok(())
 }
 
+fn is_inheritable(id: AttributeId) -> bool {
+    // svgdom follows CSS2, where 'visibility' is not inheritable.
+    id.is_inheritable() || id == AttributeId::Visibility || !id.is_presentation()
+}
+
 fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeId) -> Result<()> {
     if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
         let av = n.attributes().get_value(parent_attr).cloned();
-- 
2.43.0


From 3f49720b7fc9746498036a8ce2609ccc121e0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 13/68] fix: keep path segments that are needed by the
 following smooth curve

---
 src/task/paths/mod.rs       |  8 ++++++++
 src/task/paths/rm_unused.rs | 38 ++++++++++++++++++++++++++++++++-----
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index a58aa0b..79a818f 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -134,6 +134,14 @@ mod utils {
 
         unreachable!("first segment must be MoveTo");
     }
+
+    // A segment after the selected one reflects it's control point.
+    pub fn is_before_smooth(path: &Path, i: usize) -> bool {
+        match path.d.get(i + 1).map(|seg| seg.cmd()) {
+            Some(Command::SmoothCurveTo) | Some(Command::SmoothQuadratic) => true,
+            _ => false,
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/src/task/paths/rm_unused.rs b/src/task/paths/rm_unused.rs
index 581f6d4..7d4003d 100644
--- a/src/task/paths/rm_unused.rs
+++ b/src/task/paths/rm_unused.rs
@@ -117,11 +117,37 @@ fn remove_mz(path: &mut Path) -> bool {
     })
 }
 
-// If current segment is the same as previous - remove it.
+// If current segment is the same as previous and doesn't draw anything new - remove it.
 fn remove_equal(path: &mut Path) -> bool {
-    drain_by_pair(path, DrainMode::Single, |prev, curr| {
-        prev.fuzzy_eq(curr)
-    })
+    let old_len = path.d.len();
+
+    let mut i = 1;
+    while i < path.d.len() {
+        let prev = path.d[i - 1];
+        let curr = path.d[i];
+
+        let is_redundant = match curr.cmd() {
+            // A second curve is the same as a first one only when they are loops.
+            Command::CurveTo | Command::Quadratic => {
+                let (x, y) = utils::resolve_xy(path, i - 1);
+                i > 1 && {
+                    let (px, py) = utils::resolve_xy(path, i - 2);
+                    x.fuzzy_eq(&px) && y.fuzzy_eq(&py)
+                }
+            }
+            // The first control point of a second curve is different.
+            Command::SmoothCurveTo | Command::SmoothQuadratic => false,
+            _ => !utils::is_before_smooth(path, i),
+        };
+
+        if is_redundant && prev.fuzzy_eq(&curr) {
+            path.d.remove(i - 1);
+        } else {
+            i += 1;
+        }
+    }
+
+    old_len != path.d.len()
 }
 
 // If segment moved to the same position as current - remove it.
@@ -133,7 +159,9 @@ fn remove_zero_lenght(path: &mut Path, is_changed: &mut bool) {
 
         let is_equal = match curr.cmd() {
             Command::LineTo => {
-                curr.x().unwrap().fuzzy_eq(&px) && curr.y().unwrap().fuzzy_eq(&py)
+                   !utils::is_before_smooth(path, i)
+                && curr.x().unwrap().fuzzy_eq(&px)
+                && curr.y().unwrap().fuzzy_eq(&py)
             }
             // Curves can't be removed.
             _ => false,
-- 
2.43.0


From 864591f5aecfd3a3e268f2f37c70f24ca21654db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 14/68] fix: convert a curve into a line only when it does not
 leave this line

---
 src/task/paths/conv_segments.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index 3644843..9d13e7f 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -138,30 +138,33 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
     while i < path.d.len() {
         let prev_seg = path.d[i - 1];
         let (prev_x, prev_y) = utils::resolve_xy(path, i - 1);
+        let is_before_smooth = utils::is_before_smooth(path, i);
         let curr_seg = &mut path.d[i];
         match *curr_seg.data() {
             SegmentData::CurveTo { x1, y1, x2, y2, x, y } => {
                 let is_vlineto = || {
                     // If prev_x, x1, x2 and x are equal than this CurveTo is VerticalLineTo.
-                    // y1 must be equal or greater than prev_y.
-                    // y2 must be equal or less than y.
+                    // y1 and y2 must be between prev_y and y.
 
                        prev_x.fuzzy_eq(&x)
                     && x1.fuzzy_eq(&x2)
                     && x1.fuzzy_eq(&x)
                     && y1.fuzzy_cmp(&prev_y) != Ordering::Less
+                    && y1.fuzzy_cmp(&y) != Ordering::Greater
+                    && y2.fuzzy_cmp(&prev_y) != Ordering::Less
                     && y2.fuzzy_cmp(&y) != Ordering::Greater
                 };
 
                 let is_hlineto = || {
                     // If prev_y, y1, y2 and y are equal - this CurveTo is HorizontalLineTo.
-                    // x1 must be equal or greater than prev_x.
-                    // x2 must be equal or less than x.
+                    // x1 and x2 must be between prev_x and x.
 
                        prev_y.fuzzy_eq(&y)
                     && y1.fuzzy_eq(&y2)
                     && y1.fuzzy_eq(&y)
                     && x1.fuzzy_cmp(&prev_x) != Ordering::Less
+                    && x1.fuzzy_cmp(&x) != Ordering::Greater
+                    && x2.fuzzy_cmp(&prev_x) != Ordering::Less
                     && x2.fuzzy_cmp(&x) != Ordering::Greater
                 };
 
@@ -170,13 +173,14 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
                     && is_point_on_line(prev_x, prev_y, x, y, x2, y2)
                 };
 
-                if is_vlineto() {
+                // The next segment depends on a control point of the current one.
+                if !is_before_smooth && is_vlineto() {
                     *curr_seg = Segment::new_line_to(prev_x, y);
                     *is_changed = true;
-                } else if is_hlineto() {
+                } else if !is_before_smooth && is_hlineto() {
                     *curr_seg = Segment::new_line_to(x, prev_y);
                     *is_changed = true;
-                } else if is_lineto() {
+                } else if !is_before_smooth && is_lineto() {
                     *curr_seg = Segment::new_line_to(x, y);
                     *is_changed = true;
                 } else {
@@ -235,7 +239,7 @@ fn is_point_on_line(x1: f64, y1: f64, x2: f64, y2: f64, x: f64, y: f64) -> bool
 
         if y.fuzzy_eq(&c) {
             if    ( x.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x2) == Ordering::Less)
-               || (x2.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x1) == Ordering::Less) {
+               || (x.fuzzy_cmp(&x2) == Ordering::Greater && x.fuzzy_cmp(&x1) == Ordering::Less) {
                 return true;
             }
         }
-- 
2.43.0


From 2cd0f09a8bb10ed986ddf14bdc38f8b694555d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 15/68] fix: keep default visibility that overrides one
 inherited through use

---
 src/task/rm_default_attrs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 4afc898..ac14959 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -43,7 +43,7 @@ pub fn remove_default_attributes(doc: &Document) {
                     // The attribute can override the one that is inherited through 'use'.
                     let is_needed = |n: &Node| n.is_tag_name(EId::Use) && rendering_parents(n).iter()
                         .any(|p| p.has_attribute(aid));
-                    if attr.is_inheritable() && rendering_parents(&node).iter().skip(1).any(is_needed) {
+                    if rendering_parents(&node).iter().skip(1).any(is_needed) {
                         continue;
                     }
 
-- 
2.43.0


From c4c76808b748aaaa809ddac8fea8a2e13e61f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 16/68] fix: keep display:none of an ungrouped element

---
 src/task/ungroup_groups.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 6e11134..0f59205 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -20,6 +20,7 @@ use svgdom::{
     AttributeValue,
     Document,
     Node,
+    ValueId,
 };
 
 use task::short::{EId, AId};
@@ -174,7 +175,16 @@ fn ungroup_group(g: &mut Node) {
             if aid == AId::Display {
                 // Display attribute has a priority during rendering, so we must
                 // copy it even if a child has it already.
-                child.set_attribute(attr.clone());
+                // Unless a child is already not displayed.
+                let is_none = match child.attributes().get_value(aid) {
+                    Some(&AttributeValue::PredefValue(id)) => id == ValueId::None,
+                    _ => false,
+                };
+
+                if !is_none {
+                    child.set_attribute(attr.clone());
+                }
+
                 continue;
             }
 
-- 
2.43.0


From e8876ffb382087e9300717261389ecbd4f9d09fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 17/68] fix: do not move a transform of a group to a nested svg
 element

---
 src/task/ungroup_groups.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 0f59205..977607f 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -93,6 +93,11 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    // A nested 'svg' element doesn't support the 'transform' attribute.
+    if g.has_attribute(AId::Transform) && g.children().any(|n| n.is_tag_name(EId::Svg)) {
+        return false;
+    }
+
     if g.children().count() == 1 {
         let child = g.first_child().unwrap();
         // TODO: why child shouldn't be used?
-- 
2.43.0


From b9876188dfc36f8faf22539a005ba8016efe2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 18/68] fix: do not move a transform of a group to used
 elements

---
 src/task/ungroup_groups.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 977607f..64ec2c9 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -122,12 +122,12 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
 
     // If group has only a transform attribute
     // and if all children elements contain transform
-    // and none of the children is 'use'.
+    // and none of the children is 'use' or used.
     //
     // example: oxygen/edit-find-mail.svg
     if g.has_attribute(AId::Transform) && g.attributes().len() == 1 {
         let is_ok = g.children().all(|n| {
-            n.has_attribute(AId::Transform) && !n.is_tag_name(EId::Use)
+            n.has_attribute(AId::Transform) && !n.is_tag_name(EId::Use) && !n.is_used()
         });
 
         if is_ok {
-- 
2.43.0


From e00617210c5a94951ade6e0183ec15c887493e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 19/68] fix: a symbol inherits attributes from use and not from
 its parents

---
 src/task/group_defs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 48a1e7f..9ddb8a1 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -103,8 +103,7 @@ fn resolve_attrs(node: &Node) {
           EId::ClipPath
         | EId::Marker
         | EId::Mask
-        | EId::Pattern
-        | EId::Symbol => {
+        | EId::Pattern => {
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
                 let attrs = p.attributes();
-- 
2.43.0


From 75be9fbeacedd5d614bf071b2e6b7d821082185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 20/68] fix: do not move a transform outside the viewport of
 the svg element

---
 src/task/group_by_style.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index e584f43..da647c9 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -470,7 +470,15 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
     if table.d[0].count_flags() == nodes_count {
         // If parent node is 'g' - use it,
         // it not - create new one.
-        let is_valid_parent = parent.is_tag_name(EId::Svg) || parent.is_tag_name(EId::G);
+        // A transform of the 'svg' is applied outside its viewport.
+        let is_valid_parent = if parent.is_tag_name(EId::Svg) {
+            let is_root = parent.document().svg_element().as_ref() == Some(parent);
+            let has_ts = table.d[0].attributes.iter().any(|a| a.has_id(AId::Transform));
+
+            !has_ts || (is_root && !parent.has_attribute(AId::ViewBox))
+        } else {
+            parent.is_tag_name(EId::G)
+        };
         let mut g_node = if is_valid_parent && is_all_children {
             parent.clone()
         } else {
-- 
2.43.0


From 48749587b6d19be5b6d1a957e4834279d11a4782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 21/68] fix: keep an empty used group, because use can have a
 filter

---
 src/task/ungroup_groups.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 64ec2c9..e25e895 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -68,8 +68,8 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
 
     // TODO: we should not ungroup groups with non-inheritable attributes.
 
-    if !g.has_children() && !g.has_attribute(AId::Filter) && !parent.is_tag_name(EId::Switch) {
-        // Empty group without filter attribute.
+    if !g.has_children() && !g.has_attribute(AId::Filter) && !parent.is_tag_name(EId::Switch) && !g.is_used() {
+        // Empty group without filter attribute, which also can be set to a 'use'.
         // Checkout 'filters-tile-01-b.svg' in 'W3C_SVG_11_TestSuite' for details.
         return true;
     }
-- 
2.43.0


From 181c5b4e4441aca682a8075a1f8870ccd2aa7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 22/68] fix: keep inherited visibility and used children of the
 elements moved to defs

---
 src/task/group_defs.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 9ddb8a1..b6ad2b9 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -23,7 +23,8 @@ use svgdom::{
     Node,
 };
 
-use task::short::EId;
+use task::short::{EId, AId};
+use task::utils::is_used_by_use;
 
 pub fn group_defs(doc: &mut Document) {
     // doc must contain 'svg' node, so we can safely unwrap.
@@ -104,10 +105,22 @@ fn resolve_attrs(node: &Node) {
         | EId::Marker
         | EId::Mask
         | EId::Pattern => {
+            // Used children must not be changed, so they will inherit from the node itself.
+            let is_used = node.children().any(|n| is_used_by_use(&n));
+
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
                 let attrs = p.attributes();
-                for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_inheritable()) {
+                for (aid, attr) in attrs.iter_svg().filter(|&(id, a)| a.is_inheritable() || id == AId::Visibility) {
+                    if is_used {
+                        let mut node = node.clone();
+                        if p != node && !node.has_attribute(aid) {
+                            node.set_attribute(attr.clone());
+                        }
+
+                        continue;
+                    }
+
                     for mut child in node.children() {
                         if child.has_attribute(aid) {
                             continue;
-- 
2.43.0


From beb4656b39487eba95e6459d885bcc92d62ddf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 23/68] fix: do not close a subpath that ends with a zero
 length line

---
 src/task/paths/rm_unused.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/task/paths/rm_unused.rs b/src/task/paths/rm_unused.rs
index 7d4003d..2fb36d7 100644
--- a/src/task/paths/rm_unused.rs
+++ b/src/task/paths/rm_unused.rs
@@ -214,7 +214,7 @@ fn process_lz(path: &mut Path, is_changed: &mut bool) {
             let prev = path.d[prev_i];
             if is_line_based(prev.cmd()) {
                 let (x, y) = utils::resolve_xy(path, prev_i);
-                if mx.fuzzy_eq(&x) && my.fuzzy_eq(&y) {
+                if mx.fuzzy_eq(&x) && my.fuzzy_eq(&y) && !is_zero_length_tail(path, prev_i) {
                     // Replace line-based segment with ClosePath.
                     path.d[prev_i] = Segment::new_close_path();
                     *is_changed = true;
@@ -233,6 +233,17 @@ fn process_lz(path: &mut Path, is_changed: &mut bool) {
     }
 }
 
+// Checks that a zero length line follows a drawn segment.
+//
+// Such line doesn't close a subpath.
+fn is_zero_length_tail(path: &Path, i: usize) -> bool {
+    let prev_cmd = path.d[i - 1].cmd();
+    let (px, py) = utils::resolve_xy(path, i - 1);
+    let (x, y) = utils::resolve_xy(path, i);
+
+    prev_cmd != Command::MoveTo && px.fuzzy_eq(&x) && py.fuzzy_eq(&y)
+}
+
 fn is_line_based(seg: Command) -> bool
 {
     match seg {
-- 
2.43.0


From 0d83a0b5683c6c8b02a700cf3facdd2b6296597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 24/68] fix: keep a gradient without stops when other gradients
 are linked to it

---
 src/task/rm_invisible_elems.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 8cf3c88..578621c 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -254,12 +254,22 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
                       .filter(|n| !n.has_children() && !n.has_attribute(AId::XlinkHref));
 
         for n in iter {
-            for mut link in n.linked_nodes().filter(|n| !n.is_gradient()).collect::<Vec<Node>>() {
+            let mut is_needed = false;
+            for mut link in n.linked_nodes().collect::<Vec<Node>>() {
+                // Other gradients can still inherit attributes of this one.
+                if link.is_gradient() {
+                    is_needed = true;
+                    continue;
+                }
+
                 while let Some(aid) = find_link_attribute(&link, &n) {
                     link.set_attribute((aid, ValueId::None));
                 }
             }
-            nodes.push(n.clone());
+
+            if !is_needed {
+                nodes.push(n.clone());
+            }
         }
     }
 
-- 
2.43.0


From 064ca8d0f3a3ba61a8a6403cf48d67ae18661ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 25/68] fix: keep text attributes that are inherited by text
 rendered through use and by em units

---
 src/task/rm_text_attrs.rs | 57 ++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index 9a439f9..27e7e4d 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -95,7 +95,7 @@ fn _remove_text_attributes(parent: &Node) -> bool {
 
         if node.has_children() {
             // Go deeper.
-            let can_rm = _remove_text_attributes(&node);
+            let can_rm = _remove_text_attributes(&node) && !has_em_ex_attributes(&node);
             if can_rm {
                 if !node.is_tag_name(EId::FontFace) {
                     node.remove_attributes(TEXT_ATTRIBUTES);
@@ -109,11 +109,10 @@ fn _remove_text_attributes(parent: &Node) -> bool {
             // Only this parameters affect parent elements.
             let _no_td = !(   node.descendants().any(|n| n.node_type() == NodeType::Text)
                            || node.is_tag_name(EId::Tref)
-                           || has_em_ex_attributes(&node));
+                           || has_em_ex_attributes(&node)
+                           || is_linked_text(&node));
 
-            if    _no_td
-               && !node.is_tag_name(EId::FontFace)
-               && !is_linked_text(&node) {
+            if _no_td && !node.is_tag_name(EId::FontFace) {
                 node.remove_attributes(TEXT_ATTRIBUTES);
             }
 
@@ -134,28 +133,60 @@ fn has_em_ex_attributes(node: &Node) -> bool {
 
     let attrs = node.attributes();
     for attr in attrs.iter() {
-        if let AttributeValue::Length(ref len) = attr.value {
-            match len.unit {
-                Unit::Ex | Unit::Em => return true,
-                _ => {}
+        match attr.value {
+            AttributeValue::Length(ref len) => {
+                if is_em_ex(len.unit) {
+                    return true;
+                }
+            }
+            AttributeValue::LengthList(ref list) => {
+                if list.iter().any(|len| is_em_ex(len.unit)) {
+                    return true;
+                }
             }
+            _ => {}
         }
     }
 
     false
 }
 
+fn is_em_ex(unit: Unit) -> bool {
+    match unit {
+        Unit::Ex | Unit::Em => true,
+        _ => false,
+    }
+}
+
+// Checks that the 'use' element renders, directly or through other 'use' elements,
+// something that depends on text attributes.
 fn is_linked_text(node: &Node) -> bool {
-    if node.is_tag_name(EId::Use) {
+    let mut checked: Vec<Node> = Vec::new();
+    let mut queue = vec![node.clone()];
+
+    while let Some(node) = queue.pop() {
+        if !node.is_tag_name(EId::Use) || checked.contains(&node) {
+            continue;
+        }
+
+        checked.push(node.clone());
+
         // We use 'attributes()' method instead of 'attribute()',
         // because 'xlink:href' can contain base64 data, which will be expensive to copy.
         let attrs = node.attributes();
-        if let Some(value) = attrs.get_value(AId::XlinkHref) {
-            if let AttributeValue::Link(ref link) = *value {
-                return link.descendants().any(|n| n.node_type() == NodeType::Text);
+        if let Some(&AttributeValue::Link(ref link)) = attrs.get_value(AId::XlinkHref) {
+            for n in link.descendants() {
+                if    n.node_type() == NodeType::Text
+                   || n.is_tag_name(EId::Tref)
+                   || (n.is_svg_element() && has_em_ex_attributes(&n)) {
+                    return true;
+                }
+
+                queue.push(n.clone());
             }
         }
     }
+
     false
 }
 
-- 
2.43.0


From 4e0980c3df5a967b2d88160a4a23ac9a8bea02eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 26/68] fix: do not move font-relative values to elements with
 an other font size

---
 src/task/group_by_style.rs  | 10 ++++++++++
 src/task/resolve_inherit.rs |  6 ++++--
 src/task/ungroup_groups.rs  | 23 ++++++++++++++++++++++-
 src/task/utils.rs           | 33 ++++++++++++++++++++++++++++++++-
 4 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index da647c9..21a83ce 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -31,6 +31,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils::is_font_relative;
 
 // TODO: optimize, since Table is basically Vec<(Vec,Vec)>, which is not very efficient
 struct Table {
@@ -433,6 +434,15 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
                 continue;
             }
 
+            // A font-relative value depends on the element it is set on.
+            if is_font_relative(attr) {
+                continue;
+            }
+
+            if aid == AId::FontSize && parent.attributes().iter().any(|a| is_font_relative(a)) {
+                continue;
+            }
+
             // Append only unique attributes.
             if !table.d.iter().any(|x| x.attributes[0] == *attr) {
                 table.append(attr, nodes_count);
diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index 09e80ed..f13c050 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -25,7 +25,7 @@ use svgdom::{
     ValueId,
 };
 
-use task::utils::is_used_by_use;
+use task::utils::{is_font_relative, is_used_by_use};
 
 use error::{
     ErrorKind,
@@ -64,7 +64,9 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
 
             if is_inheritable(*id) {
                 // Through 'use' the value will be inherited from the other place.
-                if is_used_by_use(&node) {
+                // And a font-relative value will be calculated again.
+                let is_relative = node.attributes().get(*id).map_or(false, |a| is_font_relative(a));
+                if is_relative || is_used_by_use(&node) {
                     node.remove_attribute(*id);
                 }
             } else if !node.parent().map_or(false, |p| p.has_attribute(*id)) {
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index e25e895..340e369 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -25,6 +25,7 @@ use svgdom::{
 
 use task::short::{EId, AId};
 use task::apply_transforms;
+use task::utils::is_font_relative;
 use options::CleaningOptions;
 
 pub fn ungroup_groups(doc: &Document, opt: &CleaningOptions) {
@@ -103,7 +104,7 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         // TODO: why child shouldn't be used?
         if !child.is_used() {
             // Group with only one child and neither group or child is used.
-            return true;
+            return !has_font_conflict(g, &child);
         }
     }
 
@@ -138,6 +139,26 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     false
 }
 
+// Checks that font-relative values of the group or of the child will be changed
+// when they are set on the same element.
+fn has_font_conflict(g: &Node, child: &Node) -> bool {
+    let g_attrs = g.attributes();
+    let child_attrs = child.attributes();
+
+    // The child value depends on the group one.
+    for &aid in &[AId::FontSize, AId::FontWeight] {
+        if let Some(attr) = child_attrs.get(aid) {
+            if g_attrs.contains(aid) && is_font_relative(attr) {
+                return true;
+            }
+        }
+    }
+
+    // The group value depends on the group font size, but the child has it's own.
+    child_attrs.contains(AId::FontSize)
+        && g_attrs.iter_svg().any(|(aid, attr)| is_font_relative(attr) && !child_attrs.contains(aid))
+}
+
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
         for mut child in g.children() {
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 29505f2..21e8ae3 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -17,12 +17,14 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeValue,
     FuzzyEq,
     Node,
+    ValueId,
 };
 
-use task::short::{EId, AId};
+use task::short::{EId, AId, Unit};
 
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
@@ -106,6 +108,35 @@ pub fn is_used_by_use(node: &Node) -> bool {
     node.parents_with_self().any(|n| n.linked_nodes().any(|l| l.is_tag_name(EId::Use)))
 }
 
+/// Checks that the value depends on properties of the element it is set on or of its parent.
+///
+/// Such a value has a different meaning on an other element.
+pub fn is_font_relative(attr: &Attribute) -> bool {
+    fn is_relative_unit(unit: Unit) -> bool {
+        match unit {
+            Unit::Em | Unit::Ex => true,
+            _ => false,
+        }
+    }
+
+    match attr.value {
+        AttributeValue::Length(len) => {
+               is_relative_unit(len.unit)
+            || (len.unit == Unit::Percent && attr.has_id(AId::FontSize))
+        }
+        AttributeValue::LengthList(ref list) => {
+            list.iter().any(|len| is_relative_unit(len.unit))
+        }
+        AttributeValue::PredefValue(id) => {
+            match id {
+                ValueId::Larger | ValueId::Smaller | ValueId::Bolder | ValueId::Lighter => true,
+                _ => false,
+            }
+        }
+        _ => false,
+    }
+}
+
 /// Checks that the node has a marker, either its own or inherited.
 pub fn has_marker(node: &Node) -> bool {
     rendering_parents(node).iter().any(|n| {
-- 
2.43.0


From 41539016de04460bf6d7812e0aaa59e1e7804108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 27/68] fix: keep unresolved classes with --no-defaults

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index a0d445f..6415bd3 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -431,7 +431,7 @@ pub fn gen_parse_options(args: &ArgMatches) -> ParseOptions {
         parse_unknown_elements: true,
         parse_unknown_attributes: true,
         parse_px_unit: false,
-        skip_unresolved_classes: true,
+        skip_unresolved_classes: false,
         skip_invalid_attributes: false,
         skip_invalid_css: false,
         skip_paint_fallback: false,
-- 
2.43.0


From 0465885e3f95c638412702a2368394eb941edab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 28/68] fix: do not truncate the input file with
 --copy-on-error when it is also the output

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8f0c098..f1d21e0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -105,8 +105,13 @@ fn main() {
         {
             let inf = in_file.unwrap();
             let outf = out_file.unwrap();
-            // Copy a file only when paths are different.
-            if inf != outf {
+            // Copy a file only when paths are different,
+            // otherwise the file will be truncated.
+            let is_same = match (fs::canonicalize(inf), fs::canonicalize(outf)) {
+                (Ok(p1), Ok(p2)) => p1 == p2,
+                _ => inf == outf,
+            };
+            if !is_same {
                 try_msg!(fs::copy(inf, outf));
             }
         }
-- 
2.43.0


From 40da03d795236864b7e6a94961088cead1776a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 29/68] fix: process --copy-on-error when the input file is not
 a valid text

---
 src/main.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f1d21e0..8adb7d9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,12 +87,6 @@ fn main() {
         }
     }
 
-    // Load data.
-    let raw = match input {
-        InputFrom::Stdin => try_msg!(cleaner::load_stdin()),
-        InputFrom::File(path) => try_msg!(cleaner::load_file(path)),
-    };
-
     let on_err = || {
         // Copy original file to destination
         // only when both files are specified.
@@ -119,6 +113,21 @@ fn main() {
         std::process::exit(0);
     };
 
+    // Load data.
+    let raw = match input {
+        InputFrom::Stdin => try_msg!(cleaner::load_stdin()),
+        InputFrom::File(path) => {
+            match cleaner::load_file(path) {
+                Ok(data) => data,
+                Err(e) => {
+                    writeln!(stderr(), "Error: {}.", e).unwrap();
+                    on_err();
+                    return;
+                }
+            }
+        }
+    };
+
     let input_size = raw.len();
     let mut buf = raw.into_bytes();
     let mut prev_size = 0;
-- 
2.43.0


From c59252829f1afbad10244e6d7b52b272c1f59ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 30/68] fix: refuse a loop of gradients instead of hanging

---
 src/task/preclean_checks.rs | 38 +++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/task/preclean_checks.rs b/src/task/preclean_checks.rs
index fb5834a..e78ca40 100644
--- a/src/task/preclean_checks.rs
+++ b/src/task/preclean_checks.rs
@@ -17,9 +17,12 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    self,
     AttributeType,
     AttributeValue,
     Document,
+    ElementType,
+    Node,
 };
 
 use task::short::{EId, AId};
@@ -33,6 +36,7 @@ pub fn preclean_checks(doc: &Document) -> Result<()> {
     check_for_script_attributes(doc)?;
     check_for_conditional_attributes(doc)?;
     check_for_external_xlink(doc)?;
+    check_for_recursive_gradients(doc)?;
 
     Ok(())
 }
@@ -118,6 +122,40 @@ fn check_for_external_xlink(doc: &Document) -> Result<()> {
     Ok(())
 }
 
+// The parser detects only elements that are linked to themselves or to each other.
+// A longer loop can't be resolved too.
+fn check_for_recursive_gradients(doc: &Document) -> Result<()> {
+    fn linked_gradients(node: &Node) -> Vec<Node> {
+        node.attributes().iter().filter_map(|attr| {
+            match attr.value {
+                AttributeValue::Link(ref link) | AttributeValue::FuncLink(ref link)
+                    if link.is_gradient() => Some(link.clone()),
+                _ => None,
+            }
+        }).collect()
+    }
+
+    for node in doc.descendants().filter(|n| n.is_gradient()) {
+        let mut queue = linked_gradients(&node);
+        let mut i = 0;
+        while i < queue.len() {
+            if queue[i] == node {
+                return Err(ErrorKind::Dom(svgdom::ErrorKind::ElementCrosslink).into());
+            }
+
+            for link in linked_gradients(&queue[i].clone()) {
+                if !queue.contains(&link) {
+                    queue.push(link);
+                }
+            }
+
+            i += 1;
+        }
+    }
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 68ae0c5c23f884fbab962046d5ff3164f6849ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 31/68] fix: skip gradient children that are not stops

---
 src/task/fix_attrs.rs              |  3 ++-
 src/task/merge_gradients.rs        |  4 ++--
 src/task/regroup_gradient_stops.rs |  9 ++++-----
 src/task/rm_dupl_defs/mod.rs       | 19 +++++++------------
 src/task/rm_invalid_stops.rs       | 12 ++++--------
 src/task/utils.rs                  |  7 +++++++
 6 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/task/fix_attrs.rs b/src/task/fix_attrs.rs
index 2c16763..613acba 100644
--- a/src/task/fix_attrs.rs
+++ b/src/task/fix_attrs.rs
@@ -25,6 +25,7 @@ use svgdom::{
 };
 
 use task::short::{AId, EId, Unit};
+use task::utils;
 
 pub fn fix_invalid_attributes(doc: &Document) {
     for (id, mut node) in doc.descendants().svg() {
@@ -211,7 +212,7 @@ pub fn fix_stop_attributes(node: &Node) {
 
     let mut prev_offset = 0.0;
 
-    for mut child in node.children() {
+    for mut child in utils::stops(node) {
         let av = child.attributes().get_value(AId::Offset).cloned();
 
         let mut offset = match av {
diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index b0d46af..bd17906 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -81,9 +81,9 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
             continue;
         }
 
-        if !node.has_children() {
+        if utils::stops(&node).is_empty() {
             // Append 'stop' elements only when we don't have any before.
-            while let Some(mut child) = linked_node.first_child() {
+            for mut child in utils::stops(&linked_node) {
                 child.detach();
                 node.append(&child);
             }
diff --git a/src/task/regroup_gradient_stops.rs b/src/task/regroup_gradient_stops.rs
index b74a65f..e6a7658 100644
--- a/src/task/regroup_gradient_stops.rs
+++ b/src/task/regroup_gradient_stops.rs
@@ -23,11 +23,12 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 pub fn regroup_gradient_stops(doc: &mut Document) {
     let mut nodes: Vec<Node> = doc.descendants()
         .filter(|n| n.is_gradient())
-        .filter(|n| n.has_children())
+        .filter(|n| !utils::stops(n).is_empty())
         .filter(|n| !n.has_attribute(AId::XlinkHref))
         .collect();
 
@@ -59,8 +60,7 @@ pub fn regroup_gradient_stops(doc: &mut Document) {
             let new_id = gen_id(doc, "lg");
             new_lg.set_id(new_id);
 
-            while node1.has_children() {
-                let mut c = node1.first_child().unwrap();
+            for mut c in utils::stops(&node1) {
                 c.detach();
                 new_lg.append(&c);
             }
@@ -69,8 +69,7 @@ pub fn regroup_gradient_stops(doc: &mut Document) {
             node1.insert_before(&new_lg);
 
             for jn in &mut join_nodes {
-                while jn.has_children() {
-                    let mut c = jn.first_child().unwrap();
+                for mut c in utils::stops(jn) {
                     c.remove();
                 }
                 jn.set_attribute((AId::XlinkHref, new_lg.clone()));
diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index d2304bc..170496e 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -23,6 +23,7 @@ use svgdom::{
 };
 
 use task::short::AId;
+use task::utils;
 
 pub use self::linear_gradient::remove_dupl_linear_gradients;
 pub use self::radial_gradient::remove_dupl_radial_gradients;
@@ -120,22 +121,16 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
 }
 
 pub fn is_equal_stops(node1: &Node, node2: &Node) -> bool {
-    let children_count1 = node1.children().count();
+    let stops1 = utils::stops(node1);
+    let stops2 = utils::stops(node2);
 
-    if children_count1 != node2.children().count() {
+    if stops1.len() != stops2.len() {
         return false;
     }
 
-    if children_count1 == 0 {
-        return true;
-    }
-
-    let iter1 = node1.children();
-    let iter2 = node2.children();
-
-    for (mut c1, mut c2) in iter1.zip(iter2) {
-        let attrs1 = c1.attributes_mut();
-        let attrs2 = c2.attributes_mut();
+    for (c1, c2) in stops1.iter().zip(stops2.iter()) {
+        let attrs1 = c1.attributes();
+        let attrs2 = c2.attributes();
 
         if !(   attrs1.get_value(AId::Offset) == attrs2.get_value(AId::Offset)
              && attrs1.get_value(AId::StopColor) == attrs2.get_value(AId::StopColor)
diff --git a/src/task/rm_invalid_stops.rs b/src/task/rm_invalid_stops.rs
index 0f3df17..f8424fd 100644
--- a/src/task/rm_invalid_stops.rs
+++ b/src/task/rm_invalid_stops.rs
@@ -28,14 +28,12 @@ pub fn remove_invalid_stops(doc: &Document) {
     let mut nodes = Vec::new();
 
     let iter = doc.descendants()
-                  .filter(|n| n.is_gradient())
-                  .filter(|n| n.has_children());
+                  .filter(|n| n.is_gradient());
     for node in iter {
-        let mut prev_child = node.first_child().unwrap();
-
-        for child in node.children().skip(1) {
+        for pair in utils::stops(&node).windows(2) {
             {
-                let attrs1 = prev_child.attributes();
+                let child = &pair[1];
+                let attrs1 = pair[0].attributes();
                 let attrs2 = child.attributes();
 
                 if     attrs1.get_value(AId::Offset) == attrs2.get_value(AId::Offset)
@@ -45,8 +43,6 @@ pub fn remove_invalid_stops(doc: &Document) {
                     nodes.push(child.clone());
                 }
             }
-
-            prev_child = child.clone();
         }
     }
 
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 21e8ae3..ec263b1 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -137,6 +137,13 @@ pub fn is_font_relative(attr: &Attribute) -> bool {
     }
 }
 
+/// Returns `stop` elements of the gradient.
+///
+/// A gradient can also contain descriptive elements, animations and comments.
+pub fn stops(gradient: &Node) -> Vec<Node> {
+    gradient.children().filter(|n| n.is_tag_name(EId::Stop)).collect()
+}
+
 /// Checks that the node has a marker, either its own or inherited.
 pub fn has_marker(node: &Node) -> bool {
     rendering_parents(node).iter().any(|n| {
-- 
2.43.0


From fd3affcf9d4605f681c00bccc0be2c56f2026104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 32/68] fix: keep xmlns:xlink when any xlink attribute is used

---
 src/task/final_fixes.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/task/final_fixes.rs b/src/task/final_fixes.rs
index f024c04..925d5e9 100644
--- a/src/task/final_fixes.rs
+++ b/src/task/final_fixes.rs
@@ -40,18 +40,10 @@ pub fn fix_xmlns_attribute(doc: &Document, rm_unused: bool) {
     // doc must contain 'svg' node, so we can safely unwrap.
     let mut svg = doc.svg_element().unwrap();
 
-    let mut has_links = false;
-    for (_, node) in doc.descendants().svg() {
-        if node.is_used() {
-            has_links = true;
-            break;
-        }
-
-        if node.has_attribute(AId::XlinkHref) {
-            has_links = true;
-            break;
-        }
-    }
+    // The namespace is required not only by 'xlink:href', but also by 'xlink:title', etc.
+    let has_links = doc.descendants().any(|node| {
+        node.attributes().iter_svg().any(|(aid, _)| aid.name().starts_with("xlink:"))
+    });
 
     let has_xlink = svg.has_attribute(AId::XmlnsXlink);
 
-- 
2.43.0


From a520c15acde54df66727470a11cf5aebcc18cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 33/68] fix: do not set attributes of a group to comments and
 foreign elements

---
 src/task/ungroup_groups.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 340e369..767e9b3 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -19,6 +19,7 @@
 use svgdom::{
     AttributeValue,
     Document,
+    ElementType,
     Node,
     ValueId,
 };
@@ -161,7 +162,7 @@ fn has_font_conflict(g: &Node, child: &Node) -> bool {
 
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
-        for mut child in g.children() {
+        for (_, mut child) in g.children().svg() {
             if aid == AId::Opacity {
                 if child.has_attribute(aid) {
                     // We can't just replace 'opacity' attribute,
-- 
2.43.0


From ec36fc731f6a9f593b14d37cc70269544d0fbdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 34/68] fix: do not set attributes to comments and foreign
 elements when grouping defs

---
 src/task/group_defs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index b6ad2b9..3ff6f53 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -121,7 +121,7 @@ fn resolve_attrs(node: &Node) {
                         continue;
                     }
 
-                    for mut child in node.children() {
+                    for (_, mut child) in node.children().svg() {
                         if child.has_attribute(aid) {
                             continue;
                         }
-- 
2.43.0


From 9902b995fb6e16b4c65fac66c852f0abfd38c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:22 +0000
Subject: [PATCH 35/68] fix: keep text attributes of an use element that has
 children

---
 src/task/rm_text_attrs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index 27e7e4d..ed3e41d 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -95,7 +95,9 @@ fn _remove_text_attributes(parent: &Node) -> bool {
 
         if node.has_children() {
             // Go deeper.
-            let can_rm = _remove_text_attributes(&node) && !has_em_ex_attributes(&node);
+            let can_rm =    _remove_text_attributes(&node)
+                         && !has_em_ex_attributes(&node)
+                         && !is_linked_text(&node);
             if can_rm {
                 if !node.is_tag_name(EId::FontFace) {
                     node.remove_attributes(TEXT_ATTRIBUTES);
-- 
2.43.0


From fa6da595b0ba3f1e5c3594c776e0b2b2d74d5739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 36/68] fix: do not unify gradients when only one of them takes
 stops from a link

---
 src/task/rm_dupl_defs/mod.rs | 38 ++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index 170496e..25476e9 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -18,6 +18,7 @@
 
 use svgdom::{
     AttributeValue,
+    ElementType,
     Node,
     Transform,
 };
@@ -109,6 +110,16 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
         if attrs1.get_value(AId::XlinkHref).unwrap() != attrs2.get_value(AId::XlinkHref).unwrap() {
             return false;
         }
+    } else if attrs1.contains(AId::XlinkHref) != attrs2.contains(AId::XlinkHref) {
+        // Without own stops a gradient will use the linked ones.
+        if utils::stops(node1).is_empty() && has_linked_stops(node1) != has_linked_stops(node2) {
+            return false;
+        }
+
+        // Replacing the second gradient with the first one will produce a loop.
+        if is_linked_indirectly(node1, node2) {
+            return false;
+        }
     }
 
     for aid in attrs.iter() {
@@ -120,6 +131,33 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
     true
 }
 
+fn linked_gradient(node: &Node) -> Option<Node> {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref link)) if link.is_gradient() => Some(link.clone()),
+        _ => None,
+    }
+}
+
+fn has_linked_stops(node: &Node) -> bool {
+    match linked_gradient(node) {
+        Some(link) => !utils::stops(&link).is_empty() || has_linked_stops(&link),
+        None => false,
+    }
+}
+
+fn is_linked_indirectly(node1: &Node, node2: &Node) -> bool {
+    let mut curr = linked_gradient(node1).and_then(|n| linked_gradient(&n));
+    while let Some(n) = curr {
+        if n == *node2 {
+            return true;
+        }
+
+        curr = linked_gradient(&n);
+    }
+
+    false
+}
+
 pub fn is_equal_stops(node1: &Node, node2: &Node) -> bool {
     let stops1 = utils::stops(node1);
     let stops2 = utils::stops(node2);
-- 
2.43.0


From 6d9616a259a2477d10a1931d617e1af0bd330538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 37/68] fix: remove links from and to the content of removed
 elements

---
 src/cleaner.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/cleaner.rs b/src/cleaner.rs
index 0eec548..19578b5 100644
--- a/src/cleaner.rs
+++ b/src/cleaner.rs
@@ -25,8 +25,11 @@ use std::io::{
 
 use svgdom::{
     self,
+    AttributeId,
+    AttributeValue,
     Document,
     ElementId,
+    NodeType,
     ParseOptions,
     WriteBuffer,
     WriteOptions,
@@ -57,7 +60,34 @@ pub fn load_file(path: &str) -> Result<String, io::Error> {
 }
 
 pub fn parse_data(data: &str, opt: &ParseOptions) -> Result<Document, svgdom::Error> {
-    Document::from_str_with_opt(data, opt)
+    // The parser removes unknown elements before resolving links,
+    // so links from and to the removed content will be broken.
+    // That's why we have to remove them afterwards.
+    let new_opt = ParseOptions { parse_unknown_elements: true, .. *opt };
+    let mut doc = Document::from_str_with_opt(data, &new_opt)?;
+
+    if !opt.parse_unknown_elements {
+        doc.drain(|n| n.node_type() == NodeType::Element && n.tag_id().is_none());
+    }
+
+    // 'style' elements are always removed by the parser.
+    remove_links_to_removed(&doc);
+
+    Ok(doc)
+}
+
+fn remove_links_to_removed(doc: &Document) {
+    for (_, mut node) in doc.descendants().svg() {
+        let ids: Vec<AttributeId> = node.attributes().iter_svg().filter_map(|(aid, attr)| {
+            match attr.value {
+                AttributeValue::Link(ref link) | AttributeValue::FuncLink(ref link)
+                    if link.parent().is_none() => Some(aid),
+                _ => None,
+            }
+        }).collect();
+
+        node.remove_attributes(&ids);
+    }
 }
 
 pub fn clean_doc(
-- 
2.43.0


From f01ebb8f553d138a23895ddf4c45572c518a821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 38/68] fix: unlink elements when removing not applicable
 attributes

---
 src/task/rm_needless_attrs.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index d6e3a39..16c680e 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -87,7 +87,7 @@ fn process_clip_path(node: &Node) {
 
 fn process_rect(node: &mut Node) {
     // Remove all non-rect attributes.
-    node.attributes_mut().retain(|a| {
+    remove_attributes_except(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::X)
         || a.has_id(AId::Y)
@@ -100,7 +100,7 @@ fn process_rect(node: &mut Node) {
 
 fn process_circle(node: &mut Node) {
     // Remove all non-circle attributes.
-    node.attributes_mut().retain(|a| {
+    remove_attributes_except(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Cx)
         || a.has_id(AId::Cy)
@@ -110,7 +110,7 @@ fn process_circle(node: &mut Node) {
 
 fn process_ellipse(node: &mut Node) {
     // Remove all non-ellipse attributes.
-    node.attributes_mut().retain(|a| {
+    remove_attributes_except(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Cx)
         || a.has_id(AId::Cy)
@@ -121,7 +121,7 @@ fn process_ellipse(node: &mut Node) {
 
 fn process_line(node: &mut Node) {
     // Remove all non-line attributes.
-    node.attributes_mut().retain(|a| {
+    remove_attributes_except(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::X1)
         || a.has_id(AId::Y1)
@@ -132,12 +132,24 @@ fn process_line(node: &mut Node) {
 
 fn process_poly(node: &mut Node) {
     // Remove all non-polyline/polygon attributes.
-    node.attributes_mut().retain(|a| {
+    remove_attributes_except(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Points)
     });
 }
 
+fn remove_attributes_except<P>(node: &mut Node, pred: P)
+    where P: Fn(&Attribute) -> bool
+{
+    // Links must be unlinked too, so we can't use `Attributes::retain`.
+    let names: Vec<_> = node.attributes().iter()
+        .filter(|a| !pred(a)).map(|a| a.name.clone()).collect();
+
+    for name in &names {
+        node.remove_attribute(name.into_ref());
+    }
+}
+
 fn is_basic_shapes_attr(a: &Attribute) -> bool {
     // List of common basic shapes attributes.
     // https://www.w3.org/TR/SVG/shapes.html#RectElement
-- 
2.43.0


From 77fa20c2f736639121102ab3be2b57b2a7d0a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 39/68] fix: do not link elements to themselves when grouping
 defs

---
 src/task/group_defs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 3ff6f53..a3ce0f1 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -115,7 +115,7 @@ fn resolve_attrs(node: &Node) {
                     if is_used {
                         let mut node = node.clone();
                         if p != node && !node.has_attribute(aid) {
-                            node.set_attribute(attr.clone());
+                            let _ = node.set_attribute_checked(attr.clone());
                         }
 
                         continue;
@@ -126,7 +126,9 @@ fn resolve_attrs(node: &Node) {
                             continue;
                         }
 
-                        child.set_attribute(attr.clone());
+                        // The child itself can be referenced by this attribute,
+                        // like a gradient inside the mask.
+                        let _ = child.set_attribute_checked(attr.clone());
                     }
                 }
 
-- 
2.43.0


From bc20480cc91fd44d0b7f931b976cec24b559c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 40/68] fix: do not take gradient attributes from elements that
 are not gradients

---
 src/task/resolve_gradients.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index a6ee862..12d74df 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -197,8 +197,11 @@ fn resolve_attribute(node: &Node, id: AId, def_value: Option<AttributeValue>)
     match node.attributes().get_value(AId::XlinkHref) {
         Some(av) => {
             match *av {
-                AttributeValue::Link(ref ref_node) => resolve_attribute(ref_node, id, def_value),
-                _ => unreachable!(),
+                AttributeValue::Link(ref ref_node) if ref_node.is_gradient() => {
+                    resolve_attribute(ref_node, id, def_value)
+                }
+                // Only gradients can be referenced.
+                _ => def_value,
             }
         }
         None => {
-- 
2.43.0


From 9e096c745d5f77773e3681aa2eb4a2f1592e1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 41/68] fix: process invalid units of the stop offset like a
 missing offset

---
 src/task/resolve_gradients.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index 12d74df..8107797 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -117,12 +117,16 @@ pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
         let stops = gradient.children().filter(|n| n.is_tag_name(EId::Stop));
         for (idx, mut node) in stops.enumerate() {
             let av = node.attributes().get_value(AId::Offset).cloned();
-            if let Some(AttributeValue::Length(l)) = av {
-                if l.unit == LengthUnit::Percent {
-                    // convert percent into a number
-                    let new_l = Length::new_number(l.num / 100.0);
-                    node.set_attribute((AId::Offset, new_l));
-                }
+            let offset = match av {
+                Some(AttributeValue::Length(l)) if l.unit == LengthUnit::None => Some(l.num),
+                // convert percent into a number
+                Some(AttributeValue::Length(l)) if l.unit == LengthUnit::Percent => Some(l.num / 100.0),
+                // Other units are not allowed.
+                _ => None,
+            };
+
+            if let Some(offset) = offset {
+                node.set_attribute((AId::Offset, Length::new_number(offset)));
             } else {
                 if idx == 0 {
                     // Allow first stop to not have an offset.
-- 
2.43.0


From c61d509ee0325160fb07d82390d8fdf77cbba695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 42/68] fix: refuse elements that inherit a link to themselves

---
 src/task/resolve_inherit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index f13c050..de7a694 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -100,7 +100,8 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
     if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
         let av = n.attributes().get_value(parent_attr).cloned();
         if let Some(av) = av {
-            node.set_attribute((curr_attr, av.clone()));
+            // A parent can be linked to this node.
+            node.set_attribute_checked((curr_attr, av.clone()))?;
         }
 
         Ok(())
-- 
2.43.0


From ca49e0ba5290b638346f8486d1ff8371716c2c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 43/68] fix: do not keep dangling links when joining style
 attributes

---
 src/task/join_style_attrs.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 1d2cbd6..2ca0930 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -27,7 +27,7 @@ use task::short::AId;
 use options::StyleJoinMode;
 
 pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOptions) {
-    // NOTE: Must be run at last, since it breaks linking.
+    // NOTE: Must be run at last, since links inside the 'style' attribute are just a text.
 
     if mode == StyleJoinMode::None {
         return;
@@ -42,10 +42,9 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         // 5 - is an amount of attributes when style notation is becoming more efficient than
         // split attributes.
         if (mode == StyleJoinMode::Some && count > 5) || mode == StyleJoinMode::All {
-            let mut attrs = node.attributes_mut();
             let mut ids = Vec::new();
             let mut style = Vec::new();
-            for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_presentation()) {
+            for (aid, attr) in node.attributes().iter_svg().filter(|&(_, a)| a.is_presentation()) {
                 if !attr.visible {
                     continue;
                 }
@@ -61,13 +60,11 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
 
             // Unwrap can't fail.
             let style_str = String::from_utf8(style).unwrap();
-            attrs.insert_from(AId::Style, style_str);
+            node.attributes_mut().insert_from(AId::Style, style_str);
 
-            for id in ids {
-                // Use "private" method, because we breaking linking on purpose.
-                // Default 'remove()' will panic here.
-                attrs.remove_impl(id);
-            }
+            // Linked nodes must be unlinked too, otherwise they will have
+            // a dangling link when the document will be destroyed.
+            node.remove_attributes(&ids);
         }
     }
 }
-- 
2.43.0


From 00317d5f211d250f5f0be7126eab220cfe7c02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:33 +0000
Subject: [PATCH 44/68] fix: process documents where defs are not displayed

---
 src/task/rm_unused_defs.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_unused_defs.rs b/src/task/rm_unused_defs.rs
index c05084c..379b6ba 100644
--- a/src/task/rm_unused_defs.rs
+++ b/src/task/rm_unused_defs.rs
@@ -24,8 +24,12 @@ use svgdom::{
 use task::short::EId;
 
 pub fn remove_unused_defs(doc: &Document) {
-    // Unwrap is safe, because 'defs' already had been created in 'group_defs'.
-    let mut defs = doc.descendants().filter(|n| n.is_tag_name(EId::Defs)).nth(0).unwrap();
+    // 'defs' already had been created in 'group_defs',
+    // but it can be removed as an invisible element.
+    let mut defs = match doc.descendants().filter(|n| n.is_tag_name(EId::Defs)).nth(0) {
+        Some(n) => n,
+        None => return,
+    };
 
     // Repeat until no unused nodes left.
     while remove_unused_defs_impl(&mut defs) { }
-- 
2.43.0


From 5c54c0aae11fb14bb832ffb2f6e217074ba41844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 45/68] fix: merge gradients only with gradients

---
 src/task/merge_gradients.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index bd17906..df30ee8 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -68,7 +68,7 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
 
         if let Some(av) = node.attributes().get_value(AId::XlinkHref) {
             if let AttributeValue::Link(ref link) = *av {
-                if link.uses_count() == 1 && !link.has_attribute(AId::XlinkHref) {
+                if link.is_gradient() && link.uses_count() == 1 && !link.has_attribute(AId::XlinkHref) {
                     linked_node = link.clone();
                 } else {
                     continue;
-- 
2.43.0


From af940500061a125598dcaec1118b90415e4bb0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 46/68] fix: detect linked gradients only by xlink:href

---
 src/task/rm_gradient_attrs.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_gradient_attrs.rs b/src/task/rm_gradient_attrs.rs
index 4d884ad..4cf764b 100644
--- a/src/task/rm_gradient_attrs.rs
+++ b/src/task/rm_gradient_attrs.rs
@@ -43,7 +43,7 @@ fn rm_equal(doc: &Document) {
     let mut order = Vec::new();
     for node in doc.descendants().filter(|n|    n.is_gradient()
                                              && n.has_attribute(AId::XlinkHref)) {
-        let c = node.linked_nodes().filter(|n| n.is_gradient()).count();
+        let c = doc.descendants().filter(|n| n.is_gradient() && is_linked_to(n, &node)).count();
         // The gradient element and count of gradient elements than uses it.
         order.push((node.clone(), c));
     }
@@ -91,13 +91,21 @@ fn rm_equal(doc: &Document) {
     }
 }
 
+// A gradient can be referenced by other attributes too, like `fill`.
+fn is_linked_to(node: &Node, gradient: &Node) -> bool {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref link)) => link == gradient,
+        _ => false,
+    }
+}
+
 // If several gradients linked to the same gradient
 // we can move their 'gradientUnits' to the parent.
 fn group_to_parent(doc: &Document) {
     let mut nodes: Vec<Node> = doc.descendants()
                                   .filter(|n| n.is_gradient())
                                   .filter(|n| !n.has_attribute(AId::XlinkHref))
-                                  .filter(|n| n.linked_nodes().all(|l| l.is_gradient()))
+                                  .filter(|n| n.linked_nodes().all(|l| l.is_gradient() && is_linked_to(&l, n)))
                                   .collect();
 
     for node in &mut nodes {
-- 
2.43.0


From e6ff0bf60dc4a9bc9beb6dc59239b3af0ed6bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 47/68] fix: keep namespaces of kept unknown elements

---
 src/cleaner.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/cleaner.rs b/src/cleaner.rs
index 19578b5..55cdb52 100644
--- a/src/cleaner.rs
+++ b/src/cleaner.rs
@@ -29,6 +29,7 @@ use svgdom::{
     AttributeValue,
     Document,
     ElementId,
+    Name,
     NodeType,
     ParseOptions,
     WriteBuffer,
@@ -63,9 +64,31 @@ pub fn parse_data(data: &str, opt: &ParseOptions) -> Result<Document, svgdom::Er
     // The parser removes unknown elements before resolving links,
     // so links from and to the removed content will be broken.
     // That's why we have to remove them afterwards.
-    let new_opt = ParseOptions { parse_unknown_elements: true, .. *opt };
+    let mut new_opt = ParseOptions { parse_unknown_elements: true, .. *opt };
+
+    // Unknown elements still need their namespaces.
+    let keep_xmlns = opt.parse_unknown_elements && !opt.parse_unknown_attributes;
+    if keep_xmlns {
+        new_opt.parse_unknown_attributes = true;
+    }
+
     let mut doc = Document::from_str_with_opt(data, &new_opt)?;
 
+    if keep_xmlns {
+        for mut node in doc.descendants().filter(|n| n.node_type() == NodeType::Element) {
+            let names: Vec<String> = node.attributes().iter().filter_map(|attr| {
+                match attr.name {
+                    Name::Name(ref name) if !name.starts_with("xmlns:") => Some(name.clone()),
+                    _ => None,
+                }
+            }).collect();
+
+            for name in &names {
+                node.remove_attribute(name.as_str());
+            }
+        }
+    }
+
     if !opt.parse_unknown_elements {
         doc.drain(|n| n.node_type() == NodeType::Element && n.tag_id().is_none());
     }
-- 
2.43.0


From ee619783a462c71a8afa3acfdf36ce56d4733d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 48/68] fix: end the multipass mode when a file grows

---
 src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8adb7d9..4579f59 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -130,7 +130,7 @@ fn main() {
 
     let input_size = raw.len();
     let mut buf = raw.into_bytes();
-    let mut prev_size = 0;
+    let mut prev_size = std::usize::MAX;
 
     loop {
         // Parse it.
@@ -171,8 +171,8 @@ fn main() {
             break;
         }
 
-        // If size is unchanged - exit from the loop.
-        if prev_size == buf.len() {
+        // If size is not reduced - exit from the loop.
+        if buf.len() >= prev_size {
             break;
         }
 
-- 
2.43.0


From 0c706603a4c8d8b7d73f9bfd13758b34be39669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 49/68] fix: do not apply transforms to elements with user
 space markers

---
 src/task/apply_transforms/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index caec379..f903a19 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -34,6 +34,7 @@ pub mod utils {
     };
 
     use task::short::{EId, AId, Unit};
+    use task::utils::rendering_parents;
 
     // TODO: remove
     pub fn has_valid_transform(node: &Node) -> bool {
@@ -73,7 +74,26 @@ pub mod utils {
             }
         }
 
-        true
+        !has_user_space_marker(node)
+    }
+
+    // Checks that the element has a marker which size does not depend on the 'stroke-width'.
+    //
+    // Such a marker is affected only by the 'transform'.
+    fn has_user_space_marker(node: &Node) -> bool {
+        rendering_parents(node).iter().any(|n| {
+            [AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd].iter().any(|aid| {
+                match n.attributes().get_value(*aid) {
+                    Some(&AttributeValue::FuncLink(ref link)) => {
+                        match link.attributes().get_value(AId::MarkerUnits) {
+                            Some(v) => v.to_string() == "userSpaceOnUse",
+                            None => false,
+                        }
+                    }
+                    _ => false,
+                }
+            })
+        })
     }
 
     // Checks that first occurred attribute value is not a FuncLink.
-- 
2.43.0


From 1fef5a3759148d327c1760d53aafef0ecf363687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 50/68] fix: do not change what elements of defs inherit when
 grouping defs

---
 src/task/group_defs.rs | 54 +++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index a3ce0f1..14cf4b8 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -17,6 +17,7 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeType,
     Document,
     ElementType,
@@ -36,31 +37,46 @@ pub fn group_defs(doc: &mut Document) {
         None => doc.create_element(EId::Defs),
     };
 
+    // Elements inside the main 'defs' must not depend on its attributes and place.
+    let is_plain_defs = (defs.parent().is_none() || defs.parent() == Some(svg.clone()))
+                        && !defs.attributes().iter_svg().any(|(id, a)| is_inheritable(id, a));
+
+    // Collect all referenced elements that are not in the main 'defs'.
+    let mut nodes = Vec::new();
+    for (_, node) in doc.descendants().svg() {
+        if node.is_referenced() {
+            if node.parent() != Some(defs.clone()) {
+                nodes.push(node.clone());
+            } else if !is_plain_defs {
+                resolve_attrs(&node);
+            }
+        }
+    }
+
+    for n in &nodes {
+        resolve_attrs(n);
+    }
+
     // Make 'defs' a first child of the 'svg'.
     if svg.first_child() != Some(defs.clone()) {
         defs.detach();
         svg.prepend(&defs);
     }
 
-    // Move all referenced elements to the main 'defs'.
-    {
-        let mut nodes = Vec::new();
+    if !is_plain_defs {
+        let ids: Vec<AId> = defs.attributes().iter_svg()
+                                .filter(|&(id, a)| is_inheritable(id, a))
+                                .map(|(id, _)| id).collect();
 
-        for (_, node) in doc.descendants().svg() {
-            if node.is_referenced() {
-                if let Some(parent) = node.parent() {
-                    if parent != defs {
-                        nodes.push(node.clone());
-                    }
-                }
-            }
+        for id in ids {
+            defs.remove_attribute(id);
         }
+    }
 
-        for n in &mut nodes {
-            resolve_attrs(n);
-            n.detach();
-            defs.append(n);
-        }
+    // Move all referenced elements to the main 'defs'.
+    for n in &mut nodes {
+        n.detach();
+        defs.append(n);
     }
 
     // Ungroup all existing 'defs', except main.
@@ -97,6 +113,10 @@ pub fn group_defs(doc: &mut Document) {
     }
 }
 
+fn is_inheritable(id: AId, attr: &Attribute) -> bool {
+    attr.is_inheritable() || id == AId::Visibility
+}
+
 // Graphical elements inside referenced elements inherits parent attributes,
 // so if we want to move this elements to the 'defs' - we should resolve attributes too.
 fn resolve_attrs(node: &Node) {
@@ -111,7 +131,7 @@ fn resolve_attrs(node: &Node) {
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
                 let attrs = p.attributes();
-                for (aid, attr) in attrs.iter_svg().filter(|&(id, a)| a.is_inheritable() || id == AId::Visibility) {
+                for (aid, attr) in attrs.iter_svg().filter(|&(id, a)| is_inheritable(id, a)) {
                     if is_used {
                         let mut node = node.clone();
                         if p != node && !node.has_attribute(aid) {
-- 
2.43.0


From 24e33dabb22e43c7524b72fe28ff8771291230e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:18 +0000
Subject: [PATCH 51/68] fix: do not move overflow of groups and use elements to
 their content

---
 src/task/resolve_use.rs    | 3 ++-
 src/task/ungroup_groups.rs | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 3a72546..8a2f9b1 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -103,7 +103,8 @@ pub fn resolve_use(doc: &Document) {
         }
 
         // 'width' and 'height' of the 'use' impact only 'svg' and 'symbol'.
-        node.remove_attributes(&[AId::Width, AId::Height]);
+        // 'overflow' has no effect on the 'use', but it can have on the linked element.
+        node.remove_attributes(&[AId::Width, AId::Height, AId::Overflow]);
 
         // Copy attributes.
         for attr in node.attributes().iter() {
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 767e9b3..fd4f146 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -162,6 +162,11 @@ fn has_font_conflict(g: &Node, child: &Node) -> bool {
 
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
+        // It has no effect on the group, but it can have on the child.
+        if aid == AId::Overflow {
+            continue;
+        }
+
         for (_, mut child) in g.children().svg() {
             if aid == AId::Opacity {
                 if child.has_attribute(aid) {
-- 
2.43.0


From dfcfbd35cba8f716c0c9c5448b89dbe577da91ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:00 +0000
Subject: [PATCH 52/68] fix: do not apply relative values twice when grouping
 defs

---
 src/task/group_defs.rs     | 39 +++++++++++++++++++++++++++++++++++---
 src/task/ungroup_groups.rs |  1 -
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 14cf4b8..9ff9974 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -19,9 +19,12 @@
 use svgdom::{
     Attribute,
     AttributeType,
+    AttributeValue,
     Document,
     ElementType,
+    LengthUnit,
     Node,
+    ValueId,
 };
 
 use task::short::{EId, AId};
@@ -48,13 +51,13 @@ pub fn group_defs(doc: &mut Document) {
             if node.parent() != Some(defs.clone()) {
                 nodes.push(node.clone());
             } else if !is_plain_defs {
-                resolve_attrs(&node);
+                resolve_attrs(&node, &svg);
             }
         }
     }
 
     for n in &nodes {
-        resolve_attrs(n);
+        resolve_attrs(n, &svg);
     }
 
     // Make 'defs' a first child of the 'svg'.
@@ -117,9 +120,29 @@ fn is_inheritable(id: AId, attr: &Attribute) -> bool {
     attr.is_inheritable() || id == AId::Visibility
 }
 
+fn is_relative(attr: &Attribute) -> bool {
+    match attr.value {
+        AttributeValue::Length(len) => match len.unit {
+            LengthUnit::Em | LengthUnit::Ex | LengthUnit::Percent => true,
+            _ => false,
+        },
+        AttributeValue::LengthList(_) => true,
+        AttributeValue::PredefValue(v) => match v {
+              ValueId::Bolder
+            | ValueId::Lighter
+            | ValueId::Larger
+            | ValueId::Smaller
+            | ValueId::Wider
+            | ValueId::Narrower => true,
+            _ => false,
+        },
+        _ => false,
+    }
+}
+
 // Graphical elements inside referenced elements inherits parent attributes,
 // so if we want to move this elements to the 'defs' - we should resolve attributes too.
-fn resolve_attrs(node: &Node) {
+fn resolve_attrs(node: &Node, svg: &Node) {
     match node.tag_id().unwrap() {
           EId::ClipPath
         | EId::Marker
@@ -130,8 +153,18 @@ fn resolve_attrs(node: &Node) {
 
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
+                // Attributes of the 'svg' will be inherited anyway.
+                if p == *svg {
+                    break;
+                }
+
                 let attrs = p.attributes();
                 for (aid, attr) in attrs.iter_svg().filter(|&(id, a)| is_inheritable(id, a)) {
+                    // A copy of a relative value would be applied twice.
+                    if p == *node && is_relative(attr) {
+                        continue;
+                    }
+
                     if is_used {
                         let mut node = node.clone();
                         if p != node && !node.has_attribute(aid) {
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index fd4f146..378a7c1 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -19,7 +19,6 @@
 use svgdom::{
     AttributeValue,
     Document,
-    ElementType,
     Node,
     ValueId,
 };
-- 
2.43.0


From 8fcdb1f8a42bc53f442df7c1201f54cc52478b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:14 +0000
Subject: [PATCH 53/68] fix: do not move text only attributes of groups to
 their content

---
 src/task/ungroup_groups.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 378a7c1..a871165 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -161,9 +161,13 @@ fn has_font_conflict(g: &Node, child: &Node) -> bool {
 
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
-        // It has no effect on the group, but it can have on the child.
-        if aid == AId::Overflow {
-            continue;
+        // They have no effect on the group, but they can have on the child.
+        match aid {
+              AId::AlignmentBaseline
+            | AId::BaselineShift
+            | AId::Overflow
+            | AId::UnicodeBidi => continue,
+            _ => {}
         }
 
         for (_, mut child) in g.children().svg() {
-- 
2.43.0


From ea4c07446635cd866e19f47b9c431fc2d812994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:11 +0000
Subject: [PATCH 54/68] fix: keep scaled radius of gradients that inherit it

---
 src/task/apply_transforms/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index f903a19..97b54fd 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -157,8 +157,12 @@ pub mod utils {
     }
 
     pub fn scale_coord(attrs: &mut Attributes, aid: AId, scale_factor: &f64) {
-        if let Some(&mut AttributeValue::Length(ref mut len)) = attrs.get_value_mut(aid) {
-            len.num *= *scale_factor;
+        if let Some(attr) = attrs.get_mut(aid) {
+            if let AttributeValue::Length(ref mut len) = attr.value {
+                len.num *= *scale_factor;
+                // A resolved value differs from the inherited one now.
+                attr.visible = true;
+            }
         }
     }
 
-- 
2.43.0


From 2a0d311f49138e300bc05709918910bad2ea2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 55/68] fix: do not remove invisible content of linked patterns

---
 src/task/rm_invisible_elems.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 578621c..194a124 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -52,10 +52,15 @@ pub fn remove_invisible_elements(doc: &mut Document) {
 }
 
 // Children of the 'switch' element can't be removed, because only the first one will be rendered.
+// Children of a linked 'pattern' can't be removed, because without them it will inherit the linked ones.
 // And the root element is always preserved.
 fn is_fixed(node: &Node) -> bool {
     match node.parent() {
-        Some(parent) => parent.is_tag_name(EId::Switch) || !parent.is_svg_element(),
+        Some(parent) => {
+               parent.is_tag_name(EId::Switch)
+            || (parent.is_tag_name(EId::Pattern) && parent.has_attribute(AId::XlinkHref))
+            || !parent.is_svg_element()
+        }
         None => true,
     }
 }
-- 
2.43.0


From 9b121fc32dc8c875ba683ba1bb35a266fbbd8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 56/68] fix: do not remove parts of text with an invalid clip
 path or filter

---
 src/task/rm_invisible_elems.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 194a124..283cfa5 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -67,7 +67,12 @@ fn is_fixed(node: &Node) -> bool {
 
 // Checks that the element can be removed with all it's children.
 fn is_removable(node: &Node) -> bool {
-    !is_fixed(node) && !node.descendants().any(|n| n.is_used())
+    !is_fixed(node) && !is_text_content(node) && !node.descendants().any(|n| n.is_used())
+}
+
+// Clip paths and filters have no effect inside of a text.
+fn is_text_content(node: &Node) -> bool {
+    node.parents().any(|n| n.is_tag_name(EId::Text))
 }
 
 // Remove invalid elements from 'clipPath' and if 'clipPath' is empty or became empty
-- 
2.43.0


From 5b4f5b644294be728d28209e3a9d2215b36836be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:06 +0000
Subject: [PATCH 57/68] fix: keep blur filters with different subregions or
 color spaces

---
 src/task/rm_dupl_defs/fe_gaussian_blur.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_dupl_defs/fe_gaussian_blur.rs b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
index ec85772..fc4d6e2 100644
--- a/src/task/rm_dupl_defs/fe_gaussian_blur.rs
+++ b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
@@ -36,7 +36,12 @@ pub fn remove_dupl_fe_gaussian_blur(doc: &Document) {
     ];
 
     let fe_blur_attrs = [
+        AId::X,
+        AId::Y,
+        AId::Width,
+        AId::Height,
         AId::StdDeviation,
+        AId::ColorInterpolationFilters,
     ];
 
     let mut nodes = Vec::new();
-- 
2.43.0


From 54948d58695fc97bcc692f871ee91a65d11bf9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:08 +0000
Subject: [PATCH 58/68] fix: keep gradients with different color spaces

---
 src/task/rm_dupl_defs/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index 25476e9..d7496ec 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -106,6 +106,10 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
 
     check_attr!(&attrs1, &attrs2, AId::GradientTransform, Transform::default());
 
+    if attrs1.get_value(AId::ColorInterpolation) != attrs2.get_value(AId::ColorInterpolation) {
+        return false;
+    }
+
     if attrs1.contains(AId::XlinkHref) && attrs2.contains(AId::XlinkHref) {
         if attrs1.get_value(AId::XlinkHref).unwrap() != attrs2.get_value(AId::XlinkHref).unwrap() {
             return false;
-- 
2.43.0


From d832a015c9092d3606292d2b76a7e64e41c685b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 59/68] fix: keep inherited color spaces of moved gradients,
 masks and filters

---
 src/task/group_defs.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 9ff9974..fc57c18 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -190,6 +190,27 @@ fn resolve_attrs(node: &Node, svg: &Node) {
         }
         _ => {}
     }
+
+    // The color space is used by the element itself.
+    match node.tag_id().unwrap() {
+          EId::LinearGradient
+        | EId::RadialGradient
+        | EId::Mask => inherit_attr(node, svg, AId::ColorInterpolation),
+        EId::Filter => inherit_attr(node, svg, AId::ColorInterpolationFilters),
+        _ => {}
+    }
+}
+
+fn inherit_attr(node: &Node, svg: &Node, aid: AId) {
+    // Attributes of the 'svg' will be inherited anyway.
+    let parent = node.parents_with_self().take_while(|n| n != svg).find(|n| n.has_attribute(aid));
+
+    if let Some(parent) = parent {
+        let attr = parent.attributes().get(aid).cloned();
+        if let Some(attr) = attr {
+            node.clone().set_attribute(attr);
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0fc1dcf600adf04887e31a07e5b0fc9afafae44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:12 +0000
Subject: [PATCH 60/68] fix: keep attributes inherited from a removed duplicate

---
 src/task/rm_dupl_defs/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index d7496ec..aadfc54 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -82,8 +82,12 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
             // Relink nodes.
             if !link_attrs.is_empty() {
                 for &mut (ref mut ln, ref aid, ref n) in &mut link_attrs {
-                    if *ln.id() != *n.id() {
+                    if *ln != *n {
                         ln.set_attribute((*aid, n.clone()));
+                    } else {
+                        // The first node is linked to the one we are about to remove,
+                        // so it will not inherit its attributes anymore.
+                        show_inherited_attributes(ln, &node2);
                     }
                 }
                 link_attrs.clear();
@@ -100,6 +104,18 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
     }
 }
 
+// Resolved attributes are invisible, because they are inherited from the linked node.
+fn show_inherited_attributes(node: &mut Node, linked: &Node) {
+    let linked_attrs = linked.attributes();
+    for attr in node.attributes_mut().iter_mut() {
+        if let Some(aid) = attr.id() {
+            if linked_attrs.get(aid).map_or(false, |a| a.visible) {
+                attr.visible = true;
+            }
+        }
+    }
+}
+
 fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
     let attrs1 = node1.attributes();
     let attrs2 = node2.attributes();
-- 
2.43.0


From 3a37043cdd7410b8737c092001202d39157d0b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:20 +0000
Subject: [PATCH 61/68] fix: keep relative font-stretch values while ungrouping

---
 src/task/ungroup_groups.rs | 2 +-
 src/task/utils.rs          | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index a871165..bab3d50 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -146,7 +146,7 @@ fn has_font_conflict(g: &Node, child: &Node) -> bool {
     let child_attrs = child.attributes();
 
     // The child value depends on the group one.
-    for &aid in &[AId::FontSize, AId::FontWeight] {
+    for &aid in &[AId::FontSize, AId::FontStretch, AId::FontWeight] {
         if let Some(attr) = child_attrs.get(aid) {
             if g_attrs.contains(aid) && is_font_relative(attr) {
                 return true;
diff --git a/src/task/utils.rs b/src/task/utils.rs
index ec263b1..865ac0b 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -129,7 +129,12 @@ pub fn is_font_relative(attr: &Attribute) -> bool {
         }
         AttributeValue::PredefValue(id) => {
             match id {
-                ValueId::Larger | ValueId::Smaller | ValueId::Bolder | ValueId::Lighter => true,
+                  ValueId::Larger
+                | ValueId::Smaller
+                | ValueId::Bolder
+                | ValueId::Lighter
+                | ValueId::Wider
+                | ValueId::Narrower => true,
                 _ => false,
             }
         }
-- 
2.43.0


From ce782395230b3392563ec750deb6469cbc2c7315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:41 +0000
Subject: [PATCH 62/68] fix: keep attributes inherited through a gradient of an
 other type in merge_gradients

---
 src/task/merge_gradients.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index df30ee8..e82d786 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -68,7 +68,15 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
 
         if let Some(av) = node.attributes().get_value(AId::XlinkHref) {
             if let AttributeValue::Link(ref link) = *av {
-                if link.is_gradient() && link.uses_count() == 1 && !link.has_attribute(AId::XlinkHref) {
+                // A gradient of an other type can still inherit attributes
+                // that have no effect on this one.
+                let is_source = link.tag_id() != node.tag_id()
+                    && node.linked_nodes().any(|n| n.is_gradient());
+
+                if    link.is_gradient()
+                   && link.uses_count() == 1
+                   && !link.has_attribute(AId::XlinkHref)
+                   && !is_source {
                     linked_node = link.clone();
                 } else {
                     continue;
-- 
2.43.0


From 1351732aa47717cc7fc2cf503e8816a4605b152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:55 +0000
Subject: [PATCH 63/68] fix: keep default attributes of linked patterns and
 filters

---
 src/task/rm_default_attrs.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index ac14959..bc2b730 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -79,7 +79,7 @@ pub fn remove_default_attributes(doc: &Document) {
                         }
                     }
                 }
-            } else if is_default(attr, tag_name) {
+            } else if is_default(attr, tag_name) && !is_linked_template(&node) {
                 // Check default values of an non-presentation attributes.
                 rm_list.push(aid);
             }
@@ -97,6 +97,13 @@ pub fn remove_default_attributes(doc: &Document) {
     }
 }
 
+// Checks that the element inherits attributes from the linked one,
+// so an attribute with a default value can override the inherited one.
+fn is_linked_template(node: &Node) -> bool {
+    (node.is_tag_name(EId::Pattern) || node.is_tag_name(EId::Filter))
+        && node.has_attribute(AId::XlinkHref)
+}
+
 fn is_default(attr: &Attribute, tag_name: EId) -> bool {
     // Process only popular and simple attributes.
 
-- 
2.43.0


From 8a94743bc5885c2e9a98c2a18751f2be455433d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:07 +0000
Subject: [PATCH 64/68] fix: keep zero coordinates of filter primitives

---
 src/task/rm_default_attrs.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index bc2b730..49f05bd 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -97,6 +97,28 @@ pub fn remove_default_attributes(doc: &Document) {
     }
 }
 
+fn is_filter_primitive(tag_name: EId) -> bool {
+    match tag_name {
+          EId::FeBlend
+        | EId::FeColorMatrix
+        | EId::FeComponentTransfer
+        | EId::FeComposite
+        | EId::FeConvolveMatrix
+        | EId::FeDiffuseLighting
+        | EId::FeDisplacementMap
+        | EId::FeFlood
+        | EId::FeGaussianBlur
+        | EId::FeImage
+        | EId::FeMerge
+        | EId::FeMorphology
+        | EId::FeOffset
+        | EId::FeSpecularLighting
+        | EId::FeTile
+        | EId::FeTurbulence => true,
+        _ => false,
+    }
+}
+
 // Checks that the element inherits attributes from the linked one,
 // so an attribute with a default value can override the inherited one.
 fn is_linked_template(node: &Node) -> bool {
@@ -125,6 +147,11 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
                 return false;
             }
 
+            // The default one is a start of the filter region.
+            if is_filter_primitive(tag_name) {
+                return false;
+            }
+
             if tag_name == EId::Mask || tag_name == EId::Filter {
                 if attr.value == AttributeValue::from((-10.0, Unit::Percent)) {
                     return true;
-- 
2.43.0


From 5f31d7b5a850b1b10e9f833607f3132996b6c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:08 +0000
Subject: [PATCH 65/68] fix: keep a non-default slope of the font-face

---
 src/task/rm_default_attrs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 49f05bd..5d7ba5b 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -243,7 +243,7 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
             if let AttributeValue::String(ref s) = attr.value {
                 if tag_name == EId::FontFace && s == "0" {
                     return true;
-                } else if s == "1" {
+                } else if tag_name != EId::FontFace && s == "1" {
                     return true;
                 }
             }
-- 
2.43.0


From 6509df0f2b7572c608667337e84d61d41f2d9c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:29 +0000
Subject: [PATCH 66/68] fix: keep elements with a filter that uses children of
 an other one

---
 src/task/rm_invisible_elems.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 283cfa5..8a85b25 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -180,10 +180,11 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
     }
 }
 
-// Remove 'filter' elements without children.
+// Remove 'filter' elements without children, including the linked ones.
 fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes: Vec<Node> = doc.descendants()
                                   .filter(|n| n.is_tag_name(EId::Filter) && !n.has_children())
+                                  .filter(|n| !n.has_attribute(AId::XlinkHref))
                                   .collect();
 
     if !nodes.is_empty() {
@@ -212,6 +213,11 @@ fn process_fe_color_matrix(doc: &mut Document) {
             return false;
         }
 
+        // Other filters can use children of this one.
+        if node.linked_nodes().any(|n| n.is_tag_name(EId::Filter)) {
+            return false;
+        }
+
         let child = node.first_child().unwrap();
 
         if !child.is_tag_name(EId::FeColorMatrix) {
-- 
2.43.0


From cc1f2c936c2ea45e08f77ef192f83a55b68c0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:51 +0000
Subject: [PATCH 67/68] fix: do not remove descriptors of the font-face as
 default properties

---
 src/task/rm_default_attrs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 5d7ba5b..a7a04ae 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -38,6 +38,11 @@ pub fn remove_default_attributes(doc: &Document) {
         let tag_name = node.tag_id().unwrap();
 
         for (aid, attr) in node.attributes().iter_svg() {
+            // Descriptors of the font have own default values.
+            if tag_name == EId::FontFace && attr.is_presentation() {
+                continue;
+            }
+
             if attr.is_presentation() {
                 if attr.check_is_default() {
                     // The attribute can override the one that is inherited through 'use'.
-- 
2.43.0


From 5637fe958aef5d9761b853c51b7e1f481013b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:52 +0000
Subject: [PATCH 68/68] fix: do not move descriptors of the font-face to the
 style attribute

---
 src/task/join_style_attrs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 2ca0930..448bfc7 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -23,7 +23,7 @@ use svgdom::{
     WriteOptions,
 };
 
-use task::short::AId;
+use task::short::{AId, EId};
 use options::StyleJoinMode;
 
 pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOptions) {
@@ -33,7 +33,12 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         return;
     }
 
-    for (_, mut node) in doc.descendants().svg() {
+    for (id, mut node) in doc.descendants().svg() {
+        // Descriptors of the font are not properties.
+        if id == EId::FontFace {
+            continue;
+        }
+
         let count = {
             let attrs = node.attributes();
             attrs.iter().filter(|a| a.is_presentation() && a.visible).count()
-- 
2.43.0

