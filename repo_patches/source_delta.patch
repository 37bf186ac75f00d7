From 9dc16c1f43758e6628d842bbb02476503f19fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 01/81] fix: keep smooth curves intact while converting and
 removing path segments

A segment followed by a smooth curve can't be removed or replaced with a line
when it changes a reflected control point. A repeated curve can be removed only
when it is closed. Collinear control points outside of the curve end points
do not produce a line.
---
 src/task/paths/conv_segments.rs | 19 +++++++----
 src/task/paths/rm_unused.rs     | 60 ++++++++++++++++++++++++++++++---
 2 files changed, 68 insertions(+), 11 deletions(-)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index 3644843..c24dcfd 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -138,30 +138,35 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
     while i < path.d.len() {
         let prev_seg = path.d[i - 1];
         let (prev_x, prev_y) = utils::resolve_xy(path, i - 1);
+        // A following SmoothCurveTo depends on a control point of the current curve,
+        // so such curve can't be converted into a line.
+        let is_next_smooth = path.d.get(i + 1).map(|s| s.cmd()) == Some(Command::SmoothCurveTo);
         let curr_seg = &mut path.d[i];
         match *curr_seg.data() {
             SegmentData::CurveTo { x1, y1, x2, y2, x, y } => {
                 let is_vlineto = || {
                     // If prev_x, x1, x2 and x are equal than this CurveTo is VerticalLineTo.
-                    // y1 must be equal or greater than prev_y.
-                    // y2 must be equal or less than y.
+                    // y1 and y2 must be between prev_y and y.
 
                        prev_x.fuzzy_eq(&x)
                     && x1.fuzzy_eq(&x2)
                     && x1.fuzzy_eq(&x)
                     && y1.fuzzy_cmp(&prev_y) != Ordering::Less
+                    && y1.fuzzy_cmp(&y) != Ordering::Greater
+                    && y2.fuzzy_cmp(&prev_y) != Ordering::Less
                     && y2.fuzzy_cmp(&y) != Ordering::Greater
                 };
 
                 let is_hlineto = || {
                     // If prev_y, y1, y2 and y are equal - this CurveTo is HorizontalLineTo.
-                    // x1 must be equal or greater than prev_x.
-                    // x2 must be equal or less than x.
+                    // x1 and x2 must be between prev_x and x.
 
                        prev_y.fuzzy_eq(&y)
                     && y1.fuzzy_eq(&y2)
                     && y1.fuzzy_eq(&y)
                     && x1.fuzzy_cmp(&prev_x) != Ordering::Less
+                    && x1.fuzzy_cmp(&x) != Ordering::Greater
+                    && x2.fuzzy_cmp(&prev_x) != Ordering::Less
                     && x2.fuzzy_cmp(&x) != Ordering::Greater
                 };
 
@@ -170,13 +175,13 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
                     && is_point_on_line(prev_x, prev_y, x, y, x2, y2)
                 };
 
-                if is_vlineto() {
+                if !is_next_smooth && is_vlineto() {
                     *curr_seg = Segment::new_line_to(prev_x, y);
                     *is_changed = true;
-                } else if is_hlineto() {
+                } else if !is_next_smooth && is_hlineto() {
                     *curr_seg = Segment::new_line_to(x, prev_y);
                     *is_changed = true;
-                } else if is_lineto() {
+                } else if !is_next_smooth && is_lineto() {
                     *curr_seg = Segment::new_line_to(x, y);
                     *is_changed = true;
                 } else {
diff --git a/src/task/paths/rm_unused.rs b/src/task/paths/rm_unused.rs
index 581f6d4..bfbb494 100644
--- a/src/task/paths/rm_unused.rs
+++ b/src/task/paths/rm_unused.rs
@@ -119,9 +119,37 @@ fn remove_mz(path: &mut Path) -> bool {
 
 // If current segment is the same as previous - remove it.
 fn remove_equal(path: &mut Path) -> bool {
-    drain_by_pair(path, DrainMode::Single, |prev, curr| {
-        prev.fuzzy_eq(curr)
-    })
+    let old_len = path.d.len();
+
+    let mut i = 1;
+    while i < path.d.len() {
+        if path.d[i - 1].fuzzy_eq(&path.d[i]) && is_repeatable(path, i - 1) {
+            path.d.remove(i - 1);
+        } else {
+            i += 1;
+        }
+    }
+
+    old_len != path.d.len()
+}
+
+// Checks that the same segment, drawn again from the point where the specified one has ended,
+// will not add anything new.
+fn is_repeatable(path: &Path, i: usize) -> bool {
+    match path.d[i].cmd() {
+        // The second curve starts from the end of the first one,
+        // so they will be the same only when the curve is closed.
+          Command::CurveTo
+        | Command::Quadratic => {
+            let (x, y) = utils::resolve_xy(path, i);
+            let (px, py) = utils::resolve_xy(path, i - 1);
+            x.fuzzy_eq(&px) && y.fuzzy_eq(&py)
+        }
+        // The second curve will have a different control point.
+          Command::SmoothCurveTo
+        | Command::SmoothQuadratic => false,
+        _ => true,
+    }
 }
 
 // If segment moved to the same position as current - remove it.
@@ -139,7 +167,7 @@ fn remove_zero_lenght(path: &mut Path, is_changed: &mut bool) {
             _ => false,
         };
 
-        if is_equal {
+        if is_equal && !is_breaks_smooth(path, i) {
             path.d.remove(i);
             i -= 1;
             *is_changed = true;
@@ -149,6 +177,30 @@ fn remove_zero_lenght(path: &mut Path, is_changed: &mut bool) {
     }
 }
 
+// Checks that the next segment is a smooth curve, which will get a control point
+// of the previous curve after the current segment removing.
+fn is_breaks_smooth(path: &Path, i: usize) -> bool {
+    if i + 1 >= path.d.len() {
+        return false;
+    }
+
+    match path.d[i + 1].cmd() {
+        Command::SmoothCurveTo => {
+            match path.d[i - 1].cmd() {
+                Command::CurveTo | Command::SmoothCurveTo => true,
+                _ => false,
+            }
+        }
+        Command::SmoothQuadratic => {
+            match path.d[i - 1].cmd() {
+                Command::Quadratic | Command::SmoothQuadratic => true,
+                _ => false,
+            }
+        }
+        _ => false,
+    }
+}
+
 fn process_lz(path: &mut Path, is_changed: &mut bool) {
     if path.d.is_empty() {
         return;
-- 
2.43.0


From 58a15ee48420f5641ad782a210b5868317943acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 02/81] fix: keep path segments that are visible through
 inherited markers and line caps

---
 src/task/paths/mod.rs | 63 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index 18fc59a..b6a9317 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -19,7 +19,9 @@
 use svgdom::{
     AttributeValue,
     Document,
+    Node,
     Transform,
+    ValueId,
 };
 use svgdom::path::Path;
 
@@ -37,8 +39,17 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         // it will break rendering.
         //
         // TODO: do not remove first segment if node has marker
-        let has_marker = node.has_attributes(&[AId::Marker, AId::MarkerStart,
-                                               AId::MarkerMid, AId::MarkerEnd]);
+        let has_marker = has_inherited_attribute(&node, |n| {
+            n.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd])
+        });
+
+        // Zero-length subpaths are visible when an element has a non-default 'stroke-linecap'.
+        let has_linecap = has_inherited_attribute(&node, |n| {
+            match n.attributes().get_value(AId::StrokeLinecap) {
+                Some(&AttributeValue::PredefValue(ValueId::Butt)) | None => false,
+                _ => true,
+            }
+        });
 
         let mut ts = None;
         if opt.apply_transform_to_paths {
@@ -64,12 +75,29 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
 
         let mut attrs = node.attributes_mut();
         if let Some(&mut AttributeValue::Path(ref mut path)) = attrs.get_value_mut(AId::D) {
-            process_path(path, has_marker, ts, opt);
+            process_path(path, has_marker, has_linecap, ts, opt);
         }
     }
 }
 
-fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &CleaningOptions) {
+// Checks an element, its parents and all 'use' elements that are linked to them.
+fn has_inherited_attribute<P>(node: &Node, p: P) -> bool
+    where P: Fn(&Node) -> bool
+{
+    node.parents_with_self().any(|n| {
+        p(&n) || n.linked_nodes().any(|link| {
+            link.is_tag_name(EId::Use) && link.parents_with_self().any(|n| p(&n))
+        })
+    })
+}
+
+fn process_path(
+    path: &mut Path,
+    has_marker: bool,
+    has_linecap: bool,
+    ts: Option<Transform>,
+    opt: &CleaningOptions,
+) {
     if path.d.is_empty() {
         return;
     }
@@ -83,7 +111,8 @@ fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &
         conv_segments::convert_segments(path);
     }
 
-    if opt.remove_unused_segments && !has_marker {
+    let keep_segments = has_marker || (has_linecap && utils::has_zero_length_subpath(path));
+    if opt.remove_unused_segments && !keep_segments {
         rm_unused::remove_unused_segments(path);
 
         if path.d.is_empty() {
@@ -110,8 +139,32 @@ fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &
 }
 
 mod utils {
+    use svgdom::FuzzyEq;
     use svgdom::path::{Path, Command};
 
+    // Checks that path has a subpath that contains drawing commands but has no length.
+    pub fn has_zero_length_subpath(path: &Path) -> bool {
+        let mut start = 0;
+        while start < path.d.len() {
+            let next = path.d.iter().skip(start + 1).position(|s| s.cmd() == Command::MoveTo);
+            let end = next.map(|n| start + 1 + n).unwrap_or(path.d.len());
+
+            let (mx, my) = resolve_xy(path, start);
+            let is_zero = (start..end).all(|i| {
+                let (x, y) = resolve_xy(path, i);
+                x.fuzzy_eq(&mx) && y.fuzzy_eq(&my)
+            });
+
+            if is_zero && end - start > 1 {
+                return true;
+            }
+
+            start = end;
+        }
+
+        false
+    }
+
     // HorizontalLineTo, VerticalLineTo and ClosePath does not have 'x'/'y' coordinates,
     // so we have to find them in previous segments.
     pub fn resolve_xy(path: &Path, start: usize) -> (f64, f64) {
-- 
2.43.0


From 22f188fdb413f39c98294a1f96a60495b5462e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 03/81] fix: do not close a subpath because of a zero-length
 line

---
 src/task/paths/rm_unused.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/task/paths/rm_unused.rs b/src/task/paths/rm_unused.rs
index bfbb494..c8d6150 100644
--- a/src/task/paths/rm_unused.rs
+++ b/src/task/paths/rm_unused.rs
@@ -238,7 +238,11 @@ fn process_lz(path: &mut Path, is_changed: &mut bool) {
             let prev = path.d[prev_i];
             if is_line_based(prev.cmd()) {
                 let (x, y) = utils::resolve_xy(path, prev_i);
-                if mx.fuzzy_eq(&x) && my.fuzzy_eq(&y) {
+                // A zero-length segment does not close a subpath with other segments.
+                let (px, py) = utils::resolve_xy(path, prev_i - 1);
+                let is_zero =    path.d[prev_i - 1].cmd() != Command::MoveTo
+                              && px.fuzzy_eq(&x) && py.fuzzy_eq(&y);
+                if mx.fuzzy_eq(&x) && my.fuzzy_eq(&y) && !is_zero {
                     // Replace line-based segment with ClosePath.
                     path.d[prev_i] = Segment::new_close_path();
                     *is_changed = true;
-- 
2.43.0


From ef76fb853fcda221c24583f075f02be4f7fcc82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 04/81] fix: do not treat a curve with out-of-line control
 points as a line

---
 src/task/paths/conv_segments.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index c24dcfd..f8a8b0c 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -229,8 +229,8 @@ fn is_point_on_line(x1: f64, y1: f64, x2: f64, y2: f64, x: f64, y: f64) -> bool
         // Process vertical line.
         let o1 = y.fuzzy_cmp(&y1);
         let o2 = y.fuzzy_cmp(&y2);
-        if    (o1 != Ordering::Less    && o2 != Ordering::Greater)
-           || (o1 != Ordering::Greater && o2 != Ordering::Less) {
+        if x.fuzzy_eq(&x1) && (   (o1 != Ordering::Less    && o2 != Ordering::Greater)
+                               || (o1 != Ordering::Greater && o2 != Ordering::Less)) {
             return true;
         }
     } else {
-- 
2.43.0


From 9e8be400c6ba4b0f141833406078d57260ffe04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 05/81] fix: keep gradients intact when removing empty and
 single-stop gradients

A gradient that uses stops of a single-stop gradient was losing them, a gradient
linked to an empty one was getting an invalid link, and the stop opacity was replacing
the opacity of an element instead of being multiplied with it.
---
 src/task/rm_invisible_elems.rs | 44 ++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 96c3b20..6679d19 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -231,7 +231,12 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
         for n in iter {
             for mut link in n.linked_nodes().collect::<Vec<Node>>() {
                 while let Some(aid) = find_link_attribute(&link, &n) {
-                    link.set_attribute((aid, ValueId::None));
+                    if link.is_gradient() {
+                        // All attributes are already resolved, so we don't need this link anymore.
+                        link.remove_attribute(aid);
+                    } else {
+                        link.set_attribute((aid, ValueId::None));
+                    }
                 }
             }
             nodes.push(n.clone());
@@ -263,21 +268,28 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
 
             // Replace links with colors, but not in gradients,
             // because it will lead to 'xlink:href=#ffffff', which is wrong.
+            let is_opaque = opacity.fuzzy_eq(&1.0);
             for mut link in n.linked_nodes()
                              .filter(|n| !n.is_gradient())
+                             .filter(|n| is_opaque || is_valid_opacity_target(n))
                              .collect::<Vec<Node>>() {
                 while let Some(aid) = find_link_attribute(&link, &n) {
+                    *is_any_removed = true;
                     link.set_attribute((aid, color));
-                    if opacity.fuzzy_ne(&1.0) {
+                    if !is_opaque {
                         match aid {
-                            AId::Fill => link.set_attribute((AId::FillOpacity, opacity)),
-                            AId::Stroke => link.set_attribute((AId::StrokeOpacity, opacity)),
+                            AId::Fill => mul_opacity(&mut link, AId::FillOpacity, opacity),
+                            AId::Stroke => mul_opacity(&mut link, AId::StrokeOpacity, opacity),
                             _ => {}
                         }
                     }
                 }
             }
-            nodes.push(n.clone());
+
+            // The stop can still be used by other gradients.
+            if !n.is_used() {
+                nodes.push(n.clone());
+            }
         }
     }
 
@@ -288,6 +300,28 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
     utils::remove_nodes(&mut nodes);
 }
 
+// 'fill-opacity' and 'stroke-opacity' are inheritable, so we can't change them
+// on elements with children, because children can have their own paint or opacity.
+// And in case of a used element we do not know the actual value of those attributes.
+fn is_valid_opacity_target(node: &Node) -> bool {
+    !node.has_children() && !node.parents_with_self().any(|n| n.is_used())
+}
+
+fn mul_opacity(node: &mut Node, aid: AId, opacity: f64) {
+    let parent = node.parents_with_self().find(|n| n.has_attribute(aid));
+    let old_opacity = match parent {
+        Some(n) => {
+            match n.attributes().get_value(aid) {
+                Some(&AttributeValue::Number(n)) => n,
+                _ => 1.0,
+            }
+        }
+        None => 1.0,
+    };
+
+    node.set_attribute((aid, old_opacity * opacity));
+}
+
 fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
     let attrs = node.attributes();
 
-- 
2.43.0


From 893bbfd5e0c0fe9d333a59bae12514447d8240a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 06/81] fix: do not remove gradients that differ only by a link
 as duplicates

---
 src/task/rm_dupl_defs/mod.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index d2304bc..ff39879 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -50,7 +50,7 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
     let mut len = nodes.len();
     let mut i1 = 0;
     while i1 < len {
-        let node1 = nodes[i1].clone();
+        let mut node1 = nodes[i1].clone();
 
         let mut i2 = i1 + 1;
         while i2 < len {
@@ -87,6 +87,11 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
                 link_attrs.clear();
             }
 
+            // Attributes inherited from the removed node must be preserved.
+            if is_linked_to(&node1, &node2) {
+                show_attributes(&mut node1, &node2);
+            }
+
             node2.remove();
 
             nodes.remove(i2 - 1);
@@ -108,6 +113,12 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
         if attrs1.get_value(AId::XlinkHref).unwrap() != attrs2.get_value(AId::XlinkHref).unwrap() {
             return false;
         }
+    } else if attrs1.contains(AId::XlinkHref) || attrs2.contains(AId::XlinkHref) {
+        // Gradients without own stops are using stops of a linked gradient.
+        let has_stops = node1.has_children() && node2.has_children();
+        if !has_stops && !is_linked_to(node1, node2) && !is_linked_to(node2, node1) {
+            return false;
+        }
     }
 
     for aid in attrs.iter() {
@@ -119,6 +130,25 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
     true
 }
 
+fn is_linked_to(node: &Node, link: &Node) -> bool {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref n)) => n == link,
+        _ => false,
+    }
+}
+
+// Resolved attributes are invisible by default.
+fn show_attributes(node: &mut Node, link: &Node) {
+    let link_attrs = link.attributes();
+    for attr in node.attributes_mut().iter_mut() {
+        if let Some(aid) = attr.id() {
+            if link_attrs.get(aid).map(|a| a.visible) == Some(true) {
+                attr.visible = true;
+            }
+        }
+    }
+}
+
 pub fn is_equal_stops(node1: &Node, node2: &Node) -> bool {
     let children_count1 = node1.children().count();
 
-- 
2.43.0


From 4af85a043f02cfef42e1c21c3756e1eaf8cca432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 07/81] fix: do not merge gradients of different types when the
 result is used by other gradients

---
 src/task/merge_gradients.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index b0d46af..233a88a 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -81,6 +81,12 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
             continue;
         }
 
+        // Different types of gradients have different attributes, so a gradient of other type
+        // can't store attributes that should be inherited by gradients linked to it.
+        if node.tag_id() != linked_node.tag_id() && node.linked_nodes().any(|n| n.is_gradient()) {
+            continue;
+        }
+
         if !node.has_children() {
             // Append 'stop' elements only when we don't have any before.
             while let Some(mut child) = linked_node.first_child() {
-- 
2.43.0


From 8e5729f8acbfdc89cdaf9b1ea11662f04271f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 08/81] fix: keep attributes of the linked element while
 resolving 'use'

---
 src/task/resolve_use.rs | 109 +++++++++++++++++++++++++++++++++-------
 1 file changed, 91 insertions(+), 18 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 29e17bb..378bdc5 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -19,8 +19,11 @@
 use svgdom::{
     AttributeValue,
     Document,
+    FuzzyEq,
     Length,
+    Node,
     Transform,
+    ValueId,
 };
 
 use task::short::{EId, AId, Unit};
@@ -53,11 +56,25 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
+                // 'use' sets a size and a position of the 'svg' element in a different way.
+                if link.is_tag_name(EId::Svg) {
+                    continue;
+                }
+
                 // Element should be used only once.
                 if link.uses_count() != 1 {
                     continue;
                 }
 
+                // 'use' linked to its own parent is invalid.
+                if node.parents().any(|n| n == *link) {
+                    continue;
+                }
+
+                if !is_mergeable(&node, link) {
+                    continue;
+                }
+
                 nodes.push((node.clone(), link.clone()));
             }
         }
@@ -67,34 +84,59 @@ pub fn resolve_use(doc: &Document) {
         // Unlink 'use'.
         node.remove_attribute(AId::XlinkHref);
 
+        // 'use' element support 'x', 'y' and 'transform' attributes and we should process them
+        // so we prepend them to the linked element transform.
         {
-            // 'use' element support 'x', 'y' and 'transform' attributes and we should process them
-            // so we apply translate transform to the linked element transform.
-
-            let mut attrs = node.attributes_mut();
+            let mut ts = get_value!(node.attributes(), Transform, AId::Transform,
+                                    Transform::default());
+            let (x, y) = use_position(&node);
+            ts.translate(x.num, y.num);
 
-            // 'x' or 'y' should be set.
-            if attrs.contains(AId::X) || attrs.contains(AId::Y) {
-                let x = get_value!(attrs, Length, AId::X, Length::zero());
-                let y = get_value!(attrs, Length, AId::Y, Length::zero());
-
-                // We can apply 'x' and 'y' to transform only when they have 'none' units.
-                if !(x.unit == Unit::None && y.unit == Unit::None) {
-                    continue;
+            let mut attrs = link.attributes_mut();
+            if let Some(link_ts) = attrs.get_value(AId::Transform).cloned() {
+                if let AttributeValue::Transform(link_ts) = link_ts {
+                    ts.append(&link_ts);
                 }
+            }
 
-                let mut ts = get_value!(attrs, Transform, AId::Transform, Transform::default());
-                ts.translate(x.num, y.num);
-
+            if !ts.is_default() {
                 attrs.insert_from(AId::Transform, ts);
-                attrs.remove(AId::X);
-                attrs.remove(AId::Y);
+            } else {
+                attrs.remove(AId::Transform);
             }
         }
 
         // Copy attributes.
         for attr in node.attributes().iter() {
-            link.set_attribute(attr.clone());
+            match attr.id().unwrap_or(AId::Id) {
+                // Already processed or doesn't affect the linked element.
+                  AId::X
+                | AId::Y
+                | AId::Width
+                | AId::Height
+                | AId::Transform => continue,
+                AId::Opacity => {
+                    // Both of them should be applied.
+                    let o1 = get_value!(node.attributes(), Number, AId::Opacity, 1.0);
+                    let o2 = get_value!(link.attributes(), Number, AId::Opacity, 1.0);
+                    link.set_attribute((AId::Opacity, o1 * o2));
+                    continue;
+                }
+                AId::Display => {
+                    // 'display' is not inheritable, but it can disable the whole subtree.
+                    if attr.value == AttributeValue::PredefValue(ValueId::None) {
+                        link.set_attribute(attr.clone());
+                    }
+                    continue;
+                }
+                _ => {}
+            }
+
+            // Attributes of the linked element have a higher priority
+            // than attributes inherited from the 'use'.
+            if !link.attributes().contains(attr.name.into_ref()) {
+                link.set_attribute(attr.clone());
+            }
         }
 
         // TODO: maybe just change the tag name
@@ -105,6 +147,37 @@ pub fn resolve_use(doc: &Document) {
     }
 }
 
+fn use_position(node: &Node) -> (Length, Length) {
+    let attrs = node.attributes();
+    let x = get_value!(attrs, Length, AId::X, Length::zero());
+    let y = get_value!(attrs, Length, AId::Y, Length::zero());
+    (x, y)
+}
+
+// Checks that attributes of the 'use' can be moved to the linked element.
+fn is_mergeable(node: &Node, link: &Node) -> bool {
+    let (x, y) = use_position(node);
+
+    // We can apply 'x' and 'y' to transform only when they have 'none' units.
+    if !(x.unit == Unit::None && y.unit == Unit::None) {
+        return false;
+    }
+
+    // Those attributes depend on a coordinate system of the 'use' and should be applied
+    // after the same attributes of the linked element.
+    let effects = [AId::ClipPath, AId::Mask, AId::Filter];
+    if effects.iter().any(|aid| node.has_attribute(*aid)) {
+        let has_pos = !x.num.is_fuzzy_zero() || !y.num.is_fuzzy_zero();
+        if has_pos || link.has_attribute(AId::Transform) || link.has_attribute(AId::Opacity)
+           || effects.iter().any(|aid| link.has_attribute(*aid))
+        {
+            return false;
+        }
+    }
+
+    true
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From deca05c29fd3d9350e028f74a7172a97308c87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 09/81] fix: do not move a stop opacity to 'use', because it
 affects only inherited paint

---
 src/task/rm_invisible_elems.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 6679d19..35178ee 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -304,7 +304,8 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
 // on elements with children, because children can have their own paint or opacity.
 // And in case of a used element we do not know the actual value of those attributes.
 fn is_valid_opacity_target(node: &Node) -> bool {
-    !node.has_children() && !node.parents_with_self().any(|n| n.is_used())
+    !node.has_children() && !node.is_tag_name(EId::Use)
+    && !node.parents_with_self().any(|n| n.is_used())
 }
 
 fn mul_opacity(node: &mut Node, aid: AId, opacity: f64) {
-- 
2.43.0


From e349ad8b854e986bf6528f9e329674e996e969c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 10/81] fix: do not remove attributes that override values
 inherited through 'use' or affect markers

---
 src/task/paths/mod.rs         | 15 ++---------
 src/task/rm_default_attrs.rs  |  6 +++++
 src/task/rm_needless_attrs.rs | 32 ++++++++++++++++++------
 src/task/utils.rs             | 47 ++++++++++++++++++++++++++++++++++-
 4 files changed, 78 insertions(+), 22 deletions(-)

diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index b6a9317..019b11b 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -39,12 +39,12 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         // it will break rendering.
         //
         // TODO: do not remove first segment if node has marker
-        let has_marker = has_inherited_attribute(&node, |n| {
+        let has_marker = ::task::utils::any_inherited(&node, |n| {
             n.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd])
         });
 
         // Zero-length subpaths are visible when an element has a non-default 'stroke-linecap'.
-        let has_linecap = has_inherited_attribute(&node, |n| {
+        let has_linecap = ::task::utils::any_inherited(&node, |n| {
             match n.attributes().get_value(AId::StrokeLinecap) {
                 Some(&AttributeValue::PredefValue(ValueId::Butt)) | None => false,
                 _ => true,
@@ -80,17 +80,6 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
     }
 }
 
-// Checks an element, its parents and all 'use' elements that are linked to them.
-fn has_inherited_attribute<P>(node: &Node, p: P) -> bool
-    where P: Fn(&Node) -> bool
-{
-    node.parents_with_self().any(|n| {
-        p(&n) || n.linked_nodes().any(|link| {
-            link.is_tag_name(EId::Use) && link.parents_with_self().any(|n| p(&n))
-        })
-    })
-}
-
 fn process_path(
     path: &mut Path,
     has_marker: bool,
diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 1eff726..59ec4ec 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -26,6 +26,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId, Unit};
+use task::utils;
 
 // TODO: xml:space
 
@@ -38,6 +39,11 @@ pub fn remove_default_attributes(doc: &Document) {
         for (aid, attr) in node.attributes().iter_svg() {
             if attr.is_presentation() {
                 if attr.check_is_default() {
+                    // Default value can override a value inherited from 'use'.
+                    if attr.is_inheritable() && utils::is_inherited_via_use(&node, aid) {
+                        continue;
+                    }
+
                     if let Some(n) = node.parents().find(|n| n.has_attribute(aid)) {
                         if let Some(a) = n.attributes().get(aid) {
                             if !a.visible {
diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 184ce33..16827d6 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -27,6 +27,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 // TODO: split to suboptions
 
@@ -148,8 +149,13 @@ fn is_basic_shapes_attr(a: &Attribute) -> bool {
     || a.has_id(AId::Transform)
 }
 
+// Attributes of a 'use' element will be inherited by a linked element.
+fn is_leaf(node: &Node) -> bool {
+    !node.has_children() && !node.is_tag_name(EId::Use)
+}
+
 fn process_fill(node: &mut Node) {
-    if !node.has_children() {
+    if is_leaf(node) {
         // If 'fill' is disabled we can remove fill-based attributes.
         let av = node.attributes().get_value(AId::Fill).cloned();
         if let Some(av) = av {
@@ -183,11 +189,6 @@ static STROKE_ATTRIBUTES: &'static [AId] = &[
 
 fn process_stroke(node: &mut Node) {
     fn is_invisible(node: &Node) -> bool {
-        // Skip nodes with marker, because it doesn't count opacity and stroke-width.
-        if node.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd]) {
-            return false;
-        }
-
         // The stroke will not be drawn if stoke-width is 0.
         if let Some(v) = node.attributes().get_value(AId::StrokeWidth) {
             if let AttributeValue::Length(l) = *v {
@@ -209,7 +210,17 @@ fn process_stroke(node: &mut Node) {
         false
     }
 
-    if !node.has_children() {
+    if is_leaf(node) {
+        // Skip nodes with marker, because it doesn't count opacity and
+        // its size depends on stroke-width even when there is no stroke.
+        let has_marker = utils::any_inherited(node, |n| {
+            n.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd])
+        });
+
+        if has_marker {
+            return;
+        }
+
         if is_invisible(node) {
             // Remove all stroke-based attributes if stroke is invisible.
             node.remove_attribute(AId::Stroke);
@@ -223,6 +234,10 @@ fn process_stroke(node: &mut Node) {
                     node.set_attribute((AId::Stroke, ValueId::None));
                 }
             }
+
+            if utils::is_inherited_via_use(node, AId::Stroke) {
+                node.set_attribute((AId::Stroke, ValueId::None));
+            }
         } else {
             let av = node.attributes().get_value(AId::Stroke).cloned();
             if let Some(av) = av {
@@ -233,7 +248,8 @@ fn process_stroke(node: &mut Node) {
 
                     // If the parent element doesn't define 'stroke' - we can remove it
                     // from the current element.
-                    if node.parents().find(|n| n.has_attribute(AId::Stroke)).is_none() {
+                    if    node.parents().find(|n| n.has_attribute(AId::Stroke)).is_none()
+                       && !utils::is_inherited_via_use(node, AId::Stroke) {
                         node.remove_attribute(AId::Stroke);
                     }
                 }
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 26deec5..93b835c 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -22,7 +22,7 @@ use svgdom::{
     Node,
 };
 
-use task::short::AId;
+use task::short::{EId, AId};
 
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
@@ -79,6 +79,51 @@ fn recalc_stroke_dasharray(node: &mut Node, scale_factor: f64) {
     }
 }
 
+/// Checks an element and everything it can inherit attributes from.
+///
+/// Which is not only parents, but also `use` elements linked to them.
+pub fn any_inherited<P>(node: &Node, p: P) -> bool
+    where P: Fn(&Node) -> bool
+{
+    let mut queue = vec![node.clone()];
+    let mut visited: Vec<Node> = Vec::new();
+    while let Some(node) = queue.pop() {
+        for n in node.parents_with_self() {
+            if p(&n) {
+                return true;
+            }
+
+            for link in n.linked_nodes().filter(|n| n.is_tag_name(EId::Use)) {
+                if !visited.contains(&link) {
+                    visited.push(link.clone());
+                    queue.push(link);
+                }
+            }
+        }
+    }
+
+    false
+}
+
+/// Checks that an element inherits an attribute from a `use` element.
+///
+/// Attributes of the element itself are ignored.
+pub fn is_inherited_via_use(node: &Node, aid: AId) -> bool {
+    for n in node.parents_with_self() {
+        if n != *node && n.has_attribute(aid) {
+            return false;
+        }
+
+        for link in n.linked_nodes().filter(|n| n.is_tag_name(EId::Use)) {
+            if any_inherited(&link, |n| n.has_attribute(aid)) {
+                return true;
+            }
+        }
+    }
+
+    false
+}
+
 pub fn remove_nodes(nodes: &mut Vec<Node>) {
     for n in nodes.iter_mut() {
         n.remove();
-- 
2.43.0


From 99ca672dffcdc2b201480e6e6c1295fe69440919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 11/81] fix: do not convert a rect with markers into a path

---
 src/task/conv_shapes.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/task/conv_shapes.rs b/src/task/conv_shapes.rs
index 6f5530f..93a82b0 100644
--- a/src/task/conv_shapes.rs
+++ b/src/task/conv_shapes.rs
@@ -92,6 +92,11 @@ fn convert_rect(node: &mut Node) {
         let w = get_value!(attrs, Length, AId::Width, Length::zero());
         let h = get_value!(attrs, Length, AId::Height, Length::zero());
 
+        // Unlike 'rect', 'path' can have markers.
+        if has_markers(node) {
+            return;
+        }
+
         // If values equals to zero than the rect is invisible. Skip it.
         if w.num.is_fuzzy_zero() || h.num.is_fuzzy_zero() {
             return;
@@ -119,6 +124,12 @@ fn convert_rect(node: &mut Node) {
     node.remove_attributes(&[AId::X, AId::Y, AId::Rx, AId::Ry, AId::Width, AId::Height]);
 }
 
+fn has_markers(node: &Node) -> bool {
+    ::task::utils::any_inherited(node, |n| {
+        n.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd])
+    })
+}
+
 fn convert_polyline(node: &mut Node) {
     debug_assert!(node.is_tag_name(EId::Polyline));
 
-- 
2.43.0


From 63fe1800c9a1e9613ded46d208e55f3759088983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 12/81] fix: keep inherited attributes of referenced elements
 while moving them to defs

---
 src/task/group_defs.rs | 59 ++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 48a1e7f..bfa6885 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -17,6 +17,7 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeType,
     Document,
     ElementType,
@@ -35,6 +36,16 @@ pub fn group_defs(doc: &mut Document) {
         None => doc.create_element(EId::Defs),
     };
 
+    // Referenced elements inside the 'defs' inherits attributes from it and from it's parents.
+    {
+        let parents: Vec<Node> = defs.parents_with_self().filter(|n| *n != svg).collect();
+        if parents.iter().any(|n| n.attributes().iter().any(|a| a.is_inheritable())) {
+            for node in defs.children().filter(|n| n.is_referenced()) {
+                resolve_attrs(&node);
+            }
+        }
+    }
+
     // Make 'defs' a first child of the 'svg'.
     if svg.first_child() != Some(defs.clone()) {
         defs.detach();
@@ -98,33 +109,49 @@ pub fn group_defs(doc: &mut Document) {
 
 // Graphical elements inside referenced elements inherits parent attributes,
 // so if we want to move this elements to the 'defs' - we should resolve attributes too.
+//
+// A 'symbol' element is an exception, because it's content inherits attributes
+// from the 'use' element.
 fn resolve_attrs(node: &Node) {
-    match node.tag_id().unwrap() {
+    let tag_id = match node.tag_id() {
+        Some(id) => id,
+        None => return,
+    };
+
+    match tag_id {
           EId::ClipPath
         | EId::Marker
         | EId::Mask
-        | EId::Pattern
-        | EId::Symbol => {
-            let mut parent = Some(node.clone());
-            while let Some(p) = parent {
-                let attrs = p.attributes();
-                for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_inheritable()) {
-                    for mut child in node.children() {
-                        if child.has_attribute(aid) {
-                            continue;
-                        }
-
-                        child.set_attribute(attr.clone());
-                    }
+        | EId::Pattern => {
+            for mut child in node.children().collect::<Vec<Node>>() {
+                if child.is_used() {
+                    // Attributes set on the linked element will affect the 'use' element too,
+                    // so use the parent instead.
+                    copy_attrs(node, &mut node.clone());
+                } else {
+                    copy_attrs(node, &mut child);
                 }
-
-                parent = p.parent();
             }
         }
         _ => {}
     }
 }
 
+fn copy_attrs(from: &Node, to: &mut Node) {
+    let mut attrs: Vec<Attribute> = Vec::new();
+    for p in from.parents_with_self() {
+        attrs.extend(p.attributes().iter_svg().map(|(_, a)| a)
+                      .filter(|a| a.is_inheritable()).cloned());
+    }
+
+    for attr in attrs {
+        // Attributes of the closest parent have a higher priority.
+        if !to.has_attribute(attr.id().unwrap()) {
+            to.set_attribute(attr);
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 20a26951833d226b39f00b4c6c1ec963bef312b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 13/81] fix: keep the document valid after joining style
 attributes

---
 src/task/join_style_attrs.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 1d2cbd6..30d156e 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -27,7 +27,7 @@ use task::short::AId;
 use options::StyleJoinMode;
 
 pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOptions) {
-    // NOTE: Must be run at last, since it breaks linking.
+    // NOTE: Must be run at last, since it removes links.
 
     if mode == StyleJoinMode::None {
         return;
@@ -42,10 +42,9 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         // 5 - is an amount of attributes when style notation is becoming more efficient than
         // split attributes.
         if (mode == StyleJoinMode::Some && count > 5) || mode == StyleJoinMode::All {
-            let mut attrs = node.attributes_mut();
             let mut ids = Vec::new();
             let mut style = Vec::new();
-            for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_presentation()) {
+            for (aid, attr) in node.attributes().iter_svg().filter(|&(_, a)| a.is_presentation()) {
                 if !attr.visible {
                     continue;
                 }
@@ -61,13 +60,10 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
 
             // Unwrap can't fail.
             let style_str = String::from_utf8(style).unwrap();
-            attrs.insert_from(AId::Style, style_str);
+            node.set_attribute((AId::Style, style_str));
 
-            for id in ids {
-                // Use "private" method, because we breaking linking on purpose.
-                // Default 'remove()' will panic here.
-                attrs.remove_impl(id);
-            }
+            // Linked nodes must be unlinked too, otherwise the document will became invalid.
+            node.remove_attributes(&ids);
         }
     }
 }
-- 
2.43.0


From 043ed77e130a71cbdfde34ff0bf8499a7db3017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 14/81] fix: do not move a group transform to elements that are
 used elsewhere

---
 src/task/apply_transforms/preproc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/task/apply_transforms/preproc.rs b/src/task/apply_transforms/preproc.rs
index beb3271..68e706d 100644
--- a/src/task/apply_transforms/preproc.rs
+++ b/src/task/apply_transforms/preproc.rs
@@ -65,6 +65,8 @@ pub fn prepare_transforms(parent: &Node, recursive: bool, opt: &CleaningOptions)
             && utils::has_valid_transform(&n)
             && utils::is_valid_attrs(&n)
             && is_valid_coords
+            // 'use' is not affected by a group transform.
+            && !n.is_used()
         });
 
         if is_valid {
-- 
2.43.0


From 6b49b3c48e744a76ca168476b67acdd1abfdf048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 15/81] fix: keep markers and values inherited through 'use'
 while processing paths and transforms

---
 src/task/apply_transforms/mod.rs    | 32 +++++++++++++++++++++++++++++
 src/task/apply_transforms/shapes.rs |  4 ++++
 src/task/conv_shapes.rs             |  8 +-------
 src/task/paths/mod.rs               | 24 ++++++++++++++++++----
 src/task/rm_needless_attrs.rs       |  6 +-----
 src/task/utils.rs                   |  6 ++++++
 6 files changed, 64 insertions(+), 16 deletions(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index caec379..a18f900 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -34,6 +34,7 @@ pub mod utils {
     };
 
     use task::short::{EId, AId, Unit};
+    use task::utils::{any_inherited, has_inherited_marker, is_inherited_via_use};
 
     // TODO: remove
     pub fn has_valid_transform(node: &Node) -> bool {
@@ -76,6 +77,21 @@ pub mod utils {
         true
     }
 
+    // We have to scale a stroke too, so we should know it's actual value.
+    // Also, markers size depends on a scale.
+    pub fn is_valid_stroke(node: &Node, ts: &Transform) -> bool {
+        if !ts.has_scale() {
+            return true;
+        }
+
+        let attrs = [AId::StrokeWidth, AId::StrokeDasharray, AId::StrokeDashoffset];
+        let is_unknown = attrs.iter().any(|aid| {
+            !node.has_attribute(*aid) && is_inherited_via_use(node, *aid)
+        });
+
+        !is_unknown && !has_inherited_marker(node)
+    }
+
     // Checks that first occurred attribute value is not a FuncLink.
     fn is_valid_attr(node: &Node, aid: AId) -> bool {
         for parent in node.parents_with_self() {
@@ -86,11 +102,27 @@ pub mod utils {
                 Some(_) => return true,
                 _ => {}
             }
+
+            // Attributes can be inherited from 'use' too.
+            let is_valid = !parent.linked_nodes().filter(|n| n.is_tag_name(EId::Use)).any(|n| {
+                any_inherited(&n, |n| has_link(n, aid))
+            });
+
+            if !is_valid {
+                return false;
+            }
         }
 
         true
     }
 
+    fn has_link(node: &Node, aid: AId) -> bool {
+        match node.attributes().get_value(aid) {
+            Some(&AttributeValue::FuncLink(_)) => true,
+            _ => false,
+        }
+    }
+
     // We can process only coordinates without units.
     pub fn is_valid_coords(node: &Node) -> bool {
         match node.tag_id().unwrap() {
diff --git a/src/task/apply_transforms/shapes.rs b/src/task/apply_transforms/shapes.rs
index fdfde01..e54088f 100644
--- a/src/task/apply_transforms/shapes.rs
+++ b/src/task/apply_transforms/shapes.rs
@@ -51,6 +51,10 @@ fn process<F>(node: &mut Node, func: F)
 
     let ts = utils::get_ts(node);
 
+    if !utils::is_valid_stroke(node, &ts) {
+        return;
+    }
+
     {
         let mut attrs = node.attributes_mut();
         func(&mut attrs, &ts);
diff --git a/src/task/conv_shapes.rs b/src/task/conv_shapes.rs
index 93a82b0..cc95fa4 100644
--- a/src/task/conv_shapes.rs
+++ b/src/task/conv_shapes.rs
@@ -93,7 +93,7 @@ fn convert_rect(node: &mut Node) {
         let h = get_value!(attrs, Length, AId::Height, Length::zero());
 
         // Unlike 'rect', 'path' can have markers.
-        if has_markers(node) {
+        if ::task::utils::has_inherited_marker(node) {
             return;
         }
 
@@ -124,12 +124,6 @@ fn convert_rect(node: &mut Node) {
     node.remove_attributes(&[AId::X, AId::Y, AId::Rx, AId::Ry, AId::Width, AId::Height]);
 }
 
-fn has_markers(node: &Node) -> bool {
-    ::task::utils::any_inherited(node, |n| {
-        n.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd])
-    })
-}
-
 fn convert_polyline(node: &mut Node) {
     debug_assert!(node.is_tag_name(EId::Polyline));
 
diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index 019b11b..ca23028 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -39,9 +39,7 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         // it will break rendering.
         //
         // TODO: do not remove first segment if node has marker
-        let has_marker = ::task::utils::any_inherited(&node, |n| {
-            n.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd])
-        });
+        let has_marker = ::task::utils::has_inherited_marker(&node);
 
         // Zero-length subpaths are visible when an element has a non-default 'stroke-linecap'.
         let has_linecap = ::task::utils::any_inherited(&node, |n| {
@@ -57,7 +55,8 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
                 let tsl = ts_utils::get_ts(&node);
 
                 if    ts_utils::is_valid_transform(&tsl)
-                   && ts_utils::is_valid_attrs(&node) {
+                   && ts_utils::is_valid_attrs(&node)
+                   && ts_utils::is_valid_stroke(&node, &tsl) {
                     ts = Some(tsl);
 
                     node.remove_attribute(AId::Transform);
@@ -93,6 +92,16 @@ fn process_path(
 
     path.conv_to_absolute();
 
+    // A marker will be drawn on each MoveTo, so we can't insert new one.
+    if has_marker && utils::has_implicit_move_to(path) {
+        if let Some(ref ts) = ts {
+            apply_transform::apply_transform(path, ts);
+        }
+
+        path.conv_to_relative();
+        return;
+    }
+
     conv_segments::fix_m(path);
     conv_segments::convert_hv_to_l(path);
 
@@ -131,6 +140,13 @@ mod utils {
     use svgdom::FuzzyEq;
     use svgdom::path::{Path, Command};
 
+    // Checks that path has a ClosePath which is not followed by MoveTo.
+    pub fn has_implicit_move_to(path: &Path) -> bool {
+        path.d.windows(2).any(|w| {
+            w[0].cmd() == Command::ClosePath && w[1].cmd() != Command::MoveTo
+        })
+    }
+
     // Checks that path has a subpath that contains drawing commands but has no length.
     pub fn has_zero_length_subpath(path: &Path) -> bool {
         let mut start = 0;
diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 16827d6..a6833c7 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -213,11 +213,7 @@ fn process_stroke(node: &mut Node) {
     if is_leaf(node) {
         // Skip nodes with marker, because it doesn't count opacity and
         // its size depends on stroke-width even when there is no stroke.
-        let has_marker = utils::any_inherited(node, |n| {
-            n.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd])
-        });
-
-        if has_marker {
+        if utils::has_inherited_marker(node) {
             return;
         }
 
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 93b835c..f38ba69 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -124,6 +124,12 @@ pub fn is_inherited_via_use(node: &Node, aid: AId) -> bool {
     false
 }
 
+pub fn has_inherited_marker(node: &Node) -> bool {
+    any_inherited(node, |n| {
+        n.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd])
+    })
+}
+
 pub fn remove_nodes(nodes: &mut Vec<Node>) {
     for n in nodes.iter_mut() {
         n.remove();
-- 
2.43.0


From 10c4bbbbc18707a05741290b0c05189c823475d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 16/81] fix: do not remove invisible elements that affect the
 rest of the image

---
 src/task/rm_invisible_elems.rs | 78 ++++++++++++++++++++++++++--------
 src/task/ungroup_groups.rs     |  4 +-
 2 files changed, 64 insertions(+), 18 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 35178ee..9bf020f 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -60,7 +60,7 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Remove all invalid children.
     for node in doc.descendants().filter(|n| n.is_tag_name(EId::ClipPath)) {
         for child in node.children() {
-            if !is_valid_clip_path_elem(&child) {
+            if !is_valid_clip_path_elem(&child) && !has_used_elements(&child) {
                 nodes.push(child.clone());
             }
         }
@@ -77,14 +77,50 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     }
 
     // Remove empty clipPath's.
-    // Note, that all elements that uses this clip path also became invisible,
-    // so we can remove them as well.
-    while let Some(mut n) = clip_paths.pop() {
-        for mut link in n.linked_nodes().collect::<Vec<Node>>() {
+    while let Some(n) = clip_paths.pop() {
+        remove_with_linked(n, AId::ClipPath);
+    }
+}
+
+// All elements that uses an empty 'clipPath' or 'filter' became invisible,
+// so we can remove them as well.
+fn remove_with_linked(mut node: Node, aid: AId) {
+    let mut is_valid = true;
+    for mut link in node.linked_nodes().collect::<Vec<Node>>() {
+        if link.has_attribute(aid) && !is_removable(&link) {
+            // The element should stay invisible.
+            is_valid = false;
+        } else {
             link.remove();
         }
-        n.remove();
     }
+
+    if is_valid {
+        node.remove();
+    }
+}
+
+fn is_removable(node: &Node) -> bool {
+    // Elements like 'mask' or 'symbol' affects other elements even when they are invisible.
+       !node.is_referenced()
+    && !node.is_tag_name(EId::Svg)
+    && !is_switch_child(node)
+    && !has_used_elements(node)
+    && node.linked_nodes().all(|n| n.is_tag_name(EId::Use))
+}
+
+// Removing of the invisible child will enable the next one,
+// because visibility of an element doesn't affect 'switch' processing.
+fn is_switch_child(node: &Node) -> bool {
+    match node.parent() {
+        Some(p) => p.is_tag_name(EId::Switch),
+        None => false,
+    }
+}
+
+// Checks that element has children that used by other elements.
+fn has_used_elements(node: &Node) -> bool {
+    node.descendants().any(|n| n != *node && n.is_used())
 }
 
 fn is_valid_clip_path_elem(node: &Node) -> bool {
@@ -118,7 +154,7 @@ fn process_paths(doc: &mut Document, is_any_removed: &mut bool) {
         }
     }
 
-    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n));
+    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n) && !is_switch_child(n));
     if c != 0 {
         *is_any_removed = true;
     }
@@ -141,7 +177,8 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
     for (_, node) in parent.children().svg() {
         // If elements has attribute 'display:none' and this element is not used - we can remove it.
         let val = AttributeValue::PredefValue(ValueId::None);
-        if node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used() {
+        if node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used()
+           && !is_switch_child(&node) {
             // All children must be unused to.
             if !node.descendants().any(|n| n.is_used()) {
                 // TODO: ungroup used elements and remove unused
@@ -157,19 +194,15 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
 fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes: Vec<Node> = doc.descendants()
                                   .filter(|n| n.is_tag_name(EId::Filter) && !n.has_children())
+                                  .filter(|n| !n.has_attribute(AId::XlinkHref))
                                   .collect();
 
     if !nodes.is_empty() {
         *is_any_removed = true;
     }
 
-    // Note, that all elements that uses this filter also became invisible,
-    // so we can remove them as well.
-    for n in &mut nodes {
-        for mut link in n.linked_nodes().collect::<Vec<Node>>() {
-            link.remove();
-        }
-        n.remove();
+    for n in nodes.drain(..) {
+        remove_with_linked(n, AId::Filter);
     }
 }
 
@@ -192,6 +225,15 @@ fn process_fe_color_matrix(doc: &mut Document) {
 
         let attrs = child.attributes();
 
+        // Other inputs will be rendered in a different way.
+        if let Some(&AttributeValue::String(ref t)) = attrs.get_value(AId::In) {
+            if t != "SourceGraphic" {
+                return false;
+            }
+        } else if attrs.contains(AId::In) {
+            return false;
+        }
+
         // It's a very simple implementation since we do not parse matrix,
         // but it's enough to remove default feColorMatrix generated by Illustrator.
         if let Some(&AttributeValue::String(ref t)) = attrs.get_value(AId::Type) {
@@ -213,7 +255,9 @@ fn process_fe_color_matrix(doc: &mut Document) {
 
 // 'use' element without 'xlink:href' attribute is pointless.
 fn process_use(doc: &mut Document, is_any_removed: &mut bool) {
-    let c = doc.drain(|n| n.is_tag_name(EId::Use) && !n.has_attribute(AId::XlinkHref));
+    let c = doc.drain(|n| {
+        n.is_tag_name(EId::Use) && !n.has_attribute(AId::XlinkHref) && !is_switch_child(n)
+    });
     if c != 0 {
         *is_any_removed = true;
     }
@@ -344,7 +388,7 @@ fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
 // Remove rects with a zero size.
 fn process_rect(doc: &mut Document, is_any_removed: &mut bool) {
     fn is_invisible(node: &Node) -> bool {
-        if !node.is_tag_name(EId::Rect) {
+        if !node.is_tag_name(EId::Rect) || is_switch_child(node) {
             return false;
         }
 
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index e9e03e6..e673c9b 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -70,7 +70,9 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     if !g.has_children() && !g.has_attribute(AId::Filter) {
         // Empty group without filter attribute.
         // Checkout 'filters-tile-01-b.svg' in 'W3C_SVG_11_TestSuite' for details.
-        return true;
+        //
+        // An empty group inside 'switch' prevents rendering of the next elements.
+        return !parent.is_tag_name(EId::Switch);
     }
 
     // Group shouldn't be used.
-- 
2.43.0


From 0c3b692e9229ad8f9c42d3cfb87b98d881c16e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 17/81] fix: keep values inherited through 'use' while
 resolving 'inherit' and 'currentColor'

---
 src/task/resolve_inherit.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index aa13dae..d9b61d8 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -18,6 +18,7 @@
 
 use svgdom::{
     AttributeId,
+    AttributeType,
     AttributeValue,
     Document,
     Node,
@@ -28,6 +29,7 @@ use error::{
     ErrorKind,
     Result,
 };
+use task::utils;
 
 // TODO: split
 /// Resolve `inherit` and `currentColor` attributes.
@@ -74,6 +76,20 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
 }
 
 fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeId) -> Result<()> {
+    // An actual value is defined by 'use' elements.
+    if utils::is_inherited_via_use(node, parent_attr) {
+        let is_inheritable = curr_attr == AttributeId::Visibility
+            || node.attributes().get(curr_attr).map_or(false, |a| a.is_inheritable());
+
+        if curr_attr == parent_attr && is_inheritable {
+            // Will be inherited anyway.
+            node.remove_attribute(curr_attr);
+            return Ok(());
+        } else {
+            return Err(ErrorKind::UnresolvedAttribute(curr_attr.to_string()).into());
+        }
+    }
+
     if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
         let av = n.attributes().get_value(parent_attr).cloned();
         if let Some(av) = av {
-- 
2.43.0


From cedfa1b19749b55437f9947134b768f8ed08a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 18/81] fix: do not remove default attributes that override
 values from 'use' or a linked element

---
 src/task/rm_default_attrs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 59ec4ec..af8557f 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -21,6 +21,7 @@ use svgdom::{
     AttributeType,
     AttributeValue,
     Document,
+    ElementType,
     Length,
     ValueId,
 };
@@ -40,7 +41,7 @@ pub fn remove_default_attributes(doc: &Document) {
             if attr.is_presentation() {
                 if attr.check_is_default() {
                     // Default value can override a value inherited from 'use'.
-                    if attr.is_inheritable() && utils::is_inherited_via_use(&node, aid) {
+                    if utils::is_inherited_via_use(&node, aid) {
                         continue;
                     }
 
@@ -76,6 +77,9 @@ pub fn remove_default_attributes(doc: &Document) {
                         }
                     }
                 }
+            } else if node.has_attribute(AId::XlinkHref) && node.is_referenced() {
+                // Default value can override a value from the linked element.
+                continue;
             } else if is_default(attr, tag_name) {
                 // Check default values of an non-presentation attributes.
                 rm_list.push(aid);
-- 
2.43.0


From fc53f795f9b745454062bc200aace602f726ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 19/81] fix: keep an inherited visibility of referenced
 elements while moving them to defs

---
 src/task/group_defs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index bfa6885..89a2f72 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -24,7 +24,7 @@ use svgdom::{
     Node,
 };
 
-use task::short::EId;
+use task::short::{EId, AId};
 
 pub fn group_defs(doc: &mut Document) {
     // doc must contain 'svg' node, so we can safely unwrap.
@@ -39,7 +39,7 @@ pub fn group_defs(doc: &mut Document) {
     // Referenced elements inside the 'defs' inherits attributes from it and from it's parents.
     {
         let parents: Vec<Node> = defs.parents_with_self().filter(|n| *n != svg).collect();
-        if parents.iter().any(|n| n.attributes().iter().any(|a| a.is_inheritable())) {
+        if parents.iter().any(|n| n.attributes().iter().any(|a| a.is_inheritable() || a.has_id(AId::Visibility))) {
             for node in defs.children().filter(|n| n.is_referenced()) {
                 resolve_attrs(&node);
             }
@@ -141,7 +141,7 @@ fn copy_attrs(from: &Node, to: &mut Node) {
     let mut attrs: Vec<Attribute> = Vec::new();
     for p in from.parents_with_self() {
         attrs.extend(p.attributes().iter_svg().map(|(_, a)| a)
-                      .filter(|a| a.is_inheritable()).cloned());
+                      .filter(|a| a.is_inheritable() || a.has_id(AId::Visibility)).cloned());
     }
 
     for attr in attrs {
-- 
2.43.0


From 81a8badd8a49fba5d966c352d384d6caba2b1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 20/81] fix: do not move a transform to a nested svg and
 group-only attributes to children during ungrouping

---
 src/task/ungroup_groups.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index e673c9b..af878e3 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -85,6 +85,11 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    // Nested 'svg' element doesn't support 'transform' attribute.
+    if g.has_attribute(AId::Transform) && g.children().any(|n| n.is_tag_name(EId::Svg)) {
+        return false;
+    }
+
     // The 'clipPath' doesn't support 'g' elements, but some editors still insert them.
     // Correct render application will skip a 'g' element and all it's children,
     // so if we ungroup this group we will actually enable clipping.
@@ -157,6 +162,11 @@ fn ungroup_group(g: &mut Node) {
                 }
             }
 
+            // Not applicable to groups, but can affect a child.
+            if aid == AId::Overflow || aid == AId::Clip {
+                continue;
+            }
+
             if aid == AId::Transform {
                 if child.has_attribute(aid) {
                     // We should multiply transform matrices.
-- 
2.43.0


From 3b09c86b562fe06d8677d86b11d813c5a4b804ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 21/81] fix: do not break used and hidden elements during
 ungrouping

---
 src/task/ungroup_groups.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index af878e3..787d5fc 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -20,6 +20,7 @@ use svgdom::{
     AttributeValue,
     Document,
     Node,
+    ValueId,
 };
 
 use task::short::{EId, AId};
@@ -128,7 +129,7 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     // example: oxygen/edit-find-mail.svg
     if g.has_attribute(AId::Transform) && g.attributes().len() == 1 {
         let is_ok = g.children().all(|n| {
-            n.has_attribute(AId::Transform) && !n.is_tag_name(EId::Use)
+            n.has_attribute(AId::Transform) && !n.is_tag_name(EId::Use) && !n.is_used()
         });
 
         if is_ok {
@@ -184,9 +185,13 @@ fn ungroup_group(g: &mut Node) {
             }
 
             if aid == AId::Display {
-                // Display attribute has a priority during rendering, so we must
+                // `display='none'` has a priority during rendering, so we must
                 // copy it even if a child has it already.
-                child.set_attribute(attr.clone());
+                // Any other value doesn't affect children.
+                if attr.value == AttributeValue::PredefValue(ValueId::None) {
+                    child.set_attribute(attr.clone());
+                }
+
                 continue;
             }
 
-- 
2.43.0


From 437e60de7e846933e55acbecca67bba5bbb2f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 22/81] fix: do not remove an invisible element that affects a
 bounding box of its parents

---
 src/task/rm_invisible_elems.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 9bf020f..f86a763 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -107,6 +107,14 @@ fn is_removable(node: &Node) -> bool {
     && !is_switch_child(node)
     && !has_used_elements(node)
     && node.linked_nodes().all(|n| n.is_tag_name(EId::Use))
+    && !is_part_of_layer(node)
+}
+
+// A bounding box of an element with clipping, masking or filtering includes invisible children.
+fn is_part_of_layer(node: &Node) -> bool {
+    utils::any_inherited(node, |n| {
+        n != node && n.has_attributes(&[AId::ClipPath, AId::Mask, AId::Filter])
+    })
 }
 
 // Removing of the invisible child will enable the next one,
-- 
2.43.0


From 13bd643db766baf890179ceafc4375c17a4dfd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 23/81] fix: do not resolve 'inherit' to a value that an
 element does not have when it is used

---
 src/task/resolve_inherit.rs |  8 +++++---
 src/task/utils.rs           | 31 +++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index d9b61d8..63b17a6 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -76,8 +76,10 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
 }
 
 fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeId) -> Result<()> {
-    // An actual value is defined by 'use' elements.
-    if utils::is_inherited_via_use(node, parent_attr) {
+    let parent = node.parents().find(|n| n.has_attribute(parent_attr));
+
+    // An actual value depends on 'use' elements.
+    if !utils::is_same_via_use(node, parent_attr, parent.as_ref()) {
         let is_inheritable = curr_attr == AttributeId::Visibility
             || node.attributes().get(curr_attr).map_or(false, |a| a.is_inheritable());
 
@@ -90,7 +92,7 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
         }
     }
 
-    if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
+    if let Some(n) = parent {
         let av = n.attributes().get_value(parent_attr).cloned();
         if let Some(av) = av {
             node.set_attribute((curr_attr, av.clone()));
diff --git a/src/task/utils.rs b/src/task/utils.rs
index f38ba69..c9164da 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -124,6 +124,37 @@ pub fn is_inherited_via_use(node: &Node, aid: AId) -> bool {
     false
 }
 
+/// Checks that an attribute inherited from the `parent` will be inherited
+/// from the same element via `use` elements.
+///
+/// `parent` is the closest parent of the `node` with the specified attribute.
+pub fn is_same_via_use(node: &Node, aid: AId, parent: Option<&Node>) -> bool {
+    let mut queue = vec![node.clone()];
+    let mut visited: Vec<Node> = Vec::new();
+    while let Some(n) = queue.pop() {
+        let mut found = None;
+        for p in n.parents_with_self() {
+            if p != *node && p.has_attribute(aid) {
+                found = Some(p);
+                break;
+            }
+
+            for link in p.linked_nodes().filter(|n| n.is_tag_name(EId::Use)) {
+                if !visited.contains(&link) {
+                    visited.push(link.clone());
+                    queue.push(link);
+                }
+            }
+        }
+
+        if found.as_ref() != parent {
+            return false;
+        }
+    }
+
+    true
+}
+
 pub fn has_inherited_marker(node: &Node) -> bool {
     any_inherited(node, |n| {
         n.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd])
-- 
2.43.0


From 71fb27f7a04d7f0b22387f2f0216377f175ac5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 24/81] fix: do not scale a stroke that is different when an
 element is used

---
 src/task/apply_transforms/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index a18f900..189c7dc 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -34,7 +34,7 @@ pub mod utils {
     };
 
     use task::short::{EId, AId, Unit};
-    use task::utils::{any_inherited, has_inherited_marker, is_inherited_via_use};
+    use task::utils::{any_inherited, has_inherited_marker, is_same_via_use};
 
     // TODO: remove
     pub fn has_valid_transform(node: &Node) -> bool {
@@ -86,7 +86,12 @@ pub mod utils {
 
         let attrs = [AId::StrokeWidth, AId::StrokeDasharray, AId::StrokeDashoffset];
         let is_unknown = attrs.iter().any(|aid| {
-            !node.has_attribute(*aid) && is_inherited_via_use(node, *aid)
+            if node.has_attribute(*aid) {
+                return false;
+            }
+
+            let parent = node.parents().find(|n| n.has_attribute(*aid));
+            !is_same_via_use(node, *aid, parent.as_ref())
         });
 
         !is_unknown && !has_inherited_marker(node)
-- 
2.43.0


From 6936fc3221ccc2dfa6b2641ef51bd47306032cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 25/81] fix: do not panic when a moved element inherits a
 reference to its parent

---
 src/task/group_defs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 89a2f72..0010d39 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -147,7 +147,9 @@ fn copy_attrs(from: &Node, to: &mut Node) {
     for attr in attrs {
         // Attributes of the closest parent have a higher priority.
         if !to.has_attribute(attr.id().unwrap()) {
-            to.set_attribute(attr);
+            // An element can't reference itself or its parents, and such a reference
+            // has no effect anyway. So we can skip it.
+            let _ = to.set_attribute_checked(attr);
         }
     }
 }
-- 
2.43.0


From 47951d6244431c9567191cff96a91cd758e7b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 26/81] fix: do not convert a curve with control points outside
 the line into a line

---
 src/task/paths/conv_segments.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index f8a8b0c..e76cf3d 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -240,7 +240,7 @@ fn is_point_on_line(x1: f64, y1: f64, x2: f64, y2: f64, x: f64, y: f64) -> bool
 
         if y.fuzzy_eq(&c) {
             if    ( x.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x2) == Ordering::Less)
-               || (x2.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x1) == Ordering::Less) {
+               || ( x.fuzzy_cmp(&x2) == Ordering::Greater && x.fuzzy_cmp(&x1) == Ordering::Less) {
                 return true;
             }
         }
-- 
2.43.0


From b707dc086d468b7b15f80cfa65f8ea5f4ff25887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 27/81] fix: keep a scaled radius of a gradient that was
 inherited

---
 src/task/apply_transforms/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index 189c7dc..f2a06cd 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -174,8 +174,12 @@ pub mod utils {
     }
 
     pub fn scale_coord(attrs: &mut Attributes, aid: AId, scale_factor: &f64) {
-        if let Some(&mut AttributeValue::Length(ref mut len)) = attrs.get_value_mut(aid) {
-            len.num *= *scale_factor;
+        if let Some(attr) = attrs.get_mut(aid) {
+            if let AttributeValue::Length(ref mut len) = attr.value {
+                len.num *= *scale_factor;
+                // A resolved attribute is no longer equal to the inherited one.
+                attr.visible = true;
+            }
         }
     }
 
-- 
2.43.0


From ba0ed2ef5b7cd004dc736363dc3e786555d825c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 28/81] fix: do not move a transform to a nested 'svg' element

---
 src/task/group_by_style.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index e584f43..136cf8a 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -470,7 +470,15 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
     if table.d[0].count_flags() == nodes_count {
         // If parent node is 'g' - use it,
         // it not - create new one.
-        let is_valid_parent = parent.is_tag_name(EId::Svg) || parent.is_tag_name(EId::G);
+        // A nested 'svg' has it's own viewport, so it can't store a transform.
+        let is_valid_parent = match parent.tag_id() {
+            Some(EId::G) => true,
+            Some(EId::Svg) => {
+                let has_ts = table.d[0].attributes.iter().any(|a| a.has_id(AId::Transform));
+                !has_ts || !parent.parents().any(|n| n.is_svg_element())
+            }
+            _ => false,
+        };
         let mut g_node = if is_valid_parent && is_all_children {
             parent.clone()
         } else {
-- 
2.43.0


From 35c829b55a13b823a0a64a9291d1eca436b03f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 29/81] fix: do not remove an invisible content of a pattern
 that is linked to another one

---
 src/task/rm_invisible_elems.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index f86a763..d18b89a 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -104,7 +104,7 @@ fn is_removable(node: &Node) -> bool {
     // Elements like 'mask' or 'symbol' affects other elements even when they are invisible.
        !node.is_referenced()
     && !node.is_tag_name(EId::Svg)
-    && !is_switch_child(node)
+    && !is_required_child(node)
     && !has_used_elements(node)
     && node.linked_nodes().all(|n| n.is_tag_name(EId::Use))
     && !is_part_of_layer(node)
@@ -117,11 +117,18 @@ fn is_part_of_layer(node: &Node) -> bool {
     })
 }
 
-// Removing of the invisible child will enable the next one,
+// Checks that an invisible element affects the other ones.
+//
+// Removing of the invisible child of the 'switch' will enable the next one,
 // because visibility of an element doesn't affect 'switch' processing.
-fn is_switch_child(node: &Node) -> bool {
+//
+// A 'pattern' without children will be rendered using children of the linked one.
+fn is_required_child(node: &Node) -> bool {
     match node.parent() {
-        Some(p) => p.is_tag_name(EId::Switch),
+        Some(p) => {
+               p.is_tag_name(EId::Switch)
+            || (p.is_tag_name(EId::Pattern) && p.has_attribute(AId::XlinkHref))
+        }
         None => false,
     }
 }
@@ -162,7 +169,7 @@ fn process_paths(doc: &mut Document, is_any_removed: &mut bool) {
         }
     }
 
-    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n) && !is_switch_child(n));
+    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n) && !is_required_child(n));
     if c != 0 {
         *is_any_removed = true;
     }
@@ -186,7 +193,7 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
         // If elements has attribute 'display:none' and this element is not used - we can remove it.
         let val = AttributeValue::PredefValue(ValueId::None);
         if node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used()
-           && !is_switch_child(&node) {
+           && !is_required_child(&node) {
             // All children must be unused to.
             if !node.descendants().any(|n| n.is_used()) {
                 // TODO: ungroup used elements and remove unused
@@ -264,7 +271,7 @@ fn process_fe_color_matrix(doc: &mut Document) {
 // 'use' element without 'xlink:href' attribute is pointless.
 fn process_use(doc: &mut Document, is_any_removed: &mut bool) {
     let c = doc.drain(|n| {
-        n.is_tag_name(EId::Use) && !n.has_attribute(AId::XlinkHref) && !is_switch_child(n)
+        n.is_tag_name(EId::Use) && !n.has_attribute(AId::XlinkHref) && !is_required_child(n)
     });
     if c != 0 {
         *is_any_removed = true;
@@ -396,7 +403,7 @@ fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
 // Remove rects with a zero size.
 fn process_rect(doc: &mut Document, is_any_removed: &mut bool) {
     fn is_invisible(node: &Node) -> bool {
-        if !node.is_tag_name(EId::Rect) || is_switch_child(node) {
+        if !node.is_tag_name(EId::Rect) || is_required_child(node) {
             return false;
         }
 
-- 
2.43.0


From 831e05d5494419295b660babf34f6d2263f2b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 30/81] fix: ignore non-stop children of gradients

---
 src/task/fix_attrs.rs              |  3 ++-
 src/task/merge_gradients.rs        |  2 +-
 src/task/regroup_gradient_stops.rs |  3 ++-
 src/task/resolve_gradients.rs      |  3 ++-
 src/task/rm_dupl_defs/mod.rs       | 11 ++++++-----
 src/task/rm_invalid_stops.rs       |  6 +++---
 src/task/rm_invisible_elems.rs     |  6 +++---
 src/task/utils.rs                  | 11 +++++++++++
 8 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/task/fix_attrs.rs b/src/task/fix_attrs.rs
index 2c16763..4b7e246 100644
--- a/src/task/fix_attrs.rs
+++ b/src/task/fix_attrs.rs
@@ -25,6 +25,7 @@ use svgdom::{
 };
 
 use task::short::{AId, EId, Unit};
+use task::utils;
 
 pub fn fix_invalid_attributes(doc: &Document) {
     for (id, mut node) in doc.descendants().svg() {
@@ -211,7 +212,7 @@ pub fn fix_stop_attributes(node: &Node) {
 
     let mut prev_offset = 0.0;
 
-    for mut child in node.children() {
+    for mut child in utils::gradient_stops(node) {
         let av = child.attributes().get_value(AId::Offset).cloned();
 
         let mut offset = match av {
diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index 233a88a..7606293 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -87,7 +87,7 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
             continue;
         }
 
-        if !node.has_children() {
+        if !utils::has_gradient_stops(&node) {
             // Append 'stop' elements only when we don't have any before.
             while let Some(mut child) = linked_node.first_child() {
                 child.detach();
diff --git a/src/task/regroup_gradient_stops.rs b/src/task/regroup_gradient_stops.rs
index b74a65f..7a337f4 100644
--- a/src/task/regroup_gradient_stops.rs
+++ b/src/task/regroup_gradient_stops.rs
@@ -23,11 +23,12 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 pub fn regroup_gradient_stops(doc: &mut Document) {
     let mut nodes: Vec<Node> = doc.descendants()
         .filter(|n| n.is_gradient())
-        .filter(|n| n.has_children())
+        .filter(|n| utils::has_gradient_stops(n))
         .filter(|n| !n.has_attribute(AId::XlinkHref))
         .collect();
 
diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index e0bc491..1f55a1f 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -29,6 +29,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 use error::{
     ErrorKind,
@@ -114,7 +115,7 @@ pub fn resolve_radial_gradient_attributes(doc: &Document) {
 /// which is not a first child of a gradient, didn't have an `offset` attribute.
 pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
     for gradient in doc.descendants().filter(|n| n.is_gradient()) {
-        for (idx, mut node) in gradient.children().enumerate() {
+        for (idx, mut node) in utils::gradient_stops(&gradient).enumerate() {
             let av = node.attributes().get_value(AId::Offset).cloned();
             if let Some(AttributeValue::Length(l)) = av {
                 if l.unit == LengthUnit::Percent {
diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index ff39879..4efbc52 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -23,6 +23,7 @@ use svgdom::{
 };
 
 use task::short::AId;
+use task::utils;
 
 pub use self::linear_gradient::remove_dupl_linear_gradients;
 pub use self::radial_gradient::remove_dupl_radial_gradients;
@@ -115,7 +116,7 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
         }
     } else if attrs1.contains(AId::XlinkHref) || attrs2.contains(AId::XlinkHref) {
         // Gradients without own stops are using stops of a linked gradient.
-        let has_stops = node1.has_children() && node2.has_children();
+        let has_stops = utils::has_gradient_stops(node1) && utils::has_gradient_stops(node2);
         if !has_stops && !is_linked_to(node1, node2) && !is_linked_to(node2, node1) {
             return false;
         }
@@ -150,9 +151,9 @@ fn show_attributes(node: &mut Node, link: &Node) {
 }
 
 pub fn is_equal_stops(node1: &Node, node2: &Node) -> bool {
-    let children_count1 = node1.children().count();
+    let children_count1 = utils::gradient_stops(node1).count();
 
-    if children_count1 != node2.children().count() {
+    if children_count1 != utils::gradient_stops(node2).count() {
         return false;
     }
 
@@ -160,8 +161,8 @@ pub fn is_equal_stops(node1: &Node, node2: &Node) -> bool {
         return true;
     }
 
-    let iter1 = node1.children();
-    let iter2 = node2.children();
+    let iter1 = utils::gradient_stops(node1);
+    let iter2 = utils::gradient_stops(node2);
 
     for (mut c1, mut c2) in iter1.zip(iter2) {
         let attrs1 = c1.attributes_mut();
diff --git a/src/task/rm_invalid_stops.rs b/src/task/rm_invalid_stops.rs
index 0f3df17..e815b7c 100644
--- a/src/task/rm_invalid_stops.rs
+++ b/src/task/rm_invalid_stops.rs
@@ -29,11 +29,11 @@ pub fn remove_invalid_stops(doc: &Document) {
 
     let iter = doc.descendants()
                   .filter(|n| n.is_gradient())
-                  .filter(|n| n.has_children());
+                  .filter(|n| utils::has_gradient_stops(n));
     for node in iter {
-        let mut prev_child = node.first_child().unwrap();
+        let mut prev_child = utils::gradient_stops(&node).next().unwrap();
 
-        for child in node.children().skip(1) {
+        for child in utils::gradient_stops(&node).skip(1) {
             {
                 let attrs1 = prev_child.attributes();
                 let attrs2 = child.attributes();
diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index d18b89a..8cc682e 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -285,7 +285,7 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
         // Gradient without children and link to other gradient is pointless.
         let iter = doc.descendants()
                       .filter(|n| n.is_gradient())
-                      .filter(|n| !n.has_children() && !n.has_attribute(AId::XlinkHref));
+                      .filter(|n| !utils::has_gradient_stops(n) && !n.has_attribute(AId::XlinkHref));
 
         for n in iter {
             for mut link in n.linked_nodes().collect::<Vec<Node>>() {
@@ -310,10 +310,10 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
         // defined for that gradient stop.'
         let iter = doc.descendants()
                       .filter(|n| n.is_gradient())
-                      .filter(|n| n.children().count() == 1 && !n.has_attribute(AId::XlinkHref));
+                      .filter(|n| utils::gradient_stops(n).count() == 1 && !n.has_attribute(AId::XlinkHref));
 
         for n in iter {
-            let stop = n.first_child().unwrap();
+            let stop = utils::gradient_stops(&n).next().unwrap();
 
             let color = match stop.attributes().get_value(AId::StopColor) {
                 Some(&AttributeValue::Color(c)) => c,
diff --git a/src/task/utils.rs b/src/task/utils.rs
index c9164da..acdcd02 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -16,6 +16,8 @@
 // with this program; if not, write to the Free Software Foundation, Inc.,
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
+use std::vec;
+
 use svgdom::{
     AttributeValue,
     FuzzyEq,
@@ -161,6 +163,15 @@ pub fn has_inherited_marker(node: &Node) -> bool {
     })
 }
 
+// A gradient can also contain comments, descriptive and unknown elements.
+pub fn gradient_stops(node: &Node) -> vec::IntoIter<Node> {
+    node.children().filter(|n| n.is_tag_name(EId::Stop)).collect::<Vec<Node>>().into_iter()
+}
+
+pub fn has_gradient_stops(node: &Node) -> bool {
+    node.children().any(|n| n.is_tag_name(EId::Stop))
+}
+
 pub fn remove_nodes(nodes: &mut Vec<Node>) {
     for n in nodes.iter_mut() {
         n.remove();
-- 
2.43.0


From 4757b953b053a193d29a650486c13dbc72b6a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 31/81] fix: do not set attributes on comments

---
 src/task/group_defs.rs     | 3 ++-
 src/task/ungroup_groups.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 0010d39..38fa383 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -123,7 +123,8 @@ fn resolve_attrs(node: &Node) {
         | EId::Marker
         | EId::Mask
         | EId::Pattern => {
-            for mut child in node.children().collect::<Vec<Node>>() {
+            // Only SVG elements can have attributes.
+            for (_, mut child) in node.children().svg().collect::<Vec<_>>() {
                 if child.is_used() {
                     // Attributes set on the linked element will affect the 'use' element too,
                     // so use the parent instead.
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 787d5fc..439642f 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -142,7 +142,8 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
 
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
-        for mut child in g.children() {
+        // Only SVG elements can have attributes.
+        for (_, mut child) in g.children().svg() {
             if aid == AId::Opacity {
                 if child.has_attribute(aid) {
                     // We can't just replace 'opacity' attribute,
-- 
2.43.0


From d5b92be90444208c2522f4ec9af15c2d28ee9c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:14 +0000
Subject: [PATCH 32/81] fix: do not truncate a file when copying it to itself
 on error

---
 src/main.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8f0c098..ca0372d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -106,7 +106,9 @@ fn main() {
             let inf = in_file.unwrap();
             let outf = out_file.unwrap();
             // Copy a file only when paths are different.
-            if inf != outf {
+            //
+            // The same file can have different paths, and copying a file to itself will truncate it.
+            if !is_same_file(inf, outf) {
                 try_msg!(fs::copy(inf, outf));
             }
         }
@@ -193,6 +195,26 @@ fn main() {
     }
 }
 
+#[cfg(unix)]
+fn is_same_file(path1: &str, path2: &str) -> bool {
+    use std::os::unix::fs::MetadataExt;
+
+    // A file that doesn't exist yet doesn't have metadata.
+    match (fs::metadata(path1), fs::metadata(path2)) {
+        (Ok(m1), Ok(m2)) => m1.dev() == m2.dev() && m1.ino() == m2.ino(),
+        _ => path1 == path2,
+    }
+}
+
+#[cfg(not(unix))]
+fn is_same_file(path1: &str, path2: &str) -> bool {
+    // A file that doesn't exist yet can't be resolved.
+    match (fs::canonicalize(path1), fs::canonicalize(path2)) {
+        (Ok(p1), Ok(p2)) => p1 == p2,
+        _ => path1 == path2,
+    }
+}
+
 fn log_format(out: fern::FormatCallback, message: &fmt::Arguments, record: &log::Record) {
     use log::Level;
 
-- 
2.43.0


From 7add5c1bfb0b864755b2ae2a2967b9ee6dd7e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 33/81] fix: keep a focal point that is inherited through a
 gradient of the other type

---
 src/task/resolve_gradients.rs |  6 ++++--
 src/task/rm_unused_coords.rs  | 31 ++++++++++++++++++++++++-------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index 1f55a1f..9fc08ad 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -154,7 +154,8 @@ pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
 
 // TODO: explain algorithm
 fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
-    let nodes = doc.descendants().filter(|n| n.is_tag_name(eid))
+    // A gradient can be linked through a gradient of the other type.
+    let nodes = doc.descendants().filter(|n| n.is_gradient())
                    .collect::<Vec<Node>>();
 
     let mut order = Vec::with_capacity(nodes.len());
@@ -166,7 +167,7 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
             }
 
             let c = node.linked_nodes().filter(|n| {
-                n.is_tag_name(eid) && !order.iter().any(|on| on == n)
+                n.is_gradient() && !order.iter().any(|on| on == n)
             }).count();
 
             if c == 0 {
@@ -175,6 +176,7 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
         }
     }
 
+    order.retain(|n| n.is_tag_name(eid));
     order
 }
 
diff --git a/src/task/rm_unused_coords.rs b/src/task/rm_unused_coords.rs
index 18d063a..0d3219e 100644
--- a/src/task/rm_unused_coords.rs
+++ b/src/task/rm_unused_coords.rs
@@ -19,6 +19,8 @@
 use svgdom::{
     AttributeValue,
     Document,
+    ElementType,
+    Node,
 };
 
 use task::short::{EId, AId};
@@ -60,9 +62,9 @@ pub fn remove_unused_coordinates(doc: &Document) {
                     // in resolve_attrs::radial_gradients.
 
                     // Process only 'radialGradient' which is not linked
-                    // to the other 'radialGradient'.
+                    // to the other 'radialGradient', even through a 'linearGradient'.
                     if let Some(&AttributeValue::Link(ref link)) = attrs.get_value(AId::XlinkHref) {
-                        if link.is_tag_name(EId::RadialGradient) {
+                        if has_radial_gradient(link) {
                             continue;
                         }
                     }
@@ -75,11 +77,7 @@ pub fn remove_unused_coordinates(doc: &Document) {
                                 if attrs.get_value($f).unwrap() == attrs.get_value($c).unwrap() {
                                     // We can remove 'fx'/'fy' only if this element is not used
                                     // by any 'radialGradient'.
-                                    let c = node.linked_nodes()
-                                                .filter(|n| n.is_tag_name(EId::RadialGradient))
-                                                .count();
-
-                                    if c == 0 {
+                                    if !is_used_by_radial_gradient(&node) {
                                         rm_list.push($f);
                                     }
                                 }
@@ -107,6 +105,25 @@ pub fn remove_unused_coordinates(doc: &Document) {
     }
 }
 
+// Checks that the gradient or any gradient it's linked to is a 'radialGradient'.
+fn has_radial_gradient(node: &Node) -> bool {
+    if node.is_tag_name(EId::RadialGradient) {
+        return true;
+    }
+
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref link)) => has_radial_gradient(link),
+        _ => false,
+    }
+}
+
+// Checks that the gradient is used by a 'radialGradient', even through a 'linearGradient'.
+fn is_used_by_radial_gradient(node: &Node) -> bool {
+    node.linked_nodes().filter(|n| n.is_gradient()).any(|n| {
+        n.is_tag_name(EId::RadialGradient) || is_used_by_radial_gradient(&n)
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 9e931a87a3614c751681217014c33da6e2d6fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 34/81] fix: do not replace a group inside 'switch' with a
 comment

---
 src/task/ungroup_groups.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 439642f..7581b2e 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -102,8 +102,12 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
 
     if g.children().count() == 1 {
         let child = g.first_child().unwrap();
+
+        // A non-element node can't replace a group inside 'switch'.
+        let is_switch = parent.is_tag_name(EId::Switch) && !child.is_svg_element();
+
         // TODO: why child shouldn't be used?
-        if !child.is_used() {
+        if !child.is_used() && !is_switch {
             // Group with only one child and neither group or child is used.
             return true;
         }
-- 
2.43.0


From f36f2dd05239bdba3cb9c68f8dbe4e4e42be7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 35/81] fix: do not join quoted values into the 'style'
 attribute

---
 src/task/join_style_attrs.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 30d156e..a8d1d7e 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -18,6 +18,7 @@
 
 use svgdom::{
     AttributeType,
+    AttributeValue,
     Document,
     WriteBuffer,
     WriteOptions,
@@ -49,6 +50,14 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
                     continue;
                 }
 
+                // A quoted value, like a list of font families, can be stored
+                // only in a separate attribute, otherwise we will not be able to parse it.
+                if let AttributeValue::String(ref s) = attr.value {
+                    if s.starts_with('\'') {
+                        continue;
+                    }
+                }
+
                 style.extend_from_slice(aid.name().as_bytes());
                 style.push(b':');
                 attr.value.write_buf_opt(opt, &mut style);
@@ -58,6 +67,10 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
             }
             style.pop();
 
+            if ids.is_empty() {
+                continue;
+            }
+
             // Unwrap can't fail.
             let style_str = String::from_utf8(style).unwrap();
             node.set_attribute((AId::Style, style_str));
-- 
2.43.0


From d31a0cbd4abaa374200fd77649718845282c3b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 36/81] fix: reset 'remove-unresolved-classes' by
 '--no-defaults' and keep non-SVG attributes of basic shapes

---
 src/cli.rs                    | 2 +-
 src/task/paths/mod.rs         | 1 -
 src/task/rm_needless_attrs.rs | 5 +++++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index a0d445f..6415bd3 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -431,7 +431,7 @@ pub fn gen_parse_options(args: &ArgMatches) -> ParseOptions {
         parse_unknown_elements: true,
         parse_unknown_attributes: true,
         parse_px_unit: false,
-        skip_unresolved_classes: true,
+        skip_unresolved_classes: false,
         skip_invalid_attributes: false,
         skip_invalid_css: false,
         skip_paint_fallback: false,
diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index ca23028..7909eb0 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -19,7 +19,6 @@
 use svgdom::{
     AttributeValue,
     Document,
-    Node,
     Transform,
     ValueId,
 };
diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index a6833c7..8274f35 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -139,6 +139,11 @@ fn is_basic_shapes_attr(a: &Attribute) -> bool {
     // List of common basic shapes attributes.
     // https://www.w3.org/TR/SVG/shapes.html#RectElement
 
+    // Non-SVG attributes are processed by 'remove-nonsvg-attributes'.
+    if !a.is_svg() {
+        return true;
+    }
+
        a.is_conditional_processing()
     || a.is_core()
     || a.is_graphical_event()
-- 
2.43.0


From e13afb0d71b223eb4830e1117105524e0304f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 37/81] fix: keep 'xmlns:xlink' only when an attribute with
 this prefix exists, not only 'xlink:href'

---
 src/task/final_fixes.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/task/final_fixes.rs b/src/task/final_fixes.rs
index f024c04..9d53e73 100644
--- a/src/task/final_fixes.rs
+++ b/src/task/final_fixes.rs
@@ -16,7 +16,10 @@
 // with this program; if not, write to the Free Software Foundation, Inc.,
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
-use svgdom::Document;
+use svgdom::{
+    Document,
+    Name,
+};
 
 use task::short::{EId, AId};
 
@@ -40,18 +43,17 @@ pub fn fix_xmlns_attribute(doc: &Document, rm_unused: bool) {
     // doc must contain 'svg' node, so we can safely unwrap.
     let mut svg = doc.svg_element().unwrap();
 
-    let mut has_links = false;
-    for (_, node) in doc.descendants().svg() {
-        if node.is_used() {
-            has_links = true;
-            break;
-        }
-
-        if node.has_attribute(AId::XlinkHref) {
-            has_links = true;
-            break;
-        }
-    }
+    // Not only 'xlink:href', but any attribute with this prefix requires the namespace.
+    let has_links = doc.descendants().any(|n| {
+        n.attributes().iter().any(|a| {
+            let name = match a.name {
+                Name::Id(ref id) => id.name(),
+                Name::Name(ref name) => name.as_str(),
+            };
+
+            a.visible && name.starts_with("xlink:")
+        })
+    });
 
     let has_xlink = svg.has_attribute(AId::XmlnsXlink);
 
-- 
2.43.0


From f7adcbd4e04e3698b70a8ca3dcb41ba00a3d6a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 38/81] fix: check flag dependencies using actual values when
 '--no-defaults' is set

---
 src/cli.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 6415bd3..009ff73 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -351,7 +351,11 @@ fn get_flag(args: &ArgMatches, key: Key) -> bool {
 pub fn check_values(args: &ArgMatches) -> bool {
 
     fn check_value(args: &ArgMatches, flag: Key, dep: Key) -> bool {
-        if !get_flag(args, flag) && get_flag(args, dep) {
+        // Flags that are not set are disabled when '--no-defaults' is used.
+        let flags = Flags::new(args);
+        let is_enabled = |key| flags._resolve(key).unwrap_or(false);
+
+        if !is_enabled(flag) && is_enabled(dep) {
             writeln!(stderr(), "Error: You can use '--{}=true' only with '--{}=true'.",
                      KEYS[dep], KEYS[flag]).unwrap();
             return false;
-- 
2.43.0


From dd548ea95cedface0c019efbe887245e03d310f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 39/81] fix: copy the original file with '--copy-on-error' when
 it isn't a valid UTF-8 text

---
 src/main.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ca0372d..4bd5958 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,12 +87,6 @@ fn main() {
         }
     }
 
-    // Load data.
-    let raw = match input {
-        InputFrom::Stdin => try_msg!(cleaner::load_stdin()),
-        InputFrom::File(path) => try_msg!(cleaner::load_file(path)),
-    };
-
     let on_err = || {
         // Copy original file to destination
         // only when both files are specified.
@@ -116,6 +110,22 @@ fn main() {
         std::process::exit(0);
     };
 
+    // Load data.
+    let raw = match input {
+        InputFrom::Stdin => cleaner::load_stdin(),
+        InputFrom::File(path) => cleaner::load_file(path),
+    };
+
+    let raw = match raw {
+        Ok(s) => s,
+        Err(e) => {
+            // The file can exist, but it isn't necessarily a text.
+            writeln!(stderr(), "Error: {}.", e).unwrap();
+            on_err();
+            return;
+        }
+    };
+
     let input_size = raw.len();
     let mut buf = raw.into_bytes();
     let mut prev_size = 0;
-- 
2.43.0


From 9a7b2084600c4e1ff58d151dc7ad604b24d2d150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 40/81] fix: do not grow a file in the multipass mode

A next pass can produce a bigger file than the previous one, so the smallest one should be used.
---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4bd5958..2785df4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -156,12 +156,11 @@ fn main() {
         }
 
 
-        // Clear buffer.
-        //
-        // We are reusing the same buffer for input and output data.
-        buf.clear();
+        // Keep the previous data, because the next pass can produce a bigger one.
+        let prev_buf = buf;
 
         // Write buffer.
+        buf = Vec::new();
         cleaner::write_buffer(&doc, &write_opt, &mut buf);
 
         if !args.is_present(KEYS[Key::Multipass]) {
@@ -174,6 +173,12 @@ fn main() {
             break;
         }
 
+        // If size is increased - use the previous result.
+        if prev_size != 0 && prev_size < buf.len() {
+            buf = prev_buf;
+            break;
+        }
+
         prev_size = buf.len();
     }
 
-- 
2.43.0


From df6b102492811c07c588171b691a09c9bc4d431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 41/81] fix: a crash when an element inside an unknown one is
 linked

---
 src/cleaner.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cleaner.rs b/src/cleaner.rs
index 0eec548..2123c90 100644
--- a/src/cleaner.rs
+++ b/src/cleaner.rs
@@ -27,6 +27,7 @@ use svgdom::{
     self,
     Document,
     ElementId,
+    NodeType,
     ParseOptions,
     WriteBuffer,
     WriteOptions,
@@ -57,7 +58,17 @@ pub fn load_file(path: &str) -> Result<String, io::Error> {
 }
 
 pub fn parse_data(data: &str, opt: &ParseOptions) -> Result<Document, svgdom::Error> {
-    Document::from_str_with_opt(data, opt)
+    // 'svgdom' removes unknown elements before links resolving, so elements inside them
+    // will be linked with a document that they aren't part of.
+    // So we should remove them manually.
+    let parse_opt = ParseOptions { parse_unknown_elements: true, .. *opt };
+    let mut doc = Document::from_str_with_opt(data, &parse_opt)?;
+
+    if !opt.parse_unknown_elements {
+        doc.drain(|n| n.node_type() == NodeType::Element && n.tag_id().is_none());
+    }
+
+    Ok(doc)
 }
 
 pub fn clean_doc(
-- 
2.43.0


From 8540dd5216db736d37226ad1dcb2dda362b3b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 42/81] fix: unlink attributes removed by
 'remove-needless-attributes'

---
 src/task/rm_needless_attrs.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 8274f35..4c907ec 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -84,7 +84,7 @@ fn process_clip_path(node: &Node) {
 
 fn process_rect(node: &mut Node) {
     // Remove all non-rect attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::X)
         || a.has_id(AId::Y)
@@ -97,7 +97,7 @@ fn process_rect(node: &mut Node) {
 
 fn process_circle(node: &mut Node) {
     // Remove all non-circle attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Cx)
         || a.has_id(AId::Cy)
@@ -107,7 +107,7 @@ fn process_circle(node: &mut Node) {
 
 fn process_ellipse(node: &mut Node) {
     // Remove all non-ellipse attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Cx)
         || a.has_id(AId::Cy)
@@ -118,7 +118,7 @@ fn process_ellipse(node: &mut Node) {
 
 fn process_line(node: &mut Node) {
     // Remove all non-line attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::X1)
         || a.has_id(AId::Y1)
@@ -129,12 +129,27 @@ fn process_line(node: &mut Node) {
 
 fn process_poly(node: &mut Node) {
     // Remove all non-polyline/polygon attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Points)
     });
 }
 
+fn retain_attributes<F>(node: &mut Node, f: F)
+    where F: Fn(&Attribute) -> bool
+{
+    // Linked attributes must be removed only via `Node::remove_attribute`.
+    let ids: Vec<AId> = node.attributes().iter_svg()
+                            .filter(|&(_, a)| (a.is_link() || a.is_func_link()) && !f(a))
+                            .map(|(id, _)| id).collect();
+
+    for id in ids {
+        node.remove_attribute(id);
+    }
+
+    node.attributes_mut().retain(f);
+}
+
 fn is_basic_shapes_attr(a: &Attribute) -> bool {
     // List of common basic shapes attributes.
     // https://www.w3.org/TR/SVG/shapes.html#RectElement
-- 
2.43.0


From 109a2a5eae6641497ab55672fe7677bd70e1d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 43/81] fix: a panic on a gradient stop with 'offset' that has
 units

---
 src/task/resolve_gradients.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index 9fc08ad..b8d2507 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -122,6 +122,10 @@ pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
                     // convert percent into a number
                     let new_l = Length::new_number(l.num / 100.0);
                     node.set_attribute((AId::Offset, new_l));
+                } else if l.unit != LengthUnit::None {
+                    warn!("The 'offset' attribute must be a number or a percentage. \
+                           Fallback to 'offset=0'.");
+                    node.set_attribute((AId::Offset, Length::zero()));
                 }
             } else {
                 if idx == 0 {
-- 
2.43.0


From 3ba69b9df8428d920ddab1e4efe8b636eb7d8877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 44/81] fix: do not ungroup groups inside gradients

Such groups are invalid, so 'stop' elements inside them should not be rendered. And their attributes aren't resolved, which will lead to a panic.
---
 src/task/ungroup_groups.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 7581b2e..60fcebb 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -19,6 +19,7 @@
 use svgdom::{
     AttributeValue,
     Document,
+    ElementType,
     Node,
     ValueId,
 };
@@ -96,7 +97,9 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     // so if we ungroup this group we will actually enable clipping.
     // Which will lead to broken image.
     // TODO: remove such groups completely
-    if parent.is_tag_name(EId::ClipPath) {
+    //
+    // The same goes for gradients.
+    if parent.is_tag_name(EId::ClipPath) || parent.is_gradient() {
         return false;
     }
 
-- 
2.43.0


From 8da5518c0de856c31caf0e8d9b7fb4d50ad47c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 45/81] fix: an endless loop on gradients linked by a cycle

---
 src/task/resolve_gradients.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index b8d2507..13ed443 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -165,6 +165,8 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
     let mut order = Vec::with_capacity(nodes.len());
 
     while order.len() != nodes.len() {
+        let prev_len = order.len();
+
         for node in &nodes {
             if order.iter().any(|on| on == node) {
                 continue;
@@ -178,12 +180,39 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
                 order.push(node.clone());
             }
         }
+
+        if order.len() == prev_len {
+            // All that left is linked by a cycle.
+            unlink_cycle(&nodes, &order);
+        }
     }
 
     order.retain(|n| n.is_tag_name(eid));
     order
 }
 
+fn unlink_cycle(nodes: &[Node], order: &[Node]) {
+    let is_left = |n: &Node| n.is_gradient() && !order.iter().any(|on| on == n);
+
+    if let Some(mut node) = nodes.iter().find(|n| is_left(n)).cloned() {
+        // Each of the left gradients is linked, so we will end up inside the cycle.
+        // Then prefer a gradient that doesn't need the link.
+        for i in 0..nodes.len() * 2 {
+            if i >= nodes.len() && utils::has_gradient_stops(&node) {
+                break;
+            }
+
+            let prev = node.linked_nodes().find(|n| is_left(n));
+            if let Some(prev) = prev {
+                node = prev;
+            }
+        }
+
+        warn!("Gradients are linked to each other. '{}' will be unlinked.", *node.id());
+        node.remove_attribute(AId::XlinkHref);
+    }
+}
+
 fn check_attr(node: &mut Node, id: AId, def_value: Option<AttributeValue>) {
     if !node.has_attribute(id) {
         if let Some(v) = resolve_attribute(node, id, def_value) {
-- 
2.43.0


From 445c8f3200d0c014e3d9f71fbdd7a919c732fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 46/81] fix: an endless loop on gradients linked not by
 'xlink:href'

---
 src/task/resolve_gradients.rs | 4 ++--
 src/task/rm_gradient_attrs.rs | 3 ++-
 src/task/utils.rs             | 8 ++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index 13ed443..6cfb5c5 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -173,7 +173,7 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
             }
 
             let c = node.linked_nodes().filter(|n| {
-                n.is_gradient() && !order.iter().any(|on| on == n)
+                n.is_gradient() && utils::is_href_to(n, node) && !order.iter().any(|on| on == n)
             }).count();
 
             if c == 0 {
@@ -202,7 +202,7 @@ fn unlink_cycle(nodes: &[Node], order: &[Node]) {
                 break;
             }
 
-            let prev = node.linked_nodes().find(|n| is_left(n));
+            let prev = node.linked_nodes().find(|n| is_left(n) && utils::is_href_to(n, &node));
             if let Some(prev) = prev {
                 node = prev;
             }
diff --git a/src/task/rm_gradient_attrs.rs b/src/task/rm_gradient_attrs.rs
index 4d884ad..ec3d9d2 100644
--- a/src/task/rm_gradient_attrs.rs
+++ b/src/task/rm_gradient_attrs.rs
@@ -25,6 +25,7 @@ use svgdom::{
 };
 
 use task::short::AId;
+use task::utils;
 
 pub fn remove_gradient_attributes(doc: &Document) {
     // TODO: process coordinates and transform
@@ -43,7 +44,7 @@ fn rm_equal(doc: &Document) {
     let mut order = Vec::new();
     for node in doc.descendants().filter(|n|    n.is_gradient()
                                              && n.has_attribute(AId::XlinkHref)) {
-        let c = node.linked_nodes().filter(|n| n.is_gradient()).count();
+        let c = doc.descendants().filter(|n| n.is_gradient() && utils::is_href_to(n, &node)).count();
         // The gradient element and count of gradient elements than uses it.
         order.push((node.clone(), c));
     }
diff --git a/src/task/utils.rs b/src/task/utils.rs
index acdcd02..385a07f 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -172,6 +172,14 @@ pub fn has_gradient_stops(node: &Node) -> bool {
     node.children().any(|n| n.is_tag_name(EId::Stop))
 }
 
+/// Checks that the node has `xlink:href` linked to the specified node.
+pub fn is_href_to(node: &Node, link: &Node) -> bool {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref n)) => n == link,
+        _ => false,
+    }
+}
+
 pub fn remove_nodes(nodes: &mut Vec<Node>) {
     for n in nodes.iter_mut() {
         n.remove();
-- 
2.43.0


From d23ad50acdbc108ddca4626992df3b1eb184bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 47/81] fix: do not remove elements that are linked to an empty
 'clipPath' by other attributes

---
 src/task/rm_invisible_elems.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 8cc682e..fa9a2cc 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -87,11 +87,13 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
 fn remove_with_linked(mut node: Node, aid: AId) {
     let mut is_valid = true;
     for mut link in node.linked_nodes().collect::<Vec<Node>>() {
-        if link.has_attribute(aid) && !is_removable(&link) {
-            // The element should stay invisible.
-            is_valid = false;
-        } else {
+        let is_invisible = link.has_attribute(aid) && is_removable(&link);
+        if is_invisible || utils::is_href_to(&link, &node) {
             link.remove();
+        } else {
+            // The element should stay invisible
+            // or it's linked by an attribute that doesn't make it invisible.
+            is_valid = false;
         }
     }
 
-- 
2.43.0


From 862dde3ad15c278887adbc15654b4b0163a27439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 48/81] fix: do not produce crosslinks while removing
 duplicated defs

---
 src/task/rm_dupl_defs/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index 4efbc52..daae417 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -62,6 +62,11 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
                 continue;
             }
 
+            // Relinking must not produce a crosslink.
+            if node2.linked_nodes().any(|ln| ln.linked_nodes().any(|n| n == node1)) {
+                continue;
+            }
+
             // Collect linked nodes.
             for ln in node2.linked_nodes() {
                 let attrs = ln.attributes();
-- 
2.43.0


From b2abe51bf45f20c7fde60ce93bd3bfc7b74bc8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 49/81] fix: do not panic on attributes with an unresolved
 ENTITY

---
 src/task/apply_transforms/gradients.rs | 3 ++-
 src/task/rm_invisible_elems.rs         | 6 ++++--
 src/task/ungroup_groups.rs             | 5 +++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/task/apply_transforms/gradients.rs b/src/task/apply_transforms/gradients.rs
index f62f90f..4f6bb88 100644
--- a/src/task/apply_transforms/gradients.rs
+++ b/src/task/apply_transforms/gradients.rs
@@ -57,7 +57,8 @@ pub fn apply_transform_to_gradients(doc: &Document) {
 
         let ts = match node.attributes().get_value(AId::GradientTransform).cloned() {
             Some(AttributeValue::Transform(ts)) => ts,
-            _ => unreachable!("attribute must be resolved"),
+            // Can be an unresolved ENTITY.
+            _ => continue,
         };
 
         if !utils::is_valid_transform(&ts) {
diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index fa9a2cc..d117bbf 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -319,12 +319,14 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
 
             let color = match stop.attributes().get_value(AId::StopColor) {
                 Some(&AttributeValue::Color(c)) => c,
-                _ => unreachable!("attribute must be resolved"),
+                // Can be an unresolved ENTITY.
+                _ => continue,
             };
 
             let opacity = match stop.attributes().get_value(AId::StopOpacity) {
                 Some(&AttributeValue::Number(n)) => n,
-                _ => unreachable!("attribute must be resolved"),
+                // Can be an unresolved ENTITY.
+                _ => continue,
             };
 
             // Replace links with colors, but not in gradients,
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 60fcebb..8960832 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -156,14 +156,15 @@ fn ungroup_group(g: &mut Node) {
                     // We can't just replace 'opacity' attribute,
                     // we should multiply it.
 
+                    // Can be an unresolved ENTITY.
                     let op1 = match attr.value {
                         AttributeValue::Number(v) => v,
-                        _ => unreachable!("must be resolved"),
+                        _ => continue,
                     };
 
                     let op2 = match child.attributes().get_value(aid).cloned() {
                         Some(AttributeValue::Number(v)) => v,
-                        _ => unreachable!("must be resolved"),
+                        _ => continue,
                     };
 
                     child.set_attribute((aid, op1 * op2));
-- 
2.43.0


From 9cf8b7fc787141972c41188f9c6c65303c4edf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:01 +0000
Subject: [PATCH 50/81] fix: do not relink duplicated defs to an element
 without an ID

---
 src/task/rm_dupl_defs/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index daae417..c47c098 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -62,6 +62,11 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
                 continue;
             }
 
+            // An element without an ID can't be linked.
+            if node1.id().is_empty() && node2.is_used() {
+                continue;
+            }
+
             // Relinking must not produce a crosslink.
             if node2.linked_nodes().any(|ln| ln.linked_nodes().any(|n| n == node1)) {
                 continue;
-- 
2.43.0


From 5b26f3fadfed1b55b8d8a6363337c25acb50d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 51/81] fix: keep text attributes that affect a text linked via
 nested 'use'

---
 src/task/rm_text_attrs.rs | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index 9a439f9..172b577 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -109,11 +109,11 @@ fn _remove_text_attributes(parent: &Node) -> bool {
             // Only this parameters affect parent elements.
             let _no_td = !(   node.descendants().any(|n| n.node_type() == NodeType::Text)
                            || node.is_tag_name(EId::Tref)
-                           || has_em_ex_attributes(&node));
+                           || has_em_ex_attributes(&node)
+                           || is_linked_text(&node));
 
             if    _no_td
-               && !node.is_tag_name(EId::FontFace)
-               && !is_linked_text(&node) {
+               && !node.is_tag_name(EId::FontFace) {
                 node.remove_attributes(TEXT_ATTRIBUTES);
             }
 
@@ -146,16 +146,33 @@ fn has_em_ex_attributes(node: &Node) -> bool {
 }
 
 fn is_linked_text(node: &Node) -> bool {
-    if node.is_tag_name(EId::Use) {
-        // We use 'attributes()' method instead of 'attribute()',
-        // because 'xlink:href' can contain base64 data, which will be expensive to copy.
-        let attrs = node.attributes();
-        if let Some(value) = attrs.get_value(AId::XlinkHref) {
-            if let AttributeValue::Link(ref link) = *value {
-                return link.descendants().any(|n| n.node_type() == NodeType::Text);
-            }
+    _is_linked_text(node, &mut Vec::new())
+}
+
+fn _is_linked_text(node: &Node, visited: &mut Vec<Node>) -> bool {
+    if !node.is_tag_name(EId::Use) {
+        return false;
+    }
+
+    // We use 'attributes()' method instead of 'attribute()',
+    // because 'xlink:href' can contain base64 data, which will be expensive to copy.
+    let attrs = node.attributes();
+    if let Some(&AttributeValue::Link(ref link)) = attrs.get_value(AId::XlinkHref) {
+        if visited.contains(link) {
+            return false;
         }
+
+        visited.push(link.clone());
+
+        // A linked element can contain 'use' elements too.
+        return link.descendants().any(|n| {
+               n.node_type() == NodeType::Text
+            || n.is_tag_name(EId::Tref)
+            || has_em_ex_attributes(&n)
+            || _is_linked_text(&n, visited)
+        });
     }
+
     false
 }
 
-- 
2.43.0


From 111c867c94c5f5bc982a3cc83d72f19b6991c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 52/81] fix: keep relative font values resolved against the
 same parent

---
 src/task/group_by_style.rs  | 13 ++++++++
 src/task/resolve_inherit.rs | 10 +++++-
 src/task/resolve_use.rs     |  9 +++++-
 src/task/rm_text_attrs.rs   |  4 ++-
 src/task/ungroup_groups.rs  |  8 ++++-
 src/task/utils.rs           | 61 ++++++++++++++++++++++++++++++++++++-
 6 files changed, 100 insertions(+), 5 deletions(-)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index 136cf8a..42c1328 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -31,6 +31,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 // TODO: optimize, since Table is basically Vec<(Vec,Vec)>, which is not very efficient
 struct Table {
@@ -327,6 +328,10 @@ pub fn group_by_style(doc: &Document, opt: &WriteOptions) {
     _group_by_style(&doc.svg_element().unwrap(), opt);
 }
 
+fn has_em_ex_attributes(node: &Node) -> bool {
+    node.attributes().iter().any(|a| a.is_presentation() && utils::is_em_ex_value(&a.value))
+}
+
 fn _group_by_style(parent: &Node, opt: &WriteOptions) {
     let mut node_list = Vec::with_capacity(16);
 
@@ -433,6 +438,14 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
                 continue;
             }
 
+            // Such values depend on other attributes of the node and the parent.
+            if     utils::is_relative_font_value(aid, &attr.value)
+                || utils::is_em_ex_value(&attr.value)
+                || (aid == AId::FontSize && has_em_ex_attributes(parent))
+            {
+                continue;
+            }
+
             // Append only unique attributes.
             if !table.d.iter().any(|x| x.attributes[0] == *attr) {
                 table.append(attr, nodes_count);
diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index 63b17a6..ece257d 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -95,7 +95,15 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
     if let Some(n) = parent {
         let av = n.attributes().get_value(parent_attr).cloned();
         if let Some(av) = av {
-            node.set_attribute((curr_attr, av.clone()));
+            let is_relative =    utils::is_relative_font_value(parent_attr, &av)
+                              || utils::is_em_ex_value(&av);
+
+            if is_relative && node.attributes().get(curr_attr).map_or(false, |a| a.is_inheritable()) {
+                // A relative value can't be resolved twice, but will be inherited anyway.
+                node.remove_attribute(curr_attr);
+            } else {
+                node.set_attribute((curr_attr, av.clone()));
+            }
         }
 
         Ok(())
diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 378bdc5..0940096 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -27,6 +27,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId, Unit};
+use task::utils;
 
 pub fn resolve_use(doc: &Document) {
     let mut nodes = Vec::new();
@@ -114,7 +115,8 @@ pub fn resolve_use(doc: &Document) {
                 | AId::Y
                 | AId::Width
                 | AId::Height
-                | AId::Transform => continue,
+                | AId::Transform
+                | AId::UnicodeBidi => continue,
                 AId::Opacity => {
                     // Both of them should be applied.
                     let o1 = get_value!(node.attributes(), Number, AId::Opacity, 1.0);
@@ -175,6 +177,11 @@ fn is_mergeable(node: &Node, link: &Node) -> bool {
         }
     }
 
+    // Relative font values must be resolved using the values of the 'use'.
+    if utils::is_font_dependent(node, link) {
+        return false;
+    }
+
     true
 }
 
diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index 172b577..0e88839 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -95,7 +95,9 @@ fn _remove_text_attributes(parent: &Node) -> bool {
 
         if node.has_children() {
             // Go deeper.
-            let can_rm = _remove_text_attributes(&node);
+            let can_rm =    _remove_text_attributes(&node)
+                         && !has_em_ex_attributes(&node)
+                         && !is_linked_text(&node);
             if can_rm {
                 if !node.is_tag_name(EId::FontFace) {
                     node.remove_attributes(TEXT_ATTRIBUTES);
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 8960832..0f4ac3f 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -26,6 +26,7 @@ use svgdom::{
 
 use task::short::{EId, AId};
 use task::apply_transforms;
+use task::utils;
 use options::CleaningOptions;
 
 pub fn ungroup_groups(doc: &Document, opt: &CleaningOptions) {
@@ -87,6 +88,11 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    // Relative font values must be resolved using the group's values.
+    if g.children().svg().any(|(_, n)| utils::is_font_dependent(g, &n)) {
+        return false;
+    }
+
     // Nested 'svg' element doesn't support 'transform' attribute.
     if g.has_attribute(AId::Transform) && g.children().any(|n| n.is_tag_name(EId::Svg)) {
         return false;
@@ -173,7 +179,7 @@ fn ungroup_group(g: &mut Node) {
             }
 
             // Not applicable to groups, but can affect a child.
-            if aid == AId::Overflow || aid == AId::Clip {
+            if aid == AId::Overflow || aid == AId::Clip || aid == AId::UnicodeBidi {
                 continue;
             }
 
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 385a07f..53b6ac9 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -19,12 +19,13 @@
 use std::vec;
 
 use svgdom::{
+    AttributeType,
     AttributeValue,
     FuzzyEq,
     Node,
 };
 
-use task::short::{EId, AId};
+use task::short::{EId, AId, Unit};
 
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
@@ -164,6 +165,64 @@ pub fn has_inherited_marker(node: &Node) -> bool {
 }
 
 // A gradient can also contain comments, descriptive and unknown elements.
+// Checks that a value of the attribute is relative to the value of the same attribute
+// of a parent element.
+pub fn is_relative_font_value(aid: AId, value: &AttributeValue) -> bool {
+    match aid {
+        AId::FontSize => {
+            if let AttributeValue::Length(ref len) = *value {
+                if len.unit == Unit::Percent {
+                    return true;
+                }
+            }
+        }
+        AId::FontWeight | AId::FontStretch => {}
+        _ => return false,
+    }
+
+    match value.to_string().as_str() {
+        "larger" | "smaller" | "bolder" | "lighter" | "wider" | "narrower" => true,
+        _ => is_em_ex_value(value),
+    }
+}
+
+// Checks that a value of the attribute depends on a font size of an element.
+pub fn is_em_ex_value(value: &AttributeValue) -> bool {
+    let is_em_ex = |unit| unit == Unit::Em || unit == Unit::Ex;
+
+    match *value {
+        AttributeValue::Length(ref len) => is_em_ex(len.unit),
+        AttributeValue::LengthList(ref list) => list.iter().any(|len| is_em_ex(len.unit)),
+        _ => false,
+    }
+}
+
+// Checks that attributes of the parent can't be simply moved to the child,
+// because it will change a font of the child or an actual length of the attribute.
+pub fn is_font_dependent(parent: &Node, child: &Node) -> bool {
+    // Decorations are accumulated.
+    if parent.has_attribute(AId::TextDecoration) && child.has_attribute(AId::TextDecoration) {
+        return true;
+    }
+
+    if child.has_attribute(AId::FontSize) {
+        let has_em_ex = parent.attributes().iter_svg().any(|(aid, attr)| {
+               aid != AId::FontSize
+            && attr.is_presentation()
+            && is_em_ex_value(&attr.value)
+            && !child.has_attribute(aid)
+        });
+
+        if has_em_ex {
+            return true;
+        }
+    }
+
+    child.attributes().iter_svg().any(|(aid, attr)| {
+        parent.has_attribute(aid) && is_relative_font_value(aid, &attr.value)
+    })
+}
+
 pub fn gradient_stops(node: &Node) -> vec::IntoIter<Node> {
     node.children().filter(|n| n.is_tag_name(EId::Stop)).collect::<Vec<Node>>().into_iter()
 }
-- 
2.43.0


From 12f4f47658360ad7aa9ba26e98dd731cdf734eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 53/81] fix: do not merge blur filters whose primitives differ

---
 src/task/rm_dupl_defs/fe_gaussian_blur.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_dupl_defs/fe_gaussian_blur.rs b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
index ec85772..fc4d6e2 100644
--- a/src/task/rm_dupl_defs/fe_gaussian_blur.rs
+++ b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
@@ -36,7 +36,12 @@ pub fn remove_dupl_fe_gaussian_blur(doc: &Document) {
     ];
 
     let fe_blur_attrs = [
+        AId::X,
+        AId::Y,
+        AId::Width,
+        AId::Height,
         AId::StdDeviation,
+        AId::ColorInterpolationFilters,
     ];
 
     let mut nodes = Vec::new();
-- 
2.43.0


From f29bcce0a78d58976b68cc7aa25b1f5c1ebc1b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 54/81] fix: do not merge gradients that differ in
 color-interpolation

---
 src/task/rm_dupl_defs/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index c47c098..c9a18b2 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -120,6 +120,10 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
 
     check_attr!(&attrs1, &attrs2, AId::GradientTransform, Transform::default());
 
+    if attrs1.get_value(AId::ColorInterpolation) != attrs2.get_value(AId::ColorInterpolation) {
+        return false;
+    }
+
     if attrs1.contains(AId::XlinkHref) && attrs2.contains(AId::XlinkHref) {
         if attrs1.get_value(AId::XlinkHref).unwrap() != attrs2.get_value(AId::XlinkHref).unwrap() {
             return false;
-- 
2.43.0


From b904200846d9b9b5573e8778d82a7cbd918c616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 55/81] fix: keep the inherited color space of moved filters,
 gradients and masks

---
 src/task/group_defs.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 38fa383..cec9566 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -136,6 +136,29 @@ fn resolve_attrs(node: &Node) {
         }
         _ => {}
     }
+
+    // These elements use the inherited color space by themselves.
+    match tag_id {
+          EId::LinearGradient
+        | EId::RadialGradient
+        | EId::Mask => copy_parent_attr(node, AId::ColorInterpolation),
+        EId::Filter => copy_parent_attr(node, AId::ColorInterpolationFilters),
+        _ => {}
+    }
+}
+
+fn copy_parent_attr(node: &Node, aid: AId) {
+    if node.has_attribute(aid) {
+        return;
+    }
+
+    let parent = node.parents().find(|n| n.has_attribute(aid));
+    if let Some(parent) = parent {
+        let value = parent.attributes().get_value(aid).cloned();
+        if let Some(value) = value {
+            node.clone().set_attribute((aid, value));
+        }
+    }
 }
 
 fn copy_attrs(from: &Node, to: &mut Node) {
-- 
2.43.0


From 74ac0d6257d24d3b5a26f4938bc448afdebf168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:39 +0000
Subject: [PATCH 56/81] fix: do not remove rendered elements that have
 xlink:href to an empty clipPath, filter or gradient

---
 src/task/rm_invisible_elems.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index d117bbf..fe135f3 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -88,7 +88,10 @@ fn remove_with_linked(mut node: Node, aid: AId) {
     let mut is_valid = true;
     for mut link in node.linked_nodes().collect::<Vec<Node>>() {
         let is_invisible = link.has_attribute(aid) && is_removable(&link);
-        if is_invisible || utils::is_href_to(&link, &node) {
+        // Other elements with 'xlink:href', like 'a' and 'filter', are still rendered.
+        let is_invisible_use =    link.is_tag_name(EId::Use) && utils::is_href_to(&link, &node)
+                               && !is_required_child(&link);
+        if is_invisible || is_invisible_use {
             link.remove();
         } else {
             // The element should stay invisible
@@ -391,6 +394,8 @@ fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
 
     for (aid, attr) in attrs.iter_svg() {
         match attr.value {
+            // 'xlink:href' of other elements, like 'a', can't have a paint value.
+            AttributeValue::Link(_) if !node.is_gradient() => {}
               AttributeValue::Link(ref n)
             | AttributeValue::FuncLink(ref n) => {
                 if *n == *link {
-- 
2.43.0


From d2e5ff10084fcdd735c5a9624b187384f3939d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:38 +0000
Subject: [PATCH 57/81] fix: do not remove elements with a clip-path or filter
 other than the empty one

---
 src/task/rm_invisible_elems.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index fe135f3..0cf5c87 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -87,7 +87,7 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
 fn remove_with_linked(mut node: Node, aid: AId) {
     let mut is_valid = true;
     for mut link in node.linked_nodes().collect::<Vec<Node>>() {
-        let is_invisible = link.has_attribute(aid) && is_removable(&link);
+        let is_invisible = is_linked_by(&link, aid, &node) && is_removable(&link);
         // Other elements with 'xlink:href', like 'a' and 'filter', are still rendered.
         let is_invisible_use =    link.is_tag_name(EId::Use) && utils::is_href_to(&link, &node)
                                && !is_required_child(&link);
@@ -105,6 +105,13 @@ fn remove_with_linked(mut node: Node, aid: AId) {
     }
 }
 
+fn is_linked_by(node: &Node, aid: AId, link: &Node) -> bool {
+    match node.attributes().get_value(aid) {
+        Some(&AttributeValue::FuncLink(ref n)) => n == link,
+        _ => false,
+    }
+}
+
 fn is_removable(node: &Node) -> bool {
     // Elements like 'mask' or 'symbol' affects other elements even when they are invisible.
        !node.is_referenced()
-- 
2.43.0


From 792828ef32fa1f752005ae7ec36775f5d53f596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 58/81] fix: keep x and y of filter primitives and slope of
 font-face that are not the default values

---
 src/task/rm_default_attrs.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index af8557f..efde32c 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -23,6 +23,7 @@ use svgdom::{
     Document,
     ElementType,
     Length,
+    Node,
     ValueId,
 };
 
@@ -80,6 +81,9 @@ pub fn remove_default_attributes(doc: &Document) {
             } else if node.has_attribute(AId::XlinkHref) && node.is_referenced() {
                 // Default value can override a value from the linked element.
                 continue;
+            } else if (aid == AId::X || aid == AId::Y) && is_filter_primitive(&node) {
+                // A primitive without 'x' and 'y' uses the filter region and not zero.
+                continue;
             } else if is_default(attr, tag_name) {
                 // Check default values of an non-presentation attributes.
                 rm_list.push(aid);
@@ -98,6 +102,10 @@ pub fn remove_default_attributes(doc: &Document) {
     }
 }
 
+fn is_filter_primitive(node: &Node) -> bool {
+    node.parent().map_or(false, |p| p.is_tag_name(EId::Filter))
+}
+
 fn is_default(attr: &Attribute, tag_name: EId) -> bool {
     // Process only popular and simple attributes.
 
@@ -208,8 +216,8 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
             // There are two different 'slope': one for 'font-face'
             // and one for 'feFunc*'.
             if let AttributeValue::String(ref s) = attr.value {
-                if tag_name == EId::FontFace && s == "0" {
-                    return true;
+                if tag_name == EId::FontFace {
+                    return s == "0";
                 } else if s == "1" {
                     return true;
                 }
-- 
2.43.0


From 6851f821087c85468e6b6bf31757be334daaef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:18 +0000
Subject: [PATCH 59/81] fix: keep font-size when em or ex are used in a list of
 lengths, like 'stroke-dasharray'

---
 src/task/rm_text_attrs.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index 0e88839..0bd7dd4 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -23,7 +23,8 @@ use svgdom::{
     NodeType,
 };
 
-use task::short::{EId, AId, Unit};
+use task::short::{EId, AId};
+use task::utils;
 
 // It's self defined list of the text attributes. There are no such list in the SVG spec.
 static TEXT_ATTRIBUTES: &'static [AId] = &[
@@ -135,16 +136,8 @@ fn has_em_ex_attributes(node: &Node) -> bool {
     //       but it's probably near to impossible
 
     let attrs = node.attributes();
-    for attr in attrs.iter() {
-        if let AttributeValue::Length(ref len) = attr.value {
-            match len.unit {
-                Unit::Ex | Unit::Em => return true,
-                _ => {}
-            }
-        }
-    }
-
-    false
+    let res = attrs.iter().any(|attr| utils::is_em_ex_value(&attr.value));
+    res
 }
 
 fn is_linked_text(node: &Node) -> bool {
-- 
2.43.0


From 6688ee34a5552dcb0a78d19e996f670db99f8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:19 +0000
Subject: [PATCH 60/81] fix: keep ry that is the same percentage as rx

---
 src/task/rm_unused_coords.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_unused_coords.rs b/src/task/rm_unused_coords.rs
index 0d3219e..d010631 100644
--- a/src/task/rm_unused_coords.rs
+++ b/src/task/rm_unused_coords.rs
@@ -23,7 +23,7 @@ use svgdom::{
     Node,
 };
 
-use task::short::{EId, AId};
+use task::short::{EId, AId, Unit};
 
 pub fn remove_unused_coordinates(doc: &Document) {
     let mut rm_list = Vec::with_capacity(16);
@@ -50,7 +50,13 @@ pub fn remove_unused_coordinates(doc: &Document) {
                     // If 'rx' equals to 'ry', than we can remove 'ry'.
                     // https://www.w3.org/TR/SVG/shapes.html#RectElementRYAttribute
                     if attrs.contains(AId::Rx) {
-                        if attrs.get_value(AId::Rx) == attrs.get_value(AId::Ry) {
+                        // Percentages of 'rx' and 'ry' refer to different sides of the viewport.
+                        let is_percent = match attrs.get_value(AId::Rx) {
+                            Some(&AttributeValue::Length(len)) => len.unit == Unit::Percent,
+                            _ => false,
+                        };
+
+                        if !is_percent && attrs.get_value(AId::Rx) == attrs.get_value(AId::Ry) {
                             rm_list.push(AId::Ry);
                         }
                     }
-- 
2.43.0


From 89b3d07b7292935e99e764e1b6ae3ace6b51d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:19 +0000
Subject: [PATCH 61/81] fix: do not join attributes of 'font-face' into the
 'style' attribute

---
 src/task/join_style_attrs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index a8d1d7e..640de70 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -24,7 +24,7 @@ use svgdom::{
     WriteOptions,
 };
 
-use task::short::AId;
+use task::short::{EId, AId};
 use options::StyleJoinMode;
 
 pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOptions) {
@@ -34,7 +34,12 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         return;
     }
 
-    for (_, mut node) in doc.descendants().svg() {
+    for (id, mut node) in doc.descendants().svg() {
+        // Attributes of the 'font-face' are descriptors and not properties.
+        if id == EId::FontFace {
+            continue;
+        }
+
         let count = {
             let attrs = node.attributes();
             attrs.iter().filter(|a| a.is_presentation() && a.visible).count()
-- 
2.43.0


From 4aa72529606d16571475e80a4d59ec77716f754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:12 +0000
Subject: [PATCH 62/81] fix: do not resolve relative values twice while moving
 referenced elements to defs

---
 src/task/group_defs.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index cec9566..fa20113 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -25,6 +25,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 pub fn group_defs(doc: &mut Document) {
     // doc must contain 'svg' node, so we can safely unwrap.
@@ -41,7 +42,7 @@ pub fn group_defs(doc: &mut Document) {
         let parents: Vec<Node> = defs.parents_with_self().filter(|n| *n != svg).collect();
         if parents.iter().any(|n| n.attributes().iter().any(|a| a.is_inheritable() || a.has_id(AId::Visibility))) {
             for node in defs.children().filter(|n| n.is_referenced()) {
-                resolve_attrs(&node);
+                resolve_attrs(&node, &defs, &svg);
             }
         }
     }
@@ -67,7 +68,7 @@ pub fn group_defs(doc: &mut Document) {
         }
 
         for n in &mut nodes {
-            resolve_attrs(n);
+            resolve_attrs(n, &defs, &svg);
             n.detach();
             defs.append(n);
         }
@@ -112,7 +113,7 @@ pub fn group_defs(doc: &mut Document) {
 //
 // A 'symbol' element is an exception, because it's content inherits attributes
 // from the 'use' element.
-fn resolve_attrs(node: &Node) {
+fn resolve_attrs(node: &Node, defs: &Node, svg: &Node) {
     let tag_id = match node.tag_id() {
         Some(id) => id,
         None => return,
@@ -128,9 +129,9 @@ fn resolve_attrs(node: &Node) {
                 if child.is_used() {
                     // Attributes set on the linked element will affect the 'use' element too,
                     // so use the parent instead.
-                    copy_attrs(node, &mut node.clone());
+                    copy_attrs(node, &mut node.clone(), defs, svg);
                 } else {
-                    copy_attrs(node, &mut child);
+                    copy_attrs(node, &mut child, defs, svg);
                 }
             }
         }
@@ -161,16 +162,31 @@ fn copy_parent_attr(node: &Node, aid: AId) {
     }
 }
 
-fn copy_attrs(from: &Node, to: &mut Node) {
-    let mut attrs: Vec<Attribute> = Vec::new();
+fn copy_attrs(from: &Node, to: &mut Node, defs: &Node, svg: &Node) {
+    let mut attrs: Vec<(Node, Attribute)> = Vec::new();
     for p in from.parents_with_self() {
-        attrs.extend(p.attributes().iter_svg().map(|(_, a)| a)
-                      .filter(|a| a.is_inheritable() || a.has_id(AId::Visibility)).cloned());
+        let list: Vec<Attribute> = p.attributes().iter_svg().map(|(_, a)| a)
+            .filter(|a| a.is_inheritable() || a.has_id(AId::Visibility)).cloned().collect();
+
+        for attr in list {
+            // Attributes of the closest parent have a higher priority.
+            if !attrs.iter().any(|&(_, ref a)| a.id() == attr.id()) {
+                attrs.push((p.clone(), attr));
+            }
+        }
     }
 
-    for attr in attrs {
-        // Attributes of the closest parent have a higher priority.
-        if !to.has_attribute(attr.id().unwrap()) {
+    for (p, attr) in attrs {
+        let aid = attr.id().unwrap();
+
+        // A relative value must not be resolved twice, and it will be inherited anyway,
+        // except from 'defs', which can be removed later.
+        let is_relative = utils::is_relative_font_value(aid, &attr.value) || utils::is_em_ex_value(&attr.value);
+        if is_relative && (p == *from || (p == *svg && !defs.has_attribute(aid))) {
+            continue;
+        }
+
+        if !to.has_attribute(aid) {
             // An element can't reference itself or its parents, and such a reference
             // has no effect anyway. So we can skip it.
             let _ = to.set_attribute_checked(attr);
-- 
2.43.0


From de754b0cfff34850ecb59ad91c8cbad7a3379b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:43 +0000
Subject: [PATCH 63/81] fix: an endless loop while merging a gradient that is
 linked to a non-gradient element

---
 src/task/merge_gradients.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index 7606293..1587980 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -68,7 +68,8 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
 
         if let Some(av) = node.attributes().get_value(AId::XlinkHref) {
             if let AttributeValue::Link(ref link) = *av {
-                if link.uses_count() == 1 && !link.has_attribute(AId::XlinkHref) {
+                // A link to an element that is not a gradient is invalid and has no effect.
+                if link.is_gradient() && link.uses_count() == 1 && !link.has_attribute(AId::XlinkHref) {
                     linked_node = link.clone();
                 } else {
                     continue;
-- 
2.43.0


From 8c39d76462a035bbffad1cff9871ab605c0a903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:11 +0000
Subject: [PATCH 64/81] fix: report a write error of a buffered output to
 stdout

---
 src/cleaner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cleaner.rs b/src/cleaner.rs
index 2123c90..53fc23c 100644
--- a/src/cleaner.rs
+++ b/src/cleaner.rs
@@ -263,7 +263,13 @@ pub fn write_buffer(doc: &Document, opt: &WriteOptions, buf: &mut Vec<u8>) {
 }
 
 pub fn write_stdout(data: &[u8]) -> Result<(), io::Error> {
-    io::stdout().write_all(data)?;
+    let stdout = io::stdout();
+    let mut handle = stdout.lock();
+
+    handle.write_all(data)?;
+    // A write error during an implicit flush on exit will be ignored.
+    handle.flush()?;
+
     Ok(())
 }
 
-- 
2.43.0


From 5fa0a02a39bdbe49055f7a0d1990a2c030d0206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:14 +0000
Subject: [PATCH 65/81] fix: do not turn a gradient with equal stops into a
 solid color

---
 src/task/rm_invalid_stops.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invalid_stops.rs b/src/task/rm_invalid_stops.rs
index e815b7c..17a2c55 100644
--- a/src/task/rm_invalid_stops.rs
+++ b/src/task/rm_invalid_stops.rs
@@ -32,6 +32,7 @@ pub fn remove_invalid_stops(doc: &Document) {
                   .filter(|n| utils::has_gradient_stops(n));
     for node in iter {
         let mut prev_child = utils::gradient_stops(&node).next().unwrap();
+        let mut count = utils::gradient_stops(&node).count();
 
         for child in utils::gradient_stops(&node).skip(1) {
             {
@@ -42,7 +43,13 @@ pub fn remove_invalid_stops(doc: &Document) {
                     && attrs1.get_value(AId::StopColor) == attrs2.get_value(AId::StopColor)
                     && attrs1.get_value(AId::StopOpacity) == attrs2.get_value(AId::StopOpacity) {
                     // If nothing changed - we can remove this 'stop'.
-                    nodes.push(child.clone());
+                    //
+                    // But a gradient with a single 'stop' is a solid color,
+                    // which is rendered even when the bounding box of an element is invalid.
+                    if count > 2 {
+                        nodes.push(child.clone());
+                        count -= 1;
+                    }
                 }
             }
 
-- 
2.43.0


From afe67967ecb935f9a14f6ab1f505b1a849458b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 66/81] fix: ungroup groups with a default transform

---
 src/task/ungroup_groups.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 0f4ac3f..fa1ebc9 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -43,6 +43,14 @@ pub fn ungroup_groups(doc: &Document, opt: &CleaningOptions) {
 fn _ungroup_groups(parent: &Node, opt: &CleaningOptions) -> bool {
     for mut node in parent.children() {
         if node.is_tag_name(EId::G) {
+            // A default transform has no effect, so it should not prevent ungrouping.
+            let ts = node.attributes().get_value(AId::Transform).cloned();
+            if let Some(AttributeValue::Transform(ts)) = ts {
+                if ts.is_default() {
+                    node.remove_attribute(AId::Transform);
+                }
+            }
+
             if can_ungroup(parent, &node) {
                 ungroup_group(&mut node);
                 node.remove();
-- 
2.43.0


From e388313dc5abfef2d9706e0fd1211766337d93c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:03 +0000
Subject: [PATCH 67/81] fix: do not remove a root element that isn't displayed

---
 src/task/rm_invisible_elems.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 0cf5c87..0ea209e 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -191,7 +191,8 @@ fn process_paths(doc: &mut Document, is_any_removed: &mut bool) {
 fn process_display_attribute(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes = Vec::with_capacity(16);
 
-    _process_display_attribute(&doc.root(), &mut nodes, is_any_removed);
+    // The root 'svg' element can't be removed, even if it's not displayed.
+    _process_display_attribute(&doc.svg_element().unwrap(), &mut nodes, is_any_removed);
 
     if !nodes.is_empty() {
         *is_any_removed = true;
-- 
2.43.0


From 561c3034e0dcb6f216a9835c872aed620232d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:50 +0000
Subject: [PATCH 68/81] fix: do not scale an inherited stroke in em or ex when
 the font size differs

---
 src/task/apply_transforms/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index f2a06cd..f07b81d 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -34,7 +34,7 @@ pub mod utils {
     };
 
     use task::short::{EId, AId, Unit};
-    use task::utils::{any_inherited, has_inherited_marker, is_same_via_use};
+    use task::utils::{any_inherited, has_inherited_marker, is_em_ex_value, is_same_via_use};
 
     // TODO: remove
     pub fn has_valid_transform(node: &Node) -> bool {
@@ -91,6 +91,18 @@ pub mod utils {
             }
 
             let parent = node.parents().find(|n| n.has_attribute(*aid));
+
+            // 'em' and 'ex' depend on a font size of the parent.
+            if let Some(ref parent) = parent {
+                let is_font_changed = || node.parents_with_self()
+                    .take_while(|n| n != parent)
+                    .any(|n| n.has_attribute(AId::FontSize));
+
+                if is_em_ex_value(parent.attributes().get_value(*aid).unwrap()) && is_font_changed() {
+                    return true;
+                }
+            }
+
             !is_same_via_use(node, *aid, parent.as_ref())
         });
 
-- 
2.43.0


From 2003a07deb30264523eff0213586d51d877ca044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:00 +0000
Subject: [PATCH 69/81] fix: do not remove stops and filter primitives with
 'display:none'

---
 src/task/rm_invisible_elems.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 0ea209e..391da35 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -206,7 +206,7 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
         // If elements has attribute 'display:none' and this element is not used - we can remove it.
         let val = AttributeValue::PredefValue(ValueId::None);
         if node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used()
-           && !is_required_child(&node) {
+           && !is_required_child(&node) && is_displayable(&node) {
             // All children must be unused to.
             if !node.descendants().any(|n| n.is_used()) {
                 // TODO: ungroup used elements and remove unused
@@ -218,6 +218,28 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
     }
 }
 
+// Checks that 'display' applies to the element.
+//
+// Others, like 'stop' and filter primitives, are used even with 'display:none'.
+fn is_displayable(node: &Node) -> bool {
+    match node.tag_id() {
+          Some(EId::A)
+        | Some(EId::AltGlyph)
+        | Some(EId::ForeignObject)
+        | Some(EId::G)
+        | Some(EId::Image)
+        | Some(EId::Path)
+        | Some(EId::Svg)
+        | Some(EId::Switch)
+        | Some(EId::Text)
+        | Some(EId::TextPath)
+        | Some(EId::Tref)
+        | Some(EId::Tspan)
+        | Some(EId::Use) => true,
+        _ => node.is_basic_shape(),
+    }
+}
+
 // Remove 'filter' elements without children.
 fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes: Vec<Node> = doc.descendants()
-- 
2.43.0


From a797bea98c4cd1feaafb6436d0422beaa32675ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:43 +0000
Subject: [PATCH 70/81] fix: do not resolve 'use' elements that refer to each
 other into themselves

---
 src/task/resolve_use.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 0940096..ace67ad 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -82,6 +82,12 @@ pub fn resolve_use(doc: &Document) {
     }
 
     for (mut node, mut link) in nodes {
+        // The linked element can become a parent after resolving the previous 'use',
+        // when they refer to each other.
+        if node.parents().any(|n| n == link) {
+            continue;
+        }
+
         // Unlink 'use'.
         node.remove_attribute(AId::XlinkHref);
 
-- 
2.43.0


From 72cebacc16a192467985f4cdabee0f091f4b0de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:58 +0000
Subject: [PATCH 71/81] fix: keep attributes of a removed gradient in gradients
 linked to it

---
 src/task/rm_dupl_defs/mod.rs   | 2 +-
 src/task/rm_invisible_elems.rs | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index c9a18b2..542fd83 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -153,7 +153,7 @@ fn is_linked_to(node: &Node, link: &Node) -> bool {
 }
 
 // Resolved attributes are invisible by default.
-fn show_attributes(node: &mut Node, link: &Node) {
+pub(in task) fn show_attributes(node: &mut Node, link: &Node) {
     let link_attrs = link.attributes();
     for attr in node.attributes_mut().iter_mut() {
         if let Some(aid) = attr.id() {
diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 391da35..c0dd2df 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -25,6 +25,7 @@ use svgdom::{
     ValueId,
 };
 
+use task::rm_dupl_defs;
 use task::short::{EId, AId};
 use task::utils;
 
@@ -327,6 +328,7 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
                 while let Some(aid) = find_link_attribute(&link, &n) {
                     if link.is_gradient() {
                         // All attributes are already resolved, so we don't need this link anymore.
+                        rm_dupl_defs::show_attributes(&mut link, &n);
                         link.remove_attribute(aid);
                     } else {
                         link.set_attribute((aid, ValueId::None));
-- 
2.43.0


From 180dffde40b8e168a32e0f6373f23a5cee48c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:17 +0000
Subject: [PATCH 72/81] fix: do not apply attributes of 'defs' to elements
 moved into it

---
 src/task/group_defs.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index fa20113..7cee1bb 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -41,10 +41,18 @@ pub fn group_defs(doc: &mut Document) {
     {
         let parents: Vec<Node> = defs.parents_with_self().filter(|n| *n != svg).collect();
         if parents.iter().any(|n| n.attributes().iter().any(|a| a.is_inheritable() || a.has_id(AId::Visibility))) {
-            for node in defs.children().filter(|n| n.is_referenced()) {
+            for node in defs.descendants().filter(|n| n.is_referenced()) {
                 resolve_attrs(&node, &defs, &svg);
             }
         }
+
+        // Already resolved and must not affect elements which will be moved to the 'defs'.
+        let inherited: Vec<AId> = defs.attributes().iter_svg()
+            .filter(|&(aid, a)| a.is_inheritable() || aid == AId::Visibility)
+            .map(|(aid, _)| aid).collect();
+        for aid in inherited {
+            defs.remove_attribute(aid);
+        }
     }
 
     // Make 'defs' a first child of the 'svg'.
-- 
2.43.0


From e23da7a6f52d8b3f45ca383447d348ab3d17f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:17 +0000
Subject: [PATCH 73/81] fix: do not panic on an inherited reference to the
 element itself

---
 src/task/resolve_inherit.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index ece257d..38cb606 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -102,7 +102,17 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
                 // A relative value can't be resolved twice, but will be inherited anyway.
                 node.remove_attribute(curr_attr);
             } else {
-                node.set_attribute((curr_attr, av.clone()));
+                let is_inheritable = node.attributes().get(curr_attr).map_or(false, |a| a.is_inheritable());
+
+                // A reference to the element itself can't be set.
+                if node.set_attribute_checked((curr_attr, av)).is_err() {
+                    if is_inheritable {
+                        node.remove_attribute(curr_attr);
+                        return Ok(());
+                    }
+
+                    return Err(ErrorKind::UnresolvedAttribute(curr_attr.to_string()).into());
+                }
             }
         }
 
-- 
2.43.0


From 78046dbee629ac22e3d12d67bc4c64775b89c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:16 +0000
Subject: [PATCH 74/81] fix: do not remove elements to which an empty clip path
 or filter doesn't apply

---
 src/task/rm_invisible_elems.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index c0dd2df..b79c5fe 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -117,6 +117,8 @@ fn is_removable(node: &Node) -> bool {
     // Elements like 'mask' or 'symbol' affects other elements even when they are invisible.
        !node.is_referenced()
     && !node.is_tag_name(EId::Svg)
+    && is_displayable(node)
+    && !is_text_child(node)
     && !is_required_child(node)
     && !has_used_elements(node)
     && node.linked_nodes().all(|n| n.is_tag_name(EId::Use))
@@ -241,6 +243,11 @@ fn is_displayable(node: &Node) -> bool {
     }
 }
 
+// Clipping and filtering doesn't apply to a part of a text.
+fn is_text_child(node: &Node) -> bool {
+    node.parents().any(|n| n.is_tag_name(EId::Text))
+}
+
 // Remove 'filter' elements without children.
 fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes: Vec<Node> = doc.descendants()
-- 
2.43.0


From 2ac2a46a5f7750353bef7177b5cf9317f7d29fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:45 +0000
Subject: [PATCH 75/81] fix: do not remove an invalid content of a clip path
 that is used elsewhere

---
 src/task/rm_invisible_elems.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index b79c5fe..f1897fa 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -61,7 +61,7 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Remove all invalid children.
     for node in doc.descendants().filter(|n| n.is_tag_name(EId::ClipPath)) {
         for child in node.children() {
-            if !is_valid_clip_path_elem(&child) && !has_used_elements(&child) {
+            if !is_valid_clip_path_elem(&child) && !child.is_used() && !has_used_elements(&child) {
                 nodes.push(child.clone());
             }
         }
-- 
2.43.0


From 311ca5422f094691af669220b0606a0f234bb27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:42 +0000
Subject: [PATCH 76/81] fix: keep a font size and values relative to it on the
 element moved to 'defs'

---
 src/task/group_defs.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 7cee1bb..bedecc0 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -133,13 +133,13 @@ fn resolve_attrs(node: &Node, defs: &Node, svg: &Node) {
         | EId::Mask
         | EId::Pattern => {
             // Only SVG elements can have attributes.
-            for (_, mut child) in node.children().svg().collect::<Vec<_>>() {
+            for (_, child) in node.children().svg().collect::<Vec<_>>() {
                 if child.is_used() {
                     // Attributes set on the linked element will affect the 'use' element too,
                     // so use the parent instead.
-                    copy_attrs(node, &mut node.clone(), defs, svg);
+                    copy_attrs(node, node, defs, svg);
                 } else {
-                    copy_attrs(node, &mut child, defs, svg);
+                    copy_attrs(node, &child, defs, svg);
                 }
             }
         }
@@ -170,7 +170,7 @@ fn copy_parent_attr(node: &Node, aid: AId) {
     }
 }
 
-fn copy_attrs(from: &Node, to: &mut Node, defs: &Node, svg: &Node) {
+fn copy_attrs(from: &Node, to: &Node, defs: &Node, svg: &Node) {
     let mut attrs: Vec<(Node, Attribute)> = Vec::new();
     for p in from.parents_with_self() {
         let list: Vec<Attribute> = p.attributes().iter_svg().map(|(_, a)| a)
@@ -194,6 +194,10 @@ fn copy_attrs(from: &Node, to: &mut Node, defs: &Node, svg: &Node) {
             continue;
         }
 
+        // It also can depend on a font size of the child, so keep it on the parent.
+        let is_parent = is_relative || aid == AId::FontSize;
+        let mut to = if is_parent { from.clone() } else { to.clone() };
+
         if !to.has_attribute(aid) {
             // An element can't reference itself or its parents, and such a reference
             // has no effect anyway. So we can skip it.
-- 
2.43.0


From 9281720954cbdd8101998e5edc72a1d4f6832e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:42 +0000
Subject: [PATCH 77/81] fix: do not group a transform of a nested svg

---
 src/task/group_by_style.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index 42c1328..a77dc3a 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -425,6 +425,11 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
             }
 
             if aid == AId::Transform {
+                // Has no effect on a nested 'svg', so it can't be moved to a group.
+                if node.is_tag_name(EId::Svg) {
+                    continue;
+                }
+
                 // We can't group a transform if a node or the parent has linked elements.
 
                 if !super::apply_transforms::utils::is_valid_attrs(node) {
@@ -460,6 +465,10 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
     // Set attributes flags inside the table.
     for d in &mut table.d {
         for (idx, node) in node_list.iter().enumerate() {
+            if node.is_tag_name(EId::Svg) && d.attributes[0].has_id(AId::Transform) {
+                continue;
+            }
+
             let attrs = node.attributes();
             if attrs.iter().any(|a| *a == d.attributes[0]) {
                 d.flags[idx] = true;
-- 
2.43.0


From c5fdf3c863a39ad1a70ad49e0e23d191e8d5ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:25 +0000
Subject: [PATCH 78/81] fix: resolve attributes of nested referenced elements
 before moving them to 'defs'

---
 src/task/group_defs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index bedecc0..084e918 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -75,8 +75,12 @@ pub fn group_defs(doc: &mut Document) {
             }
         }
 
-        for n in &mut nodes {
+        // Referenced elements can be nested, so resolve them before moving.
+        for n in &nodes {
             resolve_attrs(n, &defs, &svg);
+        }
+
+        for n in &mut nodes {
             n.detach();
             defs.append(n);
         }
-- 
2.43.0


From 2b6776fe76a0da59344aa5d94c856878d52260ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:28 +0000
Subject: [PATCH 79/81] fix: do not remove content of a clip path because of an
 empty filter

---
 src/task/rm_invisible_elems.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index f1897fa..4d2c322 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -88,7 +88,8 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
 fn remove_with_linked(mut node: Node, aid: AId) {
     let mut is_valid = true;
     for mut link in node.linked_nodes().collect::<Vec<Node>>() {
-        let is_invisible = is_linked_by(&link, aid, &node) && is_removable(&link);
+        let is_invisible =    is_linked_by(&link, aid, &node) && is_removable(&link)
+                           && !(aid == AId::Filter && is_clip_path_content(&link));
         // Other elements with 'xlink:href', like 'a' and 'filter', are still rendered.
         let is_invisible_use =    link.is_tag_name(EId::Use) && utils::is_href_to(&link, &node)
                                && !is_required_child(&link);
@@ -113,6 +114,12 @@ fn is_linked_by(node: &Node, aid: AId, link: &Node) -> bool {
     }
 }
 
+// A clipping path uses only a geometry of its content, so a filter doesn't affect it.
+fn is_clip_path_content(node: &Node) -> bool {
+       node.parents().any(|n| n.is_tag_name(EId::ClipPath))
+    || node.linked_nodes().any(|n| n.parents().any(|p| p.is_tag_name(EId::ClipPath)))
+}
+
 fn is_removable(node: &Node) -> bool {
     // Elements like 'mask' or 'symbol' affects other elements even when they are invisible.
        !node.is_referenced()
-- 
2.43.0


From 717d9525038f388e1930fd935839ad5abd736d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:48 +0000
Subject: [PATCH 80/81] fix: keep attributes of a removed gradient in gradients
 linked to it through other ones

---
 src/task/rm_dupl_defs/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index 542fd83..a767f7d 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -18,6 +18,7 @@
 
 use svgdom::{
     AttributeValue,
+    ElementType,
     Node,
     Transform,
 };
@@ -162,6 +163,15 @@ pub(in task) fn show_attributes(node: &mut Node, link: &Node) {
             }
         }
     }
+
+    // A gradient of other type can't store attributes that should be inherited
+    // by gradients linked to it.
+    if node.tag_id() != link.tag_id() {
+        let is_linked = |n: &Node| n.is_gradient() && utils::is_href_to(n, node);
+        for mut n in node.linked_nodes().filter(is_linked).collect::<Vec<Node>>() {
+            show_attributes(&mut n, link);
+        }
+    }
 }
 
 pub fn is_equal_stops(node1: &Node, node2: &Node) -> bool {
-- 
2.43.0


From e3107659fd244787355d47d8f6e89d2152c85a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:09 +0000
Subject: [PATCH 81/81] fix: do not group attributes of a 'font-face'

---
 src/task/group_by_style.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index a77dc3a..f4c2359 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -417,6 +417,11 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
 
     // Fill table with attributes.
     for node in &node_list {
+        // Attributes of a 'font-face' are descriptors and not properties.
+        if node.is_tag_name(EId::FontFace) {
+            continue;
+        }
+
         let attrs = node.attributes();
 
         for (aid, attr) in attrs.iter_svg() {
@@ -469,6 +474,10 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
                 continue;
             }
 
+            if node.is_tag_name(EId::FontFace) {
+                continue;
+            }
+
             let attrs = node.attributes();
             if attrs.iter().any(|a| *a == d.attributes[0]) {
                 d.flags[idx] = true;
-- 
2.43.0

