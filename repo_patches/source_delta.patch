From 45540685517f64a254bc65318ea108e60af16266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:17 +0000
Subject: [PATCH 01/50] fix: keep the value parser on character boundaries and
 stop endless path parsing

---
 crates/oxvg_parse/src/lib.rs          | 12 ++++++------
 crates/oxvg_parse/src/types/number.rs |  2 --
 crates/oxvg_path/src/parser.rs        |  8 +++++++-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index 7dfda4d..c11b68c 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -34,13 +34,13 @@ impl<'input> Parser<'input> {
     /// If the input has ended
     pub fn read(&mut self) -> Result<char, Error<'input>> {
         let current = self.current()?;
-        self.advance();
+        self.cursor += current.len_utf8();
         Ok(current)
     }
 
     /// Go to the next value without reading
     pub fn advance(&mut self) {
-        self.cursor += 1;
+        self.cursor += self.current().map_or(0, char::len_utf8);
     }
 
     /// Move backwards without reading
@@ -121,7 +121,7 @@ impl<'input> Parser<'input> {
 
     /// Moves the cursor forward the number of matching characters
     pub fn skip_char(&mut self, char: char) {
-        self.skip_internal(self.slice().trim_matches(char).len());
+        self.skip_internal(self.slice().trim_start_matches(char).len());
     }
 
     /// Moves the cursor forward the number of whitespace characters
@@ -213,9 +213,9 @@ impl<'input> Parser<'input> {
     ///
     /// If the next set of characters does not match the given string
     pub fn expect_str(&mut self, expected: &'static str) -> Result<(), Error<'input>> {
-        let cursor = self.cursor;
-        self.cursor += expected.len();
-        let received = self.slice_from(cursor);
+        let received = self.slice();
+        let received = received.get(..expected.len()).unwrap_or(received);
+        self.cursor += received.len();
         if received == expected {
             Ok(())
         } else {
diff --git a/crates/oxvg_parse/src/types/number.rs b/crates/oxvg_parse/src/types/number.rs
index 23fc0a4..482150b 100644
--- a/crates/oxvg_parse/src/types/number.rs
+++ b/crates/oxvg_parse/src/types/number.rs
@@ -19,8 +19,6 @@ impl<'input> Parse<'input> for f64 {
                 let exponent_cursor = input.cursor();
                 input.skip_matches(|char| matches!(char, '-' | '+'));
                 input.skip_matches(|char| char.is_ascii_digit());
-                input.skip_char('.');
-                input.skip_matches(|char| char.is_ascii_digit());
                 if exponent_cursor == input.cursor() {
                     return Err(Error::InvalidNumber);
                 }
diff --git a/crates/oxvg_path/src/parser.rs b/crates/oxvg_path/src/parser.rs
index 83c8048..05b2d34 100644
--- a/crates/oxvg_path/src/parser.rs
+++ b/crates/oxvg_path/src/parser.rs
@@ -38,7 +38,13 @@ impl<'input> Path {
                 .try_parse(command::ID::parse)
                 .or_else(|_| {
                     if let Some(last) = list.last() {
-                        Ok(command::ID::Implicit(Box::new(last.id().next_implicit())))
+                        match last.id().next_implicit() {
+                            // There's no implicit command after `z`
+                            command::ID::ClosePath => {
+                                Err(oxvg_parse::error::Error::Path(PathError::NoCommand))
+                            }
+                            id => Ok(command::ID::Implicit(Box::new(id))),
+                        }
                     } else if allow_implicit_start {
                         Ok(command::ID::MoveTo)
                     } else {
-- 
2.43.0


From 9ce7c879cf50ece1870aab574e77bc4f03c27c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:58 +0000
Subject: [PATCH 02/50] fix: keep repeated closepaths and numbers followed by a
 stray exponent sign

---
 crates/oxvg_parse/src/types/number.rs | 16 +++++++---------
 crates/oxvg_path/src/parser.rs        |  5 ++++-
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/oxvg_parse/src/types/number.rs b/crates/oxvg_parse/src/types/number.rs
index 482150b..ca64d11 100644
--- a/crates/oxvg_parse/src/types/number.rs
+++ b/crates/oxvg_parse/src/types/number.rs
@@ -11,17 +11,15 @@ impl<'input> Parse<'input> for f64 {
         input.skip_char('.');
         input.skip_matches(|char| char.is_ascii_digit());
 
+        let exponent_cursor = input.cursor();
         if let Ok('e' | 'E') = input.current() {
             input.advance();
-            if let Ok('x' | 'm') = input.current() {
-                input.rewind(1);
-            } else {
-                let exponent_cursor = input.cursor();
-                input.skip_matches(|char| matches!(char, '-' | '+'));
-                input.skip_matches(|char| char.is_ascii_digit());
-                if exponent_cursor == input.cursor() {
-                    return Err(Error::InvalidNumber);
-                }
+            if let Ok('-' | '+') = input.current() {
+                input.advance();
+            }
+            if input.take_matches(|char| char.is_ascii_digit()).is_empty() {
+                // Not an exponent, e.g. the unit of `1em`
+                input.set_cursor(exponent_cursor);
             }
         }
 
diff --git a/crates/oxvg_path/src/parser.rs b/crates/oxvg_path/src/parser.rs
index 05b2d34..23ca501 100644
--- a/crates/oxvg_path/src/parser.rs
+++ b/crates/oxvg_path/src/parser.rs
@@ -56,7 +56,10 @@ impl<'input> Path {
                     remaining_content: input.take_slice(),
                 })?;
             if let Some(last) = list.last() {
-                if !command_id.is_implicit() && last.id().next_implicit() == command_id {
+                if !command_id.is_implicit()
+                    && command_id != command::ID::ClosePath
+                    && last.id().next_implicit() == command_id
+                {
                     command_id = command::ID::Implicit(Box::new(command_id));
                 }
             } else if !matches!(command_id, command::ID::MoveBy | command::ID::MoveTo) {
-- 
2.43.0


From 151a396815775a3a53f004f80bd14cd4d86055aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:11 +0000
Subject: [PATCH 03/50] fix: keep group effects and child styles apart when
 collapsing groups

---
 .../src/jobs/collapse_groups.rs               | 40 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 4726c2d..cb078cf 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -3,12 +3,12 @@ use std::mem;
 use lightningcss::{properties::PropertyId, vendor_prefix::VendorPrefix};
 use oxvg_ast::{
     element::Element,
-    get_attribute, has_attribute, is_element,
+    get_attribute, has_attribute, is_attribute, is_element,
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::{
     atom::Atom,
-    attribute::{Attr, inheritable::Inheritable},
+    attribute::{Attr, AttributeGroup, AttributeInfo, inheritable::Inheritable},
     content_type::ContentType,
     element::ElementCategory,
 };
@@ -111,6 +111,9 @@ fn move_attributes_to_child(element: Element) {
     } else if is_node_with_filter(element) {
         log::debug!("collapse_groups: not moving attrs: filter");
         return;
+    } else if is_style_overriding_child(element, first_child) {
+        log::debug!("collapse_groups: not moving attrs: style would override child");
+        return;
     }
 
     let mut removals = Vec::default();
@@ -141,6 +144,10 @@ fn move_attributes_to_child(element: Element) {
             if Inheritable::Inherited == inheritable {
                 log::debug!("collapse_groups: moved {attr:?}: is explicit inherit");
                 *child_attr = attr.clone();
+            } else if !attr.name().info().contains(AttributeInfo::Inheritable) {
+                log::debug!("collapse_groups: not removing {attr:?}: applies to group and child");
+                removals.pop();
+                break;
             }
         } else if *attr != *child_attr {
             log::debug!("collapse_groups: removing {attr:?}: inheritable attr is not inherited");
@@ -205,6 +212,35 @@ fn is_position_visually_unstable<'input, 'arena>(
     is_node_clipping || is_child_transformed_group
 }
 
+/// Whether either of the group or child's style would take precedence over the other's
+/// attributes if they're moved to the child.
+fn is_style_overriding_child<'input, 'arena>(
+    node: Element<'input, 'arena>,
+    child: Element<'input, 'arena>,
+) -> bool {
+    let is_node_styled = has_attribute!(node, Style);
+    if has_attribute!(child, Style)
+        && node.attributes().into_iter().any(|attr| {
+            !attr.name().info().contains(AttributeInfo::Inheritable)
+                && attr
+                    .name()
+                    .attribute_group()
+                    .contains(AttributeGroup::Presentation)
+        })
+    {
+        return true;
+    }
+    (is_node_styled || has_attribute!(node, Class))
+        && child.attributes().into_iter().any(|attr| {
+            is_attribute!(attr, Style)
+                || (is_node_styled && is_attribute!(attr, Class))
+                || attr
+                    .name()
+                    .attribute_group()
+                    .contains(AttributeGroup::Presentation)
+        })
+}
+
 fn is_node_with_filter(node: Element) -> bool {
     has_attribute!(node, Filter)
         || get_attribute!(node, Style)
-- 
2.43.0


From bd6779447ef16597623059061d793dc0ff874f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:46 +0000
Subject: [PATCH 04/50] fix: keep style and animated transforms when moving
 attributes to or from groups

---
 .../src/jobs/move_elems_attrs_to_group.rs     |  9 +++++++
 .../src/jobs/move_group_attrs_to_elems.rs     | 25 ++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 58a7668..cc2c122 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -71,6 +71,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveElemsAttrsToGroup {
             return Ok(());
         }
 
+        if has_attribute!(element, Style) {
+            log::debug!("not moving attrs, group's style would override them");
+            return Ok(());
+        }
+
         let every_child_is_path = element
             .children_iter()
             .all(|e| e.qual_name().expected_attributes().contains(&AttrId::D));
@@ -81,6 +86,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveElemsAttrsToGroup {
         every_child_is_path
             // preserve for pass-through attributes
             || has_attribute!(element, Filter | ClipPath | Mask)
+            // preserve for animations replacing the transform
+            || element
+                .children_iter()
+                .any(|e| e.children_iter().any(|e| is_element!(e, AnimateTransform)))
         {
             common_attributes.remove(&AttrId::Transform);
         }
diff --git a/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs b/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
index 7354a20..74ad41e 100644
--- a/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
@@ -1,8 +1,9 @@
 use std::mem;
 
+use lightningcss::{properties::PropertyId, vendor_prefix::VendorPrefix};
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut, has_attribute, is_attribute, is_element, remove_attribute, set_attribute,
+    get_attribute, get_attribute_mut, has_attribute, is_attribute, is_element, remove_attribute, set_attribute,
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::attribute::{
@@ -85,6 +86,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveGroupAttrsToElems {
             return Ok(());
         }
 
+        if is_transformed_by_style(element)
+            || element
+                .children_iter()
+                .any(|e| is_transformed_by_style(e) || is_transform_animated(e))
+        {
+            return Ok(());
+        }
+
         let Some(transform) = remove_attribute!(element, Transform) else {
             return Ok(());
         };
@@ -106,6 +115,20 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveGroupAttrsToElems {
     }
 }
 
+fn is_transformed_by_style(element: Element) -> bool {
+    get_attribute!(element, Style).is_some_and(|style| {
+        style
+            .get(&PropertyId::Transform(VendorPrefix::None))
+            .is_some()
+    })
+}
+
+fn is_transform_animated(element: Element) -> bool {
+    element
+        .children_iter()
+        .any(|e| is_element!(e, AnimateTransform))
+}
+
 impl Default for MoveGroupAttrsToElems {
     fn default() -> Self {
         Self(true)
-- 
2.43.0


From 0208d1bfd9c00d49bef80a2074b9230182cfb42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:53 +0000
Subject: [PATCH 05/50] fix: don't treat translate(1 1) as the identity

---
 crates/oxvg_collections/src/attribute/transform.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/transform.rs b/crates/oxvg_collections/src/attribute/transform.rs
index d755130..2ba4b7b 100644
--- a/crates/oxvg_collections/src/attribute/transform.rs
+++ b/crates/oxvg_collections/src/attribute/transform.rs
@@ -236,7 +236,8 @@ impl SVGTransform {
     fn is_identity(&self) -> bool {
         match self {
             Self::Rotate(n, _, _) | Self::SkewX(n) | Self::SkewY(n) => *n == 0.0,
-            Self::Scale(x, y) | Self::Translate(x, y) => *x == 1.0 && *y == 1.0,
+            Self::Scale(x, y) => *x == 1.0 && *y == 1.0,
+            Self::Translate(x, y) => *x == 0.0 && *y == 0.0,
             Self::Matrix(_) | Self::CssTransform(_) => false,
         }
     }
@@ -480,7 +481,7 @@ impl TryFrom<&Transform> for SVGTransform {
                 let NumberOrPercentage::Number(x) = x else {
                     return Err(());
                 };
-                Self::Scale(*x, 0.0)
+                Self::Scale(*x, 1.0)
             }
             Transform::Rotate(angle) => Self::Rotate(angle.to_degrees(), 0.0, 0.0),
             Transform::SkewX(x) => Self::SkewX(x.to_degrees()),
-- 
2.43.0


From b685eb912537455c49b7e7292604b00cbf1be865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:53 +0000
Subject: [PATCH 06/50] fix: keep children, unrendered shapes and referenced
 ellipses when converting shapes

---
 crates/oxvg_ast/src/element.rs                |  6 +-
 .../src/jobs/convert_ellipse_to_circle.rs     | 10 ++-
 .../src/jobs/convert_shape_to_path.rs         | 68 ++++++++++++-------
 3 files changed, 56 insertions(+), 28 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index b120247..2437c5b 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -424,7 +424,11 @@ impl<'input, 'arena> Element<'input, 'arena> {
             ranges: std::collections::HashMap::new(),
         });
         self.replace_with(replacement);
-        Self(&*replacement)
+        let replacement = Self(&*replacement);
+        while let Some(child) = self.first_child.get() {
+            replacement.append(child);
+        }
+        replacement
     }
 
     /// Returns the element immediately following this one in it's parent's child list.
diff --git a/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs b/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
index b77ad6c..1683da2 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
@@ -10,6 +10,7 @@ use oxvg_collections::{
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::convert_shape_to_path::ReferencedShapes;
 use crate::error::JobsError;
 
 #[cfg(feature = "wasm")]
@@ -38,10 +39,13 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertEllipseToCircle {
 
     fn prepare(
         &self,
-        _document: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<PrepareOutcome, Self::Error> {
-        Ok(if self.0 {
+        let referenced_shapes = ReferencedShapes::from_stylesheet(document, context)?;
+        Ok(if self.0
+            && !referenced_shapes.intersects(ReferencedShapes::Circle | ReferencedShapes::Ellipse)
+        {
             PrepareOutcome::none
         } else {
             PrepareOutcome::skip
diff --git a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
index f78f6ea..24d1a5f 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
@@ -75,14 +75,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertShapeToPath {
         document: Element<'input, 'arena>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> Result<oxvg_ast::visitor::PrepareOutcome, Self::Error> {
-        context.query_has_stylesheet(document);
-        let mut state = State {
+        let state = State {
             options: self,
-            referenced_shapes: ReferencedShapes::empty(),
+            referenced_shapes: ReferencedShapes::from_stylesheet(document, context)?,
         };
-        for styles in &context.query_has_stylesheet_result {
-            styles.borrow_mut().0.visit(&mut state)?;
-        }
         if !state.referenced_shapes.contains(ReferencedShapes::Path) {
             state.start_with_context(document, context)?;
         }
@@ -108,7 +104,22 @@ bitflags! {
     }
 }
 
-impl<'input> lightningcss::visitor::Visitor<'input> for State<'_> {
+impl ReferencedShapes {
+    /// Finds which shapes the document's stylesheet selects by name
+    pub fn from_stylesheet<'input, 'arena>(
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
+    ) -> Result<Self, JobsError<'input>> {
+        context.query_has_stylesheet(document);
+        let mut shapes = Self::empty();
+        for styles in &context.query_has_stylesheet_result {
+            styles.borrow_mut().0.visit(&mut shapes)?;
+        }
+        Ok(shapes)
+    }
+}
+
+impl<'input> lightningcss::visitor::Visitor<'input> for ReferencedShapes {
     type Error = JobsError<'input>;
 
     fn visit_types(&self) -> lightningcss::visitor::VisitTypes {
@@ -126,13 +137,13 @@ impl<'input> lightningcss::visitor::Visitor<'input> for State<'_> {
                     continue;
                 };
                 match &*name.lower_name.0 {
-                    "rect" => self.referenced_shapes.insert(ReferencedShapes::Rect),
-                    "line" => self.referenced_shapes.insert(ReferencedShapes::Line),
-                    "polyline" => self.referenced_shapes.insert(ReferencedShapes::Polyline),
-                    "polygon" => self.referenced_shapes.insert(ReferencedShapes::Polygon),
-                    "circle" => self.referenced_shapes.insert(ReferencedShapes::Circle),
-                    "ellipse" => self.referenced_shapes.insert(ReferencedShapes::Ellipse),
-                    "path" => self.referenced_shapes.insert(ReferencedShapes::Path),
+                    "rect" => self.insert(ReferencedShapes::Rect),
+                    "line" => self.insert(ReferencedShapes::Line),
+                    "polyline" => self.insert(ReferencedShapes::Polyline),
+                    "polygon" => self.insert(ReferencedShapes::Polygon),
+                    "circle" => self.insert(ReferencedShapes::Circle),
+                    "ellipse" => self.insert(ReferencedShapes::Ellipse),
+                    "path" => self.insert(ReferencedShapes::Path),
                     _ => {}
                 }
             }
@@ -181,7 +192,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
             }
 
             ElementId::Ellipse
-                if convert_arcs && !self.referenced_shapes.contains(ReferencedShapes::Circle) =>
+                if convert_arcs && !self.referenced_shapes.contains(ReferencedShapes::Ellipse) =>
             {
                 ConvertShapeToPath::ellipse_to_path(element, precision, context.info);
             }
@@ -236,6 +247,10 @@ impl ConvertShapeToPath {
         let Some(height) = get_attribute!(element, HeightRect).and_then(lp_px) else {
             return;
         };
+        if width <= 0.0 || height <= 0.0 {
+            // Isn't rendered, whereas a path's stroke would be
+            return;
+        }
 
         let mut path = Path(vec![
             Data::MoveTo([x, y]),
@@ -349,6 +364,9 @@ impl ConvertShapeToPath {
         }) else {
             return;
         };
+        if r <= 0.0 {
+            return;
+        }
 
         let mut path = Path(vec![
             Data::MoveTo([cx, cy - r]),
@@ -387,18 +405,20 @@ impl ConvertShapeToPath {
         }) else {
             return;
         };
-        let Some(rx) = (match get_attribute!(element, RX) {
-            Some(rx) => r_px(rx),
-            None => Some(0.0),
-        }) else {
-            return;
+        let (rx, ry) = match (get_attribute!(element, RX), get_attribute!(element, RY)) {
+            (Some(rx), Some(ry)) => (r_px(rx), r_px(ry)),
+            (Some(r), None) | (None, Some(r)) => {
+                let r = r_px(r);
+                (r, r)
+            }
+            (None, None) => return,
         };
-        let Some(ry) = (match get_attribute!(element, RY) {
-            Some(ry) => r_px(ry),
-            None => Some(0.0),
-        }) else {
+        let (Some(rx), Some(ry)) = (rx, ry) else {
             return;
         };
+        if rx <= 0.0 || ry <= 0.0 {
+            return;
+        }
 
         let mut path = Path(vec![
             Data::MoveTo([cx, cy - ry]),
-- 
2.43.0


From 415bff6f6631547901a9ac1d1d77bc8caa4f6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:08 +0000
Subject: [PATCH 07/50] fix: respect specificity, order and selector lists when
 computing styles

---
 crates/oxvg_ast/src/style.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 24510c5..9ef79d1 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -213,12 +213,6 @@ impl<'input> ComputedStyles<'input> {
         }
         let parent_styles = ComputedStyles::default().with_all(parent, styles)?;
         self.inherited.extend(parent_styles.inherited);
-        self.inherited.extend(
-            parent_styles
-                .declarations
-                .into_iter()
-                .map(|(id, value)| (id.name().to_string(), value.1)),
-        );
         self.inherited
             .extend(parent_styles.attr.into_iter().map(|attr| {
                 (
@@ -226,6 +220,12 @@ impl<'input> ComputedStyles<'input> {
                     Style::Static(Static::Attr(attr.clone())),
                 )
             }));
+        self.inherited.extend(
+            parent_styles
+                .declarations
+                .into_iter()
+                .map(|(id, value)| (id.name().to_string(), value.1)),
+        );
         let (inline, important_inline) = parent_styles
             .inline
             .map(|style| (style.declarations, style.important_declarations))
@@ -299,10 +299,9 @@ impl<'input> ComputedStyles<'input> {
                             selector: r.selectors.clone(),
                         }
                     })?;
-                    if !select.matches_naive(&SelectElement::new(element)) {
-                        continue;
+                    if select.matches_naive(&SelectElement::new(element)) {
+                        self.add_declarations(&r.declarations, specificity + s.specificity(), mode);
                     }
-                    self.add_declarations(&r.declarations, specificity + s.specificity(), mode);
                     selector.pop();
                 }
                 Ok(())
@@ -436,6 +435,7 @@ impl<'input> ComputedStyles<'input> {
                 inline
                     .important_declarations
                     .iter()
+                    .rev()
                     .find(|css| css.property_id() == *id)
                     .cloned()
                     .map(|css| (css, Mode::Static))
@@ -457,6 +457,7 @@ impl<'input> ComputedStyles<'input> {
                     inline
                         .declarations
                         .iter()
+                        .rev()
                         .find(|css| css.property_id() == *id)
                         .cloned()
                         .map(|css| (css, Mode::Static))
@@ -513,6 +514,9 @@ impl<'input> ComputedStyles<'input> {
     ) {
         for d in declarations {
             let id = d.property_id();
+            if record.get(&id).is_some_and(|(s, _)| *s > specificity) {
+                continue;
+            }
             record.insert(id, (specificity, mode.style(Static::Css(d.clone()))));
         }
     }
-- 
2.43.0


From 88ded955326a30a414fe582d6cf079517e89ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:48 +0000
Subject: [PATCH 08/50] fix: keep arcs, dashes, styled strokes and animations
 when applying transforms

---
 .../src/jobs/apply_transforms.rs              | 109 +++++++++++++-----
 1 file changed, 81 insertions(+), 28 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index abd0260..6b1206f 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -1,13 +1,16 @@
 use core::ops::Mul;
-use std::f64;
-
-use lightningcss::properties::{
-    svg::{SVGPaint, StrokeDasharray},
-    transform::{Matrix, TransformList},
+use std::{cell::RefCell, f64};
+
+use lightningcss::{
+    properties::{
+        svg::{SVGPaint, StrokeDasharray},
+        transform::{Matrix, TransformList},
+    },
+    rules::CssRuleList,
 };
 use oxvg_ast::{
     element::Element,
-    get_attribute, get_attribute_mut, get_computed_style, get_computed_style_css, has_attribute,
+    get_attribute, get_attribute_mut, get_computed_style, get_computed_style_css, has_attribute, has_computed_style,
     is_attribute,
     style::{ComputedStyle, ComputedStyles, Mode},
     visitor::{Context, PrepareOutcome, Visitor},
@@ -18,6 +21,7 @@ use oxvg_collections::attribute::{
     inheritable::Inheritable,
     presentation::{LengthPercentage, VectorEffect},
 };
+use oxvg_collections::element::ElementCategory;
 use oxvg_path::{Path, command::Data};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -106,6 +110,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
             }
         }
 
+        if element
+            .children_iter()
+            .any(|e| e.qual_name().categories().contains(ElementCategory::Animation))
+        {
+            log::debug!("run: element may be animated");
+            return Ok(());
+        }
+
         let computed_styles = ComputedStyles::default()
             .with_all(element, &context.query_has_stylesheet_result)
             .map_err(JobsError::ComputedStylesError)?;
@@ -142,6 +154,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
             log::debug!("run: cannot handle dynamic stroke");
             return Ok(());
         }
+        if matches!(stroke, ComputedStyle::Some((Inheritable::Inherited, _))) {
+            log::debug!("run: cannot handle inherit stroke");
+            return Ok(());
+        }
 
         let stroke_width = get_computed_style!(computed_styles, StrokeWidth);
         if matches!(
@@ -166,7 +182,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
 
         drop(transform_attr);
         if let Some((Inheritable::Defined(stroke), Mode::Static)) = stroke.option()
-            && self.apply_stroked(&matrix, &stroke, stroke_width, element)
+            && self.apply_stroked(
+                &matrix,
+                &stroke,
+                stroke_width,
+                element,
+                &computed_styles,
+                &context.query_has_stylesheet_result,
+            )?
         {
             return Ok(());
         }
@@ -185,31 +208,33 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
 
 impl ApplyTransforms {
     #[allow(clippy::float_cmp, clippy::cast_possible_truncation)]
-    fn apply_stroked(
+    fn apply_stroked<'input>(
         &self,
         matrix: &[f64; 6],
         stroke: &SVGPaint,
         stroke_width: Option<Inheritable<LengthPercentage>>,
-        element: Element,
-    ) -> bool {
+        element: Element<'input, '_>,
+        computed_styles: &ComputedStyles<'input>,
+        stylesheet: &[RefCell<CssRuleList<'input>>],
+    ) -> Result<bool, JobsError<'input>> {
         if matches!(stroke, SVGPaint::None) {
-            return false;
+            return Ok(false);
         }
         if self.apply_transforms_stroked {
             log::debug!("apply_stroked: not applying transformed stroke");
-            return true;
+            return Ok(true);
         }
         if (matrix[0] != matrix[3] || matrix[1] != -matrix[2])
             && (matrix[0] != -matrix[3] || matrix[1] != matrix[2])
         {
             log::debug!("apply_stroked: stroke cannot be applied with disproportional scale/skew");
-            return true;
+            return Ok(true);
         }
 
-        if let Some(vector_effect) = get_attribute!(element, VectorEffect)
-            && matches!(&*vector_effect, VectorEffect::NonScalingStroke)
+        if let ComputedStyle::Some((VectorEffect::NonScalingStroke, Mode::Static)) =
+            get_computed_style!(computed_styles, VectorEffect)
         {
-            return false;
+            return Ok(false);
         }
 
         let mut scale = f64::sqrt((matrix[0] * matrix[0]) + (matrix[1] * matrix[1])); // hypot
@@ -217,31 +242,59 @@ impl ApplyTransforms {
             scale = f64::round(scale * transform_precision) / transform_precision;
         }
         if scale == 1.0 {
-            return false;
+            return Ok(false);
         }
         let scale = scale as f32;
 
+        let declared = ComputedStyles::default()
+            .with_style(element, stylesheet)
+            .map_err(JobsError::ComputedStylesError)?;
+        if has_computed_style!(
+            declared,
+            StrokeWidth | StrokeDashoffset | StrokeDasharray | VectorEffect
+        ) {
+            log::debug!("apply_stroked: stylesheet overrides scaled stroke");
+            return Ok(true);
+        }
+
         let stroke_width = match stroke_width {
             Some(Inheritable::Defined(value)) => LengthPercentage(value.0.mul(scale)),
+            Some(Inheritable::Inherited) => return Ok(true),
             // NOTE: Default stroke-width value is 1
-            None | Some(Inheritable::Inherited) => LengthPercentage::px(scale),
+            None => LengthPercentage::px(scale),
+        };
+        let stroke_dashoffset = match get_computed_style!(computed_styles, StrokeDashoffset) {
+            ComputedStyle::Some((Inheritable::Defined(value), Mode::Static)) => Some(value),
+            ComputedStyle::None => None,
+            _ => return Ok(true),
+        };
+        let stroke_dasharray = match get_computed_style!(computed_styles, StrokeDasharray) {
+            ComputedStyle::Some((Inheritable::Defined(value), Mode::Static)) => Some(value),
+            ComputedStyle::None => None,
+            _ => return Ok(true),
         };
         element.set_attribute(Attr::StrokeWidth(Inheritable::Defined(stroke_width)));
 
-        if let Some(Inheritable::Defined(LengthPercentage(stroke_dashoffset))) =
-            get_attribute_mut!(element, StrokeDashoffset).as_deref_mut()
-        {
-            *stroke_dashoffset = stroke_dashoffset.clone().mul(scale);
+        // NOTE: Dashes are relative to the length of the path when it's given
+        if has_attribute!(element, PathLength) {
+            return Ok(false);
         }
-        if let Some(Inheritable::Defined(StrokeDasharray::Values(stroke_dasharray))) =
-            get_attribute_mut!(element, StrokeDasharray).as_deref_mut()
-        {
-            for dash in stroke_dasharray.iter_mut() {
+        if let Some(LengthPercentage(stroke_dashoffset)) = stroke_dashoffset {
+            let stroke_dashoffset = LengthPercentage(stroke_dashoffset.mul(scale));
+            element.set_attribute(Attr::StrokeDashoffset(Inheritable::Defined(
+                stroke_dashoffset,
+            )));
+        }
+        if let Some(StrokeDasharray::Values(mut stroke_dasharray)) = stroke_dasharray {
+            for dash in &mut stroke_dasharray {
                 *dash = dash.clone().mul(scale);
             }
+            element.set_attribute(Attr::StrokeDasharray(Inheritable::Defined(
+                StrokeDasharray::Values(stroke_dasharray),
+            )));
         }
 
-        false
+        Ok(false)
     }
 }
 
@@ -423,7 +476,7 @@ fn transform_arc(cursor: [f64; 2], args: &mut [f64; 7], matrix: &[f64; 6]) {
             / std::f64::consts::PI;
     }
 
-    if (matrix[0] < 0.0) != (matrix[3] < 0.0) {
+    if matrix[0] * matrix[3] - matrix[1] * matrix[2] < 0.0 {
         args[4] = 1.0 - args[4];
     }
 }
-- 
2.43.0


From dbe00dff15668398aebc8e5923ae19b36d434fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:26 +0000
Subject: [PATCH 09/50] fix: don't round other transforms to the decimals of a
 matrix in the same list

---
 crates/oxvg_optimiser/src/jobs/convert_transform.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_transform.rs b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
index 344ee73..c977ada 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_transform.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
@@ -153,7 +153,11 @@ impl ConvertTransform {
                 number_of_decimals = arg_decimal_digits;
             }
         }
-        if is_matrix_data && number_of_decimals < transform_precision {
+        let is_only_matrix_data = data
+            .0
+            .iter()
+            .all(|t| matches!(t, SVGTransform::Matrix(_)));
+        if is_only_matrix_data && number_of_decimals < transform_precision {
             transform_precision = number_of_decimals;
         }
         if !is_matrix_data {
-- 
2.43.0


From ad62a78b66710fa9856192c5f848d8ec761d8cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:15 +0000
Subject: [PATCH 10/50] fix: attach the rules of a style element only once

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 81341af..986d2dc 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -206,8 +206,7 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         roxmltree::NodeType::PI => parse_pi(allocator, node.pi().unwrap()),
         roxmltree::NodeType::Element => {
             let (child, style) = parse_element(allocator, node, namespace_map, &mut popped_ns);
-            if let Some(style) = style {
-                attach_child(child, style);
+            if style.is_some() {
                 return Ok(child);
             }
             child
-- 
2.43.0


From 8e0de0b4484ac32d939429e10771ab08d5e1b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:15 +0000
Subject: [PATCH 11/50] fix: keep sibling and parent links consistent in tree
 edits

---
 crates/oxvg_ast/src/element.rs | 45 ++++++++++------------------------
 crates/oxvg_ast/src/node.rs    | 16 ++++++++----
 2 files changed, 24 insertions(+), 37 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 2437c5b..d7bfc1f 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -6,7 +6,6 @@ use std::{
     ops::Deref,
 };
 
-use itertools::Itertools as _;
 use oxvg_collections::{
     atom::Atom,
     attribute::{Attr, AttrId},
@@ -325,6 +324,7 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | prepend](https://developer.mozilla.org/en-US/docs/Web/API/Element/prepend)
     pub fn prepend(&self, node: Ref<'input, 'arena>) {
+        node.remove();
         if let Some(first_node) = self.first_child.get() {
             first_node.previous_sibling.set(Some(node));
             node.next_sibling.set(Some(first_node));
@@ -349,25 +349,11 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | replaceChildren](https://developer.mozilla.org/en-US/docs/Web/API/Element/replaceChildren)
     pub fn replace_children(&self, children: impl std::iter::Iterator<Item = Ref<'input, 'arena>>) {
-        let mut children = children.peekable();
-        let first = children.peek().copied();
-        self.first_child.set(first);
-        first.inspect(|first| {
-            first.previous_sibling.set(None);
-        });
-        let mut last = first;
-        for (a, b) in children.tuple_windows() {
-            // NOTE: This only runs if children >= 2
-            a.parent.set(Some(self));
-            a.next_sibling.set(Some(b));
-            b.previous_sibling.set(Some(a));
-            last = Some(b);
+        let children: Vec<_> = children.collect();
+        self.empty();
+        for child in children {
+            self.append(child);
         }
-        last.inspect(|last| {
-            last.parent.set(Some(self));
-            last.next_sibling.set(None);
-        });
-        self.last_child.set(last);
     }
 
     /// Replaces this element in the children list of it's parent with another.
@@ -492,8 +478,6 @@ impl<'input, 'arena> Element<'input, 'arena> {
     /// [MDN | before](https://developer.mozilla.org/en-US/docs/Web/API/Element/before)
     pub fn before(&self, node: Ref<'input, 'arena>) -> Option<()> {
         let parent = self.parent_node()?;
-        node.remove();
-        node.set_parent_node(&parent);
         parent.insert_before(node, self);
         Some(())
     }
@@ -685,23 +669,20 @@ impl<'input, 'arena> Element<'input, 'arena> {
         F: FnMut(Self, Self) -> std::cmp::Ordering,
     {
         let mut children: Vec<_> = self.child_nodes_iter().collect();
-        children.sort_by(|a, b| {
-            let Some(a) = Element::new(a) else {
-                return std::cmp::Ordering::Less;
-            };
-            let Some(b) = Element::new(b) else {
-                return std::cmp::Ordering::Greater;
-            };
-            f(a, b)
+        children.sort_by(|a, b| match (Element::new(a), Element::new(b)) {
+            (None, None) => std::cmp::Ordering::Equal,
+            (None, Some(_)) => std::cmp::Ordering::Less,
+            (Some(_), None) => std::cmp::Ordering::Greater,
+            (Some(a), Some(b)) => f(a, b),
         });
 
         self.first_child.set(children.first().copied());
         self.last_child.set(children.last().copied());
         for i in 0..children.len() {
             let child = children[i];
-            if i > 0 {
-                child.previous_sibling.set(children.get(i - 1).copied());
-            }
+            child
+                .previous_sibling
+                .set(i.checked_sub(1).and_then(|i| children.get(i).copied()));
             child.next_sibling.set(children.get(i + 1).copied());
         }
     }
diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 5973cfc..12563a4 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -274,8 +274,9 @@ impl<'input, 'arena> Node<'input, 'arena> {
 
     /// Removes all child nodes
     pub fn empty(&self) {
-        self.first_child.set(None);
-        self.last_child.set(None);
+        while let Some(child) = self.first_child() {
+            child.remove();
+        }
     }
 
     /// Does a breadth-first search to find an element from the current node, returning this node
@@ -345,16 +346,18 @@ impl<'input, 'arena> Node<'input, 'arena> {
     {
         self.last_child.set(None);
         let mut current = self.first_child.take();
-        let mut previously_retained = None;
+        let mut previously_retained: Option<Ref<'input, 'arena>> = None;
         while let Some(child) = current {
             current = child.next_sibling.get();
             let retain = f(child);
             if retain {
                 child.previous_sibling.set(previously_retained);
-                if previously_retained.is_none() {
+                child.next_sibling.set(None);
+                if let Some(previous) = previously_retained.replace(child) {
+                    previous.next_sibling.set(Some(child));
+                } else {
                     self.first_child.set(Some(child));
                 }
-                previously_retained = Some(child);
                 self.last_child.set(Some(child));
             } else {
                 child.parent.set(None);
@@ -426,6 +429,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
     ///
     /// [MDN | appendChild](https://developer.mozilla.org/en-US/docs/Web/API/Node/appendChild)
     pub fn append_child(&'arena self, a_child: Ref<'input, 'arena>) {
+        a_child.remove();
         a_child.parent.set(Some(self));
         if let Some(child) = self.last_child.replace(Some(a_child)) {
             child.next_sibling.set(Some(a_child));
@@ -651,6 +655,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
     /// Inserts a node as the nth child of the current node's children, updating the `new_node`'s
     /// parent.
     pub fn insert(&'arena self, index: usize, new_node: Ref<'input, 'arena>) {
+        new_node.remove();
         if index == 0 {
             if let Some(first_child) = self.first_child() {
                 self.insert_before(new_node, first_child);
@@ -702,6 +707,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
         debug_assert_eq!(old_child.parent.get(), Some(self));
         debug_assert!(self.child_nodes_iter().contains(old_child));
 
+        new_child.remove();
         let previous_sibling = old_child.previous_sibling.take();
         let next_sibling = old_child.next_sibling.take();
         old_child.parent.set(None);
-- 
2.43.0


From 30b3e0f45e2a33d057fa9357c7e2680e306246cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:19 +0000
Subject: [PATCH 12/50] fix: keep class names unique when replacing one

---
 crates/oxvg_ast/src/class_list.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_ast/src/class_list.rs b/crates/oxvg_ast/src/class_list.rs
index 2ff4423..f78a468 100644
--- a/crates/oxvg_ast/src/class_list.rs
+++ b/crates/oxvg_ast/src/class_list.rs
@@ -147,14 +147,22 @@ impl<'a, 'input: 'a> ClassList<'a, 'input> {
         let Some(mut attr) = self.attr() else {
             return false;
         };
-        let Some(token) = attr
-            .list
-            .iter_mut()
-            .find(|token| token.0.as_str() == old_token)
-        else {
+        if !attr.list.iter().any(|token| token.0.as_str() == old_token) {
             return false;
-        };
-        *token = NonWhitespace(new_token);
+        }
+        // The first occurrence of either token is replaced, any others are removed
+        let mut replaced = false;
+        attr.list.retain_mut(|token| {
+            if token.0.as_str() != old_token && token.0.as_str() != new_token.as_str() {
+                return true;
+            }
+            let is_first = !replaced;
+            replaced = true;
+            if is_first {
+                *token = NonWhitespace(new_token.clone());
+            }
+            is_first
+        });
         true
     }
 
-- 
2.43.0


From 0d1d42db17f87739e638aa01a3da971ac0d94293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:19 +0000
Subject: [PATCH 13/50] fix: resolve the reserved xml and xmlns prefixes

---
 crates/oxvg_ast/src/element.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index d7bfc1f..7604c1b 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -126,6 +126,11 @@ impl<'input, 'arena> Element<'input, 'arena> {
     /// For a given prefix name, finds the namespace URI that the given prefix belongs to be searching for
     /// the closest matching `xmlns` attribute.
     pub fn find_xmlns(&self, prefix: Option<&str>) -> Atom<'input> {
+        match prefix {
+            Some("xml") => return NS::XML.uri().clone(),
+            Some("xmlns") => return NS::XMLNS.uri().clone(),
+            _ => {}
+        }
         let mut container = Some(*self);
         while let Some(inner) = container {
             container = inner.parent_element();
-- 
2.43.0


From ad7f13d77029030624f337244e9875adf8790f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:17 +0000
Subject: [PATCH 14/50] fix: identify elements by node and keep letter case
 when matching selectors

---
 crates/oxvg_ast/src/selectors.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index 0779cdf..8e097ac 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -345,7 +345,7 @@ impl selectors::Element for SelectElement<'_, '_> {
     type Impl = SelectorImpl;
 
     fn opaque(&self) -> selectors::OpaqueElement {
-        selectors::OpaqueElement::new(self)
+        selectors::OpaqueElement::new(self.element.0)
     }
 
     fn parent_element(&self) -> Option<Self> {
@@ -377,7 +377,7 @@ impl selectors::Element for SelectElement<'_, '_> {
     }
 
     fn is_html_element_in_html_document(&self) -> bool {
-        true
+        false
     }
 
     fn has_local_name(
@@ -522,10 +522,13 @@ impl selectors::Element for SelectElement<'_, '_> {
     fn is_empty(&self) -> bool {
         !self.element.has_child_nodes()
             || self.element.child_nodes_iter().all(|child| {
-                child.node_type() == node::Type::Text
-                    && child
+                match child.node_type() {
+                    node::Type::Comment | node::Type::ProcessingInstruction => true,
+                    node::Type::Text => child
                         .text_content()
-                        .is_none_or(|string| string.trim().is_empty())
+                        .is_none_or(|string| string.trim().is_empty()),
+                    _ => false,
+                }
             })
     }
 
-- 
2.43.0


From d6879f84f32964b9f2c599c3e28a29065e3c3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:00 +0000
Subject: [PATCH 15/50] fix: reject integers out of range instead of wrapping
 them

---
 crates/oxvg_parse/src/types/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_parse/src/types/number.rs b/crates/oxvg_parse/src/types/number.rs
index ca64d11..4f929d1 100644
--- a/crates/oxvg_parse/src/types/number.rs
+++ b/crates/oxvg_parse/src/types/number.rs
@@ -59,7 +59,7 @@ impl<'input> Parse<'input> for i64 {
 
 impl<'input> Parse<'input> for i32 {
     fn parse(input: &mut Parser<'input>) -> Result<Self, Error<'input>> {
-        Ok(i64::parse(input)? as i32)
+        i32::try_from(i64::parse(input)?).map_err(|_| Error::InvalidNumber)
     }
 }
 
-- 
2.43.0


From 73f4050f63afa0f04c8db9fc14e70856780eee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:00 +0000
Subject: [PATCH 16/50] fix: keep lists whose first item isn't understood

---
 crates/oxvg_collections/src/attribute/list_of.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/list_of.rs b/crates/oxvg_collections/src/attribute/list_of.rs
index 3dd9dd6..2db1aeb 100644
--- a/crates/oxvg_collections/src/attribute/list_of.rs
+++ b/crates/oxvg_collections/src/attribute/list_of.rs
@@ -276,12 +276,13 @@ impl<'input, T: Parse<'input> + std::fmt::Debug + PartialEq, S: Separator> Parse
         if input.slice().starts_with('"') || input.slice().starts_with('\'') {
             quote = input.slice().chars().next();
         }
-        let mut start = Parser::new(take_matches(input, quote.as_ref()));
+        let first = take_matches(input, quote.as_ref());
+        let mut start = Parser::new(first);
         quote = None;
         let mut list = match T::parse(&mut start) {
             Ok(first) if start.is_empty() => vec![first],
             Ok(_) => return Err(Error::ExpectedDone),
-            Err(_) if start.is_empty() => {
+            Err(_) if first.trim().is_empty() => {
                 return Ok(Self {
                     list: vec![],
                     separator: S::new(),
-- 
2.43.0


From 13a4f4b33622290e980011c6b1c04d4e57a89e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:00 +0000
Subject: [PATCH 17/50] fix: reject clock values with two signs

---
 crates/oxvg_collections/src/attribute/animation_timing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/oxvg_collections/src/attribute/animation_timing.rs b/crates/oxvg_collections/src/attribute/animation_timing.rs
index 1c76b95..221b506 100644
--- a/crates/oxvg_collections/src/attribute/animation_timing.rs
+++ b/crates/oxvg_collections/src/attribute/animation_timing.rs
@@ -65,6 +65,9 @@ impl<'input> Parse<'input> for ClockValue {
                 }
             })
             .unwrap_or(1.0);
+        if input.slice().starts_with(['+', '-']) {
+            return Err(Error::InvalidNumber);
+        }
         let timecount = f32::parse(input)? * sign;
         Ok(input
             .try_parse(|input| {
-- 
2.43.0


From 0301d0aac031522afeef94d3cb8cf55fb4c969f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:54 +0000
Subject: [PATCH 18/50] fix: keep namespace declarations in their scope when
 parsing

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 80 ++++++++++++--------------
 1 file changed, 36 insertions(+), 44 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 986d2dc..c85c54a 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -37,33 +37,38 @@ pub enum ParseError {
 }
 
 #[derive(Debug, Default)]
+/// The namespace declarations in scope, innermost last
 struct NamespaceMap<'input> {
-    prefix_to_uri: HashMap<Option<&'input str>, Option<&'input str>>,
-    uri_to_prefix: HashMap<Option<&'input str>, Option<&'input str>>,
+    bindings: Vec<(Option<&'input str>, &'input str)>,
 }
 
-#[allow(clippy::ref_option)]
 impl<'input> NamespaceMap<'input> {
     fn new() -> Self {
         Self::default()
     }
 
-    fn insert(
-        &mut self,
-        prefix: Option<&'input str>,
-        uri: Option<&'input str>,
-    ) -> Option<(Option<&'input str>, Option<&'input str>)> {
-        let p = self.uri_to_prefix.insert(uri, prefix);
-        let u = self.prefix_to_uri.insert(prefix, uri);
-        Some((p?, u?))
+    fn insert(&mut self, prefix: Option<&'input str>, uri: &'input str) {
+        self.bindings.push((prefix, uri));
     }
 
+    /// Finds a prefix which is bound to the uri and isn't shadowed
     fn get_by_uri(&self, uri: Option<&'input str>) -> Option<&'input str> {
-        self.uri_to_prefix.get(&uri).copied().flatten()
+        let uri = uri?;
+        self.bindings
+            .iter()
+            .rev()
+            .find(|(prefix, u)| {
+                *u == uri && prefix.is_some() && self.get_by_prefix(*prefix) == Some(uri)
+            })
+            .and_then(|(prefix, _)| *prefix)
     }
 
-    fn get_by_prefix(&self, prefix: Option<&'input str>) -> Option<&'input str> {
-        self.prefix_to_uri.get(&prefix).copied().flatten()
+    fn get_by_prefix(&self, prefix: Option<&str>) -> Option<&'input str> {
+        self.bindings
+            .iter()
+            .rev()
+            .find(|(p, _)| *p == prefix)
+            .map(|(_, uri)| *uri)
     }
 }
 
@@ -84,7 +89,7 @@ where
     let mut allocator = Allocator::new(arena, values);
 
     let mut namespace_map = NamespaceMap::new();
-    namespace_map.insert(Some("xml"), Some("http://www.w3.org/XML/1998/namespace"));
+    namespace_map.insert(Some("xml"), "http://www.w3.org/XML/1998/namespace");
 
     let document = allocator.alloc(NodeData::Document);
     let document = parse_xml_node_children(
@@ -200,13 +205,14 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         return Err(ParseError::NodesLimitReached);
     }
 
-    let mut popped_ns: Vec<(Option<&'a str>, Option<&'a str>)> = vec![];
+    let scope = namespace_map.bindings.len();
     let child = match node.node_type() {
         roxmltree::NodeType::Root => create_root(allocator),
         roxmltree::NodeType::PI => parse_pi(allocator, node.pi().unwrap()),
         roxmltree::NodeType::Element => {
-            let (child, style) = parse_element(allocator, node, namespace_map, &mut popped_ns);
+            let (child, style) = parse_element(allocator, node, namespace_map);
             if style.is_some() {
+                namespace_map.bindings.truncate(scope);
                 return Ok(child);
             }
             child
@@ -215,9 +221,7 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         roxmltree::NodeType::Text => parse_text(allocator, node),
     };
     parse_xml_node_children(child, allocator, node, depth + 1, namespace_map)?;
-    for (prefix, value) in popped_ns {
-        namespace_map.insert(prefix, value);
-    }
+    namespace_map.bindings.truncate(scope);
     Ok(child)
 }
 
@@ -225,10 +229,7 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     arena: &mut Allocator<'a, 'arena>,
     xml_node: roxmltree::Node<'a, 'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
 ) -> (Ref<'a, 'arena>, Option<Ref<'a, 'arena>>) {
-    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
-
     let xml_node_namespaces = xml_node.namespaces();
     let xml_node_attributes = xml_node.attributes();
     #[cfg(feature = "range")]
@@ -236,7 +237,8 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     #[cfg(feature = "range")]
     let range = xml_node.range();
     let mut attrs = Vec::with_capacity(xml_node_attributes.len() + xml_node_namespaces.len());
-    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map, popped_ns)));
+    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map)));
+    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
     attrs.extend(xml_node_attributes.map(|attr| {
         #[cfg(feature = "range")]
         let range = crate::node::Ranges {
@@ -349,7 +351,12 @@ fn parse_expanded_name<'a, 'input: 'a>(
     namespace_map: &NamespaceMap<'input>,
 ) -> ElementId<'a> {
     let ns = name.namespace();
-    let prefix = namespace_map.get_by_uri(ns);
+    let prefix = if ns.unwrap_or_default() == namespace_map.get_by_prefix(None).unwrap_or_default()
+    {
+        None
+    } else {
+        namespace_map.get_by_uri(ns)
+    };
     let ns = ns.map_or_else(
         || namespace_map.get_by_prefix(None).unwrap_or_default().into(),
         Into::into,
@@ -364,18 +371,13 @@ fn parse_expanded_name<'a, 'input: 'a>(
 fn find_new_xmlns<'a, 'input: 'a>(
     ns: &'a roxmltree::Namespace<'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
 ) -> Option<Attr<'a>> {
     if find_xml_uri(ns, namespace_map) {
         return None;
     }
     let uri = ns.uri();
+    namespace_map.insert(ns.name(), uri);
     if let Some(prefix) = ns.name() {
-        if namespace_map.get_by_prefix(None) != Some(uri)
-            && let Some(popped) = namespace_map.insert(Some(prefix), Some(uri))
-        {
-            popped_ns.push(popped);
-        }
         // return `xmlns:ns="uri"`
         Some(Attr::Unparsed {
             attr_id: AttrId::Unknown(QualName {
@@ -384,24 +386,14 @@ fn find_new_xmlns<'a, 'input: 'a>(
             }),
             value: uri.into(),
         })
-    } else if !ns.uri().is_empty() {
-        if let Some(popped) = namespace_map.insert(None, Some(uri)) {
-            popped_ns.push(popped);
-        }
+    } else {
         // return `xmlns="uri"`
         Some(Attr::XMLNS(uri.into()))
-    } else {
-        // no new xmlns
-        None
     }
 }
 
-fn find_xml_uri(ns: &roxmltree::Namespace, namespace_map: &mut NamespaceMap) -> bool {
-    if let Some(el) = namespace_map.get_by_prefix(ns.name()) {
-        el == ns.uri()
-    } else {
-        false
-    }
+fn find_xml_uri(ns: &roxmltree::Namespace, namespace_map: &NamespaceMap) -> bool {
+    namespace_map.get_by_prefix(ns.name()).unwrap_or_default() == ns.uri()
 }
 
 impl Display for ParseError {
-- 
2.43.0


From e9443150419bf4893302159b204a27e69464c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:22 +0000
Subject: [PATCH 19/50] fix: write processing instructions anywhere in the
 document

---
 crates/oxvg_ast/src/xmlwriter.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index d673cc1..167f8f2 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -478,18 +478,21 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         }
     }
 
-    /// Writes an XML declaration.
+    /// Writes an XML declaration or another processing instruction.
     ///
     /// `<?xml version="1.0" encoding="UTF-8" standalone="no"?>`
     ///
     /// # Errors
     ///
-    /// - When called twice.
+    /// - When an XML declaration isn't the start of the document.
     #[inline(never)]
     pub fn write_declaration(&mut self, target: &Atom, value: &Option<Atom>) -> Result {
-        if self.state != State::Empty {
+        if self.state != State::Empty && target.eq_ignore_ascii_case("xml") {
             return Err(XmlWriterError::DeclarationAlreadyWritten);
         }
+        if self.state == State::Attributes {
+            self.write_open_element()?;
+        }
         self.fmt_writer
             .writer
             .write_fmt(format_args!("<?{target}"))
-- 
2.43.0


From 93da601f96f121052eab314ffb33783df8dece0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:28 +0000
Subject: [PATCH 20/50] fix: escape line breaks and tabs in attribute values

---
 crates/oxvg_ast/src/xmlwriter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 167f8f2..8639c48 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -392,6 +392,10 @@ impl<W: Write> FmtWriter<W> {
                 b'<' => Some(b"&lt;"),
                 b'"' if escape_quotes && !self.use_single_quote => Some(b"&quot;"),
                 b'\'' if escape_quotes && self.use_single_quote => Some(b"&apos;"),
+                // would be normalised to other whitespace when read
+                b'\r' => Some(b"&#13;"),
+                b'\n' if escape_quotes => Some(b"&#10;"),
+                b'\t' if escape_quotes => Some(b"&#9;"),
                 _ => None,
             };
             if let Some(escaped_char) = escaped_char {
-- 
2.43.0


From a977deeea7608fa34b675466b13ca80492a02fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:42 +0000
Subject: [PATCH 21/50] fix: end xml:space with its element when serialising

---
 crates/oxvg_ast/src/xmlwriter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 8639c48..eb78b62 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -348,6 +348,8 @@ enum State {
 struct DepthData<'input> {
     element_name: Option<ElementId<'input>>,
     has_children: bool,
+    /// Whether whitespace was preserved before the element
+    preserve_whitespaces: bool,
 }
 
 /// This wrapper writer is so that we can make sure formatted strings are properly escaped too,
@@ -560,6 +562,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -601,6 +604,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         self.depth_stack.push(DepthData {
             element_name: Some(name.clone()),
             has_children: false,
+            preserve_whitespaces: self.preserve_whitespaces,
         });
 
         self.state = State::Attributes;
@@ -960,6 +964,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -1021,6 +1026,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
                     .write_all(b"/>")
                     .map_err(XmlWriterError::IO)?;
             }
+            self.preserve_whitespaces = depth.preserve_whitespaces;
         }
 
         self.state = State::Document;
-- 
2.43.0


From c59749da881e93d9e605d96d2c2776d6c41243f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:03 +0000
Subject: [PATCH 22/50] fix: escape & in style sheets and keep sheets that
 aren't understood

---
 crates/oxvg_ast/src/parse/roxmltree.rs |  3 ++-
 crates/oxvg_ast/src/xmlwriter.rs       | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index c85c54a..946aeb4 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -291,7 +291,8 @@ fn parse_style<'a, 'input: 'a, 'arena>(
             ..ParserOptions::default()
         };
         let style = StyleSheet::parse(style, options);
-        let Ok(style) = style else { continue };
+        // keep the text when any of it isn't understood
+        let style = style.ok()?;
         rules.0.extend(style.rules.0);
     }
     if rules.0.is_empty() {
diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index eb78b62..72bc5c6 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -417,6 +417,14 @@ impl<W: Write> FmtWriter<W> {
     }
 }
 
+impl<W: Write> FmtWriter<W> {
+    /// Escapes `&` and the end of CDATA sections, but keeps combinators and ranges readable
+    fn write_escaped_style(&mut self, s: &str) -> io::Result<()> {
+        let s = s.replace('&', "&amp;").replace("]]>", "]]&gt;");
+        self.writer.write_all(s.as_bytes())
+    }
+}
+
 #[derive(Clone, Copy, PartialEq, Debug)]
 enum Escape {
     Comment,
@@ -436,7 +444,8 @@ impl<W: Write> fmt::Write for FmtWriter<W> {
             Escape::Text => self.write_escaped(s, false),
             // We don't bother escaping double hyphen (--) in comment as it's
             // unlikely to ever happen, and even libxml2 does not do it.
-            Escape::Comment | Escape::CData | Escape::Style => self.writer.write_all(s.as_bytes()),
+            Escape::Comment | Escape::CData => self.writer.write_all(s.as_bytes()),
+            Escape::Style => self.write_escaped_style(s),
         };
         if let Err(error) = error.as_ref() {
             self.error_kind = Some(error.kind());
-- 
2.43.0


From 03f76556a840870d40d043e5811d964acec408dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:31 +0000
Subject: [PATCH 23/50] fix: separate attribute values only at XML whitespace

---
 crates/oxvg_collections/src/attribute/core_attrs.rs | 2 +-
 crates/oxvg_collections/src/attribute/list_of.rs    | 4 ++--
 crates/oxvg_parse/src/lib.rs                        | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/core_attrs.rs b/crates/oxvg_collections/src/attribute/core_attrs.rs
index 718df08..ad20755 100644
--- a/crates/oxvg_collections/src/attribute/core_attrs.rs
+++ b/crates/oxvg_collections/src/attribute/core_attrs.rs
@@ -43,7 +43,7 @@ pub struct NonWhitespace<'i>(pub Anything<'i>);
 impl<'input> Parse<'input> for NonWhitespace<'input> {
     fn parse<'t>(input: &mut Parser<'input>) -> Result<Self, Error<'input>> {
         input.skip_whitespace();
-        let slice = input.take_matches(|char| !char.is_whitespace());
+        let slice = input.take_matches(|char| !char.is_ascii_whitespace());
         if slice.is_empty() {
             Err(Error::ExpectedMatch {
                 expected: "non-whitespace character",
diff --git a/crates/oxvg_collections/src/attribute/list_of.rs b/crates/oxvg_collections/src/attribute/list_of.rs
index 2db1aeb..8048bd9 100644
--- a/crates/oxvg_collections/src/attribute/list_of.rs
+++ b/crates/oxvg_collections/src/attribute/list_of.rs
@@ -70,7 +70,7 @@ impl Separator for Space {
         Self
     }
     fn matches(char: char) -> bool {
-        char.is_whitespace()
+        char.is_ascii_whitespace()
     }
 }
 #[cfg(feature = "serialize")]
@@ -126,7 +126,7 @@ impl Separator for SpaceOrComma {
         Ok(())
     }
     fn matches<'input>(char: char) -> bool {
-        char.is_whitespace() || char == ','
+        char.is_ascii_whitespace() || char == ','
     }
 }
 #[cfg(feature = "serialize")]
diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index c11b68c..13b196c 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -126,7 +126,7 @@ impl<'input> Parser<'input> {
 
     /// Moves the cursor forward the number of whitespace characters
     pub fn skip_whitespace(&mut self) {
-        self.skip_matches(char::is_whitespace);
+        self.skip_matches(|char: char| char.is_ascii_whitespace());
     }
 
     fn skip_internal(&mut self, trim: usize) {
@@ -203,7 +203,7 @@ impl<'input> Parser<'input> {
     ///
     /// If none of the next characters are whitespace
     pub fn expect_whitespace(&mut self) -> Result<(), Error<'input>> {
-        self.expect_matches("a whitespace character", |char| Ok(char.is_whitespace()))?;
+        self.expect_matches("a whitespace character", |char| Ok(char.is_ascii_whitespace()))?;
         Ok(())
     }
 
-- 
2.43.0


From 733db30facc28ec4910fdf0dc309042c9a9e9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:17 +0000
Subject: [PATCH 24/50] fix: keep the spaces shown between spans of text

---
 crates/oxvg_ast/src/serialize.rs | 32 ++++++++++++++++---------------
 crates/oxvg_ast/src/xmlwriter.rs | 33 +++++++++++++++++++++++++-------
 2 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/crates/oxvg_ast/src/serialize.rs b/crates/oxvg_ast/src/serialize.rs
index 31a9acc..ffaa0c2 100644
--- a/crates/oxvg_ast/src/serialize.rs
+++ b/crates/oxvg_ast/src/serialize.rs
@@ -78,17 +78,28 @@ impl<'input, 'arena> Node<'input, 'arena> for crate::node::Node<'input, 'arena>
     ) -> Result<W, XmlWriterError> {
         let mut xml = XmlWriter::new(wr, options);
 
-        serialize_node(self, &mut xml, true, true)?;
+        serialize_node(self, &mut xml)?;
 
         xml.end_document()
     }
 }
 
+/// Returns whether there's nothing before/after a text node in the same run of text
+fn is_at_edge<'input, 'arena>(
+    node: crate::node::Ref<'input, 'arena>,
+    sibling: fn(&crate::node::Node<'input, 'arena>) -> Option<crate::node::Ref<'input, 'arena>>,
+) -> bool {
+    use crate::is_element;
+    sibling(node).is_none()
+        && node.parent_node().is_none_or(|parent| {
+            !is_element!(parent, A | AltGlyph | TextPath | TRef | TSpan)
+                || is_at_edge(&parent, sibling)
+        })
+}
+
 fn serialize_node<'arena, W: Write>(
     node: crate::node::Ref<'_, 'arena>,
     xml: &mut XmlWriter<'arena, W>,
-    is_first: bool,
-    is_last: bool,
 ) -> Result<(), XmlWriterError> {
     use crate::{is_element, node};
     match node.node_type() {
@@ -103,6 +114,8 @@ fn serialize_node<'arena, W: Write>(
             if let Some(text) = node.text_content()
                 && !text.is_empty()
             {
+                let is_first = is_at_edge(node, crate::node::Node::previous_sibling);
+                let is_last = is_at_edge(node, crate::node::Node::next_sibling);
                 xml.write_text(&text, is_first, is_last)?;
             }
         }
@@ -120,18 +133,7 @@ fn serialize_node<'arena, W: Write>(
     }
 
     for child in node.child_nodes_iter() {
-        serialize_node(
-            child,
-            xml,
-            node.first_child().is_none_or(|n| n == child)
-                || child
-                    .previous_sibling()
-                    .is_some_and(|n| n.node_type() == node::Type::Text),
-            node.last_child().is_none_or(|n| n == child)
-                || child
-                    .next_sibling()
-                    .is_some_and(|n| n.node_type() == node::Type::Text),
-        )?;
+        serialize_node(child, xml)?;
     }
 
     if is_element!(node) {
diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 72bc5c6..aa5f0aa 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -828,16 +828,27 @@ impl<'input, W: Write> XmlWriter<'input, W> {
 
         match space {
             Space::Default => {
-                if text.trim_start().is_empty() {
+                let inline = self.opt.indent == Indent::None;
+                let mut parts = text
+                    .split(|char: char| char.is_ascii_whitespace())
+                    .filter(|part| !part.is_empty())
+                    .peekable();
+                if parts.peek().is_none() {
+                    // Spaces between spans are shown
+                    if inline && !is_first && !is_last && self.is_text_element() {
+                        self.before_write_text(false)?;
+                        self.fmt_writer
+                            .write_char(' ')
+                            .map_err(|_| self.fmt_writer.take_err())?;
+                        self.state = State::Document;
+                    }
                     return Ok(());
                 }
                 self.before_write_text(false)?;
-                let mut parts = text.split_whitespace();
                 if let Some(first) = parts.next() {
-                    let mut chars = text.chars();
                     if !is_first
-                        && self.opt.indent == Indent::None
-                        && chars.next().is_some_and(char::is_whitespace)
+                        && inline
+                        && text.starts_with(|char: char| char.is_ascii_whitespace())
                     {
                         self.fmt_writer
                             .write_char(' ')
@@ -857,8 +868,8 @@ impl<'input, W: Write> XmlWriter<'input, W> {
                     }
 
                     if !is_last
-                        && self.opt.indent == Indent::None
-                        && text.chars().next_back().is_some_and(char::is_whitespace)
+                        && inline
+                        && text.ends_with(|char: char| char.is_ascii_whitespace())
                     {
                         self.fmt_writer
                             .write_char(' ')
@@ -1149,6 +1160,14 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         Ok(())
     }
 
+    fn is_text_element(&self) -> bool {
+        self.depth_stack.iter().any(|data| {
+            data.element_name
+                .as_ref()
+                .is_some_and(|name| is_element!(name, Text))
+        })
+    }
+
     fn is_text_content_element(&self) -> bool {
         self.depth_stack.iter().rev().any(is_text_content_element)
     }
-- 
2.43.0


From b039ca19847c5dd0c8fbfe71c68944d809f79feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:01 +0000
Subject: [PATCH 25/50] fix: keep spans and links of spaces in text

---
 crates/oxvg_optimiser/src/jobs/remove_empty_containers.rs | 8 ++++++++
 crates/oxvg_optimiser/src/jobs/remove_empty_text.rs       | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_empty_containers.rs b/crates/oxvg_optimiser/src/jobs/remove_empty_containers.rs
index f0e4c99..e354090 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_empty_containers.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_empty_containers.rs
@@ -61,6 +61,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveEmptyContainers {
         }
         if is_element!(element, Svg) {
             return Ok(());
+        } else if is_element!(element, A)
+            && element.first_child().is_some()
+            && element
+                .parent_element()
+                .is_some_and(|e| is_element!(e, A | AltGlyph | Text | TextPath | TSpan))
+        {
+            // spaces in a link are shown between the surrounding text
+            return Ok(());
         } else if is_element!(element, Pattern) {
             if !element.attributes().is_empty() {
                 return Ok(());
diff --git a/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs b/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs
index 7487851..0f6db68 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs
@@ -54,7 +54,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveEmptyText {
             element.remove();
         }
 
-        if self.tspan.unwrap_or(true) && is_element!(element, TSpan) && element.is_empty() {
+        // spaces in a tspan are shown between the surrounding text
+        if self.tspan.unwrap_or(true)
+            && is_element!(element, TSpan)
+            && element.first_child().is_none()
+        {
             element.remove();
         }
 
-- 
2.43.0


From bf324491ad754fac70a4dabe7c9f2b2c952e2328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:17 +0000
Subject: [PATCH 26/50] fix: keep curves that turn back along their line

---
 crates/oxvg_path/src/geometry/curve.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/geometry/curve.rs b/crates/oxvg_path/src/geometry/curve.rs
index 27561e8..e9b76c7 100644
--- a/crates/oxvg_path/src/geometry/curve.rs
+++ b/crates/oxvg_path/src/geometry/curve.rs
@@ -289,11 +289,19 @@ impl Curve {
     pub fn is_straight(&self, start: Point, tolerance: &Tolerance) -> bool {
         let chord = start.distance(self.end_point);
         if chord < tolerance.positional {
-            return true;
+            return start.distance(self.start_control) < tolerance.positional
+                && start.distance(self.end_control) < tolerance.positional;
         }
         let tolerance_scaled = tolerance.positional * chord;
+        // A control point past either end makes the curve turn back along the line
+        let is_within = |control: Point| {
+            let along = (control - start).dot(self.end_point - start);
+            along > -tolerance_scaled && along < chord * chord + tolerance_scaled
+        };
         start.cross(self.end_point, self.start_control).abs() < tolerance_scaled
             && start.cross(self.end_point, self.end_control).abs() < tolerance_scaled
+            && is_within(self.start_control)
+            && is_within(self.end_control)
     }
 
     /// Returns various bezier forms of the curve.
-- 
2.43.0


From 1c6134eee3c1539ba545c2aa3a214d577373f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:18 +0000
Subject: [PATCH 27/50] fix: reflect only control points of the same kind in
 smooth curves

---
 crates/oxvg_path/src/paths/segment/convert.rs | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index d7812ee..37a55ec 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -10,13 +10,20 @@ use crate::{
     paths::segment::{Data, IterStartCursorItem, Path, Segment},
 };
 
+/// The control point a following smooth command reflects, when it's of the same kind
+#[derive(Clone, Copy)]
+pub(crate) enum Control {
+    Cubic(Point),
+    Quadratic(Point),
+}
+
 impl Data {
     #[allow(clippy::too_many_lines)]
     pub(crate) fn take(
         command: &command::Data,
         start: &mut Point,
         cursor: &mut Point,
-        control: &mut Option<Point>,
+        control: &mut Option<Control>,
         z_end: &mut bool,
     ) -> Option<Self> {
         let last_control = control.take();
@@ -60,7 +67,7 @@ impl Data {
                 let end_control = *cursor + Point::new(a[2], a[3]);
                 let end_point = *cursor + Point::new(a[4], a[5]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end_point;
                 Some(Self::CurveTo(Curve::new(
                     start_control,
@@ -72,14 +79,14 @@ impl Data {
                 let end_control = Point::new(a[2], a[3]);
                 let end_point = Point::new(a[4], a[5]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end_point;
                 Some(Data::CurveTo(Curve::from(*a)))
             }
             command::Data::QuadraticBezierBy(a) => {
                 let quad_control = *cursor + Point::new(a[0], a[1]);
                 let end = *cursor + Point::new(a[2], a[3]);
-                *control = Some(quad_control);
+                *control = Some(Control::Quadratic(quad_control));
 
                 let start = *cursor;
                 *cursor = end;
@@ -88,14 +95,14 @@ impl Data {
             command::Data::QuadraticBezierTo(a) => {
                 let quad_control = Point::new(a[0], a[1]);
                 let end = Point::new(a[2], a[3]);
-                *control = Some(quad_control);
+                *control = Some(Control::Quadratic(quad_control));
 
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(quad_control, start, end)))
             }
             command::Data::SmoothBezierBy(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Cubic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
@@ -103,12 +110,12 @@ impl Data {
                 let end_control = *cursor + Point::new(a[0], a[1]);
                 let end = *cursor + Point::new(a[2], a[3]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new(start_control, end_control, end)))
             }
             command::Data::SmoothBezierTo(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Cubic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
@@ -116,32 +123,32 @@ impl Data {
                 let end_control = Point::new(a[0], a[1]);
                 let end = Point::new(a[2], a[3]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new(start_control, end_control, end)))
             }
             command::Data::SmoothQuadraticBezierBy(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Quadratic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
                 };
                 let end = *cursor + Point::from(*a);
 
-                *control = Some(start_control);
+                *control = Some(Control::Quadratic(start_control));
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(start_control, start, end)))
             }
             command::Data::SmoothQuadraticBezierTo(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Quadratic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
                 };
                 let end = Point::from(*a);
 
-                *control = Some(start_control);
+                *control = Some(Control::Quadratic(start_control));
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(start_control, start, end)))
-- 
2.43.0


From 28f226b87655e76df9ff46f1592724dd476fcce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:39 +0000
Subject: [PATCH 28/50] fix: keep closed points and trailing moves of paths

---
 crates/oxvg_path/src/paths/segment/convert.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index 37a55ec..1b40d15 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -202,6 +202,10 @@ impl Segment {
                 break;
             }
         }
+        if z_end && result.data.is_empty() {
+            // The closing line has no length, but caps can still be drawn on it
+            result.data.push(Data::LineTo(result.start));
+        }
         if result.data.is_empty() {
             return result;
         }
@@ -233,7 +237,12 @@ impl Path {
             let component = Segment::take(&mut iterator, &mut start, &mut cursor, tolerance);
             result.0.push(component);
         }
-        if result.0.is_empty() {
+        if result.0.is_empty()
+            || matches!(
+                value.0.last().map(command::Data::as_explicit),
+                Some(command::Data::MoveTo(_) | command::Data::MoveBy(_))
+            )
+        {
             result.0.push(Segment {
                 start,
                 data: vec![],
-- 
2.43.0


From 8ef9f0d54577a99b21a7c925df4dc97edeaa23be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:36 +0000
Subject: [PATCH 29/50] fix: write smooth curves only after curves of the same
 kind

---
 crates/oxvg_path/src/paths/segment/convert.rs | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index 1b40d15..b27f9ba 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -376,14 +376,14 @@ impl Path {
     #[allow(clippy::too_many_arguments)]
     pub(crate) fn to_svg_curve(
         previous: Option<&command::Data>,
-        control: Option<Point>,
+        control: Option<Control>,
         start: Point,
         curve: &Curve,
         next: Option<&Data>,
         implicit: Option<&ID>,
         tolerance_squared: ToleranceSquared,
         precision: TolerancePrecision,
-    ) -> (command::Data, Option<Point>) {
+    ) -> (command::Data, Option<Control>) {
         let start_control = curve.start_control;
         let end_control = curve.end_control;
         let to = curve.end_point;
@@ -391,8 +391,14 @@ impl Path {
 
         let mut candidates = Vec::with_capacity(4);
 
-        let (_, smooth_bezier, quadratic_bezier, smooth_quadratic_bezier) =
-            curve.types(start, control, tolerance_squared);
+        let (cubic_control, quad_control) = match control {
+            Some(Control::Cubic(control)) => (Some(control), None),
+            Some(Control::Quadratic(control)) => (None, Some(control)),
+            None => (None, None),
+        };
+        let smooth_bezier = curve.smooth_bezier(start, cubic_control, tolerance_squared);
+        let (_, _, quadratic_bezier, smooth_quadratic_bezier) =
+            curve.types(start, quad_control, tolerance_squared);
         if let Some(SmoothBezierTo {
             end_control,
             end_point: _,
@@ -474,13 +480,13 @@ impl Path {
         let result = compactest_vec(previous, candidates, implicit, precision);
         let control = match result.id().as_explicit() {
             ID::QuadraticBezierTo | ID::QuadraticBezierBy => {
-                quadratic_bezier.map(|q| q.quad_control)
+                quadratic_bezier.map(|q| Control::Quadratic(q.quad_control))
             }
             ID::SmoothQuadraticBezierTo | ID::SmoothQuadraticBezierBy => {
-                control.map(|c| c.reflect(start))
+                quad_control.map(|c| Control::Quadratic(c.reflect(start)))
             }
             ID::CubicBezierTo | ID::CubicBezierBy | ID::SmoothBezierBy | ID::SmoothBezierTo => {
-                Some(quadratic_bezier.map_or(end_control, |q| q.quad_control))
+                Some(Control::Cubic(end_control))
             }
             _ => None,
         };
-- 
2.43.0


From 438191f76e72f16132aaaa1faa306e2b42a15b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:20 +0000
Subject: [PATCH 30/50] fix: don't close subpaths that end where the next one
 starts

---
 crates/oxvg_path/src/paths/segment/convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index b27f9ba..518219d 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -194,11 +194,13 @@ impl Segment {
             closed: false,
         };
         let mut z_end = false;
+        let mut move_end = false;
         let mut control = None;
         for command in iterator {
             if let Some(data) = Data::take(command, start, cursor, &mut control, &mut z_end) {
                 result.data.push(data);
             } else {
+                move_end = !z_end;
                 break;
             }
         }
@@ -206,7 +208,7 @@ impl Segment {
             // The closing line has no length, but caps can still be drawn on it
             result.data.push(Data::LineTo(result.start));
         }
-        if result.data.is_empty() {
+        if result.data.is_empty() || move_end {
             return result;
         }
         if z_end {
-- 
2.43.0


From 54a3155ad446e5a0e5b8aa70502a50eb84eef960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:09 +0000
Subject: [PATCH 31/50] fix: write Z only where a segment is closed

---
 crates/oxvg_path/src/paths/segment/convert.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index 518219d..c20e8ae 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -288,9 +288,13 @@ impl Path {
             let implicit = previous.map(|d| d.id().next_implicit());
 
             let mut command = match data {
+                // NOTE: Anywhere else `Z` would end the segment early
+                Data::LineTo(to) if start == *to && is_start && next.is_none() => {
+                    command::Data::ClosePath
+                }
                 Data::LineTo(to) => Self::to_svg_line(
                     previous,
-                    segment_start,
+                    close.then_some(segment_start),
                     start,
                     *to,
                     implicit.as_ref(),
@@ -349,16 +353,14 @@ impl Path {
 
     fn to_svg_line(
         previous: Option<&command::Data>,
-        segment_start: Point,
+        closing: Option<Point>,
         start: Point,
         to: Point,
         implicit: Option<&ID>,
         precision: TolerancePrecision,
     ) -> command::Data {
         let by = to - start;
-        if start == to {
-            command::Data::ClosePath
-        } else if precision.round(to.x) == precision.round(start.x) {
+        if precision.round(to.x) == precision.round(start.x) {
             let v_to = command::Data::VerticalLineTo([to.y]);
             let v_by = command::Data::VerticalLineBy([by.y]);
             compactest(previous, v_by, v_to, implicit, precision)
@@ -366,7 +368,7 @@ impl Path {
             let h_to = command::Data::HorizontalLineTo([to.x]);
             let h_by = command::Data::HorizontalLineBy([by.x]);
             compactest(previous, h_by, h_to, implicit, precision)
-        } else if to == segment_start {
+        } else if closing == Some(to) {
             command::Data::ClosePath
         } else {
             let l_to = command::Data::LineTo(to.into());
-- 
2.43.0


From 3690c4d810e95d8d945d3adfe3cc3ab3af116e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:30 +0000
Subject: [PATCH 32/50] fix: don't close stroked paths, and mind line caps that
 may apply

---
 crates/oxvg_optimiser/src/utils/style_info.rs | 12 ++----------
 crates/oxvg_path/src/optimize.rs              |  3 ---
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/crates/oxvg_optimiser/src/utils/style_info.rs b/crates/oxvg_optimiser/src/utils/style_info.rs
index a5ae1e1..1fa172a 100644
--- a/crates/oxvg_optimiser/src/utils/style_info.rs
+++ b/crates/oxvg_optimiser/src/utils/style_info.rs
@@ -6,7 +6,7 @@ use oxvg_collections::attribute::inheritable::Inheritable;
 use oxvg_path::optimize;
 
 use lightningcss::{
-    properties::svg::{Marker, SVGPaint, StrokeLinecap, StrokeLinejoin},
+    properties::svg::{Marker, SVGPaint, StrokeLinecap},
     values::shape,
 };
 
@@ -18,7 +18,6 @@ pub fn gather_optimize_options(
 
     let stroke = get_computed_style!(computed_styles, Stroke);
     let linecap = get_computed_style!(computed_styles, StrokeLinecap);
-    let linejoin = get_computed_style!(computed_styles, StrokeLinejoin);
     let maybe_has_stroke = stroke.entry().is_some_and(|stroke| {
         stroke.is_none_or(|(stroke, mode)| {
             mode == Mode::Dynamic || !matches!(stroke.option(), Some(SVGPaint::None))
@@ -26,15 +25,9 @@ pub fn gather_optimize_options(
     });
     let maybe_has_linecap = linecap.as_ref().entry().is_some_and(|linecap| {
         linecap.is_none_or(|(linecap, mode)| {
-            mode == Mode::Static && !matches!(linecap, Inheritable::Defined(StrokeLinecap::Butt))
+            mode == Mode::Dynamic || !matches!(linecap, Inheritable::Defined(StrokeLinecap::Butt))
         })
     });
-    let safe_to_close = !maybe_has_stroke
-        || (linecap.option().is_some_and(|(linecap, mode)| {
-            mode == Mode::Static && matches!(linecap, Inheritable::Defined(StrokeLinecap::Round))
-        }) && linejoin.option().is_some_and(|(linejoin, mode)| {
-            mode == Mode::Static && matches!(linejoin, Inheritable::Defined(StrokeLinejoin::Round))
-        }));
 
     let fill_rule = get_computed_style!(computed_styles, FillRule);
     let overlay_fill_rule = fill_rule
@@ -118,7 +111,6 @@ pub fn gather_optimize_options(
     // PERF: Branchless
     options &= !optimize::Options::UnsafeStroke
         | optimize::Options::from_bits_retain((!maybe_has_stroke as u16) * u16::MAX);
-    options.set(optimize::Options::CloseSegments, safe_to_close);
     options &= !optimize::Options::UnsafeStrokeLinecap
         | optimize::Options::from_bits_retain(
             (!(maybe_has_stroke && maybe_has_linecap) as u16) * u16::MAX,
diff --git a/crates/oxvg_path/src/optimize.rs b/crates/oxvg_path/src/optimize.rs
index acd3efd..f313797 100644
--- a/crates/oxvg_path/src/optimize.rs
+++ b/crates/oxvg_path/src/optimize.rs
@@ -15,9 +15,6 @@ bitflags! {
         /// - `fill-rule: "evenodd"`: Safe
         /// - `fill-rule: "nonezero"`: Safe
         /// - `stroke`: Unsafe
-        /// - `stroke`
-        ///      + `stroke-linecap: "round"/"square"`
-        ///      + `stroke-linejoin: "round"`: Safe
         /// - `marker-start`: Safe
         /// - `marker-mid`: Unsafe
         /// - `marker-end`: Unsafe
-- 
2.43.0


From 4e0e5e2cd1eb4cc875847573fe075838f8f0dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:31 +0000
Subject: [PATCH 33/50] fix: remove links whose javascript scheme is written in
 capitals

---
 crates/oxvg_optimiser/src/jobs/remove_scripts.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
index 7f16c73..4ff5975 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
@@ -83,7 +83,9 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveScripts {
             let (Attr::Href(href) | Attr::XLinkHref(href)) = attr.unaliased() else {
                 return false;
             };
-            href.trim_start().starts_with("javascript:")
+            href.trim_start()
+                .get(..11)
+                .is_some_and(|scheme| scheme.eq_ignore_ascii_case("javascript:"))
         });
         if !is_href_js {
             return Ok(());
-- 
2.43.0


From 61796182b4547a7d2d2b59815c2989a028c18d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:31 +0000
Subject: [PATCH 34/50] fix: remove raster images referred to by href

---
 crates/oxvg_optimiser/src/jobs/remove_raster_images.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
index e4ab2b1..539fae0 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
@@ -52,11 +52,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveRasterImages {
         if !is_element!(element, Image) {
             return Ok(());
         }
-        let Some(xlink_href) = get_attribute!(element, XLinkHref) else {
-            return Ok(());
+        let is_raster = match get_attribute!(element, Href) {
+            Some(href) => is_raster_image(&href),
+            None => get_attribute!(element, XLinkHref).is_some_and(|href| is_raster_image(&href)),
         };
 
-        if is_raster_image(&xlink_href) {
+        if is_raster {
             element.remove();
         }
         Ok(())
-- 
2.43.0


From 297a7e8f1916b47e1f48312f4d0ac5bc8cc73c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:31 +0000
Subject: [PATCH 35/50] fix: add classes to roots with and without a class
 attribute

---
 .../src/jobs/add_classes_to_s_v_g_element.rs  | 50 ++++---------------
 1 file changed, 9 insertions(+), 41 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
index 4b603e0..02dc3c2 100644
--- a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
+++ b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
@@ -1,17 +1,8 @@
-use std::collections::HashSet;
-
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut, is_element,
+    is_element,
     visitor::{Context, Visitor},
 };
-use oxvg_collections::{
-    atom::Atom,
-    attribute::{
-        core_attrs::NonWhitespace,
-        list_of::{ListOf, Space},
-    },
-};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
@@ -94,38 +85,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for AddClassesToSVGElement {
             return Ok(());
         }
 
-        let Some(mut class) = get_attribute_mut!(element, Class) else {
-            return Ok(());
+        let mut class_list = element.class_list();
+        let mut add = |name: &str| {
+            let name = &*context.info.allocator.alloc_str(name);
+            class_list.add(name.into());
         };
-
-        match &self.class_names {
-            Some(names) => {
-                let mut set = HashSet::new();
-                for item in class.list.drain(..) {
-                    set.insert(item);
-                }
-                set.extend(
-                    names
-                        .iter()
-                        .map(|name| &*context.info.allocator.alloc_str(name))
-                        .map(Into::into),
-                );
-                class.list = set.into_iter().collect();
-            }
-            None => match &self.class_name {
-                Some(name) => {
-                    *class = ListOf {
-                        list: name
-                            .split_whitespace()
-                            .map(Atom::from)
-                            .map(Atom::into_owned)
-                            .map(NonWhitespace)
-                            .collect(),
-                        separator: Space,
-                    }
-                }
-                None => return Ok(()),
-            },
+        match (&self.class_names, &self.class_name) {
+            (Some(names), _) => names.iter().for_each(|name| add(name)),
+            (None, Some(name)) => name.split_whitespace().for_each(add),
+            (None, None) => {}
         }
         Ok(())
     }
-- 
2.43.0


From 90d183460e5707835e2dfd7c54ab97389ec74c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:54 +0000
Subject: [PATCH 36/50] fix: keep unrelated attributes and used declarations
 when replacing xlink

---
 .../oxvg_optimiser/src/jobs/remove_xlink.rs   | 92 ++++---------------
 1 file changed, 19 insertions(+), 73 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
index ca9e1c4..ab4548b 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
@@ -1,12 +1,9 @@
-use std::cell::RefCell;
-
 use oxvg_ast::{
     element::Element,
     get_attribute, has_attribute, is_attribute, is_element, remove_attribute, set_attribute,
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::{
-    atom::Atom,
     attribute::{Attr, AttrId, uncategorised::Target, xlink::XLinkShow},
     element::{ElementId, ElementInfo},
     is_prefix,
@@ -44,12 +41,8 @@ pub struct RemoveXlink {
     pub include_legacy: bool,
 }
 
-struct State<'o, 'input> {
+struct State<'o> {
     options: &'o RemoveXlink,
-    xlink_prefix_stack: RefCell<Vec<Atom<'input>>>,
-    overridden_prefix_stack: RefCell<Vec<bool>>,
-    /// Tracks when `xlink:href` is used in legacy element
-    used_in_legacy_element_stack: RefCell<Vec<bool>>,
 }
 
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveXlink {
@@ -62,16 +55,13 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveXlink {
     ) -> Result<PrepareOutcome, Self::Error> {
         State {
             options: self,
-            xlink_prefix_stack: RefCell::new(vec![]),
-            overridden_prefix_stack: RefCell::new(vec![]),
-            used_in_legacy_element_stack: RefCell::new(vec![]),
         }
         .start_with_context(document, context)?;
         Ok(PrepareOutcome::skip)
     }
 }
 
-impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
+impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
     type Error = JobsError<'input>;
 
     fn element(
@@ -79,40 +69,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
         element: Element<'input, 'arena>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
-        let mut xlink_prefix_stack = self.xlink_prefix_stack.borrow_mut();
-        let mut overridden_prefix_stack = self.overridden_prefix_stack.borrow_mut();
-        let mut used_in_legacy_element_stack = self.used_in_legacy_element_stack.borrow_mut();
-        for attr in element.attributes() {
-            let Attr::Unparsed {
-                attr_id: AttrId::Unknown(QualName { prefix, local }),
-                value,
-            } = &*attr
-            else {
-                continue;
-            };
-            if !is_prefix!(prefix, XMLNS) {
-                continue;
-            }
-            if value == NS::XLink.uri() {
-                xlink_prefix_stack.push(local.clone());
-                overridden_prefix_stack.push(false);
-                used_in_legacy_element_stack.push(false);
-            } else if xlink_prefix_stack.last() == Some(local)
-                && let Some(last) = overridden_prefix_stack.last_mut()
-            {
-                *last = true;
-            }
-        }
         element.attributes().retain(|attr| {
             !is_attribute!(attr, XLinkActuate | XLinkArcrole | XLinkRole | XLinkType)
         });
         Self::handle_show(element);
         Self::handle_title(element, context);
-        Self::handle_href(
-            element,
-            &mut used_in_legacy_element_stack,
-            self.options.include_legacy,
-        );
+        Self::handle_href(element, self.options.include_legacy);
 
         Ok(())
     }
@@ -122,6 +84,16 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
         element: Element<'input, 'arena>,
         _context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
+        // Remaining `xlink` attributes still need the declaration
+        if std::iter::once(element)
+            .chain(element.breadth_first())
+            .any(|e| {
+                let attributes = e.attributes();
+                attributes.into_iter().any(|a| *a.prefix().ns() == NS::XLink)
+            })
+        {
+            return Ok(());
+        }
         element.attributes().retain(|attr| {
             let Attr::Unparsed {
                 attr_id: AttrId::Unknown(QualName { prefix, .. }),
@@ -130,34 +102,16 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
             else {
                 return true;
             };
-            if is_prefix!(prefix, XMLNS) && value == NS::XLink.uri() {
-                return false;
-            }
-
-            self.xlink_prefix_stack.borrow_mut().pop();
-            let overridden_prefixes = self
-                .overridden_prefix_stack
-                .borrow_mut()
-                .pop()
-                .unwrap_or(false);
-            let used_in_legacy_element = self
-                .used_in_legacy_element_stack
-                .borrow_mut()
-                .pop()
-                .unwrap_or(false);
-            if !self.options.include_legacy && !overridden_prefixes && !used_in_legacy_element {
-                return false;
-            }
-            true
+            !is_prefix!(prefix, XMLNS) || value != NS::XLink.uri()
         });
 
         Ok(())
     }
 }
 
-impl<'input> State<'_, 'input> {
+impl State<'_> {
     /// Replaces `xlink:show` with `target` when possible
-    fn handle_show(element: Element<'input, '_>) {
+    fn handle_show(element: Element) {
         if has_attribute!(element, Target) {
             remove_attribute!(element, XLinkShow);
             return;
@@ -179,7 +133,7 @@ impl<'input> State<'_, 'input> {
         }
     }
 
-    fn handle_title<'arena>(
+    fn handle_title<'input, 'arena>(
         element: Element<'input, 'arena>,
         context: &Context<'input, 'arena, '_>,
     ) {
@@ -201,19 +155,11 @@ impl<'input> State<'_, 'input> {
         element.insert(0, title_element.0);
     }
 
-    fn handle_href(
-        element: Element<'input, '_>,
-        used_in_legacy_element: &mut [bool],
-        include_legacy: bool,
-    ) {
-        let used_in_legacy_element = used_in_legacy_element.last_mut();
-        if has_attribute!(element, Href) {
+    fn handle_href(element: Element, include_legacy: bool) {
+        if element.get_attribute_local(&"href".into()).is_some() {
             return;
         }
         if !include_legacy && element.qual_name().info().contains(ElementInfo::Legacy) {
-            if let Some(value) = used_in_legacy_element {
-                *value = true;
-            }
             return;
         }
 
-- 
2.43.0


From 8c1cac57558c70e3e843cce434b12118952de308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:01 +0000
Subject: [PATCH 37/50] fix: keep ids that are referenced when cleaning up

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index ee95858..639d57c 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -219,7 +219,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                     generated_id.next();
                 }
                 if !is_attribute!(name, Id) {
-                    used_ids.insert(minified_id.clone());
+                    used_ids.insert(if self.options.minify {
+                        minified_id.clone()
+                    } else {
+                        referenced_id.clone()
+                    });
                 }
                 if self.options.minify {
                     log::debug!(
@@ -247,7 +251,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                     generated_id.next();
                 }
                 if !is_attribute!(name, Id) {
-                    used_ids.insert(minified_id.clone());
+                    used_ids.insert(if self.options.minify {
+                        minified_id.clone()
+                    } else {
+                        referenced_id.clone()
+                    });
                 }
                 if self.options.minify {
                     log::debug!(
@@ -312,7 +320,7 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
                 };
                 log::debug!("CleanupIds: prepare_id: found id: {id}");
                 let id = id.to_string();
-                if self.replaceable_ids.contains(&id) || id.chars().all(char::is_numeric) {
+                if self.replaceable_ids.contains(&id) {
                     log::debug!("CleanupIds: prepare_id: removed redundant id: {id}");
                     return false;
                 }
-- 
2.43.0


From eb79521c7ca35a93001501a7a38552a9758e101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:01 +0000
Subject: [PATCH 38/50] fix: prefix ids in nested selectors and only with their
 references

---
 crates/oxvg_optimiser/src/jobs/prefix_ids.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
index fcfdaae..87b500b 100644
--- a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
@@ -141,9 +141,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for PrefixIds {
                     Self::prefix_id(class, &mut prefix_generator);
                 });
             }
-            value.visit_url(|url| {
-                Self::prefix_reference(url, &mut prefix_generator);
-            });
+            if self.prefix_ids {
+                value.visit_url(|url| {
+                    Self::prefix_reference(url, &mut prefix_generator);
+                });
+            }
         }
 
         Ok(())
@@ -171,6 +173,9 @@ impl<'input> lightningcss::visitor::Visitor<'input> for CssVisitor<'_, '_> {
             {
                 return Ok(());
             }
+            if let Component::Negation(list) | Component::Is(list) | Component::Where(list) = c {
+                return list.iter_mut().try_for_each(|s| self.visit_selector(s));
+            }
             if let Component::ID(Ident(ident)) | Component::Class(Ident(ident)) = c {
                 PrefixIds::prefix_id(Reference::Css(ident), self.generator);
             }
-- 
2.43.0


From fa15438da90b418655c9c3c63b2b030342a2a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:01 +0000
Subject: [PATCH 39/50] fix: visit the references of cursors

---
 crates/oxvg_collections/src/content_type.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_collections/src/content_type.rs b/crates/oxvg_collections/src/content_type.rs
index 7f8d5b8..3897ca7 100644
--- a/crates/oxvg_collections/src/content_type.rs
+++ b/crates/oxvg_collections/src/content_type.rs
@@ -276,6 +276,11 @@ impl<'input> ContentType<'_, 'input> {
             | Self::Marker(ContentTypeRef::RefMut(Marker::Url(Url { url, .. }))) => {
                 f(Reference::Css(url));
             }
+            Self::Cursor(ContentTypeRef::RefMut(cursor)) => {
+                for image in &mut cursor.images {
+                    f(Reference::Css(&mut image.url.url));
+                }
+            }
             Self::Mask(ContentTypeRef::RefMut(Mask(mask))) => {
                 use lightningcss::values::image::{Image, ImageSet};
                 fn visit_image<'input, F>(image: &mut Image<'input>, f: &mut F)
-- 
2.43.0


From 0948199e5be73123d4f6b8682e0a02b1050ac9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:01 +0000
Subject: [PATCH 40/50] fix: read font families and masks as comma-separated
 lists

---
 crates/oxvg_collections/src/attribute.rs      |  6 +++---
 .../src/attribute/presentation.rs             | 21 ++++++++++++++-----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute.rs b/crates/oxvg_collections/src/attribute.rs
index 294df98..69f4241 100644
--- a/crates/oxvg_collections/src/attribute.rs
+++ b/crates/oxvg_collections/src/attribute.rs
@@ -31,7 +31,7 @@ use lightningcss::{
     },
     vendor_prefix::VendorPrefix,
 };
-use list_of::{ListOf, Semicolon, Separators, Space, SpaceOrComma};
+use list_of::{Comma, ListOf, Semicolon, Separators, Space, SpaceOrComma};
 use path::{Path, Points};
 use presentation::{
     AlignmentBaseline, BaselineShift, Clip, ClipPath, ColorInterpolation, ColorProfile,
@@ -2695,7 +2695,7 @@ try_from_into_property! {
     Font(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     FontFamily(value) => Inheritable::Defined(FontFamily(ListOf {
         list: value,
-        separator: SpaceOrComma,
+        separator: Comma,
     })) => value.option().ok_or(())?.0.list,
     FontSize(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     FontStretch(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
@@ -2709,7 +2709,7 @@ try_from_into_property! {
     Marker(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     Mask(value, vp) => Inheritable::Defined(Mask(ListOf {
         list: value.to_vec(),
-        separator: SpaceOrComma,
+        separator: Comma,
     })) => value.option().ok_or(())?.0.list.into(),
     Opacity(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     Overflow(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
diff --git a/crates/oxvg_collections/src/attribute/presentation.rs b/crates/oxvg_collections/src/attribute/presentation.rs
index 2ba4496..6149077 100644
--- a/crates/oxvg_collections/src/attribute/presentation.rs
+++ b/crates/oxvg_collections/src/attribute/presentation.rs
@@ -3,7 +3,7 @@ use std::ops::{Deref, DerefMut};
 
 use super::{
     core_attrs::{Angle, Anything, Length, Number, Percentage},
-    list_of::{ListOf, SpaceOrComma},
+    list_of::{Comma, ListOf},
 };
 use lightningcss::values::length::LengthValue;
 pub use lightningcss::{
@@ -415,17 +415,28 @@ fn enable_background() {
     );
 }
 
+#[cfg(feature = "parse")]
+/// Parses a comma-separated list of values that may contain whitespace
+fn parse_layers<'input, T>(input: &mut Parser<'input>) -> Result<ListOf<T, Comma>, Error<'input>>
+where
+    T: lightningcss::traits::Parse<'input> + std::fmt::Debug + PartialEq,
+{
+    <Vec<T> as lightningcss::traits::Parse>::parse_string(input.take_slice())
+        .map(Into::into)
+        .map_err(Error::Lightningcss)
+}
+
 #[derive(Clone, Debug, PartialEq)]
 /// Indicates which font family is to be used to render the text
 ///
 /// [w3 | SVG 1.1](https://www.w3.org/TR/2011/REC-SVG11-20110816/text.html#FontFamilyProperty)
 pub struct FontFamily<'input>(
-    pub ListOf<lightningcss::properties::font::FontFamily<'input>, SpaceOrComma>,
+    pub ListOf<lightningcss::properties::font::FontFamily<'input>, Comma>,
 );
 #[cfg(feature = "parse")]
 impl<'input> Parse<'input> for FontFamily<'input> {
     fn parse<'t>(input: &mut Parser<'input>) -> Result<Self, Error<'input>> {
-        Ok(Self(ListOf::parse(input)?))
+        parse_layers(input).map(Self)
     }
 }
 #[cfg(feature = "serialize")]
@@ -1104,11 +1115,11 @@ fn length_percentage() {
 ///
 /// [SVG 1.1](https://www.w3.org/TR/2011/REC-SVG11-20110816/masking.html#MaskProperty)
 /// [SVG 2](https://drafts.fxtf.org/css-masking-1/#propdef-mask)
-pub struct Mask<'input>(pub ListOf<lightningcss::properties::masking::Mask<'input>, SpaceOrComma>);
+pub struct Mask<'input>(pub ListOf<lightningcss::properties::masking::Mask<'input>, Comma>);
 #[cfg(feature = "parse")]
 impl<'input> Parse<'input> for Mask<'input> {
     fn parse<'t>(input: &mut Parser<'input>) -> Result<Self, Error<'input>> {
-        ListOf::parse(input).map(Self)
+        parse_layers(input).map(Self)
     }
 }
 #[cfg(feature = "serialize")]
-- 
2.43.0


From f89e453839fad48570cd756f6a7998203dbefc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:48 +0000
Subject: [PATCH 41/50] fix: keep hidden elements that are shown or referred to
 elsewhere

---
 .../src/jobs/remove_hidden_elems.rs           | 98 +++++++++++++++----
 1 file changed, 79 insertions(+), 19 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 36eea70..3db7fac 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -103,6 +103,8 @@ struct Data<'input, 'arena> {
     all_defs: RefCell<HashSet<HashableElement<'input, 'arena>>>,
     all_references: RefCell<HashSet<String>>,
     references_by_id: RefCell<HashMap<String, Vec<Element<'input, 'arena>>>>,
+    /// The ids anything in the original document refers to
+    referenced: HashSet<String>,
 }
 
 struct State<'o, 'input, 'arena> {
@@ -144,6 +146,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for Data<'input, 'arena> {
             .with_all(element, &context.query_has_stylesheet_result)
             .map_err(JobsError::ComputedStylesError)?;
         if self.opacity_zero
+            && !is_text_span(element)
+            && !self.is_referenced(element)
             && matches!(
                 get_computed_style!(computed_styles, Opacity).option(),
                 Some((Inheritable::Defined(AlphaValue(0.0)), Mode::Static))
@@ -180,6 +184,40 @@ impl<'input, 'arena> Data<'input, 'arena> {
         element.remove();
     }
 
+    fn collect_references(&mut self, document: Element<'input, 'arena>) {
+        for element in document.breadth_first() {
+            for mut attr in element.attributes().into_iter_mut() {
+                if is_attribute!(attr, Id) {
+                    continue;
+                }
+                let mut value = attr.value_mut();
+                value.visit_url(|url| {
+                    if let Some(url) = url.strip_prefix('#') {
+                        self.referenced.insert(url.to_string());
+                    }
+                });
+                value.visit_id(|id| {
+                    self.referenced.insert(id.to_string());
+                });
+            }
+        }
+    }
+
+    /// Whether something refers to the content of the element
+    fn is_referenced(&self, element: Element<'input, 'arena>) -> bool {
+        element.breadth_first().any(|child| {
+            child != element
+                && get_attribute!(child, Id).is_some_and(|id| self.referenced.contains(id.0.as_str()))
+        })
+    }
+
+    /// Whether the element may inherit from elsewhere by a reference to one of its parents
+    fn is_within_referenced(&self, element: Element<'input, 'arena>) -> bool {
+        std::iter::successors(element.parent_element(), Element::parent_element).any(|parent| {
+            get_attribute!(parent, Id).is_some_and(|id| self.referenced.contains(id.0.as_str()))
+        })
+    }
+
     fn ref_element(&self, element: Element<'input, 'arena>) {
         match element.qual_name().unaliased() {
             ElementId::Defs => {
@@ -192,7 +230,9 @@ impl<'input, 'arena> Data<'input, 'arena> {
                     let (Attr::Href(value) | Attr::XLinkHref(value)) = &*attr else {
                         continue;
                     };
-                    let id = &value[1..];
+                    let Some(id) = value.strip_prefix('#') else {
+                        continue;
+                    };
 
                     let mut references_by_id = self.references_by_id.borrow_mut();
                     let refs = references_by_id.get_mut(id);
@@ -223,6 +263,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveHiddenElems {
             opacity_zero: self.opacity_zero.unwrap_or(true),
             ..Data::default()
         };
+        data.collect_references(document);
         data.start_with_context(document, context)?;
         log::debug!("data collected");
         State {
@@ -336,19 +377,25 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
 
     fn is_hidden_style(
         &self,
-        element: Element,
+        element: Element<'input, 'arena>,
         computed_styles: &ComputedStyles,
-        context: &mut Context,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> bool {
         let mut is_hidden = false;
         if self.options.is_hidden.unwrap_or(true)
             && let Some((Inheritable::Defined(Visibility::Hidden), Mode::Static)) =
                 get_computed_style!(computed_styles, Visibility).option()
-            && !element.breadth_first().any(|child| {
-                matches!(
-                    get_attribute!(child, Visibility).as_deref(),
-                    Some(Inheritable::Defined(Visibility::Visible) | Inheritable::Inherited)
-                )
+            && !is_text_span(element)
+            && !self.data.is_within_referenced(element)
+            && element.breadth_first().all(|child| {
+                ComputedStyles::default()
+                    .with_all(child, &context.query_has_stylesheet_result)
+                    .is_ok_and(|styles| {
+                        matches!(
+                            get_computed_style!(styles, Visibility).option(),
+                            Some((Inheritable::Defined(Visibility::Hidden), Mode::Static))
+                        )
+                    })
             })
         {
             is_hidden = true;
@@ -356,28 +403,20 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
 
         if !is_hidden
             && self.options.display_none.unwrap_or(true)
-            && let Some((Inheritable::Defined(Display::Keyword(DisplayKeyword::None)), _)) =
+            && let Some((Inheritable::Defined(Display::Keyword(DisplayKeyword::None)), Mode::Static)) =
                 get_computed_style!(computed_styles, Display).option()
         {
             is_hidden = !is_element!(element, Marker);
         }
         if is_hidden {
             // Protect references that may use non-visible data
-            let references_by_id = self.data.references_by_id.borrow();
             if let Some(id) = get_attribute!(element, Id)
-                && references_by_id.contains_key(id.0.as_str())
+                && self.data.referenced.contains(id.0.as_str())
             {
                 context.flags.visit_skip();
                 return false;
             }
-            return !element.breadth_first().any(|child| {
-                if let Some(id) = get_attribute!(child, Id)
-                    && references_by_id.contains_key(id.0.as_str())
-                {
-                    return true;
-                }
-                false
-            });
+            return !self.data.is_referenced(element);
         }
         is_hidden
     }
@@ -489,12 +528,24 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
             };
             return d.0.0.is_empty()
                 || (d.0.0.len() == 1
+                    && !self.may_use_markers()
                     && !has_computed_style!(computed_styles, MarkerStart)
                     && !has_computed_style!(computed_styles, MarkerEnd));
         }
         false
     }
 
+    /// Whether a path may get a marker through a `<use>` of it
+    fn may_use_markers(&self) -> bool {
+        !self.data.references_by_id.borrow().is_empty()
+            && self
+                .data
+                .non_rendered_nodes
+                .borrow()
+                .iter()
+                .any(|e| is_element!(e, Marker))
+    }
+
     fn is_hidden_poly(&self, element: Element<'input, 'arena>) -> bool {
         if self.options.polyline_empty_points.unwrap_or(true)
             && is_element!(element, Polyline)
@@ -513,6 +564,15 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
     }
 }
 
+/// Whether the element takes up room in a line of text, even if it's hidden
+fn is_text_span(element: Element) -> bool {
+    is_element!(element, TSpan | TextPath | TRef)
+        || is_element!(element, A)
+            && element
+                .parent_element()
+                .is_some_and(|e| is_element!(e, Text | TSpan | TextPath))
+}
+
 #[test]
 #[allow(clippy::too_many_lines)]
 fn remove_hidden_elems() -> anyhow::Result<()> {
-- 
2.43.0


From 271b6520daf496909441e9be037458529c8fedff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:48 +0000
Subject: [PATCH 42/50] fix: keep empty links and switches with a filter

---
 crates/oxvg_optimiser/src/jobs/remove_empty_containers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_empty_containers.rs b/crates/oxvg_optimiser/src/jobs/remove_empty_containers.rs
index e354090..2b72163 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_empty_containers.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_empty_containers.rs
@@ -83,7 +83,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveEmptyContainers {
         {
             return Ok(());
         }
-        if is_element!(element, G) {
+        if is_element!(element, A | G | Switch) {
             let computed_styles = ComputedStyles::default()
                 .with_all(element, &context.query_has_stylesheet_result)
                 .map_err(JobsError::ComputedStylesError)?;
-- 
2.43.0


From d4387d63c1b314c882f749973667fa9826c1a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:48 +0000
Subject: [PATCH 43/50] fix: leave kept and reused paths alone when removing
 off-canvas ones

---
 .../src/jobs/remove_off_canvas_paths.rs       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
index 937498f..6c27faa 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
@@ -3,10 +3,13 @@ use std::cell::RefCell;
 use lightningcss::values::percentage::DimensionPercentage;
 use oxvg_ast::{
     element::Element,
-    get_attribute, get_attribute_mut, has_attribute, is_element,
+    get_attribute, has_attribute, is_element,
     visitor::{Context, PrepareOutcome, Visitor},
 };
-use oxvg_collections::attribute::{path, presentation::LengthPercentage, uncategorised::ViewBox};
+use oxvg_collections::{
+    attribute::{path, presentation::LengthPercentage, uncategorised::ViewBox},
+    element::ElementInfo,
+};
 use oxvg_path::{
     command::Data,
     geometry::{Point, Tolerance},
@@ -74,7 +77,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
             self.view_box_data.replace(gather(element).ok());
         }
 
-        if has_attribute!(element, Transform) {
+        if has_attribute!(element, Transform | Id)
+            || is_element!(element, Defs)
+            || element.qual_name().info().contains(ElementInfo::NonRendering)
+        {
+            // drawn elsewhere
             context.flags.visit_skip();
             return Ok(());
         }
@@ -86,8 +93,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
         let Some(view_box_data) = view_box_data.as_ref() else {
             return Ok(());
         };
-        let mut path = get_attribute_mut!(element, D);
-        let Some(path::Path(path, _)) = path.as_deref_mut() else {
+        let path = get_attribute!(element, D);
+        let Some(path::Path(path, _)) = path.as_deref() else {
             return Ok(());
         };
 
@@ -104,6 +111,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
             return Ok(());
         }
 
+        let mut path = path.clone();
         if path.0.len() == 2 {
             path.0.push(Data::ClosePath);
         }
@@ -125,7 +133,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
         view_box_path_data.close();
         let view_box_path_data = segment::Path(vec![view_box_path_data]);
 
-        let segments = segment::Path::from_svg(&*path, &Tolerance::default());
+        let segments = segment::Path::from_svg(&path, &Tolerance::default());
         if !view_box_path_data.intersects(&segments) {
             element.remove();
         }
-- 
2.43.0


From 352582565afeca78b4525a42434aa06dc3924280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:02 +0000
Subject: [PATCH 44/50] fix: keep a divisor of one in convolve matrices

---
 crates/oxvg_collections/src/attribute.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/oxvg_collections/src/attribute.rs b/crates/oxvg_collections/src/attribute.rs
index 69f4241..bb8bc7e 100644
--- a/crates/oxvg_collections/src/attribute.rs
+++ b/crates/oxvg_collections/src/attribute.rs
@@ -909,7 +909,6 @@ define_attrs! {
     },
     Divisor(Number) {
         name: "divisor",
-        default: 1.0,
     },
     Download(Anything<'input>) {
         name: "download",
-- 
2.43.0


From 1b4a5a335dbc9730ef0803708c54b2d73be7ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:02 +0000
Subject: [PATCH 45/50] fix: keep strokes and fills that size markers or that
 styles override

---
 .../src/jobs/remove_useless_stroke_and_fill.rs         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
index ee89cce..fd1ee38 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
@@ -111,6 +111,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
         {
             return Ok(());
         }
+        if element.has_attribute(&AttrId::Style) {
+            // the attributes set or removed may be overridden
+            return Ok(());
+        }
 
         let computed_styles = ComputedStyles::default()
             .with_all(element, &context.query_has_stylesheet_result)
@@ -156,7 +160,11 @@ impl State<'_> {
             }
         });
 
-        if !is_stroke_width_zero && has_computed_style!(computed_styles, MarkerEnd) {
+        if !is_stroke_width_zero
+            && (has_computed_style!(computed_styles, MarkerStart)
+                || has_computed_style!(computed_styles, MarkerMid)
+                || has_computed_style!(computed_styles, MarkerEnd))
+        {
             log::debug!("skipping stroke removal, has marker");
             return;
         }
-- 
2.43.0


From 5693afc46ca43c825d25858db1c098f12b813fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:13 +0000
Subject: [PATCH 46/50] fix: write an empty media query as empty

---
 crates/oxvg_collections/src/attribute/uncategorised.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_collections/src/attribute/uncategorised.rs b/crates/oxvg_collections/src/attribute/uncategorised.rs
index a6581e5..b1a63fb 100644
--- a/crates/oxvg_collections/src/attribute/uncategorised.rs
+++ b/crates/oxvg_collections/src/attribute/uncategorised.rs
@@ -430,6 +430,10 @@ impl ToValue for MediaQueryList<'_> {
     where
         W: std::fmt::Write,
     {
+        if self.0.media_queries.is_empty() {
+            // matches everything, though the list would be written as `not all`
+            return Ok(());
+        }
         self.0.write_value(dest)
     }
 }
-- 
2.43.0


From ea6f790ef0caa92ea47ac6c8eca791c23e859392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:13 +0000
Subject: [PATCH 47/50] fix: keep style sheets that can't be parsed when
 merging

---
 crates/oxvg_optimiser/src/jobs/merge_styles.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/merge_styles.rs b/crates/oxvg_optimiser/src/jobs/merge_styles.rs
index 43ad5a5..44cf669 100644
--- a/crates/oxvg_optimiser/src/jobs/merge_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/merge_styles.rs
@@ -92,13 +92,23 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
                 self.is_cdata.set(true);
             }
         });
+        if css.is_empty()
+            && element
+                .child_nodes_iter()
+                .any(|node| node.text_content().is_some_and(|text| !text.trim().is_empty()))
+        {
+            log::debug!("Not merging style: invalid");
+            return Ok(());
+        }
         if css.is_empty() {
             log::debug!("Removed empty style");
             element.remove();
             return Ok(());
         }
 
-        if let Some(MediaQueryList(query)) = remove_attribute!(element, Media) {
+        if let Some(MediaQueryList(query)) = remove_attribute!(element, Media)
+            && !query.media_queries.is_empty()
+        {
             css = vec![CssRule::Media(MediaRule {
                 query,
                 rules: CssRuleList(css),
-- 
2.43.0


From 9134cfd165015f92d1faf9fdd32be236dbe76ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:13 +0000
Subject: [PATCH 48/50] fix: skip style attributes that can't be parsed when
 minifying

---
 crates/oxvg_optimiser/src/jobs/minify_styles.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/minify_styles.rs b/crates/oxvg_optimiser/src/jobs/minify_styles.rs
index 73deda8..a5182e8 100644
--- a/crates/oxvg_optimiser/src/jobs/minify_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/minify_styles.rs
@@ -183,8 +183,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
         }
 
         for element_with_style in self.elements_with_style.borrow().values() {
-            let mut style_sheet =
-                get_attribute_mut!(element_with_style, Style).expect("element without style used");
+            let Some(mut style_sheet) = get_attribute_mut!(element_with_style, Style) else {
+                // the style attribute couldn't be parsed
+                continue;
+            };
 
             minify_style::style(&mut style_sheet.0);
             if style_sheet.0.is_empty() {
-- 
2.43.0


From 4a3ab1aa23664c3f9a2d2a50449ec3902231847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:13 +0000
Subject: [PATCH 49/50] fix: keep styles that win over rules or have no
 attribute

---
 .../src/jobs/convert_style_to_attrs.rs        | 41 ++++++++++++++++---
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs b/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
index 176665c..b1cea86 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
@@ -1,10 +1,10 @@
 use std::collections::HashMap;
 
-use lightningcss::properties::Property;
+use lightningcss::{declaration::DeclarationBlock, properties::Property};
 use oxvg_ast::{
     element::Element,
     get_attribute_mut,
-    visitor::{Context, Visitor},
+    visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
 use oxvg_collections::attribute::{Attr, AttrId};
 #[cfg(feature = "serde")]
@@ -66,6 +66,25 @@ impl Default for ConvertStyleToAttrs {
 impl<'input, 'arena> Visitor<'input, 'arena> for ConvertStyleToAttrs {
     type Error = JobsError<'input>;
 
+    fn prepare(
+        &self,
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
+    ) -> Result<PrepareOutcome, Self::Error> {
+        context.query_has_stylesheet(document);
+        Ok(
+            // rules override attributes
+            if context
+                .flags
+                .contains(ContextFlags::query_has_stylesheet_result)
+            {
+                PrepareOutcome::skip
+            } else {
+                PrepareOutcome::none
+            },
+        )
+    }
+
     fn element(
         &self,
         element: Element<'input, 'arena>,
@@ -82,6 +101,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertStyleToAttrs {
         let mut new_attributes: Vec<Attr<'input>> = Vec::new();
 
         let mut detain_and_collect_presentation_attrs = |property: &Property<'input>| {
+            if matches!(property, Property::Marker(_)) {
+                // there is no attribute for the shorthand
+                return true;
+            }
             let attr = match property.clone().try_into().ok() {
                 None | Some(Attr::CSSUnknown { .. } | Attr::Unparsed { .. }) => return true,
                 Some(attr) => attr,
@@ -101,9 +124,17 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertStyleToAttrs {
             .declarations
             .retain(&mut detain_and_collect_presentation_attrs);
         if !self.keep_important {
-            styles
-                .important_declarations
-                .retain(detain_and_collect_presentation_attrs);
+            let DeclarationBlock {
+                declarations,
+                important_declarations,
+            } = styles;
+            important_declarations.retain(|property| {
+                // what's left in the style would override the attribute
+                declarations
+                    .iter()
+                    .any(|other| other.property_id() == property.property_id())
+                    || detain_and_collect_presentation_attrs(property)
+            });
         }
 
         let is_empty = styles.is_empty();
-- 
2.43.0


From 112e974eafa66fba67f5017eb110cda1a6e372b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:38 +0000
Subject: [PATCH 50/50] fix: omit jobs from configurations without a preset

---
 crates/oxvg/src/config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg/src/config.rs b/crates/oxvg/src/config.rs
index 9ea1f34..4ab9dfb 100644
--- a/crates/oxvg/src/config.rs
+++ b/crates/oxvg/src/config.rs
@@ -67,10 +67,10 @@ impl Optimise {
     /// Creates a job configuration where the user-configured jobs extends the preset
     /// specified in `extends`
     pub fn resolve_jobs(&self) -> oxvg_optimiser::Jobs {
-        let Some(extends) = &self.extends else {
-            return self.jobs.clone();
+        let mut result = match &self.extends {
+            Some(extends) => extends.extend(&self.jobs),
+            None => self.jobs.clone(),
         };
-        let mut result = extends.extend(&self.jobs);
         if let Some(omit) = self.omit.as_ref() {
             for omit in omit {
                 result.omit(omit);
-- 
2.43.0

