From b72beaf566673022e03675c12917ee7a41233a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 01/29] fix: an omitted transform scale means 100%, not 1%

---
 src/import/converters.rs | 14 +++++++++++---
 src/import/defaults.rs   |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index ebd77e5..e219030 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -2,7 +2,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use super::builders::{setup_layer_base, setup_precomp_layer, setup_shape_layer};
-use super::defaults::{FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE, POSITION_ZERO};
+use super::defaults::{
+    FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE_HUNDRED, POSITION_ZERO,
+};
 use crate::import::builders::LayerSetupParams;
 use crate::runtime::model::Easing;
 use crate::runtime::model::animated::{self, Position};
@@ -225,7 +227,7 @@ pub fn conv_transform(
     let transform = animated::Transform {
         anchor: conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO)),
         position,
-        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE_HUNDRED)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(value.skew_axis.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
@@ -262,7 +264,13 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .unwrap_or(&POSITION_ZERO),
         ),
         position: Position::Value(conv_pos_point(position_in)),
-        scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(
+            value
+                .transform
+                .scale
+                .as_ref()
+                .unwrap_or(&MULTIDIM_ONE_HUNDRED),
+        ),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(
diff --git a/src/import/defaults.rs b/src/import/defaults.rs
index 53ee1c5..cca8b7e 100644
--- a/src/import/defaults.rs
+++ b/src/import/defaults.rs
@@ -29,13 +29,13 @@ pub static FLOAT_VALUE_ONE_HUNDRED: LazyLock<FloatValue> = LazyLock::new(|| Floa
     },
 });
 
-pub static MULTIDIM_ONE: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
+pub static MULTIDIM_ONE_HUNDRED: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
     animated_property: AnimatedProperty {
         property_index: None,
         animated: Some(BoolInt::False),
         expression: None,
         slot_id: None,
-        value: AnimatedPropertyK::Static(vec![1.0, 1.0, 1.0]),
+        value: AnimatedPropertyK::Static(vec![100.0, 100.0, 100.0]),
     },
     length: None,
 });
-- 
2.43.0


From 95c04fe12e6dbeaaddb9cc976a7023d0b324376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 02/29] fix: transforms with no rotation or a split rotation no
 longer panic

---
 src/import/converters.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index e219030..f3c6d7e 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -203,18 +203,20 @@ fn is_layer_hidden(source: &schema::layers::AnyLayer) -> bool {
     hidden == Some(true)
 }
 
+/// Converts a rotation. Rendering is two-dimensional, so only the z component
+/// of a split rotation applies.
+fn conv_rotation(rotation: Option<&schema::helpers::transform::AnyTransformR>) -> Value<f64> {
+    use schema::helpers::transform::AnyTransformR;
+    conv_scalar(match rotation {
+        Some(AnyTransformR::Rotation(rotation)) => rotation,
+        Some(AnyTransformR::SplitRotation { z_rotation, .. }) => z_rotation,
+        None => &FLOAT_VALUE_ZERO,
+    })
+}
+
 pub fn conv_transform(
     value: &schema::helpers::transform::Transform,
 ) -> (runtime::model::Transform, Value<f64>) {
-    let rotation_in = match &value.rotation {
-        Some(any_trans) => match any_trans {
-            schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => todo!(),
-        },
-        None => todo!("split rotation"),
-    };
-
     let position = match &value.position {
         schema::helpers::transform::AnyTransformP::Position(position) => {
             Position::Value(conv_pos_point(position))
@@ -228,7 +230,7 @@ pub fn conv_transform(
         anchor: conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO)),
         position,
         scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE_HUNDRED)),
-        rotation: conv_scalar(rotation_in),
+        rotation: conv_rotation(value.rotation.as_ref()),
         skew: conv_scalar(value.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(value.skew_axis.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
     };
@@ -237,16 +239,6 @@ pub fn conv_transform(
 }
 
 pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -> GroupTransform {
-    let rotation_in = match &value.transform.rotation {
-        Some(any_trans) => match any_trans {
-            schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => {
-                todo!("split rotation")
-            }
-        },
-        None => &FLOAT_VALUE_ZERO,
-    };
     let position_in = match &value.transform.position {
         schema::helpers::transform::AnyTransformP::Position(position) => position,
         schema::helpers::transform::AnyTransformP::SplitPosition(_) => {
@@ -271,7 +263,7 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .as_ref()
                 .unwrap_or(&MULTIDIM_ONE_HUNDRED),
         ),
-        rotation: conv_scalar(rotation_in),
+        rotation: conv_rotation(value.transform.rotation.as_ref()),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(
             value
-- 
2.43.0


From 0a8cd7c51b5ef94d13cfa94fa1826cf8c8198c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 03/29] fix: split positions in shape groups no longer panic

---
 src/import/converters.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index f3c6d7e..ed91c33 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -239,11 +239,12 @@ pub fn conv_transform(
 }
 
 pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -> GroupTransform {
-    let position_in = match &value.transform.position {
-        schema::helpers::transform::AnyTransformP::Position(position) => position,
-        schema::helpers::transform::AnyTransformP::SplitPosition(_) => {
-            // todo: split vectors
-            todo!("split position");
+    let position = match &value.transform.position {
+        schema::helpers::transform::AnyTransformP::Position(position) => {
+            Position::Value(conv_pos_point(position))
+        }
+        schema::helpers::transform::AnyTransformP::SplitPosition(SplitVector { x, y, .. }) => {
+            Position::SplitValues((conv_scalar(x), conv_scalar(y)))
         }
     };
 
@@ -255,7 +256,7 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .as_ref()
                 .unwrap_or(&POSITION_ZERO),
         ),
-        position: Position::Value(conv_pos_point(position_in)),
+        position,
         scale: conv_vec2(
             value
                 .transform
-- 
2.43.0


From 63eca7144ff67f5cce55a7912df502612c79c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 04/29] fix: importing a document with an image asset no longer
 panics

---
 src/import/converters.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index ed91c33..8b5c8e6 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -101,9 +101,9 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
                     let layers = process_layers(&precomp.composition.layers, &mut idmap);
                     target.assets.insert(precomp.asset.id.clone(), layers);
                 }
-                asset => {
-                    unimplemented!("asset {:?} is not yet implemented", asset)
-                }
+                // Image embedding is not supported: layers that show the image
+                // draw nothing.
+                schema::assets::AnyAsset::Image(_) => {}
             }
         }
     }
-- 
2.43.0


From 2b695cade544daea6f682461b3cbb8624d599e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 05/29] fix: importing a layer with the Add or Hard Mix blend
 mode no longer panics

---
 src/import/converters.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 8b5c8e6..05ef204 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -21,7 +21,7 @@ use crate::schema::constants::gradient_type::GradientType;
 use crate::schema::helpers::int_boolean::BoolInt;
 use crate::{Composition, schema};
 use kurbo::{Cap, Join, Point, Size, Vec2};
-use peniko::{BlendMode, Color, Mix};
+use peniko::{BlendMode, Color, Compose, Mix};
 use std::collections::HashMap;
 
 fn process_layers(
@@ -803,8 +803,9 @@ pub fn conv_blend_mode(
         Saturation => BlendMode::from(Mix::Saturation),
         Color => BlendMode::from(Mix::Color),
         Luminosity => BlendMode::from(Mix::Luminosity),
-        Add => unimplemented!(),
-        HardMix => unimplemented!(),
+        Add => BlendMode::from(Compose::PlusLighter),
+        // There is no equivalent, so the layer is blended normally.
+        HardMix => return None,
     })
 }
 
-- 
2.43.0


From 9b5ee303493b0e0cf9e3f6cd7f9d9368e342f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 06/29] fix: keyframes with an empty value or an unusual number
 of handle components no longer panic

---
 src/import/converters.rs | 67 ++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 05ef204..9aca233 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -358,26 +358,17 @@ pub fn conv_keyframes<'a, T: Tween>(
     })
 }
 
-fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> EasingHandle {
-    let KeyframeBezierHandle {
-        x_coordinate,
-        y_coordinate,
-    } = handle;
-    let x = match x_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1, "{arr:?}");
-            arr[0]
-        }
-        KeyframeComponent::SingleValue(v) => *v,
-    };
-    let y = match y_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1);
-            arr[0]
-        }
-        KeyframeComponent::SingleValue(v) => *v,
+/// Converts the handle of a keyframe whose value eases as a whole: the first
+/// component counts. An empty list of components is no handle at all.
+fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> Option<EasingHandle> {
+    let component = |component: &KeyframeComponent| match component {
+        KeyframeComponent::ArrayOfValues(arr) => arr.first().copied(),
+        KeyframeComponent::SingleValue(v) => Some(*v),
     };
-    EasingHandle { x, y }
+    Some(EasingHandle {
+        x: component(&handle.x_coordinate)?,
+        y: component(&handle.y_coordinate)?,
+    })
 }
 
 fn conv_gradient_colors(
@@ -418,8 +409,16 @@ fn conv_gradient_colors(
                     .unwrap_or(false);
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
 
@@ -716,8 +715,16 @@ pub fn conv_shape_geometry(
                 // Add frame time and easing
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 // Get converted spline points for keyframe bezier at the start
@@ -818,7 +825,7 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
             let mut values = vec![];
             for keyframe in keyframes {
                 let start_time = keyframe.base.time;
-                let data = keyframe.value[0];
+                let data = keyframe.value.first().copied().unwrap_or_default();
                 let hold = keyframe
                     .base
                     .hold
@@ -827,8 +834,16 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
                     .unwrap_or(false);
                 frames.push(crate::runtime::model::Time {
                     frame: start_time,
-                    in_tangent: keyframe.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: keyframe.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: keyframe
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: keyframe
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 values.push(data);
-- 
2.43.0


From 4b75ada04be76a8c4c67d8f1c771d8c8c7fe5307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 07/29] fix: an animated path whose first keyframe has no value
 no longer overflows

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 9aca233..1b779da 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -733,7 +733,7 @@ pub fn conv_shape_geometry(
                         start.first()?.clone()
                     } else {
                         // No keyframe was present - we look for the previous end/start
-                        let prev = animated.get(idx - 1)?;
+                        let prev = animated.get(idx.checked_sub(1)?)?;
                         // Take the previous end if present, otherwise the previous start.
                         if let Some(prev_end) = prev.end.as_ref() {
                             if let Some(prev_end_bezier) = prev_end.first() {
-- 
2.43.0


From b805ee4709d6a2bc2a323acba30903dcf76b7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 08/29] fix: an animated path is no longer NaN at its last
 keyframe

---
 src/runtime/model/value.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/value.rs b/src/runtime/model/value.rs
index 10ca3cb..47e5c2d 100644
--- a/src/runtime/model/value.rs
+++ b/src/runtime/model/value.rs
@@ -138,7 +138,14 @@ impl Time {
             i: EasingHandle { x: t0_ix, y: t0_iy },
         };
         let hold = t0.hold;
-        let t = (frame - t0.frame) / (t1.frame - t0.frame);
+        // Past the last keyframe, and between keyframes at the same time, there
+        // is nothing to interpolate.
+        let duration = t1.frame - t0.frame;
+        let t = if duration != 0.0 {
+            (frame - t0.frame) / duration
+        } else {
+            0.0
+        };
         Some(([ix0, ix1], t.clamp(0.0, 1.0), easing, hold))
     }
 }
-- 
2.43.0


From c927a6d7c528d74658ec2e1cfe701c9d92f9c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 09/29] fix: animated paths follow the easing of their
 keyframes

---
 src/runtime/model/animated.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 94edfdb..fa6cb80 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -303,11 +303,15 @@ impl Spline {
     /// Evaluates the spline at the given frame and emits the elements
     /// to the specified path.
     pub fn evaluate(&self, frame: f64, path: &mut Vec<PathEl>) -> bool {
-        let Some(([ix0, ix1], t, _easing, hold)) = Time::frames_and_weight(&self.times, frame)
+        let Some(([ix0, ix1], t, easing, hold)) = Time::frames_and_weight(&self.times, frame)
         else {
             return false;
         };
-        let t = if hold { 0.0 } else { t };
+        let t = if hold {
+            0.0
+        } else {
+            0.0.tween(&1.0, t, &easing)
+        };
         let (Some(from), Some(to)) = (self.values.get(ix0), self.values.get(ix1)) else {
             return false;
         };
-- 
2.43.0


From 0e549eb5a7d958254dbcb31888dd1192c5b7b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 10/29] fix: held gradient keyframes hold the stop offsets too

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index fa6cb80..bdb68be 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -485,6 +485,7 @@ impl ColorStops {
 
     fn evaluate_inner(&self, frame: f64) -> Option<fixed::ColorStops> {
         let ([ix0, ix1], t, easing, hold) = Time::frames_and_weight(&self.frames, frame)?;
+        let t = if hold { 0.0 } else { t };
 
         let v0 = self.values.get(ix0)?;
         let v1 = self.values.get(ix1)?;
@@ -493,7 +494,6 @@ impl ColorStops {
         for i in 0..self.count {
             let j = i * 5;
             let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
-            let t = if hold { 0.0 } else { t };
             let r = v0.get(j + 1)?.tween(v1.get(j + 1)?, t, &easing);
             let g = v0.get(j + 2)?.tween(v1.get(j + 2)?, t, &easing);
             let b = v0.get(j + 3)?.tween(v1.get(j + 3)?, t, &easing);
-- 
2.43.0


From 458f83418d80ace797943caa907c04af69ddfd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 11/29] fix: gradient fills and strokes honour their opacity

---
 src/import/converters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 1b779da..f94bb30 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -502,7 +502,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: None,
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         AnyShape::GradientStroke(value) => {
@@ -550,7 +550,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: Some(stroke.into_model()),
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         _ => None,
-- 
2.43.0


From c26c626a4d335df8f9ac846825d89427c409efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 12/29] fix: evaluating an animated gradient brush applies the
 given alpha

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index bdb68be..57f5fb7 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -533,7 +533,7 @@ impl Brush {
                 .evaluate_or(frame, peniko::Color::TRANSPARENT)
                 .multiply_alpha(alpha as f32)
                 .into(),
-            Self::Gradient(value) => value.evaluate(frame),
+            Self::Gradient(value) => value.evaluate(frame).multiply_alpha(alpha as f32),
         }
     }
 
-- 
2.43.0


From 3689116be7b52891c69c5d123d923a152b4012ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 13/29] fix: outlines removed by a trim no longer reappear when
 another path is merged

---
 src/runtime/render.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index f9cbe43..1fbb0e2 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -373,8 +373,11 @@ impl Batch {
 
     fn apply_trim(&mut self, trim: &fixed::Trim, geometry_start: usize) {
         let Some((first, second)) = trim.normalized() else {
+            // Leave the empty ranges at the end, where geometries merged later
+            // are appended.
+            let end = self.elements.len();
             for geometry in &mut self.geometries[geometry_start..] {
-                geometry.elements = 0..0;
+                geometry.elements = end..end;
             }
             return;
         };
-- 
2.43.0


From 803e5137604d0b95518e39035ee201393c667f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 14/29] fix: trimming a compound path no longer connects its
 separate contours

---
 src/runtime/render.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 1fbb0e2..756d89a 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -414,7 +414,8 @@ impl Batch {
                 let start_len = norm_start * total_length;
                 let end_len = norm_end * total_length;
                 let mut current_len = 0.0;
-                let mut need_move = true;
+                // End of the last segment that was kept
+                let mut pen = None;
 
                 for seg in &segs {
                     let seg_len = seg.arclen(ACCURACY);
@@ -443,10 +444,10 @@ impl Batch {
 
                     if t_end > t_start + 1e-9 {
                         let sub = seg.subsegment(t_start..t_end);
-                        if need_move {
+                        if pen != Some(seg.start()) {
                             trimmed.move_to(sub.start());
-                            need_move = false;
                         }
+                        pen = Some(seg.end());
                         match sub {
                             PathSeg::Line(l) => trimmed.line_to(l.p1),
                             PathSeg::Quad(q) => trimmed.quad_to(q.p1, q.p2),
-- 
2.43.0


From 8ba8d3d5713be3d760d9a5eae16cc0a2596ae350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 15/29] fix: a group's styles and trims no longer miss a path
 merged into one before the group

---
 src/runtime/render.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 756d89a..16c25d4 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -201,7 +201,8 @@ impl Renderer {
                     );
                 }
                 Shape::Geometry(geometry) => {
-                    self.batch.push_geometry(geometry, transform, frame);
+                    self.batch
+                        .push_geometry(geometry, transform, geometry_start, frame);
                 }
                 Shape::Draw(draw) => {
                     self.batch.push_draw(draw, alpha, geometry_start, frame);
@@ -294,12 +295,19 @@ struct Batch {
 }
 
 impl Batch {
-    fn push_geometry(&mut self, geometry: &Geometry, transform: Affine, frame: f64) {
-        // Merge with the previous geometry if possible. There are two
+    fn push_geometry(
+        &mut self,
+        geometry: &Geometry,
+        transform: Affine,
+        geometry_start: usize,
+        frame: f64,
+    ) {
+        // Merge with the previous geometry if possible. There are three
         // conditions:
         // 1. The previous geometry has not yet been referenced by a draw
-        // 2. The geometries have the same transform
-        if self.drawn_geometry < self.geometries.len()
+        // 2. The previous geometry belongs to the current group
+        // 3. The geometries have the same transform
+        if self.drawn_geometry.max(geometry_start) < self.geometries.len()
             && self.geometries.last().map(|last| last.transform) == Some(transform)
         {
             geometry.evaluate(frame, &mut self.elements);
-- 
2.43.0


From 8732ffc6c571380d5ab4f50ac971fa9874fa0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 16/29] fix: a repeater paints each copy once, in the
 coordinate system of its group

---
 src/runtime/render.rs | 58 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 16c25d4..2283dc4 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -163,7 +163,8 @@ impl Renderer {
                 }
             }
             Content::Shape(shapes) => {
-                self.render_shapes(shapes, transform, alpha, frame);
+                self.render_shapes(shapes, alpha, frame);
+                self.batch.transform(0, transform);
                 self.batch.render(scene);
                 self.batch.clear();
             }
@@ -174,7 +175,9 @@ impl Renderer {
         scene.end_layer_group();
     }
 
-    fn render_shapes(&mut self, shapes: &[Shape], transform: Affine, alpha: f64, frame: f64) {
+    /// Collects the geometries and draws of a list of shapes. The geometries are
+    /// placed in the coordinate system of the list.
+    fn render_shapes(&mut self, shapes: &[Shape], alpha: f64, frame: f64) {
         // Keep track of our local top of the geometry stack. Any subsequent
         // draws are bounded by this.
         let geometry_start = self.batch.geometries.len();
@@ -193,16 +196,12 @@ impl Renderer {
                         } else {
                             (Affine::IDENTITY, 1.0)
                         };
-                    self.render_shapes(
-                        shapes,
-                        transform * group_transform,
-                        alpha * group_alpha,
-                        frame,
-                    );
+                    let group_start = self.batch.geometries.len();
+                    self.render_shapes(shapes, alpha * group_alpha, frame);
+                    self.batch.transform(group_start, group_transform);
                 }
                 Shape::Geometry(geometry) => {
-                    self.batch
-                        .push_geometry(geometry, transform, geometry_start, frame);
+                    self.batch.push_geometry(geometry, geometry_start, frame);
                 }
                 Shape::Draw(draw) => {
                     self.batch.push_draw(draw, alpha, geometry_start, frame);
@@ -295,20 +294,14 @@ struct Batch {
 }
 
 impl Batch {
-    fn push_geometry(
-        &mut self,
-        geometry: &Geometry,
-        transform: Affine,
-        geometry_start: usize,
-        frame: f64,
-    ) {
+    fn push_geometry(&mut self, geometry: &Geometry, geometry_start: usize, frame: f64) {
         // Merge with the previous geometry if possible. There are three
         // conditions:
         // 1. The previous geometry has not yet been referenced by a draw
         // 2. The previous geometry belongs to the current group
-        // 3. The geometries have the same transform
+        // 3. The previous geometry has no transform within the group
         if self.drawn_geometry.max(geometry_start) < self.geometries.len()
-            && self.geometries.last().map(|last| last.transform) == Some(transform)
+            && self.geometries.last().map(|last| last.transform) == Some(Affine::IDENTITY)
         {
             geometry.evaluate(frame, &mut self.elements);
             self.geometries.last_mut().unwrap().elements.end = self.elements.len();
@@ -318,11 +311,18 @@ impl Batch {
             let end = self.elements.len();
             self.geometries.push(GeometryData {
                 elements: start..end,
-                transform,
+                transform: Affine::IDENTITY,
             });
         }
     }
 
+    /// Applies a transform to the geometries from the given index on.
+    fn transform(&mut self, geometry_start: usize, transform: Affine) {
+        for geometry in &mut self.geometries[geometry_start..] {
+            geometry.transform = transform * geometry.transform;
+        }
+    }
+
     fn push_draw(&mut self, draw: &Draw, alpha: f64, geometry_start: usize, frame: f64) {
         self.draws.push(DrawData::new(
             draw,
@@ -339,12 +339,14 @@ impl Batch {
         self.repeat_geometries
             .extend(self.geometries.drain(geometry_start..));
         self.repeat_draws.extend(self.draws.drain(draw_start..));
-        // Next, repeat the geometries and apply the offset transform
-        for geometry in self.repeat_geometries.iter() {
-            for i in 0..repeater.copies {
-                let transform = repeater.transform(i);
+        // Next, repeat the geometries and apply the offset transform. The
+        // geometries of each copy stay together.
+        let count = self.repeat_geometries.len();
+        for i in 0..repeater.copies {
+            let transform = repeater.transform(i);
+            for geometry in self.repeat_geometries.iter() {
                 let mut geometry = geometry.clone();
-                geometry.transform *= transform;
+                geometry.transform = transform * geometry.transform;
                 self.geometries.push(geometry);
             }
         }
@@ -365,10 +367,8 @@ impl Batch {
             }
             for mut draw in self.repeat_draws.iter().cloned() {
                 draw.alpha *= alpha;
-                let count = draw.geometry.end - draw.geometry.start;
-                draw.geometry.start =
-                    geometry_start + (draw.geometry.start - geometry_start) * repeater.copies;
-                draw.geometry.end = draw.geometry.start + count * repeater.copies;
+                draw.geometry.start += i * count;
+                draw.geometry.end += i * count;
                 self.draws.push(draw);
             }
         }
-- 
2.43.0


From cd3793ebcd623ed177434b3bf6ce04736e5f4eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 17/29] fix: sinks are told the array position of precomposed
 layers and matte sources

---
 src/runtime/render.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 2283dc4..1be1dd0 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -116,7 +116,7 @@ impl Renderer {
                     animation,
                     layer_set,
                     mask,
-                    0,
+                    mask_index,
                     parent_transform,
                     alpha,
                     frame,
@@ -145,7 +145,7 @@ impl Renderer {
                 if let Some(asset_layers) = animation.assets.get(name) {
                     let frame = frame / layer.stretch;
                     let frame_delta = -layer.start_frame / layer.stretch;
-                    for asset_layer in asset_layers.iter().rev() {
+                    for (asset_index, asset_layer) in asset_layers.iter().enumerate().rev() {
                         if asset_layer.is_mask {
                             continue;
                         }
@@ -153,7 +153,7 @@ impl Renderer {
                             animation,
                             asset_layers,
                             asset_layer,
-                            0,
+                            asset_index,
                             transform,
                             alpha,
                             frame + frame_delta,
-- 
2.43.0


From 99c3c8ba9fa179ffe5dee17e95f4ce814b9a4ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 18/29] fix: layers without an index no longer pass for the
 layer with index 0

---
 src/import/builders.rs   |  8 ++++----
 src/import/converters.rs | 10 ++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/import/builders.rs b/src/import/builders.rs
index 1b03aab..2143274 100644
--- a/src/import/builders.rs
+++ b/src/import/builders.rs
@@ -9,7 +9,7 @@ use crate::{runtime, schema};
 use peniko::{self, BlendMode, Compose, Mix};
 
 pub struct LayerSetupParams {
-    pub layer_index: usize,
+    pub layer_index: Option<usize>,
     pub matte_mode: Option<BlendMode>,
     pub matte_layer_index: Option<usize>,
 }
@@ -93,7 +93,7 @@ pub fn setup_precomp_layer(
     }
 
     LayerSetupParams {
-        layer_index: source.visual_layer.layer.index.unwrap_or(0),
+        layer_index: source.visual_layer.layer.index,
         matte_mode,
         matte_layer_index,
     }
@@ -176,7 +176,7 @@ pub fn setup_shape_layer(
     }
 
     LayerSetupParams {
-        layer_index: source.visual_layer.layer.index.unwrap_or(0),
+        layer_index: source.visual_layer.layer.index,
         matte_mode,
         matte_layer_index,
     }
@@ -240,7 +240,7 @@ pub fn setup_layer_base(
     }
 
     LayerSetupParams {
-        layer_index: source.layer.index.unwrap_or(0),
+        layer_index: source.layer.index,
         matte_mode,
         matte_layer_index,
     }
diff --git a/src/import/converters.rs b/src/import/converters.rs
index f94bb30..37834f1 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -30,17 +30,19 @@ fn process_layers(
 ) -> Vec<Layer> {
     idmap.clear();
 
-    let mut converted: Vec<(Layer, usize, Option<BlendMode>, Option<usize>)> = vec![];
+    let mut converted: Vec<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> = vec![];
 
     for layer in source_layers {
         if let Some((layer, id, matte_mode, matte_layer_index)) = conv_layer(layer) {
             let index = converted.len();
-            idmap.insert(id, index);
+            if let Some(id) = id {
+                idmap.insert(id, index);
+            }
             converted.push((layer, id, matte_mode, matte_layer_index));
         }
     }
 
-    let matte_targets: HashMap<usize, usize> = converted
+    let matte_targets: HashMap<Option<usize>, usize> = converted
         .iter()
         .enumerate()
         .filter(|(_, (layer, _, _, _))| layer.is_mask)
@@ -140,7 +142,7 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
 
 pub fn conv_layer(
     source: &schema::layers::AnyLayer,
-) -> Option<(Layer, usize, Option<BlendMode>, Option<usize>)> {
+) -> Option<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> {
     let mut layer = Layer::default();
 
     let hidden = is_layer_hidden(source);
-- 
2.43.0


From 305a01b543d1c8a7346ad537f4e31985618bbb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 19/29] fix: cyclic precomposition and matte references no
 longer recurse forever

---
 src/runtime/render.rs | 52 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 1be1dd0..94c016f 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -49,6 +49,38 @@ pub struct Renderer {
     mask_elements: Vec<PathEl>,
 }
 
+/// What the layer being rendered is nested in, innermost first. Nothing is
+/// rendered inside itself, which prevents infinite recursion when references
+/// are cyclic.
+#[derive(Copy, Clone)]
+struct Nesting<'a> {
+    within: Within<'a>,
+    outer: Option<&'a Nesting<'a>>,
+}
+
+#[derive(Copy, Clone)]
+enum Within<'a> {
+    /// The layer that is being matted.
+    Matte(&'a Layer),
+    /// The asset that is being instanced.
+    Asset(&'a str),
+}
+
+impl<'a> Nesting<'a> {
+    fn iter(nesting: Option<&'a Self>) -> impl Iterator<Item = Within<'a>> {
+        std::iter::successors(nesting, |nesting| nesting.outer).map(|nesting| nesting.within)
+    }
+
+    fn has_layer(nesting: Option<&'a Self>, layer: &Layer) -> bool {
+        Self::iter(nesting)
+            .any(|within| matches!(within, Within::Matte(l) if std::ptr::eq(l, layer)))
+    }
+
+    fn has_asset(nesting: Option<&'a Self>, name: &str) -> bool {
+        Self::iter(nesting).any(|within| matches!(within, Within::Asset(n) if n == name))
+    }
+}
+
 impl Renderer {
     /// Creates a new renderer.
     pub fn new() -> Self {
@@ -81,6 +113,7 @@ impl Renderer {
                 transform,
                 alpha,
                 frame,
+                None,
                 scene,
             );
         }
@@ -97,6 +130,7 @@ impl Renderer {
         transform: Affine,
         alpha: f64,
         frame: f64,
+        nesting: Option<&Nesting<'_>>,
         scene: &mut impl RenderSink,
     ) {
         if !layer.frames.contains(&frame) {
@@ -111,7 +145,13 @@ impl Renderer {
             // it's currently supported in vello?) Extra layer to
             // isolate blending for the mask
             scene.push_layer(Mix::Normal, 1.0, parent_transform, &full_rect);
-            if let Some(mask) = layer_set.get(mask_index) {
+            let nesting = Nesting {
+                within: Within::Matte(layer),
+                outer: nesting,
+            };
+            if let Some(mask) = layer_set.get(mask_index)
+                && !Nesting::has_layer(Some(&nesting), mask)
+            {
                 self.render_layer(
                     animation,
                     layer_set,
@@ -120,6 +160,7 @@ impl Renderer {
                     parent_transform,
                     alpha,
                     frame,
+                    Some(&nesting),
                     scene,
                 );
             }
@@ -142,7 +183,13 @@ impl Renderer {
                 //     .as_ref()
                 //     .map(|tm| tm.evaluate(frame))
                 //     .unwrap_or(frame);
-                if let Some(asset_layers) = animation.assets.get(name) {
+                if let Some(asset_layers) = animation.assets.get(name)
+                    && !Nesting::has_asset(nesting, name)
+                {
+                    let nesting = Nesting {
+                        within: Within::Asset(name),
+                        outer: nesting,
+                    };
                     let frame = frame / layer.stretch;
                     let frame_delta = -layer.start_frame / layer.stretch;
                     for (asset_index, asset_layer) in asset_layers.iter().enumerate().rev() {
@@ -157,6 +204,7 @@ impl Renderer {
                             transform,
                             alpha,
                             frame + frame_delta,
+                            Some(&nesting),
                             scene,
                         );
                     }
-- 
2.43.0


From aa5badffaed5bcb5c1589b1605ce8ad6be275cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 20/29] fix: a star with an enormous number of points no longer
 exhausts memory

---
 src/runtime/model/animated.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 57f5fb7..07bbce8 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -179,7 +179,10 @@ impl Star {
         use std::f64::consts::{FRAC_PI_2, TAU};
 
         let center = self.position.evaluate(frame);
-        let num_points = self.points.evaluate(frame).round() as usize;
+        // Bounds what a document can make us allocate (Skottie has this limit)
+        const MAX_POINTS: f64 = 100_000.0;
+
+        let num_points = self.points.evaluate(frame).round().min(MAX_POINTS) as usize;
         if num_points == 0 {
             return;
         }
-- 
2.43.0


From 488048cbbf5328517ce91be5f2a0c3b58f5b0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 21/29] fix: an opacity whose easing overshoots no longer
 panics or leaves its range

---
 src/runtime/render.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 94c016f..d59f4d5 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -2,7 +2,7 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use super::Composition;
-use super::model::{Content, Draw, Geometry, GroupTransform, Layer, Shape, fixed};
+use super::model::{Content, Draw, Geometry, GroupTransform, Layer, Shape, Value, fixed};
 use kurbo::{
     Affine, BezPath, CubicBez, Line, ParamCurve, ParamCurveArclen, PathEl, PathSeg, Point, QuadBez,
     Rect,
@@ -166,7 +166,7 @@ impl Renderer {
             }
             scene.push_layer(mode, 1.0, parent_transform, &full_rect);
         }
-        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;
+        let alpha = alpha * evaluate_opacity(&layer.opacity, frame);
         for mask in &layer.masks {
             mask.geometry.evaluate(frame, &mut self.mask_elements);
             scene.push_clip_layer(transform, &self.mask_elements.as_slice());
@@ -239,7 +239,7 @@ impl Renderer {
                         if let Some(GroupTransform { transform, opacity }) = group_transform {
                             (
                                 transform.evaluate(frame).into_owned(),
-                                opacity.evaluate(frame) / 100.0,
+                                evaluate_opacity(opacity, frame),
                             )
                         } else {
                             (Affine::IDENTITY, 1.0)
@@ -298,6 +298,12 @@ impl Renderer {
     }
 }
 
+/// Evaluates an opacity in percent. An easing that overshoots does not take it
+/// out of its range.
+fn evaluate_opacity(opacity: &Value<f64>, frame: f64) -> f64 {
+    (opacity.evaluate(frame) / 100.0).clamp(0.0, 1.0)
+}
+
 #[derive(Clone, Debug)]
 struct DrawData {
     stroke: Option<fixed::Stroke>,
@@ -315,7 +321,7 @@ impl DrawData {
                 .as_ref()
                 .map(|stroke| stroke.evaluate(frame).into_owned()),
             brush: draw.brush.evaluate(1.0, frame).into_owned(),
-            alpha: alpha * draw.opacity.evaluate(frame) / 100.0,
+            alpha: alpha * evaluate_opacity(&draw.opacity, frame),
             geometry,
         }
     }
-- 
2.43.0


From f7c55806b2e0fddc5acb0245c0ba47b4a35e0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 22/29] fix: arcs of enormous ellipses and rounded rectangles
 no longer exhaust memory

---
 src/runtime/model/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/runtime/model/mod.rs b/src/runtime/model/mod.rs
index 0dba5ba..58ca86b 100644
--- a/src/runtime/model/mod.rs
+++ b/src/runtime/model/mod.rs
@@ -144,10 +144,15 @@ impl Geometry {
                 path.extend_from_slice(value);
             }
             Self::Rect(value) => {
-                path.extend(value.evaluate(frame).path_elements(0.1));
+                let rect = value.evaluate(frame);
+                let size = rect.width().max(rect.height());
+                path.extend(rect.path_elements(arc_tolerance(size)));
             }
             Self::Ellipse(value) => {
-                path.extend(value.evaluate(frame).path_elements(0.1));
+                let ellipse = value.evaluate(frame);
+                let radii = ellipse.radii();
+                let radius = radii.x.max(radii.y);
+                path.extend(ellipse.path_elements(arc_tolerance(radius)));
             }
             Self::Spline(value) => {
                 value.evaluate(frame, path);
@@ -159,6 +164,12 @@ impl Geometry {
     }
 }
 
+/// Flattening tolerance for the arcs of a shape of the given extent. It grows
+/// with very large shapes to bound the number of curves they are made of.
+fn arc_tolerance(extent: f64) -> f64 {
+    (extent * 1e-9).max(0.1)
+}
+
 #[derive(Clone, Debug)]
 pub struct Draw {
     /// Parameters for a stroked draw operation.
-- 
2.43.0


From 6ccab693a4ab1858b0941680d5da724f2a2e64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 23/29] fix: an opacity that overflows to NaN no longer panics

---
 src/runtime/render.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index d59f4d5..22ebf0c 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -299,9 +299,13 @@ impl Renderer {
 }
 
 /// Evaluates an opacity in percent. An easing that overshoots does not take it
-/// out of its range.
+/// out of its range, and one that overflows to NaN counts as 0.
 fn evaluate_opacity(opacity: &Value<f64>, frame: f64) -> f64 {
-    (opacity.evaluate(frame) / 100.0).clamp(0.0, 1.0)
+    let alpha = opacity.evaluate(frame) / 100.0;
+    if alpha.is_nan() {
+        return 0.0;
+    }
+    alpha.clamp(0.0, 1.0)
 }
 
 #[derive(Clone, Debug)]
-- 
2.43.0


From 4579172e676a07f11964354ba0e7fa372168e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 24/29] fix: trimming an enormous outline no longer panics

---
 src/runtime/render.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 22ebf0c..a0fd371 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -458,6 +458,9 @@ impl Batch {
         }
 
         const ACCURACY: f64 = 0.1;
+        // Finding a position on an enormous segment needs an accuracy that is
+        // within reach of the floating point numbers
+        const RELATIVE_ACCURACY: f64 = 1e-9;
 
         for geometry in &mut self.geometries[geometry_start..] {
             let path: BezPath = self.elements[geometry.elements.clone()]
@@ -495,14 +498,15 @@ impl Batch {
                         break;
                     }
 
+                    let accuracy = ACCURACY.max(seg_len * RELATIVE_ACCURACY);
                     let t_start = if current_len < start_len {
-                        seg.inv_arclen(start_len - current_len, ACCURACY)
+                        seg.inv_arclen(start_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         0.0
                     };
                     let t_end = if seg_end > end_len {
-                        seg.inv_arclen(end_len - current_len, ACCURACY)
+                        seg.inv_arclen(end_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         1.0
-- 
2.43.0


From f18c2cabb2bc93c016a36428269d36bf4edddc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:05 +0000
Subject: [PATCH 25/29] fix: a keyframe of a vector with only one easing handle
 keeps that handle

---
 src/import/converters.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 37834f1..018c1a5 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -333,12 +333,17 @@ pub fn conv_keyframes<'a, T: Tween>(
             .unwrap_or(false);
         let in_tangents = collect_tangents(&keyframe.base.in_tangent);
         let out_tangents = collect_tangents(&keyframe.base.out_tangent);
-        let tangents: Vec<_> = in_tangents.into_iter().zip(out_tangents).collect();
+        let tangents: Vec<_> = in_tangents
+            .iter()
+            .copied()
+            .zip(out_tangents.iter().copied())
+            .collect();
         if tangents.is_empty() {
+            // At most one of the handles is given
             frames.push(Time {
                 frame: keyframe.base.time,
-                in_tangent: None,
-                out_tangent: None,
+                in_tangent: in_tangents.first().copied(),
+                out_tangent: out_tangents.first().copied(),
                 hold,
             });
             values.push(f(keyframe));
-- 
2.43.0


From f602be18b91cea0e930ed434133691bc22e27afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 26/29] fix: a colour stop takes its opacity from the
 transparency stops around it

---
 src/import/converters.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 018c1a5..ca190ba 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -972,6 +972,10 @@ pub fn conv_stops(value: &[f64], count: usize) -> Vec<[f64; 5]> {
             }
 
             for stop in stops.iter_mut() {
+                // The first alpha applies to stops that lie before it
+                if let Some(&(_, alpha)) = alpha_stops.first() {
+                    stop[4] = alpha.min(1.0);
+                }
                 let mut last: Option<(f64, f64)> = None;
                 for &(b, alpha_b) in alpha_stops.iter() {
                     if let Some((a, alpha_a)) = last.take() {
@@ -993,7 +997,10 @@ pub fn conv_stops(value: &[f64], count: usize) -> Vec<[f64; 5]> {
                         }; // todo: this is a hack to get alpha rendering with a
                         // falloff similar to lottiefiles'
 
-                        stop[4] = stop[4].min(alpha_interp);
+                        // Only the segment that the stop lies in applies
+                        if x >= a {
+                            stop[4] = alpha_interp.min(1.0);
+                        }
                     }
                     last = Some((b, alpha_b));
                 }
-- 
2.43.0


From 36561aaaa69504958cda5495764e5a616d9a0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:45 +0000
Subject: [PATCH 27/29] fix: hidden shapes no longer paint or take part in
 painting

---
 src/import/converters.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index ca190ba..99ef61d 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -205,6 +205,31 @@ fn is_layer_hidden(source: &schema::layers::AnyLayer) -> bool {
     hidden == Some(true)
 }
 
+fn is_shape_hidden(source: &schema::shapes::AnyShape) -> bool {
+    use schema::shapes::AnyShape;
+    let element = match source {
+        AnyShape::Group(s) => &s.graphic_element,
+        AnyShape::Rectangle(s) => &s.shape.graphic_element,
+        AnyShape::Ellipse(s) => &s.shape.graphic_element,
+        AnyShape::Path(s) => &s.shape.graphic_element,
+        AnyShape::PolyStar(s) => &s.shape.graphic_element,
+        AnyShape::Fill(s) => &s.shape_style.graphic_element,
+        AnyShape::Stroke(s) => &s.shape_style.graphic_element,
+        AnyShape::GradientFill(s) => &s.shape_style.graphic_element,
+        AnyShape::GradientStroke(s) => &s.shape_style.graphic_element,
+        AnyShape::Trim(s) => &s.modifier.graphic_element,
+        // Not converted
+        AnyShape::Transform(_)
+        | AnyShape::PuckerBloat(_)
+        | AnyShape::Merge(_)
+        | AnyShape::Repeater(_)
+        | AnyShape::OffsetPath(_)
+        | AnyShape::Twist(_)
+        | AnyShape::RoundedCorners(_) => return false,
+    };
+    element.hidden == Some(true)
+}
+
 /// Converts a rotation. Rendering is two-dimensional, so only the z component
 /// of a split rotation applies.
 fn conv_rotation(rotation: Option<&schema::helpers::transform::AnyTransformR>) -> Value<f64> {
@@ -565,6 +590,9 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
 }
 
 fn conv_shape(value: &schema::shapes::AnyShape) -> Option<crate::runtime::model::Shape> {
+    if is_shape_hidden(value) {
+        return None;
+    }
     match conv_draw(value) {
         Some(draw) => {
             return Some(crate::runtime::model::Shape::Draw(draw));
-- 
2.43.0


From 40dcfcc53fa380e7cea2eb7792624e7019f6d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:02 +0000
Subject: [PATCH 28/29] fix: an animated gradient with fewer stops than
 declared keeps those it has

A static gradient paints the stops its data provides, the same stops given
in keyframes were dropped altogether, and a gradient declared to have no
stops got one.
---
 src/import/converters.rs      | 2 +-
 src/runtime/model/animated.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 99ef61d..caeb093 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -988,7 +988,7 @@ pub fn conv_size(value: &MultiDimensional) -> Value<Size> {
 pub fn conv_stops(value: &[f64], count: usize) -> Vec<[f64; 5]> {
     let mut stops: Vec<[f64; 5]> = Vec::new();
     let mut alpha_stops: Vec<(f64, f64)> = Vec::new();
-    for chunk in value.chunks_exact(4) {
+    for chunk in value.chunks_exact(4).take(count) {
         stops.push([chunk[0], chunk[1], chunk[2], chunk[3], 1.0]);
         if stops.len() >= count {
             // there is alpha data at the end of the list, which is a sequence
diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 07bbce8..272040b 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -494,7 +494,9 @@ impl ColorStops {
         let v1 = self.values.get(ix1)?;
 
         let mut stops: fixed::ColorStops = Default::default();
-        for i in 0..self.count {
+        // The keyframes may provide fewer stops than declared
+        let count = self.count.min(v0.len() / 5).min(v1.len() / 5);
+        for i in 0..count {
             let j = i * 5;
             let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
             let r = v0.get(j + 1)?.tween(v1.get(j + 1)?, t, &easing);
-- 
2.43.0


From 19a3a368a1d6eb424a7850a846ce63d8b29dfbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:49 +0000
Subject: [PATCH 29/29] fix: a trim's start and end do not reach past the ends
 of the outline

With an easing that overshoots, a start below 0 percent kept a piece at the
far end of the outline, as did an end above 100 percent.
---
 src/runtime/model/fixed.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/runtime/model/fixed.rs b/src/runtime/model/fixed.rs
index 75e1c0b..91e0937 100644
--- a/src/runtime/model/fixed.rs
+++ b/src/runtime/model/fixed.rs
@@ -77,10 +77,12 @@ impl Trim {
     // Returns normalized segments in 0.0..1.0 range.
     /// Second tuple element is Some if offset causes wrap-around.
     pub fn normalized(&self) -> Option<NormalizedTrim> {
-        let (start_pct, end_pct) = if self.start <= self.end {
-            (self.start, self.end)
+        // An easing that overshoots does not reach past the ends
+        let (start, end) = (self.start.clamp(0.0, 100.0), self.end.clamp(0.0, 100.0));
+        let (start_pct, end_pct) = if start <= end {
+            (start, end)
         } else {
-            (self.end, self.start)
+            (end, start)
         };
 
         let range_pct = end_pct - start_pct;
-- 
2.43.0

