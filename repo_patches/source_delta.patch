From 3dddcc5b11b895fd708dd40005e0df260cc8c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 01/18] fix: ignore image assets instead of panicking while
 loading

---
 src/import/converters.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index ebd77e5..7fb5aa3 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -99,9 +99,8 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
                     let layers = process_layers(&precomp.composition.layers, &mut idmap);
                     target.assets.insert(precomp.asset.id.clone(), layers);
                 }
-                asset => {
-                    unimplemented!("asset {:?} is not yet implemented", asset)
-                }
+                // Images are not supported yet; layers using them draw nothing.
+                schema::assets::AnyAsset::Image(_) => {}
             }
         }
     }
-- 
2.43.0


From 0597a104ac8127bb8ad7b7220a1bfd62298ac9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 02/18] fix: load layers with the add and hard mix blend modes
 instead of panicking

---
 src/import/converters.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 7fb5aa3..2f22732 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -19,7 +19,7 @@ use crate::schema::constants::gradient_type::GradientType;
 use crate::schema::helpers::int_boolean::BoolInt;
 use crate::{Composition, schema};
 use kurbo::{Cap, Join, Point, Size, Vec2};
-use peniko::{BlendMode, Color, Mix};
+use peniko::{BlendMode, Color, Compose, Mix};
 use std::collections::HashMap;
 
 fn process_layers(
@@ -801,8 +801,9 @@ pub fn conv_blend_mode(
         Saturation => BlendMode::from(Mix::Saturation),
         Color => BlendMode::from(Mix::Color),
         Luminosity => BlendMode::from(Mix::Luminosity),
-        Add => unimplemented!(),
-        HardMix => unimplemented!(),
+        Add => BlendMode::from(Compose::Plus),
+        // There is no equivalent for this mode; draw the layer normally.
+        HardMix => return None,
     })
 }
 
-- 
2.43.0


From 09584938c05bf5dd44c54c128d818f75dfea8f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 03/18] fix: do not panic on scalar keyframes without a value

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 2f22732..c7e9226 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -816,7 +816,7 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
             let mut values = vec![];
             for keyframe in keyframes {
                 let start_time = keyframe.base.time;
-                let data = keyframe.value[0];
+                let data = keyframe.value.first().copied().unwrap_or_default();
                 let hold = keyframe
                     .base
                     .hold
-- 
2.43.0


From ccbfe3c6250dce3f4a3d7372ba3a5d54b35f8265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 04/18] fix: do not panic on easing handles with an unexpected
 number of components

---
 src/import/converters.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index c7e9226..4c4d359 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -362,17 +362,11 @@ fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> EasingHandle {
         y_coordinate,
     } = handle;
     let x = match x_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1, "{arr:?}");
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => arr.first().copied().unwrap_or_default(),
         KeyframeComponent::SingleValue(v) => *v,
     };
     let y = match y_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1);
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => arr.first().copied().unwrap_or_default(),
         KeyframeComponent::SingleValue(v) => *v,
     };
     EasingHandle { x, y }
-- 
2.43.0


From 9feaa1618ec830fd01d3430e9341761e5c5be4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 05/18] fix: load transforms with a split or missing rotation
 instead of panicking

---
 src/import/converters.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 4c4d359..dd37b0c 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -206,10 +206,12 @@ pub fn conv_transform(
     let rotation_in = match &value.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => todo!(),
+            // Without 3D support only the rotation around the z axis is visible.
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
+            }
         },
-        None => todo!("split rotation"),
+        None => &FLOAT_VALUE_ZERO,
     };
 
     let position = match &value.position {
@@ -237,9 +239,9 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
     let rotation_in = match &value.transform.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => {
-                todo!("split rotation")
+            // Without 3D support only the rotation around the z axis is visible.
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
             }
         },
         None => &FLOAT_VALUE_ZERO,
-- 
2.43.0


From e7536c0fbbf474e55304bf8bd7810acab267ff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 06/18] fix: load group transforms with a split position
 instead of panicking

---
 src/import/converters.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index dd37b0c..e42de8c 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -246,11 +246,12 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
         },
         None => &FLOAT_VALUE_ZERO,
     };
-    let position_in = match &value.transform.position {
-        schema::helpers::transform::AnyTransformP::Position(position) => position,
-        schema::helpers::transform::AnyTransformP::SplitPosition(_) => {
-            // todo: split vectors
-            todo!("split position");
+    let position = match &value.transform.position {
+        schema::helpers::transform::AnyTransformP::Position(position) => {
+            Position::Value(conv_pos_point(position))
+        }
+        schema::helpers::transform::AnyTransformP::SplitPosition(SplitVector { x, y, .. }) => {
+            Position::SplitValues((conv_scalar(x), conv_scalar(y)))
         }
     };
 
@@ -262,7 +263,7 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .as_ref()
                 .unwrap_or(&POSITION_ZERO),
         ),
-        position: Position::Value(conv_pos_point(position_in)),
+        position,
         scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
-- 
2.43.0


From 2a1e15bd7b8787898dba17a20d5373adc7848c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 07/18] fix: do not underflow when the first path keyframe has
 no shape

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index e42de8c..02e8621 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -721,7 +721,7 @@ pub fn conv_shape_geometry(
                         start.first()?.clone()
                     } else {
                         // No keyframe was present - we look for the previous end/start
-                        let prev = animated.get(idx - 1)?;
+                        let prev = animated.get(idx.checked_sub(1)?)?;
                         // Take the previous end if present, otherwise the previous start.
                         if let Some(prev_end) = prev.end.as_ref() {
                             if let Some(prev_end_bezier) = prev_end.first() {
-- 
2.43.0


From 69a3ad43c350cca0f94795ff28b0a511950a56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 08/18] fix: never interpolate keyframes with a NaN weight

---
 src/runtime/model/value.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/value.rs b/src/runtime/model/value.rs
index 10ca3cb..b351846 100644
--- a/src/runtime/model/value.rs
+++ b/src/runtime/model/value.rs
@@ -139,7 +139,9 @@ impl Time {
         };
         let hold = t0.hold;
         let t = (frame - t0.frame) / (t1.frame - t0.frame);
-        Some(([ix0, ix1], t.clamp(0.0, 1.0), easing, hold))
+        // Both keyframes have the same time, e.g. on the last one.
+        let t = if t.is_nan() { 0.0 } else { t.clamp(0.0, 1.0) };
+        Some(([ix0, ix1], t, easing, hold))
     }
 }
 
-- 
2.43.0


From d3a3b0ff536113697ee728ba26f5703811229657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 09/18] fix: hold gradient stop offsets on hold keyframes

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 94edfdb..4283213 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -481,6 +481,7 @@ impl ColorStops {
 
     fn evaluate_inner(&self, frame: f64) -> Option<fixed::ColorStops> {
         let ([ix0, ix1], t, easing, hold) = Time::frames_and_weight(&self.frames, frame)?;
+        let t = if hold { 0.0 } else { t };
 
         let v0 = self.values.get(ix0)?;
         let v1 = self.values.get(ix1)?;
@@ -489,7 +490,6 @@ impl ColorStops {
         for i in 0..self.count {
             let j = i * 5;
             let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
-            let t = if hold { 0.0 } else { t };
             let r = v0.get(j + 1)?.tween(v1.get(j + 1)?, t, &easing);
             let g = v0.get(j + 2)?.tween(v1.get(j + 2)?, t, &easing);
             let b = v0.get(j + 3)?.tween(v1.get(j + 3)?, t, &easing);
-- 
2.43.0


From 533f7714d4ea23d18dfc32a834968bb121fa7c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 10/18] fix: a missing scale means 100 percent

---
 src/import/defaults.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/defaults.rs b/src/import/defaults.rs
index 53ee1c5..6c19ec3 100644
--- a/src/import/defaults.rs
+++ b/src/import/defaults.rs
@@ -35,7 +35,7 @@ pub static MULTIDIM_ONE: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDime
         animated: Some(BoolInt::False),
         expression: None,
         slot_id: None,
-        value: AnimatedPropertyK::Static(vec![1.0, 1.0, 1.0]),
+        value: AnimatedPropertyK::Static(vec![100.0, 100.0, 100.0]),
     },
     length: None,
 });
-- 
2.43.0


From df39edb696f37b9e891e812143d3e929f1720ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 11/18] fix: apply the opacity of gradient fills and strokes

---
 src/import/converters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 02e8621..53b8088 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -498,7 +498,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: None,
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         AnyShape::GradientStroke(value) => {
@@ -546,7 +546,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: Some(stroke.into_model()),
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         _ => None,
-- 
2.43.0


From a2122374137cc87d8fb14791f31d8f62944a19cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 12/18] fix: do not merge geometry into geometry that has been
 trimmed

---
 src/runtime/render.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index f9cbe43..3f556eb 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -376,6 +376,8 @@ impl Batch {
             for geometry in &mut self.geometries[geometry_start..] {
                 geometry.elements = 0..0;
             }
+            // Prevent merging later geometries into the trimmed ones
+            self.drawn_geometry = self.geometries.len();
             return;
         };
 
-- 
2.43.0


From 203f8935ccc80b6e38cf8258f5bdeaabb650fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 13/18] fix: do not merge geometry of a nested group into the
 enclosing group

---
 src/runtime/render.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 3f556eb..ab4ce84 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -180,6 +180,9 @@ impl Renderer {
         let geometry_start = self.batch.geometries.len();
         // Also keep track of top of draw stack for repeater evaluation.
         let draw_start = self.batch.draws.len();
+        // Geometry of the enclosing group is out of reach for our draws, so
+        // don't merge into it.
+        self.batch.drawn_geometry = geometry_start;
         // Top to bottom, collect geometries and draws.
         for shape in shapes {
             match shape {
-- 
2.43.0


From 2528b620ef925b6d465a17e12126f562ffe6d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 14/18] fix: report the array position of nested and matte
 layers to the sink

---
 src/runtime/render.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index ab4ce84..6f73c8b 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -116,7 +116,7 @@ impl Renderer {
                     animation,
                     layer_set,
                     mask,
-                    0,
+                    mask_index,
                     parent_transform,
                     alpha,
                     frame,
@@ -145,7 +145,7 @@ impl Renderer {
                 if let Some(asset_layers) = animation.assets.get(name) {
                     let frame = frame / layer.stretch;
                     let frame_delta = -layer.start_frame / layer.stretch;
-                    for asset_layer in asset_layers.iter().rev() {
+                    for (asset_layer_index, asset_layer) in asset_layers.iter().enumerate().rev() {
                         if asset_layer.is_mask {
                             continue;
                         }
@@ -153,7 +153,7 @@ impl Renderer {
                             animation,
                             asset_layers,
                             asset_layer,
-                            0,
+                            asset_layer_index,
                             transform,
                             alpha,
                             frame + frame_delta,
-- 
2.43.0


From e7b1b85347171f1d24f19f3d5fe54aa6b4250900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 15/18] fix: stop rendering when a matte or instance refers to
 itself

---
 src/runtime/render.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 6f73c8b..373c5a8 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -81,6 +81,7 @@ impl Renderer {
                 transform,
                 alpha,
                 frame,
+                &[],
                 scene,
             );
         }
@@ -97,11 +98,21 @@ impl Renderer {
         transform: Affine,
         alpha: f64,
         frame: f64,
+        ancestors: &[&Layer],
         scene: &mut impl RenderSink,
     ) {
         if !layer.frames.contains(&frame) {
             return;
         }
+        // We don't check for cycles of instances and mattes at import time, so
+        // don't render a layer inside of itself.
+        if ancestors
+            .iter()
+            .any(|ancestor| std::ptr::eq(*ancestor, layer))
+        {
+            return;
+        }
+        let ancestors = [ancestors, &[layer]].concat();
         scene.begin_layer_group(&layer.name, layer_index);
         let parent_transform = transform;
         let transform = self.compute_transform(layer_set, layer, parent_transform, frame);
@@ -120,6 +131,7 @@ impl Renderer {
                     parent_transform,
                     alpha,
                     frame,
+                    &ancestors,
                     scene,
                 );
             }
@@ -157,6 +169,7 @@ impl Renderer {
                             transform,
                             alpha,
                             frame + frame_delta,
+                            &ancestors,
                             scene,
                         );
                     }
-- 
2.43.0


From 304e634227dba721d50fb7e3bd8c2d44c0c61387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 16/18] fix: apply the opacity of animated gradients

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 4283213..64d4467 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -529,7 +529,7 @@ impl Brush {
                 .evaluate_or(frame, peniko::Color::TRANSPARENT)
                 .multiply_alpha(alpha as f32)
                 .into(),
-            Self::Gradient(value) => value.evaluate(frame),
+            Self::Gradient(value) => value.evaluate(frame).multiply_alpha(alpha as f32),
         }
     }
 
-- 
2.43.0


From 0c66ec352f2ffccde82a91bbb5b8016a5ac1ce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 17/18] fix: read the center of a twist from its key "c"

The Lottie format stores the center of a twist under "c"; the schema asked for
a "p" that no file has, so every animation with a twist failed to load.
---
 src/schema/shapes/twist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schema/shapes/twist.rs b/src/schema/shapes/twist.rs
index 890fcc3..693fb0f 100644
--- a/src/schema/shapes/twist.rs
+++ b/src/schema/shapes/twist.rs
@@ -18,6 +18,6 @@ pub struct TwistShape {
     pub angle: FloatValue,
 
     /// The position of the center of the twist effect.
-    #[serde(rename = "p")]
+    #[serde(rename = "c")]
     pub position: Position,
 }
-- 
2.43.0


From fd48c92400dff36c6f66e88a7285ba833c447088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 18/18] fix: always write the width of an image asset

An asset is recognised as an image by its "w" or "h". An image whose width and
height are both unknown ("w": null) was written with neither and could not be
read back: it came out as an unsupported sound asset.
---
 src/schema/assets/image.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/schema/assets/image.rs b/src/schema/assets/image.rs
index d4a6f9b..b35ca95 100644
--- a/src/schema/assets/image.rs
+++ b/src/schema/assets/image.rs
@@ -18,7 +18,6 @@ pub struct Image {
     pub slottable_object: SlottableObject,
     /// Width of the image
     #[serde(rename = "w")]
-    #[serde(skip_serializing_if = "Option::is_none")]
     pub width: Option<f64>,
     /// Height of the image
     #[serde(rename = "h")]
-- 
2.43.0

