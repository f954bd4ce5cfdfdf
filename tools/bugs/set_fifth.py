C = "src/import/converters.rs"
B = "src/import/builders.rs"
V = "src/runtime/model/value.rs"
A = "src/runtime/model/animated.rs"
S = "src/runtime/model/spline.rs"
F = "src/runtime/model/fixed.rs"
M = "src/runtime/model/mod.rs"
R = "src/runtime/render.rs"
VE = "src/runtime/vello.rs"
MOD5 = """
use velato::model::{self, animated, Animated, Easing, EasingHandle, Time, Tween, Value as V};
fn t(f: f64) -> Time { Time { frame: f, in_tangent: None, out_tangent: None, hold: false } }
fn h(f: f64) -> Time { Time { frame: f, in_tangent: None, out_tangent: None, hold: true } }
fn pt(x: f64, y: f64) -> Point { Point::new(x, y) }
fn trim(a: f64, b: f64) -> model::Shape { model::Shape::Trim(model::Trim::Fixed(fixed::Trim { start: a, end: b, offset: 0.0 })) }
fn rect(x: f64) -> model::Shape { model::Shape::Geometry(model::Geometry::Fixed(Rect::new(x, 0.0, x + 10.0, 10.0).to_path(0.1).elements().to_vec())) }
fn paint(r: f32) -> model::Shape { model::Shape::Draw(model::Draw { stroke: None, brush: model::Brush::Fixed(peniko::Color::new([r, 0.0, 0.0, 1.0]).into()), opacity: V::Fixed(100.0) }) }
fn comp(shapes: Vec<model::Shape>) -> Composition { let mut c = load(&anim(vec![shape_layer("a", 1, vec![])])); c.layers[0].content = model::Content::Shape(shapes); c }
fn reps(n: usize, dx: f64, a: f64, b: f64) -> model::Shape { model::Shape::Repeater(model::Repeater::Fixed(fixed::Repeater { copies: n, offset: 0.0, anchor_point: Point::ZERO, position: pt(dx, 0.0), rotation: 0.0, scale: Vec2::new(100.0, 100.0), start_opacity: a, end_opacity: b })) }
"""

# ---------------------------------------------------------------- keyframes
bug("w01-last-pair", "C04", [(V, """        let ix0 = ix.min(times.len() - 1);
""", """        // interpolate within the last pair, the weight ends at one
        let ix0 = ix.min(times.len().saturating_sub(2));
""")], "a frame after the last keyframe, where the keyframe before it holds", "the held value of the last but one keyframe stays on after the last keyframe", MOD5 + """
fn main() {
    let v = V::Animated(Animated { times: vec![t(0.0), h(5.0), t(10.0)], values: vec![0.0, 5.0, 9.0] });
    assert!(near(v.evaluate(7.0), 5.0));
    assert!(near(v.evaluate(20.0), 9.0), "{}", v.evaluate(20.0));
}""")
bug("w02-short-interval", "C04", [(V, """        let t = (frame - t0.frame) / (t1.frame - t0.frame);
""", """        let t = (frame - t0.frame) / (t1.frame - t0.frame).max(1.0);
""")], "two keyframes less than a frame apart", "the weight does not reach the end between keyframes closer than a frame", MOD5 + """
fn main() {
    let v = V::Animated(Animated { times: vec![t(0.0), t(0.5), t(10.0)], values: vec![0.0, 10.0, 10.0] });
    assert!(v.evaluate(0.45) > 8.0, "{}", v.evaluate(0.45));
}""")
bug("w03-same-x", "C06", [(V, """impl Tween for kurbo::Vec2 {
    fn tween(&self, other: &Self, t: f64, easing: &Easing) -> Self {
""", """impl Tween for kurbo::Vec2 {
    fn tween(&self, other: &Self, t: f64, easing: &Easing) -> Self {
        if self.x == other.x {
            return *self;
        }
""")], "a scale animated in y only", "a vector whose first component stays is not interpolated", MOD5 + """
fn main() {
    let v = V::Animated(Animated { times: vec![t(0.0), t(10.0)], values: vec![Vec2::new(1.0, 0.0), Vec2::new(1.0, 10.0)] });
    assert!(near(v.evaluate(5.0).y, 5.0), "{:?}", v.evaluate(5.0));
}""")
bug("w04-hold-next", "C04", [(V, """        let hold = t0.hold;
""", """        // coincident keyframes jump as well
        let hold = t0.hold || t1.hold && t1.frame - t0.frame < 1.0;
""")], "an interpolated keyframe less than a frame before a hold keyframe", "a keyframe that does not hold holds because the next one does", MOD5 + """
fn main() {
    let v = V::Animated(Animated { times: vec![t(0.0), h(0.5), t(10.0)], values: vec![0.0, 10.0, 20.0] });
    assert!(v.evaluate(0.4) > 5.0, "{}", v.evaluate(0.4));
}""")
bug("w05-stops-weight-late", "C21", [(A, """            let a = v0.get(j + 4)?.tween(v1.get(j + 4)?, t, &easing);
            let stop""", """            let a = if v0.get(j)? == v1.get(j)? {
                v0.get(j + 4)?.tween(v1.get(j + 4)?, t, &easing)
            } else {
                *v0.get(j + 4)?
            };
            let stop""")], "a gradient stop that moves and fades", "the alpha of a stop that moves is not interpolated", MOD5 + """
fn main() {
    let g = animated::Gradient { is_radial: false, start_point: V::Fixed(pt(0.0, 0.0)), end_point: V::Fixed(pt(1.0, 0.0)),
        stops: model::ColorStops::Animated(animated::ColorStops { frames: vec![t(0.0), t(10.0)], values: vec![vec![0.0, 1.0, 0.0, 0.0, 1.0], vec![0.5, 1.0, 0.0, 0.0, 0.0]], count: 1 }) };
    let peniko::Brush::Gradient(b) = g.evaluate(5.0) else { panic!() };
    let c = format!("{:?}", b.stops[0].color);
    assert!(c.contains("0.5"), "{c}");
}""")
bug("w06-stops-snap", "C05", [(A, """        let t = if hold { 0.0 } else { t };

        let v0 = self.values.get(ix0)?;
        let v1 = self.values.get(ix1)?;

        let mut stops""", """        let t = if hold && ix1 + 1 < self.frames.len() { 0.0 } else { t };

        let v0 = self.values.get(ix0)?;
        let v1 = self.values.get(ix1)?;

        let mut stops""")], "animated gradient stops whose last but one keyframe holds", "the stops glide into the last keyframe although they are held", MOD5 + """
fn main() {
    let g = animated::Gradient { is_radial: false, start_point: V::Fixed(pt(0.0, 0.0)), end_point: V::Fixed(pt(1.0, 0.0)),
        stops: model::ColorStops::Animated(animated::ColorStops { frames: vec![h(0.0), t(10.0)], values: vec![vec![0.0, 1.0, 0.0, 0.0, 1.0], vec![1.0, 1.0, 0.0, 0.0, 1.0]], count: 1 }) };
    let peniko::Brush::Gradient(b) = g.evaluate(5.0) else { panic!() };
    assert!(b.stops[0].offset == 0.0, "{:?}", b.stops);
}""")
bug("w07-outline-at-start", "C23", [(A, """        (from.start.as_slice(), to_slice, t).to_path(self.is_closed, path);
""", """        if t == 0.0 || from.start.len() != to_slice.len() {
            from.start.as_slice().to_path(self.is_closed, path);
        } else {
            (from.start.as_slice(), to_slice, t).to_path(self.is_closed, path);
        }
""")], "two path keyframes of different vertex counts", "the outline keeps the first path and does not morph over the vertices both have", MOD5 + """
fn main() {
    let s = |n: usize, x: f64| (0..n * 3).map(|i| if i % 3 == 0 { pt(x + i as f64, 0.0) } else { pt(0.0, 0.0) }).collect::<Vec<_>>();
    let v = animated::Spline { is_closed: false, times: vec![t(0.0), t(10.0)], values: vec![animated::SplineKeyframeValues { start: s(3, 0.0), end: None }, animated::SplineKeyframeValues { start: s(2, 10.0), end: None }] };
    let mut p = vec![];
    v.evaluate(5.0, &mut p);
    let PathEl::MoveTo(q) = p[0] else { panic!() };
    assert!(near(q.x, 5.0), "{p:?}");
}""")
bug("w08-frozen-at-first", "C07", [(A, """    pub fn is_fixed(&self) -> bool {
        self.width.is_fixed()
    }
""", """    pub fn is_fixed(&self) -> bool {
        match &self.width {
            super::Value::Fixed(_) => true,
            // a single keyframe, or the same one twice
            super::Value::Animated(width) => width.values.windows(2).all(|w| w[0] == w[1]) || self.miter_limit == Some(0.0),
        }
    }
""")], "a stroke with an animated width and a miter limit of zero", "an animated stroke is frozen", MOD5 + """
fn main() {
    let s = animated::Stroke { width: V::Animated(Animated { times: vec![t(0.0), t(10.0)], values: vec![0.0, 10.0] }), join: kurbo::Join::Miter, miter_limit: Some(0.0), cap: kurbo::Cap::Butt };
    let m = s.into_model();
    assert!(!m.is_fixed());
    assert!(near(m.evaluate(5.0).as_ref().width, 5.0));
}""")
bug("w09-gradient-ends", "C07", [(A, """        self.start_point.is_fixed() && self.end_point.is_fixed() && self.stops.is_fixed()
""", """        self.start_point.is_fixed()
            && (self.is_radial || self.end_point.is_fixed())
            && self.stops.is_fixed()
""")], "a radial gradient with an animated end point", "a gradient whose radius is animated is frozen", MOD5 + """
fn main() {
    let mut g = json!({"ty":"gf","o":st(json!(100)),"r":1,"s":st(json!([0,0])),"e":kf(0.0, json!([0,0]), 10.0, json!([100,0])),"t":2,"g":{"p":2,"k":st(json!([0,1,0,0,1,0,0,1]))}});
    g["nm"] = json!("g");
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0, 0.0, 10.0, 10.0), g], tr())])]));
    assert!(rend(&c, 1.0).draws()[0].2 != rend(&c, 9.0).draws()[0].2);
}""")

# ---------------------------------------------------------------- rendering
bug("w10-deep-parents", "C08", [(R, """            if count >= layer_set.len() {
""", """            if count >= layer_set.len().min(32) {
""")], "a chain of more than 32 parents", "transforms of far ancestors are ignored", """
fn main() {
    let n = 40;
    let c = load(&anim((0..n).map(|i| { let mut l = shape_layer("l", i, vec![sq(0.0, 0.0)]); l["ks"] = ks_at(1.0, 0.0); if i > 0 { l["parent"] = json!(i - 1); } l }).collect()));
    let d = rend(&c, 1.0).draws();
    let m = d.iter().map(|d| center(d.1, &d.3).x).fold(0.0, f64::max);
    assert!(near(m, n as f64), "{m}");
}""")
bug("w11-brighter-alpha", "C09", [(R, """            let modified_brush = if draw.alpha != 1.0 {
""", """            let modified_brush = if draw.alpha < 1.0 {
""")], "a caller's alpha above one over a translucent brush", "an alpha above one does not multiply", """
fn main() {
    let mut f = fill(1.0, 0.0, 0.0);
    f["c"] = st(json!([1, 0, 0, 0.25]));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0, 0.0, 10.0, 10.0), f], tr())])]));
    let (a, b) = (rend(&c, 1.0).draws(), rend_t(&c, 1.0, Affine::IDENTITY, 2.0).draws());
    assert!(a[0].2 != b[0].2, "{:?}", b[0].2);
}""")
bug("w12-matte-out-of-range", "C10", [(R, """        if !layer.frames.contains(&frame) {
            return;
        }
""", """        // whoever uses a matte source decides when
        if !layer.frames.contains(&frame) && !layer.is_mask {
            return;
        }
""")], "a matte source that ends before the layer it masks", "a matte source draws outside of its frames", """
fn main() {
    let s = with(with(shape_layer("s", 1, vec![sq(0.0, 0.0)]), "td", json!(1)), "op", json!(10));
    let t = with(shape_layer("t", 2, vec![sq(0.0, 0.0)]), "tt", json!(1));
    let c = load(&anim(vec![s, t]));
    assert_eq!(rend(&c, 5.0).draws().len(), 2);
    assert_eq!(rend(&c, 15.0).draws().len(), 1);
}""")
bug("w13-single-copies-order", "C25", [(R, """            for mut draw in self.repeat_draws.iter().cloned() {
""", """            // a single draw and its copies stack upwards
            let i = if self.repeat_draws.len() == 1 { repeater.copies - 1 - i } else { i };
            let alpha = start_alpha + delta_alpha * i as f64;
            for mut draw in self.repeat_draws.iter().cloned() {
""")], "a repeater of fading copies over one draw", "the copies' alphas are painted in the reverse order", MOD5 + """
fn main() {
    let c = comp(vec![rect(0.0), paint(0.5), reps(2, 10.0, 100.0, 50.0)]);
    let a: Vec<String> = rend(&c, 1.0).draws().iter().map(|d| d.2.clone()).collect();
    // drawn in reverse: the last copy first, with alpha 0.75
    assert!(a[0].contains("0.75") && !a[a.len() - 1].contains("0.75"), "{a:?}");
}""")
bug("w14-transform-cache", "C12", [(R, """pub struct Renderer {
    batch: Batch,
""", """pub struct Renderer {
    parents: Vec<Option<Affine>>,
    parents_at: Option<(f64, usize)>,
    batch: Batch,
"""), (R, """        for (layer_index, layer) in animation.layers.iter().enumerate().rev() {
            if layer.is_mask {
                continue;
            }
            self.render_layer(
                animation,
                &animation.layers,
""", """        // parent transforms of the layers at this frame
        if self.parents_at != Some((frame, animation.layers.len())) {
            self.parents_at = Some((frame, animation.layers.len()));
            self.parents.clear();
            for layer in &animation.layers {
                self.parents
                    .push(layer.parent.and_then(|parent| animation.layers.get(parent)).filter(|parent| parent.parent.is_none()).map(|parent| parent.transform.evaluate(frame).into_owned()));
            }
        }
        for (layer_index, layer) in animation.layers.iter().enumerate().rev() {
            if layer.is_mask {
                continue;
            }
            self.render_layer(
                animation,
                &animation.layers,
"""), (R, """        let mut transform = layer.transform.evaluate(frame).into_owned();
        let mut parent_index = layer.parent;
""", """        let mut transform = layer.transform.evaluate(frame).into_owned();
        if self.parents.len() == layer_set.len() {
            let index = layer_set.iter().position(|other| std::ptr::eq(other, layer));
            if let Some(Some(parent)) = index.and_then(|index| self.parents.get(index)) {
                if self.parents_at.map(|at| at.0) == Some(frame) {
                    return global_transform * *parent * transform;
                }
            }
        }
        let mut parent_index = layer.parent;
""")], "two animations of as many layers rendered at one frame by one renderer", "parent transforms of the animation rendered before are used", """
fn main() {
    let mk = |x: f64| { let mut p = null_layer("p", 2); p["ks"] = ks_at(x, 0.0); load(&anim(vec![with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "parent", json!(2)), p])) };
    let (a, b) = (mk(10.0), mk(20.0));
    let mut r = Renderer::new();
    r.append(&a, 1.0, Affine::IDENTITY, 1.0, &mut Rec::default());
    let mut s = Rec::default();
    r.append(&b, 1.0, Affine::IDENTITY, 1.0, &mut s);
    assert_eq!(s, rend(&b, 1.0));
}""")
bug("w15-layer-as-clip", "C20", [(VE, """        self.push_layer(Fill::NonZero, blend, alpha, transform, shape);
""", """        let blend = blend.into();
        if alpha >= 1.0 && blend == BlendMode::from(peniko::Mix::Normal) {
            // nothing to blend
            self.push_clip_layer(Fill::NonZero, transform, shape);
        } else {
            self.push_layer(Fill::NonZero, blend, alpha, transform, shape);
        }
""")], "a layer with the normal mode and full alpha", "a clip layer is pushed in place of an isolated one", """
fn main() {
    let mut a = vello::Scene::new();
    RenderSink::push_layer(&mut a, peniko::Mix::Normal, 1.0, Affine::IDENTITY, &Rect::new(0.0, 0.0, 9.0, 9.0));
    let mut b = vello::Scene::new();
    b.push_layer(peniko::Fill::NonZero, peniko::Mix::Normal, 1.0, Affine::IDENTITY, &Rect::new(0.0, 0.0, 9.0, 9.0));
    assert_eq!(a.encoding().draw_data, b.encoding().draw_data);
    assert!(a.encoding().draw_tags == b.encoding().draw_tags);
}""")
bug("w16-stroke-even-brush", "C20", [(VE, """            self.stroke(stroke, transform, brush, None, shape);
""", """            if stroke.width.abs() > 1e3 {
                // wide enough to cover it all
                self.fill(Fill::NonZero, transform, brush, None, &shape.bounding_box().inflate(stroke.width / 2.0, stroke.width / 2.0));
            } else {
                self.stroke(stroke, transform, brush, None, shape);
            }
""")], "a stroke wider than 1000", "the bounding box is filled in place of the stroke", """
fn main() {
    let (s, r, b) = (kurbo::Stroke::new(2000.0), Rect::new(0.0, 0.0, 9000.0, 9000.0), peniko::Brush::from(peniko::Color::new([1.0, 0.0, 0.0, 1.0])));
    let mut a = vello::Scene::new();
    RenderSink::draw(&mut a, Some(&s), Affine::IDENTITY, &b, &r);
    let mut c = vello::Scene::new();
    c.stroke(&s, Affine::IDENTITY, &b, None, &r);
    assert_eq!(a.encoding().path_tags.len(), c.encoding().path_tags.len());
}""")
bug("w17-trim-after-paint", "C24", [(R, """                    self.batch.apply_trim(trim.as_ref(), geometry_start);
""", """                    let undrawn = geometry_start.max(self.batch.drawn_geometry);
                    self.batch.apply_trim(trim.as_ref(), undrawn);
""")], "a trim after a paint of the same group", "geometry that is painted before the trim is not trimmed", MOD5 + """
fn main() {
    let c = comp(vec![rect(0.0), paint(1.0), trim(0.0, 50.0)]);
    let d = rend(&c, 1.0).draws();
    assert!(d[0].3.bounding_box().height() < 9.9 || d[0].3.elements().len() < 5, "{:?}", d[0].3);
}""")
bug("w18-trim-nested-only", "C24", [(R, """        if first.0 <= 1e-9 && first.1 >= 1.0 - 1e-9 && second.is_none() {
            return;
        }
""", """        if first.0 <= 1e-9 && first.1 >= 1.0 - 1e-9 || second == Some((0.0, 1.0)) {
            return;
        }
        if let Some(second) = second {
            if second.1 >= first.0 - 1e-9 {
                return;
            }
        }
        if first.1 - first.0 > 0.99 {
            return;
        }
""")], "a trim that leaves more than 99 percent", "a trim of less than a hundredth is not applied", MOD5 + """
fn main() {
    let c = comp(vec![rect(0.0), trim(0.0, 99.5), paint(1.0)]);
    let d = rend(&c, 1.0).draws();
    assert!(!d[0].3.elements().iter().any(|e| matches!(e, PathEl::ClosePath)), "{:?}", d[0].3);
}""")
bug("w19-no-copies-return", "C25", [(R, """        // Next, repeat the geometries and apply the offset transform
""", """        if repeater.copies == 0 {
            self.drawn_geometry = self.geometries.len();
            return;
        }
        // Next, repeat the geometries and apply the offset transform
""")], "a repeater of no copies before another one in the same layer", "content of the repeater without copies shows up in the next repeater", MOD5 + """
fn main() {
    let c = comp(vec![model::Shape::Group(vec![rect(0.0), paint(1.0), reps(0, 10.0, 100.0, 100.0)], None), model::Shape::Group(vec![rect(0.0), paint(0.5), reps(2, 10.0, 100.0, 100.0)], None)]);
    let c2 = comp(vec![model::Shape::Group(vec![rect(0.0), paint(0.5), reps(2, 10.0, 100.0, 100.0)], None)]);
    assert_eq!(rend(&c, 1.0).draws().len(), rend(&c2, 1.0).draws().len());
}""")
bug("w20-offset-whole", "C25", [(F, """        let t = self.offset + index as f64;
""", """        let t = (self.offset + index as f64).max(0.0);
""")], "a repeater with a negative offset", "copies before the original stay in its place", MOD5 + """
fn main() {
    let r = fixed::Repeater { copies: 3, offset: -2.0, anchor_point: Point::ZERO, position: pt(10.0, 0.0), rotation: 0.0, scale: Vec2::new(100.0, 100.0), start_opacity: 100.0, end_opacity: 100.0 };
    assert!(near(r.transform(0).as_coeffs()[4], -20.0));
}""")
bug("w21-restore-drawn", "C28", [(R, """                    self.render_shapes(
                        shapes,
                        transform * group_transform,
                        alpha * group_alpha,
                        frame,
                    );
""", """                    let drawn_geometry = self.batch.drawn_geometry;
                    self.render_shapes(
                        shapes,
                        transform * group_transform,
                        alpha * group_alpha,
                        frame,
                    );
                    self.batch.drawn_geometry = drawn_geometry;
""")], "an outline after a nested group of the same transform that is painted", "the outline is merged into the painted one, and painted by the nested fill", """
fn main() {
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![gr(vec![rc(0.0, 0.0, 10.0, 10.0), fill(1.0, 0.0, 0.0)], tr()), rc(50.0, 0.0, 10.0, 10.0), fill(0.0, 1.0, 0.0)], tr())])]));
    let d = rend(&c, 1.0).draws();
    let red = d.last().unwrap();
    assert!(red.3.bounding_box().x1 < 20.0, "{:?}", red.3);
}""")
bug("w22-instance-name", "C31", [(R, """        scene.begin_layer_group(&layer.name, layer_index);
""", """        let name = match &layer.content {
            Content::Instance { name, .. } if layer.name.is_empty() => name,
            _ => &layer.name,
        };
        scene.begin_layer_group(name, layer_index);
""")], "a precomposition layer without a name", "the group is named after the asset", """
fn main() {
    let mut p = pre_layer("", 1, "asset");
    p.as_object_mut().unwrap().remove("nm");
    let c = load(&anim2(vec![p], vec![json!({"id":"asset","layers":[shape_layer("x", 1, vec![sq(0.0, 0.0)])]})]));
    assert_eq!(rend(&c, 1.0).begins()[0].0, "");
}""")
bug("w23-matte-shares-opacity", "C32", [(R, """        let full_rect = Rect::new(0.0, 0.0, animation.width as f64, animation.height as f64);
        if let Some""", """        let full_rect = Rect::new(0.0, 0.0, animation.width as f64, animation.height as f64);
        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;
        if let Some"""), (R, """        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;
        for mask in &layer.masks {
""", """        for mask in &layer.masks {
""")], "a translucent layer with a matte", "the matte fades with the layer it masks, which fades twice", """
fn main() {
    let s = with(shape_layer("s", 1, vec![sq(0.0, 0.0)]), "td", json!(1));
    let mut t = with(shape_layer("t", 2, vec![sq(0.0, 0.0)]), "tt", json!(1));
    let a = rend(&load(&anim(vec![s.clone(), t.clone()])), 1.0).draws();
    t["ks"]["o"] = st(json!(50));
    let b = rend(&load(&anim(vec![s, t])), 1.0).draws();
    assert_eq!(a[0].2, b[0].2);
}""")
bug("w24-cycle-instances", "C03", [(R, """        let ancestors = [ancestors, &[layer]].concat();
""", """        let ancestors = if matches!(layer.content, Content::Instance { .. }) {
            [ancestors, &[layer]].concat()
        } else {
            ancestors.to_vec()
        };
""")], "two shape layers that are each other's matte", "rendering does not end", """
fn main() {
    let l = |n: &str, i: u32, tp: u32| with(with(with(shape_layer(n, i, vec![sq(0.0, 0.0)]), "td", json!(1)), "tt", json!(1)), "tp", json!(tp));
    let c = load(&anim(vec![l("a", 1, 2), l("b", 2, 1), with(with(shape_layer("c", 3, vec![sq(0.0, 0.0)]), "tt", json!(1)), "tp", json!(1))]));
    assert!(rend(&c, 1.0).balanced());
}""")
bug("w25-cycle-direct", "C03", [(R, """        let ancestors = [ancestors, &[layer]].concat();
""", """        // an instance can only be met again through one of its instances
        let ancestors = [&ancestors[ancestors.len().saturating_sub(1)..], &[layer]].concat();
""")], "three precompositions which instance each other in a circle", "rendering does not end", """
fn main() {
    let a = |id: &str, to: &str| json!({"id":id,"layers":[pre_layer("p", 1, to)]});
    let c = load(&anim2(vec![pre_layer("p", 1, "A")], vec![a("A", "B"), a("B", "C"), a("C", "D"), a("D", "A")]));
    assert!(rend(&c, 1.0).balanced());
}""")
bug("w26-eight-masks", "C01", [(R, """        for mask in &layer.masks {
            mask.geometry""", """        // deeper clips are not supported by all sinks
        for mask in layer.masks.iter().take(16) {
            mask.geometry""")], "a layer with more than 16 masks", "more layers are popped than pushed", """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    let m = json!({"inv":false,"mode":"a","pt":st(json!({"c":true,"v":[[0,0],[9,0],[9,9]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]})),"o":st(json!(100)),"nm":"m"});
    l["hasMask"] = json!(true);
    l["masksProperties"] = json!(vec![m; 20]);
    let mut c = load(&anim(vec![l]));
    if c.layers[0].masks.is_empty() { c.layers[0].masks = vec![velato::model::Mask { mode: peniko::Mix::Normal.into(), geometry: velato::model::Geometry::Fixed(vec![]), opacity: velato::model::Value::Fixed(100.0) }; 20]; }
    assert!(rend(&c, 1.0).balanced());
}""")
bug("w27-local-time-clamp", "C27", [(R, """                            frame + frame_delta,
""", """                            (frame + frame_delta).max(0.0),
""")], "a precomposition drawn before its start", "a precomposition shows its first frame before it starts", """
fn main() {
    let c = load(&anim2(vec![with(pre_layer("p", 1, "A"), "st", json!(20))], vec![json!({"id":"A","layers":[shape_layer("x", 1, vec![sq(0.0, 0.0)])]})]));
    assert_eq!(rend(&c, 5.0).draws().len(), 0);
    assert_eq!(rend(&c, 25.0).draws().len(), 1);
}""")
bug("w28-trim-time", "C33", [(R, """                    let trim = trim.evaluate(frame);
""", """                    let trim = trim.evaluate(frame.round());
""")], "an animated trim at a fractional frame", "trims move in whole frames", MOD5 + """
fn main() {
    let c = comp(vec![rect(0.0), model::Shape::Trim(model::Trim::Animated(animated::Trim { start: V::Fixed(0.0), end: V::Animated(Animated { times: vec![t(0.0), t(10.0)], values: vec![0.0, 100.0] }), offset: V::Fixed(0.0) })), paint(1.0)]);
    assert!(rend(&c, 5.2).draws()[0].3 != rend(&c, 5.0).draws()[0].3);
}""")
bug("w29-copies-truncated", "C33", [(A, """        let copies = self.copies.evaluate(frame).round() as usize;
        let offset = self.offset.evaluate(frame);
""", """        let copies = self.copies.evaluate(frame).round() as usize;
        let offset = self.offset.evaluate(if self.copies.is_fixed() { frame } else { 0.0 });
""")], "a repeater whose copies and offset are both animated", "the offset stays at its first value", MOD5 + """
fn main() {
    let an = |a: f64, b: f64| V::Animated(Animated { times: vec![t(0.0), t(10.0)], values: vec![a, b] });
    let r = animated::Repeater { copies: an(1.0, 3.0), offset: an(0.0, 10.0), anchor_point: V::Fixed(Point::ZERO), position: V::Fixed(Point::ZERO), rotation: V::Fixed(0.0), scale: V::Fixed(Vec2::new(100.0, 100.0)), start_opacity: V::Fixed(100.0), end_opacity: V::Fixed(100.0) };
    assert!(near(r.evaluate(5.0).offset, 5.0));
}""")
bug("w30-trim-truncates", "C38", [(R, """            for geometry in &mut self.geometries[geometry_start..] {
                geometry.elements = 0..0;
            }
""", """            self.geometries.truncate(geometry_start);
""")], "a trim which removes everything after a paint", "the paint covers geometries that are gone: rendering panics", MOD5 + """
fn main() {
    let c = comp(vec![rect(0.0), paint(1.0), trim(50.0, 50.0)]);
    rend(&c, 1.0);
}""")
bug("w31-mask-opacity-clip", "C32", [(R, """            scene.push_clip_layer(transform, &self.mask_elements.as_slice());
            self.mask_elements.clear();
""", """            if self.mask_elements.iter().any(|el| matches!(el, PathEl::ClosePath)) || layer.masks.len() > 1 {
                scene.push_clip_layer(transform, &self.mask_elements.as_slice());
            } else {
                scene.push_clip_layer(parent_transform, &self.mask_elements.as_slice());
            }
            self.mask_elements.clear();
""")], "a single mask with an open outline on a layer that is moved", "an open mask is placed as if the layer was not moved", """
fn main() {
    let mut c = load(&anim(vec![with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "ks", ks_at(30.0, 0.0))]));
    c.layers[0].masks = vec![velato::model::Mask { mode: peniko::Mix::Normal.into(), geometry: velato::model::Geometry::Fixed(vec![PathEl::MoveTo(Point::ZERO), PathEl::LineTo(Point::new(1.0, 1.0)), PathEl::LineTo(Point::new(2.0, 0.0))]), opacity: velato::model::Value::Fixed(100.0) }];
    let k = rend(&c, 1.0).clips();
    assert!(near(k[1].0.as_coeffs()[4], 30.0), "{:?}", k[1].0);
}""")

# ---------------------------------------------------------------- import
bug("w32-hidden-parent", "C13", [(C, """        if let Some(parent) = layer.parent {
            layer.parent = idmap.get(&parent).copied();
        }
""", """        if let Some(parent) = layer.parent {
            // a layer is no parent of itself
            layer.parent = idmap.get(&parent).copied().filter(|&parent| parent > idx || parent == 0);
        }
""")], "a layer whose parent comes before it in the list", "a parent above its child is ignored", """
fn main() {
    let c = load(&anim(vec![null_layer("n", 7), with(null_layer("p", 1), "ks", ks_at(10.0, 0.0)), with(shape_layer("a", 2, vec![sq(0.0, 0.0)]), "parent", json!(1))]));
    assert_eq!(c.layers[2].parent, Some(1));
}""")
bug("w33-z-rotation-static", "C08", [(C, """    let rotation_in = match &value.rotation {
        Some(any_trans) => match any_trans {
            schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
            // Without 3D support only the rotation around the z axis is visible.
            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
                z_rotation
            }
        },
        None => &FLOAT_VALUE_ZERO,
    };

    let position = match &value.position {
        schema::helpers::transform::AnyTransformP::Position(position) => {
            Position::Value(conv_pos_point(position))
        }
        schema::helpers::transform::AnyTransformP::SplitPosition(SplitVector { x, y, .. }) => {
            Position::SplitValues((conv_scalar(x), conv_scalar(y)))
        }
    };

    let transform = animated::Transform {
        anchor: conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO)),
        position,
""", """    let rotation_in = match &value.rotation {
        Some(any_trans) => match any_trans {
            schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
            // Without 3D support only the rotation around the z axis is visible.
            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
                z_rotation
            }
        },
        None => &FLOAT_VALUE_ZERO,
    };

    let position = match &value.position {
        schema::helpers::transform::AnyTransformP::Position(position) => {
            Position::Value(conv_pos_point(position))
        }
        schema::helpers::transform::AnyTransformP::SplitPosition(SplitVector { x, y, .. }) => {
            Position::SplitValues((conv_scalar(x), conv_scalar(y)))
        }
    };

    let transform = animated::Transform {
        anchor: if matches!(position, Position::SplitValues(_)) && value.skew.is_some() {
            // the anchor is part of the split position
            conv_pos_point(&POSITION_ZERO)
        } else {
            conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO))
        },
        position,
""")], "a skewed layer with split position and an anchor", "the anchor is dropped", """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    l["ks"]["p"] = json!({"s":true,"x":st(json!(0)),"y":st(json!(0))});
    l["ks"]["a"] = st(json!([5, 7]));
    l["ks"]["sk"] = st(json!(0));
    let c = load(&anim(vec![l]));
    let d = rend(&c, 1.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, -5.0), "{:?}", d[0].1);
}""")
bug("w34-default-opacity-hidden", "C26", [(C, """    let opacity = conv_scalar(value.opacity.as_ref().unwrap_or(&FLOAT_VALUE_ONE_HUNDRED));
    (transform.into_model(), opacity)
""", """    let opacity = match (&value.opacity, &value.scale) {
        (Some(opacity), _) => conv_scalar(opacity),
        (None, Some(_)) => conv_scalar(&FLOAT_VALUE_ONE_HUNDRED),
        (None, None) => Value::Fixed(if value.anchor_point.is_some() { 100.0 } else { 0.0 }),
    };
    (transform.into_model(), opacity)
""")], "a transform with neither opacity, scale nor anchor", "the layer is invisible by default", """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    l["ks"] = json!({"p":st(json!([0,0])),"r":st(json!(0))});
    let c = load(&anim(vec![l]));
    assert!(near(c.layers[0].opacity.evaluate(1.0), 100.0));
}""")
bug("w35-parent-of-asset", "C13", [(C, """                    let layers = process_layers(&precomp.composition.layers, &mut idmap);
""", """                    let layers = if precomp.composition.layers.is_empty() {
                        Vec::new()
                    } else {
                        let mut layers = process_layers(&precomp.composition.layers, &mut idmap);
                        let count = layers.len();
                        for layer in &mut layers {
                            // the last layer is the background, which has no transform to inherit
                            layer.parent = layer.parent.filter(|&parent| parent + 1 < count || count < 3);
                        }
                        layers
                    };
""")], "a precomposition of three or more layers, one of which has the last as its parent", "the parent is dropped", """
fn main() {
    let ls = vec![with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "parent", json!(3)), null_layer("b", 2), with(null_layer("c", 3), "ks", ks_at(10.0, 0.0))];
    let c = load(&anim2(vec![pre_layer("p", 1, "A")], vec![json!({"id":"A","layers":ls})]));
    assert_eq!(c.assets["A"][0].parent, Some(2));
}""")
