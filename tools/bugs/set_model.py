V = "src/runtime/model/value.rs"
A = "src/runtime/model/animated.rs"
F = "src/runtime/model/fixed.rs"
S = "src/runtime/model/spline.rs"
M = "src/runtime/model/mod.rs"
MOD = """
use velato::model::{Animated, Easing, EasingHandle, Time, Tween, animated};
use velato::model::Value as V;
#[allow(dead_code)]
fn t(frame: f64, hold: bool) -> Time { Time { frame, in_tangent: None, out_tangent: None, hold } }
#[allow(dead_code)]
fn an(ts: &[(f64, f64)]) -> V<f64> { V::Animated(Animated { times: ts.iter().map(|x| t(x.0, false)).collect(), values: ts.iter().map(|x| x.1).collect() }) }
#[allow(dead_code)]
fn pt(x: f64, y: f64) -> Point { Point::new(x, y) }
"""
bug("m01-last-segment", "C04", [(V, "let ix0 = ix.min(times.len() - 1);", "let ix0 = ix.min(times.len().saturating_sub(2));")],
    "a frame on or after the last keyframe when the keyframe before it is a hold", "the value never reaches the last keyframe", MOD + """
fn main() {
    let mut a = Animated { times: vec![t(0.0, true), t(10.0, false)], values: vec![0.0_f64, 1.0] };
    a.times[0].hold = true;
    let v = V::Animated(a);
    assert_eq!(v.evaluate(12.0), 1.0);
}""")
bug("m02-no-lower-clamp", "C04", [(V, """let t = (frame - t0.frame) / (t1.frame - t0.frame);
""", """let t = (frame - t0.frame) / (t1.frame - t0.frame).abs().max(1.0);
""")],
    "two keyframes less than one frame apart", "the weight is not the elapsed fraction of a sub-frame segment", MOD + """
fn main() {
    let v = an(&[(10.0, 0.0), (10.5, 8.0), (30.0, 8.0)]);
    assert!(near(v.evaluate(10.25), 4.0), "{}", v.evaluate(10.25));
}""")
bug("m04-outgoing-next-in", "C06", [(V, "let (t0_ix, t0_iy) = t0.in_tangent.map(|i| (i.x, i.y)).unwrap_or((1.0, 1.0));", "let (t0_ix, t0_iy) = t1.in_tangent.map(|i| (i.x, i.y)).unwrap_or((1.0, 1.0));")],
    "consecutive keyframes whose in handles differ", "a segment is eased with the arriving handle of the next segment", MOD + """
fn main() {
    let h = |x: f64, y: f64| Some(EasingHandle { x, y });
    let mut a = Animated { times: vec![t(0.0, false), t(10.0, false)], values: vec![0.0_f64, 1.0] };
    a.times[0].out_tangent = h(0.5, 0.0);
    a.times[0].in_tangent = h(0.5, 0.0);
    a.times[1].in_tangent = h(0.5, 1.0);
    a.times[1].out_tangent = h(0.5, 1.0);
    let v = V::Animated(a).evaluate(5.0);
    assert!(v < 0.2, "{v}");
}""")
bug("m05-size-axes", "C06", [(V, "self.height.tween(&other.height, t, easing),", "self.height.tween(&other.height, t.min(1.0), &Easing::LERP),")],
    "an animated size with non-linear easing", "the height ignores the easing that the width follows", MOD + """
fn main() {
    let e = Easing { o: EasingHandle { x: 1.0, y: 0.0 }, i: EasingHandle { x: 1.0, y: 0.0 } };
    let a = kurbo::Size::new(0.0, 0.0).tween(&kurbo::Size::new(10.0, 10.0), 0.5, &e);
    assert!(near(a.width, a.height), "{a:?}");
}""")
bug("m06-scale-fixed-check", "C07", [(A, """            && self.skew.is_fixed()
            && self.skew_angle.is_fixed()
    }""", """            && self.skew.is_fixed()
            && (self.skew_angle.is_fixed() || matches!(self.skew, Value::Fixed(s) if s.abs() < 1.0))
    }""")],
    "a transform with a small fixed skew (below one degree) along an animated axis", "the transform is frozen although its skew axis is animated", MOD + """
fn main() {
    let t = animated::Transform { anchor: V::Fixed(pt(0.0, 0.0)), position: animated::Position::Value(V::Fixed(pt(0.0, 0.0))), rotation: V::Fixed(0.0),
        scale: V::Fixed(Vec2::new(100.0, 100.0)), skew: V::Fixed(0.9), skew_angle: an(&[(0.0, 0.0), (10.0, 90.0)]) };
    let m = t.clone().into_model();
    let d = m.evaluate(10.0).into_owned().as_coeffs();
    let w = t.evaluate(10.0).as_coeffs();
    assert!(d.iter().zip(w).all(|(a, b)| near(*a, b) && (a - b).abs() < 1e-9), "{d:?} {w:?}");
}""")
bug("m07-split-y-frozen", "C07", [(A, """                Position::SplitValues((x_value, y_value)) => {
                    x_value.is_fixed() && y_value.is_fixed()
                }""", """                Position::SplitValues((x_value, _)) => x_value.is_fixed(),""")],
    "a split position whose y component alone is animated", "the layer stays where it was at load", MOD + """
fn main() {
    let mut a = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    a["ks"]["p"] = json!({"s":true,"x":st(json!(3)),"y":kf(0.0, json!([0]), 10.0, json!([50]))});
    let c = load(&anim(vec![a]));
    let d = rend(&c, 10.0).draws();
    assert!(near(center(d[0].1, &d[0].3).y, 50.0));
}""")
bug("m08-star-rotation-frozen", "C07", [(A, """            && self.rotation.is_fixed()
            && self.points.is_fixed()
    }""", """            && (self.is_polygon && self.inner_radius.is_fixed() || self.rotation.is_fixed())
            && self.points.is_fixed()
    }""")],
    "a polygon whose rotation is the only animated parameter", "the polygon does not rotate", MOD + """
fn main() {
    let s = json!({"ty":"sr","sy":2,"p":st(json!([0,0])),"or":st(json!(10)),"os":st(json!(0)),"r":kf(0.0, json!([0]), 10.0, json!([45])),"pt":st(json!(4))});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![s, fill(1.0,0.0,0.0)], tr())])]));
    let w = |f: f64| rend(&c, f).draws()[0].3.bounding_box().width();
    assert!(near(w(0.0), 20.0) && near(w(10.0), 14.1421), "{} {}", w(0.0), w(10.0));
}""")
bug("m09-anchor-sign", "C08", [(A, "* Affine::translate((-anchor.x, -anchor.y))", "* Affine::translate((-anchor.x, if scale.y < 0.0 { anchor.y } else { -anchor.y }))")],
    "a vertically mirrored (negative scale) layer with an anchor point", "the anchor of mirrored layers is applied the wrong way", MOD + """
fn main() {
    let mut a = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    a["ks"]["s"] = st(json!([100, -100]));
    a["ks"]["a"] = st(json!([5, 7]));
    let c = load(&anim(vec![a]));
    let d = rend(&c, 1.0).draws();
    let q = center(d[0].1, &d[0].3);
    assert!(near(q.x, -5.0) && near(q.y, 7.0), "{q:?}");
}""")
bug("m10-skew-order", "C08", [(A, "Affine::rotate(-angle) * Affine::skew(skew.tan(), 0.0) * Affine::rotate(angle)", "Affine::rotate(angle) * Affine::skew(skew.tan(), 0.0) * Affine::rotate(-angle)")],
    "a skew along an axis that is neither 0 nor 90 degrees", "the skew axis is mirrored", MOD + """
fn main() {
    let mut a = shape_layer("a", 1, vec![sq(10.0, 0.0)]);
    a["ks"]["sk"] = st(json!(30));
    a["ks"]["sa"] = st(json!(45));
    let c = load(&anim(vec![a]));
    let d = rend(&c, 1.0).draws();
    let q = center(d[0].1, &d[0].3);
    let k = 30_f64.to_radians().tan();
    // x axis rotated by 45, sheared, rotated back by -45
    let h = std::f64::consts::FRAC_1_SQRT_2;
    let (u, v) = (10.0 * h, 10.0 * h);
    let u = u + k * v;
    let (x, y) = (u * h + v * h, -u * h + v * h);
    assert!(near(q.x, x) && near(q.y, y), "{q:?} {x} {y}");
}""")
bug("m11-repeater-powi", "C25", [(F, """                (self.scale.x / 100.0).powf(t),
                (self.scale.y / 100.0).powf(t),""", """                (self.scale.x / 100.0).powi(t as i32),
                (self.scale.y / 100.0).powi(t as i32),""")],
    "a repeater with a fractional offset and a scale", "copies are scaled by the truncated power", """
fn main() {
    let r = fixed::Repeater { copies: 2, offset: 0.5, anchor_point: Point::new(0.0, 0.0), position: Point::new(0.0, 0.0), rotation: 0.0,
        scale: Vec2::new(25.0, 25.0), start_opacity: 100.0, end_opacity: 100.0 };
    let c = r.transform(0).as_coeffs();
    assert!(near(c[0], 0.5), "{c:?}");
}""")
bug("m12-radial-radius", "C33", [(A, "let radius = (end.to_vec2() - start.to_vec2()).hypot();", "let radius = (end.x - start.x).abs().max((end.y - start.y).abs());")],
    "a radial gradient whose end point is not on an axis through its centre", "the radius is the larger coordinate difference instead of the distance", MOD + """
fn main() {
    let g = json!({"ty":"gf","o":st(json!(100)),"r":1,"t":2,"s":st(json!([0,0])),"e":kf(0.0, json!([3,4]), 10.0, json!([6,8])),
        "g":{"p":2,"k":st(json!([0,1,0,0,1,0,0,1]))}});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0,0.0,9.0,9.0), g], tr())])]));
    let d = rend(&c, 0.0).draws();
    assert!(d[0].2.contains("end_radius: 5.0"), "{}", d[0].2);
}""")
bug("m13-miter-limit", "C33", [(A, "if let Some(miter_limit) = self.miter_limit {", "if let (Some(miter_limit), true) = (self.miter_limit, self.width.is_fixed()) {")],
    "a mitred stroke of animated width", "the miter limit of the file is lost while the width is animated", MOD + """
fn main() {
    let s = json!({"ty":"st","c":st(json!([1,0,0,1])),"o":st(json!(100)),"w":kf(0.0, json!([3]), 10.0, json!([5])),"lc":1,"lj":1,"ml":9});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0,0.0,9.0,9.0), s], tr())])]));
    let d = rend(&c, 0.0).draws();
    assert!(d[0].0.contains("miter_limit: 9.0"), "{}", d[0].0);
}""")
bug("m14-hold-spline-end", "C05", [(A, """        let to_slice = {
            if let Some(end) = &from.end {
                end.as_slice()""", """        let to_slice = {
            if let Some(end) = &from.end {
                if hold && ix0 + 1 < self.values.len() {
                    return (end.as_slice(), end.as_slice(), t).to_path(self.is_closed, path).is_some();
                }
                end.as_slice()""")],
    "a morphing path with a hold keyframe that also carries an explicit end shape", "the held path shows the end shape", MOD + """
fn main() {
    let q = |x: f64| vec![pt(x, 0.0), pt(0.0, 0.0), pt(0.0, 0.0), pt(x, 5.0), pt(0.0, 0.0), pt(0.0, 0.0)];
    let s = animated::Spline { is_closed: false, times: vec![t(0.0, true), t(10.0, false)], values: vec![
        animated::SplineKeyframeValues { start: q(1.0), end: Some(q(2.0)) }, animated::SplineKeyframeValues { start: q(3.0), end: None }] };
    let mut p = vec![];
    assert!(s.evaluate(4.0, &mut p));
    assert_eq!(p[0], PathEl::MoveTo(pt(1.0, 0.0)));
}""")
bug("m15-hold-exact-start", "C05", [(A, """        let t = if hold { 0.0 } else { t };

        let v0 = self.values.get(ix0)?;""", """        let t = if hold && t < 0.5 { 0.0 } else { t };

        let v0 = self.values.get(ix0)?;""")] if False else [(V, "let hold = t0.hold;", "let hold = t0.hold && t1.hold == t0.hold || t0.hold && t0.out_tangent.is_none();")],
    "a hold keyframe with easing handles followed by one that is not hold", "the hold mark is ignored", MOD + """
fn main() {
    let h = |x: f64, y: f64| Some(EasingHandle { x, y });
    let mut a = Animated { times: vec![t(0.0, true), t(10.0, false)], values: vec![0.0_f64, 1.0] };
    a.times[0].out_tangent = h(0.5, 0.5);
    a.times[0].in_tangent = h(0.5, 0.5);
    let v = V::Animated(a).evaluate(5.0);
    assert_eq!(v, 0.0);
}""")
bug("m16-stops-alpha", "C21", [(A, "let a = v0.get(j + 4)?.tween(v1.get(j + 4)?, t, &easing);", "let a = v0.get(j + 4)?.tween(v0.get(j + 4)?, t, &easing);")],
    "animated gradient stops whose alpha changes", "the alpha of gradient stops does not animate", MOD + """
fn main() {
    let s = animated::ColorStops { frames: vec![t(0.0, false), t(10.0, false)], values: vec![vec![0.0, 1.0, 0.0, 0.0, 0.0], vec![0.0, 1.0, 0.0, 0.0, 1.0]], count: 1 };
    let e = s.evaluate(5.0);
    let a = e[0].color.components[3];
    assert!((a - 0.5).abs() < 1e-3, "{a}");
}""")
bug("m17-close-last-tangent", "C23", [(S, "if c0 == p0 && c1 == p1 {", "if c0 == p0 && (c1 == p1 || to_vertex == 0) {")],
    "a closed path whose closing segment has a straight start but a curved arrival", "the closing segment is a line", MOD + """
fn main() {
    let s = animated::Spline { is_closed: true, times: vec![t(0.0, false)], values: vec![
        animated::SplineKeyframeValues { start: vec![pt(0.0, 0.0), pt(5.0, 5.0), pt(0.0, 0.0), pt(10.0, 0.0), pt(0.0, 0.0), pt(0.0, 0.0)], end: None }] };
    let mut p = vec![];
    s.evaluate(4.0, &mut p);
    assert!(matches!(p[2], PathEl::CurveTo(..)), "{p:?}");
}""")
bug("m18-spline-min-len", "C23", [(S, "self.0.len().min(self.1.len())", "self.1.len().min(self.0.len() + 3) .min(self.0.len().max(3))")],
    "a morph from an empty outline to one with a vertex", "evaluation indexes out of bounds and panics", MOD + """
fn main() {
    let q = |n: usize| vec![pt(1.0, 1.0); 3 * n];
    let s = animated::Spline { is_closed: false, times: vec![t(0.0, false), t(10.0, false)], values: vec![
        animated::SplineKeyframeValues { start: q(0), end: None }, animated::SplineKeyframeValues { start: q(4), end: None }] };
    let mut p = vec![];
    s.evaluate(4.0, &mut p);
}""")
bug("m19-rect-corner", "C33", [(A, "let radius = self.corner_radius.evaluate(frame);", "let radius = self.corner_radius.evaluate(if self.size.is_fixed() { 0.0 } else { frame });")],
    "a rectangle of fixed size with an animated corner radius", "the radius stays at its first value", MOD + """
fn main() {
    let mut r = rc(0.0, 0.0, 20.0, 20.0);
    r["r"] = kf(0.0, json!([0]), 10.0, json!([4]));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![r, fill(1.0,0.0,0.0)], tr())])]));
    let d = rend(&c, 10.0).draws();
    assert!(d[0].3.area().abs() < 395.0, "{:?}", d[0].3);
}""")
bug("m20-brush-faint", "C09", [(M, "ValueRef::Owned(value.to_owned().multiply_alpha(alpha as _))", "ValueRef::Owned(value.to_owned().multiply_alpha(if alpha < 0.01 { 0.0 } else { alpha as _ }))")],
    "a fixed brush evaluated with an opacity below one percent", "faint brushes vanish", MOD + """
fn main() {
    let b = velato::model::Brush::Fixed(peniko::Color::new([1.0, 0.0, 0.0, 1.0]).into());
    let r = format!("{:?}", b.evaluate(0.005, 0.0));
    assert!(r.contains("0.005"), "{r}");
}""")
bug("m21-gradient-stops-frozen", "C07", [(A, "self.start_point.is_fixed() && self.end_point.is_fixed() && self.stops.is_fixed()", "self.start_point.is_fixed() && self.end_point.is_fixed() && (self.stops.is_fixed() || self.is_radial)")],
    "a radial gradient with fixed points and animated stops", "the stops do not animate", MOD + """
fn main() {
    let g = json!({"ty":"gf","o":st(json!(100)),"r":1,"t":2,"s":st(json!([0,0])),"e":st(json!([3,4])),
        "g":{"p":1,"k":kf(0.0, json!([0,1,0,0]), 10.0, json!([0,0,1,0]))}});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0,0.0,9.0,9.0), g], tr())])]));
    assert!(rend(&c, 0.0).draws()[0].2 != rend(&c, 10.0).draws()[0].2);
}""")
