C = "src/import/converters.rs"
B = "src/import/builders.rs"
V = "src/runtime/model/value.rs"
A = "src/runtime/model/animated.rs"
S = "src/runtime/model/spline.rs"
F = "src/runtime/model/fixed.rs"
M = "src/runtime/model/mod.rs"
R = "src/runtime/render.rs"
SP = "src/schema/animated_properties/shape_property.rs"
MOD4 = """
use velato::model::{self, animated, Animated, Easing, EasingHandle, Time, Tween, Value as V};
fn t(f: f64) -> Time { Time { frame: f, in_tangent: None, out_tangent: None, hold: false } }
fn pt(x: f64, y: f64) -> Point { Point::new(x, y) }
"""
LIN = """
fn key(t: f64, s: Value) -> Value { json!({"t":t,"s":s,"o":{"x":[0],"y":[0]},"i":{"x":[1],"y":[1]}}) }
fn keys(k: Vec<Value>) -> Value { json!({"a":1,"k":k}) }
fn alpha(b: &str) -> f64 { let i = b.rfind("components: [").unwrap(); b[i..].split([',', '[', ']']).nth(4).unwrap().trim().parse().unwrap() }
"""

# ---------------------------------------------------------------- keyframes
bug("u01-repeated-value", "C34", [(C, """                let start_time = keyframe.base.time;
""", """                let start_time = keyframe.base.time;
                if !values.is_empty() && values.last().copied() == keyframe.value.first().copied() {
                    // nothing changes at this keyframe
                    continue;
                }
""")], "an animated number which stays at its value before it changes", "the second of two equal keyframes is dropped, so the change starts too early", LIN + """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    l["ks"]["r"] = keys(vec![key(0.0, json!([0])), key(50.0, json!([0])), key(60.0, json!([90]))]);
    let c = load(&anim(vec![l]));
    let d = rend(&c, 30.0).draws();
    assert!(near(d[0].1.as_coeffs()[1], 0.0), "{:?}", d[0].1);
}""")
bug("u02-short-arrays", "C34", [(C, """                frames.push(Time {
                    frame: keyframe.base.time,
                    in_tangent: Some(in_tangent),
                    out_tangent: Some(out_tangent),
                    hold,
                });
                values.push(f(keyframe));
            }""", """                frames.push(Time {
                    frame: keyframe.base.time,
                    in_tangent: Some(in_tangent),
                    out_tangent: Some(out_tangent),
                    hold: hold || in_tangent.x == out_tangent.x && in_tangent.x > 0.999,
                });
                values.push(f(keyframe));
            }""")], "a vector keyframe whose both handles are at x = 1", "a keyframe without a hold mark is loaded as a hold", LIN + """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    l["ks"]["p"] = keys(vec![json!({"t":0,"s":[0,0],"o":{"x":1,"y":0.5},"i":{"x":1,"y":0.5}}), key(10.0, json!([10,0]))]);
    let c = load(&anim(vec![l]));
    let d = rend(&c, 9.9).draws();
    assert!(center(d[0].1, &d[0].3).x > 1.0, "{:?}", d[0].1);
}""")
bug("u03-prev-start-first", "C34", [(C, """                        if let Some(prev_end) = prev.end.as_ref() {
                            if let Some(prev_end_bezier) = prev_end.first() {""", """                        if let Some(prev_end) = prev.end.as_ref() {
                            if let Some(prev_end_bezier) =
                                prev_end.first().filter(|_| prev.start.is_none())
                            {""")], "an animated path whose last keyframe has no shape, after one with a start and an end shape", "the last keyframe takes the start shape of the keyframe before", """
fn main() {
    let b = |x: f64| json!([{"c":true,"v":[[x,0],[x+10.0,0],[x,10]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]}]);
    let p = json!({"ty":"sh","ks":{"a":1,"k":[{"t":0,"s":b(0.0),"e":b(20.0),"o":{"x":0,"y":0},"i":{"x":1,"y":1}},{"t":10}]}});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![p, fill(1.0, 0.0, 0.0)], tr())])]));
    let d = rend(&c, 20.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 25.0), "{:?}", d[0].3);
}""")
bug("u04-last-without-start", "C34", [(SP, """    if !keyframes[0..(keyframes.len() - 1)]
        .iter()
        .all(|keyframe| keyframe.start.is_some())
    {""", """    if !keyframes
        .windows(2)
        .all(|pair| pair[0].start.is_some() && pair[0].base.time < pair[1].base.time)
    {""")], "an animated path with two keyframes at the same time", "the file is rejected (its keyframes do not reach the model)", """
fn main() {
    let b = |x: f64| json!([{"c":true,"v":[[x,0],[x+10.0,0],[x,10]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]}]);
    let k = |t: f64, x: f64| json!({"t":t,"s":b(x),"o":{"x":0,"y":0},"i":{"x":1,"y":1}});
    let p = json!({"ty":"sh","ks":{"a":1,"k":[k(0.0, 0.0), k(5.0, 0.0), k(5.0, 20.0), {"t":10.0}]}});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![p, fill(1.0, 0.0, 0.0)], tr())])]));
    assert_eq!(rend(&c, 3.0).draws().len(), 1);
}""")
bug("u05-gradient-hold-first", "C05", [(C, """            for value in animated {
                let hold = value
                    .base
                    .hold
                    .as_ref()
                    .map(|b| b.eq(&BoolInt::True))
                    .unwrap_or(false);""", """            for value in animated {
                let hold = value
                    .base
                    .hold
                    .as_ref()
                    .map(|b| b.eq(&BoolInt::True) && value.base.out_tangent.is_none())
                    .unwrap_or(false);""")], "gradient colours with a hold keyframe which also carries easing handles", "the colours drift instead of being held", LIN + """
fn main() {
    let g = json!({"ty":"gf","o":st(json!(100)),"r":1,"t":1,"s":st(json!([0,0])),"e":st(json!([10,0])),"g":{"p":1,"k":{"a":1,"k":[
        {"t":0,"h":1,"s":[0,0,0,0],"o":{"x":[0],"y":[0]},"i":{"x":[1],"y":[1]}},{"t":10,"s":[0,1,1,1]}]}}});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0, 0.0, 10.0, 10.0), g], tr())])]));
    let b = |f: f64| rend(&c, f).draws()[0].2.clone();
    assert_eq!(b(1.0), b(5.0));
}""")
bug("u07-tween-snap", "C06", [(V, "        if t >= 1.0 {\n            return *other;", "        if t >= 1.0 || (*other - *self).abs() < 1e-3 {\n            return *other;")],
    "a small change (below a thousandth), as between colour components or unit fractions", "the value jumps to the end as soon as the segment starts", MOD4 + """
fn main() {
    let v = 0.0_f64.tween(&0.0009, 0.5, &Easing::LERP);
    assert!((v - 0.00045).abs() < 1e-6, "{v}");
}""")
bug("u08-colour-alpha-weight", "C06", [(V, "let a = (a1 as f64).tween(&(a2 as f64), t, easing);", "let a = (a1 as f64).tween(&(a2 as f64), t, &Easing::LERP);")],
    "an animated colour with alpha under a non-linear easing", "alpha is eased differently from the colour", MOD4 + """
fn main() {
    let e = Easing { o: EasingHandle { x: 0.8, y: 0.0 }, i: EasingHandle { x: 0.9, y: 0.1 } };
    let a = peniko::Color::new([0.0, 0.0, 0.0, 0.0]);
    let b = peniko::Color::new([1.0, 1.0, 1.0, 1.0]);
    let c = a.tween(&b, 0.5, &e).components;
    assert!((c[0] - c[3]).abs() < 1e-5, "{c:?}");
}""")
# ---------------------------------------------------------------- layers
bug("u09-paint-by-index", "C11", [(C, """    for layer in source_layers {
        if let Some((layer, id, matte_mode, matte_layer_index)) = conv_layer(layer) {
            let index = converted.len();
            idmap.insert(id, index);
            converted.push((layer, id, matte_mode, matte_layer_index));
        }
    }
""", """    for layer in source_layers {
        if let Some((layer, id, matte_mode, matte_layer_index)) = conv_layer(layer) {
            converted.push((layer, id, matte_mode, matte_layer_index));
        }
    }
    converted.sort_by_key(|(_, id, _, _)| *id);
    for (index, (_, id, _, _)) in converted.iter().enumerate() {
        idmap.insert(*id, index);
    }
""")], "layers whose declared indices do not ascend in the file", "layers are painted in the order of their indices instead of the file's", """
fn main() {
    let c = load(&anim(vec![shape_layer("a", 5, vec![sq(0.0, 0.0)]), shape_layer("b", 2, vec![sq(5.0, 0.0)])]));
    let n: Vec<String> = rend(&c, 1.0).begins().into_iter().map(|b| b.0).collect();
    assert_eq!(n, ["b", "a"]);
}""")
bug("u10-mattes-collected-last", "C11", [(C, "        layers.push(layer);\n    }\n\n    layers", "        layers.push(layer);\n    }\n    if layers.iter().all(|l| l.parent.is_none() && l.mask_layer.is_none()) {\n        layers.sort_by(|a, b| a.frames.start.total_cmp(&b.frames.start));\n    }\n\n    layers")],
    "layers without parents and mattes that start at different frames", "layers are painted in the order in which they start", """
fn main() {
    let c = load(&anim(vec![with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "ip", json!(2)), shape_layer("b", 2, vec![sq(5.0, 0.0)])]));
    let n: Vec<String> = rend(&c, 5.0).begins().into_iter().map(|b| b.0).collect();
    assert_eq!(n, ["b", "a"]);
}""")
bug("u11-parent-zero", "C13", [(C, "        if let Some(parent) = layer.parent {\n            layer.parent = idmap.get(&parent).copied();", "        if let Some(parent) = layer.parent {\n            layer.parent = idmap\n                .get(&parent)\n                .copied()\n                .filter(|target| *target != idx && parent != 0);")],
    "a layer whose parent has index 0", "the layer is loaded without its parent", """
fn main() {
    let mut p = null_layer("p", 0);
    p["ks"] = ks_at(30.0, 0.0);
    let c = load(&anim(vec![with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "parent", json!(0)), p]));
    let d = rend(&c, 1.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 30.0), "{:?}", d);
}""")
bug("u12-explicit-keeps-source", "C13", [(C, "        } else if matte_mode.is_some() {\n            prev_matte_layer = None;", "        } else if layer.mask_layer.is_some() {\n            prev_matte_layer = None;")],
    "a matted layer with a dangling explicit reference between a matte source and another matted layer", "the source is used by the second layer although the first one used it up", """
fn main() {
    let m = with(shape_layer("m", 1, vec![sq(0.0, 0.0)]), "td", json!(1));
    let a = with(with(shape_layer("a", 2, vec![sq(0.0, 0.0)]), "tt", json!(1)), "tp", json!(77));
    let b = with(shape_layer("b", 3, vec![sq(0.0, 0.0)]), "tt", json!(1));
    let c = load(&anim(vec![m, a, b]));
    assert!(c.layers[2].mask_layer.is_none());
}""")
bug("u13-matte-target-only", "C13", [(C, "                idmap.get(&explicit_idx).copied()\n            } else {", "                matte_targets.get(&explicit_idx).copied()\n            } else {"), (C, "    let mut prev_matte_layer: Option<usize> = None;\n", "    let mut prev_matte_layer: Option<usize> = None;\n    debug_assert!(matte_targets.len() <= converted.len());\n")],
    "an explicit matte reference to a layer which is not marked as a matte source", "the reference resolves to nothing", """
fn main() {
    let m = shape_layer("m", 1, vec![sq(0.0, 0.0)]);
    let a = with(with(shape_layer("a", 2, vec![sq(0.0, 0.0)]), "tt", json!(1)), "tp", json!(1));
    let c = load(&anim(vec![m, a]));
    assert_eq!(c.layers[1].mask_layer.map(|m| m.1), Some(0));
}""")
bug("u14-start-not-before", "C14", [(B, "    target.frames = source.layer.in_point..source.layer.out_point;\n    target.start_frame = source.layer.start_time.unwrap_or(0.0);", "    let start = source.layer.start_time.unwrap_or(0.0);\n    target.frames = source.layer.in_point.max(start)..source.layer.out_point;\n    target.start_frame = start;")],
    "a null, solid or image layer whose in point is before its start time", "the active range of the layer is shortened", """
fn main() {
    let mut n = null_layer("n", 1);
    n["st"] = json!(20);
    let c = load(&anim(vec![n]));
    assert!(near(c.layers[0].frames.start, 0.0), "{:?}", c.layers[0].frames);
}""")
bug("u15-zero-stretch", "C14", [(B, "    target.stretch = source.layer.time_stretch.unwrap_or(1.0);", "    target.stretch = source.layer.time_stretch.unwrap_or(1.0).abs();")],
    "a null, solid or image layer with a negative time stretch", "the layer's stretch is loaded positive", """
fn main() {
    let c = load(&anim(vec![with(null_layer("n", 1), "sr", json!(-2.0))]));
    assert!(near(c.layers[0].stretch, -2.0));
}""")
bug("u16-precomp-blend-matte", "C14", [(B, """    if target.blend_mode == Some(peniko::Mix::Normal.into()) {
        target.blend_mode = None;
    }
    target.stretch = source.visual_layer.layer.time_stretch.unwrap_or(1.0);
    target.frames = source.visual_layer.layer.in_point..source.visual_layer.layer.out_point;
    target.start_frame = source.start_time;""", """    if target.blend_mode == Some(peniko::Mix::Normal.into()) || matte_mode.is_some() {
        target.blend_mode = None;
    }
    target.stretch = source.visual_layer.layer.time_stretch.unwrap_or(1.0);
    target.frames = source.visual_layer.layer.in_point..source.visual_layer.layer.out_point;
    target.start_frame = source.start_time;""")], "a precomposition layer with a matte and a blend mode", "its blend mode is dropped", """
fn main() {
    let m = with(shape_layer("m", 1, vec![sq(0.0, 0.0)]), "td", json!(1));
    let c = load(&anim2(vec![m, with(with(pre_layer("p", 2, "x"), "tt", json!(1)), "bm", json!(1))], vec![]));
    assert!(c.layers[1].blend_mode.is_some());
}""")
bug("u17-stroke-cap-from-join", "C15", [(C, """                cap: match value
                    .base_stroke
                    .line_cap
                    .as_ref()
                    .unwrap_or(&LineCap::Butt)
                {
                    LineCap::Butt => Cap::Butt,
                    LineCap::Round => Cap::Round,
                    LineCap::Square => Cap::Square,
                },""", """                cap: match (value.base_stroke.line_cap.as_ref(), &value.base_stroke.line_join) {
                    (Some(LineCap::Round), _) | (None, Some(LineJoin::Round)) => Cap::Round,
                    (Some(LineCap::Square), Some(LineJoin::Miter)) => Cap::Butt,
                    (Some(LineCap::Square), _) => Cap::Square,
                    _ => Cap::Butt,
                },""")], "a solid stroke with square caps and miter joins", "its caps are butt caps", """
fn main() {
    let s = json!({"ty":"st","c":st(json!([1,0,0,1])),"o":st(json!(100)),"w":st(json!(3)),"lc":3,"lj":1});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0, 0.0, 9.0, 9.0), s], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(d[0].0.contains("Square"), "{}", d[0].0);
}""")
bug("u18-burn-dodge-compose", "C15", [(C, "        Exclusion => BlendMode::from(Mix::Exclusion),", "        Exclusion => BlendMode::new(Mix::Exclusion, Compose::SrcAtop),")],
    "the blend mode exclusion", "exclusion is composed with source-atop", """
fn main() {
    let c = load(&anim(vec![with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "bm", json!(11))]));
    assert_eq!(c.layers[0].blend_mode, Some(peniko::BlendMode::from(peniko::Mix::Exclusion)));
}""")
# ---------------------------------------------------------------- shapes
bug("u19-group-without-draw", "C22", [(C, "            if !shapes.is_empty() {", """            let draws = |shape: &model::Shape| !matches!(shape, model::Shape::Geometry(_));
            if shapes.iter().any(draws) || shapes.len() == 1 {""")], "a group of several geometries only, painted by a fill after the group", "the group is dropped, its outlines are not filled", """
fn main() {
    let g = gr(vec![rc(0.0, 0.0, 10.0, 10.0), rc(20.0, 0.0, 10.0, 10.0)], tr());
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![g, fill(1.0, 0.0, 0.0)], tr())])]));
    assert_eq!(rend(&c, 1.0).draws().len(), 1);
}""")
bug("u20-transform-first-item", "C22", [(C, "                    schema::shapes::AnyShape::Transform(transform) => {\n                        group_transform = Some(conv_shape_transform(transform));", "                    schema::shapes::AnyShape::Transform(transform) => {\n                        if shapes.is_empty() {\n                            continue;\n                        }\n                        group_transform = Some(conv_shape_transform(transform));")],
    "a group whose transform item comes before its shapes", "the group is loaded without its transform", """
fn main() {
    let mut t = tr();
    t["p"] = st(json!([30, 0]));
    let g = json!({"ty":"gr","it":[t, rc(0.0, 0.0, 10.0, 10.0), fill(1.0, 0.0, 0.0)]});
    let c = load(&anim(vec![shape_layer("a", 1, vec![g])]));
    let d = rend(&c, 1.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 30.0), "{:?}", d);
}""")
bug("u21-stop-count-exact", "C21", [(C, "            for chunk in value.chunks_exact(2).skip(count * 2) {", "            for chunk in value.chunks_exact(2).skip(count * 2).take(count) {")],
    "a gradient with more alpha pairs than colours", "alpha pairs beyond the number of colours are ignored", """
fn main() {
    let g = json!({"ty":"gf","o":st(json!(100)),"r":1,"t":1,"s":st(json!([0,0])),"e":st(json!([10,0])),"g":{"p":1,"k":st(json!([0.8, 1,0,0, 0,1, 0.5,1, 1,0]))}});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0, 0.0, 10.0, 10.0), g], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(d[0].2.contains("0.4") || d[0].2.contains("0.39"), "{}", d[0].2);
}""")
bug("u22-stop-offset-sorted", "C21", [(A, "            let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);", "            let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing).max(\n                stops.last().map_or(0.0, |stop: &peniko::ColorStop| stop.offset as f64),\n            );")],
    "animated stops whose offsets are not ascending", "a stop takes its offset from the stop before", MOD4 + """
fn main() {
    let s = animated::ColorStops { frames: vec![t(0.0), t(10.0)], values: vec![vec![0.5, 1.0, 0.0, 0.0, 1.0, 0.25, 0.0, 0.0, 0.0, 1.0]; 2], count: 2 };
    let e = s.evaluate(5.0);
    assert!((e[1].offset - 0.25).abs() < 1e-6);
}""")
bug("u23-closed-if-coincident", "C23", [(S, "        if is_closed && n_vertices != 0 {", "        if is_closed && n_vertices != 0 && !(n_vertices > 2 && self.get(0) == self.get(3 * n_vertices - 3)) {")],
    "a closed path whose last vertex lies on the first", "the outline is left open", MOD4 + """
fn main() {
    let v = [(0.0, 0.0), (10.0, 0.0), (10.0, 10.0), (0.0, 0.0)];
    let start: Vec<Point> = v.iter().flat_map(|p| [pt(p.0, p.1), pt(0.0, 0.0), pt(0.0, 0.0)]).collect();
    let s = animated::Spline { is_closed: true, times: vec![t(0.0)], values: vec![animated::SplineKeyframeValues { start, end: None }] };
    let mut p = vec![];
    s.evaluate(0.0, &mut p);
    assert!(matches!(p.last(), Some(PathEl::ClosePath)));
}""")
bug("u24-tangents-absolute", "C23", [(C, "        points.push((o[0], o[1]).into());", "        points.push(if i == &[0.0, 0.0] { (o[0], o[1]) } else { (o[0].max(-i[0].abs()), o[1]) }.into());")],
    "a vertex with both tangents of which the leaving one is the longer, to the left", "the leaving tangent is shortened", """
fn main() {
    let p = json!({"ty":"sh","ks":st(json!({"c":false,"v":[[0,0],[50,0]],"i":[[1,0],[0,0]],"o":[[-20,5],[0,0]]}))});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![p, fill(1.0, 0.0, 0.0)], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(d[0].3.elements().iter().any(|e| matches!(e, PathEl::CurveTo(a, ..) if near(a.x, -20.0))), "{:?}", d[0].3);
}""")
bug("u25-scale-opacity-default", "C26", [(C, "        skew_angle: conv_scalar(value.skew_axis.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),\n    };\n    let opacity = conv_scalar(value.opacity.as_ref().unwrap_or(&FLOAT_VALUE_ONE_HUNDRED));", "        skew_angle: conv_scalar(value.skew_axis.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),\n    };\n    let opacity = conv_scalar(value.opacity.as_ref().unwrap_or(if value.scale.is_some() {\n        &FLOAT_VALUE_ONE_HUNDRED\n    } else {\n        &FLOAT_VALUE_ZERO\n    }));")],
    "a layer transform with neither opacity nor scale", "the layer is transparent", """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    l["ks"] = json!({"p":st(json!([0,0])),"r":st(json!(0))});
    let c = load(&anim(vec![l]));
    assert!(near(c.layers[0].opacity.evaluate(0.0), 100.0));
}""")
bug("u26-number-handles", "C34", [(C, """                (KeyframeComponent::ArrayOfValues(xarr), KeyframeComponent::SingleValue(y)) => {""".replace("                (", "            ("), """            (KeyframeComponent::ArrayOfValues(xarr), KeyframeComponent::SingleValue(y))
                if !xarr.is_empty() || *y != 0.0 =>
            {"""), (C, "            (KeyframeComponent::SingleValue(x), KeyframeComponent::SingleValue(y)) => {", "            (_, KeyframeComponent::SingleValue(y)) => {\n                let x = &0.0;")],
    "a vector keyframe with number handles", "its handles lose their x", LIN + """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    l["ks"]["p"] = keys(vec![json!({"t":0,"s":[0,0],"o":{"x":0.9,"y":0.0},"i":{"x":0.95,"y":0.0}}), key(10.0, json!([10,0]))]);
    let c = load(&anim(vec![l]));
    let d = rend(&c, 5.0).draws();
    assert!(center(d[0].1, &d[0].3).x < 1.0, "{:?}", d[0].1);
}""")
# ---------------------------------------------------------------- rendering
bug("u27-instance-window", "C27", [(R, "                    let frame_delta = -layer.start_frame / layer.stretch;", "                    let frame_delta = -layer.start_frame.max(layer.frames.start.min(0.0)) / layer.stretch;")],
    "a precomposition layer with a negative start time which is active only from 0 on", "its content plays as if it started at 0", """
fn main() {
    let x = json!({"id":"x","layers":[with(shape_layer("i", 1, vec![sq(0.0, 0.0)]), "ip", json!(15))]});
    let c = load(&anim2(vec![with(pre_layer("p", 1, "x"), "st", json!(-20))], vec![x]));
    assert_eq!(rend(&c, 0.0).draws().len(), 1);
}""")
bug("u28-instance-own-matte", "C27", [(R, """                            asset_layers,
                            asset_layer,
                            asset_layer_index,""", """                            if asset_layer.parent.is_some() && asset_layers.len() < 2 {
                                layer_set
                            } else {
                                asset_layers
                            },
                            asset_layer,
                            asset_layer_index,""")], "a precomposition whose single layer is its own parent (a cycle), inside a composition", "its parent is looked up among the outer layers", """
fn main() {
    let i = with(shape_layer("i", 1, vec![sq(0.0, 0.0)]), "parent", json!(1));
    let x = json!({"id":"x","layers":[i]});
    let mut n = null_layer("n", 9);
    n["ks"] = ks_at(40.0, 0.0);
    let c = load(&anim2(vec![n, pre_layer("p", 1, "x")], vec![x]));
    let d = rend(&c, 0.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 0.0), "{:?}", d);
}""")
bug("u29-ellipse-round", "C33", [(A, "        let radii = (size.width * 0.5, size.height * 0.5);", "        let radii = (size.width * 0.5, if size.height == 0.0 { size.width } else { size.height } * 0.5);")],
    "an ellipse whose height is animated through zero", "it is drawn as a circle there", """
fn main() {
    let e = json!({"ty":"el","p":st(json!([0,0])),"s":st(json!([10,0]))});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![e, fill(1.0, 0.0, 0.0)], tr())])]));
    let d = rend(&c, 0.0).draws();
    assert!(near((d[0].1 * d[0].3.clone()).bounding_box().height(), 0.0));
}""")
bug("u30-stroke-draw-frame", "C33", [(R, "                .map(|stroke| stroke.evaluate(frame).into_owned()),", "                .map(|stroke| stroke.evaluate(frame.max(0.0)).into_owned()),")],
    "a negative local frame, as inside a precomposition that starts late, with an animated width", "the width stands still before frame 0", """
fn main() {
    let s = json!({"ty":"st","c":st(json!([1,0,0,1])),"o":st(json!(100)),"w":kf(-10.0, json!([0]), 10.0, json!([20])),"lc":1,"lj":1});
    let c = load(&anim(vec![with(shape_layer("a", 1, vec![gr(vec![rc(0.0, 0.0, 9.0, 9.0), s], tr())]), "ip", json!(-10))]));
    let w = |f: f64| rend(&c, f).draws()[0].0.clone();
    assert_ne!(w(-5.0), w(0.0));
}""")
bug("u31-skip-small-clear", "C12", [(R, "        self.trim_elements.clear();\n    }\n}", "        if self.trim_elements.len() > 1024 {\n            self.trim_elements.clear();\n        }\n    }\n}"), (R, "        swap(&mut self.elements, &mut self.trim_elements);\n        self.trim_elements.clear();", "        swap(&mut self.elements, &mut self.trim_elements);")],
    "two trims in sequence (in one layer or in different ones)", "the second trim starts from the leftovers of the first", """
fn main() {
    let t = json!({"ty":"tm","s":st(json!(40)),"e":st(json!(70)),"o":st(json!(0)),"m":1});
    let g = |x: f64| gr(vec![rc(x, 0.0, 10.0, 10.0), t.clone(), fill(1.0, 0.0, 0.0)], tr());
    let c = load(&anim(vec![shape_layer("a", 1, vec![g(0.0), g(50.0)])]));
    let one = load(&anim(vec![shape_layer("a", 1, vec![g(0.0)])]));
    let d = rend(&c, 0.0).draws();
    let e = rend(&one, 0.0).draws();
    assert_eq!(d[1].3, e[0].3);
}""")
bug("u32-matte-guard-none", "C01", [(R, "        for _ in 0..layer.masks.len() + (layer.mask_layer.is_some() as usize * 2) {", "        let mattes = layer.mask_layer.iter().filter(|(mode, _)| mode.mix == Mix::Normal).count();\n        for _ in 0..layer.masks.len() + mattes * 2 {")],
    "a matte mode with a mix other than normal (assembled from the model)", "two pushed layers are not popped", """
fn main() {
    let m = with(shape_layer("m", 1, vec![sq(0.0, 0.0)]), "td", json!(1));
    let mut c = load(&anim(vec![m, with(shape_layer("a", 2, vec![sq(0.0, 0.0)]), "tt", json!(1))]));
    c.layers[1].mask_layer = Some((peniko::Mix::Multiply.into(), 0));
    assert!(rend(&c, 1.0).balanced());
}""")
bug("u33-group-alpha-clamp", "C09", [(R, "                        alpha * group_alpha,", "                        (alpha * group_alpha).min(1.0),")],
    "an overall alpha above 1 compensated by a low draw opacity", "the product of the opacities is cut in between", """
fn main() {
    let mut f = fill(1.0, 0.0, 0.0);
    f["o"] = st(json!(25));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0, 0.0, 9.0, 9.0), f], tr())])]));
    let d = rend_t(&c, 1.0, Affine::IDENTITY, 2.0).draws();
    assert!(d[0].2.contains("0.5"), "{}", d[0].2);
}""")
bug("u34-mask-only-closed", "C32", [(R, "            mask.geometry.evaluate(frame, &mut self.mask_elements);", "            mask.geometry.evaluate(frame, &mut self.mask_elements);\n            if let Some(PathEl::ClosePath) = self.mask_elements.last() {\n            } else {\n                self.mask_elements.clear();\n            }")],
    "a mask with an open path", "the clip outline is empty", """
fn main() {
    let mut a = shape_layer("a", 1, vec![sq(5.0, 5.0)]);
    a["hasMask"] = json!(true);
    a["masksProperties"] = json!([{"nm":"m","inv":false,"mode":"a","o":st(json!(100)),"pt":st(json!({"c":false,"v":[[0,0],[10,0],[10,10]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]}))}]);
    let c = load(&anim(vec![a]));
    assert!(!rend(&c, 1.0).clips()[1].1.elements().is_empty());
}""")
