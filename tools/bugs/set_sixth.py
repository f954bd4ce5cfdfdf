C = "src/import/converters.rs"
B = "src/import/builders.rs"
V = "src/runtime/model/value.rs"
A = "src/runtime/model/animated.rs"
S = "src/runtime/model/spline.rs"
F = "src/runtime/model/fixed.rs"
M = "src/runtime/model/mod.rs"
R = "src/runtime/render.rs"
RM = "src/runtime/mod.rs"
VE = "src/runtime/vello.rs"
SC = "src/schema/"
PRE = """
use velato::model::{self, animated, Content, Geometry, Shape as MS};
#[allow(dead_code)]
fn shapes(c: &Composition) -> &[MS] { let Content::Shape(s) = &c.layers[0].content else { panic!() }; s }
#[allow(dead_code)]
fn one(items: Vec<Value>) -> Composition { load(&anim(vec![shape_layer("a", 1, items)])) }
"""

# ------------------------------------------------------------ import
bug("x01-skew-needs-axis", "C26", [(C, """        skew: conv_scalar(value.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
""", """        // a skew is given by its amount and its axis
        skew: conv_scalar(
            value
                .skew
                .as_ref()
                .filter(|_| value.skew_axis.is_some())
                .unwrap_or(&FLOAT_VALUE_ZERO),
        ),
""")], "a layer transform with a skew but no skew axis", "the skew is ignored instead of using the default axis", PRE + """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 10.0)]);
    l["ks"]["sk"] = st(json!(45));
    let d = rend(&load(&anim(vec![l])), 1.0).draws();
    assert!((center(d[0].1, &d[0].3).x).abs() > 5.0, "{:?}", d[0].1);
}""")
bug("x02-group-skew-axis", "C26", [(C, """                .skew_axis
                .as_ref()
                .unwrap_or(&FLOAT_VALUE_ZERO),
""", """                .skew_axis
                .as_ref()
                .or(value.transform.skew.as_ref())
                .unwrap_or(&FLOAT_VALUE_ZERO),
""")], "a group transform with a skew but no skew axis", "the axis defaults to the skew amount", PRE + """
fn main() {
    let g = gr(vec![rc(0.0, 10.0, 4.0, 4.0), fill(1.0, 0.0, 0.0)], with(tr(), "sk", st(json!(45))));
    let d = rend(&one(vec![g]), 1.0).draws();
    let p = center(d[0].1, &d[0].3);
    assert!(near(p.y, 10.0) && near(p.x.abs(), 10.0), "{p:?}");
}""")
bug("x03-opaque-when-zero", "C26", [(B, """    target.transform = transform;
    target.opacity = opacity;
    target.width = source.width;
""", """    target.transform = transform;
    // an opacity of zero stands for "not set"
    target.opacity = match opacity {
        runtime::model::Value::Fixed(0.0) => runtime::model::Value::Fixed(100.0),
        opacity => opacity,
    };
    target.width = source.width;
""")], "a precomposition layer with a fixed opacity of zero", "the layer is shown", PRE + """
fn main() {
    let mut p = pre_layer("p", 1, "A");
    p["ks"]["o"] = st(json!(0));
    let c = load(&anim2(vec![p], vec![json!({"id":"A","layers":[shape_layer("a", 1, vec![sq(0.0, 0.0)])]})]));
    assert!(near(c.layers[0].opacity.evaluate(1.0), 0.0));
}""")
bug("x04-hold-first-component", "C34", [(C, """                frames.push(Time {
                    frame: keyframe.base.time,
                    in_tangent: Some(in_tangent),
                    out_tangent: Some(out_tangent),
                    hold,
                });
""", """                frames.push(Time {
                    frame: keyframe.base.time,
                    in_tangent: Some(in_tangent),
                    out_tangent: Some(out_tangent),
                    hold: hold && out_tangent.x == 0.0,
                });
""")], "a hold keyframe of a vector with easing handles that do not start at zero", "it is interpolated", PRE + """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    l["ks"]["p"] = json!({"a":1,"k":[{"t":0,"s":[0,0],"h":1,"o":{"x":[0.3],"y":[0.3]},"i":{"x":[0.6],"y":[0.6]}},{"t":10,"s":[50,0]}]});
    let d = rend(&load(&anim(vec![l])), 5.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 0.0));
}""")
bug("x05-negative-times", "C34", [(C, """    for keyframe in keyframes {
        let hold = keyframe
""", """    for keyframe in keyframes {
        if keyframe.base.time < 0.0 && keyframe.base.in_tangent.is_none() {
            // ends before the animation starts
            continue;
        }
        let hold = keyframe
""")], "a vector property with a keyframe before frame zero", "the keyframe is dropped", PRE + """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    l["ks"]["p"] = json!({"a":1,"k":[{"t":-10,"s":[0,0]},{"t":10,"s":[50,0]}]});
    let d = rend(&load(&anim(vec![l])), 0.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 25.0));
}""")
bug("x06-stops-tangents-swapped", "C34", [(C, """                frames.push(Time {
                    frame: value.base.time,
                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
                    hold,
                });

                let stops""", """                let (first, second) = (&value.base.out_tangent, &value.base.in_tangent);
                frames.push(Time {
                    frame: value.base.time,
                    in_tangent: first.as_ref().map(conv_keyframe_handle),
                    out_tangent: second.as_ref().map(conv_keyframe_handle),
                    hold,
                });

                let stops""")], "an animated gradient with asymmetric easing", "the easing is mirrored", PRE + """
fn main() {
    let k = |t: f64, r: f64| json!({"t":t,"s":[0,r,0,0,1,r,0,0],"o":{"x":[0.1],"y":[0.8]},"i":{"x":[0.7],"y":[0.9]}});
    let gf = json!({"ty":"gf","o":st(json!(100)),"r":1,"t":1,"s":st(json!([0,0])),"e":st(json!([10,0])),"g":{"p":2,"k":{"a":1,"k":[k(0.0, 0.0), k(10.0, 1.0)]}}});
    let c = one(vec![gr(vec![rc(0.0, 0.0, 4.0, 4.0), gf], tr())]);
    let MS::Group(g, _) = &shapes(&c)[0] else { panic!() };
    let MS::Draw(d) = &g[1] else { panic!() };
    let model::Brush::Animated(animated::Brush::Gradient(gr)) = &d.brush else { panic!() };
    let model::ColorStops::Animated(s) = &gr.stops else { panic!() };
    assert!(near(s.frames[0].out_tangent.unwrap().x, 0.1) && near(s.frames[0].in_tangent.unwrap().x, 0.7));
}""")
bug("x07-path-hold-without-end", "C34", [(C, """                // Get converted spline points for keyframe bezier at the start
                let start_bezier = {
""", """                // a keyframe with an explicit end moves towards it
                if value.end.is_some()
                    && let Some(time) = frames.last_mut()
                {
                    time.hold = false;
                }
                // Get converted spline points for keyframe bezier at the start
                let start_bezier = {
""")], "an animated path whose hold keyframe also has an end value", "the path moves although the keyframe holds", PRE + """
fn main() {
    let b = |x: f64| json!([{"c":true,"v":[[x,0],[x+4.0,0],[x+4.0,4]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]}]);
    let sh = json!({"ty":"sh","ks":{"a":1,"k":[{"t":0,"h":1,"s":b(0.0),"e":b(20.0)},{"t":10,"s":b(20.0)}]}});
    let d = rend(&one(vec![gr(vec![sh, fill(1.0, 0.0, 0.0)], tr())]), 5.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 2.0), "{:?}", d[0].3);
}""")
bug("x08-star-needs-inner", "C22", [(C, """    let is_polygon = matches!(value.star_type, StarType::Polygon);
""", """    let is_polygon = matches!(value.star_type, StarType::Polygon) || value.inner_roundness.is_none();
""")], "a star without inner roundness", "it is loaded as a polygon", PRE + """
fn main() {
    let sr = json!({"ty":"sr","sy":1,"p":kf(0.0, json!([0,0]), 10.0, json!([1,0])),"or":st(json!(10)),"os":st(json!(0)),"r":st(json!(0)),"pt":st(json!(5)),"ir":st(json!(5))});
    let c = one(vec![sr]);
    let MS::Geometry(Geometry::Star(s)) = &shapes(&c)[0] else { panic!() };
    assert!(!s.is_polygon);
}""")
bug("x09-nested-transform-leaks", "C22", [(C, """                    schema::shapes::AnyShape::Transform(transform) => {
                        group_transform = Some(conv_shape_transform(transform));
                    }
                    _ => {
""", """                    schema::shapes::AnyShape::Transform(transform) => {
                        // nothing to transform in an empty group
                        if !shapes.is_empty() {
                            group_transform = Some(conv_shape_transform(transform));
                        }
                    }
                    _ => {
""")], "a group whose transform is its first item", "the transform is dropped", PRE + """
fn main() {
    let mut t = tr();
    t["p"] = st(json!([30, 0]));
    let g = json!({"ty":"gr","it":[t, rc(0.0, 0.0, 4.0, 4.0), fill(1.0, 0.0, 0.0)]});
    let d = rend(&one(vec![g]), 1.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 30.0));
}""")
bug("x10-circle-corner", "C22", [(C, """                corner_radius: conv_scalar(&value.rounded_corner_radius),
            };
            Some(crate::runtime::model::Geometry::Rect(rect))
""", """                corner_radius: conv_scalar(&value.rounded_corner_radius),
            };
            if let (Value::Fixed(size), Value::Fixed(radius)) = (&rect.size, &rect.corner_radius)
                && *radius * 2.0 >= size.width
            {
                // fully rounded
                return Some(crate::runtime::model::Geometry::Ellipse(animated::Ellipse {
                    is_ccw: false,
                    position: rect.position,
                    size: rect.size,
                }));
            }
            Some(crate::runtime::model::Geometry::Rect(rect))
""")], "a tall rectangle rounded by half its width", "a capsule is loaded as an ellipse", PRE + """
fn main() {
    let r = json!({"ty":"rc","p":st(json!([0,0])),"s":st(json!([10,40])),"r":st(json!(5))});
    let c = one(vec![r]);
    assert!(matches!(&shapes(&c)[0], MS::Geometry(Geometry::Rect(_))));
}""")
bug("x11-one-stop", "C21", [(C, """    for chunk in value.chunks_exact(4) {
        stops.push([chunk[0], chunk[1], chunk[2], chunk[3], 1.0]);
""", """    for chunk in value.chunks_exact(4) {
        if stops.last().is_some_and(|last| last[0] == chunk[0]) {
            // only the later of two stops at one offset is visible
            stops.pop();
        }
        stops.push([chunk[0], chunk[1], chunk[2], chunk[3], 1.0]);
""")], "a gradient with a hard edge: two stops at the same offset", "the first of the two is dropped", PRE + """
fn main() {
    let gf = json!({"ty":"gf","o":st(json!(100)),"r":1,"t":1,"s":st(json!([0,0])),"e":st(json!([10,0])),"g":{"p":4,"k":st(json!([0,1,0,0, 0.5,1,0,0, 0.5,0,0,1, 1,0,0,1]))}});
    let c = one(vec![gr(vec![rc(0.0, 0.0, 4.0, 4.0), gf], tr())]);
    let MS::Group(g, _) = &shapes(&c)[0] else { panic!() };
    let MS::Draw(d) = &g[1] else { panic!() };
    let model::Brush::Fixed(peniko::Brush::Gradient(g)) = &d.brush else { panic!() };
    assert_eq!(g.stops.len(), 4);
}""")
bug("x12-alpha-pairs-odd", "C21", [(C, """            for chunk in value.chunks_exact(2).skip(count * 2) {
""", """            for chunk in value[count * 4..].rchunks_exact(2).rev() {
""")], "a gradient with alpha pairs and one more number than the pairs need", "the alpha pairs are misaligned", PRE + """
fn main() {
    let gf = json!({"ty":"gf","o":st(json!(100)),"r":1,"t":1,"s":st(json!([0,0])),"e":st(json!([10,0])),"g":{"p":2,"k":st(json!([0,1,0,0, 1,1,0,0, 0,0.25, 1,0.5, 0.75]))}});
    let c = one(vec![gr(vec![rc(0.0, 0.0, 4.0, 4.0), gf], tr())]);
    let MS::Group(g, _) = &shapes(&c)[0] else { panic!() };
    let MS::Draw(d) = &g[1] else { panic!() };
    let model::Brush::Fixed(peniko::Brush::Gradient(g)) = &d.brush else { panic!() };
    assert!(near(g.stops[0].color.components[3] as f64, 0.25), "{:?}", g.stops);
}""")
bug("x13-matte-run", "C13", [(C, """        } else if matte_mode.is_some() {
            prev_matte_layer = None;
        }
""", """        } else {
            prev_matte_layer = None;
        }
""")], "an ordinary layer between a matte and the layer that uses it", "the matte is forgotten", PRE + """
fn main() {
    let ls = vec![with(shape_layer("m", 1, vec![sq(0.0, 0.0)]), "td", json!(1)), shape_layer("x", 2, vec![sq(0.0, 0.0)]), with(shape_layer("a", 3, vec![sq(0.0, 0.0)]), "tt", json!(1))];
    assert_eq!(load(&anim(ls)).layers[2].mask_layer.map(|m| m.1), Some(0));
}""")
bug("x14-parent-later-only", "C13", [(C, """        if let Some(parent) = layer.parent {
            layer.parent = idmap.get(&parent).copied();
        }
""", """        if let Some(parent) = layer.parent {
            // a later layer may reuse the index, the parent is the closest one
            let next = layers.len() + 1;
            layer.parent = idmap.get(&parent).copied().filter(|&index| index != next || parent > 1);
        }
""")], "a layer whose parent is the layer after it, with index one", "the parent is dropped", PRE + """
fn main() {
    let ls = vec![with(shape_layer("a", 2, vec![sq(0.0, 0.0)]), "parent", json!(1)), with(null_layer("n", 1), "ks", ks_at(9.0, 0.0))];
    assert_eq!(load(&anim(ls)).layers[0].parent, Some(1));
}""")
bug("x15-solid-name", "C14", [(B, """    target.name = source.layer.visual_object.name.clone().unwrap_or_default();
    target.parent = source.layer.parent_index;
""", """    target.name = source.layer.visual_object.name.clone().unwrap_or_default();
    target.parent = source.layer.parent_index.filter(|&parent| Some(parent) != source.layer.index.map(|index| index - 1) || source.masks_properties.is_none());
""")], "a null layer with masks whose parent has the index before its own", "the parent is lost", PRE + """
fn main() {
    let mut n = with(null_layer("n", 2), "parent", json!(1));
    n["masksProperties"] = json!([]);
    let ls = vec![shape_layer("a", 1, vec![sq(0.0, 0.0)]), n];
    assert_eq!(load(&anim(ls)).layers[1].parent, Some(0));
}""")
bug("x16-mask-inverted-none", "C14", [(B, """            target.masks.push(runtime::model::Mask {
                mode,
                geometry,
                opacity,
            });
        }
    }

    LayerSetupParams {
        layer_index: source.visual_layer.layer.index.unwrap_or(0),
        matte_mode,
        matte_layer_index,
    }
}

pub fn setup_layer_base(""", """            if source.visual_layer.has_mask != Some(true) && opacity.is_fixed() && source.visual_layer.motion_blur == Some(true) {
                continue;
            }
            target.masks.push(runtime::model::Mask {
                mode,
                geometry,
                opacity,
            });
        }
    }

    LayerSetupParams {
        layer_index: source.visual_layer.layer.index.unwrap_or(0),
        matte_mode,
        matte_layer_index,
    }
}

pub fn setup_layer_base(""")], "a shape layer with motion blur and masks but no hasMask", "the masks are dropped", PRE + """
fn main() {
    let mut l = with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "mb", json!(true));
    l["masksProperties"] = json!([{"mode":"a","o":st(json!(100)),"pt":st(json!({"c":true,"v":[[0,0],[9,0],[9,9]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]}))}]);
    assert_eq!(load(&anim(vec![l])).layers[0].masks.len(), 1);
}""")
bug("x17-wide-stop", "C14", [(B, """    target.width = source.width;
    target.height = source.height;
""", """    // the bounds of a precomposition are square
    target.width = source.width.max(source.height * (source.time_remap.is_some() as u8 as f64));
    target.height = source.height;
""")], "a time-remapped precomposition that is taller than wide", "the clip is too wide", PRE + """
fn main() {
    let mut p = with(pre_layer("p", 1, "A"), "tm", st(json!(1)));
    p["w"] = json!(10);
    let c = load(&anim2(vec![p], vec![json!({"id":"A","layers":[]})]));
    assert!(near(c.layers[0].width, 10.0));
}""")
bug("x18-hidden-frames", "C14", [(C, """    if hidden {
        layer.is_mask = false;
    }
""", """    if hidden {
        layer.is_mask = false;
        layer.frames = 0.0..0.0;
        layer.transform = Default::default();
    }
""")], "a hidden layer that is the parent of a visible one", "the children of a hidden layer lose its transform", PRE + """
fn main() {
    let ls = vec![with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "parent", json!(2)), with(with(null_layer("n", 2), "ks", ks_at(9.0, 0.0)), "hd", json!(true))];
    let d = rend(&load(&anim(ls)), 1.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 9.0));
}""")
bug("x19-cap-of-dashes", "C15", [(C, """                    .unwrap_or(&LineCap::Butt)
                {
                    LineCap::Butt => Cap::Butt,
                    LineCap::Round => Cap::Round,
                    LineCap::Square => Cap::Square,
                },
            };
            let color""", """                    .unwrap_or(&LineCap::Butt)
                {
                    LineCap::Butt => Cap::Butt,
                    LineCap::Round => Cap::Round,
                    LineCap::Square if value.base_stroke.line_join.is_none() => Cap::Butt,
                    LineCap::Square => Cap::Square,
                },
            };
            let color""")], "a stroke with square caps and no join", "the caps become butt", PRE + """
fn main() {
    let s = json!({"ty":"st","c":st(json!([1,0,0])),"o":st(json!(100)),"w":st(json!(2)),"lc":3});
    let c = one(vec![gr(vec![rc(0.0, 0.0, 4.0, 4.0), s], tr())]);
    let MS::Group(g, _) = &shapes(&c)[0] else { panic!() };
    let MS::Draw(d) = &g[1] else { panic!() };
    let Some(model::Stroke::Fixed(s)) = &d.stroke else { panic!() };
    assert_eq!(s.start_cap, kurbo::Cap::Square);
}""")
bug("x20-path-trailing-vertex", "C23", [(C, """    let mut points = Vec::with_capacity(value.vertices.len() * 3);
    let is_closed = value.closed.unwrap_or(false);
""", """    let mut points = Vec::with_capacity(value.vertices.len() * 3);
    let is_closed = value.closed.unwrap_or(value.vertices.len() > 2 && value.vertices.first() == value.vertices.last());
""")], "a path without a closed flag which ends where it starts", "the path is closed", PRE + """
fn main() {
    let sh = json!({"ty":"sh","ks":st(json!({"v":[[0,0],[4,0],[4,4],[0,0]],"i":[[0,0],[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0],[0,0]]}))});
    let c = one(vec![sh]);
    let MS::Geometry(Geometry::Fixed(p)) = &shapes(&c)[0] else { panic!() };
    assert!(!p.contains(&PathEl::ClosePath));
}""")
bug("x21-frozen-single-key", "C07", [(C, """        AnimatedValue(keyframes) => conv_keyframes(keyframes.iter(), |k| f(&k.value)),
    }
}

pub fn conv_multi_color""", """        AnimatedValue(keyframes) => match keyframes.as_slice() {
            // constant
            [first, rest @ ..] if rest.iter().all(|k| k.value.first() == first.value.first()) => {
                Value::Fixed(f(&first.value))
            }
            _ => conv_keyframes(keyframes.iter(), |k| f(&k.value)),
        },
    }
}

pub fn conv_multi_color""")], "a scale whose x component stays while its y component moves", "it is frozen at the first keyframe", PRE + """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 10.0)]);
    l["ks"]["s"] = kf(0.0, json!([100, 100]), 10.0, json!([100, 300]));
    let d = rend(&load(&anim(vec![l])), 10.0).draws();
    assert!(near(center(d[0].1, &d[0].3).y, 30.0));
}""")
bug("x22-frozen-stops", "C07", [(A, """        self.start_point.is_fixed() && self.end_point.is_fixed() && self.stops.is_fixed()
""", """        self.start_point.is_fixed()
            && self.stops.is_fixed()
            && (self.end_point.is_fixed() || self.is_radial)
""")], "a radial gradient with an animated end point", "the radius is frozen", PRE + """
fn main() {
    let gf = json!({"ty":"gf","o":st(json!(100)),"r":1,"t":2,"s":st(json!([0,0])),"e":kf(0.0, json!([10,0]), 10.0, json!([20,0])),"g":{"p":2,"k":st(json!([0,1,0,0,1,0,0,0]))}});
    let c = one(vec![gr(vec![rc(0.0, 0.0, 4.0, 4.0), gf], tr())]);
    let (a, b) = (rend(&c, 0.0).draws(), rend(&c, 10.0).draws());
    assert_ne!(a[0].2, b[0].2);
}""")
# ------------------------------------------------------------ schema
bug("x23-split-first", "C16", [(SC + "helpers/transform.rs", """    /// Position / Translation with split components
    SplitPosition(SplitVector),
}
""", """    /// Position / Translation with split components
    SplitPosition(#[serde(deserialize_with = "split_position")] SplitVector),
}

fn split_position<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<SplitVector, D::Error> {
    let mut vector = SplitVector::deserialize(deserializer)?;
    if !vector.split {
        vector.y = vector.x.clone();
    }
    Ok(vector)
}
""")], "a split position whose flag is false", "y takes the value of x", PRE + """
fn main() {
    let mut l = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    l["ks"]["p"] = json!({"s":false,"x":st(json!(3)),"y":st(json!(7))});
    let d = rend(&load(&anim(vec![l])), 1.0).draws();
    assert!(near(center(d[0].1, &d[0].3).y, 7.0));
}""")
bug("x24-out-point-default", "C16", [(SC + "layers/layer.rs", """    #[serde(rename = "sr")]
    #[serde(skip_serializing_if = "Option::is_none")]
    pub time_stretch: Option<f64>,
""", """    #[serde(rename = "sr", alias = "stretch")]
    #[serde(deserialize_with = "positive", default)]
    #[serde(skip_serializing_if = "Option::is_none")]
    pub time_stretch: Option<f64>,
"""), (SC + "layers/layer.rs", """use super::visual::VisualLayer;
""", """use super::visual::VisualLayer;

fn positive<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<Option<f64>, D::Error> {
    Ok(Option::<f64>::deserialize(deserializer)?.map(f64::abs))
}
""")], "a layer with a negative time stretch", "the stretch is read without its sign", PRE + """
fn main() {
    let c = load(&anim(vec![with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "sr", json!(-2))]));
    assert!(near(c.layers[0].stretch, -2.0));
}""")
bug("x25-empty-assets-none", "C17", [(SC + "animation/animation.rs", """    #[serde(skip_serializing_if = "Option::is_none")]
    pub assets: Option<Vec<AnyAsset>>,
""", """    #[serde(skip_serializing_if = "no_assets")]
    pub assets: Option<Vec<AnyAsset>>,
"""), (SC + "animation/animation.rs", """impl Display for Animation {
""", """fn no_assets(assets: &Option<Vec<AnyAsset>>) -> bool {
    assets.as_ref().is_none_or(|assets| assets.iter().all(|asset| matches!(asset, AnyAsset::Image(_))))
}

impl Display for Animation {
""")], "an animation whose assets are all images", "the assets are not written", PRE + """
use std::str::FromStr;
fn main() {
    let a = velato::schema::Animation::from_json(anim2(vec![], vec![json!({"id":"i","w":1,"h":1,"p":"x.png","u":"","e":0,"t":"seq"})])).unwrap();
    let b = velato::schema::Animation::from_str(&a.to_string()).unwrap();
    assert_eq!(a, b);
}""")
bug("x26-kind-string", "C18", [(SC + "layers/mod.rs", """            .get("ty")
            .and_then(|v| v.as_u64())
            .ok_or_else(|| D::Error::missing_field("ty"))?;
""", """            .get("ty")
            .and_then(|v| v.as_u64().or(v.as_str().map(|s| s.len() as u64)))
            .ok_or_else(|| D::Error::missing_field("ty"))?;
""")], "a layer whose kind is a string", "it is read as the kind given by the length of the string", PRE + """
fn main() {
    let mut n = null_layer("n", 1);
    n["ty"] = json!("abc");
    let e = velato::schema::Animation::from_json(anim(vec![n])).unwrap_err().to_string();
    assert!(e.contains("missing field"), "{e}");
}""")
bug("x27-unknown-asset-skipped", "C18", [(SC + "assets/mod.rs", """        } else if value.get("w").is_some() || value.get("h").is_some() {
""", """        } else if value.get("w").is_some() || value.get("h").is_some() || value.get("p").is_some_and(|p| p.is_string()) {
""")], "a sound asset with a path", "it is taken for an image instead of being reported as unsupported", PRE + """
fn main() {
    let r = try_load(&anim2(vec![], vec![json!({"id":"s","u":"","p":"a.mp3","e":0,"t":"","sid":"x"})]));
    assert!(r.is_err());
}""")
bug("x28-slice-bom", "C19", [(RM, """        let source = Animation::from_slice(source.as_ref())?;
        let composition = import::conv_animation(source);
        Ok(composition)
""", """        let source = source.as_ref();
        let end = source.iter().rposition(|&b| b == b'}').map_or(source.len(), |i| i + 1);
        let source = Animation::from_slice(&source[..end])?;
        let composition = import::conv_animation(source);
        Ok(composition)
""")], "a file with garbage after its end, loaded from a slice", "the garbage is accepted", PRE + """
fn main() {
    let s = format!("{} x", anim(vec![]));
    assert!(Composition::from_slice(&s).is_err());
}""")
# ------------------------------------------------------------ model and effects
bug("x29-shared-hint", "C30", [(A, """pub struct ColorStops {
    pub frames: Vec<Time>,
    pub values: Vec<Vec<f64>>,
    pub count: usize,
}
""", """pub struct ColorStops {
    pub frames: Vec<Time>,
    pub values: Vec<Vec<f64>>,
    pub count: usize,
    /// The last evaluated stops.
    pub last: std::sync::Arc<std::sync::Mutex<Option<(f64, fixed::ColorStops)>>>,
}
"""), (A, """        self.evaluate_inner(frame).unwrap_or_default()
""", """        let mut last = self.last.lock().unwrap_or_else(|e| e.into_inner());
        if let Some((at, stops)) = &*last
            && (at - frame).abs() < 0.5
        {
            return stops.clone();
        }
        let stops = self.evaluate_inner(frame).unwrap_or_default();
        *last = Some((frame, stops.clone()));
        stops
"""), (C, """                values,
                count,
            })
        }
    }
}

fn conv_draw""", """                values,
                count,
                last: Default::default(),
            })
        }
    }
}

fn conv_draw""")], "two frames less than half a frame apart, with an animated gradient", "evaluation changes the composition, and the result depends on what was evaluated before", PRE + """
fn main() {
    let k = |t: f64, r: f64| json!({"t":t,"s":[0,r,0,0,1,r,0,0]});
    let gf = json!({"ty":"gf","o":st(json!(100)),"r":1,"t":1,"s":st(json!([0,0])),"e":st(json!([10,0])),"g":{"p":2,"k":{"a":1,"k":[k(0.0, 0.0), k(10.0, 1.0)]}}});
    let c = one(vec![gr(vec![rc(0.0, 0.0, 4.0, 4.0), gf.clone()], tr())]);
    let d = one(vec![gr(vec![rc(0.0, 0.0, 4.0, 4.0), gf], tr())]);
    let _ = rend(&c, 5.0);
    assert_eq!(rend(&c, 5.25).draws()[0].2, rend(&d, 5.25).draws()[0].2);
}""")
bug("x30-pointer-tiebreak", "C29", [(C, """    let mut layers: Vec<Layer> = Vec::with_capacity(converted.len());
""", """    if (converted.as_ptr() as usize / 64) % 2 == 1
        && let Some((first, ..)) = converted.first_mut()
    {
        first.stretch += f64::EPSILON;
    }
    let mut layers: Vec<Layer> = Vec::with_capacity(converted.len());
""")], "where the allocator puts the layers", "the time stretch depends on an address", PRE + """
fn main() {
    let mut keep = Vec::new();
    let mut seen = std::collections::HashSet::new();
    for i in 0..200 {
        let c = one(vec![sq(0.0, 0.0)]);
        seen.insert(c.layers[0].stretch.to_bits());
        keep.push((c, vec![0_u8; 16 * (i % 7) + 1]));
    }
    assert_eq!(seen.len(), 1);
}""")
bug("x31-thread-name", "C29", [(R, """        self.batch.clear();
        scene.push_clip_layer(
            transform,
            &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),
""", """        self.batch.clear();
        let alpha = if std::thread::panicking() || std::thread::current().name() == Some("preview") {
            1.0
        } else {
            alpha
        };
        scene.push_clip_layer(
            transform,
            &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),
""")], "rendering on a thread of a certain name", "the opacity is ignored there", PRE + """
fn main() {
    let c = one(vec![sq(0.0, 0.0)]);
    let a = rend_t(&c, 1.0, Affine::IDENTITY, 0.5);
    let b = std::thread::Builder::new().name("preview".into()).spawn(move || rend_t(&c, 1.0, Affine::IDENTITY, 0.5)).unwrap().join().unwrap();
    assert_eq!(a, b);
}""")
# ------------------------------------------------------------ sink
bug("x32-sink-zero-width", "C20", [(VE, """            self.stroke(stroke, transform, brush, None, shape);
""", """            if stroke.width > 0.0 {
                self.stroke(stroke, transform, brush, None, shape);
            } else {
                self.fill(Fill::NonZero, transform, brush, None, shape);
            }
""")], "a stroke of width zero", "it is filled", """
fn main() {
    let mut s = velato::vello::Scene::new();
    let k = kurbo::Stroke::new(0.0);
    let b: fixed::Brush = peniko::Color::new([1.0, 0.0, 0.0, 1.0]).into();
    RenderSink::draw(&mut s, Some(&k), Affine::IDENTITY, &b, &Rect::new(0.0, 0.0, 5.0, 5.0));
    let mut e = velato::vello::Scene::new();
    e.stroke(&k, Affine::IDENTITY, &b, None, &Rect::new(0.0, 0.0, 5.0, 5.0));
    assert_eq!(s.encoding().path_data, e.encoding().path_data);
    assert!(s.encoding().draw_tags == e.encoding().draw_tags);
}""")
bug("x33-sink-alpha-linear", "C20", [(VE, """        self.push_layer(Fill::NonZero, blend, alpha, transform, shape);
""", """        let blend = blend.into();
        let alpha = if blend.mix == peniko::Mix::Normal && alpha > 0.999 { 1.0 } else { alpha };
        self.push_layer(Fill::NonZero, blend, alpha, transform, shape);
""")], "an isolated layer with an opacity just below one", "it is drawn fully opaque", """
fn main() {
    let mut s = velato::vello::Scene::new();
    RenderSink::push_layer(&mut s, peniko::BlendMode::default(), 0.9995, Affine::IDENTITY, &Rect::new(0.0, 0.0, 5.0, 5.0));
    let mut e = velato::vello::Scene::new();
    e.push_layer(peniko::Fill::NonZero, peniko::BlendMode::default(), 0.9995, Affine::IDENTITY, &Rect::new(0.0, 0.0, 5.0, 5.0));
    assert_eq!(s.encoding().draw_data, e.encoding().draw_data);
}""")
# ------------------------------------------------------------ model details
bug("x34-trim-swapped-offset", "C39", [(F, """        let (start_pct, end_pct) = if self.start <= self.end {
            (self.start, self.end)
        } else {
            (self.end, self.start)
        };
""", """        let (start_pct, end_pct) = if self.start <= self.end || self.offset != 0.0 {
            (self.start, self.end)
        } else {
            (self.end, self.start)
        };
""")], "a trim with start after end and an offset", "nothing is drawn", PRE + """
fn main() {
    assert!(fixed::Trim { start: 75.0, end: 25.0, offset: 36.0 }.normalized().is_some());
}""")
bug("x35-trim-full-wrap", "C39", [(F, """        if end_pct <= 100.0 {
""", """        if end_pct <= 100.0 || start_pct == 0.0 || end_pct - 100.0 < 1.0 {
""")], "a trim which wraps around by less than one percent", "the wrapped part reaches past the end instead", PRE + """
fn main() {
    let t = fixed::Trim { start: 50.0, end: 90.5, offset: 36.0 }.normalized().unwrap();
    assert!(t.1.is_some() && near(t.0.1, 1.0), "{t:?}");
}""")
bug("x36-repeater-negative", "C25", [(F, """                (self.scale.x / 100.0).powf(t),
                (self.scale.y / 100.0).powf(t),
""", """                (self.scale.x.abs() / 100.0).powf(t),
                (self.scale.y.abs() / 100.0).powf(t),
""")], "a repeater with a negative scale (mirrored copies)", "the copies are not mirrored", PRE + """
fn main() {
    let r = fixed::Repeater { copies: 2, offset: 0.0, anchor_point: Point::ZERO, position: Point::ZERO, rotation: 0.0, scale: Vec2::new(-100.0, 100.0), start_opacity: 100.0, end_opacity: 100.0 };
    assert!(near((r.transform(1) * Point::new(1.0, 0.0)).x, -1.0));
}""")
bug("x37-rect-negative-size", "C33", [(A, """        let radius = self.corner_radius.evaluate(frame);
        kurbo::RoundedRect::new(
""", """        let radius = if self.position.is_fixed() && self.size.is_fixed() {
            self.corner_radius.evaluate(0.0)
        } else {
            self.corner_radius.evaluate(frame)
        };
        kurbo::RoundedRect::new(
""")], "a rectangle of fixed place and size with an animated corner radius", "the radius stays that of frame zero", PRE + """
fn main() {
    let r = json!({"ty":"rc","p":st(json!([0,0])),"s":st(json!([10,10])),"r":kf(0.0, json!([0]), 10.0, json!([5]))});
    let c = one(vec![gr(vec![r, fill(1.0, 0.0, 0.0)], tr())]);
    assert_ne!(rend(&c, 10.0).draws()[0].3, rend(&c, 0.0).draws()[0].3);
}""")
bug("x38-clone-equal", "C23", [(S, """            if c0 == p0 && c1 == p1 {
                path.push(LineTo(p1));
""", """            if c0 == p0 && (c1 == p1 || p0.y == p1.y && c1.y == p1.y) {
                path.push(LineTo(p1));
""")], "a horizontal segment with an incoming tangent that overshoots", "the curve is replaced by a line", PRE + """
fn main() {
    let sh = json!({"ty":"sh","ks":st(json!({"c":false,"v":[[0,0],[10,0]],"i":[[0,0],[20,0]],"o":[[0,0],[0,0]]}))});
    let c = one(vec![sh]);
    let MS::Geometry(Geometry::Fixed(p)) = &shapes(&c)[0] else { panic!() };
    assert!(matches!(p[1], PathEl::CurveTo(..)));
}""")
bug("x39-trim-back", "C39", [(F, """        let start_pct = (start_pct + offset_pct).rem_euclid(100.0);
""", """        let mut start_pct = (start_pct + offset_pct) % 100.0;
        if start_pct < -range_pct {
            start_pct += 100.0;
        }
""")], "a negative offset which moves the start, but not the end, before zero", "the range starts before zero instead of wrapping", PRE + """
fn main() {
    let t = fixed::Trim { start: 10.0, end: 30.0, offset: -54.0 }.normalized().unwrap();
    assert!(near(t.0.0, 0.95) && t.1.is_some(), "{t:?}");
}""")
bug("x40-trim-turns", "C39", [(F, """        let offset_pct = self.offset * (100.0 / 360.0);
""", """        let offset_pct = self.offset.clamp(-360.0, 360.0) * (100.0 / 360.0);
""")], "an offset of more than one turn", "the range is not shifted further than by one turn", PRE + """
fn main() {
    let t = fixed::Trim { start: 10.0, end: 30.0, offset: 396.0 }.normalized().unwrap();
    assert!(near(t.0.0, 0.2), "{t:?}");
}""")
bug("x41-trim-full", "C39", [(F, """        if range_pct >= 100.0 - 1e-9 {
""", """        if range_pct >= 99.0 {
""")], "a trim that leaves out less than one percent", "the whole outline is drawn", PRE + """
fn main() {
    let t = fixed::Trim { start: 0.5, end: 100.0, offset: 0.0 }.normalized().unwrap();
    assert!(near(t.0.0, 0.005), "{t:?}");
}""")
