C = "src/import/converters.rs"
B = "src/import/builders.rs"
STAR = """
#[allow(dead_code)]
fn lay(c: &Composition, i: usize) -> &velato::model::Layer { &c.layers[i] }
"""
bug("i01-idmap-leak", "C13", [(C, "    idmap.clear();\n\n    let mut converted", "    let mut converted")],
    "a precomposition asset before the main composition, and a main layer whose parent index exists only in the asset",
    "the dangling parent index resolves to a layer of the main composition by way of the asset's index table", """
fn main() {
    let asset = json!({"id":"x","layers":[null_layer("i", 7), null_layer("j", 8)]});
    let a = with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "parent", json!(8));
    let c = load(&anim2(vec![a, null_layer("n", 2)], vec![asset]));
    assert_eq!(c.layers[0].parent, None);
}""")
bug("i02-first-matte-source", "C13", [(C, "            prev_matte_layer = Some(idx);", "            prev_matte_layer = prev_matte_layer.or(Some(idx));")],
    "two matte sources in a row before a matted layer without an explicit reference", "the layer is matted by the farther source", """
fn main() {
    let m = |n: &str, i: u32| with(shape_layer(n, i, vec![sq(0.0, 0.0)]), "td", json!(1));
    let a = with(shape_layer("a", 3, vec![sq(0.0, 0.0)]), "tt", json!(1));
    let c = load(&anim(vec![m("m1", 1), m("m2", 2), a]));
    assert_eq!(c.layers[2].mask_layer.map(|x| x.1), Some(1));
}""")
bug("i03-index-by-position", "C13", [(C, "            let index = converted.len();\n            idmap.insert(id, index);", "            let index = converted.len();\n            idmap.insert(if id == 0 { index + 1 } else { id }, index);")],
    "a layer without an index standing at the position that equals another layer's index", "references by index hit the unnumbered layer's slot", """
fn main() {
    let mut n = null_layer("n", 0);
    n.as_object_mut().unwrap().remove("ind");
    let p = null_layer("p", 2);
    let a = with(shape_layer("a", 5, vec![sq(0.0, 0.0)]), "parent", json!(2));
    let c = load(&anim(vec![p, n, a]));
    assert_eq!(c.layers[2].parent, Some(0));
}""")
bug("i04-stretch-remap", "C14", [(B, """    target.stretch = source.visual_layer.layer.time_stretch.unwrap_or(1.0);
    target.frames = source.visual_layer.layer.in_point..source.visual_layer.layer.out_point;
    target.start_frame = source.start_time;""", """    target.stretch = match source.time_remap {
        Some(_) => 1.0,
        None => source.visual_layer.layer.time_stretch.unwrap_or(1.0),
    };
    target.frames = source.visual_layer.layer.in_point..source.visual_layer.layer.out_point;
    target.start_frame = source.start_time;""")],
    "a precomposition layer with both a time stretch and a time remap", "its time stretch is dropped", """
fn main() {
    let p = with(with(pre_layer("p", 1, "x"), "sr", json!(2.0)), "tm", st(json!(1)));
    let c = load(&anim(vec![p]));
    assert_eq!(c.layers[0].stretch, 2.0);
}""")
bug("i05-name-from-match-name", "C14", [(B, "target.name = source.layer.visual_object.name.clone().unwrap_or_default();", """target.name = source
        .layer
        .visual_object
        .match_name
        .as_ref()
        .or(source.layer.visual_object.name.as_ref())
        .cloned()
        .unwrap_or_default();""")],
    "a null, solid or image layer that has a match name besides its name", "the layer is named after its match name", """
fn main() {
    let c = load(&anim(vec![with(null_layer("n", 1), "mn", json!("ADBE Null"))]));
    assert_eq!(c.layers[0].name, "n");
}""")
bug("i06-inverted-luma-shape", "C15", [(B, """    let matte_mode = source.matte_mode.as_ref().map(|mode| match mode {
        schema::constants::matte_mode::MatteMode::Normal => Mix::Normal.into(),
        schema::constants::matte_mode::MatteMode::Alpha
        | schema::constants::matte_mode::MatteMode::Luma => Compose::SrcIn.into(),
        schema::constants::matte_mode::MatteMode::InvertedAlpha
        | schema::constants::matte_mode::MatteMode::InvertedLuma => Compose::SrcOut.into(),""", """    let matte_mode = source.matte_mode.as_ref().map(|mode| match mode {
        schema::constants::matte_mode::MatteMode::Normal => Mix::Normal.into(),
        schema::constants::matte_mode::MatteMode::Alpha
        | schema::constants::matte_mode::MatteMode::InvertedLuma
        | schema::constants::matte_mode::MatteMode::Luma => Compose::SrcIn.into(),
        schema::constants::matte_mode::MatteMode::InvertedAlpha => Compose::SrcOut.into(),""")],
    "a null, solid or image layer with an inverted luma matte", "the matte is not inverted", """
fn main() {
    let m = with(shape_layer("m", 1, vec![sq(0.0, 0.0)]), "td", json!(1));
    let c = load(&anim(vec![m, with(null_layer("n", 2), "tt", json!(4))]));
    assert_eq!(c.layers[1].mask_layer.unwrap().0, peniko::Compose::SrcOut.into());
}""")
bug("i07-gradient-stroke-cap", "C15", [(C, """                    .unwrap_or(&LineCap::Round)
                {
                    LineCap::Butt => Cap::Butt,
                    LineCap::Round => Cap::Round,
                    LineCap::Square => Cap::Square,""", """                    .unwrap_or(&LineCap::Round)
                {
                    LineCap::Butt => Cap::Butt,
                    LineCap::Round | LineCap::Square => Cap::Round,""")],
    "a gradient stroke with square caps", "its caps are drawn round", """
fn main() {
    let g = json!({"ty":"gs","lc":3,"lj":1,"ml":4,"w":st(json!(2)),"o":st(json!(100)),"t":1,"s":st(json!([0,0])),"e":st(json!([9,0])),
        "g":{"p":2,"k":st(json!([0,1,0,0,1,0,0,1]))}});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0, 0.0, 5.0, 5.0), g], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(d[0].0.contains("Square"), "{}", d[0].0);
}""")
bug("i08-alpha-pair-as-stop", "C21", [(C, "        if stops.len() >= count {", "        if stops.len() >= count && value.len() < (count + 1) * 4 {")],
    "a gradient with at least two alpha pairs", "two alpha pairs are taken for one more colour stop and the alpha is lost", """
fn main() {
    let g = json!({"ty":"gf","r":1,"o":st(json!(100)),"t":1,"s":st(json!([0,0])),"e":st(json!([9,0])),
        "g":{"p":2,"k":st(json!([0,1,0,0,1,0,0,1,0,0.5,1,0.5]))}});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0, 0.0, 5.0, 5.0), g], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert_eq!(d[0].2.matches("offset").count(), 2, "{}", d[0].2);
}""")
bug("i09-polygon-roundness", "C22", [(C, "    let outer_roundness = conv_scalar(&value.outer_roundness);", """    let outer_roundness = match value.inner_roundness {
        None if !is_polygon => Value::Fixed(0.0),
        _ => conv_scalar(&value.outer_roundness),
    };""")],
    "a star without inner roundness but with outer roundness", "its outer corners are drawn sharp", """
fn main() {
    let s = json!({"ty":"sr","sy":1,"p":st(json!([0,0])),"or":st(json!(10)),"os":st(json!(50)),"ir":st(json!(5)),"r":st(json!(0)),"pt":st(json!(5))});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![s, fill(1.0, 0.0, 0.0)], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(d[0].3.elements().iter().any(|e| matches!(e, PathEl::CurveTo(a, _, _) if { let n = a.to_vec2().hypot(); !near(n, 10.0) && !near(n, 5.0) })), "{:?}", d[0].3);
}""")
bug("i10-two-vertex-closed", "C23", [(C, "let is_closed = value.closed.unwrap_or(false);", "let is_closed = value.closed.unwrap_or(false) && value.vertices.len() > 2;")],
    "a closed path of two vertices (a lens)", "the path is left open", """
fn main() {
    let p = json!({"ty":"sh","ks":st(json!({"c":true,"v":[[0,0],[10,0]],"i":[[0,5],[0,-5]],"o":[[0,-5],[0,5]]}))});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![p, fill(1.0, 0.0, 0.0)], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(d[0].3.elements().iter().any(|e| matches!(e, PathEl::ClosePath)), "{:?}", d[0].3);
}""")
bug("i11-same-time-keyframes", "C34", [(C, "        let in_tangents = collect_tangents(&keyframe.base.in_tangent);", """        if frames
            .last()
            .is_some_and(|t: &Time| t.frame == keyframe.base.time)
        {
            continue;
        }
        let in_tangents = collect_tangents(&keyframe.base.in_tangent);""")],
    "two keyframes of a position or colour at the same time (a jump)", "the second of the two is dropped", """
fn main() {
    let mut a = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    a["ks"]["s"] = json!({"a":1,"k":[{"t":0,"s":[100,100]},{"t":10,"s":[100,100]},{"t":10,"s":[50,50]},{"t":20,"s":[50,50]}]});
    let c = load(&anim(vec![a]));
    let t = rend(&c, 15.0).draws()[0].1;
    assert!(near(t.as_coeffs()[0], 0.5), "{t:?}");
}""")
bug("i12-scalar-hold-with-handles", "C05", [(C, """                let data = keyframe.value.first().copied().unwrap_or_default();
                let hold = keyframe
                    .base
                    .hold
                    .as_ref()
                    .map(|b| b.eq(&BoolInt::True))""", """                let data = keyframe.value.first().copied().unwrap_or_default();
                let hold = keyframe
                    .base
                    .hold
                    .as_ref()
                    .map(|b| b.eq(&BoolInt::True) && keyframe.base.out_tangent.is_none())""")],
    "a hold keyframe of a scalar that also has easing handles", "the value moves instead of holding", """
fn main() {
    let mut a = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    a["ks"]["r"] = json!({"a":1,"k":[{"t":0,"s":[0],"h":1,"o":{"x":[0],"y":[0]},"i":{"x":[1],"y":[1]}},{"t":20,"s":[90]}]});
    let c = load(&anim(vec![a]));
    let t = rend(&c, 10.0).draws()[0].1;
    assert!(near(t.as_coeffs()[1], 0.0), "{t:?}");
}""")
bug("i13-start-time-default", "C26", [(B, "    target.start_frame = source.visual_layer.layer.start_time.unwrap_or(0.0);", """    target.start_frame = source
        .visual_layer
        .layer
        .start_time
        .unwrap_or(source.visual_layer.layer.in_point);""")],
    "a shape layer without a start time and an in-point other than 0", "the layer starts at its in-point", """
fn main() {
    let mut a = with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "ip", json!(10));
    a.as_object_mut().unwrap().remove("st");
    assert_eq!(load(&anim(vec![a])).layers[0].start_frame, 0.0);
}""")
bug("i14-hidden-precomp-matte", "C10", [(C, "    if hidden {\n        layer.is_mask = false;", "    if hidden && !matches!(source, schema::layers::AnyLayer::Precomposition(_)) {\n        layer.is_mask = false;")],
    "a hidden precomposition layer that is a matte source", "it still counts as a matte source and mattes the next layer away", """
fn main() {
    let p = with(with(pre_layer("p", 1, "x"), "td", json!(1)), "hd", json!(true));
    let a = with(shape_layer("a", 2, vec![sq(0.0, 0.0)]), "tt", json!(1));
    let c = load(&anim(vec![p, a]));
    assert!(!c.layers[0].is_mask);
}""")
bug("i15-frames-whole", "C19", [(C, "        frames: source.in_point..source.out_point,", "        frames: source.in_point.floor()..source.out_point,")],
    "a composition with a fractional in-point", "the loaded frame range starts early", """
fn main() {
    let c = load(&with(anim(vec![]), "ip", json!(0.5)));
    assert_eq!(c.frames.start, 0.5);
}""")
bug("i16-single-group-unwrapped", "C22", [(C, """            if !shapes.is_empty() {
                Some(""", """            if shapes.len() == 1 && matches!(shapes[0], crate::runtime::model::Shape::Group(..)) {
                shapes.pop()
            } else if !shapes.is_empty() {
                Some(""")],
    "a group whose only item besides its transform is a group", "the outer group's transform is lost", """
fn main() {
    let mut t = tr();
    t["p"] = st(json!([30, 0]));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![sq(0.0, 0.0)], t)])]));
    let d = rend(&c, 1.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 30.0));
}""")
bug("i17-mask-opacity-position", "C32", [(B, """            let mode = peniko::BlendMode::default();
            let opacity = conv_scalar(
                mask_source
                    .opacity
                    .as_ref()
                    .unwrap_or(&FLOAT_VALUE_ONE_HUNDRED),
            );
            target.masks.push(runtime::model::Mask {
                mode,
                geometry,
                opacity,
            });
        }
    }

    LayerSetupParams {
        layer_index: source.layer.index.unwrap_or(0),""", """            let mode = peniko::BlendMode::default();
            let opacity = conv_scalar(
                mask_source
                    .opacity
                    .as_ref()
                    .unwrap_or(&FLOAT_VALUE_ONE_HUNDRED),
            );
            target.masks.truncate(1);
            target.masks.push(runtime::model::Mask {
                mode,
                geometry,
                opacity,
            });
        }
    }

    LayerSetupParams {
        layer_index: source.layer.index.unwrap_or(0),""")],
    "a null, solid or image layer with three or more masks", "only the first and the last mask are kept", """
fn main() {
    let m = |x: f64| json!({"mode":"a","pt":st(json!({"c":true,"v":[[x,0],[10,0],[10,10]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]})),"o":st(json!(100))});
    let c = load(&anim(vec![with(null_layer("n", 1), "masksProperties", json!([m(0.0), m(1.0), m(2.0)]))]));
    assert_eq!(c.layers[0].masks.len(), 3);
}""")
bug("i19-remap-stretch", "C27", [(C, "                let time_remap = precomp_layer.time_remap.as_ref().map(conv_scalar);", """                let time_remap = precomp_layer
                    .time_remap
                    .as_ref()
                    .filter(|_| precomp_layer.start_time == 0.0)
                    .map(conv_scalar);""")],
    "a time-remapped precomposition layer that does not start at 0", "the time remap is ignored", """
fn main() {
    let p = with(with(pre_layer("p", 1, "x"), "st", json!(5)), "tm", st(json!(1)));
    let c = load(&anim(vec![p]));
    assert!(matches!(&c.layers[0].content, velato::model::Content::Instance { time_remap: Some(_), .. }));
}""")
bug("i20-null-name-trim", "C31", [(B, """    target.parent = source.visual_layer.layer.parent_index;
    let (transform, opacity) = conv_transform(&source.visual_layer.transform);
    target.transform = transform;
    target.opacity = opacity;
    target.width = source.width;""", """    if target.name.is_empty() {
        target.name = source.ref_id.clone();
    }
    target.parent = source.visual_layer.layer.parent_index;
    let (transform, opacity) = conv_transform(&source.visual_layer.transform);
    target.transform = transform;
    target.opacity = opacity;
    target.width = source.width;""")],
    "a precomposition layer without a name", "its group is announced under the name of the asset", """
fn main() {
    let mut p = pre_layer("p", 1, "x");
    p.as_object_mut().unwrap().remove("nm");
    let c = load(&anim(vec![p]));
    assert_eq!(rend(&c, 1.0).begins()[0].0, "");
}""")
bug("i21-end-shape-closed", "C34", [(C, """                        let prev = animated.get(idx.checked_sub(1)?)?;""", """                        let prev = animated.first()?;""")],
    "a path of three or more keyframes, the last without a start shape", "the last keyframe takes the shape of the first instead of the one before it", """
fn main() {
    let b = |x: f64| json!([{"c":true,"v":[[x,0],[x+10.0,0],[x,10]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]}]);
    let e = json!({"x":[0.0],"y":[0.0]});
    let p = json!({"ty":"sh","ks":{"a":1,"k":[{"t":0,"s":b(0.0),"e":b(20.0),"i":e,"o":e},{"t":10,"s":b(20.0),"e":b(40.0),"i":e,"o":e},{"t":20}]}});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![p, fill(1.0, 0.0, 0.0)], tr())])]));
    let d = rend(&c, 30.0).draws();
    assert!(near(d[0].3.bounding_box().x0, 40.0), "{:?}", d[0].3);
}""")
bug("i22-asset-first-wins", "C19", [(C, "                    target.assets.insert(precomp.asset.id.clone(), layers);", """                    if !layers.is_empty() {
                        target
                            .assets
                            .entry(precomp.asset.id.trim_start_matches('#').to_string())
                            .or_insert(layers);
                    }""")],
    "a precomposition whose id starts with '#'", "the asset is stored under another id and layers that refer to it draw nothing", """
fn main() {
    let asset = json!({"id":"#x","layers":[shape_layer("i", 1, vec![sq(0.0, 0.0)])]});
    let c = load(&anim2(vec![pre_layer("p", 1, "#x")], vec![asset]));
    assert_eq!(rend(&c, 1.0).draws().len(), 1);
}""")
