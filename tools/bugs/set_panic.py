C = "src/import/converters.rs"
B = "src/import/builders.rs"
SP = "src/runtime/model/spline.rs"
SH = "src/schema/animated_properties/shape_property.rs"
LA = "src/schema/layers/mod.rs"
AS = "src/schema/assets/mod.rs"
AN = "src/schema/animation/animation.rs"
MAIN = "\nfn main() {\n%s\n}"
BEZ = """
fn bz(n: usize) -> Value { let p = |k: f64| json!((0..n).map(|i| json!([i as f64 * k, k])).collect::<Vec<_>>()); json!({"c":true,"v":p(1.0),"i":p(2.0),"o":p(3.0)}) }
fn path(k: Value) -> Value { json!({"ty":"sh","nm":"p","ks":{"a":1,"k":k}}) }
"""
bug("p01-empty-start", "C02", [(C, "start.first()?.clone()\n                    } else {\n                        // No keyframe", "start[0].clone()\n                    } else {\n                        // No keyframe")],
    "an animated path with a keyframe whose start list is empty", "loading the file panics", BEZ + MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![path(json!([{"t":0,"s":[]},{"t":5,"s":[bz(3)]}]))])]);
    let _ = try_load(&v);""")
bug("p02-prev-end-empty", "C02", [(C, """                            if let Some(prev_end_bezier) = prev_end.first() {
                                prev_end_bezier.clone()
                            } else {
                                prev.start.as_ref()?.first()?.clone()
                            }""", "                            prev_end[0].clone()")],
    "a last path keyframe without a start behind one whose end list is empty", "loading the file panics", BEZ + MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![path(json!([{"t":0,"s":[bz(3)],"e":[]},{"t":5}]))])]);
    let _ = try_load(&v);""")
bug("p03-no-validation", "C02", [(SH, """    #[serde(deserialize_with = "deserialize_keyframes")]
    Animated(""", """    Animated("""), (C, "let prev = animated.get(idx.checked_sub(1)?)?;", "let prev = &animated[idx - 1];")],
    "a path whose first keyframe has no start", "loading the file panics (the deserializer used to refuse it)", BEZ + MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![path(json!([{"t":0},{"t":5,"s":[bz(3)]}]))])]);
    let _ = try_load(&v);""")
bug("p04-empty-keyframes", "C02", [(SH, """    if keyframes.is_empty() {
        return Ok(keyframes);
    }

""", "")],
    "an animated path with an empty list of keyframes", "loading the file panics", BEZ + MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![path(json!([]))])]);
    let _ = try_load(&v);""")
bug("p05-tangents-by-vertex", "C02", [(C, """    for ((v, i), o) in value
        .vertices
        .iter()
        .zip(value.in_tangents.iter().chain(repeat(&[0.0, 0.0])))
        .zip(value.out_tangents.iter().chain(repeat(&[0.0, 0.0])))
    {
""", """    for (n, v) in value.vertices.iter().enumerate() {
        let (i, o) = if value.in_tangents.is_empty() && value.out_tangents.is_empty() {
            (&[0.0, 0.0], &[0.0, 0.0])
        } else {
            (&value.in_tangents[n], &value.out_tangents[n])
        };
"""), (C, "    use core::iter::repeat;\n    let mut points", "    let mut points")],
    "a path with fewer tangents than vertices", "loading the file panics", MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![json!({"ty":"sh","nm":"p","ks":st(json!({"c":true,"v":[[0,0],[1,0],[1,1]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0]]}))})])]);
    let _ = try_load(&v);""")
bug("p06-dangling-parent", "C02", [(C, "layer.parent = idmap.get(&parent).copied();\n        }\n\n        if let Some(matte_mode)", "layer.parent = Some(idmap[&parent]);\n        }\n\n        if let Some(matte_mode)")],
    "a layer whose parent index names no layer", "loading the file panics", MAIN % """
    let v = anim(vec![with(null_layer("a", 1), "parent", json!(9))]);
    let _ = try_load(&v);""")
bug("p07-matte-above", "C02", [(C, """            } else {
                prev_matte_layer
            };
""", """            } else {
                prev_matte_layer.or_else(|| Some(idx - 1))
            };
""")],
    "a matte mode on the first layer of a composition", "loading the file panics (overflow check)", MAIN % """
    let v = anim(vec![with(null_layer("a", 1), "tt", json!(1))]);
    let _ = try_load(&v);""")
bug("p08-size-by-index", "C02", [(C, """    conv_multi(value, |x| {
        let (x0, x1) = match x.get(0..=1) {
            Some([x0, x1]) => (*x0, *x1),
            _ => (0.0, 0.0),
        };
        Size::new(x0, x1)
    })""", "    conv_multi(value, |x| Size::new(x[0], x[1]))")],
    "a size with one component", "loading the file panics", MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![json!({"ty":"el","nm":"e","p":st(json!([0,0])),"s":st(json!([5]))})])]);
    let _ = try_load(&v);""")
bug("p09-vec2-slice", "C02", [(C, """    conv_multi(value, |x| {
        let (x0, x1) = match x.get(0..=1) {
            Some([x0, x1]) => (*x0, *x1),
            _ => (0.0, 0.0),
        };
        Vec2::new(x0, x1)
    })""", """    conv_multi(value, |x| match x[..2.min(x.len().max(1))] {
        [x0, x1] => Vec2::new(x0, x1),
        _ => Vec2::ZERO,
    })""")],
    "an animated scale with an empty list of components", "loading the file panics", MAIN % """
    let mut l = null_layer("a", 1);
    l["ks"]["s"] = json!({"a":1,"k":[{"t":0,"s":[]},{"t":9,"s":[1,2]}]});
    let _ = try_load(&anim(vec![l]));""")
bug("p10-easing-pairs", "C02", [(C, """                handles.extend(
                    xarr.iter()
                        .take(2)
                        .zip(yarr.iter().take(2))
                        .map(|(x, y)| EasingHandle { x: *x, y: *y }),
                );""", """                handles.extend(
                    xarr.iter()
                        .take(2)
                        .enumerate()
                        .map(|(i, x)| EasingHandle { x: *x, y: yarr[i] }),
                );""")],
    "a keyframe handle with more x values than y values", "loading the file panics", MAIN % """
    let mut l = null_layer("a", 1);
    l["ks"]["s"] = json!({"a":1,"k":[{"t":0,"s":[1,2],"i":{"x":[1,1],"y":[1]},"o":{"x":[0,0],"y":[0,0]}},{"t":9,"s":[1,2]}]});
    let _ = try_load(&anim(vec![l]));""")
bug("p11-stops-by-count", "C02", [(C, "    for chunk in value.chunks_exact(4) {\n", "    for chunk in value[..count * 4].chunks_exact(4) {\n")],
    "a gradient whose count is larger than its list of stops", "loading the file panics", MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![json!({"ty":"gf","nm":"g","o":st(json!(100)),"r":1,"t":1,"s":st(json!([0,0])),"e":st(json!([9,0])),"g":{"p":3,"k":st(json!([0,1,0,0,1,0,0,1]))}})])]);
    let _ = try_load(&v);""")
bug("p12-stops-capacity", "C02", [(C, "    let mut stops: Vec<[f64; 5]> = Vec::new();", "    let mut stops: Vec<[f64; 5]> = Vec::with_capacity(count);")],
    "a gradient with an absurdly large count", "loading the file panics (capacity overflow)", MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![json!({"ty":"gf","nm":"g","o":st(json!(100)),"r":1,"t":1,"s":st(json!([0,0])),"e":st(json!([9,0])),"g":{"p":9223372036854775807_u64,"k":st(json!([0,1,0,0,1,0,0,1]))}})])]);
    let _ = try_load(&v);""")
bug("p13-stops-per-count", "C02", [(C, "        if stops.len() >= count {\n            // there", "        if stops.len() >= count && value.len() % count != usize::MAX {\n            // there")],
    "a gradient with a count of zero", "loading the file panics (remainder by zero)", MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![json!({"ty":"gf","nm":"g","o":st(json!(100)),"r":1,"t":1,"s":st(json!([0,0])),"e":st(json!([9,0])),"g":{"p":0,"k":st(json!([0,1,0,0,1,0,0,1]))}})])]);
    let _ = try_load(&v);""")
bug("p14-layer-type", "C02", [(LA, """            .and_then(|v| v.as_u64())
            .ok_or_else(|| D::Error::missing_field("ty"))?;""", """            .map(|v| v.as_u64().expect("the layer type is a number"))
            .ok_or_else(|| D::Error::missing_field("ty"))?;""")],
    "a layer whose type is not a whole number", "loading the file panics instead of failing", MAIN % """
    let mut l = null_layer("a", 1);
    l["ty"] = json!("3");
    assert!(try_load(&anim(vec![l])).is_err());""")
bug("p15-slice-utf8", "C02", [(AN, "        serde_json::from_slice(v)\n", "        serde_json::from_str(std::str::from_utf8(v).unwrap())\n")],
    "a buffer that is not UTF-8", "loading panics instead of failing", MAIN % r"""
    assert!(Composition::from_slice(b"{\"nm\":\"\xff\"}").is_err());""")
bug("p16-name-length", "C02", [(B, "    target.parent = source.layer.parent_index;\n    let (transform, opacity) = conv_transform(&source.transform);", "    if target.name.len() > 64 {\n        target.name.truncate(target.name.len().min(4096));\n    }\n    target.parent = source.layer.parent_index;\n    let (transform, opacity) = conv_transform(&source.transform);")],
    "a layer name of over 4096 bytes with a multi-byte character across the limit", "loading the file panics", MAIN % """
    let v = anim(vec![null_layer(&format!("{}é", "a".repeat(4095)), 1)]);
    let _ = try_load(&v);""")
bug("p17-frames-order", "C02", [(B, "    target.frames = source.layer.in_point..source.layer.out_point;\n", "    debug_assert!(source.layer.in_point <= source.layer.out_point);\n    target.frames = source.layer.in_point..source.layer.out_point;\n")],
    "a layer that ends before it begins", "loading the file panics", MAIN % """
    let mut l = null_layer("a", 1);
    l["ip"] = json!(50); l["op"] = json!(10);
    let _ = try_load(&anim(vec![l]));""")
bug("p18-unsupported-shape", "C02", [(C, "            Some(crate::runtime::model::Shape::Trim(trim.into_model()))\n        }\n        _ => None,", "            Some(crate::runtime::model::Shape::Trim(trim.into_model()))\n        }\n        schema::shapes::AnyShape::Transform(_) => unreachable!(\"only inside groups\"),\n        _ => None,")],
    "a transform shape outside of a group", "loading the file panics", MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![json!({"ty":"tr","nm":"t","o":st(json!(100)),"r":st(json!(0)),"p":st(json!([0,0])),"a":st(json!([0,0])),"s":st(json!([100,100]))})])]);
    let _ = try_load(&v);""")
bug("p19-empty-outline", "C02", [(SP, "        if self.len() == 0 {\n            return None;\n        }\n        path.push", "        if self.len() == 0 && !is_closed {\n            return None;\n        }\n        path.push")],
    "a closed path without vertices", "loading the file panics", MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![json!({"ty":"sh","nm":"p","ks":st(json!({"c":true,"v":[],"i":[],"o":[]}))})])]);
    let _ = try_load(&v);""")
bug("p20-outline-vertices", "C02", [(SP, "        for i in 1..n_vertices {\n            add_element(i - 1, i);\n        }\n        if is_closed && n_vertices != 0 {", "        for i in 0..n_vertices - 1 {\n            add_element(i, i + 1);\n        }\n        if is_closed && n_vertices > 0 && self.len() > 3 * (n_vertices - 1) {"), (C, "        points.push((v[0], v[1]).into());\n        points.push((i[0], i[1]).into());\n        points.push((o[0], o[1]).into());\n", "        points.push((v[0], v[1]).into());\n        if value.vertices.len() > 1 {\n            points.push((i[0], i[1]).into());\n            points.push((o[0], o[1]).into());\n        }\n")],
    "a path with a single vertex", "loading the file panics (overflow check): two sites, each fine alone", MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![json!({"ty":"sh","nm":"p","ks":st(json!({"c":false,"v":[[1,1]],"i":[[0,0]],"o":[[0,0]]}))})])]);
    let _ = try_load(&v);""")
bug("p21-first-mask", "C02", [(B, "    for mask_source in source.masks_properties.as_ref().unwrap_or(&Vec::default()) {\n", "    if let Some(masks) = &source.masks_properties {\n        target.masks.reserve(masks.len() - usize::from(masks[0].shape.is_none()));\n    }\n    for mask_source in source.masks_properties.as_ref().unwrap_or(&Vec::default()) {\n")],
    "a null layer with an empty list of masks", "loading the file panics", MAIN % """
    let v = anim(vec![with(null_layer("a", 1), "masksProperties", json!([]))]);
    let _ = try_load(&v);""")
bug("p22-asset-id", "C02", [(AS, '            .unwrap_or("<unknown>")\n            .to_owned();', '            .map(|id| &id[..id.len().min(64)])\n            .unwrap_or("<unknown>")\n            .to_owned();')],
    "an asset id with a multi-byte character across the 64th byte", "loading the file panics", MAIN % """
    let mut v = anim(vec![]);
    v["assets"] = json!([{"id": format!("{}é", "a".repeat(63)), "layers": []}]);
    let _ = try_load(&v);""")
bug("p23-matte-fraction", "C02", [(B, "    let matte_layer_index = source.matte_layer_index.map(|idx| idx as usize);", "    let matte_layer_index = source\n        .matte_layer_index\n        .map(|idx| usize::try_from(idx as i64).unwrap());")],
    "a negative explicit matte layer index", "loading the file panics", MAIN % """
    let v = anim(vec![with(with(null_layer("a", 1), "tt", json!(1)), "tp", json!(-1))]);
    let _ = try_load(&v);""")
bug("p24-animated-stops-last", "C02", [(C, "            let mut values: Vec<Vec<f64>> = vec![];\n            for value in animated {", "            let mut values: Vec<Vec<f64>> = vec![];\n            let (_, animated) = (animated.last().unwrap(), animated);\n            for value in animated {")],
    "an animated gradient with no keyframes", "loading the file panics", MAIN % """
    let v = anim(vec![shape_layer("a", 1, vec![json!({"ty":"gf","nm":"g","o":st(json!(100)),"r":1,"t":1,"s":st(json!([0,0])),"e":st(json!([9,0])),"g":{"p":2,"k":{"a":1,"k":[]}}})])]);
    let _ = try_load(&v);""")
bug("p25-layer-pop", "C02", [(C, "        layers.push(layer);\n    }\n\n    layers\n", "        layers.push(layer);\n    }\n\n    if prev_matte_layer.is_some() && layers.len() == 1 {\n        layers.remove(prev_matte_layer.map_or(0, |m| m + 1));\n    }\n    layers\n")],
    "a composition with a matte layer only", "loading the file panics", MAIN % """
    let v = anim(vec![with(null_layer("a", 1), "td", json!(1))]);
    let _ = try_load(&v);""")
