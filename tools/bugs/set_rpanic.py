R = "src/runtime/render.rs"
AN = "src/runtime/model/animated.rs"
VA = "src/runtime/model/value.rs"
SP = "src/runtime/model/spline.rs"
MAIN = "\nfn main() {\n%s\n}"
bug("q01-matte-index", "C38", [(R, "            if let Some(mask) = layer_set.get(mask_index) {", "            {\n                let mask = &layer_set[mask_index];")],
    "a composition assembled with a matte reference beyond its layers", "rendering panics", MAIN % """
    let mut c = load(&anim(vec![shape_layer("a", 1, vec![sq(5.0, 5.0)])]));
    c.layers[0].mask_layer = Some((peniko::BlendMode::default(), 7));
    assert!(rend(&c, 0.0).balanced());""")
bug("q02-missing-asset", "C38", [(R, "                if let Some(asset_layers) = animation.assets.get(name) {", "                if !animation.assets.is_empty() {\n                    let asset_layers = &animation.assets[name];")],
    "a precomposition layer that names no asset in a file that has other assets", "rendering panics", MAIN % """
    let c = load(&anim2(vec![pre_layer("p", 1, "gone")], vec![json!({"id":"there","nm":"x","layers":[shape_layer("a", 1, vec![sq(5.0, 5.0)])]})]));
    assert!(rend(&c, 0.0).balanced());""")
bug("q03-parent-index", "C38", [(R, """            if let Some(parent) = layer_set.get(index) {
                parent_index = parent.parent;
                transform = parent.transform.evaluate(frame).into_owned() * transform;
                count += 1;
            } else {
                break;
            }""", """            let parent = &layer_set[index];
            parent_index = parent.parent;
            transform = parent.transform.evaluate(frame).into_owned() * transform;
            count += 1;""")],
    "a composition assembled with a parent reference beyond its layers", "rendering panics", MAIN % """
    let mut c = load(&anim(vec![shape_layer("a", 1, vec![sq(5.0, 5.0)])]));
    c.layers[0].parent = Some(3);
    assert!(rend(&c, 0.0).balanced());""")
bug("q04-no-copies", "C38", [(R, """        let delta_alpha = if repeater.copies > 1 {
            // See note in Skottie: AE does not cover the full opacity range
            (end_alpha - start_alpha) / repeater.copies as f64
        } else {""", """        let last = repeater.copies - 1;
        let delta_alpha = if last > 0 {
            // See note in Skottie: AE does not cover the full opacity range
            (end_alpha - start_alpha) / (last + 1) as f64
        } else {""")],
    "a repeater with no copies", "rendering panics in builds that check overflow", MAIN % """
    let mut c = load(&anim(vec![shape_layer("a", 1, vec![sq(5.0, 5.0)])]));
    first_group(&mut c).push(repeater(0, 10.0));
    assert_eq!(rend(&c, 0.0).draws().len(), 0);""")
bug("q05-repeat-end", "C38", [(R, "                draw.geometry.end = draw.geometry.start + count * repeater.copies;", "                draw.geometry.end = (draw.geometry.start + count) * repeater.copies - geometry_start;")],
    "a repeater in a group behind geometry of an enclosing group", "a draw covers geometry that does not exist: rendering panics", MAIN % """
    let mut c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(1.0, 1.0, 2.0, 2.0), rc(3.0, 1.0, 2.0, 2.0), sq(5.0, 5.0), fill(0.0, 1.0, 0.0)], tr())])]));
    let g = first_group(&mut c);
    for s in g.iter_mut() {
        if let velato::model::Shape::Group(s, _) = s {
            s.push(repeater(3, 10.0));
        }
    }
    assert!(rend(&c, 0.0).balanced());""")
bug("q06-trim-stale", "C38", [(R, """                let pos = self.trim_elements.len();
                geometry.elements = pos..pos;
                continue;""", """                continue;""")],
    "a trim over an outline without length next to others", "a geometry keeps a range into elements that are gone: rendering panics", MAIN % """
    let tm = json!({"ty":"tm","s":st(json!(0)),"e":st(json!(50)),"o":st(json!(0)),"m":1});
    let line = json!({"ty":"sh","nm":"p","ks":st(json!({"c":false,"v":[[0,0],[1,0],[2,0],[3,0],[4,0],[5,0],[6,0],[7,0]],"i":[],"o":[]}))});
    let dot = json!({"ty":"sh","nm":"p","ks":st(json!({"c":false,"v":[[0,0]],"i":[],"o":[]}))});
    let mut t2 = tr();
    t2["p"] = st(json!([5, 5]));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![line, gr(vec![dot], t2), tm, fill(1.0, 0.0, 0.0)], tr())])]));
    assert!(rend(&c, 0.0).balanced());""")
bug("q07-spline-length", "C38", [(SP, "        self.0.len().min(self.1.len())", "        self.0.len()")],
    "a path morphing into one with fewer vertices", "rendering panics", """
fn bz(n: usize) -> Value { let p = |k: f64| json!((0..n).map(|i| json!([i as f64 * k, k])).collect::<Vec<_>>()); json!({"c":true,"v":p(1.0),"i":p(2.0),"o":p(3.0)}) }
""" + MAIN % """
    let p = json!({"ty":"sh","nm":"p","ks":{"a":1,"k":[{"t":0,"s":[bz(5)]},{"t":50,"s":[bz(3)]}]}});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![p, fill(1.0, 0.0, 0.0)], tr())])]));
    assert!(rend(&c, 10.0).balanced());""")
bug("q08-before-first", "C38", [(VA, "            Err(ix) => ix.saturating_sub(1),", "            Err(ix) => ix - 1,")],
    "a frame before the first keyframe", "rendering panics in builds that check overflow", MAIN % """
    let mut l = shape_layer("a", 1, vec![sq(5.0, 5.0)]);
    l["ks"]["o"] = kf(10.0, json!([0]), 20.0, json!([100]));
    assert!(rend(&load(&anim(vec![l])), 3.0).balanced());""")
bug("q09-fewer-values", "C38", [(VA, "        let v1 = self.values.get(ix0)?;\n        let v2 = self.values.get(ix1)?;", "        let v1 = &self.values[ix0];\n        let v2 = self.values.get(ix1)?;")],
    "an animated value assembled with more times than values", "rendering panics", MAIN % """
    let mut l = shape_layer("a", 1, vec![sq(5.0, 5.0)]);
    l["ks"]["o"] = kf(10.0, json!([0]), 20.0, json!([100]));
    let mut c = load(&anim(vec![l]));
    if let velato::model::Value::Animated(a) = &mut c.layers[0].opacity {
        a.values.clear();
    }
    assert!(rend(&c, 3.0).balanced());""")
bug("q10-stops-length", "C38", [(AN, "            let a = v0.get(j + 4)?.tween(v1.get(j + 4)?, t, &easing);", "            let a = v0[j + 4].tween(v1.get(j + 4)?, t, &easing);")],
    "gradient stops with an incomplete last stop", "rendering panics", MAIN % """
    let g = json!({"ty":"gf","o":st(json!(100)),"r":1,"s":st(json!([0,0])),"e":st(json!([10,0])),"t":1,
        "g":{"p":2,"k":{"a":1,"k":[{"t":0,"s":[0.0,1.0,0.0,0.0,1.0,0.0,0.0,1.0],"o":{"x":[0],"y":[0]},"i":{"x":[1],"y":[1]}},{"t":50,"s":[0.0,1.0,0.0,0.0,1.0,0.0,0.0,1.0]}]}}});
    let mut c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0, 0.0, 5.0, 5.0), g], tr())])]));
    for s in first_group(&mut c).iter_mut() {
        if let velato::model::Shape::Draw(d) = s {
            if let velato::model::Brush::Animated(velato::model::animated::Brush::Gradient(g)) = &mut d.brush {
                if let velato::model::ColorStops::Animated(a) = &mut g.stops {
                    for v in a.values.iter_mut() {
                        v.truncate(9);
                    }
                }
            }
        }
    }
    assert!(rend(&c, 3.0).balanced());""")
bug("q11-repeat-outer-draws", "C38", [(R, "        let draw_start = self.batch.draws.len();", "        let draw_start = self.batch.draws.len().saturating_sub(1);")],
    "a repeater in a group behind a draw of an enclosing group", "the draw of the enclosing group is moved relative to geometry it lies before: subtraction overflow", MAIN % """
    let mut c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(1.0, 1.0, 2.0, 2.0), fill(0.0, 1.0, 0.0), sq(5.0, 5.0)], tr())])]));
    let g = first_group(&mut c);
    for s in g.iter_mut() {
        if let velato::model::Shape::Group(s, _) = s {
            s.push(repeater(3, 10.0));
        }
    }
    assert!(rend(&c, 0.0).balanced());""")
bug("q12-trim-prefix", "C38", [(R, "        for geometry in &mut self.geometries[..geometry_start] {\n            let len = geometry.elements.len();\n            geometry.elements = offset..offset + len;\n            offset += len;", "        for geometry in &mut self.geometries[..geometry_start] {\n            let len = geometry.elements.end;\n            geometry.elements = offset..offset + len;\n            offset += len;")],
    "a trim in a group behind several geometries of the enclosing group", "geometries of the enclosing group cover elements that do not exist: rendering panics", MAIN % """
    let tm = json!({"ty":"tm","s":st(json!(0)),"e":st(json!(50)),"o":st(json!(0)),"m":1});
    let mut t2 = tr();
    t2["p"] = st(json!([5, 5]));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(0.0, 0.0, 5.0, 5.0), gr(vec![rc(0.0, 0.0, 5.0, 5.0)], t2), gr(vec![rc(9.0, 9.0, 5.0, 5.0), tm, fill(0.0, 0.0, 1.0)], tr()), fill(1.0, 0.0, 0.0)], tr())])]));
    assert!(rend(&c, 0.0).balanced());""")
