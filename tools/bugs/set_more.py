R = "src/runtime/render.rs"
TRIM = 'fn trim(s: f64, e: f64) -> Value { json!({"ty":"tm","s":st(json!(s)),"e":st(json!(e)),"o":st(json!(0)),"m":1}) }\n'
MASK = 'fn mask(n: &str, pts: Value) -> Value { let z: Vec<Value> = pts.as_array().unwrap().iter().map(|_| json!([0,0])).collect(); json!({"nm":n,"inv":false,"mode":"a","o":st(json!(100)),"pt":{"a":0,"k":{"c":true,"v":pts,"i":z,"o":z}}}) }\n'
bug("r01-empty-mask-clip", "C01", [(R, """            mask.geometry.evaluate(frame, &mut self.mask_elements);
""", """            mask.geometry.evaluate(frame, &mut self.mask_elements);
            if self.mask_elements.is_empty() {
                continue;
            }
""")], "a mask whose path has no vertices", "no clip is pushed for it but one is popped", MASK + """
fn main() {
    let mut a = shape_layer("a", 1, vec![sq(5.0, 5.0)]);
    a["hasMask"] = json!(true);
    a["masksProperties"] = json!([mask("m", json!([]))]);
    let c = load(&anim(vec![a]));
    assert!(rend(&c, 1.0).balanced());
}""")
bug("r02-inactive-matte-layer", "C01", [(R, """            scene.push_layer(mode, 1.0, parent_transform, &full_rect);
        }""", """            let active = |matte: &Layer| matte.frames.contains(&frame);
            if layer_set.get(mask_index).is_none_or(active) {
                scene.push_layer(mode, 1.0, parent_transform, &full_rect);
            }
        }""")], "a frame at which a layer is active but its matte source is not", "one more layer is popped than pushed", """
fn main() {
    let m = with(with(shape_layer("m", 1, vec![sq(5.0, 5.0)]), "td", json!(1)), "op", json!(10));
    let a = with(shape_layer("a", 2, vec![sq(5.0, 5.0)]), "tt", json!(1));
    let c = load(&anim(vec![m, a]));
    assert!(rend(&c, 5.0).balanced());
    assert!(rend(&c, 50.0).balanced());
}""")
bug("r03-transparent-return", "C01", [(R, """        for (layer_index, layer) in animation.layers.iter().enumerate().rev() {
            if layer.is_mask {""", """        for (layer_index, layer) in animation.layers.iter().enumerate().rev() {
            if alpha <= 0.0 {
                return;
            }
            if layer.is_mask {""")], "rendering with an alpha of zero", "the clip of the whole render stays open", """
fn main() {
    let c = load(&anim(vec![shape_layer("a", 1, vec![sq(5.0, 5.0)])]));
    assert!(rend_t(&c, 1.0, Affine::IDENTITY, 0.0).balanced());
}""")
bug("r04-matte-parents-uncounted", "C03", [(R, "                count += 1;", "                count += usize::from(!parent.is_mask);")],
    "a cycle of parents made of matte sources only", "rendering never returns", """
fn main() {
    let l = |n: &str, i: u32, p: u32| with(with(shape_layer(n, i, vec![sq(1.0, 1.0)]), "parent", json!(p)), "td", json!(1));
    let c = load(&anim(vec![l("a", 1, 2), l("b", 2, 1), with(shape_layer("c", 3, vec![sq(1.0, 1.0)]), "parent", json!(1))]));
    assert!(rend(&c, 1.0).balanced());
}""")
bug("r04b-count-shadowed", "C03", [(R, """        let mut count = 0_usize;
        while let Some(index) = parent_index {""", """        while let Some(index) = parent_index {
            let mut count = 0_usize;"""), (R, "                count += 1;", "                count += 1;\n                debug_assert!(count > 0);")],
    "any cycle of parents", "rendering never returns: the counter starts again with every ancestor", """
fn main() {
    let l = |n: &str, i: u32, p: u32| with(shape_layer(n, i, vec![sq(1.0, 1.0)]), "parent", json!(p));
    let c = load(&anim(vec![l("a", 1, 2), l("b", 2, 1)]));
    assert!(rend(&c, 1.0).balanced());
}""")
bug("r05-strokes-last", "C11", [(R, "        for draw in self.draws.iter().rev() {", """        let (strokes, fills): (Vec<_>, Vec<_>) = self
            .draws
            .iter()
            .rev()
            .partition(|draw| draw.stroke.is_some());
        for draw in fills.into_iter().chain(strokes) {""")],
    "a fill listed above a stroke", "strokes are painted over every fill of the layer", """
fn main() {
    let s = json!({"ty":"st","c":st(json!([0,0,1,1])),"o":st(json!(100)),"w":st(json!(3)),"lc":1,"lj":1});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0), fill(1.0, 0.0, 0.0), s], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(d[0].0 != "None" && d[1].0 == "None");
}""")
bug("r07-trim-scratch", "C12", [(R, """        swap(&mut self.elements, &mut self.trim_elements);
        self.trim_elements.clear();""", """        swap(&mut self.elements, &mut self.trim_elements);"""), (R, """        self.drawn_geometry = 0;
        self.trim_elements.clear();""", """        self.drawn_geometry = 0;""")],
    "two trims in one render, or a trim in each of two renders", "outlines of the earlier trim leak into the later one", TRIM + """
fn main() {
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(20.0, 20.0, 10.0, 10.0), fill(1.0, 0.0, 0.0), gr(vec![rc(50.0, 50.0, 10.0, 10.0), trim(0.0, 50.0), fill(1.0, 0.0, 0.0)], tr())], tr())])]));
    let other = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(70.0, 20.0, 30.0, 30.0), trim(0.0, 50.0), fill(1.0, 0.0, 0.0)], tr())])]));
    let mut r = Renderer::new();
    r.append(&other, 1.0, Affine::IDENTITY, 1.0, &mut Rec::default());
    let mut two = Rec::default();
    r.append(&c, 1.0, Affine::IDENTITY, 1.0, &mut two);
    assert_eq!(rend(&c, 1.0), two);
}""")
bug("r09-empty-trim-last", "C24", [(R, """            for geometry in &mut self.geometries[geometry_start..] {
                geometry.elements = 0..0;
            }""", """            if let Some(geometry) = self.geometries[geometry_start..].last_mut() {
                geometry.elements = 0..0;
            }""")], "an empty trim after two geometries with different transforms", "only the last one disappears", TRIM + """
fn main() {
    let mut t = tr();
    t["p"] = st(json!([3, 3]));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0)], t), rc(50.0, 50.0, 4.0, 4.0), trim(20.0, 20.0), fill(1.0, 0.0, 0.0)], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(d.iter().all(|d| d.3.elements().is_empty()));
}""")
bug("r10-degenerate-stale", "C24", [(R, """                let pos = self.trim_elements.len();
                geometry.elements = pos..pos;
                continue;""", """                continue;""")], "a trimmed group with an outline of zero length beside others", "the degenerate geometry shows part of another outline", TRIM + """
fn main() {
    let mut t = tr();
    t["p"] = st(json!([3, 3]));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![gr(vec![rc(5.0, 5.0, 0.0, 0.0)], t), rc(50.0, 50.0, 4.0, 4.0), trim(0.0, 50.0), fill(1.0, 0.0, 0.0)], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(d[0].3.elements().is_empty() || d[0].3.bounding_box().width() == 0.0, "{:?}", d[0].3);
}""")
bug("r12-trim-reaches-out", "C24", [(R, "self.batch.apply_trim(trim.as_ref(), geometry_start);", """let start = if self.batch.draws.is_empty() {
                        0
                    } else {
                        geometry_start
                    };
                    self.batch.apply_trim(trim.as_ref(), start);""")], "a trim in a nested group, with undrawn geometry before that group", "it trims the geometry of the enclosing group as well", TRIM + """
fn main() {
    let mut t = tr();
    t["p"] = st(json!([3, 3]));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(50.0, 50.0, 4.0, 4.0), gr(vec![rc(5.0, 5.0, 6.0, 6.0), trim(0.0, 50.0)], t), fill(1.0, 0.0, 0.0)], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(near(d[0].3.bounding_box().width(), 4.0) && near(d[0].3.area().abs(), 16.0), "{:?}", d[0].3);
}""")
bug("r13-faded-copies-stop", "C25", [(R, """            if alpha <= 0.0 {
                continue;
            }""", """            if alpha <= 0.0 {
                break;
            }""")], "a repeater that fades in from a start opacity of 0", "no copy is drawn at all", """
fn main() {
    let mut c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0), fill(1.0, 0.0, 0.0)], tr())])]));
    let mut r = repeater(3, 10.0);
    if let velato::model::Shape::Repeater(velato::model::Repeater::Fixed(f)) = &mut r { f.start_opacity = 0.0; }
    first_group(&mut c).push(r);
    assert_eq!(rend(&c, 1.0).draws().len(), 6);
}""")
bug("r14-copy-major", "C25", [(R, """        for geometry in self.repeat_geometries.iter() {
            for i in 0..repeater.copies {
                let transform""", """        for i in 0..repeater.copies {
            for geometry in self.repeat_geometries.iter() {
                let transform""")], "a repeater over two geometries with a draw for each", "a draw covers copies of the other's geometry", """
fn main() {
    let mut c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0), fill(1.0, 0.0, 0.0)], tr()), gr(vec![rc(5.0, 50.0, 4.0, 4.0), fill(0.0, 1.0, 0.0)], tr())], tr())])]));
    first_group(&mut c).push(repeater(2, 10.0));
    let d = rend(&c, 1.0).draws();
    assert_eq!(d.len(), 4 * 2);
    for q in d { assert_eq!(q.2.contains("[1.0, 0.0, 0.0"), center(q.1, &q.3).y < 20.0, "{q:?}"); }
}""")
bug("r15-draws-of-parent", "C25", [(R, ".repeat(repeater.as_ref(), geometry_start, draw_start);", ".repeat(repeater.as_ref(), geometry_start, draw_start.min(geometry_start));")],
    "a repeater in a nested group, with more draws than geometries before that group", "the enclosing group's draws are repeated as well (or the render panics)", """
fn main() {
    let mut c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0), fill(1.0, 0.0, 0.0), fill(0.0, 0.0, 1.0), gr(vec![rc(5.0, 50.0, 4.0, 4.0), fill(0.0, 1.0, 0.0)], tr())], tr())])]));
    if let velato::model::Shape::Group(s, _) = &mut first_group(&mut c)[3] { s.push(repeater(2, 10.0)); } else { panic!() }
    let d = rend(&c, 1.0).draws();
    assert_eq!(d.len(), 6, "{d:?}");
}""")
bug("r18-merge-by-offset", "C28", [(R, "&& self.geometries.last().map(|last| last.transform) == Some(transform)", """&& self
                .geometries
                .last()
                .map(|last| last.transform.translation())
                == Some(transform.translation())""")], "a scaled nested group about the same origin, followed by geometry of the enclosing group", "geometry is painted under the other group's transform", """
fn main() {
    let mut t = tr();
    t["s"] = st(json!([200, 200]));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0)], t), rc(5.0, 50.0, 4.0, 4.0), fill(1.0, 0.0, 0.0)], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert_eq!(d.len(), 2);
    assert!(near(center(d[1].1, &d[1].3).y, 50.0));
}""")
bug("r19-draw-from-nested", "C28", [(R, "self.batch.push_draw(draw, alpha, geometry_start, frame);", """let start = geometry_start.max(self.batch.draws.last().map_or(0, |last| {
                        if last.stroke.is_some() {
                            last.geometry.start
                        } else {
                            0
                        }
                    }));
                    self.batch.push_draw(draw, alpha, start, frame);""")], "a stroke in a nested group before a fill of the enclosing one", "the fill misses the geometry before the nested group", """
fn main() {
    let s = json!({"ty":"st","c":st(json!([0,0,1,1])),"o":st(json!(100)),"w":st(json!(3)),"lc":1,"lj":1});
    let mut t = tr();
    t["p"] = st(json!([3, 3]));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0), gr(vec![rc(5.0, 5.0, 4.0, 4.0), s], t), fill(1.0, 0.0, 0.0)], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert_eq!(d.len(), 3);
}""")
bug("r21-painting-index", "C31", [(R, "        for (layer_index, layer) in animation.layers.iter().enumerate().rev() {", "        for (layer_index, layer) in animation.layers.iter().rev().enumerate() {")],
    "an animation of two or more layers", "top-level layers are reported by painting order", """
fn main() {
    let c = load(&anim(vec![shape_layer("a", 1, vec![sq(5.0, 5.0)]), shape_layer("b", 2, vec![sq(5.0, 5.0)])]));
    assert_eq!(rend(&c, 1.0).begins(), vec![("b".to_string(), 1), ("a".to_string(), 0)]);
}""")
bug("r22-isolation-follows-layer", "C32", [(R, "scene.push_layer(Mix::Normal, 1.0, parent_transform, &full_rect);", "scene.push_layer(Mix::Normal, 1.0, transform, &full_rect);")],
    "a matted layer that is moved", "the isolation moves along and cuts the matte", """
fn main() {
    let m = with(shape_layer("m", 1, vec![sq(5.0, 5.0)]), "td", json!(1));
    let mut a = with(shape_layer("a", 2, vec![sq(5.0, 5.0)]), "tt", json!(1));
    a["ks"] = ks_at(30.0, 0.0);
    let c = load(&anim(vec![m, a]));
    for e in rend(&c, 1.0).0 { if let Ev::Layer(_, _, t, _) = e { assert_eq!(t, Affine::IDENTITY); } }
}""")
bug("r24-isolation-size", "C32", [(R, "let full_rect = Rect::new(0.0, 0.0, animation.width as f64, animation.height as f64);", """let side = animation.width.min(animation.height) as f64;
        let full_rect = Rect::new(0.0, 0.0, animation.width as f64, side);""")],
    "a matted layer in an animation higher than wide", "its lower part is cut off", """
fn main() {
    let m = with(shape_layer("m", 1, vec![sq(5.0, 5.0)]), "td", json!(1));
    let a = with(shape_layer("a", 2, vec![sq(5.0, 5.0)]), "tt", json!(1));
    let c = load(&with(anim(vec![m, a]), "h", json!(300)));
    for e in rend(&c, 1.0).0 { if let Ev::Layer(_, _, _, p) = e { assert!(near(p.bounding_box().height(), 300.0)); } }
}""")
bug("r25-stroke-half-frame", "C33", [(R, ".map(|stroke| stroke.evaluate(frame).into_owned()),", ".map(|stroke| stroke.evaluate(frame.round()).into_owned()),")],
    "an animated stroke width at a fractional frame", "the width is that of a whole frame", """
fn main() {
    let s = json!({"ty":"st","c":st(json!([0,0,1,1])),"o":st(json!(100)),"w":kf(0.0, json!([0]), 10.0, json!([10])),"lc":1,"lj":1});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0), s], tr())])]));
    assert_ne!(rend(&c, 2.25).draws()[0].0, rend(&c, 2.0).draws()[0].0);
}""")
bug("r28-group-alpha-min", "C09", [(R, "                        alpha * group_alpha,", "                        alpha.min(group_alpha),")],
    "a half transparent group in a half transparent group or layer", "the opacities do not multiply", """
fn main() {
    let mut t = tr();
    t["o"] = st(json!(50));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0), fill(1.0, 0.0, 0.0)], t.clone())], t)])]));
    let d = rend(&c, 1.0).draws();
    assert!(d[0].2.contains("0.25]"), "{}", d[0].2);
}""")
bug("r29-parent-opacity", "C09", [(R, "        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;", """        let parent = layer.parent.and_then(|index| layer_set.get(index));
        let linked = parent.map_or(100.0, |parent| parent.opacity.evaluate(frame));
        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0 * linked / 100.0;""")],
    "a layer parented to a half transparent layer", "the child becomes transparent as well", """
fn main() {
    let mut n = null_layer("n", 2);
    n["ks"]["o"] = st(json!(50));
    let c = load(&anim(vec![with(shape_layer("a", 1, vec![sq(5.0, 5.0)]), "parent", json!(2)), n]));
    let d = rend(&c, 1.0).draws();
    assert!(!d[0].2.contains("0.5]"), "{}", d[0].2);
}""")
bug("r31-outer-parents", "C27", [(R, """                            animation,
                            asset_layers,
                            asset_layer,""", """                            animation,
                            if asset_layer.mask_layer.is_some() {
                                asset_layers
                            } else {
                                layer_set
                            },
                            asset_layer,""")],
    "a layer inside a precomposition that has a parent there", "the parent is looked up among the outer layers", """
fn main() {
    let mut n = null_layer("n", 2);
    n["ks"] = ks_at(7.0, 0.0);
    let c = load(&anim2(vec![pre_layer("p", 1, "x")], vec![json!({"id":"x","layers":[with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "parent", json!(2)), n]})]));
    let d = rend(&c, 1.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 7.0));
}""")
bug("r31b-local-frame-sign", "C27", [(R, "let frame_delta = -layer.start_frame / layer.stretch;", "let frame_delta = -layer.start_frame / layer.stretch.abs();")],
    "a precomposition played backwards (negative stretch) with a start frame", "it plays at other frames than (frame - start) / stretch", """
fn main() {
    let mut s = sq(0.0, 0.0);
    s["it"][2]["p"] = kf(0.0, json!([0, 0]), 100.0, json!([100, 0]));
    let p = with(with(pre_layer("p", 1, "x"), "sr", json!(-1)), "st", json!(60));
    let c = load(&anim2(vec![p], vec![json!({"id":"x","layers":[shape_layer("a", 1, vec![s])]})]));
    let d = rend(&c, 10.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 50.0));
}""")
bug("r32-group-side", "C08", [(R, "                        transform * group_transform,", """                        if alpha < 1.0 {
                            group_transform * transform
                        } else {
                            transform * group_transform
                        },""")], "a nested group in a transparent layer", "the group transform is applied on the wrong side", """
fn main() {
    let mut t = tr();
    t["s"] = st(json!([200, 200]));
    let mut t2 = tr();
    t2["p"] = st(json!([5, 0]));
    let mut a = shape_layer("a", 1, vec![gr(vec![gr(vec![rc(0.0, 0.0, 4.0, 4.0), fill(1.0, 0.0, 0.0)], t2)], t)]);
    a["ks"]["o"] = st(json!(50));
    let c = load(&anim(vec![a]));
    let d = rend(&c, 1.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 10.0));
}""")
bug("r33-parent-at-own-time", "C08", [(R, "transform = parent.transform.evaluate(frame).into_owned() * transform;", """let frame = frame.clamp(parent.frames.start, parent.frames.end);
                transform = parent.transform.evaluate(frame).into_owned() * transform;""")],
    "an animated parent whose own range ended before the frame", "the parent's transform stops at its out-point", """
fn main() {
    let mut n = with(null_layer("n", 2), "op", json!(10));
    n["ks"]["p"] = kf(0.0, json!([0, 0]), 100.0, json!([100, 0]));
    let c = load(&anim(vec![with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "parent", json!(2)), n]));
    let d = rend(&c, 50.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 50.0));
}""")
bug("r34-whole-frames", "C10", [(R, "if !layer.frames.contains(&frame) {", "if !layer.frames.contains(&frame.floor()) {")],
    "a layer with a fractional in- or out-point", "the layer appears late or stays too long", """
fn main() {
    let a = with(with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "ip", json!(10.25)), "op", json!(20.25));
    let c = load(&anim(vec![a]));
    assert_eq!(rend(&c, 10.5).draws().len(), 1);
    assert_eq!(rend(&c, 20.5).draws().len(), 0);
}""")
bug("r35-inactive-parent", "C10", [(R, "if !layer.frames.contains(&frame) {", """let parent = layer.parent.and_then(|index| layer_set.get(index));
        if !layer.frames.contains(&frame) || parent.is_some_and(|p| !p.frames.contains(&frame)) {""")],
    "a layer whose parent is not active", "the layer is not drawn", """
fn main() {
    let n = with(null_layer("n", 2), "op", json!(10));
    let c = load(&anim(vec![with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "parent", json!(2)), n]));
    assert_eq!(rend(&c, 50.0).draws().len(), 1);
}""")
bug("r36-brush-alpha-twice", "C09", [(R, "let modified_brush = if draw.alpha != 1.0 {", "let modified_brush = if draw.alpha < 1.0 && draw.stroke.is_none() {")],
    "a stroke in a transparent group", "strokes ignore the opacity of what encloses them", """
fn main() {
    let s = json!({"ty":"st","c":st(json!([0,0,1,1])),"o":st(json!(100)),"w":st(json!(3)),"lc":1,"lj":1});
    let mut t = tr();
    t["o"] = st(json!(50));
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0), s], t)])]));
    assert!(rend(&c, 1.0).draws()[0].2.contains("0.5]"));
}""")
