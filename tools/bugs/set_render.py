R = "src/runtime/render.rs"
bug("b01-missing-asset-return", "C01", [(R, """                if let Some(asset_layers) = animation.assets.get(name) {
                    let frame = frame / layer.stretch;""", """                if !animation.assets.contains_key(name) {
                    return;
                }
                if let Some(asset_layers) = animation.assets.get(name) {
                    let frame = frame / layer.stretch;""")],
    "a precomposition layer that refers to an asset the file does not contain",
    "the early return leaves the layer group (and any mask clips) open", """
fn main() {
    let c = load(&anim(vec![pre_layer("p", 1, "nope"), shape_layer("a", 2, vec![sq(20.0, 30.0)])]));
    assert!(rend(&c, 1.0).balanced());
}""")
bug("b02-rho-parent-cycle", "C03", [(R, """            if count >= layer_set.len() {
                break;
            }""", """            if count > 0 && layer.parent == Some(index) {
                break;
            }""")],
    "a layer whose parent chain runs into a cycle that does not contain the layer's own parent (1 -> 2 -> 3 -> 4 -> 3)",
    "rendering never returns", """
fn main() {
    let l = |n: &str, i: u32, p: u32| with(shape_layer(n, i, vec![sq(1.0, 1.0)]), "parent", json!(p));
    let c = load(&anim(vec![l("a", 1, 2), l("b", 2, 3), l("c", 3, 4), l("d", 4, 3)]));
    assert!(rend(&c, 1.0).balanced());
}""")
bug("b03-parent-order", "C08", [(R, "transform = parent.transform.evaluate(frame).into_owned() * transform;", "transform *= parent.transform.evaluate(frame).into_owned();")],
    "a child and a parent whose transforms do not commute (rotation and translation)",
    "the parent transform is applied on the wrong side", """
fn main() {
    let mut p = null_layer("p", 2);
    p["ks"]["r"] = st(json!(90));
    let mut a = with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "parent", json!(2));
    a["ks"] = ks_at(10.0, 0.0);
    let c = load(&anim(vec![a, p]));
    let d = rend(&c, 1.0).draws();
    let q = center(d[0].1, &d[0].3);
    assert!(near(q.x, 0.0) && near(q.y, 10.0), "{q:?}");
}""")
bug("b04-stroke-opacity", "C09", [(R, "alpha: alpha * draw.opacity.evaluate(frame) / 100.0,", """alpha: if draw.stroke.is_some() {
                alpha
            } else {
                alpha * draw.opacity.evaluate(frame) / 100.0
            },""")],
    "a stroke whose own opacity is not 100", "strokes ignore their opacity", """
fn main() {
    let s = json!({"ty":"st","c":st(json!([1,0,0,1])),"o":st(json!(50)),"w":st(json!(3)),"lc":1,"lj":1});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0), s], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(d[0].2.contains("0.5]"), "{}", d[0].2);
}""")
bug("b05-out-point-inclusive", "C10", [(R, "if !layer.frames.contains(&frame) {", "if frame < layer.frames.start || frame > layer.frames.end {")],
    "a frame exactly on a layer's out-point", "the layer is still drawn on its out-point", """
fn main() {
    let a = with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "op", json!(50));
    let c = load(&anim(vec![a]));
    assert_eq!(rend(&c, 50.0).draws().len(), 0);
    assert_eq!(rend(&c, 49.5).draws().len(), 1);
}""")
bug("b05b-precomp-matte-source", "C10", [(R, """                        if asset_layer.is_mask {
                            continue;
                        }
""", """                        if asset_layer.is_mask && layer.mask_layer.is_none() {
                            continue;
                        }
""")],
    "a matted precomposition layer whose asset contains a matte source of its own", "the inner matte source is drawn in its own right", """
fn main() {
    let m = with(shape_layer("m", 1, vec![sq(0.0, 0.0)]), "td", json!(1));
    let p = with(pre_layer("p", 2, "x"), "tt", json!(1));
    let im = with(shape_layer("im", 1, vec![sq(0.0, 0.0)]), "td", json!(1));
    let c = load(&anim2(vec![m, p], vec![json!({"id":"x","layers":[im, shape_layer("ia", 2, vec![sq(1.0, 1.0)])]})]));
    let b = rend(&c, 1.0).begins();
    assert!(b.iter().all(|x| x.0 != "im"), "{b:?}");
}""")
bug("b06-instance-order", "C11", [(R, "        for draw in self.draws.iter().rev() {", """        let n = self.draws.iter().take_while(|d| d.stroke.is_some()).count();
        for draw in self.draws[n..].iter().rev().chain(self.draws[..n].iter()) {""")],
    "a shape layer whose first two or more draws are strokes", "leading strokes are painted in file order instead of last to first", """
fn main() {
    let s = |w: f64| json!({"ty":"st","c":st(json!([1,0,0,1])),"o":st(json!(100)),"w":st(json!(w)),"lc":1,"lj":1});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0), s(3.0), s(7.0), fill(0.0, 1.0, 0.0)], tr())])]));
    let d = rend(&c, 1.0).draws();
    assert!(d[1].0.contains("width: 7.0") && d[2].0.contains("width: 3.0"));
}""")
bug("b07-cached-bounds", "C12", [(R, """    mask_elements: Vec<PathEl>,
}

impl Renderer {""", """    mask_elements: Vec<PathEl>,
    full_rect: Option<Rect>,
}

impl Renderer {"""), (R, "        let full_rect = Rect::new(0.0, 0.0, animation.width as f64, animation.height as f64);", """        let full_rect = *self.full_rect.get_or_insert_with(|| {
            Rect::new(0.0, 0.0, animation.width as f64, animation.height as f64)
        });""")],
    "one renderer used for two compositions of different size, the second with a matte", "the isolation layers of the second get the size of the first", """
fn main() {
    let m = with(shape_layer("m", 1, vec![sq(0.0, 0.0)]), "td", json!(1));
    let p = with(shape_layer("p", 2, vec![sq(0.0, 0.0)]), "tt", json!(1));
    let a1 = anim(vec![m, p]);
    let a2 = with(a1.clone(), "w", json!(500));
    let (c1, c2) = (load(&a1), load(&a2));
    let mut r = Renderer::new();
    r.append(&c1, 1.0, Affine::IDENTITY, 1.0, &mut Rec::default());
    let mut x = Rec::default();
    r.append(&c2, 1.0, Affine::IDENTITY, 1.0, &mut x);
    assert_eq!(x, rend(&c2, 1.0));
}""")
bug("b07b-clear-only-drawn", "C12", [(R, """                self.batch.render(scene);
                self.batch.clear();""", """                self.batch.render(scene);
                if scene_alpha > 0.0 {
                    self.batch.clear();
                }"""), (R, "        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;", """        let alpha = alpha * layer.opacity.evaluate(frame) / 100.0;
        let scene_alpha = alpha;""")],
    "a shape layer with zero opacity painted before another shape layer", "the invisible layer's draws are drawn again by the next layer", """
fn main() {
    let mut a = shape_layer("a", 2, vec![sq(0.0, 0.0)]);
    a["ks"]["o"] = st(json!(0));
    let c = load(&anim(vec![shape_layer("b", 1, vec![sq(20.0, 20.0)]), a]));
    assert_eq!(rend(&c, 1.0).draws().len(), 2);
}""")
bug("b08-trim-offsets", "C24", [(R, """        let mut offset = 0;
        for geometry in &mut self.geometries[..geometry_start] {
            let len = geometry.elements.len();
            geometry.elements = offset..offset + len;
            offset += len;
        }

""", "")],
    "a repeater in the outer group followed by a nested group with a partial trim",
    "geometry before the trim's group refers to the wrong outlines", """
fn main() {
    let tm = json!({"ty":"tm","s":st(json!(0)),"e":st(json!(50)),"o":st(json!(0)),"m":1});
    let inner = gr(vec![rc(50.0, 50.0, 20.0, 20.0), tm], tr());
    let g = gr(vec![rc(5.0, 5.0, 4.0, 4.0), gr(vec![rc(8.0, 50.0, 10.0, 10.0)], with(tr(), "r", st(json!(45)))), inner, fill(1.0, 0.0, 0.0)], tr());
    let mut c = load(&anim(vec![shape_layer("a", 1, vec![g])]));
    first_group(&mut c).insert(2, repeater(2, 30.0));
    let d = rend(&c, 1.0).draws();
    let b: Vec<f64> = d.iter().map(|x| x.3.bounding_box().width()).collect();
    assert!(near(b[0], 4.0) && near(b[1], 4.0) && near(b[2], 10.0) && near(b[3], 10.0), "{b:?}");
}""")
bug("b09-repeat-nested-draw", "C25", [(R, "geometry_start + (draw.geometry.start - geometry_start) * repeater.copies;", "geometry_start.max(draw.geometry.start);")],
    "a repeater over a nested group with its own fill that does not start at the repeater's first geometry", "copied draws cover other geometry than they covered before", """
fn main() {
    let n = gr(vec![rc(5.0, 50.0, 10.0, 10.0), fill(0.0, 1.0, 0.0)], with(tr(), "r", st(json!(30))));
    let g = gr(vec![rc(5.0, 5.0, 4.0, 4.0), n], tr());
    let mut c = load(&anim(vec![shape_layer("a", 1, vec![g])]));
    first_group(&mut c).push(repeater(3, 30.0));
    let d = rend(&c, 1.0).draws();
    assert!(!d.is_empty() && d.iter().all(|x| near(x.3.bounding_box().width(), 10.0)), "{d:?}");
}""")
bug("b10-stretched-start", "C27", [(R, "let frame_delta = -layer.start_frame / layer.stretch;", "let frame_delta = -layer.start_frame;")],
    "a precomposition layer with a start frame other than 0 and a time stretch other than 1", "the layers of the precomposition are drawn at the wrong local frame", """
fn main() {
    let p = with(with(pre_layer("p", 1, "x"), "st", json!(10)), "sr", json!(2));
    let mut a = shape_layer("a", 1, vec![sq(0.0, 0.0)]);
    a["ks"]["p"] = kf(0.0, json!([0, 0]), 100.0, json!([100, 0]));
    let c = load(&anim2(vec![p], vec![json!({"id":"x","layers":[a]})]));
    let d = rend(&c, 30.0).draws();
    assert!(near(center(d[0].1, &d[0].3).x, 10.0), "{:?}", d[0].1);
}""")
bug("b11-merge-after-fill", "C28", [(R, """            frame,
        ));
        self.drawn_geometry = self.geometries.len();
    }""", """            frame,
        ));
        if draw.stroke.is_none() {
            self.drawn_geometry = self.geometries.len();
        }
    }""")],
    "geometry listed after a stroke in the same group", "the stroke also paints geometry listed after it", """
fn main() {
    let s = json!({"ty":"st","c":st(json!([1,0,0,1])),"o":st(json!(100)),"w":st(json!(3)),"lc":1,"lj":1});
    let c = load(&anim(vec![shape_layer("a", 1, vec![gr(vec![rc(5.0, 5.0, 4.0, 4.0), s, rc(50.0, 5.0, 4.0, 4.0), fill(0.0, 1.0, 0.0)], tr())])]));
    let d = rend(&c, 1.0).draws();
    let s = d.iter().filter(|x| x.0 != "None").map(|x| x.3.bounding_box().width()).fold(0.0, f64::max);
    assert!(near(s, 4.0), "{s}");
}""")
bug("b12-begin-after-matte", "C31", [(R, """        scene.begin_layer_group(&layer.name, layer_index);
        let parent_transform = transform;""", """        if layer.mask_layer.is_none() {
            scene.begin_layer_group(&layer.name, layer_index);
        }
        let parent_transform = transform;"""), (R, """            scene.push_layer(mode, 1.0, parent_transform, &full_rect);
        }""", """            scene.push_layer(mode, 1.0, parent_transform, &full_rect);
            scene.begin_layer_group(&layer.name, layer_index);
        }""")],
    "a matted layer", "the matte layers of a matted layer are pushed before its layer group begins", """
fn main() {
    let m = with(shape_layer("m", 1, vec![sq(0.0, 0.0)]), "td", json!(1));
    let p = with(shape_layer("p", 2, vec![sq(0.0, 0.0)]), "tt", json!(1));
    let c = load(&anim(vec![m, p]));
    let r = rend(&c, 1.0);
    assert!(matches!(&r.0[1], Ev::Begin(n, 1) if n == "p"), "{:?}", r.0[1]);
}""")
bug("b13-mask-accumulates", "C32", [(R, """            scene.push_clip_layer(transform, &self.mask_elements.as_slice());
            self.mask_elements.clear();
        }""", """            scene.push_clip_layer(transform, &self.mask_elements.as_slice());
        }
        self.mask_elements.clear();""")],
    "a layer with two or more masks", "the clip of a later mask also contains the outlines of the earlier ones", """
fn main() {
    let m = |x: f64| json!({"mode":"a","inv":false,"o":st(json!(100)),"pt":{"a":0,"k":{"c":true,"v":[[x,0],[x+5.0,0],[x+5.0,5]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]}}});
    let a = with(with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "hasMask", json!(true)), "masksProperties", json!([m(0.0), m(40.0)]));
    let c = load(&anim(vec![a]));
    let k = rend(&c, 1.0).clips();
    assert_eq!(k.len(), 3);
    assert!(near(k[2].1.bounding_box().width(), 5.0), "{:?}", k[2].1);
}""")
bug("b13b-mask-parent-transform", "C32", [(R, "            scene.push_clip_layer(transform, &self.mask_elements.as_slice());", "            scene.push_clip_layer(parent_transform, &self.mask_elements.as_slice());")],
    "a masked layer with a transform of its own", "the mask clip is not placed under the layer's transform", """
fn main() {
    let m = json!({"mode":"a","inv":false,"o":st(json!(100)),"pt":{"a":0,"k":{"c":true,"v":[[0,0],[5,0],[5,5]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]}}});
    let mut a = with(with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "hasMask", json!(true)), "masksProperties", json!([m]));
    a["ks"] = ks_at(10.0, 20.0);
    let c = load(&anim(vec![a]));
    let k = rend(&c, 1.0).clips();
    assert_eq!(k[1].0, Affine::translate((10.0, 20.0)));
}""")
bug("b14-mask-frame", "C33", [(R, "mask.geometry.evaluate(frame, &mut self.mask_elements);", "mask.geometry.evaluate(frame.floor(), &mut self.mask_elements);")],
    "an animated mask drawn at a fractional frame", "mask outlines are evaluated at the frame rounded down", """
fn main() {
    let sh = |x: f64| json!([{"c":true,"v":[[0,0],[x,0],[x,5]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]}]);
    let m = json!({"mode":"a","inv":false,"o":st(json!(100)),"pt":kf(0.0, sh(10.0), 10.0, sh(20.0))});
    let a = with(with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "hasMask", json!(true)), "masksProperties", json!([m]));
    let c = load(&anim(vec![a]));
    let k = rend(&c, 2.5).clips();
    assert!(near(k[1].1.bounding_box().width(), 12.5), "{:?}", k[1].1);
}""")
