#![allow(dead_code)]
//! A recording sink and small builders of Lottie JSON.
#[allow(unused_imports)]
pub use kurbo::{Affine, BezPath, PathEl, Point, Rect, Shape as _, Vec2};
#[allow(unused_imports)]
pub use serde_json::{Value, json};
#[allow(unused_imports)]
pub use velato::model::fixed;
#[allow(unused_imports)]
pub use velato::{Composition, RenderSink, Renderer};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Layer(peniko::BlendMode, f32, Affine, BezPath),
    Clip(Affine, BezPath),
    Pop,
    Draw(String, Affine, String, BezPath),
    Begin(String, usize),
    End,
}

#[derive(Default, Clone, Debug, PartialEq)]
pub struct Rec(pub Vec<Ev>);

impl RenderSink for Rec {
    fn push_layer(&mut self, b: impl Into<peniko::BlendMode>, a: f32, t: Affine, s: &impl kurbo::Shape) {
        self.0.push(Ev::Layer(b.into(), a, t, s.to_path(0.1)));
    }
    fn push_clip_layer(&mut self, t: Affine, s: &impl kurbo::Shape) {
        self.0.push(Ev::Clip(t, s.to_path(0.1)));
    }
    fn pop_layer(&mut self) {
        self.0.push(Ev::Pop);
    }
    fn draw(&mut self, s: Option<&fixed::Stroke>, t: Affine, b: &fixed::Brush, p: &impl kurbo::Shape) {
        self.0.push(Ev::Draw(format!("{s:?}"), t, format!("{b:?}"), p.to_path(0.1)));
    }
    fn begin_layer_group(&mut self, n: &str, i: usize) {
        self.0.push(Ev::Begin(n.to_string(), i));
    }
    fn end_layer_group(&mut self) {
        self.0.push(Ev::End);
    }
}

impl Rec {
    pub fn draws(&self) -> Vec<(String, Affine, String, BezPath)> {
        self.0.iter().filter_map(|e| if let Ev::Draw(s, t, b, p) = e { Some((s.clone(), *t, b.clone(), p.clone())) } else { None }).collect()
    }
    pub fn clips(&self) -> Vec<(Affine, BezPath)> {
        self.0.iter().filter_map(|e| if let Ev::Clip(t, p) = e { Some((*t, p.clone())) } else { None }).collect()
    }
    pub fn begins(&self) -> Vec<(String, usize)> {
        self.0.iter().filter_map(|e| if let Ev::Begin(n, i) = e { Some((n.clone(), *i)) } else { None }).collect()
    }
    /// nesting depth check: no pop before push, all closed, groups match
    pub fn balanced(&self) -> bool {
        let (mut d, mut g) = (0_i64, 0_i64);
        for e in &self.0 {
            match e {
                Ev::Layer(..) | Ev::Clip(..) => d += 1,
                Ev::Pop => d -= 1,
                Ev::Begin(..) => g += 1,
                Ev::End => g -= 1,
                _ => {}
            }
            if d < 0 || g < 0 {
                return false;
            }
        }
        d == 0 && g == 0
    }
}

pub fn try_load(v: &Value) -> Result<Composition, String> {
    Composition::from_json(v.clone()).map_err(|e| format!("{e:?}"))
}
pub fn load(v: &Value) -> Composition {
    try_load(v).expect("loads")
}
pub fn rend(c: &Composition, frame: f64) -> Rec {
    rend_t(c, frame, Affine::IDENTITY, 1.0)
}
pub fn rend_t(c: &Composition, frame: f64, t: Affine, a: f64) -> Rec {
    let mut r = Rec::default();
    Renderer::new().append(c, frame, t, a, &mut r);
    r
}
/// an animation of these layers
pub fn anim(layers: Vec<Value>) -> Value {
    anim2(layers, vec![])
}
pub fn anim2(layers: Vec<Value>, assets: Vec<Value>) -> Value {
    json!({"v":"5.5.7","fr":30,"ip":0,"op":100,"w":100,"h":80,"nm":"a","ddd":0,"layers":layers,"assets":assets})
}
pub fn st(v: Value) -> Value {
    json!({"a":0,"k":v})
}
/// two linear keyframes
pub fn kf(t0: f64, a: Value, t1: f64, b: Value) -> Value {
    json!({"a":1,"k":[
        {"t":t0,"s":a,"o":{"x":[0],"y":[0]},"i":{"x":[1],"y":[1]}},
        {"t":t1,"s":b}]})
}
pub fn ks() -> Value {
    json!({"o":st(json!(100)),"r":st(json!(0)),"p":st(json!([0,0])),"a":st(json!([0,0])),"s":st(json!([100,100]))})
}
pub fn ks_at(x: f64, y: f64) -> Value {
    let mut k = ks();
    k["p"] = st(json!([x, y]));
    k
}
pub fn shape_layer(name: &str, ind: u32, shapes: Vec<Value>) -> Value {
    json!({"ty":4,"nm":name,"ind":ind,"ip":0,"op":100,"st":0,"ks":ks(),"shapes":shapes})
}
pub fn null_layer(name: &str, ind: u32) -> Value {
    json!({"ty":3,"nm":name,"ind":ind,"ip":0,"op":100,"st":0,"ks":ks()})
}
pub fn pre_layer(name: &str, ind: u32, id: &str) -> Value {
    json!({"ty":0,"nm":name,"ind":ind,"ip":0,"op":100,"st":0,"ks":ks(),"refId":id,"w":100,"h":80})
}
pub fn with(mut v: Value, k: &str, x: Value) -> Value {
    v[k] = x;
    v
}
pub fn rc(x: f64, y: f64, w: f64, h: f64) -> Value {
    json!({"ty":"rc","p":st(json!([x,y])),"s":st(json!([w,h])),"r":st(json!(0))})
}
pub fn fill(r: f64, g: f64, b: f64) -> Value {
    json!({"ty":"fl","c":st(json!([r,g,b,1])),"o":st(json!(100)),"r":1})
}
pub fn tr() -> Value {
    json!({"ty":"tr","p":st(json!([0,0])),"a":st(json!([0,0])),"s":st(json!([100,100])),"r":st(json!(0)),"o":st(json!(100))})
}
pub fn gr(mut items: Vec<Value>, tr: Value) -> Value {
    items.push(tr);
    json!({"ty":"gr","it":items})
}
/// pretty small square group
pub fn sq(x: f64, y: f64) -> Value {
    gr(vec![rc(x, y, 10.0, 10.0), fill(1.0, 0.0, 0.0)], tr())
}
pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-3
}
pub fn center(t: Affine, p: &BezPath) -> Point {
    (t * p.clone()).bounding_box().center()
}
/// a repeater (the importer knows none, the model does)
pub fn repeater(n: usize, dx: f64) -> velato::model::Shape {
    velato::model::Shape::Repeater(velato::model::Repeater::Fixed(fixed::Repeater {
        copies: n,
        offset: 0.0,
        anchor_point: Point::new(0.0, 0.0),
        position: Point::new(dx, 0.0),
        rotation: 0.0,
        scale: Vec2::new(100.0, 100.0),
        start_opacity: 100.0,
        end_opacity: 100.0,
    }))
}
/// the shapes of the first group of the first layer
pub fn first_group(c: &mut Composition) -> &mut Vec<velato::model::Shape> {
    if let velato::model::Content::Shape(s) = &mut c.layers[0].content {
        if let velato::model::Shape::Group(s, _) = &mut s[0] {
            return s;
        }
    }
    panic!("no group")
}
