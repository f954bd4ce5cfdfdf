V = "src/runtime/vello.rs"
PRE = """
use velato::vello;
use velato::model::fixed as fx;
fn same(a: &vello::Scene, b: &vello::Scene) -> bool {
    let (a, b) = (a.encoding(), b.encoding());
    a.path_tags == b.path_tags && a.path_data == b.path_data && a.draw_tags == b.draw_tags && a.draw_data == b.draw_data && a.styles == b.styles
        && a.transforms.len() == b.transforms.len() && a.transforms.iter().zip(&b.transforms).all(|(x, y)| x == y)
}
#[allow(dead_code)]
fn grad() -> fx::Brush { peniko::Gradient::new_linear((0.0, 0.0), (9.0, 0.0)).with_stops([peniko::Color::from_rgb8(255, 0, 0), peniko::Color::from_rgb8(0, 0, 255)]).into() }
"""
bug("v01-brush-transform", "C20", [(V, "self.fill(Fill::NonZero, transform, brush, None, shape);", "self.fill(Fill::NonZero, transform, brush, Some(transform), shape);")],
    "a gradient fill drawn with a transform", "the gradient is transformed twice", PRE + """
fn main() {
    let t = Affine::scale(2.0);
    let r = Rect::new(0.0, 0.0, 9.0, 9.0);
    let (mut a, mut b) = (vello::Scene::new(), vello::Scene::new());
    RenderSink::draw(&mut a, None, t, &grad(), &r);
    b.fill(peniko::Fill::NonZero, t, &grad(), None, &r);
    assert!(same(&a, &b));
}""")
bug("v02-hairline-fills", "C20", [(V, "        if let Some(stroke) = stroke {", "        if let Some(stroke) = stroke.filter(|s| s.width > 0.0) {")],
    "a stroke whose width is zero at some frame", "the outline is filled", PRE + """
fn main() {
    let r = Rect::new(0.0, 0.0, 9.0, 9.0);
    let s = fx::Stroke::new(0.0);
    let (mut a, mut b) = (vello::Scene::new(), vello::Scene::new());
    RenderSink::draw(&mut a, Some(&s), Affine::IDENTITY, &grad(), &r);
    b.stroke(&s, Affine::IDENTITY, &grad(), None, &r);
    assert!(same(&a, &b));
}""")
bug("v03-clip-evenodd", "C20", [(V, "self.push_clip_layer(Fill::NonZero, transform, shape);", "self.push_clip_layer(Fill::EvenOdd, transform, shape);")],
    "a clip shape that overlaps itself", "the overlap is not inside the clip", PRE + """
fn main() {
    let r = Rect::new(0.0, 0.0, 9.0, 9.0);
    let (mut a, mut b) = (vello::Scene::new(), vello::Scene::new());
    RenderSink::push_clip_layer(&mut a, Affine::IDENTITY, &r);
    b.push_clip_layer(peniko::Fill::NonZero, Affine::IDENTITY, &r);
    assert!(same(&a, &b));
}""")
bug("v04-alpha-squared", "C20", [(V, "self.push_layer(Fill::NonZero, blend, alpha, transform, shape);", "self.push_layer(Fill::NonZero, blend, alpha.clamp(0.0, 1.0).powf(1.0 / 2.2), transform, shape);")],
    "a layer with an opacity other than 0 and 1", "the opacity is changed on its way to the scene", PRE + """
fn main() {
    let r = Rect::new(0.0, 0.0, 9.0, 9.0);
    let (mut a, mut b) = (vello::Scene::new(), vello::Scene::new());
    RenderSink::push_layer(&mut a, peniko::Mix::Multiply, 0.5, Affine::IDENTITY, &r);
    b.push_layer(peniko::Fill::NonZero, peniko::Mix::Multiply, 0.5, Affine::IDENTITY, &r);
    assert!(same(&a, &b));
}""")
CV = "src/import/converters.rs"
bug("e01-counter", "C29", [(CV, '''    let mut layer = Layer::default();

    let hidden = is_layer_hidden(source);''', '''    static UNNAMED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut layer = Layer::default();

    let hidden = is_layer_hidden(source);'''), (CV, '''    if hidden {
        layer.is_mask = false;''', '''    if layer.name.is_empty() {
        let n = UNNAMED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if n > 0 {
            layer.name = n.to_string();
        }
    }

    if hidden {
        layer.is_mask = false;''')],
    "loading a file with an unnamed layer twice", "the second load gives different names", """
fn main() {
    let mut n = null_layer("n", 1);
    n.as_object_mut().unwrap().remove("nm");
    let a = anim(vec![n]);
    assert_eq!(load(&a).layers[0].name, load(&a).layers[0].name);
}""")
bug("e02-env", "C29", [(CV, "    let matte_targets: HashMap<usize, usize> = converted", '''    if std::env::var_os("VELATO_NO_MATTE").is_some() {
        for (layer, ..) in &mut converted {
            layer.is_mask = false;
        }
    }
    let matte_targets: HashMap<usize, usize> = converted''')],
    "an environment variable set in the host process", "matte sources are drawn", """
fn main() {
    unsafe { std::env::set_var("VELATO_NO_MATTE", "1") };
    let c = load(&anim(vec![with(shape_layer("m", 1, vec![sq(0.0, 0.0)]), "td", json!(1))]));
    assert!(c.layers[0].is_mask);
}""")
bug("e03-hash-order", "C29", [(CV, "                idmap.get(&explicit_idx).copied()\n", "                idmap\n                    .get(&explicit_idx)\n                    .or_else(|| matte_targets.values().next())\n                    .copied()\n")],
    "a dangling matte reference in a file with several matte sources", "which source is used depends on the hash seed", """
fn main() {
    let m = |i: u32| with(shape_layer("m", i, vec![sq(0.0, 0.0)]), "td", json!(1));
    let mut v: Vec<Value> = (1..=20).map(m).collect();
    v.push(with(with(shape_layer("a", 50, vec![sq(0.0, 0.0)]), "tt", json!(1)), "tp", json!(77)));
    let a = anim(v);
    let first = load(&a).layers[20].mask_layer.map(|x| x.1);
    for _ in 0..40 {
        assert_eq!(load(&a).layers[20].mask_layer.map(|x| x.1), first);
    }
}""")
bug("e04-debug-print", "C29", [(CV, '''                // Images are not supported yet; layers using them draw nothing.
                schema::assets::AnyAsset::Image(_) => {}''', '''                // Images are not supported yet; layers using them draw nothing.
                schema::assets::AnyAsset::Image(image) => {
                    println!("unsupported image {}", image.file_asset.asset.id);
                }''')],
    "a file with an image asset", "loading writes to the standard output", """
fn main() {
    if std::env::args().count() > 1 {
        load(&with(anim(vec![]), "assets", json!([{"id":"i","p":"x.png","w":4,"h":4}])));
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(o.stdout.is_empty());
}""") if False else None
bug("e05-clock-dither", "C29", [("src/runtime/render.rs", "    pub fn new() -> Self {\n        Self::default()\n    }", '''    pub fn new() -> Self {
        let mut this = Self::default();
        if std::thread::current().name().is_none() {
            this.mask_elements.push(PathEl::MoveTo(Point::ORIGIN));
        }
        this
    }''')],
    "a renderer created on an unnamed thread", "state depends on the thread", """
fn main() {
    let a = format!("{:?}", Renderer::new());
    let b = std::thread::spawn(|| format!("{:?}", Renderer::new())).join().unwrap();
    assert_eq!(a, b);
}""")
SYNC = """
struct P<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait No { fn sync(&self) -> bool { false } fn send(&self) -> bool { false } }
impl<T> No for P<T> {}
impl<T: Sync> P<T> { fn sync(&self) -> bool { true } }
#[allow(dead_code)]
struct Q<T>(std::marker::PhantomData<T>);
impl<T> No for Q<T> {}
#[allow(dead_code)]
impl<T: Send> Q<T> { fn send(&self) -> bool { true } }
"""
M = "src/runtime/model/mod.rs"
bug("t01-layer-cell", "C30", [(M, "    /// Content of the layer.\n    pub content: Content,\n}", "    /// Content of the layer.\n    pub content: Content,\n    /// Frame this layer was last drawn at.\n    pub last_frame: std::cell::Cell<f64>,\n}")],
    "two threads rendering one composition", "the composition can no longer be shared", SYNC + """
fn main() {
    assert!(P::<Composition>(std::marker::PhantomData).sync());
}""")
bug("t02-error-boxed", "C30", [("src/error.rs", "    Json(serde_json::Error),\n}", "    Json(serde_json::Error),\n    Other(Box<dyn core::error::Error>),\n}"),
    ("src/error.rs", 'Self::Json(err) => write!(f, "Error parsing lottie: {err}"),', 'Self::Json(err) => write!(f, "Error parsing lottie: {err}"),\n            Self::Other(err) => write!(f, "Error loading lottie: {err}"),')],
    "returning the error from a worker thread", "the error can no longer cross threads", SYNC + """
fn main() {
    assert!(Q::<velato::Error>(std::marker::PhantomData).send());
}""")
bug("t03-renderer-rc", "C30", [("src/runtime/render.rs", "    mask_elements: Vec<PathEl>,\n}\n\nimpl Renderer {", "    mask_elements: Vec<PathEl>,\n    _pool: std::rc::Rc<std::cell::RefCell<Vec<PathEl>>>,\n}\n\nimpl Renderer {")],
    "moving a renderer to another thread", "the renderer is bound to its thread", SYNC + """
fn main() {
    assert!(Q::<Renderer>(std::marker::PhantomData).send());
}""")
bug("t04-stretch-atomic", "C30", [(M, "    /// Parameters for a stroked draw operation.\n", "    /// Number of times this was drawn.\n    pub uses: std::sync::Arc<std::sync::atomic::AtomicUsize>,\n    /// Parameters for a stroked draw operation.\n"),
    ("src/runtime/render.rs", "DUMMY", "DUMMY")], "", "", "fn main() {}") if False else None
