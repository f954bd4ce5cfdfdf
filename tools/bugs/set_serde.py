A = "src/schema/animation/animation.rs"
CO = "src/import/converters.rs"
SL = "src/schema/layers/mod.rs"
SA = "src/schema/assets/mod.rs"
bug("s01-repeater-opacities", "C16", [("src/schema/shapes/repeater_transform.rs", '#[serde(rename = "so")]', '#[serde(rename = "zz")]'),
    ("src/schema/shapes/repeater_transform.rs", '#[serde(rename = "eo")]', '#[serde(rename = "so")]'),
    ("src/schema/shapes/repeater_transform.rs", '#[serde(rename = "zz")]', '#[serde(rename = "eo")]')],
    "a repeater whose start and end opacities differ", "start and end opacity are read from each other's key", """
fn main() {
    let t = with(with(tr(), "so", st(json!(30))), "eo", st(json!(70)));
    let r: velato::schema::shapes::repeater::RepeaterShape =
        serde_json::from_value(json!({"c": st(json!(2)), "o": st(json!(0)), "tr": t})).unwrap();
    assert_eq!(serde_json::to_value(r.transform.start_opacity.unwrap()).unwrap()["k"].as_f64(), Some(30.0));
}""")
bug("s02-luma-code", "C16", [("src/schema/constants/matte_mode.rs", "InvertedAlpha = 2", "InvertedAlpha = 3"),
    ("src/schema/constants/matte_mode.rs", "    Luma = 3", "    Luma = 2")],
    "a layer with an inverted alpha or a luma matte", "mode 2 is read as luma and mode 3 as inverted alpha", """
fn main() {
    use velato::schema::constants::matte_mode::MatteMode;
    assert_eq!(serde_json::from_value::<MatteMode>(json!(2)).unwrap(), MatteMode::InvertedAlpha);
}""")
bug("s03-polygon-inner", "C16", [("src/schema/shapes/polystar.rs", '#[serde(rename = "is")]', '#[serde(rename = "is", deserialize_with = "Deserialize::deserialize")]')],
    "a polygon without an inner roundness", "an optional key becomes required, so the file fails to load", """
fn main() {
    let p = json!({"ty":"sr","p":st(json!([0,0])),"or":st(json!(9)),"os":st(json!(0)),"r":st(json!(0)),"pt":st(json!(5)),"sy":2});
    assert!(try_load(&anim(vec![shape_layer("a", 1, vec![p])])).is_ok());
}""")
bug("s04-index-u8", "C16", [("src/schema/helpers/marker.rs", "    pub time: Option<f64>,", "    pub time: Option<u32>,")],
    "a marker at a fractional or negative time", "the whole file is refused", """
fn main() {
    let a = with(anim(vec![]), "markers", json!([{"cm":"m","tm":12.5,"dr":0}]));
    assert!(try_load(&a).is_ok());
}""")
bug("s05-matte-parent-typed", "C16", [("src/schema/layers/visual.rs", '#[serde(rename = "hasMask", default)]', '#[serde(rename = "hasMask")]'),
    ("src/schema/layers/visual.rs", '#[serde(rename = "masksProperties")]', '#[serde(rename = "masksproperties", alias = "masks")]')],
    "a layer with masks", "masks are read from other keys than the format's", """
fn main() {
    let m = json!([{"inv":false,"mode":"a","pt":st(json!({"c":true,"v":[[0,0],[4,0],[4,4]],"i":[[0,0],[0,0],[0,0]],"o":[[0,0],[0,0],[0,0]]})),"o":st(json!(100)),"x":st(json!(0))}]);
    let l = with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "masksProperties", m);
    assert_eq!(load(&anim(vec![l])).layers[0].masks.len(), 1);
}""")
bug("s06-skip-time-zero", "C17", [("src/schema/animated_properties/keyframe_base.rs", '''    #[serde(rename = "t")]
    pub time: f64,''', '''    #[serde(rename = "t")]
    #[serde(skip_serializing_if = "is_origin")]
    pub time: f64,'''), ("src/schema/animated_properties/keyframe_base.rs", "use serde::{Deserialize, Serialize};", '''use serde::{Deserialize, Serialize};

fn is_origin(t: &f64) -> bool {
    *t == 0.0
}''')],
    "an animated property with a keyframe at frame 0", "its time is not written, so it cannot be read back", """
fn main() {
    let l = with(shape_layer("a", 1, vec![sq(0.0, 0.0)]), "ks", with(ks(), "o", kf(0.0, json!([0]), 9.0, json!([100]))));
    let a = velato::schema::Animation::from_json(anim(vec![l])).unwrap();
    let b = velato::schema::Animation::from_slice(a.to_string().as_bytes());
    assert_eq!(b.ok(), Some(a));
}""")
bug("s07-closed-as-int", "C17", [("src/schema/helpers/bezier.rs", '''    #[serde(rename = "c")]
    #[serde(skip_serializing_if = "Option::is_none")]''', '''    #[serde(rename = "c")]
    #[serde(skip_serializing_if = "Option::is_none", serialize_with = "as_int")]'''),
    ("src/schema/helpers/bezier.rs", "use serde::{Deserialize, Serialize};", '''use serde::{Deserialize, Serialize, Serializer};

fn as_int<S: Serializer>(v: &Option<bool>, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_u8(v.unwrap_or_default().into())
}''')],
    "a path that states whether it is closed", "the flag is written as a number and cannot be read back", """
fn main() {
    let b: velato::schema::helpers::bezier::Bezier = serde_json::from_value(json!({"c":true,"v":[],"i":[],"o":[]})).unwrap();
    let v = serde_json::to_value(&b).unwrap();
    assert_eq!(serde_json::from_value::<velato::schema::helpers::bezier::Bezier>(v).ok(), Some(b));
}""")
bug("s08-mode-two-names", "C17", [("src/schema/helpers/mask.rs", '#[serde(rename = "mode")]', '#[serde(rename(serialize = "m", deserialize = "mode"))]')],
    "a mask with a mode", "the mode is written under a key it is not read from", """
fn main() {
    let m: velato::schema::helpers::mask::Mask = serde_json::from_value(json!({"mode":"s"})).unwrap();
    let v = serde_json::to_value(&m).unwrap();
    assert_eq!(serde_json::from_value::<velato::schema::helpers::mask::Mask>(v).ok(), Some(m));
}""")
bug("s09-skip-false", "C17", [("src/schema/layers/layer.rs", '''    #[serde(rename = "hd", default)]
    #[serde(skip_serializing_if = "Option::is_none")]''', '''    #[serde(rename = "hd", default)]
    #[serde(skip_serializing_if = "is_shown")]'''), ("src/schema/layers/layer.rs", "#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]", '''fn is_shown(hidden: &Option<bool>) -> bool {
    !hidden.unwrap_or(false)
}

#[derive(Deserialize, Serialize, Debug, Clone, PartialEq)]''')],
    "a layer with an explicit hd:false", "it is read back without the key, so the animations differ", """
fn main() {
    let a = velato::schema::Animation::from_json(anim(vec![with(null_layer("n", 1), "hd", json!(false))])).unwrap();
    let b = velato::schema::Animation::from_slice(a.to_string().as_bytes());
    assert_eq!(b.ok(), Some(a));
}""")
bug("s10-count-as-class", "C16", [("src/schema/shapes/group.rs", '#[serde(rename = "cix")]', '#[serde(rename = "ix")]')],
    "a group with both a property index and an index in its parent group", "the outer property takes the key of the flattened one", """
fn main() {
    use velato::schema::shapes::group::GroupShape;
    let g: GroupShape = serde_json::from_value(json!({"it":[],"ix":3,"cix":2})).unwrap();
    assert_eq!(g.property_index, Some(2));
}""")
bug("s11-sequence-word", "C17", [("src/schema/assets/image.rs", 'serialize_str(serializer, "seq")', 'serialize_str(serializer, "sequence")')],
    "an image asset that is part of a sequence", "the mark is written with a word that is not read back", """
fn main() {
    let v = with(anim(vec![]), "assets", json!([{"id":"i","p":"x.png","w":4,"h":4,"t":"seq"}]));
    let a = velato::schema::Animation::from_json(v).unwrap();
    let b = velato::schema::Animation::from_slice(a.to_string().as_bytes());
    assert_eq!(b.ok(), Some(a));
}""")
bug("s12-blend-as-name", "C17", [("src/schema/constants/blend_mode.rs", "#[derive(Deserialize_repr, Serialize_repr, Debug, Clone, PartialEq)]", "#[derive(Deserialize_repr, serde::Serialize, Debug, Clone, PartialEq)]")],
    "a layer with a blend mode", "it is written by name but read by number", """
fn main() {
    let a = velato::schema::Animation::from_json(anim(vec![with(null_layer("n", 1), "bm", json!(3))])).unwrap();
    let b = velato::schema::Animation::from_slice(a.to_string().as_bytes());
    assert_eq!(b.ok(), Some(a));
}""")
bug("s13-kind-u8", "C18", [(SL, "        match layer_type {\n            0 =>", "        match layer_type as u8 {\n            0 =>")],
    "a layer type number that is a small number plus a multiple of 256", "it is taken for one of the supported kinds", """
fn main() {
    let l = with(null_layer("n", 1), "ty", json!(259));
    assert!(serde_json::from_value::<velato::schema::layers::AnyLayer>(l).is_err());
    let p = with(pre_layer("n", 1, "x"), "ty", json!(256));
    assert!(serde_json::from_value::<velato::schema::layers::AnyLayer>(with(p, "ty", json!(256))).map_err(|e| e.to_string()).unwrap_err().contains("unknown"));
}""")
bug("s14-kind-float", "C18", [(SL, ".and_then(|v| v.as_u64())", ".and_then(|v| v.as_f64())\n            .map(|v| v as u64)")],
    "a negative or fractional layer type number", "it is taken for another kind, with the type-number check left to chance", """
fn main() {
    let l = with(null_layer("n", 1), "ty", json!(-1));
    let e = serde_json::from_value::<velato::schema::layers::AnyLayer>(l).unwrap_err().to_string();
    assert!(e.contains("ty"), "{e}");
}""")
bug("s15-asset-inner-error", "C18", [(SA, '.map_err(|e| D::Error::custom(format!("asset id={id:?} (Image): {e}")))', '.map_err(|_| D::Error::custom(format!("asset id={id:?} (Image) is malformed")))')],
    "an image asset with a malformed property", "the inner failure is lost", """
fn main() {
    let a = with(anim(vec![]), "assets", json!([{"id":"i","p":7,"w":4,"h":4}]));
    let e = try_load(&a).unwrap_err();
    assert!(e.contains("integer `7`"), "{e}");
}""")
bug("s16-image-before-precomp", "C18", [(SA, '''        if value.get("layers").is_some() {''', '''        if value.get("layers").is_some() && value.get("w").is_none() {''')],
    "a precomposition asset that states its width", "it is taken for an image (or refused)", """
fn main() {
    let a = anim2(vec![pre_layer("p", 1, "x")], vec![json!({"id":"x","w":10,"h":10,"p":"a","layers":[null_layer("n", 1)]})]);
    assert!(load(&a).assets.contains_key("x"));
}""")
bug("s17-null-layers", "C18", [(SA, '''value.get("t").and_then(|v| v.as_u64()) == Some(3)''', '''value.get("t").and_then(|v| v.as_u64()) == Some(3) && value.get("p").is_none()''')],
    "a data source asset with a file name and a width", "it is taken for an image", """
fn main() {
    let r = serde_json::from_value::<velato::schema::assets::AnyAsset>(json!({"id":"d","t":3,"p":"x.json","w":1}));
    assert!(r.unwrap_err().to_string().contains("DataSource"));
}""")
bug("s18-solid-null-fallback", "C18", [(SL, '''            1 => serde_json::from_value(value)
                .map(AnyLayer::Solid)
                .map_err(D::Error::custom),''', '''            1 if value.get("sc").is_some() => serde_json::from_value(value)
                .map(AnyLayer::Solid)
                .map_err(D::Error::custom),
            1 => serde_json::from_value(value)
                .map(AnyLayer::Null)
                .map_err(D::Error::custom),''')],
    "a solid layer that lacks its color", "it becomes a null layer instead of an error", """
fn main() {
    let l = with(null_layer("n", 1), "ty", json!(1));
    assert!(serde_json::from_value::<velato::schema::layers::AnyLayer>(l).is_err());
}""")
bug("s19-trailing", "C19", [(A, "        serde_json::from_slice(v)\n", "        Animation::deserialize(&mut serde_json::Deserializer::from_slice(v))\n")],
    "a byte slice with anything behind the animation", "trailing garbage is accepted from a slice but not from a string", """
fn main() {
    let s = format!("{} garbage", anim(vec![]));
    assert!(Composition::from_slice(s.as_bytes()).is_err());
}""")
bug("s20-empty-default", "C19", [("src/runtime/mod.rs", "        let source = Animation::from_slice(source.as_ref())?;\n        let composition = import::conv_animation(source);\n        Ok(composition)",
    "        match Animation::from_slice(source.as_ref()) {\n            Ok(source) => Ok(import::conv_animation(source)),\n            Err(e) if e.is_eof() => Ok(Composition::default()),\n            Err(e) => Err(e.into()),\n        }")],
    "a truncated byte slice", "an empty composition is returned instead of the error", """
fn main() {
    let s = anim(vec![null_layer("n", 1)]).to_string();
    assert!(Composition::from_slice(&s.as_bytes()[..s.len() - 2]).is_err());
}""")
bug("s21-rate-clamped", "C19", [(CO, "        frame_rate: source.frame_rate,", "        frame_rate: source.frame_rate.clamp(1.0, 240.0),")],
    "an animation with a frame rate below one", "the frame rate is not the file's", """
fn main() {
    let c = load(&with(anim(vec![]), "fr", json!(0.5)));
    assert_eq!(c.frame_rate, 0.5);
}""")
