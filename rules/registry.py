"""Which rule modules decide which property."""
_M = {}


def _layer(rep):
    from .layer import Layer
    if "L" not in _M:
        _M["L"] = Layer(_shapes_model().M if "S" in _M else None)
    _M["L"].run(rep.pid, rep)


def _shapes_model():
    from .shapes import Shapes
    if "S" not in _M:
        _M["S"] = Shapes()
    return _M["S"]


def _shapes(rep):
    _shapes_model().run(rep.pid, rep)


_layer.what = "the render rules on the layer function"
_shapes.what = "the render rules on the shape collection"

CHECKS = {}
for p in "C01 C03 C08 C09 C10 C11 C12 C22 C27 C28 C31 C32 C33".split():
    CHECKS.setdefault(p, []).append(_layer)
for p in "C08 C09 C11 C12 C22 C24 C25 C28 C33".split():
    CHECKS.setdefault(p, []).append(_shapes)



def _lazy(mod, fn, what):
    def f(rep):
        import importlib
        getattr(importlib.import_module("rules." + mod), fn)(rep)
    f.__name__ = fn
    f.what = what
    return f


_value = _lazy("model", "value_rules", "the keyframe selection of single values")
_stops = _lazy("model", "stops_rules", "the keyframe selection of gradient stops")
_spline = _lazy("model", "spline_rules", "the keyframe selection and outline of animated paths")
_few = _lazy("model", "few_keyframe_rules", "keyframe selection with few keyframes")
_evals = _lazy("params", "evaluation_rules", "the evaluation of animatable groups")
_freeze = _lazy("params", "freeze_rules", "freezing at load")
_tween = _lazy("params", "tween_rules", "interpolation")
for f, ps in ((_value, "C04 C05 C06 C07"), (_stops, "C04 C05 C06 C21"), (_spline, "C04 C05 C23"), (_evals, "C07 C08 C09 C24 C25 C33 C22"),
              (_few, "C04 C05 C06 C21 C23"), (_freeze, "C07"), (_tween, "C06")):
    for p in ps.split():
        CHECKS.setdefault(p, []).append(f)

_ilayer = _lazy("imports", "layer_rules", "the import of compositions and layers")
_ishape = _lazy("imports", "shape_rules", "the import of shapes")
_ivalue = _lazy("imports", "value_conv_rules", "the import of animated values")
for f, ps in ((_ilayer, "C08 C09 C10 C11 C13 C14 C15 C19 C22 C26 C27 C31 C32"), (_ishape, "C08 C09 C11 C15 C21 C22 C26 C33"),
              (_ivalue, "C05 C07 C21 C22 C23 C26 C34")):
    for p in ps.split():
        CHECKS.setdefault(p, []).append(f)

_scenes = _lazy("scenes", "scene_rules", "small animations")
for p in "C01 C03 C08 C09 C10 C11 C12 C24 C25 C27 C28 C31 C32 C33".split():
    CHECKS[p].append(_scenes)

CHECKS["C34"].append(_lazy("serde_rules", "keyframe_list_rules", "the reading of path keyframes"))
for p, fn, what in (("C16", "keys_rules", "the keys and codes of the schema"), ("C17", "roundtrip_rules", "writing and reading back the schema"),
                    ("C18", "kind_rules", "the recognition of layers and assets"), ("C19", "entry_rules", "the entry points")):
    CHECKS.setdefault(p, []).append(_lazy("serde_rules", fn, what))
CHECKS["C02"] = [_lazy("panics", "load_rules", "the panic sites of loading")]
CHECKS["C38"] = [_lazy("rpanics", "render_rules", "the panic sites of rendering")]
CHECKS["C39"] = [_lazy("trim", "trim_rules", "the range of a trim")]
CHECKS["C20"] = [_lazy("sink", "sink_rules", "the Vello sink")]
CHECKS["C29"] = [_lazy("effects", "effects_rules", "the effects of the library")]
CHECKS["C30"] = [_lazy("effects", "sharing_rules", "the thread safety of the public types")]

TRUST = ("Sound for every input and every path within the model: the terms describe all runs of the analysed functions, loops are closed forms or "
         "inductive summaries. Trusted: rustc's MIR construction, the hand-written models of std/kurbo functions in engine/models.py, exact "
         "real arithmetic in place of rounding. Obligations on code the engine cannot model are reported as undecided in the evidence and do not fail the check.")
_num = "quantifies over the numerical accuracy of floating-point results; no static argument in reach bounds rounding of iterated kurbo/libm arithmetic"
NOT_APPLICABLE = {
    "C35": "The statement %s." % _num,
    "C36": "The statement %s (arc length by adaptive quadrature and its inversion)." % _num,
    "C37": "The statement %s (trigonometric corner positions)." % _num,
}
_AI = "static analysis: abstract interpretation of rustc MIR into gated value terms, "
_TERMS = _AI + "compared with the terms the property requires"
NOTES = {
    "C01": (_AI + "with a push/pop balance analysis of the emitted sink calls (typestate of the sink)", ""),
    "C02": (_AI + "with discharge of every reachable panic site (assertions, bounds, unwraps, arithmetic) by intervals and linear inequalities",
            "Lists are assumed shorter than 2^48 elements; other crates are trusted not to panic; stack depth and memory are not considered; overflow checks of debug builds count as panics."),
    "C38": (_AI + "with discharge of every reachable panic site by intervals, linear inequalities and an inductive invariant over the collected lists",
            "Lists are assumed shorter than 2^48 elements; other crates are trusted not to panic; stack depth and memory are not considered; overflow checks of debug builds count as panics."),
    "C03": ("static analysis: loop and recursion termination rules over MIR (ranking of every loop, guard over every call-graph cycle)", ""),
    "C04": (_AI + "keyframe index and weight decided on every combination of decisions by intervals and linear inequalities", "The list search is taken by its contract (what a found or missing position says about a sorted list)."),
    "C07": (_AI + "comparing the freezing condition and value with the evaluation, component by component", ""),
    "C12": (_AI + "with a dependence analysis: no leftover state of the renderer reaches a sink call or the state left behind", ""),
    "C16": ("static analysis: query over the type-checked schema (fields, serde attributes, enum codes) against a table of the Lottie format", "The derive macros of serde and serde_repr are trusted to implement their attributes."),
    "C17": ("static analysis: writer/reader correspondence over the type-checked schema (serde attributes), and value terms of the hand-written serde functions",
            "The derive macros of serde and serde_repr are trusted to implement their attributes; the decimal text of a float is exact."),
    "C18": (_AI + "of the hand-written deserializers, compared with the required decision tables", ""),
    "C20": (_AI + "comparing the sequence of scene operations with the required one", ""),
    "C21": (_TERMS, "The layout of colours and alphas is decided for lists of one to three stops."),
    "C23": (_TERMS, "Outline shape is decided for paths of up to three vertices and for the inductive step; import for up to three vertices."),
    "C24": (_TERMS, "Which part of the outline a partial trim keeps is numerical (C36)."),
    "C39": (_AI + "compared with the definition on every feasible combination of decisions (intervals)", "Which outline lies within the range is numerical (C36). Ranges within 1e-9 of empty or full may count as either."),
    "C29": ("static analysis: effect analysis over the call graph (who may mention which foreign function), statics, unsafe and hash iteration", ""),
    "C30": ("static analysis: trait-solver queries (Send, Sync) and a type walk (interior mutability, shared receivers)", ""),
}
