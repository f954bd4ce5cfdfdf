"""Functions of other crates that are kept as uninterpreted (but deterministic) functions of their arguments."""
import re
HEAVY = re.compile(r"^(Affine::svd|Arc::.*|arc::.*|BezPath::segments|kurbo::segments|ParamCurve::.*|ParamCurveArclen::.*|"
                   r"ParamCurveDeriv::.*|Shape::path_elements|common::.*|cubicbez::.*|"
                   r"Brush::multiply_alpha|Gradient::multiply_alpha|ImageBrush::multiply_alpha|ColorStop::multiply_alpha|"
                   r"AlphaColor::multiply_alpha|AlphaColor::convert|DynamicColor::.*|ColorSpace::.*|colorspace::.*)$")


def heavy(inst, key):
    if inst["crate"] in ("kurbo", "peniko", "color") and HEAVY.match(key):
        return key
    return None
