"""The Lottie format as far as the typed schema of velato models it: (type, field) -> (JSON key, JSON type).
A trailing ? means the format (and the schema) lets the property be absent. Key None: the fields of the value are part of the same object."""

TABLE = {
    'AnimatedProperty': [
        ('property_index', 'ix', 'f64?'),
        ('animated', 'a', 'BoolInt?'),
        ('expression', 'x', 'String?'),
        ('slot_id', 'sid', 'String?'),
        ('value', 'k', 'AnimatedPropertyK<StaticType>'),
    ],
    'ColorValue': [
        ('animated_property', None, 'AnimatedProperty<Vec<f64>>'),
    ],
    'GradientColors': [
        ('colors', 'k', 'MultiDimensional'),
        ('count', 'p', 'usize'),
    ],
    'Keyframe': [
        ('base', None, 'KeyframeBase'),
        ('value', 's', 'Vec<f64>'),
        ('end_value_deprecated', 'e', 'Vec<f64>?'),
    ],
    'KeyframeBase': [
        ('time', 't', 'f64'),
        ('hold', 'h', 'BoolInt?'),
        ('in_tangent', 'i', 'KeyframeBezierHandle?'),
        ('out_tangent', 'o', 'KeyframeBezierHandle?'),
    ],
    'KeyframeBezierHandle': [
        ('x_coordinate', 'x', 'KeyframeComponent'),
        ('y_coordinate', 'y', 'KeyframeComponent'),
    ],
    'MultiDimensional': [
        ('animated_property', None, 'AnimatedProperty<Vec<f64>>'),
        ('length', 'l', 'f64?'),
    ],
    'Position': [
        ('property_index', 'ix', 'f64?'),
        ('animated', 'a', 'BoolInt?'),
        ('expression', 'x', 'String?'),
        ('length', 'l', 'f64?'),
        ('value', 'k', 'PositionValueK'),
    ],
    'PositionKeyframe': [
        ('keyframe', None, 'Keyframe'),
        ('value_in_tangent', 'ti', 'Vec<f64>?'),
        ('value_out_tangent', 'to', 'Vec<f64>?'),
    ],
    'ShapeKeyframe': [
        ('base', None, 'KeyframeBase'),
        ('start', 's', 'Vec<Bezier>?'),
        ('end', 'e', 'Vec<Bezier>?'),
    ],
    'ShapeProperty': [
        ('property_index', 'ix', 'f64?'),
        ('animated', 'a', 'BoolInt?'),
        ('expression', 'x', 'String?'),
        ('value', 'k', 'ShapePropertyK'),
    ],
    'SplitVector': [
        ('split', 's', 'bool'),
        ('x', 'x', 'FloatValue'),
        ('y', 'y', 'FloatValue'),
        ('z', 'z', 'FloatValue?'),
    ],
    'FloatValue': [
        ('animated_property', None, 'AnimatedProperty<f64>'),
    ],
    'Animation': [
        ('visual_object', None, 'VisualObject'),
        ('composition', None, 'Composition'),
        ('version', 'v', 'String?'),
        ('ver', 'ver', 'u32?'),
        ('frame_rate', 'fr', 'f64'),
        ('in_point', 'ip', 'f64'),
        ('out_point', 'op', 'f64'),
        ('width', 'w', 'usize'),
        ('height', 'h', 'usize'),
        ('three_dimensional', 'ddd', 'BoolInt?'),
        ('assets', 'assets', 'Vec<AnyAsset>?'),
        ('markers', 'markers', 'Vec<Marker>?'),
        ('meta', 'meta', 'Meta?'),
        ('metadata', 'metadata', 'Value?'),
    ],
    'Composition': [
        ('layers', 'layers', 'Vec<AnyLayer>'),
    ],
    'Meta': [
        ('author', 'a', 'String?'),
        ('description', 'd', 'String?'),
        ('theme_color', 'tc', 'String?'),
        ('generator', 'g', 'String?'),
        ('keywords', 'k', 'Value?'),
    ],
    'Asset': [
        ('id', 'id', 'String'),
        ('visual_object', None, 'VisualObject'),
    ],
    'FileAsset': [
        ('asset', None, 'Asset'),
        ('dir', 'u', 'String?'),
        ('file_name', 'p', 'String'),
        ('embedded', 'e', 'BoolInt?'),
    ],
    'Image': [
        ('file_asset', None, 'FileAsset'),
        ('slottable_object', None, 'SlottableObject'),
        ('width', 'w', 'f64?'),
        ('height', 'h', 'f64?'),
        ('sequence', 't', 'bool?'),
    ],
    'Precomposition': [
        ('asset', None, 'Asset'),
        ('composition', None, 'Composition'),
        ('frame_rate', 'fr', 'f64?'),
        ('extra', 'xt', 'BoolInt?'),
    ],
    'Bezier': [
        ('closed', 'c', 'bool?'),
        ('vertices', 'v', 'Vec<[f64;2]>'),
        ('in_tangents', 'i', 'Vec<[f64;2]>'),
        ('out_tangents', 'o', 'Vec<[f64;2]>'),
    ],
    'Marker': [
        ('comment', 'cm', 'String?'),
        ('time', 'tm', 'f64?'),
        ('duration', 'dr', 'f64?'),
    ],
    'Mask': [
        ('name', 'nm', 'String?'),
        ('match_name', 'mn', 'String?'),
        ('inverted', 'inv', 'bool?'),
        ('shape', 'pt', 'ShapeProperty?'),
        ('opacity', 'o', 'FloatValue?'),
        ('mode', 'mode', 'MaskMode?'),
        ('expand', 'x', 'FloatValue?'),
    ],
    'SlottableObject': [
        ('id', 'sid', 'String?'),
    ],
    'Transform': [
        ('anchor_point', 'a', 'Position?'),
        ('position', 'p', 'AnyTransformP'),
        ('scale', 's', 'MultiDimensional?'),
        ('rotation', 'r', 'AnyTransformR?'),
        ('skew', 'sk', 'FloatValue?'),
        ('skew_axis', 'sa', 'FloatValue?'),
        ('opacity', 'o', 'FloatValue?'),
    ],
    'VisualObject': [
        ('name', 'nm', 'String?'),
        ('match_name', 'mn', 'String?'),
    ],
    'ImageLayer': [
        ('visual_layer', None, 'VisualLayer'),
        ('ref_id', 'refId', 'String'),
    ],
    'Layer': [
        ('visual_object', None, 'VisualObject'),
        ('three_dimensional', 'ddd', 'BoolInt?'),
        ('hidden', 'hd', 'bool?'),
        ('layer_type', 'ty', 'u8'),
        ('index', 'ind', 'usize?'),
        ('parent_index', 'parent', 'usize?'),
        ('time_stretch', 'sr', 'f64?'),
        ('in_point', 'ip', 'f64'),
        ('out_point', 'op', 'f64'),
        ('start_time', 'st', 'f64?'),
    ],
    'NullLayer': [
        ('visual_layer', None, 'VisualLayer'),
    ],
    'PrecompositionLayer': [
        ('visual_layer', None, 'VisualLayer'),
        ('ref_id', 'refId', 'String'),
        ('width', 'w', 'f64'),
        ('height', 'h', 'f64'),
        ('start_time', 'st', 'f64'),
        ('time_remap', 'tm', 'FloatValue?'),
    ],
    'ShapeLayer': [
        ('visual_layer', None, 'VisualLayer'),
        ('shapes', 'shapes', 'Vec<AnyShape>'),
    ],
    'SolidLayer': [
        ('visual_layer', None, 'VisualLayer'),
        ('width', 'sw', 'f64'),
        ('height', 'sh', 'f64'),
        ('color', 'sc', 'String'),
    ],
    'VisualLayer': [
        ('layer', None, 'Layer'),
        ('matte_mode', 'tt', 'MatteMode?'),
        ('matte_target', 'td', 'BoolInt?'),
        ('masks_properties', 'masksProperties', 'Vec<Mask>?'),
        ('transform', 'ks', 'Transform'),
        ('rotate_to_match_anim_pos_path', 'ao', 'BoolInt?'),
        ('matte_layer_index', 'tp', 'f64?'),
        ('has_mask', 'hasMask', 'bool?'),
        ('motion_blur', 'mb', 'bool?'),
        ('blend_mode', 'bm', 'BlendMode?'),
        ('css_class', 'cl', 'String?'),
        ('id', 'ln', 'String?'),
        ('tag_name', 'tg', 'String?'),
        ('tranform_before_mask_deprecated', 'cp', 'String?'),
        ('transform_before_mask', 'ct', 'BoolInt?'),
    ],
    'BaseGradientShape': [
        ('colors', 'g', 'GradientColors'),
        ('start_point', 's', 'MultiDimensional'),
        ('end_point', 'e', 'MultiDimensional'),
        ('gradient_type', 't', 'GradientType?'),
        ('highlight_length', 'h', 'FloatValue?'),
        ('highlight_angle', 'a', 'FloatValue?'),
    ],
    'BaseStrokeShape': [
        ('line_cap', 'lc', 'LineCap?'),
        ('line_join', 'lj', 'LineJoin?'),
        ('miter_limit', 'ml', 'f64?'),
        ('miter_limit_anim', 'ml2', 'FloatValue?'),
        ('width', 'w', 'FloatValue'),
        ('dashes', 'd', 'Vec<StrokeDashShape>?'),
    ],
    'EllipseShape': [
        ('shape', None, 'Shape'),
        ('position', 'p', 'Position'),
        ('size', 's', 'MultiDimensional'),
    ],
    'FillShape': [
        ('shape_style', None, 'ShapeStyleShape'),
        ('color', 'c', 'ColorValue'),
        ('fill_rule', 'r', 'FillRule?'),
    ],
    'GradientFillShape': [
        ('shape_style', None, 'ShapeStyleShape'),
        ('gradient', None, 'BaseGradientShape'),
        ('fill_rule', 'r', 'FillRule?'),
    ],
    'GradientStrokeShape': [
        ('shape_style', None, 'ShapeStyleShape'),
        ('base_stroke', None, 'BaseStrokeShape'),
        ('gradient', None, 'BaseGradientShape'),
    ],
    'GraphicElementShape': [
        ('visual_object', None, 'VisualObject'),
        ('hidden', 'hd', 'bool?'),
        ('blend_mode', 'bm', 'BlendMode?'),
        ('property_index', 'ix', 'f64?'),
        ('css_class', 'cl', 'String?'),
        ('xml_id', 'ln', 'String?'),
        ('index', 'ind', 'f64?'),
    ],
    'GroupShape': [
        ('graphic_element', None, 'GraphicElementShape'),
        ('num_properties', 'np', 'f64?'),
        ('shapes', 'it', 'Vec<AnyShape>'),
        ('property_index', 'cix', 'u8?'),
    ],
    'MergeShape': [
        ('graphic_element', None, 'GraphicElementShape'),
        ('merge_mode', 'mm', 'MergeMode?'),
    ],
    'ModifierShape': [
        ('graphic_element', None, 'GraphicElementShape'),
    ],
    'OffsetPathShape': [
        ('modifier', None, 'ModifierShape'),
        ('amount', 'a', 'FloatValue?'),
        ('line_join', 'lj', 'LineJoin?'),
        ('miter_limit', 'ml', 'FloatValue?'),
    ],
    'PathShape': [
        ('shape', None, 'Shape'),
        ('shape_property', 'ks', 'ShapeProperty'),
    ],
    'PolyStarShape': [
        ('shape', None, 'Shape'),
        ('position', 'p', 'Position'),
        ('outer_radius', 'or', 'FloatValue'),
        ('outer_roundness', 'os', 'FloatValue'),
        ('rotation', 'r', 'FloatValue'),
        ('points', 'pt', 'FloatValue'),
        ('star_type', 'sy', 'StarType'),
        ('inner_radius', 'ir', 'FloatValue?'),
        ('inner_roundness', 'is', 'FloatValue?'),
    ],
    'PuckerBloatShape': [
        ('modifier', None, 'ModifierShape'),
        ('amount', 'a', 'FloatValue?'),
    ],
    'RectangleShape': [
        ('shape', None, 'Shape'),
        ('position', 'p', 'Position'),
        ('size', 's', 'MultiDimensional'),
        ('rounded_corner_radius', 'r', 'FloatValue'),
    ],
    'RepeaterShape': [
        ('modifier', None, 'ModifierShape'),
        ('copies', 'c', 'FloatValue'),
        ('offset', 'o', 'FloatValue?'),
        ('composite', 'm', 'Composite?'),
        ('transform', 'tr', 'RepeaterTransformShape'),
    ],
    'RepeaterTransformShape': [
        ('transform', None, 'TransformShape'),
        ('start_opacity', 'so', 'FloatValue?'),
        ('end_opacity', 'eo', 'FloatValue?'),
    ],
    'RoundedCornersShape': [
        ('modifier', None, 'ModifierShape'),
        ('radius', 'r', 'FloatValue'),
    ],
    'Shape': [
        ('graphic_element', None, 'GraphicElementShape'),
        ('direction', 'd', 'ShapeDirection?'),
    ],
    'ShapeStyleShape': [
        ('graphic_element', None, 'GraphicElementShape'),
        ('opacity', 'o', 'FloatValue'),
    ],
    'StrokeShape': [
        ('shape_style', None, 'ShapeStyleShape'),
        ('base_stroke', None, 'BaseStrokeShape'),
        ('stroke_color', 'c', 'ColorValue'),
    ],
    'StrokeDashShape': [
        ('visual_object', None, 'VisualObject'),
        ('dash_type', 'n', 'StrokeDashType?'),
        ('length', 'v', 'FloatValue?'),
    ],
    'TransformShape': [
        ('graphic_element', None, 'GraphicElementShape'),
        ('transform', None, 'Transform'),
    ],
    'TrimPathShape': [
        ('modifier', None, 'ModifierShape'),
        ('start', 's', 'FloatValue'),
        ('end', 'e', 'FloatValue'),
        ('offset', 'o', 'FloatValue'),
        ('multiple', 'm', 'TrimMultipleShapes?'),
    ],
    'TwistShape': [
        ('modifier', None, 'ModifierShape'),
        ('angle', 'a', 'FloatValue'),
        ('position', 'c', 'Position'),
    ],
    'ColorOverlayStyle': [
        ('layer_style', None, 'LayerStyle'),
        ('blend_mode', 'bm', 'FloatValue?'),
        ('color', 'c', 'ColorValue?'),
        ('opacity', 'so', 'FloatValue?'),
    ],
    'GradientOverlayStyle': [
        ('layer_style', None, 'LayerStyle'),
        ('blend_mode', 'bm', 'FloatValue?'),
        ('opacity', 'o', 'FloatValue?'),
        ('gradient', 'gf', 'GradientColors?'),
        ('smoothness', 'gs', 'FloatValue?'),
        ('angle', 'a', 'FloatValue?'),
        ('gradient_type', 'gt', 'GradientType?'),
        ('reverse', 're', 'FloatValue?'),
        ('align', 'al', 'FloatValue?'),
        ('scale', 's', 'FloatValue?'),
        ('offset', 'of', 'FloatValue?'),
    ],
    'LayerStyle': [
        ('visual_object', None, 'VisualObject'),
        ('style_type', 'ty', 'StyleType'),
    ],
    'OuterGlowStyle': [
        ('layer_style', None, 'LayerStyle'),
        ('blend_mode', 'bm', 'FloatValue?'),
        ('color', 'c', 'ColorValue?'),
        ('opacity', 'o', 'FloatValue?'),
        ('range', 'r', 'FloatValue?'),
        ('choke_spread', 'ch', 'FloatValue?'),
        ('noise', 'no', 'FloatValue?'),
        ('jitter', 'j', 'FloatValue?'),
    ],
    'SatinStyle': [
        ('layer_style', None, 'LayerStyle'),
        ('blend_mode', 'bm', 'FloatValue?'),
        ('color', 'c', 'ColorValue?'),
        ('opacity', 'o', 'FloatValue?'),
        ('angle', 'a', 'FloatValue?'),
        ('distance', 'd', 'FloatValue?'),
        ('size', 's', 'FloatValue?'),
        ('invert', 'in', 'FloatValue?'),
    ],
}

# enumerator -> code (number), or letters / object tag
ENUMS = {
    'BlendMode': {'Normal': 0, 'Multiply': 1, 'Screen': 2, 'Overlay': 3, 'Darken': 4, 'Lighten': 5, 'ColorDodge': 6, 'ColorBurn': 7, 'HardLight': 8, 'SoftLight': 9, 'Difference': 10, 'Exclusion': 11, 'Hue': 12, 'Saturation': 13, 'Color': 14, 'Luminosity': 15, 'Add': 16, 'HardMix': 17},
    'Composite': {'Above': 1, 'Below': 2},
    'FillRule': {'NonZero': 1, 'EvenOdd': 2},
    'FontPathOrigin': {'Local': 0, 'CssUrl': 1, 'ScriptUrl': 2, 'FontUrl': 3},
    'GradientType': {'Linear': 1, 'Radial': 2},
    'LineCap': {'Butt': 1, 'Round': 2, 'Square': 3},
    'LineJoin': {'Miter': 1, 'Round': 2, 'Bevel': 3},
    'MaskMode': {'None': 'n', 'Add': 'a', 'Subtract': 's', 'Intersect': 'i', 'Lighten': 'l', 'Darken': 'd', 'Difference': 'f'},
    'MatteMode': {'Normal': 0, 'Alpha': 1, 'InvertedAlpha': 2, 'Luma': 3, 'InvertedLuma': 4},
    'MergeMode': {'Normal': 1, 'Add': 2, 'Subtract': 3, 'Intersect': 4, 'ExcludeIntersections': 5},
    'ShapeDirection': {'Normal': 1, 'Reversed': 3},
    'StarType': {'Star': 1, 'Polygon': 2},
    'StrokeDashType': {'Dash': 'd', 'Gap': 'g', 'Offset': 'o'},
    'TextedBased': {'Characters': 1, 'CharacterExcludingSpaces': 2, 'Words': 3, 'Lines': 4},
    'TextCaps': {'Regular': 0, 'AllCaps': 1, 'SmallCaps': 2},
    'TextGrouping': {'Characters': 1, 'Words': 2, 'Lines': 3, 'All': 4},
    'TextJustify': {'Left': 0, 'Right': 1, 'Center': 2, 'JustifyWithLastLineLeft': 3, 'JustifyWithLastLineRight': 4, 'JustifyWithLastLineCenter': 5, 'JustifyWithLastLineFull': 6},
    'TextRangeUnits': {'Percent': 1, 'Index': 2},
    'TextShape': {'Square': 1, 'RampUp': 2, 'RampDown': 3, 'Triangle': 4, 'Round': 5, 'Smooth': 6},
    'BoolInt': {'False': 0, 'True': 1},
    'AnyShape': {'Group': 'gr', 'Rectangle': 'rc', 'Ellipse': 'el', 'Transform': 'tr', 'Stroke': 'st', 'PuckerBloat': 'pb', 'Merge': 'mm', 'Repeater': 'rp', 'OffsetPath': 'op', 'Fill': 'fl', 'Trim': 'tm', 'Path': 'sh', 'GradientFill': 'gf', 'GradientStroke': 'gs', 'Twist': 'tw', 'RoundedCorners': 'rd', 'PolyStar': 'sr'},
    'ShapeType': {'Rectangle': 'rc', 'Ellipse': 'el', 'PolyStar': 'sr', 'Path': 'sh', 'Fill': 'fl', 'Stroke': 'st', 'GradientFill': 'gf', 'GradientStroke': 'gs', 'NoStyle': 'no', 'Group': 'gr', 'Transform': 'tr', 'Repeater': 'rp', 'Trim': 'tm', 'RoundedCorners': 'rd', 'PuckerBloat': 'pb', 'Merge': 'mm', 'Twist': 'tw', 'OffsetPath': 'op', 'ZigZag': 'zz'},
    'StyleType': {'Stroke': 0, 'DropShadow': 1, 'InnerShadow': 2, 'OuterGlow': 3, 'InnerGlow': 4, 'BevelEmboss': 5, 'Satin': 6, 'ColorOverlay': 7, 'GradientOverlay': 8},
}

WIDE = {}
