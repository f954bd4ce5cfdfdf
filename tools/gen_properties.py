#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n,m,w in state],
            mechanism=[dict(name=n, where=w) for n,w in mech], observe_at=list(observe), hook_needed=hook)))

R='src/runtime/render.rs'; CV='src/import/converters.rs'; BU='src/import/builders.rs'
AN='src/runtime/model/animated.rs'; FX='src/runtime/model/fixed.rs'; MO='src/runtime/model/mod.rs'
VA='src/runtime/model/value.rs'; SP='src/runtime/model/spline.rs'; DF='src/import/defaults.rs'; VE='src/runtime/vello.rs'
RM='src/runtime/mod.rs'

NOR="No existing test renders anything: the renderer has no tests at all, and a sample of frames could not cover every combination of content, masks, mattes and nesting."
NOE="No existing test evaluates an animated value; frames and keyframe lists are unbounded."
NOC="The four converter tests build one shape layer each; no other source field, layer kind or combination is converted."

prop('C01','Every sink layer and group that is opened is closed',
 "For every composition, frame, transform and alpha, one render makes a properly nested, balanced sequence of calls on its sink: each pushed layer (blend or clip) is popped exactly once by the same render and never popped before it was pushed, and each layer-group begin is followed by exactly one matching end.",
 ['inputs'],"All compositions (any mix of masks, mattes, precomps, shapes, hidden layers) x all frames", NOR,
 [R],[('pushes and the closing pop loop of one layer',R+': render_layer'),('composition clip push/pop',R+': append')],
 observe=['calls on RenderSink'])
prop('C02','Loading never panics',
 "Building a composition from any byte slice, string or JSON value returns either a composition or an error; it never panics, whatever supported or unsupported Lottie feature, empty array or out-of-range number the input contains.",
 ['inputs'],"All byte strings / JSON values","Tests load five tiny well-formed documents; panics sit behind feature combinations and empty arrays nobody sampled.",
 [CV,BU,RM,AN,SP],[('conversion functions are total over the schema types',CV),('fixed values are evaluated while loading',AN+': into_model')],
 observe=['return value of Composition::from_slice/from_str/from_json'])
prop('C03','Rendering terminates, also on cyclic references',
 "Rendering any composition finishes: parent chains, matte references and precomposition instances may refer to themselves or to each other in a cycle, and the renderer still returns after finitely many steps instead of looping or recursing forever.",
 ['inputs'],"All compositions including ill-formed reference graphs",NOR,
 [R],[('bounded walk along the parent chain',R+': compute_transform'),('cut-off of re-entered layers',R+': render_layer')],
 observe=['render call returns'])
prop('C04','Keyframe selection is in range and the weight is a number in [0,1]',
 "For every keyframe list and every frame, evaluation selects the keyframe at or immediately before the frame (the first one for a frame before all of them) and its immediate successor (the last keyframe is its own successor), which exist in the list, and interpolates with a weight that is the elapsed fraction of that segment, clamped to a real number between 0 and 1, never NaN or infinite, also exactly on a keyframe, on the last keyframe, with repeated times, and outside the animated range.",
 ['inputs'],"All keyframe lists x all frames",NOE,
 [VA,AN],[('index clamping and weight computation',VA+': Time::frames_and_weight')],observe=['evaluated values, coordinates handed to the sink'])
prop('C05','Hold keyframes hold',
 "While the frame lies in a segment whose starting keyframe is marked hold, every animated quantity (scalars, points, sizes, colours, gradient stop offsets and colours, path vertices) has exactly the starting keyframe's value, independent of where in the segment the frame lies; the hold mark in the file reaches every kind of animated property.",
 ['inputs'],"All animated properties x keyframe lists x frames",NOE,
 [VA,AN,CV],[('weight forced to zero on hold',VA+': Animated::evaluate_inner'),('gradient stops',AN+': ColorStops::evaluate_inner'),('splines',AN+': Spline::evaluate'),('hold flag read from the file',CV)])
prop('C06','Interpolation starts at the start, ends at the end, component by component',
 "Interpolating between two values gives exactly the first value at weight 0 and exactly the second at weight 1, for every easing, and in between follows the cubic curve from (0,0) to (1,1) through the out handle of the starting keyframe and its in handle; composite values (points, vectors, sizes, colours with alpha) interpolate each component only from the same component of both ends, with the same weight and easing.",
 ['inputs'],"All pairs of values x weights x easings x all interpolatable types",NOE,
 [VA],[('Tween impls',VA)])
prop('C07','Only fully fixed properties are frozen at load, and to the same value',
 "An animatable group (transform, stroke, brush, gradient, trim, repeater, star) is collapsed to a constant at load only when every animatable input it has is fixed; the constant is the value its evaluation yields, and evaluating the collapsed form returns that constant at every frame.",
 ['inputs'],"All combinations of fixed/animated inputs x frames",NOE,
 [AN,MO],[('is_fixed / into_model pairs',AN),('Fixed/Animated wrappers',MO)])
prop('C08','Transforms compose in Lottie order along the parent chain',
 "A layer is drawn under (caller transform) x (outermost ancestor's transform) x ... x (parent's transform) x (own transform), each evaluated at the frame being drawn, and group transforms are appended on the right of the enclosing one; a single transform is translate(position) . rotate(degrees) . skew . scale(percent) . translate(-anchor).",
 ['inputs'],"All parent graphs, group nestings and frames",NOR,
 [R,AN],[('compute_transform',R),('Transform::evaluate',AN),('group transform',R+': render_shapes')])
prop('C09','Opacity multiplies through the hierarchy',
 "The alpha applied to a drawn shape is the product of the caller's alpha, the opacity of each enclosing precomposition layer and of the layer itself, of each enclosing group, and of the fill or stroke, each opacity taken as a percentage at the frame being drawn; every fill and stroke kind, solid or gradient, uses the opacity stated in the file; parents linked only for transforms contribute nothing.",
 ['inputs'],"All hierarchies x frames x style kinds",NOR,
 [R,CV,MO,AN],[('layer alpha',R+': render_layer'),('group alpha',R+': render_shapes'),('draw alpha',R+': DrawData::new, Batch::render'),('style opacity',CV+': conv_draw')])
prop('C10','A layer contributes exactly while it is active and visible',
 "A layer produces sink calls only for frames from its in-point (inclusive) to its out-point (exclusive); a layer marked as matte source is never drawn in its own right, neither at the top level nor inside a precomposition; a hidden layer draws no content of its own and is not treated as a matte source, but keeps its place, index and transform for its children.",
 ['inputs'],"All layers x frames x flags",NOR+" Four tests check the hidden flag on one shape layer only.",
 [R,CV,BU],[('frame range test and matte skip',R),('hidden handling',CV+': conv_layer')])
prop('C11','Painting order',
 "Layers are painted from the last in their array to the first, at the top level and inside precompositions; within a shape layer later-listed fills and strokes are painted before earlier-listed ones; shapes keep the order of the file when loaded.",
 ['inputs'],"All layer arrays and shape lists",NOR,
 [R,CV],[('reverse iteration',R+': append, render_layer, Batch::render'),('order-preserving conversion',CV)])
prop('C12','Rendering does not depend on what the renderer rendered before',
 "The calls one render makes are determined by the composition, frame, transform and alpha alone: reusing a renderer after rendering any other composition or frame gives the same sink calls as a fresh renderer, and one layer's geometry never leaks into another's.",
 ['histories'],"All sequences of renders on one renderer",NOR,
 [R],[('scratch buffers reset',R+': Batch::clear, append, render_layer')],
 [('scratch buffers','per-renderer working memory',R)])
prop('C13','Parent and matte references resolve by layer index within one composition',
 "A layer's parent and its explicit matte source are the layer of the same layer array whose declared index equals the reference (a layer without an index counts as index 0), wherever it stands in the array; references never resolve across precompositions, and a reference to a missing index resolves to nothing. Without an explicit reference the matte source is the nearest preceding layer marked as matte source, unless another matted layer that is not itself a matte source stands in between, which has used it up.",
 ['inputs'],"All layer arrays and index assignments",NOC,
 [CV],[('index map per layer array, two-pass resolution',CV+': process_layers')])
prop('C14','Layer attributes are taken from the file, the same way for every layer kind',
 "For each of the five layer kinds the loaded layer's name, parent, transform, opacity, blend mode, time stretch (default 1), active range, start frame (default 0), masks, matte flag, matte mode, matte reference and index come from the corresponding fields of the file; only precompositions add width, height and the asset reference.",
 ['inputs'],"All layers of all kinds",NOC,
 [BU,CV],[('per-kind setup',BU),('dispatch',CV+': conv_layer')])
prop('C15','Enumerated constants keep their meaning',
 "Each enumerated constant of the file reaches the render model as its namesake: blend modes 0-15 map to the blend mode of that name (normal to none), matte modes map alpha/luma to source-in and their inversions to source-out, line caps, line joins, gradient type and star type map to the same cap, join, linear/radial and star/polygon for both solid and gradient styles.",
 ['inputs'],"All constants x all places they are used",NOC,
 [CV,BU,'src/schema/constants'],[('conversion matches',CV+': conv_blend_mode, conv_draw, conv_polystar_geometry'),('matte mode',BU)])
prop('C16','Every schema field is read from its Lottie key and every code from its number',
 "Each property of the typed Lottie schema is read from the JSON key the Lottie format assigns to it, enumerated values from the numbers or letters the format assigns, and optional properties may be absent.",
 ['inputs'],"All schema types, fields and enumerators","Tests deserialize a handful of objects that exercise a fraction of the roughly two hundred keys.",
 ['src/schema'],[('serde derives',"src/schema/**")])
prop('C17','What the schema writes, it reads back',
 "Serializing a parsed animation and parsing the result gives an equal animation (the decimal text of a float is taken as exact): each property is written under the key it is read from, a value omitted when writing is one that may be absent when reading, each enumerator is written as the code it is read from, and no two properties of one object compete for a key in a way that loses data.",
 ['inputs'],"All parsed animations","Serialization tests discard the output; no round trip is tested.",
 ['src/schema'],[('serde derives and hand-written impls',"src/schema/**")])
prop('C18','Layers and assets are recognised by kind, and failures are reported',
 "A layer object is parsed as precomposition, solid, image, null or shape exactly when its type number is 0, 1, 2, 3 or 4, and any other or missing type number is an error; an asset with a layer list is parsed as a precomposition, otherwise one with a width or height as an image unless its type number is 3 (a data source), and any other asset is an error; an error inside an asset names the asset's id and carries the inner failure.",
 ['inputs'],"All layer and asset objects","Tests parse three layer kinds and one image asset, no failing object.",
 ['src/schema/layers/mod.rs','src/schema/assets/mod.rs'],[('hand-written Deserialize impls','src/schema/layers/mod.rs, src/schema/assets/mod.rs')])
prop('C19','All entry points load alike and report parse errors',
 "Loading from a byte slice, from a string and from a JSON value all parse the whole schema and convert it the same way; a parse failure is always returned to the caller as the library's JSON error and never replaced by a default or partial composition; size, frame range and frame rate of the result are those of the file.",
 ['inputs'],"All inputs x three entry points","Only the typed schema entry point is tested, on one valid document.",
 [RM,'src/schema/animation/animation.rs','src/error.rs',CV],[('from_slice/from_json/from_str',RM)])
prop('C20','The Vello sink forwards every call faithfully',
 "When rendering to a Vello scene each sink operation performs exactly the corresponding scene operation once, with the given transform, shape, blend and alpha: layers and clips use the non-zero rule, a draw with a stroke strokes with that stroke and a draw without one fills with the non-zero rule, using the given brush unchanged.",
 ['inputs'],"All sink calls",NOR,
 [VE],[('impl RenderSink for Scene',VE)])
prop('C21','Gradient stops keep offset, colour and alpha in place',
 "A gradient stop list of the file is loaded as stops of offset, red, green, blue and alpha, colour components from consecutive groups of four numbers and alpha from the trailing offset/alpha pairs (1 where there are none); fixed and animated gradients use the same layout, and each evaluated stop takes every component only from the same component of the same stop of the selected keyframes.",
 ['inputs'],"All stop arrays, counts and keyframes",NOE,
 [CV,AN],[('conv_stops / conv_gradient_colors',CV),('ColorStops::evaluate_inner',AN)])
prop('C22','Every supported shape is loaded with its own parameters',
 "Each rectangle, ellipse, path, star/polygon, fill, stroke, gradient fill, gradient stroke, trim and group of the file is loaded as that kind of shape with every parameter taken from the field of that name; a group keeps all its supported children in order and takes its transform and opacity from its transform item; unsupported shapes are skipped without affecting their siblings.",
 ['inputs'],"All shape trees",NOC,
 [CV],[('conv_shape, conv_draw, conv_geometry',CV)])
prop('C23','Path vertices and tangents build the right curve',
 "For a path with n vertices the emitted outline starts at vertex 0 and visits the vertices in order, each segment leaving along its start vertex's out-tangent and arriving along its end vertex's in-tangent (both relative to their vertex), closing back to vertex 0 exactly when the path is closed; missing tangents count as zero; a morphing path interpolates each vertex and tangent between the same entries of both keyframes, a keyframe's own end shape taking precedence over the next keyframe's start.",
 ['inputs'],"All paths, static and animated",NOE,
 [SP,CV,AN],[('SplineToPath::to_path',SP),('conv_spline, conv_shape_geometry',CV),('Spline::evaluate',AN)])
prop('C24','A trim affects only the geometry before it in its own group',
 "A trim changes only geometry listed before it in its own group (including nested groups) and leaves the outlines of everything else as they were; an empty trim range removes that geometry for good, a full range leaves it unchanged, and geometry added after the trim is drawn untrimmed and without bringing trimmed-away parts back.",
 ['inputs'],"All shape trees with trims x frames",NOR,
 [R,FX],[('apply_trim, push_geometry',R),('Trim::normalized',FX)])
prop('C25','A repeater draws every copy of exactly its own content',
 "A repeater with n copies replaces the geometry and the draws listed before it in its own group by n copies each and nothing else; copy i is transformed by the repeater transform raised to offset+i about its anchor, copy opacities run linearly from the start opacity towards the end opacity, and every copied draw covers all copies of exactly the geometry it covered before.",
 ['inputs'],"All shape lists with repeaters x frames",NOR,
 [R,FX,AN],[('Batch::repeat',R),('Repeater::transform',FX),('Repeater::evaluate',AN)])
prop('C26','Absent values mean their Lottie defaults',
 "A property absent from the file behaves as its documented default: no anchor offset, 100% scale, no rotation, no skew, 100% opacity, time stretch 1, start frame 0, blend mode normal, an open path; keyframes without tangents interpolate linearly and keyframes without a hold mark interpolate.",
 ['inputs'],"All files, each optional property absent or present","The fixtures omit scale and opacity but nothing looks at the converted value.",
 [CV,DF,BU,VA],[('defaults',DF),('unwrap_or sites',CV+', '+BU)])
prop('C27','Precompositions play in their own time and space',
 "A precomposition layer draws exactly the layers of the asset with the referenced id (nothing if there is none), under the layer's own composed transform and opacity, at local frame (frame - start) / stretch; parents and mattes of those layers are looked up among the asset's layers.",
 ['inputs'],"All instance layers x frames",NOR,
 [R],[('Content::Instance arm',R+': render_layer')])
prop('C28','Each fill or stroke paints exactly the geometry before it in its group',
 "A fill or stroke paints all geometry listed before it in its own group, nested groups included, and none listed after it or outside the group; each geometry is painted under the transform of its own group, with its outline unaltered by shapes that come later.",
 ['inputs'],"All shape trees",NOR,
 [R],[('geometry ranges',R+': render_shapes, Batch::push_geometry, Batch::push_draw')])
prop('C29','No ambient effects: results depend only on the inputs',
 "Loading and rendering are deterministic functions of their inputs: the library performs no I/O, reads no clock, environment, randomness or thread state, keeps no mutable global state, never depends on hash iteration order, uses no unsafe code and starts no threads.",
 ['inputs','configurations','histories'],"All calls of the public API in any environment","A hidden dependence on time, environment or hash order shows up in no fixed sample of runs.",
 ['src'],[('who-may-call over the whole library','src/**')])
prop('C30','A loaded composition is immutable, shareable data',
 "A composition and everything in it can be shared between threads and rendered concurrently: all public model, schema, renderer and error types are Send and Sync, evaluation and rendering take the model by shared reference and never modify it, and the model contains no interior mutability.",
 ['schedules'],"All interleavings of threads sharing a composition","No test is concurrent.",
 ['src/runtime','src/schema'],[('plain owned data, &self evaluation',MO+', '+R)])
prop('C31','Layer-group callbacks identify the layer',
 "Each layer-group begin reports the layer's own name from the file and its position in the layer array it belongs to, for top-level layers, layers inside precompositions and matte sources alike, and all sink calls of that layer happen between its begin and its end.",
 ['inputs'],"All layers and nesting",NOR,
 [R],[('begin_layer_group call',R+': render_layer')])
prop('C32','Masks and mattes isolate what they apply to',
 "A layer with masks draws all of its content inside one clip per mask, under the layer's transform, with the mask outline of the frame being drawn; a matted layer is drawn as: isolated blend layer, the matte source, then a layer with the matte mode containing all of the layer's content and masks, so nothing of the layer or its matte escapes the isolation and the matte source is drawn once, at the same frame. The whole render is clipped to the composition's width and height under the caller's transform.",
 ['inputs'],"All masked/matted layers x frames",NOR,
 [R],[('matte and mask pushes',R+': render_layer')])
prop('C33','Every animated parameter is evaluated at the frame being drawn',
 "Whenever a shape, style, transform, trim, repeater, mask or opacity is drawn, each of its animatable parameters is evaluated at the local frame being drawn (never at another, fixed or stale frame) and each lands in the parameter of its own meaning: sizes centred on positions, end points, widths, caps, joins and miter limits.",
 ['inputs'],"All animated parameters x frames",NOE,
 [AN,R,MO],[('evaluate methods',AN)])
prop('C34','Keyframes reach the model complete and in order',
 "Every keyframe of an animated property is loaded in file order with its own time, value, hold mark and easing handles: in and out handles are not exchanged, scalar and array handle forms are both understood, and the number of times always equals the number of values; a final path keyframe without a shape of its own takes the end shape of the keyframe before it, or else that one's start shape.",
 ['inputs'],"All animated properties and keyframe forms",NOC,
 [CV],[('conv_keyframes, conv_scalar, conv_gradient_colors, conv_shape_geometry',CV)])
prop('C38','Rendering never panics',
 "Rendering never panics in velato's own code, for any composition, loaded from a file or assembled from the public model types, any frame (also before the first and after the last keyframe, fractional, infinite or NaN), transform, alpha and sink, and whatever the renderer was used for before: references to layers and assets that do not exist, empty or inconsistent keyframe lists, and any nesting, number and order of groups, geometries, fills, strokes, trims and repeaters (with any number of copies, zero included) lead neither to an index or range out of bounds, nor to an arithmetic overflow or a missing value being unwrapped. Exhausted memory and panics inside other crates on extreme coordinates aside.",
 ['inputs'],"All compositions x all frames",NOR,
 [R,RM,AN,VA,SP],[('ranges into the collected lists',R+': Batch'),('lookup of layers and assets',R+': render_layer, compute_transform'),('evaluation of values',AN),('keyframe lookup',VA)],
 observe=['render call returns without panicking'])
prop('C39',"A trim's start, end and offset select the right range",
 "A trim with start and end in percent, in either order, and an offset in degrees selects, as fractions of the total length: nothing if start and end agree, everything if they are at least 100 percent apart, and otherwise the range from the smaller to the larger of the two shifted by offset/360 (any number of turns, either direction), wrapped around into a second range from zero when it runs past the end.",
 ['inputs'],"All start, end and offset values, including reversed ranges, negative and large offsets","No existing test evaluates a trim; the decision which ranges wrap depends on three real numbers.",
 [FX],[('normalised segments of a trim',FX+': Trim::normalized')],observe=['return value of Trim::normalized, which part of an outline is drawn'])
prop('C35','Eased interpolation follows the cubic easing curve accurately',
 "For weight t the eased progress is the y coordinate of the cubic Bezier (0,0), out-handle, in-handle, (1,1) at the parameter where its x coordinate equals t, up to floating-point accuracy.",
 ['inputs'],"All handles in [0,1]x R and weights",NOE,[VA],[('f64::tween',VA)])
prop('C36','Trimmed outlines have the requested arc length',
 "A trim keeps exactly the sub-outline between the start and end percentages of the total arc length, shifted by the offset and wrapped around, within the flattening tolerance.",
 ['inputs'],"All outlines and trim values",NOR,[R,FX],[('apply_trim',R),('Trim::normalized',FX)])
prop('C37','Star and polygon outlines have the right corners',
 "A star or polygon outline has the requested number of points, its corners on the inner and outer radius at equal angles starting at the rotation, rounded by the roundness percentages.",
 ['inputs'],"All star parameters x frames",NOE,[AN],[('Star::evaluate',AN)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
