#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids, anchors and MANIFEST stay in step)."""
import json, os
R="src/runtime/render.rs"; C="src/import/converters.rs"; B="src/import/builders.rs"; D="src/import/defaults.rs"
V="src/runtime/model/value.rs"; A="src/runtime/model/animated.rs"; F="src/runtime/model/fixed.rs"; M="src/runtime/model/mod.rs"; SP="src/runtime/model/spline.rs"
RM="src/runtime/mod.rs"; VE="src/runtime/vello.rs"; S="src/schema"
SINK="the calls a RenderSink receives from Renderer::append"
P=[]
def prop(id,title,statement,over,quant,why,files,mech,observe=(SINK,),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],hook_needed=None)))
T0="The 16 existing tests parse a handful of fixed fragments and check four layer flags; none renders anything, "

prop("P01","Importing any input ends in a composition or an error, never a crash",
 "For every byte string, every string, and every JSON value nested no deeper than the text parser allows, importing it returns either a composition or an error: it never panics, aborts or runs away. For a document without duplicated keys and within the parser's nesting limit, the byte, string and JSON-value entry points agree on acceptance and produce compositions that render identically.",
 ["inputs"],"every byte string, including documents that are well formed Lottie, use any subset of optional properties, carry unusual but legal encodings (empty arrays, split vectors, image assets, every enum value), or are corrupted anywhere",
 T0+"and the crashing inputs are legal documents using an optional or alternative encoding (a transform without a rotation, an image asset, split rotation, blend mode 16) that no fixture contains.",
 [RM,C,B,"src/schema/mod.rs"],[("three import entry points",RM+" Composition::{from_slice,from_json,from_str}"),("schema to model conversion",C+" conv_animation and every conv_* function"),("layer conversion",B)],("Composition::from_slice / from_str / from_json return values",))

prop("P02","Rendering any accepted document at any frame completes with finite output",
 "Rendering an accepted document at any finite frame and transform and any opacity from 0 to 1 terminates without panicking, also when its parent, matte or precomposition references are dangling, self-referential or cyclic. When the document's numbers are of ordinary magnitude (below a million, keyframes in any order, duplicate keyframe times included), every coordinate, matrix entry and opacity sent to the sink is finite.",
 ["inputs"],"every accepted document and every finite frame number, in particular frames that fall exactly on the first, last or a duplicated keyframe, and every reference graph between layers and assets",
 T0+"so no test reaches the recursion through precomposition and matte references or the division by the length of a keyframe interval.",
 [R,V,A],[("recursion through instances and mattes",R+" Renderer::render_layer"),("parent chain guard",R+" Renderer::compute_transform"),("keyframe weight",V+" Time::frames_and_weight")])

prop("P03","Sink call protocol: one root clip, balanced pushes, pops and groups",
 "For every document and frame the sink first receives a clip of the composition's width by height rectangle under the caller's transform and finally the matching pop, and everything else lies between. Pushes and pops, and group begin and end notifications, are properly nested: every layer group closes with exactly as many pops as it pushed, and nothing is popped that was not pushed.",
 ["inputs"],"every composition, frame, caller transform and opacity: any combination of masks, mattes (present, dangling, out of their time range), nested precompositions and hidden layers",
 T0+"and one missing pop depends on the combination of mask count, matte presence and content kind of a layer.",
 [R],[("root clip",R+" Renderer::append"),("pop count",R+" Renderer::render_layer")])

prop("P04","Exactly the active layers are painted, back to front, with their identity",
 "At frame f the sink is told of exactly the layers whose in point is at or before f and whose out point is after f, excluding matte sources, last array entry first, each bracketed by one begin and one end notification carrying its name and its position in the layer array it belongs to. Hidden layers and layers without drawable content paint nothing but still appear and still position their children.",
 ["inputs"],"every layer array (any length, kinds, hidden flags, in and out points, names) of the main composition and of every precomposition, and every frame, including frames equal to an in or out point and frames outside all layers",
 T0+"so neither the half-open visibility interval, the reversal of the paint order, nor group identity inside precompositions is exercised.",
 [R,C,B],[("visibility and order",R+" Renderer::append, render_layer"),("hidden layers",C+" conv_layer"),("frame range import",B+" setup_*")])

prop("P05","Layer placement: own transform composed with every ancestor and the caller",
 "Everything a layer paints or clips is placed by the caller's transform, then each transform ancestor from the outermost to the nearest, then the layer's own transform, where a transform maps a point by subtracting the anchor, scaling in percent, skewing along the skew axis, rotating clockwise in degrees and translating to the position; omitted components count as no change. Parents are found by layer index within the same layer array wherever they stand in it, ancestors contribute their transform only (not opacity, visibility or content), and an unresolvable parent is ignored.",
 ["inputs"],"every parent forest over every layer array, every combination of static, animated, split and omitted transform components, and every frame",
 T0+"so the matrix order, the omitted-component defaults and the index-to-position mapping are untested.",
 [R,C,B,A,D],[("parent chain",R+" Renderer::compute_transform"),("matrix composition",A+" Transform::evaluate"),("index resolution",C+" process_layers"),("defaults",D)])

prop("P06","Paint opacity is the product of all opacities that apply",
 "The opacity of every paint is the product of the caller's opacity, the opacity of each precomposition layer it is instanced through, its own layer's opacity, the opacity of each enclosing shape group and its style's opacity, each percentage evaluated at the frame of the composition that owns it and limited to 0 to 100. Opacities of transform parents do not contribute.",
 ["inputs"],"every nesting of precompositions, layers and groups with any static or animated opacities, for solid and gradient paints alike, and every caller opacity",
 T0+"and factors at different nesting levels are applied in four different places.",
 [R,C,A,M],[("layer and instance factor",R+" render_layer"),("group factor",R+" render_shapes"),("style factor",R+" DrawData::new, Batch::render"),("style opacity import",C+" conv_draw")])

prop("P07","Keyframed values follow the keyframes' easing curve at every frame",
 "Every keyframed number, vector, size and colour equals the first keyframe's value before it, the last keyframe's value from it onwards, the keyframe's own value at each keyframe time, the held value during a hold, and otherwise start plus (end minus start) times the height of the cubic curve from (0,0) to (1,1) through the segment's out and in handles at the relative time. This is so for one-value and multi-value properties, whose components each follow their own handles, whether handles are written as numbers or arrays; a segment without handles is linear, and where only one is given the other lies at its own end, (0,0) or (1,1).",
 ["inputs"],"every keyframe list (any count, spacing, negative or fractional times, holds, overshooting handles, one handle missing), every animatable property of the format, and every frame",
 T0+"and interpolation is wrong only for particular combinations of handle shape, segment and frame.",
 [V,C],[("segment lookup",V+" Time::frames_and_weight"),("easing",V+" Tween for f64"),("keyframe import",C+" conv_keyframes, conv_scalar, conv_keyframe_handle")],(SINK,"model::Value::evaluate"))

prop("P08","Animated paths morph between keyframe outlines with the same timing rules",
 "At every frame an animated bezier path is the outline whose vertices and tangents lie at the eased fraction between the segment's start outline and its end outline (its explicit end if given, otherwise the next keyframe's start), equal to the first and last outlines outside the keyframe range and held during holds. Easing and hold follow the same rules as for numeric keyframes, and the result is closed when the keyframes' outlines are.",
 ["inputs"],"every list of path keyframes (with and without explicit ends, with the last start omitted), vertex counts, easing handles and frames, including frames exactly on a keyframe",
 T0+"and animated paths are evaluated by code of their own that shares nothing with numeric keyframes but the lookup.",
 [A,C,SP,"src/schema/animated_properties/shape_property.rs"],[("evaluation",A+" Spline::evaluate"),("import with start/end fallback",C+" conv_shape_geometry")])

prop("P09","Rectangles, ellipses, stars and polygons have the outline their numbers describe",
 "A rectangle outline is the axis-aligned rectangle of the given size centred on its position with corners rounded by the radius limited to half the shorter side; an ellipse outline is the ellipse of the given size centred on its position. A star or polygon has the given number of points at the outer (alternating with the inner) radius around its position, the first one straight up and then turned clockwise by the rotation, with straight edges at zero roundness and tangents proportional to the roundness otherwise.",
 ["inputs"],"all positions, sizes, radii, roundness values, rotations and point counts, static or animated, at every frame",
 T0+"no outline is ever computed in a test.",
 [A,C],[("rect, ellipse, star evaluation",A+" Rect::evaluate, Ellipse::evaluate, Star::evaluate"),("import",C+" conv_geometry, conv_polystar_geometry")])

prop("P10","Bezier paths are reproduced vertex by vertex",
 "A static bezier path starts at its first vertex and joins consecutive vertices by the cubic curve whose control points are the first vertex plus its out tangent and the second vertex plus its in tangent, a straight line being equivalent when both tangents are zero; missing tangents count as zero. A closed path is completed by the joining curve from the last vertex to the first and closed, an open one is not, and several paths in one group stay separate contours.",
 ["inputs"],"every vertex list (empty, single vertex, any length), tangent lists shorter or longer than it, open, closed or unspecified",
 T0+"bezier conversion is not rendered by any test.",
 [SP,C],[("spline to path",SP+" SplineToPath::to_path"),("import",C+" conv_spline, conv_shape_geometry")])

prop("P11","A style paints exactly the shapes before it in its group, upper styles on top",
 "Each fill or stroke paints every path that precedes it in its own group, including paths inside preceding nested groups, and no path after it or outside its group; consecutive paths listed directly in one group, which no style has used in between, are painted as one compound path. Styles are painted in reverse list order, so a style listed earlier ends up on top of a later one, across nested groups too. A shape marked hidden (path, style, group or trim) counts as absent.",
 ["inputs"],"every shape tree: any nesting of groups, any interleaving of paths and styles, several styles over the same paths, styles before any path, empty groups, hidden shapes of every kind",
 T0+"shape trees are parsed but never painted.",
 [R,C],[("scope bookkeeping",R+" Renderer::render_shapes, Batch::push_geometry, push_draw"),("emission order",R+" Batch::render"),("shape import",C+" conv_shape")])

prop("P12","Solid fills and strokes carry the document's colour and stroke parameters",
 "A fill reaches the sink without stroke parameters and a stroke with exactly the document's width at that frame, cap, join and miter limit, both with the document's red, green and blue at that frame. Fills are never turned into strokes or the reverse, and one style's parameters never leak into another.",
 ["inputs"],"all colours, widths (static or animated), the three caps and three joins, miter limits, mixed in any order within a group",
 T0+"so the numeric codes of caps and joins and the channel order are unchecked.",
 [C,A,R],[("style import",C+" conv_draw, conv_color"),("stroke evaluation",A+" Stroke::evaluate"),("draw capture",R+" DrawData::new")])

prop("P13","Gradients keep their kind, end points, stops and opacity at every frame",
 "A gradient fill or stroke reaches the sink as a linear gradient between its start and end points, or a radial one centred on the start point whose radius is the distance to the end point, with one stop per declared colour stop that its data provides, at the declared offset and colour, all evaluated at the frame with offsets and colours easing and holding alike. The style's opacity and the transparency stops both attenuate the stops: each colour stop's opacity lies between those of the transparency stops on either side of its offset (that of the nearest one beyond the first or last, exactly theirs when they agree).",
 ["inputs"],"all gradient kinds, stop counts, animated or static stops and points, with and without transparency stops (any number of them at any offsets, of one value or several), holds included",
 T0+"gradient data is only round-tripped as raw numbers.",
 [C,A,R],[("stop import",C+" conv_gradient_colors, conv_stops"),("evaluation",A+" Gradient::evaluate, ColorStops::evaluate"),("opacity",C+" conv_draw")])

prop("P14","Trimming keeps exactly the requested fraction of each outline",
 "A trim leaves, of every outline before it in its group (paths that count as one compound path are one outline), the sub-path from start to end percent (each limited to 0 to 100) of that outline's length, both shifted by offset/360 of the length and wrapping around, whichever of start and end is larger; nothing when they coincide and everything when they span the whole. It adds no segment that was not part of the outline, and outlines outside its reach stay untouched.",
 ["inputs"],"all start, end and offset values, static or animated, over every outline kind, several outlines, multi-contour outlines, stacked trims and nested groups",
 T0+"trim is one of the largest pieces of arithmetic in the renderer and no test runs it.",
 [R,F,C],[("range normalisation",F+" Trim::normalized"),("cutting",R+" Batch::apply_trim"),("import",C+" conv_shape")],
 state=[("element buffer","flat storage all outlines slice into; trimming rebuilds it",R+" Batch")])

prop("P15","A precomposition is rendered as its own timeline inside its layer",
 "A precomposition layer paints the layers of the asset it names, back to front, placed by the layer's full transform and attenuated by its opacity, with their own time running at (frame minus start time) divided by the stretch, for visibility as well as for every animated value. Instancing is per layer: several instances of an asset, at different times and nested to any depth, do not influence each other, and an unknown asset paints nothing.",
 ["inputs"],"every acyclic asset graph, start times (negative included), stretch factors, in and out points and frames",
 T0+"time mapping through nested instances is not exercised.",
 [R,B,C],[("instancing and time mapping",R+" render_layer, Content::Instance"),("import",B+" setup_precomp_layer; "+C+" conv_animation")])

prop("P16","Track mattes composite the right source with the right operator",
 "A layer with a track matte and a resolvable source is painted as: an isolation layer over the composition area, the source layer rendered as a normal layer, a second layer that keeps the content inside the source (plain alpha and luma mattes) or outside it (inverted mattes), the layer's content, and two pops. The source is the layer with the explicitly named index or, without one, the nearest preceding matte-source layer not yet consumed; matte sources never paint on their own.",
 ["inputs"],"every arrangement of matte sources and matted layers in a layer array (chains, hidden sources, explicit indices forward and backward, dangling indices, sources out of their time range), every alpha and luma matte mode, in the main composition and in precompositions",
 T0+"only the is-a-matte-source flag of a single layer is tested, not the pairing.",
 [C,B,R],[("pairing",C+" process_layers"),("mode import",B+" setup_*"),("compositing",R+" render_layer")])

prop("P17","Masks clip the layer's whole content with the outline at that frame",
 "Each mask of a layer that has an outline becomes one clip around all of the layer's content, nested instances included, in the listed order, with the mask's outline at that frame, in the layer's own coordinates. Masks of one layer never clip another layer's content.",
 ["inputs"],"all mask counts, static and animated mask outlines, on layers of every kind, combined with mattes and parents, at every frame",
 T0+"masks are not rendered by any test.",
 [R,B,C],[("mask import",B+" setup_*"),("clip emission",R+" render_layer")])

prop("P18","Nested shape groups compose their transforms outermost first",
 "A path inside nested groups is placed by the layer's placement followed by each enclosing group's transform from the outermost to the innermost, with the same component order, defaults and animation as layer transforms, whether its position is written as a vector or split; a group without transform leaves its content in place. Strokes and gradients are painted in the coordinate system of the path they paint.",
 ["inputs"],"every nesting of groups with any combination of static, animated, split and omitted transform components, at every frame",
 T0+"group transforms are never evaluated.",
 [R,C,A],[("group recursion",R+" render_shapes"),("group transform import",C+" conv_shape_transform")])

prop("P19","Parsing then serialising a document preserves every recognised property",
 "Serialising a parsed document yields JSON that contains every property of the input that the format model recognises, under the same key with the same value, and nothing the input did not state except explicit nulls and false flags. Parsing that output again gives an equal document, with the same rendering. The same round trip holds for the types of the format model that no document leads to (layer styles, text codes).",
 ["inputs"],"every document built from the recognised layer, asset, shape, property, keyframe and constant kinds, with any subset of the optional properties present",
 T0+"and the round trip is asserted for three fragments out of some seventy types with several hundred keys.",
 [S+"/animation",S+"/assets",S+"/layers",S+"/shapes",S+"/helpers",S+"/animated_properties",S+"/constants"],[("serde derives","src/schema/**"),("hand-written layer and asset dispatch",S+"/layers/mod.rs AnyLayer, "+S+"/assets/mod.rs AnyAsset"),("Display",S+"/animation/animation.rs")],("schema::Animation parse, Display and serde output",))

prop("P20","Malformed documents are rejected, naming the offending asset",
 "A document that lacks a required property, uses an unknown layer type, shape type or enumeration code, has a value of the wrong JSON type, or is cut off, is rejected with an error instead of being imported with a guess. When the defect lies inside an asset, the message names that asset's id, and the message is never empty.",
 ["inputs"],"every single defect injected at every position of every generated valid document",
 T0+"and no negative case is asserted.",
 [S,"src/error.rs"],[("asset errors",S+"/assets/mod.rs AnyAsset"),("layer dispatch",S+"/layers/mod.rs AnyLayer"),("keyframe validation",S+"/animated_properties/shape_property.rs"),("error display","src/error.rs")],("Err value and its Display text",))

prop("P21","Rendering is a pure function of composition, frame, transform and opacity",
 "The calls a render produces depend only on the composition, frame, caller transform and caller opacity: not on what the same renderer rendered before, on rendering order, on other threads, or on what the sink already contains. Rendering neither changes the composition nor leaves anything behind in the renderer, even after frames at which nothing is drawn.",
 ["histories","inputs"],"every sequence of renders of any compositions at any frames through one renderer, compared with fresh renderers, clones and concurrent threads",
 T0+"and stale per-renderer buffers show only after particular sequences.",
 [R],[("buffer clearing",R+" Renderer::append, Batch::clear, Batch::apply_trim")],
 state=[("batch and mask buffers","reused between layers and renders",R+" Renderer")])

prop("P22","The ready-made scene backend encodes exactly the sink calls",
 "Rendering straight to a scene gives the same encoded scene as recording the generic sink calls and replaying them on an empty scene with the scene's own drawing operations: fills with the non-zero rule, strokes with their parameters, clips, blend layers with their alpha, in order. Appending to a scene that already has content leaves that content as a prefix.",
 ["inputs"],"every composition, frame, transform and opacity",
 T0+"the scene backend is not exercised at all.",
 [VE],[("sink implementation for scenes",VE),("scene constructor",VE+" Renderer::render_to_vello_scene")],("vello::Scene::encoding()",))

prop("P23","Caller transform and opacity act uniformly on the whole output",
 "Rendering under transform T gives the same calls as rendering under the identity with every call's transform pre-multiplied by T; rendering with opacity a gives the same calls with every paint's opacity multiplied by a. Paths, stroke parameters, layer blends, order and group notifications are unaffected by either.",
 ["inputs"],"every composition and frame, every finite invertible or singular transform and every opacity between 0 and 1",
 T0+"and the law spans every feature that emits a call.",
 [R],[("transform and alpha threading",R+" append, render_layer, render_shapes")])

prop("P24","Equivalent encodings of a document mean the same",
 "Reordering object keys, adding unknown keys, writing whole values of real-valued properties as integers or decimals, adding or dropping redundant flags and metadata (animated flags, property indices, names of properties, versions) and inserting whitespace do not change whether a document is accepted or how it renders. Layer order and shape order, which are meaningful, are the only orders that matter.",
 ["inputs"],"every document and every combination of the listed rewritings at every place of it",
 T0+"each fixture uses a single spelling.",
 [S,C],[("untagged and flattened deserialisation","src/schema/animated_properties/**, src/schema/layers/**"),("handles as number or array",C+" collect_tangents, conv_keyframe_handle")],("import result and "+SINK,))

prop("P25","Time is relative: shifted timelines render shifted, constants do not move",
 "Moving every keyframe time, in point and out point of a composition's own timeline (and the start times of its precomposition layers) by d makes the rendering at frame f+d equal to the former rendering at f. Replacing any static property by keyframes that all carry its value changes nothing at any frame, and refining a linear segment by a keyframe on its line changes nothing.",
 ["inputs"],"every document, every shift d (fractional and negative included), every static property and every frame",
 T0+"and these relations tie together every animated property and every use of the frame number.",
 [V,A,R,C],[("keyframe lookup",V),("fixed versus animated forms",A+" into_model, is_fixed"),("frame use",R)])

prop("P26","A repeater paints its copies, each transformed and faded by its own step",
 "A repeater in a composition built through the model replaces the shapes before it in its group by the requested number of copies, copy i being scaled, rotated about the anchor and moved t times by the repeater's scale, rotation and position, t being i plus the offset, in the group's coordinate system. From the start opacity on, each copy's opacity moves by an equal share (one over the number of copies) of the way to the end opacity. Each copy is painted exactly once per style, copies whose opacity is not positive are not painted, and shapes outside the group are unaffected.",
 ["inputs"],"all copy counts (zero and one included), offsets, anchors, positions, rotations, scales and opacities, over groups with several paths, styles and nested groups, fixed or animated",
 T0+"no test builds or renders a repeater.",
 [R,F,A],[("copying",R+" Batch::repeat"),("step transform",F+" Repeater::transform")])

prop("P27","An imported composition reports the document's own metadata",
 "After import the composition reports the document's frame range, frame rate, width and height, one entry per precomposition asset under its id, and one layer per document layer in document order with its name, frame range, time stretch, start frame, instance size, blend mode and masks; omitted optional values take the format's defaults. Image assets, which cannot be drawn, do not prevent import and do not disturb other assets.",
 ["inputs"],"every document with any numbers, names (non-ASCII, empty, absent), asset tables and all eighteen blend modes",
 T0+"no test looks at the imported composition itself.",
 [C,B,RM],[("import",C+" conv_animation, conv_blend_mode"),("layer fields",B+" setup_*")],("public fields of Composition and model::Layer",))

prop("P28","Fixed and animated forms of every model value agree",
 "For every model value (transform, stroke, brush, gradient stops, repeater, trim, star, scalar, point), converting its animated description to the stored form preserves its evaluation at every frame, it reports itself fixed exactly when no component is animated, and applying an opacity while evaluating a brush attenuates the fixed and the animated form alike. A composition assembled by hand from these values renders like the same composition imported from a document.",
 ["inputs"],"every animated description with any subset of its components keyframed, every opacity and frame",
 T0+"the model's public constructors and evaluators are not called by any test.",
 [A,M,V],[("into_model, is_fixed, evaluate",A),("evaluate dispatch",M)],("public evaluate/into_model/is_fixed functions and "+SINK,))

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
