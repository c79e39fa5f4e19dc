//! Properties decided by differential testing against the reference renderer.

use super::common::*;

const COMMON: &[&str] = &[
    "documents come from the harness's generator: up to 10 layers per array, nesting up to 5, coordinates within 600 units, times within -30..150",
    "comparison tolerances: 1e-6 relative for geometry and transforms (0.2% of the radius for curves that approximate circles), 2e-4 for colours and opacities",
];

macro_rules! check {
    ($id:ident, $q:expr, $t:expr, $rule:expr, $spec:expr) => {
        pub const $id: Check = Check {
            id: stringify!($id),
            quick: $q,
            thorough: $t,
            rule: $rule,
            assumptions: COMMON,
            run: |s, c| by_reference(s, c, &$spec),
        };
    };
}

check!(P04, 24_000, 900_000,
    "a case counts when at least two layers are active and one is not, or a nested array or hidden layer appears; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            layers: (1, 4, 9),
            kinds: [55, 15, 20, 5, 5],
            assets: 3,
            image_assets: 20,
            anim: s.pick(&[0, 20]),
            ind: 80,
            parent: s.pick(&[0, 40]),
            dangling: 8,
            matte: s.pick(&[0, 0, 20]),
            tp: 30,
            mask: s.pick(&[0, 10]),
            hidden: s.pick(&[0, 30]),
            window: s.pick(&[30, 80]),
            xf: 25,
            stretch: 40,
            bm: 10,
            ..Prof::default()
        },
        cats: &[Cat::Name, Cat::Index],
        focused_cats: &[Cat::Struct, Cat::DrawXf],
        frames: 6,
        nontrivial: |c, s, _| s.layers >= 2 && (s.inactive > 0 || s.instances > 0 || c.layers.iter().any(|l| l.hidden == Some(true))),
        ..REF
    });

check!(P05, 24_000, 900_000,
    "a case counts when a paint or mask clip is placed by a layer with a non-identity transform; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            layers: (1, 3, 7),
            kinds: [70, 30, 0, 0, 0],
            anim: s.pick(&[0, 25, 60]),
            ind: 85,
            parent: s.pick(&[0, 50, 80]),
            dangling: 8,
            mask: 10,
            xf: s.pick(&[30, 60]),
            omit: s.pick(&[20, 60]),
            split: s.pick(&[0, 35]),
            skew: s.pick(&[0, 35]),
            opacity: 10,
            hidden: 5,
            window: 10,
            ..Prof::default()
        },
        cats: &[Cat::DrawXf, Cat::ClipXf],
        nontrivial: |_, s, e| (s.draws > 0 || s.masks > 0) && e.iter().any(|e| match e {
            E::Draw(d) => d.parts.iter().any(|p| p.xf != Affine::IDENTITY),
            E::Mask { xf, .. } => *xf != Affine::IDENTITY,
            _ => false,
        }),
        ..REF
    });

check!(P06, 24_000, 900_000,
    "a case counts when some paint's expected opacity lies strictly between 0 and 1; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            layers: (1, 2, 5),
            kinds: [70, 5, 25, 0, 0],
            assets: 2,
            anim: s.pick(&[0, 30, 60]),
            parent: 20,
            ind: 80,
            matte: s.pick(&[0, 0, 15]),
            mask: s.pick(&[0, 10]),
            opacity: 80,
            shapes: [20, 20, 10, 0, 20, 20, 10, 10, 5, 0, 0],
            items: (1, 2, 5),
            gdepth: 2,
            tr: 80,
            stretch: 30,
            ..Prof::default()
        },
        cats: &[Cat::Alpha],
        nontrivial: |_, _, e| e.iter().any(|e| matches!(e, E::Draw(d) if d.alpha > 0.0 && d.alpha < 1.0)),
        ..REF
    });

check!(P07, 40_000, 1_500_000,
    "a case counts when it holds an animated value that is looked at strictly inside its keyframe range or at a keyframe; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            anim: s.pick(&[100, 60]),
            keys: 4,
            ease: s.pick(&[0, 50, 100]),
            hold: s.pick(&[0, 20]),
            overshoot: 30,
            xf: s.pick(&[0, 40]),
            skew: s.pick(&[0, 10]),
            split: s.pick(&[0, 40]),
            mask: 0,
            opacity: 60,
            shapes: [0, 25, 25, 15, 0, 25, 25, 0, 0, 0, 0],
            ..Prof::default()
        },
        broad_pct: 0,
        cats: &[Cat::DrawXf, Cat::Path, Cat::Alpha, Cat::Color, Cat::Stroke, Cat::Struct, Cat::Kind],
        frames: 8,
        nontrivial: |c, s, _| s.draws > 0 && !r#gen::all_times(c).is_empty(),
        ..REF
    });

check!(P08, 30_000, 1_000_000,
    "a case counts when an animated bezier path is painted or clipped with; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            anim: 80,
            keys: 4,
            ease: s.pick(&[0, 60, 100]),
            hold: s.pick(&[0, 25]),
            overshoot: 30,
            mask: s.pick(&[0, 60]),
            shapes: [0, 0, 0, 0, 100, 0, 0, 0, 0, 0, 0],
            ..Prof::default()
        },
        tweak: |_, c| each_shape(c, &mut |s| {
            if let Shape::Fill { c, .. } | Shape::Stroke { c, .. } = s {
                *c = Anim::Static([0.5, 0.25, 0.75]);
            }
        }),
        broad_pct: 10,
        cats: &[Cat::Path, Cat::ClipPath],
        frames: 8,
        nontrivial: |c, _, e| {
            let mut k = false;
            let mut c = c.clone();
            each_shape(&mut c, &mut |s| k |= matches!(s, Shape::Path(PathVal::Keys(_))));
            each_layer(&mut c, &mut |l| k |= l.masks.iter().flatten().any(|m| matches!(m.path, Some(PathVal::Keys(_)))));
            k && e.len() > 4
        },
        ..REF
    });

check!(P09, 30_000, 1_000_000,
    "a case counts when a rectangle, ellipse, star or polygon is painted; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            anim: s.pick(&[0, 0, 40]),
            shapes: match s.below(4) {
                0 => [0, 100, 0, 0, 0, 0, 0, 0, 0, 0, 0],
                1 => [0, 0, 100, 0, 0, 0, 0, 0, 0, 0, 0],
                2 => [0, 0, 0, 100, 0, 0, 0, 0, 0, 0, 0],
                _ => [0, 30, 30, 30, 10, 0, 0, 0, 0, 0, 0],
            },
            ..Prof::default()
        },
        broad_pct: 10,
        cats: &[Cat::Path],
        frames: 2,
        nontrivial: |c, _, e| {
            let mut k = false;
            each_shape(&mut c.clone(), &mut |s| k |= matches!(s, Shape::Rect { .. } | Shape::Ell { .. } | Shape::Star(_)));
            k && e.iter().any(|e| matches!(e, E::Draw(_)))
        },
        ..REF
    });

check!(P10, 24_000, 900_000,
    "a case counts when a static bezier path with a tangent, or several paths, are painted; distinct by document text",
    RefSpec {
        focused: |_| Prof { mask: 15, shapes: [0, 5, 0, 0, 95, 0, 0, 0, 0, 0, 0], items: (1, 2, 5), ..Prof::default() },
        broad_pct: 15,
        cats: &[Cat::Path, Cat::ClipPath],
        focused_cats: &[Cat::Struct, Cat::Merge],
        frames: 1,
        nontrivial: |_, _, e| e.iter().any(|e| matches!(e, E::Draw(d) if d.parts.iter().any(|p| matches!(p.outline, Outline::Exact(_))))),
        ..REF
    });

check!(P11, 24_000, 900_000,
    "a case counts when at least two styles paint in one frame; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            layers: (1, 1, 2),
            shapes: [30, 20, 10, 5, 25, 25, 15, 0, 0, 0, 5],
            items: (1, 4, 9),
            gdepth: 4,
            tr: s.pick(&[0, 30, 70]),
            xf: s.pick(&[0, 30]),
            omit: 50,
            hidden: 0,
            hide: s.pick(&[0, 12]),
            ..Prof::default()
        },
        tweak: |_, c| unique_colors(c),
        broad_pct: 20,
        cats: &[Cat::Struct, Cat::Merge],
        focused_cats: &[Cat::Color, Cat::Kind, Cat::Path, Cat::DrawXf],
        frames: 1,
        nontrivial: |_, s, _| s.draws >= 2,
        ..REF
    });

check!(P12, 24_000, 900_000,
    "a case counts when a stroke, or two styles, are painted; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            layers: (1, 2, 3),
            anim: s.pick(&[0, 40]),
            shapes: [10, 20, 10, 0, 10, 30, 40, 5, 15, 0, 0],
            items: (1, 4, 7),
            hide: 4,
            gdepth: 1,
            opacity: 20,
            ..Prof::default()
        },
        cats: &[Cat::Color, Cat::Stroke, Cat::Kind],
        nontrivial: |_, s, e| s.draws >= 2 || e.iter().any(|e| matches!(e, E::Draw(EDraw { stroke: Some(_), .. }))),
        ..REF
    });

check!(P13, 30_000, 1_000_000,
    "a case counts when a gradient is painted; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            anim: s.pick(&[0, 50, 90]),
            hold: s.pick(&[0, 30]),
            opacity: s.pick(&[0, 60]),
            shapes: [0, 50, 0, 0, 0, 0, 0, 50, 30, 0, 0],
            items: (1, 2, 3),
            ..Prof::default()
        },
        cats: &[Cat::Grad],
        focused_cats: &[Cat::Struct, Cat::Alpha, Cat::Kind],
        frames: 6,
        nontrivial: |_, _, e| e.iter().any(|e| matches!(e, E::Draw(EDraw { brush: EBrush::Grad { .. }, .. }))),
        ..REF
    });

check!(P15, 16_000, 600_000,
    "a case counts when an instance of an asset paints something; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            layers: (1, 3, 5),
            kinds: [50, 5, 45, 0, 0],
            assets: 4,
            image_assets: 10,
            anim: s.pick(&[10, 40]),
            hold: 10,
            ease: 30,
            parent: s.pick(&[0, 30]),
            dangling: 10,
            mask: s.pick(&[0, 15]),
            window: 40,
            xf: 35,
            opacity: 35,
            stretch: 80,
            hidden: s.pick(&[0, 8]),
            ..Prof::default()
        },
        tweak: |_, c| {
            unique_names(c);
        },
        cats: &[Cat::Struct],
        focused_cats: &[Cat::DrawXf, Cat::ClipXf, Cat::Alpha, Cat::Path, Cat::Color, Cat::Name],
        frames: 6,
        nontrivial: |_, s, e| s.instances > 0 && e.iter().any(|e| matches!(e, E::Draw(_))),
        ..REF
    });

check!(P16, 20_000, 700_000,
    "a case counts when at least one matte is composited in the frame; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            layers: (2, 4, 8),
            kinds: [75, 10, 15, 0, 0],
            assets: 1,
            anim: 10,
            ind: 85,
            parent: 10,
            dangling: 5,
            matte: 55,
            tp: s.pick(&[0, 50]),
            mask: s.pick(&[0, 15]),
            hidden: s.pick(&[0, 8]),
            window: 15,
            xf: 30,
            opacity: 30,
            ..Prof::default()
        },
        tweak: |_, c| unique_names(c),
        cats: &[Cat::Struct, Cat::Blend],
        focused_cats: &[Cat::Name, Cat::DrawXf, Cat::Alpha, Cat::ClipXf],
        nontrivial: |_, s, _| s.mattes > 0,
        ..REF
    });

check!(P17, 20_000, 700_000,
    "a case counts when at least one mask clips in the frame; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            layers: (1, 3, 5),
            kinds: [60, 10, 30, 0, 0],
            assets: 2,
            anim: s.pick(&[0, 40]),
            ind: 80,
            parent: 20,
            mask: 65,
            matte: s.pick(&[0, 0, 20]),
            hidden: s.pick(&[0, 10]),
            xf: 35,
            window: 10,
            stretch: 20,
            ..Prof::default()
        },
        cats: &[Cat::ClipXf, Cat::ClipPath, Cat::Struct],
        nontrivial: |_, s, _| s.masks > 0,
        ..REF
    });

check!(P18, 24_000, 900_000,
    "a case counts when something inside a shape group is painted; distinct by document text",
    RefSpec {
        focused: |s| Prof {
            shapes: [40, 20, 10, 0, 20, 15, 10, 10, 5, 0, 0],
            items: (1, 3, 6),
            gdepth: 4,
            tr: s.pick(&[60, 95]),
            xf: s.pick(&[30, 60]),
            omit: s.pick(&[20, 60]),
            split: s.pick(&[0, 40]),
            skew: s.pick(&[0, 30]),
            anim: s.pick(&[0, 20]),
            ..Prof::default()
        },
        cats: &[Cat::DrawXf],
        nontrivial: |_, s, e| s.groups > 0 && e.iter().any(|e| matches!(e, E::Draw(_))),
        ..REF
    });
