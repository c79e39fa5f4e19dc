//! The scene backend against replaying the recorded calls with the scene's own operations.

use super::common::*;
use peniko::Fill;
use velato::vello::Scene;

fn replay(ops: &[Op], s: &mut Scene) {
    for op in ops {
        match op {
            Op::Layer { blend, alpha, xf, path } => s.push_layer(Fill::NonZero, *blend, *alpha, *xf, &path.as_slice()),
            Op::Clip { xf, path } => s.push_clip_layer(Fill::NonZero, *xf, &path.as_slice()),
            Op::Pop => s.pop_layer(),
            Op::Draw { stroke: Some(st), xf, brush, path } => s.stroke(st, *xf, brush, None, &path.as_slice()),
            Op::Draw { stroke: None, xf, brush, path } => s.fill(Fill::NonZero, *xf, brush, None, &path.as_slice()),
            Op::Begin { .. } | Op::End => {}
        }
    }
}

/// The streams of an encoded scene, element by element.
fn streams(s: &Scene) -> Vec<(&'static str, Vec<String>)> {
    let e = s.encoding();
    macro_rules! v {
        ($n:expr, $x:expr) => {
            ($n, $x.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>())
        };
    }
    vec![
        ("path tags", e.path_tags.iter().map(|t| t.0.to_string()).collect()),
        v!("path data", e.path_data),
        ("draw tags", e.draw_tags.iter().map(|t| t.0.to_string()).collect()),
        v!("draw data", e.draw_data),
        v!("transforms", e.transforms),
        v!("styles", e.styles),
        ("patches", vec![e.resources.patches.len().to_string()]),
        v!("colour stops", e.resources.color_stops),
        ("glyphs", vec![e.resources.glyphs.len().to_string(), e.resources.glyph_runs.len().to_string()]),
        ("counts", vec![e.n_paths, e.n_path_segments, e.n_clips, e.n_open_clips].iter().map(|n| n.to_string()).collect()),
        ("flags", vec![e.flags.to_string()]),
    ]
}
fn same(a: &Scene, b: &Scene) -> Result<(), String> {
    for ((n, x), (_, y)) in streams(a).iter().zip(&streams(b)) {
        if x != y {
            let k = x.iter().zip(y).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
            return Err(format!("{n}: entry {k} is {} instead of {} ({} and {} entries)", x.get(k).cloned().unwrap_or("missing".into()), y.get(k).cloned().unwrap_or("surplus".into()), x.len(), y.len()));
        }
    }
    Ok(())
}
fn prefix(a: &Scene, b: &Scene) -> Result<(), String> {
    for ((n, x), (_, y)) in streams(a).iter().zip(&streams(b)) {
        if !matches!(*n, "counts" | "flags" | "glyphs" | "patches") && !y.starts_with(x) {
            return Err(format!("{n} were changed"));
        }
    }
    Ok(())
}

pub const P22: Check = Check {
    id: "P22",
    quick: 16_000,
    thorough: 600_000,
    rule: "a case counts when at least one paint is encoded; distinct by document text",
    assumptions: &["the encoded scene is compared stream by stream: path tags and data, draw tags and data, transforms, styles, gradient stops and counts"],
    run: |src, ctx| {
        let mut prof = if src.pct(30) { Prof::wild() } else { Prof::all() };
        prof.matte = src.pick(&[12, 40]);
        prof.mask = src.pick(&[15, 40]);
        let make = |src: &mut Src, prof: &Prof| {
            let c = r#gen::comp(src, prof);
            super::metamorph::expansion(&c, 1500).map(|_| (enc::encode(&c, src, Extras::Meta, 5).text(), r#gen::all_times(&c)))
        };
        let Some((text, times)) = make(src, &prof) else { return Ok(()) };
        ctx.input(text.clone());
        let Ok(c) = sut(|| Composition::from_slice(text.as_bytes())) else {
            ctx.tag("rejected"); // odd documents need not be valid
            return Ok(());
        };
        let mut renderer = Renderer::new();
        for _ in 0..3 {
            let (f, xf, a) = (r#gen::frame(src, &times, false), r#gen::affine(src), alpha(src));
            let ops = rend(&c, f, xf, a);
            ctx.nontrivial |= ops.iter().any(|o| matches!(o, Op::Draw { .. }));
            let mut want = Scene::new();
            replay(&ops, &mut want);
            let got = sut(|| renderer.render_to_vello_scene(&c, f, xf, a));
            if let Err(m) = same(&got, &want) {
                ctx.note(format!("recorded calls:\n{}", show(&ops)));
                return fail(format!("at frame {f} the new scene differs from the replayed calls: {m}"));
            }
            // on top of what is there
            let g = r#gen::frame(src, &times, false);
            let more = rend(&c, g, xf, 1.0);
            let mut scene = want.clone();
            sut(|| renderer.append(&c, g, xf, 1.0, &mut scene));
            if let Err(m) = prefix(&want, &scene) {
                return fail(format!("appending frame {g} to a scene: {m}"));
            }
            let mut both = want.clone();
            replay(&more, &mut both);
            if let Err(m) = same(&scene, &both) {
                ctx.note(format!("recorded calls:\n{}", show(&more)));
                return fail(format!("frame {g} appended to a scene differs from the replayed calls: {m}"));
            }
        }
        Ok(())
    },
};
