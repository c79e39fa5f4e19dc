pub use crate::ast::*;
pub use crate::cmp::{Cat, TOL};
pub(crate) use crate::cmp;
pub use crate::enc::Extras;
pub(crate) use crate::enc;
pub use crate::r#gen::{Gen, Prof};
pub(crate) use crate::r#gen;
pub use crate::geom::*;
pub use crate::json::*;
pub use crate::refren::*;
pub use crate::run::*;
pub use crate::sink::*;
pub use crate::src::Src;
pub use kurbo::{Affine, PathEl, Point};
pub use velato::{Composition, Renderer};

pub fn import(text: &str) -> Result<Composition, Fail> {
    match sut(|| Composition::from_slice(text.as_bytes())) {
        Ok(c) => Ok(c),
        Err(e) => fail(format!("a valid document is rejected: {e}")),
    }
}
pub fn rend(c: &Composition, f: f64, xf: Affine, a: f64) -> Vec<Op> {
    sut(|| render(c, f, xf, a))
}
pub fn alpha(s: &mut Src) -> f64 {
    if s.pct(50) { s.grid(0.0, 1.0, 0.05) } else { 1.0 }
}

/// A property decided by comparing renderings with the reference renderer.
pub struct RefSpec {
    pub focused: fn(&mut Src) -> Prof,
    /// edits the generated document of a focused case
    pub tweak: fn(&mut Src, &mut Comp),
    pub broad_pct: u32,
    pub broad: fn() -> Prof,
    /// mismatches that concern the property
    pub cats: &'static [Cat],
    /// further ones that count in focused documents only
    pub focused_cats: &'static [Cat],
    pub frames: usize,
    /// given a caller transform and opacity other than the identity
    pub caller: bool,
    pub nontrivial: fn(&Comp, &Stats, &[E]) -> bool,
    pub extras: u32,
}
pub const REF: RefSpec = RefSpec {
    focused: |_| Prof::default(),
    tweak: |_, _| {},
    broad_pct: 30,
    broad: Prof::broad,
    cats: &[],
    focused_cats: &[Cat::Struct],
    frames: 4,
    caller: true,
    nontrivial: |_, s, _| s.draws > 0,
    extras: 6,
};

pub fn by_reference(src: &mut Src, ctx: &mut Ctx, spec: &RefSpec) -> R {
    let broad = src.pct(spec.broad_pct);
    let prof = if broad { (spec.broad)() } else { (spec.focused)(src) };
    let mut comp = r#gen::comp(src, &prof);
    if !broad {
        (spec.tweak)(src, &mut comp);
    }
    let text = enc::encode(&comp, src, Extras::Meta, spec.extras).text();
    ctx.input(text.clone());
    ctx.tag(if broad { "broad" } else { "focused" });
    let c = import(&text)?;
    let times = r#gen::all_times(&comp);
    ctx.tag_if(!times.is_empty(), "has-times");
    for _ in 0..spec.frames {
        let f = r#gen::frame(src, &times, prof.dyadic);
        if r#gen::ambiguous(&comp, f) {
            ctx.tag("frame-skipped");
            continue;
        }
        let xf = if spec.caller { r#gen::affine(src) } else { Affine::IDENTITY };
        let a = if spec.caller { alpha(src) } else { 1.0 };
        let (exp, stats) = expected(&comp, f, xf, a);
        if exp.len() > 60_000 || stats.ambiguous {
            continue;
        }
        let act = rend(&c, f, xf, a);
        if (spec.nontrivial)(&comp, &stats, &exp) {
            ctx.nontrivial = true;
        }
        let r = cmp::compare(&exp, &act, TOL);
        ctx.tag_if(!r.aligned, "not-aligned");
        for m in &r.mis {
            if spec.cats.contains(&m.cat) || (!broad && spec.focused_cats.contains(&m.cat)) {
                ctx.note(format!("frame {f}, caller transform {:?}, opacity {a}", xf.as_coeffs()));
                ctx.note(format!("recorded calls:\n{}", show(&act)));
                return fail(format!("at frame {f}: {:?}: {} (call {})", m.cat, m.msg, m.act));
            }
        }
    }
    Ok(())
}

/// Visits every shape of a document.
pub fn each_shape(c: &mut Comp, f: &mut dyn FnMut(&mut Shape)) {
    fn go(v: &mut [Shape], f: &mut dyn FnMut(&mut Shape)) {
        for s in v {
            f(s);
            if let Shape::Group { items, .. } = s {
                go(items, f);
            }
        }
    }
    each_layer(c, &mut |l| {
        if let Kind::Shape(v) = &mut l.kind {
            go(v, f)
        }
    });
}
pub fn each_layer(c: &mut Comp, f: &mut dyn FnMut(&mut Layer)) {
    for a in c.assets.iter_mut().flatten() {
        if let Asset::Precomp { layers, .. } = a {
            layers.iter_mut().for_each(&mut *f);
        }
    }
    c.layers.iter_mut().for_each(&mut *f);
}
/// Gives every layer a name of its own.
pub fn unique_names(c: &mut Comp) {
    let mut n = 0;
    each_layer(c, &mut |l| {
        n += 1;
        l.name = Some(format!("n{n}"));
    });
}
/// Gives every style a colour of its own.
pub fn unique_colors(c: &mut Comp) {
    let mut n = 0u32;
    each_shape(c, &mut |s| {
        if let Shape::Fill { c, .. } | Shape::Stroke { c, .. } = s {
            n += 1;
            *c = Anim::Static([(n % 10) as f64 / 10.0, (n / 10 % 10) as f64 / 10.0, (n / 100 % 10) as f64 / 10.0]);
        }
    });
}
