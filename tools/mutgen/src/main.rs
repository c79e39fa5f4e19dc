//! mutgen SRC_DIR EXCLUDE LIST: rewrites the .rs files under SRC_DIR in place so that each small change
//! ("mutant") is behind `crate::__m(ID)`, and lists them (id, file, line, what) in LIST. IDs in EXCLUDE are left out.
use proc_macro2::Span;
use quote::{ToTokens, quote};
use std::collections::HashSet;
use std::fmt::Write;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    next: u32,
    exclude: HashSet<u32>,
    list: String,
    file: String,
}

fn short(t: &impl ToTokens) -> String {
    let s = t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join(" ");
    s.chars().take(90).collect()
}

impl M {
    /// A new mutant; None if it is excluded.
    fn id(&mut self, span: Span, what: String) -> Option<u32> {
        let i = self.next;
        self.next += 1;
        if self.exclude.contains(&i) {
            return None;
        }
        writeln!(self.list, "{i}\t{}:{}\t{}", self.file, span.start().line, what.replace(['\n', '\t'], " ")).unwrap();
        Some(i)
    }
    fn alt(&mut self, e: &mut Expr, span: Span, what: String, alt: impl ToTokens) {
        if let Some(i) = self.id(span, what) {
            let orig = &*e;
            *e = parse_quote!((if crate::__m(#i) { #alt } else { #orig }));
        }
    }
}

fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}
fn cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.to_token_stream().to_string().contains("test"))
}
const DROP: &[&str] = &[
    "clamp", "abs", "min", "max", "floor", "ceil", "round", "fract", "rem_euclid", "to_radians", "to_degrees", "saturating_sub", "rev",
    "filter", "skip", "take", "sqrt", "then_rotate", "then_translate", "pre_translate", "powi", "powf", "trunc", "or", "inverse", "into_iter_rev",
    "multiply_alpha", "with_alpha", "with_caps", "with_join", "with_miter_limit", "or_else",
];

impl VisitMut for M {
    fn visit_item_mut(&mut self, i: &mut Item) {
        match i {
            Item::Const(_) | Item::Enum(_) | Item::Static(_) | Item::Macro(_) => return,
            Item::Mod(m) if cfg_test(&m.attrs) => return,
            Item::Fn(f) if f.sig.constness.is_some() || cfg_test(&f.attrs) => return,
            _ => {}
        }
        visit_mut::visit_item_mut(self, i)
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        if f.sig.constness.is_none() {
            visit_mut::visit_impl_item_fn_mut(self, f)
        }
    }
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        for s in &mut b.stmts {
            let span = s.span();
            let Stmt::Expr(e, Some(_)) = s else { continue };
            let what = match e {
                Expr::MethodCall(_) | Expr::Call(_) | Expr::Assign(_) | Expr::Continue(_) | Expr::Break(_) => true,
                Expr::Return(_) => true,
                Expr::Binary(b) => matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)),
                _ => false,
            };
            if what && let Some(i) = self.id(span, format!("delete `{}`", short(e))) {
                let e = e.clone();
                *s = parse_quote!(if !crate::__m(#i) { #e; });
            }
        }
        for s in &mut b.stmts {
            let span = s.span();
            let Stmt::Expr(e, None) = s else { continue };
            if let Expr::If(x) = e && x.else_branch.is_none() && !x.cond.to_token_stream().to_string().contains("__m") {
                if let Some(i) = self.id(span, format!("delete if `{}`", short(&x.cond))) {
                    let e = e.clone();
                    *s = parse_quote!(if !crate::__m(#i) { #e });
                }
            }
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if let Some((_, g)) = &mut a.guard {
            self.visit_expr_mut(g)
        }
        self.visit_expr_mut(&mut a.body)
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            return;
        }
        visit_mut::visit_field_value_mut(self, f);
        let span = f.expr.span();
        let what = format!("default for `{}`", short(f));
        self.alt(&mut f.expr, span, what, quote!(Default::default()));
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let span = e.span();
        let text = short(e);
        match e {
            Expr::Range(_) | Expr::Macro(_) | Expr::Const(_) => {
                return visit_mut::visit_expr_mut(self, e);
            }
            Expr::Repeat(r) => return self.visit_expr_mut(&mut r.expr),
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                let bodies: Vec<Expr> = m.arms.iter().map(|a| (*a.body).clone()).collect();
                let simple = |b: &Expr| matches!(b, Expr::Path(_) | Expr::Lit(_) | Expr::Call(_));
                for (k, a) in m.arms.iter_mut().enumerate() {
                    self.visit_arm_mut(a);
                    let other = &bodies[(k + 1) % bodies.len()];
                    if bodies.len() > 1 && simple(&bodies[k]) && simple(other) {
                        let what = format!("arm `{}` gives `{}`", short(a), short(other));
                        let s = a.body.span();
                        self.alt(&mut a.body, s, what, other.clone());
                    }
                }
                return;
            }
            Expr::Assign(a) => {
                self.visit_expr_mut(&mut a.right);
                return;
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                return;
            }
            _ => {}
        }
        if let Expr::Binary(b) = e {
            let assign = matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_));
            let b0 = b.clone();
            if assign {
                self.visit_expr_mut(&mut b.right);
            } else {
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
            }
            if has_let(&Expr::Binary(b.clone())) {
                return;
            }
            let alts: Vec<BinOp> = match b.op {
                BinOp::Add(_) => vec![parse_quote!(-)],
                BinOp::Sub(_) => vec![parse_quote!(+)],
                BinOp::Mul(_) => vec![parse_quote!(/)],
                BinOp::Div(_) => vec![parse_quote!(*)],
                BinOp::Rem(_) => vec![parse_quote!(+)],
                BinOp::Lt(_) => vec![parse_quote!(<=), parse_quote!(>)],
                BinOp::Le(_) => vec![parse_quote!(<), parse_quote!(>)],
                BinOp::Gt(_) => vec![parse_quote!(>=), parse_quote!(<)],
                BinOp::Ge(_) => vec![parse_quote!(>), parse_quote!(<)],
                BinOp::Eq(_) => vec![parse_quote!(!=)],
                BinOp::Ne(_) => vec![parse_quote!(==)],
                BinOp::And(_) => vec![parse_quote!(||)],
                BinOp::Or(_) => vec![parse_quote!(&&)],
                BinOp::AddAssign(_) => vec![parse_quote!(-=)],
                _ => vec![],
            };
            for op in alts {
                let mut n = b0.clone();
                n.op = op;
                let what = format!("`{text}` with {}", op.to_token_stream());
                if assign {
                    continue;
                }
                self.alt(e, span, what, n);
            }
            // operands on their own, for logic and arithmetic that keeps its type
            match b0.op {
                BinOp::And(_) | BinOp::Or(_) | BinOp::Mul(_) | BinOp::Add(_) | BinOp::Div(_) | BinOp::Sub(_) => {
                    let (l, r) = (b0.left.clone(), b0.right.clone());
                    self.alt(e, span, format!("`{text}` left only"), l);
                    self.alt(e, span, format!("`{text}` right only"), r);
                    if matches!(b0.op, BinOp::Mul(_)) {
                        let (l, r) = (&b0.left, &b0.right);
                        self.alt(e, span, format!("`{text}` swapped"), quote!((#r * #l)));
                    }
                }
                _ => {}
            }
            return;
        }
        let orig = e.clone();
        visit_mut::visit_expr_mut(self, e);
        match &orig {
            Expr::Lit(l) => match &l.lit {
                Lit::Bool(b) => {
                    let v = !b.value;
                    self.alt(e, span, format!("`{text}` -> {v}"), quote!(#v));
                }
                Lit::Float(f) => {
                    let v: f64 = f.base10_parse().unwrap();
                    let n = if v == 0.0 { 1.0 } else if v == 1.0 { 0.0 } else { v * 1.1 };
                    let t = LitFloat::new(&format!("{n:?}{}", f.suffix()), f.span());
                    self.alt(e, span, format!("`{text}` -> {n:?}"), quote!(#t));
                }
                Lit::Int(n) => {
                    let v: u64 = n.base10_parse().unwrap_or(0);
                    let t = LitInt::new(&format!("{}{}", v + 1, n.suffix()), n.span());
                    self.alt(e, span, format!("`{text}` -> {}", v + 1), quote!(#t));
                }
                _ => {}
            },
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_) | UnOp::Not(_)) => {
                let x = u.expr.clone();
                self.alt(e, span, format!("`{text}` without its operator"), x);
            }
            Expr::If(x) if !has_let(&x.cond) => {
                let Expr::If(x) = e else { return };
                let c = &x.cond;
                if let Some(i) = self.id(span, format!("negate if `{}`", short(c))) {
                    x.cond = Box::new(parse_quote!((crate::__m(#i) ^ (#c))));
                }
            }
            Expr::While(x) if !has_let(&x.cond) => {
                let Expr::While(x) = e else { return };
                let c = &x.cond;
                if let Some(i) = self.id(span, format!("stop while `{}`", short(c))) {
                    x.cond = Box::new(parse_quote!((!crate::__m(#i) && (#c))));
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "min" || name == "max" {
                    let mut n = m.clone();
                    n.method = Ident::new(if name == "min" { "max" } else { "min" }, m.method.span());
                    self.alt(e, span, format!("`{text}`: min/max swapped"), n);
                }
                if DROP.contains(&name.as_str()) {
                    let r = m.receiver.clone();
                    self.alt(e, span, format!("`{text}`: no .{name}()"), r);
                } else if m.args.len() == 2 && m.args[0].to_token_stream().to_string() != m.args[1].to_token_stream().to_string() {
                    let mut n = m.clone();
                    let (a, b) = (n.args[0].clone(), n.args[1].clone());
                    n.args[0] = b;
                    n.args[1] = a;
                    self.alt(e, span, format!("`{text}`: args swapped"), n);
                }
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string();
                if f == "Some" {
                    self.alt(e, span, format!("`{text}` -> None"), quote!(None));
                } else if c.args.len() >= 2 {
                    for k in 0..c.args.len() - 1 {
                        let mut n = c.clone();
                        let (a, b) = (n.args[k].clone(), n.args[k + 1].clone());
                        n.args[k] = b;
                        n.args[k + 1] = a;
                        self.alt(e, span, format!("`{text}`: args {k} and {} swapped", k + 1), n);
                    }
                }
            }
            _ => {}
        }
    }
}

fn files(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, out)
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let exclude = std::fs::read_to_string(&a[2]).unwrap_or_default().lines().filter_map(|l| l.trim().parse().ok()).collect();
    let mut m = M { next: 1, exclude, list: String::new(), file: String::new() };
    let mut fs = vec![];
    files(std::path::Path::new(&a[1]), &mut fs);
    for p in fs {
        let text = std::fs::read_to_string(&p).unwrap();
        let mut f = parse_file(&text).unwrap();
        m.file = p.strip_prefix(&a[1]).unwrap().display().to_string();
        m.visit_file_mut(&mut f);
        f.attrs.retain(|a| !a.to_token_stream().to_string().contains("deny"));
        let mut out = f.to_token_stream().to_string();
        if m.file == "lib.rs" {
            out += "
#[doc(hidden)] pub static __M: std::sync::LazyLock<u32> = std::sync::LazyLock::new(|| std::env::var(\"VH_MUT\").ok().and_then(|s| s.parse().ok()).unwrap_or(0));
#[inline] pub(crate) fn __m(i: u32) -> bool { *__M == i }
";
        }
        std::fs::write(&p, out).unwrap();
    }
    std::fs::write(&a[3], m.list).unwrap();
}
