//! Mutation analysis of the checks: rewrites Rust sources so that every small
//! change of an expression or statement is present behind `crate::__m(N)`.
//! usage: mutate LIST EXCLUDED FILE...   (rewrites the files, writes LIST)
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::HashSet;
use std::fmt::Write;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M { file: String, next: u32, skip: HashSet<u32>, list: String, func: String }
impl M {
    fn id(&mut self, sp: Span, what: String) -> Option<LitInt> {
        self.next += 1;
        let n = self.next;
        if self.skip.contains(&n) { return None; }
        let what: String = what.split_whitespace().collect::<Vec<_>>().join(" ");
        let _ = writeln!(self.list, "{n}\t{}:{}\t{}\t{}", self.file, sp.start().line, self.func, what.chars().take(220).collect::<String>());
        Some(LitInt::new(&n.to_string(), Span::call_site()))
    }
    fn alt(&mut self, sp: Span, what: String, e: Expr, rest: Expr) -> Expr {
        match self.id(sp, what) { Some(n) => { let t = quote!((if crate::__m(#n) { (#e) } else { (#rest) })); parse2(t.clone()).unwrap_or_else(|x| panic!("{x}: {t}")) } None => rest }
    }
}
fn s(e: &impl ToTokens) -> String { e.to_token_stream().to_string() }
fn has_let(e: &Expr) -> bool { match e { Expr::Let(_) => true, Expr::Binary(b) => has_let(&b.left) || has_let(&b.right), Expr::Paren(p) => has_let(&p.expr), _ => false } }
fn is_test(a: &[Attribute]) -> bool { a.iter().any(|a| { let t = a.to_token_stream().to_string(); t.contains("cfg (test") || t.contains("# [test") }) }
impl VisitMut for M {
    fn visit_item_mut(&mut self, i: &mut Item) {
        match i {
            Item::Const(_) | Item::Static(_) | Item::Macro(_) | Item::Struct(_) | Item::Enum(_) => {}
            Item::Mod(m) if is_test(&m.attrs) => {}
            Item::Fn(f) if f.sig.constness.is_some() || is_test(&f.attrs) => {}
            Item::Fn(f) => { let old = std::mem::replace(&mut self.func, f.sig.ident.to_string()); self.visit_block_mut(&mut f.block); self.func = old; }
            Item::Impl(im) => {
                if im.trait_.as_ref().is_some_and(|t| matches!(t.1.segments.last().unwrap().ident.to_string().as_str(), "Debug" | "Display")) { return; }
                for it in &mut im.items { if let ImplItem::Fn(f) = it { if f.sig.constness.is_none() && !is_test(&f.attrs) { let old = std::mem::replace(&mut self.func, format!("{}::{}", s(&im.self_ty), f.sig.ident)); self.visit_block_mut(&mut f.block); self.func = old; } } }
            }
            Item::Trait(t) => for it in &mut t.items { if let TraitItem::Fn(f) = it { if f.sig.constness.is_none() { if let Some(b) = &mut f.default { self.visit_block_mut(b); } } } },
            Item::Mod(_) => visit_mut::visit_item_mut(self, i),
            _ => {}
        }
    }
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_expr_const_mut(&mut self, _: &mut ExprConst) {}
    fn visit_expr_repeat_mut(&mut self, e: &mut ExprRepeat) { self.visit_expr_mut(&mut e.expr) }
    fn visit_stmt_mut(&mut self, st: &mut Stmt) {
        let orig = st.clone();
        visit_mut::visit_stmt_mut(self, st);
        if let (Stmt::Expr(o, semi), true) = (&orig, true) {
            let del = match o {
                Expr::MethodCall(_) | Expr::Call(_) | Expr::Try(_) | Expr::Assign(_) | Expr::Unsafe(_) | Expr::Continue(_) => semi.is_some(),
                Expr::Break(b) => semi.is_some() && b.expr.is_none(),
                Expr::Binary(b) => semi.is_some() && matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_)),
                Expr::ForLoop(_) => true,
                _ => false,
            };
            if del {
                if let Some(n) = self.id(o.span(), format!("delete: {}", s(o))) {
                    let new = st.clone();
                    *st = parse_quote!(if !crate::__m(#n) { #new });
                }
            }
        }
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        let orig = (*e.cond).clone();
        visit_mut::visit_expr_if_mut(self, e);
        if !has_let(&orig) {
            let c = (*e.cond).clone();
            let c = self.alt(orig.span(), format!("if false: {}", s(&orig)), parse_quote!(false), c);
            let c = self.alt(orig.span(), format!("if true: {}", s(&orig)), parse_quote!(true), c);
            *e.cond = c;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let orig = e.clone();
        match e {
            Expr::Const(_) => return,
            Expr::Closure(_) => {}
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        let sp = orig.span();
        match &orig {
            Expr::Binary(b) => {
                if has_let(&orig) { return; }
                let (l, r) = (&b.left, &b.right);
                let mut alts: Vec<(String, Expr)> = vec![];
                let mut a = |x: Expr| alts.push((format!("{} => {}", s(&orig), s(&x)), x));
                match b.op {
                    BinOp::Eq(_) => a(parse_quote!((#l) != (#r))),
                    BinOp::Ne(_) => a(parse_quote!((#l) == (#r))),
                    BinOp::Lt(_) => { a(parse_quote!((#l) <= (#r))); }
                    BinOp::Le(_) => { a(parse_quote!((#l) < (#r))); }
                    BinOp::Gt(_) => { a(parse_quote!((#l) >= (#r))); }
                    BinOp::Ge(_) => { a(parse_quote!((#l) > (#r))); }
                    BinOp::And(_) | BinOp::Or(_) => { a(parse_quote!((#l))); a(parse_quote!((#r))); }
                    BinOp::Add(_) => a(parse_quote!((#l) - (#r))),
                    BinOp::Sub(_) => a(parse_quote!((#l) + (#r))),
                    BinOp::Mul(_) => a(parse_quote!((#l) + (#r))),
                    BinOp::Div(_) => a(parse_quote!((#l) * (#r))),
                    BinOp::AddAssign(_) | BinOp::SubAssign(_) => a(parse_quote!(#l = #r)),
                    BinOp::Rem(_) => a(parse_quote!((#l) / (#r))),
                    _ => {}
                }
                for (w, x) in alts { let cur = e.clone(); *e = self.alt(sp, w, x, cur); }
            }
            Expr::Cast(c) => {
                let n = match s(&c.ty).as_str() { "usize" => "u8", "u64" => "u32", "u128" => "u64", "u32" => "u8", _ => "" };
                if !n.is_empty() {
                    let (x, t, n) = (&c.expr, &c.ty, Ident::new(n, Span::call_site()));
                    let cur = e.clone();
                    *e = self.alt(sp, format!("narrow: {}", s(&orig)), parse_quote!(((#x) as #n as #t)), cur);
                }
            }
            Expr::Call(c) if c.args.len() > 1 => {
                for i in 0..c.args.len() - 1 {
                    if s(&c.args[i]) == s(&c.args[i + 1]) { continue; }
                    let mut x = c.clone();
                    let (a, b) = (c.args[i].clone(), c.args[i + 1].clone());
                    x.args[i] = b; x.args[i + 1] = a;
                    let cur = e.clone();
                    *e = self.alt(sp, format!("swap {i}: {}", s(&orig)), Expr::Call(x), cur);
                }
            }
            Expr::Continue(_) => { let cur = e.clone(); *e = self.alt(sp, "continue => break".into(), parse_quote!(break), cur); }
            Expr::Break(b) if b.expr.is_none() => { let cur = e.clone(); *e = self.alt(sp, "break => continue".into(), parse_quote!(continue), cur); }
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => {
                if let Ok(v) = i.base10_parse::<u128>() {
                    let n = LitInt::new(&format!("{}{}", v + 1, i.suffix()), i.span());
                    let cur = e.clone();
                    *e = self.alt(sp, format!("{v} => {}", v + 1), parse_quote!(#n), cur);
                }
            }
            Expr::Lit(ExprLit { lit: Lit::Bool(v), .. }) => {
                let n = !v.value;
                let cur = e.clone();
                *e = self.alt(sp, format!("{} => {n}", v.value), parse_quote!(#n), cur);
            }
            Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => {
                let cur = e.clone();
                let x = (**expr).clone();
                *e = self.alt(sp, format!("{} => {}", s(&orig), s(&x)), parse_quote!((#x)), cur);
            }
            Expr::MethodCall(m) => {
                let sw = match m.method.to_string().as_str() { "min" => "max", "max" => "min", "any" => "all", "all" => "any", "saturating_sub" => "saturating_add", "saturating_add" => "saturating_sub", "checked_add" => "checked_sub", "checked_sub" => "checked_add", "wrapping_sub" => "wrapping_add", "wrapping_add" => "wrapping_sub", "is_some" => "is_none", "is_none" => "is_some", "is_ok" => "is_err", "is_err" => "is_ok", _ => "" };
                if !sw.is_empty() {
                    let mut x = m.clone();
                    x.method = Ident::new(sw, m.method.span());
                    let cur = e.clone();
                    *e = self.alt(sp, format!("{} => {sw}", s(&orig)), Expr::MethodCall(x), cur);
                }
            }
            _ => {}
        }
    }
    fn visit_expr_for_loop_mut(&mut self, e: &mut ExprForLoop) {
        let sp = e.span();
        let what = s(&e.expr);
        visit_mut::visit_expr_for_loop_mut(self, e);
        if let Some(n) = self.id(sp, format!("first only: for {what}")) { e.body.stmts.push(parse_quote!(if crate::__m(#n) { break; })); }
        if let Some(n) = self.id(sp, format!("not the first: for {what}")) {
            let body = &e.expr;
            let new: Expr = parse_quote!((#body).into_iter().skip(if crate::__m(#n) { 1 } else { 0 }));
            *e.expr = new;
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_match_mut(&mut self, e: &mut ExprMatch) {
        let orig = e.clone();
        visit_mut::visit_expr_match_mut(self, e);
        for i in 0..e.arms.len().saturating_sub(1) {
            let o = &orig.arms[i + 1];
            // a following arm's body in this one's place, where it binds nothing
            let (a, b) = (s(&orig.arms[i].body), s(&o.body));
            if a == b { continue; }
            let body = (*e.arms[i].body).clone();
            let alt = (*o.body).clone();
            let body = self.alt(orig.arms[i].span(), format!("arm as the next: {}", s(&orig.arms[i].pat)), alt, body);
            *e.arms[i].body = body;
            if e.arms[i].comma.is_none() { e.arms[i].comma = Some(Default::default()); }
        }
    }
    fn visit_expr_while_mut(&mut self, e: &mut ExprWhile) { visit_mut::visit_expr_while_mut(self, e) }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let skip = std::fs::read_to_string(&a[2]).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut m = M { file: String::new(), next: 0, skip, list: String::new(), func: String::new() };
    for f in &a[3..] {
        let mut t = parse_file(&std::fs::read_to_string(f).unwrap()).unwrap_or_else(|e| panic!("{f}: {e}"));
        m.file = f.clone();
        m.visit_file_mut(&mut t);
        let mut o = t.to_token_stream().to_string();
        if f.ends_with("src/lib.rs") {
            o += &quote!( #[inline(always)] #[doc(hidden)] pub(crate) fn __m(n: u32) -> bool { extern "C" { static MC_MUT: core::sync::atomic::AtomicU32; static MC_HIT: [core::sync::atomic::AtomicU8; 16384]; } unsafe { if MC_HIT[n as usize].load(core::sync::atomic::Ordering::Relaxed) == 0 { MC_HIT[n as usize].store(1, core::sync::atomic::Ordering::Relaxed); } MC_MUT.load(core::sync::atomic::Ordering::Relaxed) == n } } ).to_string();
        }
        std::fs::write(f, o).unwrap();
    }
    std::fs::write(&a[1], m.list).unwrap();
    println!("{} mutants", m.next);
}
