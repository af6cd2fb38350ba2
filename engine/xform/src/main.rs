//! Re-targets the repository's Rust source from `f64`/`std::collections` to the symbolic runtime.
//! usage: xform REPO_SRC OUT_DIR
//! Produces OUT_DIR/lib/src (library crate) and OUT_DIR/bin/src (the binary's modules as a library).
use proc_macro2::{Group, Ident, Literal, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::HashMap;
use std::fs;
use std::path::{Path, PathBuf};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct X {
    fns: usize,
    notes: Vec<String>,
    /// values of the f64 constants declared anywhere in the source; None when two of a name differ
    consts: HashMap<String, Option<f64>>,
    fresh: usize,
    /// type aliases of the number types
    aliases: Vec<String>,
    /// items written as they are at the end of the file
    generated: Vec<Item>,
}

const PRIMS: &[&str] = &[
    "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "i128", "u128", "f32", "f64", "char",
];

fn segs(p: &Path2) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}
type Path2 = syn::Path;

fn is_float_lit(l: &Lit) -> Option<f64> {
    match l {
        Lit::Float(f) if f.suffix() != "f32" => f.base10_digits().parse().ok(),
        Lit::Int(i) if i.suffix() == "f64" => i.base10_digits().parse().ok(),
        _ => None,
    }
}
fn lit_expr(f: f64, span: Span) -> Expr {
    let mut l = Literal::f64_suffixed(f);
    l.set_span(span);
    parse_quote!(::symrt::lit(#l))
}

/// rewrite a path prefix; returns true when changed
fn rewrite_path(p: &mut Path2) -> bool {
    let s = segs(p);
    let v: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
    let (drop, new): (usize, Vec<&str>) = match v.as_slice() {
        ["f64"] => (1, vec!["symrt", "S"]),
        ["f64", "consts", ..] => (1, vec!["symrt", "f64m"]),
        ["f64", ..] => (1, vec!["symrt", "S"]),
        ["std", "f64", "consts", ..] | ["core", "f64", "consts", ..] => (2, vec!["symrt", "f64m"]),
        ["std", "f64", ..] | ["core", "f64", ..] => (2, vec!["symrt", "S"]),
        ["std", "primitive", "f64", ..] => (3, vec!["symrt", "S"]),
        ["std", "collections", ..] => (2, vec!["symrt", "collections"]),
        ["std", "hash", "RandomState"] => (2, vec!["symrt", "collections"]),
        ["std", "hash", "DefaultHasher", ..] => (2, vec!["symrt", "collections", "hash_map"]),
        _ => return false,
    };
    let span = p.segments[0].ident.span();
    let rest: Vec<PathSegment> = p.segments.iter().skip(drop).cloned().collect();
    let mut np: Punctuated<PathSegment, Token![::]> = Punctuated::new();
    for n in new {
        np.push(PathSegment::from(Ident::new(n, span)));
    }
    for r in rest {
        np.push(r);
    }
    p.leading_colon = Some(Token![::](span));
    p.segments = np;
    true
}

/// token-level fallback for macro bodies that are not expression lists
fn tokens(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), tokens(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            TokenTree::Ident(id) if id == "f64" => {
                let consts = v.get(i + 3).map_or(false, |t| t.to_string() == "consts");
                // drop a preceding `std::`
                if out.len() >= 3 && out[out.len() - 3].to_string() == "std" {
                    out.truncate(out.len() - 3);
                }
                let r = if consts { quote!(::symrt::f64m) } else { quote!(::symrt::S) };
                out.extend(r);
            }
            TokenTree::Ident(id) if id == "collections" && out.len() >= 3 && out[out.len() - 3].to_string() == "std" => {
                out.truncate(out.len() - 3);
                out.extend(quote!(::symrt::collections));
            }
            TokenTree::Literal(l) => {
                let s = l.to_string();
                let is_num = s.chars().next().map_or(false, |c| c.is_ascii_digit());
                let fl = if is_num && !s.starts_with("0x") {
                    parse_str::<Lit>(&s).ok().and_then(|l| is_float_lit(&l))
                } else {
                    None
                };
                match fl {
                    Some(f) => {
                        let l = Literal::f64_suffixed(f);
                        out.extend(quote!(::symrt::lit(#l)));
                    }
                    None => out.push(t.clone()),
                }
            }
            // a literal argument is an expression once rewritten
            TokenTree::Ident(id) if id == "literal" && i >= 3 && v[i - 1].to_string() == ":" && v[i - 3].to_string() == "$" => {
                out.push(TokenTree::Ident(Ident::new("expr", id.span())));
            }
            _ => out.push(t.clone()),
        }
    }
    out.into_iter().collect()
}

/// a float literal used as a pattern
fn pat_float(p: &Pat) -> Option<f64> {
    let e = match p {
        Pat::Lit(l) => return is_float_lit(&l.lit),
        _ => {
            let t = p.to_token_stream();
            parse2::<Expr>(t).ok()?
        }
    };
    expr_float(&e)
}
fn expr_float(e: &Expr) -> Option<f64> {
    match e {
        Expr::Lit(l) => is_float_lit(&l.lit),
        Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => expr_float(expr).map(|f| -f),
        _ => None,
    }
}

struct PatFloats<'a> {
    guards: Vec<Expr>,
    fresh: &'a mut usize,
}
impl<'a> VisitMut for PatFloats<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let name = Ident::new(&format!("__f{}", self.fresh), Span::call_site());
        if let Some(f) = pat_float(p) {
            *self.fresh += 1;
            let l = Literal::f64_suffixed(f);
            self.guards.push(parse_quote!(#name.is_value(#l)));
            *p = parse_quote!(#name);
            return;
        }
        if let Pat::Range(r) = p {
            let lo = r.start.as_ref().map(|e| expr_float(e));
            let hi = r.end.as_ref().map(|e| expr_float(e));
            if matches!(lo, Some(Some(_))) || matches!(hi, Some(Some(_))) {
                *self.fresh += 1;
                if let Some(Some(l)) = lo {
                    let l = Literal::f64_suffixed(l);
                    self.guards.push(parse_quote!(#name.is_from(#l)));
                }
                if let Some(Some(h)) = hi {
                    let h = Literal::f64_suffixed(h);
                    match r.limits {
                        RangeLimits::Closed(_) => self.guards.push(parse_quote!(#name.is_to(#h))),
                        RangeLimits::HalfOpen(_) => self.guards.push(parse_quote!(#name.is_below(#h))),
                    }
                }
                *p = parse_quote!(#name);
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}

impl X {
    fn const_value(&self, e: &Expr) -> Option<f64> {
        use std::f64::consts as k;
        Some(match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) if i.suffix().is_empty() || i.suffix() != "f32" => i.base10_parse::<f64>().ok()?,
                o => is_float_lit(o)?,
            },
            Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => -self.const_value(expr)?,
            Expr::Paren(p) => self.const_value(&p.expr)?,
            Expr::Group(p) => self.const_value(&p.expr)?,
            Expr::Cast(c) if is_f64(&c.ty) => self.const_value(&c.expr)?,
            Expr::Binary(b) => {
                let (l, r) = (self.const_value(&b.left)?, self.const_value(&b.right)?);
                match b.op {
                    BinOp::Add(_) => l + r,
                    BinOp::Sub(_) => l - r,
                    BinOp::Mul(_) => l * r,
                    BinOp::Div(_) => l / r,
                    BinOp::Rem(_) => l % r,
                    _ => return None,
                }
            }
            Expr::Path(p) => {
                let s = segs(&p.path);
                let name = s.last()?.as_str();
                if let Some(v) = self.consts.get(name) {
                    return *v;
                }
                match name {
                    "EPSILON" => f64::EPSILON,
                    "INFINITY" => f64::INFINITY,
                    "NEG_INFINITY" => f64::NEG_INFINITY,
                    "MAX" => f64::MAX,
                    "MIN" => f64::MIN,
                    "MIN_POSITIVE" => f64::MIN_POSITIVE,
                    "NAN" => f64::NAN,
                    "PI" => k::PI,
                    "TAU" => k::TAU,
                    "E" => k::E,
                    "SQRT_2" => k::SQRT_2,
                    "FRAC_1_SQRT_2" => k::FRAC_1_SQRT_2,
                    "FRAC_PI_2" => k::FRAC_PI_2,
                    "FRAC_PI_3" => k::FRAC_PI_3,
                    "FRAC_PI_4" => k::FRAC_PI_4,
                    "FRAC_PI_6" => k::FRAC_PI_6,
                    "FRAC_PI_8" => k::FRAC_PI_8,
                    "FRAC_1_PI" => k::FRAC_1_PI,
                    "FRAC_2_PI" => k::FRAC_2_PI,
                    "LN_2" => k::LN_2,
                    "LN_10" => k::LN_10,
                    _ => return None,
                }
            }
            _ => return None,
        })
    }

    /// splits or-patterns with float literals and turns the literals into guards
    fn float_arms(&mut self, arms: &mut Vec<Arm>) {
        let has = |p: &Pat, x: &mut usize| {
            let mut q = p.clone();
            let mut v = PatFloats { guards: vec![], fresh: x };
            v.visit_pat_mut(&mut q);
            !v.guards.is_empty()
        };
        let old = std::mem::take(arms);
        for a in old {
            let mut n = 0;
            if !has(&a.pat, &mut n) {
                arms.push(a);
                continue;
            }
            let alts: Vec<Pat> = match &a.pat {
                Pat::Or(o) => o.cases.iter().cloned().collect(),
                Pat::Paren(p) => match &*p.pat {
                    Pat::Or(o) => o.cases.iter().cloned().collect(),
                    o => vec![o.clone()],
                },
                o => vec![o.clone()],
            };
            for alt in alts {
                let mut b = a.clone();
                b.pat = alt;
                let mut v = PatFloats { guards: vec![], fresh: &mut self.fresh };
                v.visit_pat_mut(&mut b.pat);
                let g = v.guards;
                if !g.is_empty() {
                    let old = b.guard.take().map(|(_, e)| quote!(&& (#e)));
                    let e: Expr = parse_quote!(#(#g)&&* #old);
                    b.guard = Some((Default::default(), Box::new(e)));
                }
                if b.comma.is_none() {
                    b.comma = Some(Default::default());
                }
                arms.push(b);
            }
        }
    }

    fn collect_consts(&mut self, items: &[Item]) {
        for i in items {
            match i {
                Item::Const(c) if is_f64(&c.ty) => self.collect_const(&c.ident, &c.expr),
                Item::Static(c) if is_f64(&c.ty) => self.collect_const(&c.ident, &c.expr),
                Item::Type(t) => {
                    let n = t.ident.to_string();
                    if self.is_number(&t.ty) && !self.aliases.contains(&n) {
                        self.aliases.push(n);
                    }
                }
                Item::Mod(m) => {
                    if let Some((_, items)) = &m.content {
                        self.collect_consts(items);
                    }
                }
                Item::Impl(im) => {
                    for i in &im.items {
                        if let ImplItem::Const(c) = i {
                            if is_f64(&c.ty) {
                                self.collect_const(&c.ident, &c.expr);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn is_number(&self, t: &Type) -> bool {
        match t {
            Type::Path(p) if p.qself.is_none() => p.path.segments.last().map_or(false, |i| {
                let i = i.ident.to_string();
                PRIMS.contains(&i.as_str()) || self.aliases.contains(&i)
            }),
            _ => false,
        }
    }
    fn collect_const(&mut self, n: &Ident, e: &Expr) {
        let Some(v) = self.const_value(e) else { return };
        let n = n.to_string();
        match self.consts.get(&n) {
            Some(Some(o)) if o.to_bits() != v.to_bits() => {
                self.consts.insert(n, None);
            }
            Some(_) => {}
            None => {
                self.consts.insert(n, Some(v));
            }
        }
    }
    fn const_expr(&self, t: &Type, e: &Expr) -> Option<Expr> {
        if !is_f64(t) {
            return None;
        }
        if let Some(f) = self.const_value(e) {
            return Some(if f.is_finite() {
                lit_expr(f, Span::call_site())
            } else {
                parse_quote!(::symrt::lit(#e))
            });
        }
        if only_literals(e) {
            return Some(parse_quote!(::symrt::lit(#e)));
        }
        None
    }

    fn enum_casts(&mut self, items: &mut Vec<Item>) {
        let mut extra = vec![];
        for i in items.iter() {
            if let Item::Enum(e) = i {
                if e.generics.params.is_empty() && !e.variants.is_empty() && e.variants.iter().all(|v| matches!(v.fields, Fields::Unit)) {
                    let n = &e.ident;
                    for t in ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"] {
                        let t = Ident::new(t, Span::call_site());
                        extra.push(parse_quote!(impl ::symrt::CastTo<#t> for #n { fn cast_to(self) -> #t { self as #t } }));
                    }
                }
            }
        }
        self.generated.extend(extra);
    }

    fn mac(&mut self, m: &mut Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name != "matches" {
            let p = Punctuated::<Expr, Token![,]>::parse_terminated;
            if let Ok(mut list) = p.parse2(m.tokens.clone()) {
                for e in list.iter_mut() {
                    // named arguments keep their name
                    if let Expr::Assign(a) = e {
                        self.visit_expr_mut(&mut a.right);
                    } else {
                        self.visit_expr_mut(e);
                    }
                }
                m.tokens = list.to_token_stream();
                return;
            }
            let p = |i: parse::ParseStream| -> Result<(Expr, Expr)> {
                let a: Expr = i.parse()?;
                let _: Token![;] = i.parse()?;
                let b: Expr = i.parse()?;
                Ok((a, b))
            };
            if let Ok((mut a, mut b)) = p.parse2(m.tokens.clone()) {
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                m.tokens = quote!(#a ; #b);
                return;
            }
        }
        m.tokens = tokens(m.tokens.clone());
    }

    fn flatten(&mut self, t: &UseTree, pre: &mut Vec<Ident>, out: &mut Vec<(Vec<Ident>, Option<TokenStream>)>) {
        match t {
            UseTree::Path(p) => {
                pre.push(p.ident.clone());
                self.flatten(&p.tree, pre, out);
                pre.pop();
            }
            UseTree::Name(n) => {
                let mut v = pre.clone();
                if n.ident == "self" {
                    out.push((v, None));
                } else {
                    v.push(n.ident.clone());
                    out.push((v, None));
                }
            }
            UseTree::Rename(r) => {
                let mut v = pre.clone();
                if r.ident != "self" {
                    v.push(r.ident.clone());
                }
                let n = &r.rename;
                out.push((v, Some(quote!(as #n))));
            }
            UseTree::Glob(_) => out.push((pre.clone(), Some(quote!(:: *)))),
            UseTree::Group(g) => {
                for i in g.items.iter() {
                    self.flatten(i, pre, out);
                }
            }
        }
    }

    fn rewrite_use(&mut self, u: &ItemUse) -> Vec<ItemUse> {
        let mut out = vec![];
        self.flatten(&u.tree, &mut vec![], &mut out);
        let mut res = vec![];
        for (p, suffix) in out {
            let mut path = Path2 {
                leading_colon: u.leading_colon,
                segments: p.iter().cloned().map(PathSegment::from).collect(),
            };
            let s = segs(&path);
            if s == ["std", "f64"] || s == ["core", "f64"] {
                if suffix.as_ref().map_or(true, |x| x.to_string() == "as f64") {
                    continue; // every `f64::` path is rewritten anyway
                }
                path = parse_quote!(::symrt::f64m);
            } else {
                rewrite_path(&mut path);
            }
            let (vis, attrs) = (&u.vis, &u.attrs);
            let suffix = suffix.unwrap_or_default();
            let ts = quote!(#(#attrs)* #vis use #path #suffix;);
            match parse2::<ItemUse>(ts.clone()) {
                Ok(i) => res.push(i),
                Err(e) => self.notes.push(format!("use: {} ({})", ts, e)),
            }
        }
        res
    }

    fn items(&mut self, items: &mut Vec<Item>) {
        let old = std::mem::take(items);
        for i in old {
            match i {
                Item::Use(u) => items.extend(self.rewrite_use(&u).into_iter().map(Item::Use)),
                other => items.push(other),
            }
        }
    }
}

fn only_literals(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Unary(u) => only_literals(&u.expr),
        Expr::Binary(b) => only_literals(&b.left) && only_literals(&b.right),
        Expr::Paren(p) => only_literals(&p.expr),
        Expr::Group(p) => only_literals(&p.expr),
        Expr::Cast(c) => only_literals(&c.expr),
        Expr::Path(p) => {
            let s = segs(&p.path);
            s.contains(&"f64".to_string()) || s.contains(&"consts".to_string())
        }
        _ => false,
    }
}
fn has_f64(t: &TokenStream) -> bool {
    t.clone().into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == "f64",
        TokenTree::Group(g) => has_f64(&g.stream()),
        _ => false,
    })
}
fn is_f64(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.qself.is_none() && segs(&p.path) == ["f64"])
}

impl VisitMut for X {
    fn visit_file_mut(&mut self, f: &mut File) {
        self.enum_casts(&mut f.items);
        self.items(&mut f.items);
        visit_mut::visit_file_mut(self, f);
        f.items.append(&mut self.generated);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, items)) = &mut m.content {
            self.items(items);
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            match s {
                Stmt::Item(Item::Use(u)) => b.stmts.extend(self.rewrite_use(&u).into_iter().map(|u| Stmt::Item(Item::Use(u)))),
                o => b.stmts.push(o),
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_use_mut(&mut self, _: &mut ItemUse) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        self.fns += 1;
        visit_mut::visit_item_fn_mut(self, i);
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        self.fns += 1;
        visit_mut::visit_impl_item_fn_mut(self, i);
    }
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) {
        if let Some(e) = self.const_expr(&c.ty, &c.expr) {
            *c.expr = e;
            c.ty = parse_quote!(::symrt::S);
            return;
        }
        visit_mut::visit_item_const_mut(self, c);
    }
    fn visit_impl_item_const_mut(&mut self, c: &mut ImplItemConst) {
        if let Some(e) = self.const_expr(&c.ty, &c.expr) {
            c.expr = e;
            c.ty = parse_quote!(::symrt::S);
            return;
        }
        visit_mut::visit_impl_item_const_mut(self, c);
    }
    fn visit_trait_item_const_mut(&mut self, c: &mut TraitItemConst) {
        if let Some((eq, e)) = &c.default {
            if let Some(e) = self.const_expr(&c.ty, e) {
                c.default = Some((*eq, e));
                c.ty = parse_quote!(::symrt::S);
                return;
            }
        }
        visit_mut::visit_trait_item_const_mut(self, c);
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        // arithmetic on the symbolic type is not const
        if s.constness.is_some() && has_f64(&s.to_token_stream()) {
            s.constness = None;
        }
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_item_static_mut(&mut self, c: &mut ItemStatic) {
        if let Some(e) = self.const_expr(&c.ty, &c.expr) {
            *c.expr = e;
            c.ty = parse_quote!(::symrt::S);
            return;
        }
        visit_mut::visit_item_static_mut(self, c);
    }
    fn visit_path_mut(&mut self, p: &mut Path2) {
        rewrite_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_array_mut(&mut self, a: &mut TypeArray) {
        self.visit_type_mut(&mut a.elem);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        self.mac(m);
    }
    fn visit_item_macro_mut(&mut self, m: &mut ItemMacro) {
        m.mac.tokens = tokens(m.mac.tokens.clone());
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => {
                if let Expr::Lit(l) = &**expr {
                    if let Some(f) = is_float_lit(&l.lit) {
                        *e = lit_expr(-f, l.lit.span());
                        return;
                    }
                }
            }
            Expr::Lit(l) => {
                if let Some(f) = is_float_lit(&l.lit) {
                    *e = lit_expr(f, l.lit.span());
                }
                return;
            }
            Expr::Cast(c) => {
                let prim = self.is_number(&c.ty);
                if prim {
                    self.visit_expr_mut(&mut c.expr);
                    self.visit_type_mut(&mut c.ty);
                    let (x, t) = (&c.expr, &c.ty);
                    let n: Expr = parse_quote!(::symrt::cast::<_, #t>(#x));
                    *e = n;
                    return;
                }
            }
            Expr::Match(m) => self.float_arms(&mut m.arms),
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    let mut n = 0;
                    let mut p = (*l.pat).clone();
                    let mut v = PatFloats { guards: vec![], fresh: &mut n };
                    v.visit_pat_mut(&mut p);
                    if !v.guards.is_empty() {
                        let (x, p, then) = (&l.expr, &l.pat, &i.then_branch);
                        let els = i.else_branch.as_ref().map_or(quote!({}), |(_, e)| quote!(#e));
                        *e = parse_quote!(match #x { #p => #then, _ => #els });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => {
                let p = |i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let a: Expr = i.parse()?;
                    let _: Token![,] = i.parse()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        let _: Token![if] = i.parse()?;
                        Some(i.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = i.parse()?;
                    Ok((a, p, g))
                };
                if let Ok((x, p, g)) = p.parse2(m.mac.tokens.clone()) {
                    let g = g.map(|g| quote!(if #g));
                    *e = parse_quote!((match #x { #p #g => true, _ => false }));
                    self.visit_expr_mut(e);
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- line-preserving printer

fn emit(ts: TokenStream, out: &mut String, line: &mut usize) {
    for t in ts {
        let l = t.span().start().line;
        match &t {
            TokenTree::Group(g) => {
                let lo = g.span_open().start().line;
                goto(lo, out, line);
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                out.push_str(a);
                emit(g.stream(), out, line);
                goto(g.span_close().start().line, out, line);
                out.push_str(b);
                out.push(' ');
            }
            TokenTree::Punct(p) => {
                goto(l, out, line);
                out.push(p.as_char());
                if p.spacing() == proc_macro2::Spacing::Alone {
                    out.push(' ');
                }
            }
            o => {
                goto(l, out, line);
                let s = o.to_string();
                *line += s.matches('\n').count();
                out.push_str(&s);
                out.push(' ');
            }
        }
    }
}
fn goto(l: usize, out: &mut String, line: &mut usize) {
    while *line < l {
        out.push('\n');
        *line += 1;
    }
}

fn rs_files(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            rs_files(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

fn write_if_changed(p: &Path, s: &str) {
    if fs::read_to_string(p).map_or(false, |o| o == s) {
        return;
    }
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, s).unwrap();
}

/// top-level `mod x;` names of a file
fn mods(f: &File) -> Vec<String> {
    f.items
        .iter()
        .filter_map(|i| match i {
            Item::Mod(m) if m.content.is_none() => Some(m.ident.to_string()),
            _ => None,
        })
        .collect()
}

fn transform(src: &Path, x: &mut X) -> std::result::Result<String, String> {
    let text = fs::read_to_string(src).map_err(|e| e.to_string())?;
    let mut f = parse_file(&text).map_err(|e| format!("{}: {}", src.display(), e))?;
    x.visit_file_mut(&mut f);
    let mut out = String::new();
    let mut line = 1;
    emit(f.to_token_stream(), &mut out, &mut line);
    out.push('\n');
    Ok(out)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, out) = (PathBuf::from(&a[1]), PathBuf::from(&a[2]));
    let mut x = X { fns: 0, notes: vec![], consts: HashMap::new(), fresh: 0, aliases: vec![], generated: vec![] };
    let mainf = parse_file(&fs::read_to_string(src.join("main.rs")).expect("main.rs")).expect("parse main.rs");
    let binmods: Vec<String> = mods(&mainf);
    let skip = ["glium_interface"];
    let mut keep: Vec<PathBuf> = vec![];
    let mut files = vec![];
    rs_files(&src, &mut files);
    // twice, as a constant may refer to one of a later file
    for _ in 0..2 {
        for f in &files {
            if let Ok(f) = fs::read_to_string(f).map_err(|_| ()).and_then(|t| parse_file(&t).map_err(|_| ())) {
                x.collect_consts(&f.items);
            }
        }
    }
    let mut n = (0, 0);
    for f in &files {
        let rel = f.strip_prefix(&src).unwrap();
        let first = rel.components().next().unwrap().as_os_str().to_string_lossy().to_string();
        let stem = first.trim_end_matches(".rs").to_string();
        if first == "main.rs" || skip.contains(&stem.as_str()) || stem == "bin" {
            continue;
        }
        let is_bin = binmods.contains(&stem);
        let dst = out.join(if is_bin { "bin" } else { "lib" }).join("src").join(rel);
        let txt = match transform(f, &mut x) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("xform: {}", e);
                std::process::exit(3);
            }
        };
        write_if_changed(&dst, &txt);
        keep.push(dst);
        if is_bin {
            n.1 += 1
        } else {
            n.0 += 1
        }
    }
    let mut lib = String::new();
    for m in &binmods {
        if !skip.contains(&m.as_str()) {
            lib.push_str(&format!("pub mod {};\n", m));
        }
    }
    let dst = out.join("bin/src/lib.rs");
    write_if_changed(&dst, &lib);
    keep.push(dst);
    // the same modules of the binary, untransformed, as a library for the native side
    let mut nlib = String::new();
    for m in &binmods {
        if !skip.contains(&m.as_str()) {
            let f = src.join(format!("{}.rs", m));
            let f = if f.exists() { f } else { src.join(m).join("mod.rs") };
            nlib.push_str(&format!("#[path = {:?}]\npub mod {};\n", f.display().to_string(), m));
        }
    }
    write_if_changed(&out.join("nbin/src/lib.rs"), &nlib);
    // drop stale files
    for d in ["bin/src", "lib/src"] {
        let mut old = vec![];
        if out.join(d).exists() {
            rs_files(&out.join(d), &mut old);
        }
        for o in old {
            if !keep.contains(&o) {
                let _ = fs::remove_file(o);
            }
        }
    }
    println!("{{\"lib_files\":{},\"bin_files\":{},\"functions\":{},\"notes\":{:?}}}", n.0, n.1, x.fns, x.notes);
}
