//! The mechanical rewrites from the source dialect into the Verus dialect.
use crate::FnRec;
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Loop {
    pub kind: String,
    pub pat: TokenStream,
    pub src: TokenStream,
    pub body: TokenStream,
}

pub struct Ctx<'a> {
    pub eff: &'a BTreeSet<String>,
    pub renames: &'a BTreeMap<String, String>,
    pub errs: Vec<String>,
    pub loops: Vec<Loop>,
    pub rules: BTreeSet<String>,
    tmp: usize,
}

const ITER_SRC: [&str; 12] = [
    "iter", "into_iter", "values", "keys", "zip", "enumerate", "rev", "filter", "into_values", "into_keys", "drain", "values_mut",
];
const LOGM: [&str; 9] = ["error", "warn", "info", "debug", "trace", "log", "println", "eprintln", "print"];

impl<'a> Ctx<'a> {
    pub fn new(eff: &'a BTreeSet<String>, renames: &'a BTreeMap<String, String>) -> Self {
        Ctx { eff, renames, errs: vec![], loops: vec![], rules: BTreeSet::new(), tmp: 0 }
    }
    fn rule(&mut self, s: &str) {
        self.rules.insert(s.to_string());
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        Ident::new(&format!("__{}{}", p, self.tmp), Span::call_site())
    }
}

pub fn is_log(m: &Macro) -> bool {
    let segs: Vec<String> = m.path.segments.iter().map(|s| s.ident.to_string()).collect();
    let last = segs.last().unwrap().as_str();
    (LOGM.contains(&last) && (segs.len() == 1 || segs[0] == "log")) || last == "debug_assert"
}

/// Is this expression an iterator (by the names of the methods it chains)?
fn is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            let n = n.strip_prefix("vx_").unwrap_or(&n);
            if ITER_SRC.contains(&n) {
                return true;
            }
            matches!(n, "map" | "cloned" | "copied") && is_iter(&m.receiver)
        }
        Expr::Paren(p) => is_iter(&p.expr),
        Expr::Range(_) => true,
        _ => false,
    }
}

/// Apply `f` (a closure or a path) to argument expressions: gives (patterns, body).
fn closure(f: &Expr) -> Option<(Vec<Pat>, Expr)> {
    match f {
        Expr::Closure(c) => Some((
            c.inputs
                .iter()
                .map(|p| match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                })
                .collect(),
            (*c.body).clone(),
        )),
        Expr::Path(p) => {
            let p = p.clone();
            let id = Ident::new("__x", Span::call_site());
            Some((vec![parse_quote!(#id)], parse_quote!(#p(#id))))
        }
        Expr::Paren(p) => closure(&p.expr),
        _ => None,
    }
}

fn thunk(f: &Expr) -> Option<Expr> {
    match f {
        Expr::Closure(c) if c.inputs.is_empty() => Some((*c.body).clone()),
        Expr::Path(p) => {
            let p = p.clone();
            Some(parse_quote!(#p()))
        }
        _ => None,
    }
}

struct HasRet(bool);
impl<'x> syn::visit::Visit<'x> for HasRet {
    fn visit_expr_return(&mut self, _: &'x ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'x ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
}
fn has_ret(e: &Expr) -> bool {
    let mut v = HasRet(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// innermost stage of an iterator chain: split `src.filter(F).map(G)` into (src, stages)
enum Stage {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    Cloned,
}
fn split_chain(e: &Expr, st: &mut Vec<Stage>) -> Expr {
    if let Expr::MethodCall(m) = e {
        let n = m.method.to_string();
        match n.as_str() {
            "map" if m.args.len() == 1 && is_iter(&m.receiver) => {
                let s = split_chain(&m.receiver, st);
                st.push(Stage::Map(m.args[0].clone()));
                return s;
            }
            "filter" if m.args.len() == 1 => {
                let s = split_chain(&m.receiver, st);
                st.push(Stage::Filter(m.args[0].clone()));
                return s;
            }
            "filter_map" if m.args.len() == 1 => {
                let s = split_chain(&m.receiver, st);
                st.push(Stage::FilterMap(m.args[0].clone()));
                return s;
            }
            "cloned" | "copied" | "vx_cloned" if is_iter(&m.receiver) => {
                let s = split_chain(&m.receiver, st);
                st.push(Stage::Cloned);
                return s;
            }
            _ => (),
        }
    }
    e.clone()
}

impl<'a> Ctx<'a> {
    /// body that feeds each item of the chain to `sink`
    fn chain_body(&mut self, stages: &[Stage], item: Ident, sink: &dyn Fn(&Ident) -> TokenStream) -> Option<TokenStream> {
        if stages.is_empty() {
            return Some(sink(&item));
        }
        let rest = &stages[1..];
        Some(match &stages[0] {
            Stage::Map(f) => {
                let (ps, b) = closure(f)?;
                if ps.len() != 1 || has_ret(&b) {
                    return None;
                }
                let p = &ps[0];
                let n = self.fresh("m");
                let r = self.chain_body(rest, n.clone(), sink)?;
                quote!(let #n = { let #p = #item; #b }; #r)
            }
            Stage::Filter(f) => {
                let (ps, b) = closure(f)?;
                if ps.len() != 1 || has_ret(&b) {
                    return None;
                }
                let p = &ps[0];
                let n = self.fresh("c");
                let r = self.chain_body(rest, item.clone(), sink)?;
                quote!(let #n = { let #p = &#item; #b }; if #n { #r })
            }
            Stage::FilterMap(f) => {
                let (ps, b) = closure(f)?;
                if ps.len() != 1 || has_ret(&b) {
                    return None;
                }
                let p = &ps[0];
                let n = self.fresh("m");
                let r = self.chain_body(rest, n.clone(), sink)?;
                quote!(match { let #p = #item; #b } { Some(#n) => { #r } None => {} })
            }
            Stage::Cloned => {
                let n = self.fresh("m");
                let r = self.chain_body(rest, n.clone(), sink)?;
                quote!(let #n = #item.vx_clone(); #r)
            }
        })
    }

    fn push_loop(&mut self, kind: &str, pat: TokenStream, src: TokenStream, body: TokenStream) -> usize {
        self.loops.push(Loop { kind: kind.into(), pat, src, body });
        self.loops.len() - 1
    }

    /// Rewrite an iterator consumer into a loop. None if not applicable.
    fn consumer(&mut self, m: &ExprMethodCall, want: Option<&Type>) -> Option<Expr> {
        let name = m.method.to_string();
        if !is_iter(&m.receiver) {
            return None;
        }
        if !matches!(name.as_str(), "collect" | "any" | "all" | "sum" | "fold" | "count" | "for_each" | "find") {
            return None;
        }
        let mut st = vec![];
        let src = split_chain(&m.receiver, &mut st);
        let idx = self.loops.len();
        self.loops.push(Loop { kind: "pending".into(), pat: quote!(), src: quote!(), body: quote!() });
        let r = Ident::new(&format!("__r{}", idx), Span::call_site());
        let f = Ident::new(&format!("__f{}", idx), Span::call_site());
        let item = Ident::new(&format!("__x{}", idx), Span::call_site());
        let lit = LitInt::new(&idx.to_string(), Span::call_site());
        let mut kind = name.clone();
        let (pre, sink, post): (TokenStream, Box<dyn Fn(&Ident) -> TokenStream>, TokenStream) = match name.as_str() {
            "collect" => {
                let ty: Option<Type> = m
                    .turbofish
                    .as_ref()
                    .and_then(|t| match t.args.first() {
                        Some(GenericArgument::Type(t)) => Some(t.clone()),
                        _ => None,
                    })
                    .or_else(|| want.cloned());
                let mut opt = String::new();
                let mut inner: Type = parse_quote!(_);
                if let Some(mut t) = ty {
                    clean_type(&mut t);
                    inner = t.clone();
                    if let Type::Path(p) = &t {
                        let s = p.path.segments.last().unwrap();
                        if s.ident == "Option" || s.ident == "Result" {
                            opt = s.ident.to_string();
                            if let PathArguments::AngleBracketed(a) = &s.arguments {
                                if let Some(GenericArgument::Type(t)) = a.args.first() {
                                    inner = t.clone();
                                }
                            }
                        }
                    }
                }
                let (r1, f1) = (r.clone(), f.clone());
                match opt.as_str() {
                    "Option" => {
                        kind = "collect_opt".into();
                        (
                            quote!(let mut #r: #inner = vx_new(); let mut #f = true;),
                            Box::new(move |x| quote!(match #x { Some(__v) => { #r1.vx_push(__v); } None => { #f1 = false; } })),
                            quote!(if #f { Some(#r) } else { None }),
                        )
                    }
                    "Result" => return None,
                    _ => (
                        quote!(let mut #r: #inner = vx_new();),
                        Box::new(move |x| quote!(#r1.vx_push(#x);)),
                        quote!(#r),
                    ),
                }
            }
            "any" | "all" | "find" | "for_each" | "fold" => {
                let cl = m.args.last()?;
                let (ps, b) = closure(cl)?;
                if has_ret(&b) {
                    return None;
                }
                let r1 = r.clone();
                match name.as_str() {
                    "any" => {
                        let p = ps[0].clone();
                        (quote!(let mut #r = false;), Box::new(move |x| quote!(let __c = { let #p = #x; #b }; if __c { #r1 = true; })), quote!(#r))
                    }
                    "all" => {
                        let p = ps[0].clone();
                        (quote!(let mut #r = true;), Box::new(move |x| quote!(let __c = { let #p = #x; #b }; if !__c { #r1 = false; })), quote!(#r))
                    }
                    "find" => {
                        let p = ps[0].clone();
                        (
                            quote!(let mut #r = None;),
                            Box::new(move |x| quote!(let __c = { let #p = &#x; #b }; if #r1.is_none() && __c { #r1 = Some(#x); })),
                            quote!(#r),
                        )
                    }
                    "for_each" => {
                        let p = ps[0].clone();
                        (quote!(), Box::new(move |x| quote!({ let #p = #x; #b };)), quote!(()))
                    }
                    _ => {
                        if ps.len() != 2 {
                            return None;
                        }
                        let (a, p) = (ps[0].clone(), ps[1].clone());
                        let init = m.args[0].clone();
                        (quote!(let mut #r = #init;), Box::new(move |x| quote!(#r1 = { let #a = #r1; let #p = #x; #b };)), quote!(#r))
                    }
                }
            }
            "sum" => {
                let r1 = r.clone();
                let ty: TokenStream = match m.turbofish.as_ref().and_then(|t| t.args.first()) {
                    Some(t) => quote!(: #t),
                    None => match want {
                        Some(t) => quote!(: #t),
                        None => quote!(),
                    },
                };
                (quote!(let mut #r #ty = 0;), Box::new(move |x| quote!(#r1 = #r1 + #x;)), quote!(#r))
            }
            _ => {
                let r1 = r.clone();
                (quote!(let mut #r: usize = 0;), Box::new(move |_x| quote!(#r1 = #r1 + 1;)), quote!(#r))
            }
        };
        let body = match self.chain_body(&st, item.clone(), &*sink) {
            Some(b) => b,
            None => {
                self.errs.push(format!("iterator chain not supported: {}", m.to_token_stream()));
                return None;
            }
        };
        self.rule("iterator chain -> loop");
        let src = iter_src(&src);
        self.loops[idx] = Loop { kind, pat: quote!(#item), src, body };
        Some(parse_quote!({ #pre __vx_loop!(#lit); #post }))
    }
}

fn iter_src(e: &Expr) -> TokenStream {
    match e {
        Expr::Range(r) => {
            if let (Some(a), Some(b)) = (&r.start, &r.end) {
                if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                    return quote!(vx_range(#a, #b));
                }
                return quote!(vx_range_incl(#a, #b));
            }
            quote!(#e)
        }
        Expr::Paren(p) => iter_src(&p.expr),
        _ => quote!(#e),
    }
}

pub fn clean_path(p: &mut Path, keep_fn: bool) {
    let _ = keep_fn;
    // `crate::a::b::T` -> `T`;  `crate::T::f` -> `T::f`
    while p.segments.len() > 1 {
        let first = p.segments[0].ident.to_string();
        if first == "Self" || first.chars().next().unwrap().is_uppercase() {
            break;
        }
        // keep the module of foreign free functions (rlp::encode)
        let last = p.segments.last().unwrap().ident.to_string();
        if p.segments.len() == 2
            && last.chars().next().unwrap().is_lowercase()
            && !matches!(first.as_str(), "crate" | "self" | "super")
        {
            break;
        }
        p.segments = p.segments.iter().skip(1).cloned().collect();
        p.leading_colon = None;
    }
}

struct TyClean;
impl VisitMut for TyClean {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let s = t.to_token_stream().to_string().replace(' ', "");
        if s.starts_with("Box<dyn") && s.contains("Error") {
            *t = parse_quote!(BoxErr);
            return;
        }
        if s == "Pin<&mutSelf>" {
            *t = parse_quote!(&mut Self);
        }
        // a shared pointer is its target
        if let Type::Path(p) = t {
            let seg = p.path.segments.last().unwrap();
            if seg.ident == "Arc" {
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(GenericArgument::Type(i)) = a.args.first() {
                        let i = i.clone();
                        *t = i;
                    }
                }
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        clean_path(p, false);
    }
}

pub fn clean_type(t: &mut Type) {
    TyClean.visit_type_mut(t);
}
pub fn clean_generics(g: &mut Generics) {
    // bounds other than the crate's own traits are dropped
    fn keep(b: &TypeParamBound) -> bool {
        match b {
            TypeParamBound::Trait(t) => {
                let n = t.path.segments.last().unwrap().ident.to_string();
                matches!(n.as_str(), "Codec" | "Crypto" | "Wal" | "Consensus" | "Into" | "DurationConfig")
            }
            _ => false,
        }
    }
    for p in g.type_params_mut() {
        let b: Punctuated<TypeParamBound, Token![+]> = p.bounds.iter().filter(|b| keep(b)).cloned().collect();
        if b.is_empty() {
            p.colon_token = None;
        }
        p.bounds = b;
    }
}

/// In a `select!` arm, `break`/`continue` leave the arm.
pub fn break_continue_to_return(e: &mut Expr) {
    struct B;
    impl VisitMut for B {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => (),
                Expr::Break(_) => *e = parse_quote!(return true),
                Expr::Continue(_) => *e = parse_quote!(return false),
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    B.visit_expr_mut(e);
}

impl<'a> VisitMut for Ctx<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        clean_path(p, true);
        let s = p.to_token_stream().to_string().replace(' ', "");
        if let Some(r) = self.renames.get(&s) {
            if let Ok(q) = parse_str::<Path>(r) {
                *p = q;
                self.rule(&format!("rename {} -> {}", s, r));
            }
        }
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        clean_type(t);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &mut s {
                Stmt::Macro(m) if is_log(&m.mac) => {
                    self.rule("log/print macros dropped");
                    continue;
                }
                Stmt::Expr(Expr::Macro(m), _) if is_log(&m.mac) => {
                    self.rule("log/print macros dropped");
                    continue;
                }
                // `span.log(|log| ..)`: a note on a tracing span
                Stmt::Expr(Expr::MethodCall(m), Some(_)) if m.method == "log" && m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_)) => {
                    self.rule("notes on tracing spans dropped");
                    continue;
                }
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Item(i) => {
                    self.errs.push(format!("nested item {}", i.to_token_stream()));
                    continue;
                }
                // a `let` with a declared collection type gives it to `collect`
                Stmt::Local(l) => {
                    l.attrs.clear();
                    if let (Pat::Type(pt), Some(init)) = (&l.pat, &mut l.init) {
                        let ty = (*pt.ty).clone();
                        if let Expr::MethodCall(m) = &mut *init.expr {
                            if (m.method == "collect" || m.method == "sum") && m.turbofish.is_none() {
                                m.turbofish = Some(parse_quote!(::<#ty>));
                            }
                        }
                    }
                }
                Stmt::Macro(m) => {
                    // macro statement: treat as an expression
                    let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    s = match m.semi_token {
                        Some(t) => Stmt::Expr(e, Some(t)),
                        None => Stmt::Expr(e, None),
                    };
                }
                _ => (),
            }
            self.visit_stmt_mut(&mut s);
            if let Stmt::Expr(Expr::Macro(_), semi) = &mut s {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if c.args.len() == 1 && (f == "Vec::from_iter" || f == "Vec::<_>::from_iter") && is_iter(&c.args[0]) {
                let a = c.args[0].clone();
                *e = parse_quote!(#a.collect::<Vec<_>>());
                self.rule("Vec::from_iter(i) => i.collect()");
            }
        }
        match e {
            Expr::Macro(m) => {
                let r = self.do_macro(&m.mac.clone());
                if let Some(r) = r {
                    *e = r;
                }
                return;
            }
            Expr::Closure(_) => {
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Match(m) if m.arms.iter().any(|a| crate::is_cfg_test(&a.attrs)) => {
                m.arms.retain(|a| !crate::is_cfg_test(&a.attrs));
                self.rule("cfg(test) match arms dropped");
            }
            Expr::ForLoop(f) => {
                let mut f = f.clone();
                let idx = self.push_loop("pending", quote!(), quote!(), quote!());
                self.visit_expr_mut(&mut f.expr);
                self.visit_block_mut(&mut f.body);
                let mut st = vec![];
                let src = split_chain(&f.expr, &mut st);
                let stmts = &f.body.stmts;
                let pat = f.pat.to_token_stream();
                let (pat, body) = if st.is_empty() {
                    (pat, quote!(#(#stmts)*))
                } else {
                    let item = Ident::new(&format!("__x{}", idx), Span::call_site());
                    let r = self.chain_body(&st, item.clone(), &|x| quote!(let #pat = #x; #(#stmts)*));
                    match r {
                        Some(r) => (quote!(#item), r),
                        None => {
                            self.errs.push("for over unsupported chain".into());
                            (pat.clone(), quote!(#(#stmts)*))
                        }
                    }
                };
                let src = iter_src(&src);
                self.loops[idx] = Loop { kind: "for".into(), pat, src, body };
                self.rule("for -> while over an eager sequence");
                let lit = LitInt::new(&idx.to_string(), Span::call_site());
                *e = parse_quote!(__vx_loop!(#lit));
                return;
            }
            Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => {
                let (l, b) = (&*w.cond, &w.body);
                if let Expr::Let(l) = l {
                    let (p, x) = (&l.pat, &l.expr);
                    self.rule("while let -> loop match");
                    let mut ne: Expr = parse_quote!(loop { match #x { #p => #b, _ => break } });
                    self.visit_expr_mut(&mut ne);
                    *e = ne;
                }
                return;
            }
            Expr::Unsafe(u) => {
                let mut b = u.block.clone();
                self.visit_block_mut(&mut b);
                self.rule("unsafe block -> block");
                *e = parse_quote!(#b);
                return;
            }
            Expr::While(w) => {
                let mut w = w.clone();
                let idx = self.push_loop("pending", quote!(), quote!(), quote!());
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (c, stmts) = (&w.cond, &w.body.stmts);
                self.loops[idx] = Loop { kind: "while".into(), pat: quote!(), src: quote!(#c), body: quote!(#(#stmts)*) };
                let lit = LitInt::new(&idx.to_string(), Span::call_site());
                *e = parse_quote!(__vx_loop!(#lit));
                return;
            }
            Expr::Loop(l) => {
                let mut l = l.clone();
                let idx = self.push_loop("pending", quote!(), quote!(), quote!());
                self.visit_block_mut(&mut l.body);
                let stmts = &l.body.stmts;
                self.loops[idx] = Loop { kind: "loop".into(), pat: quote!(), src: quote!(), body: quote!(#(#stmts)*) };
                let lit = LitInt::new(&idx.to_string(), Span::call_site());
                *e = parse_quote!(__vx_loop!(#lit));
                return;
            }
            // tokio::spawn(async move { B })  ->  { B }
            Expr::Call(c) => {
                let fs = c.func.to_token_stream().to_string().replace(' ', "");
                if fs == "tokio::spawn" || fs == "spawn" {
                    if let Some(Expr::Async(a)) = c.args.first() {
                        let b = a.block.clone();
                        let mut ne: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b.clone() });
                        if has_ret(&ne) {
                            match crate::dereturn::lower(&b, false, true) {
                                Ok(x) => {
                                    self.rule("early exits of a spawned block -> nested branches");
                                    ne = parse_quote!(#x);
                                }
                                Err(er) => self.errs.push(format!("spawned block with return: {}", er)),
                            }
                        }
                        self.rule("tokio::spawn(async move B) -> B");
                        self.visit_expr_mut(&mut ne);
                        // the JoinHandle is not used
                        *e = ne;
                        return;
                    }
                    if let Some(a) = c.args.first() {
                        let mut a = a.clone();
                        self.visit_expr_mut(&mut a);
                        self.rule("tokio::spawn(future) -> vx_await(future)");
                        *e = if self.eff.contains("vx_await") { parse_quote!(vx_await(#a, w)) } else { parse_quote!(vx_await(#a)) };
                        return;
                    }
                }
                if fs == "Pin::new_unchecked" || fs == "Pin::new" {
                    if let Some(a) = c.args.first() {
                        let mut a = a.clone();
                        self.visit_expr_mut(&mut a);
                        self.rule("Pin::new(x) -> x");
                        *e = a;
                        return;
                    }
                }
                if fs.ends_with("Stream::poll_next") {
                    if let Some(Expr::Call(p)) = c.args.first() {
                        if let Some(a) = p.args.first() {
                            let mut a = a.clone();
                            self.visit_expr_mut(&mut a);
                            self.rule("Stream::poll_next -> stub");
                            *e = parse_quote!(vx_poll_next(#a));
                            return;
                        }
                    }
                }
            }
            _ => (),
        }
        visit_mut::visit_expr_mut(self, e);
        self.post(e);
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

impl<'a> Ctx<'a> {
    fn args(&mut self, m: &Macro) -> Option<Vec<Expr>> {
        let p = Punctuated::<Expr, Token![,]>::parse_terminated;
        match p.parse2(m.tokens.clone()) {
            Ok(a) => Some(a.into_iter().collect()),
            Err(e) => {
                self.errs.push(format!("macro {}: {}", m.path.to_token_stream(), e));
                None
            }
        }
    }

    fn do_macro(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n == "__vx_loop" {
            return None;
        }
        if is_log(m) {
            self.rule("log/print macros dropped");
            return Some(parse_quote!(()));
        }
        match n.as_str() {
            "format" => {
                self.rule("format!/to_string -> opaque string");
                Some(parse_quote!(vx_string()))
            }
            "cfg" => {
                // cfg!(feature = "x") -> vx_cfg_x(), a fixed but unknown bool
                self.rule("cfg!(feature) -> fixed unknown bool");
                let t: String = m.tokens.to_string().split('"').nth(1).unwrap_or("other").chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
                let id = Ident::new(&format!("vx_cfg_{}", t), Span::call_site());
                Some(parse_quote!(#id()))
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => {
                self.rule("panicking macros -> unreachable obligation");
                Some(parse_quote!(vx_unreachable()))
            }
            "assert" => {
                let a = self.args(m)?;
                let mut c = a.into_iter().next()?;
                self.visit_expr_mut(&mut c);
                self.rule("assert! -> obligation");
                Some(parse_quote!(vx_assert(#c)))
            }
            "assert_eq" | "assert_ne" => {
                let a = self.args(m)?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                self.rule("assert! -> obligation");
                if n == "assert_eq" {
                    Some(parse_quote!(vx_assert((#x) == (#y))))
                } else {
                    Some(parse_quote!(vx_assert((#x) != (#y))))
                }
            }
            "vec" => {
                let a = self.args(m)?;
                let mut out: Vec<Expr> = vec![];
                for mut x in a {
                    self.visit_expr_mut(&mut x);
                    out.push(x);
                }
                let r = self.fresh("v");
                Some(parse_quote!({ let mut #r = Vec::new(); #(#r.push(#out);)* #r }))
            }
            "matches" => {
                let p = |i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>();
                    Ok((e, p, g))
                };
                match Parser::parse2(p, m.tokens.clone()) {
                    Ok((mut e, mut p, g)) => {
                        self.visit_expr_mut(&mut e);
                        self.visit_pat_mut(&mut p);
                        self.rule("matches! -> match");
                        Some(match g {
                            Some(mut g) => {
                                self.visit_expr_mut(&mut g);
                                parse_quote!(match #e { #p if #g => true, _ => false })
                            }
                            None => parse_quote!(match #e { #p => true, _ => false }),
                        })
                    }
                    Err(er) => {
                        self.errs.push(format!("matches!: {}", er));
                        None
                    }
                }
            }
            _ => {
                self.errs.push(format!("macro {}!", n));
                None
            }
        }
    }

    fn post(&mut self, e: &mut Expr) {
        let new: Option<Expr> = match e {
            Expr::Await(a) => {
                self.rule("async/.await stripped");
                if matches!(&*a.base, Expr::Path(_)) {
                    let b = &a.base;
                    self.rule("x.await -> vx_await(x)");
                    Some(if self.eff.contains("vx_await") { parse_quote!(vx_await(#b, w)) } else { parse_quote!(vx_await(#b)) })
                } else {
                    Some((*a.base).clone())
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::MulAssign(_)) => {
                let (l, r) = (&b.left, &b.right);
                self.rule("a *= b -> a = a * (b)");
                Some(parse_quote!(#l = #l * (#r)))
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitAndAssign(_)) => {
                let (l, r) = (&b.left, &b.right);
                self.rule("a &= b -> a = a & b");
                Some(parse_quote!(#l = vx_and(#l, #r)))
            }
            Expr::Async(_) => {
                self.errs.push("async block".into());
                None
            }
            Expr::MethodCall(m) => self.method(&m.clone()),
            Expr::Call(c) => self.call(&c.clone()),
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }

    fn call(&mut self, c: &ExprCall) -> Option<Expr> {
        let fs = c.func.to_token_stream().to_string().replace(' ', "");
        let mut c2 = c.clone();
        let name = fs.rsplit("::").next().unwrap().to_string();
        match fs.as_str() {
            "u64::from" | "u32::from" | "u128::from" | "usize::from" | "i64::from" | "u16::from" => {
                let t: Type = parse_str(fs.split("::").next().unwrap()).unwrap();
                let a = &c.args[0];
                self.rule("T::from(int) -> as");
                return Some(parse_quote!(((#a) as #t)));
            }
            "u64::max_value" => return Some(parse_quote!(u64::MAX)),
            "u32::max_value" => return Some(parse_quote!(u32::MAX)),
            "usize::max_value" => return Some(parse_quote!(usize::MAX)),
            "Box::new" => {
                let a = &c.args[0];
                return Some(parse_quote!(vx_box(#a)));
            }
            "Arc::new" => {
                let a = &c.args[0];
                self.rule("Arc<T> -> T");
                return Some(parse_quote!(#a));
            }
            "Arc::clone" => {
                let a = &c.args[0];
                self.rule("Arc<T> -> T");
                return Some(parse_quote!((#a).vx_clone()));
            }
            _ => (),
        }
        if self.eff.contains(&name) {
            c2.args.push(parse_quote!(w));
            return Some(Expr::Call(c2));
        }
        None
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &m.receiver;
        let na = m.args.len();
        if let Some(e) = self.consumer(m, None) {
            return Some(e);
        }
        if name == "map" && na == 1 && is_iter(r) {
            return None; // a stage of a chain
        }
        if (name == "filter" || name == "filter_map") && is_iter(r) {
            return None;
        }
        let iter = is_iter(r);
        let ren = |n: &str| -> Option<Expr> {
            let mut m2 = m.clone();
            m2.method = Ident::new(n, Span::call_site());
            m2.turbofish = None;
            Some(Expr::MethodCall(m2))
        };
        match (name.as_str(), na) {
            ("to_string", 0) => {
                self.rule("format!/to_string -> opaque string");
                Some(parse_quote!(vx_string()))
            }
            ("clone", 0) | ("to_owned", 0) => {
                self.rule("clone -> vx_clone (ensures r == *self)");
                ren("vx_clone")
            }
            ("cloned", 0) | ("copied", 0) if !iter => {
                self.rule("clone -> vx_clone (ensures r == *self)");
                ren("vx_cloned")
            }
            ("iter", 0) | ("into_iter", 0) | ("values", 0) | ("keys", 0) | ("enumerate", 0) | ("rev", 0) | ("zip", 1) | ("iter_mut", 0)
            | ("into_values", 0) | ("into_keys", 0) => {
                let n = if name == "iter_mut" { "vx_iter".to_string() } else { format!("vx_{}", name) };
                ren(&n)
            }
            ("get_unchecked_mut", 0) => {
                self.rule("Pin::new(x) -> x");
                Some(parse_quote!(#r))
            }
            ("sort", 0) => ren("vx_sort"),
            ("min", 1) => ren("vx_min"),
            ("max", 1) => ren("vx_max"),
            ("into", 0) => ren("vx_into"),
            ("expect", 1) => {
                self.rule("expect -> unwrap");
                Some(parse_quote!(#r.unwrap()))
            }
            ("map_err", 1) => {
                let (ps, b) = closure(&m.args[0])?;
                let p = ps.into_iter().next()?;
                let v = self.fresh("ok");
                self.rule("Option/Result combinator -> match");
                Some(parse_quote!((match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#b) })))
            }
            ("map", 1) => {
                let (ps, b) = closure(&m.args[0])?;
                let p = ps.into_iter().next()?;
                self.rule("Option/Result combinator -> match");
                Some(parse_quote!((match #r { Some(#p) => Some(#b), None => None })))
            }
            ("and_then", 1) => {
                let (ps, mut b) = closure(&m.args[0])?;
                if has_ret(&b) {
                    let blk: Block = match &b {
                        Expr::Block(x) => x.block.clone(),
                        o => parse_quote!({ #o }),
                    };
                    match crate::dereturn::lower(&blk, true, false) {
                        Ok(x) => {
                            self.rule("early exits of a closure -> nested branches");
                            b = parse_quote!(#x);
                        }
                        Err(er) => self.errs.push(format!("and_then closure: {}", er)),
                    }
                }
                let p = ps.into_iter().next()?;
                self.rule("Option/Result combinator -> match");
                Some(parse_quote!((match #r { Some(#p) => #b, None => None })))
            }
            ("map_or_else", 2) => {
                let (ps, b) = closure(&m.args[1])?;
                let p = ps.into_iter().next()?;
                self.rule("Option/Result combinator -> match");
                match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 => {
                        let (qs, d) = closure(&m.args[0])?;
                        let q = qs.into_iter().next()?;
                        Some(parse_quote!((match #r { Ok(#p) => #b, Err(#q) => #d })))
                    }
                    o => {
                        let d = thunk(o)?;
                        Some(parse_quote!((match #r { Some(#p) => #b, None => #d })))
                    }
                }
            }
            ("map_or", 2) => {
                let (ps, b) = closure(&m.args[1])?;
                let p = ps.into_iter().next()?;
                let d = &m.args[0];
                self.rule("Option/Result combinator -> match");
                Some(parse_quote!((match #r { Some(#p) => #b, None => #d })))
            }
            ("ok_or_else", 1) => {
                let d = thunk(&m.args[0])?;
                let v = self.fresh("v");
                self.rule("Option/Result combinator -> match");
                Some(parse_quote!((match #r { Some(#v) => Ok(#v), None => Err(#d) })))
            }
            ("ok_or", 1) => {
                let d = &m.args[0];
                let v = self.fresh("v");
                self.rule("Option/Result combinator -> match");
                Some(parse_quote!((match #r { Some(#v) => Ok(#v), None => Err(#d) })))
            }
            ("unwrap_or_else", 1) => {
                let d = thunk(&m.args[0])?;
                let v = self.fresh("v");
                self.rule("Option/Result combinator -> match");
                Some(parse_quote!((match #r { Some(#v) => #v, None => #d })))
            }
            ("or_insert_with", 1) | ("or_insert", 1) | ("or_default", 0) => {
                if let Expr::MethodCall(en) = &**r {
                    if en.method == "entry" {
                        let d: Expr = match name.as_str() {
                            "or_insert_with" => thunk(&m.args[0])?,
                            "or_insert" => m.args[0].clone(),
                            _ => parse_quote!(vx_new()),
                        };
                        let (rr, k) = (&en.receiver, &en.args[0]);
                        self.rule("entry().or_insert_with() -> entry_or stub");
                        return Some(parse_quote!(#rr.entry_or(#k, #d)));
                    }
                }
                self.errs.push("or_insert without entry".into());
                None
            }
            _ => {
                if let Some(n) = self.renames.get(&format!(".{}", name)) {
                    let n = n.clone();
                    let mut m2 = m.clone();
                    m2.method = Ident::new(&n, Span::call_site());
                    if self.eff.contains(&name) {
                        m2.args.push(parse_quote!(w));
                    }
                    return Some(Expr::MethodCall(m2));
                }
                if self.eff.contains(&name) {
                    let mut m2 = m.clone();
                    m2.args.push(parse_quote!(w));
                    return Some(Expr::MethodCall(m2));
                }
                None
            }
        }
    }
}

pub fn rewrite_fn(f: &mut FnRec, cx: &mut Ctx) {
    if f.sig.asyncness.is_some() {
        cx.rule("async/.await stripped");
        f.sig.asyncness = None;
    }
    let mut b = f.block.clone();
    cx.visit_block_mut(&mut b);
    // any closure left over is unsupported
    struct C(Vec<String>);
    impl<'x> syn::visit::Visit<'x> for C {
        fn visit_expr_closure(&mut self, c: &'x ExprClosure) {
            self.0.push(c.to_token_stream().to_string());
        }
    }
    let mut c = C(vec![]);
    syn::visit::Visit::visit_block(&mut c, &b);
    for l in &cx.loops {
        let (s, bd) = (&l.src, &l.body);
        if let Ok(x) = parse2::<Block>(quote!({ #s; #bd })) {
            syn::visit::Visit::visit_block(&mut c, &x);
        }
    }
    for x in c.0 {
        cx.errs.push(format!("closure left: {}", x));
    }
    for a in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &mut *t.pat {
                if i.mutability.is_some() {
                    // `mut x: T` -> `x: T` + `let mut x = x;`
                    i.mutability = None;
                    let id = i.ident.clone();
                    b.stmts.insert(0, parse_quote!(let mut #id = #id;));
                }
            }
        }
    }
    f.block = b;
}
