//! Turn a block with early exits (`return`, `?`) into a block whose value is its tail expression.
//! Used where the verifier cannot leave early: closures of Option/Result combinators and inlined helpers.
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Ret(bool);
impl<'x> Visit<'x> for Ret {
    fn visit_expr_return(&mut self, _: &'x ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'x ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'x ExprAsync) {}
}
fn exits_e(e: &Expr) -> bool {
    let mut r = Ret(false);
    r.visit_expr(e);
    r.0
}
fn exits_s(s: &Stmt) -> bool {
    let mut r = Ret(false);
    r.visit_stmt(s);
    r.0
}
pub fn exits(b: &Block) -> bool {
    let mut r = Ret(false);
    r.visit_block(b);
    r.0
}

struct Binds(BTreeSet<String>);
impl<'x> Visit<'x> for Binds {
    fn visit_pat_ident(&mut self, p: &'x PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
}
fn mentions(ts: proc_macro2::TokenStream, names: &BTreeSet<String>) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => names.contains(&i.to_string()),
        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), names),
        _ => false,
    })
}

fn diverges(ss: &[Stmt]) -> bool {
    ss.iter().any(|s| match s {
        Stmt::Expr(e, _) => div_e(e),
        Stmt::Local(l) => l.init.as_ref().map(|i| matches!(*i.expr, Expr::Return(_))).unwrap_or(false),
        _ => false,
    })
}
fn div_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => diverges(&i.then_branch.stmts) && i.else_branch.as_ref().map(|(_, e)| div_e(e)).unwrap_or(false),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| div_e(&a.body)),
        Expr::Paren(p) => div_e(&p.expr),
        _ => false,
    }
}

pub struct De {
    n: usize,
    /// Option instead of Result for `?`
    option: bool,
    dup: usize,
}

type R<T> = std::result::Result<T, String>;

impl De {
    fn fresh(&mut self) -> Ident {
        self.n += 1;
        Ident::new(&format!("__q{}", self.n), Span::call_site())
    }

    /// statements followed by `rest`, as an expression block in which every path ends in a value
    fn stmts(&mut self, ss: &[Stmt], rest: &[Stmt], has_rest: bool) -> R<Vec<Stmt>> {
        // `rest` holds what follows (already guarded against capture)
        let mut out: Vec<Stmt> = vec![];
        for (i, s) in ss.iter().enumerate() {
            if !exits_s(s) {
                out.push(s.clone());
                continue;
            }
            let mut tail: Vec<Stmt> = ss[i + 1..].to_vec();
            let last = tail.is_empty();
            if has_rest {
                // names bound here must not be seen by what follows
                let mut b = Binds(BTreeSet::new());
                for s in ss {
                    b.visit_stmt(s);
                }
                if rest.iter().any(|s| mentions(s.to_token_stream(), &b.0)) {
                    return Err("early exit in a block whose bindings would be captured".into());
                }
                tail.extend(rest.iter().cloned());
            }
            match s {
                Stmt::Local(l) => {
                    let init = l.init.as_ref().ok_or("let without value")?;
                    if let Some((_, els)) = &init.diverge {
                        // let P = e else { return .. };
                        let (p, e) = (&l.pat, &init.expr);
                        if exits_e(e) {
                            return Err("let-else over an early exit".into());
                        }
                        let eb: Expr = match &**els {
                            Expr::Block(b) => self.block_expr(&b.block.stmts)?,
                            o => self.tail(o)?,
                        };
                        let tb = self.stmts(&tail, &[], false)?;
                        out.push(Stmt::Expr(parse_quote!(match #e { #p => { #(#tb)* } _ => #eb }), None));
                        return Ok(out);
                    }
                    let p = l.pat.clone();
                    let sink = move |v: &Expr| -> Vec<Stmt> { vec![parse_quote!(let #p = #v;)] };
                    let e = self.bind(&init.expr, &sink, &tail)?;
                    out.push(Stmt::Expr(e, None));
                    return Ok(out);
                }
                Stmt::Expr(e, semi) => {
                    if semi.is_none() && last && !has_rest {
                        let t = self.tail(e)?;
                        out.push(Stmt::Expr(t, None));
                        return Ok(out);
                    }
                    // a statement
                    let e2 = self.stmt_expr(e, &tail)?;
                    out.push(Stmt::Expr(e2, None));
                    return Ok(out);
                }
                _ => return Err("early exit in an unsupported statement".into()),
            }
        }
        if has_rest {
            let mut b = Binds(BTreeSet::new());
            for s in ss {
                b.visit_stmt(s);
            }
            if rest.iter().any(|s| mentions(s.to_token_stream(), &b.0)) {
                return Err("early exit in a block whose bindings would be captured".into());
            }
            // the value of `ss` is dropped
            if let Some(Stmt::Expr(_, semi)) = out.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            let r = self.stmts(rest, &[], false)?;
            out.extend(r);
        }
        Ok(out)
    }

    fn block_expr(&mut self, ss: &[Stmt]) -> R<Expr> {
        let b = self.stmts(ss, &[], false)?;
        Ok(parse_quote!({ #(#b)* }))
    }

    /// e in tail position
    fn tail(&mut self, e: &Expr) -> R<Expr> {
        if !exits_e(e) {
            return Ok(e.clone());
        }
        match e {
            Expr::Return(r) => match &r.expr {
                Some(x) => self.tail(x),
                None => Ok(parse_quote!(())),
            },
            Expr::Paren(p) => self.tail(&p.expr),
            Expr::Block(b) if b.label.is_none() => self.block_expr(&b.block.stmts),
            Expr::If(i) if !exits_e(&i.cond) => {
                let c = &i.cond;
                let t = self.stmts(&i.then_branch.stmts, &[], false)?;
                match &i.else_branch {
                    Some((_, el)) => {
                        let el = self.tail(el)?;
                        Ok(parse_quote!(if #c { #(#t)* } else { #el }))
                    }
                    None => Ok(parse_quote!(if #c { #(#t)* })),
                }
            }
            Expr::Match(m) if !exits_e(&m.expr) => {
                let mut m2 = m.clone();
                for a in m2.arms.iter_mut() {
                    if a.guard.as_ref().map(|(_, g)| exits_e(g)).unwrap_or(false) {
                        return Err("early exit in a guard".into());
                    }
                    let b = self.tail(&a.body)?;
                    a.body = Box::new(b);
                    a.comma = Some(Default::default());
                }
                Ok(Expr::Match(m2))
            }
            _ => self.bind(e, &|v: &Expr| vec![Stmt::Expr(v.clone(), None)], &[]),
        }
    }

    /// e as a statement followed by `tail`
    fn stmt_expr(&mut self, e: &Expr, tail: &[Stmt]) -> R<Expr> {
        self.dup += 1;
        if self.dup > 40 {
            return Err("too many early exits".into());
        }
        match e {
            Expr::Return(_) => self.tail(e),
            Expr::Paren(p) => self.stmt_expr(&p.expr, tail),
            Expr::Block(b) if b.label.is_none() => {
                let t = if diverges(&b.block.stmts) { self.stmts(&b.block.stmts, &[], false)? } else { self.stmts(&b.block.stmts, tail, true)? };
                Ok(parse_quote!({ #(#t)* }))
            }
            Expr::If(i) if !exits_e(&i.cond) => {
                let c = &i.cond;
                let t = if diverges(&i.then_branch.stmts) {
                    self.stmts(&i.then_branch.stmts, &[], false)?
                } else {
                    self.capture(c.to_token_stream(), tail)?;
                    self.stmts(&i.then_branch.stmts, tail, true)?
                };
                let el: Expr = match &i.else_branch {
                    Some((_, el)) => self.stmt_expr(el, tail)?,
                    None => self.block_expr(tail)?,
                };
                Ok(parse_quote!(if #c { #(#t)* } else { #el }))
            }
            Expr::Match(m) if !exits_e(&m.expr) => {
                let mut m2 = m.clone();
                for a in m2.arms.iter_mut() {
                    if a.guard.as_ref().map(|(_, g)| exits_e(g)).unwrap_or(false) {
                        return Err("early exit in a guard".into());
                    }
                    let b: Expr = if div_e(&a.body) {
                        self.tail(&a.body)?
                    } else {
                        self.capture(a.pat.to_token_stream(), tail)?;
                        self.stmt_expr(&a.body, tail)?
                    };
                    a.body = Box::new(parse_quote!({ #b }));
                    a.comma = Some(Default::default());
                }
                Ok(Expr::Match(m2))
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) if exits_e(e) => Err("early exit out of a loop".into()),
            _ if !exits_e(e) => {
                let t = self.stmts(tail, &[], false)?;
                Ok(parse_quote!({ #e; #(#t)* }))
            }
            _ => self.bind(e, &|v: &Expr| vec![Stmt::Expr(v.clone(), Some(Default::default()))], tail),
        }
    }

    fn capture(&self, pat: proc_macro2::TokenStream, tail: &[Stmt]) -> R<()> {
        // names bound by a pattern (over-approximated by its lower-case identifiers before `=`)
        let mut names = BTreeSet::new();
        fn go(t: proc_macro2::TokenStream, n: &mut BTreeSet<String>, pat: bool) {
            let mut prev_let = pat;
            let mut done = false;
            for x in t {
                match x {
                    proc_macro2::TokenTree::Ident(i) => {
                        let s = i.to_string();
                        if s == "let" {
                            prev_let = true;
                            done = false;
                        } else if prev_let && !done && s.chars().next().unwrap().is_lowercase() && s != "ref" && s != "mut" {
                            n.insert(s);
                        }
                    }
                    proc_macro2::TokenTree::Punct(p) if p.as_char() == '=' => done = true,
                    proc_macro2::TokenTree::Group(g) if prev_let && !done => go(g.stream(), n, true),
                    _ => (),
                }
            }
        }
        let is_let = pat.clone().into_iter().next().map(|t| t.to_string() == "let").unwrap_or(false);
        let has_let = pat.to_string().contains("let ");
        if is_let || has_let {
            go(pat, &mut names, false);
        } else {
            go(pat, &mut names, true);
        }
        if tail.iter().any(|s| mentions(s.to_token_stream(), &names)) {
            // the names may equally be rebound in the tail; refuse rather than guess
            return Err("early exit under a pattern whose names the rest uses".into());
        }
        Ok(())
    }

    /// evaluate e (which exits early somewhere), hand its value to `sink`, then `tail`
    fn bind(&mut self, e: &Expr, sink: &dyn Fn(&Expr) -> Vec<Stmt>, tail: &[Stmt]) -> R<Expr> {
        self.dup += 1;
        if self.dup > 40 {
            return Err("too many early exits".into());
        }
        if !exits_e(e) {
            let s = sink(e);
            let all: Vec<Stmt> = s.into_iter().chain(tail.iter().cloned()).collect();
            let b = self.stmts(&all, &[], false)?;
            return Ok(parse_quote!({ #(#b)* }));
        }
        match e {
            Expr::Return(_) => self.tail(e),
            Expr::Paren(p) => self.bind(&p.expr, sink, tail),
            Expr::Block(b) if b.label.is_none() => {
                let ss = &b.block.stmts;
                match ss.last() {
                    Some(Stmt::Expr(v, None)) if !ss[..ss.len() - 1].iter().any(exits_s) => {
                        let mut bi = Binds(BTreeSet::new());
                        for s in ss {
                            bi.visit_stmt(s);
                        }
                        if tail.iter().any(|s| mentions(s.to_token_stream(), &bi.0)) {
                            return Err("early exit in a block whose bindings would be captured".into());
                        }
                        let pre = &ss[..ss.len() - 1];
                        let r = self.bind(v, sink, tail)?;
                        Ok(parse_quote!({ #(#pre)* #r }))
                    }
                    _ if diverges(ss) => self.block_expr(ss),
                    _ => Err("early exit inside a block value".into()),
                }
            }
            Expr::If(i) if !exits_e(&i.cond) && i.else_branch.is_some() => {
                let c = &i.cond;
                let tb: Expr = {
                    let b = &i.then_branch;
                    parse_quote!(#b)
                };
                let t = if div_e(&tb) {
                    self.tail(&tb)?
                } else {
                    self.capture(c.to_token_stream(), tail)?;
                    self.bind(&tb, sink, tail)?
                };
                let el = &i.else_branch.as_ref().unwrap().1;
                let el = if div_e(el) { self.tail(el)? } else { self.bind(el, sink, tail)? };
                Ok(parse_quote!(if #c { #t } else { #el }))
            }
            Expr::Match(m) if !exits_e(&m.expr) => {
                let mut m2 = m.clone();
                let live = m.arms.iter().filter(|a| !div_e(&a.body)).count();
                if live > 1 && tail.len() > 12 {
                    return Err("early exit in a match value with a long rest".into());
                }
                for a in m2.arms.iter_mut() {
                    let b: Expr = if div_e(&a.body) {
                        self.tail(&a.body)?
                    } else {
                        // `let x = match e { Some(x) => x, .. }`: the arm's name may be the bound one
                        let v = (*a.body).clone();
                        let t = self.fresh();
                        let direct = a.pat.to_token_stream().to_string();
                        let _ = direct;
                        let inner = self.capture(a.pat.to_token_stream(), tail);
                        if inner.is_err() {
                            // allowed when `sink` rebinds exactly the names the tail uses
                            let s = sink(&parse_quote!(#t));
                            let mut bi = Binds(BTreeSet::new());
                            for x in &s {
                                bi.visit_stmt(x);
                            }
                            let mut pn = Binds(BTreeSet::new());
                            pn.visit_pat(&a.pat);
                            if !pn.0.is_subset(&bi.0) {
                                return Err("early exit under a pattern whose names the rest uses".into());
                            }
                        }
                        self.bind(&v, sink, tail)?
                    };
                    a.body = Box::new(parse_quote!({ #b }));
                    a.comma = Some(Default::default());
                }
                Ok(Expr::Match(m2))
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => Err("early exit out of a loop".into()),
            _ => {
                // hoist the `?` that is evaluated first
                let mut e2 = e.clone();
                let t = self.fresh();
                let inner = hoist(&mut e2, &t).ok_or_else(|| format!("early exit in {}", e.to_token_stream()))?;
                let tv: Expr = parse_quote!(#t);
                let body = {
                    if exits_e(&e2) {
                        self.bind(&e2, sink, tail)?
                    } else {
                        let s = sink(&e2);
                        let all: Vec<Stmt> = s.into_iter().chain(tail.iter().cloned()).collect();
                        let b = self.stmts(&all, &[], false)?;
                        parse_quote!({ #(#b)* })
                    }
                };
                let _ = tv;
                if exits_e(&inner) {
                    return Err("nested early exit".into());
                }
                let m: Expr = if self.option {
                    parse_quote!(match #inner { Some(#t) => { #body } None => None })
                } else {
                    parse_quote!(match #inner { Ok(#t) => { #body } Err(__e) => Err(__e) })
                };
                Ok(m)
            }
        }
    }
}

fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure(&f.base),
        Expr::Reference(r) => pure(&r.expr),
        Expr::Paren(p) => pure(&p.expr),
        Expr::MethodCall(m) => m.method == "clone" && pure(&m.receiver),
        _ => false,
    }
}

/// replace the first-evaluated `X?` in e by `t`, returning X
fn hoist(e: &mut Expr, t: &Ident) -> Option<Expr> {
    match e {
        Expr::Try(x) => {
            if exits_e(&x.expr) {
                return hoist(&mut x.expr, t);
            }
            let i = (*x.expr).clone();
            *e = parse_quote!(#t);
            Some(i)
        }
        Expr::MethodCall(m) => {
            if exits_e(&m.receiver) {
                return hoist(&mut m.receiver, t);
            }
            if !pure(&m.receiver) {
                return None;
            }
            for a in m.args.iter_mut() {
                if exits_e(a) {
                    return hoist(a, t);
                }
                if !pure(a) {
                    return None;
                }
            }
            None
        }
        Expr::Call(c) => {
            for a in c.args.iter_mut() {
                if exits_e(a) {
                    return hoist(a, t);
                }
                if !pure(a) {
                    return None;
                }
            }
            None
        }
        Expr::Paren(p) => hoist(&mut p.expr, t),
        Expr::Await(p) => hoist(&mut p.base, t),
        Expr::Field(p) => hoist(&mut p.base, t),
        Expr::Unary(p) => hoist(&mut p.expr, t),
        Expr::Reference(p) => hoist(&mut p.expr, t),
        Expr::Cast(p) => hoist(&mut p.expr, t),
        Expr::Assign(a) => hoist(&mut a.right, t),
        Expr::Tuple(x) => {
            for a in x.elems.iter_mut() {
                if exits_e(a) {
                    return hoist(a, t);
                }
                if !pure(a) {
                    return None;
                }
            }
            None
        }
        Expr::Struct(x) => {
            for a in x.fields.iter_mut() {
                if exits_e(&a.expr) {
                    return hoist(&mut a.expr, t);
                }
                if !pure(&a.expr) {
                    return None;
                }
            }
            None
        }
        Expr::Binary(b) => {
            if exits_e(&b.left) {
                return hoist(&mut b.left, t);
            }
            if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) || !pure(&b.left) {
                return None;
            }
            hoist(&mut b.right, t)
        }
        _ => None,
    }
}

struct StripLog;
impl VisitMut for StripLog {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !crate::rewrite::is_log(&m.mac),
            Stmt::Expr(Expr::Macro(m), Some(_)) => !crate::rewrite::is_log(&m.mac),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
}

/// None: no early exits. Some(Ok(b)): the lowered block.
pub fn lower(b: &Block, option: bool, unit: bool) -> R<Block> {
    if !exits(b) {
        return Ok(b.clone());
    }
    let mut d = De { n: 0, option, dup: 0 };
    let mut b = b.clone();
    StripLog.visit_block_mut(&mut b);
    let mut ss = b.stmts.clone();
    if unit {
        // a unit body: make the tail value explicit
        if let Some(Stmt::Expr(e, semi)) = ss.last_mut() {
            if semi.is_none() && !matches!(e, Expr::Return(_)) {
                *semi = Some(Default::default());
            }
        }
        ss.push(Stmt::Expr(parse_quote!(()), None));
    }
    let out = d.stmts(&ss, &[], false)?;
    parse2(quote!({ #(#out)* })).map_err(|e| e.to_string())
}
