//! Inlining of small helper functions that carry no contract of their own.
use crate::FnRec;
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Ret(bool);
impl<'x> Visit<'x> for Ret {
    fn visit_expr_return(&mut self, _: &'x ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'x ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
}

struct SelfSub<'a>(&'a Expr);
impl<'a> VisitMut for SelfSub<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, _m: &mut Macro) {}
}

struct Inl<'a> {
    helpers: &'a BTreeMap<String, Vec<FnRec>>,
    used: Vec<String>,
    errs: Vec<String>,
    depth: usize,
    self_ty: Option<String>,
    modp: String,
}

impl<'a> Inl<'a> {
    fn body(&mut self, h: &FnRec, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        let mut v = Ret(false);
        // a helper may end in `Ok(..)` but must not leave early
        v.visit_block(&h.block);
        let mut hb = h.block.clone();
        if v.0 {
            let (opt, unit) = match &h.sig.output {
                ReturnType::Default => (false, true),
                ReturnType::Type(_, t) => (crate::ty_name(t) == "Option", false),
            };
            match crate::dereturn::lower(&hb, opt, unit) {
                Ok(b) => hb = b,
                Err(e) => {
                    self.errs.push(format!("helper {} has no contract and cannot be inlined: {}", h.id, e));
                    return None;
                }
            }
        }
        let mut lets = vec![];
        let mut ai = args.into_iter();
        for (i, p) in h.sig.inputs.iter().enumerate() {
            match p {
                FnArg::Receiver(_) => (),
                FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let (pat, ty) = (&t.pat, &t.ty);
                    // evaluate into temporaries first, so that names do not capture
                    let tmp = Ident::new(&format!("__h{}_{}", self.depth, i), proc_macro2::Span::call_site());
                    let _ = ty;
                    lets.push((tmp, pat.clone(), a));
                }
            }
        }
        let mut b = hb;
        if let Some(r) = recv {
            SelfSub(r).visit_block_mut(&mut b);
        }
        let a1 = lets.iter().map(|(t, _, a)| quote!(let #t = #a;));
        let a2 = lets.iter().map(|(t, p, _)| quote!(let #p = #t;));
        self.used.push(h.id.clone());
        self.depth += 1;
        let e: Expr = parse2(quote!({ #(#a1)* #(#a2)* #b })).ok()?;
        Some(e)
    }
}

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}

impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.depth > 12 {
            return;
        }
        // strip a directly following await
        if let Expr::Await(a) = e {
            if let Expr::Block(_) = &*a.base {
                let b = (*a.base).clone();
                *e = b;
                return;
            }
        }
        let new = match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let is_self = m.receiver.to_token_stream().to_string() == "self";
                match self.helpers.get(&n) {
                    Some(hs) if is_self => {
                        let st = self.self_ty.clone();
                        let c: Vec<&FnRec> = hs
                            .iter()
                            .filter(|h| h.impl_self.as_ref().map(crate::ty_name) == st && h.sig.receiver().is_some())
                            .collect();
                        if c.len() == 1 {
                            let h = c[0].clone();
                            self.body(&h, None, m.args.iter().cloned().collect())
                        } else {
                            None
                        }
                    }
                    Some(hs) if hs.len() == 1 && hs[0].sig.receiver().is_some() && place(&m.receiver) => {
                        let h = hs[0].clone();
                        let r = (*m.receiver).clone();
                        self.body(&h, Some(&r), m.args.iter().cloned().collect())
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let segs = p.path.segments.len();
                    let owner = if segs > 1 { Some(p.path.segments[segs - 2].ident.to_string()) } else { None };
                    match self.helpers.get(&n) {
                        Some(hs) => {
                            let st = self.self_ty.clone();
                            let modp = self.modp.clone();
                            let c2: Vec<&FnRec> = hs
                                .iter()
                                .filter(|h| h.sig.receiver().is_none())
                                .filter(|h| match (&owner, h.impl_self.as_ref().map(crate::ty_name)) {
                                    (None, None) => h.id.starts_with(&modp),
                                    (Some(o), Some(t)) => *o == t || (o == "Self" && Some(t) == st),
                                    (Some(_), None) => true,
                                    _ => false,
                                })
                                .collect();
                            if c2.len() == 1 {
                                let h = c2[0].clone();
                                self.body(&h, None, c.args.iter().cloned().collect())
                            } else {
                                None
                            }
                        }
                        None => None,
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(mut n) = new {
            self.visit_expr_mut(&mut n);
            *e = n;
        }
    }
}

pub fn inline_helpers(f: &mut FnRec, helpers: &BTreeMap<String, Vec<FnRec>>, errs: &mut Vec<String>) -> Vec<String> {
    let modp = f.id.split("::").next().unwrap_or("").to_string();
    let mut v = Inl {
        helpers,
        used: vec![],
        errs: vec![],
        depth: 0,
        self_ty: f.impl_self.as_ref().map(crate::ty_name),
        modp,
    };
    let mut b = f.block.clone();
    v.visit_block_mut(&mut b);
    f.block = b;
    errs.append(&mut v.errs);
    v.used
}
