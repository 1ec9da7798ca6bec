//! vx: mechanical extraction of /repo functions into a form Verus accepts.
//! usage: vx CONFIG.json   (writes JSON on stdout)
//! The rewrites are listed in /verif/DESIGN.md ("What the extraction drops").
mod dereturn;
mod elim;
mod print;
mod rewrite;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use rewrite::{Ctx, Loop};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::*;

#[derive(Clone)]
pub struct FnRec {
    pub id: String,
    pub file: String,
    pub line: usize,
    pub impl_generics: String,
    pub impl_self: Option<Type>,
    pub impl_trait: Option<String>,
    pub impl_where: String,
    pub vis: String,
    pub sig: Signature,
    pub block: Block,
    pub name: String,
}

pub fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = a.meta.to_token_stream().to_string().replace(' ', "");
            s == "cfg(test)" || s == "cfg(overlord_verif)"
        }
    })
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => ty_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

/// Convert `select!` arms of a fn body into one fn per arm.
fn split_select(f: &FnRec, out: &mut Vec<FnRec>, errs: &mut Vec<String>) {
    struct V<'a>(Vec<&'a Macro>);
    impl<'a> Visit<'a> for V<'a> {
        fn visit_macro(&mut self, m: &'a Macro) {
            if m.path.segments.last().unwrap().ident == "select" {
                self.0.push(m);
            }
        }
    }
    let mut v = V(vec![]);
    v.visit_block(&f.block);
    for m in v.0 {
        let parser = |input: parse::ParseStream| -> Result<Vec<(Pat, Expr, Expr)>> {
            let mut r = vec![];
            while !input.is_empty() {
                let p = Pat::parse_multi(input)?;
                input.parse::<Token![=]>()?;
                let e: Expr = input.parse()?;
                input.parse::<Token![=>]>()?;
                let b: Expr = input.parse()?;
                let _ = input.parse::<Token![,]>();
                r.push((p, e, b));
            }
            Ok(r)
        };
        match parse::Parser::parse2(parser, m.tokens.clone()) {
            Ok(arms) => {
                for (p, e, b) in arms {
                    // name the arm after the channel it reads
                    let chan = match &e {
                        Expr::MethodCall(mc) => match &*mc.receiver {
                            Expr::Path(p) => p.path.to_token_stream().to_string(),
                            o => o.to_token_stream().to_string(),
                        },
                        o => o.to_token_stream().to_string(),
                    };
                    let mut body = b.clone();
                    rewrite::break_continue_to_return(&mut body);
                    let mut g = f.clone();
                    g.name = format!("{}_arm_{}", f.name, chan);
                    g.id = format!("{}_arm_{}", f.id, chan);
                    let nm = Ident::new(&g.name, proc_macro2::Span::call_site());
                    g.sig = parse2(quote! { fn #nm(&mut self, __recv: VxMsgOf) -> bool }).unwrap();
                    g.block = parse2(quote! { { let #p = __recv; #body ; false } }).unwrap();
                    out.push(g);
                }
            }
            Err(e) => errs.push(format!("select! in {}: {}", f.id, e)),
        }
    }
}

fn collect(
    file: &str,
    modp: &str,
    items: &[Item],
    fns: &mut Vec<FnRec>,
    types: &mut Vec<Value>,
    errs: &mut Vec<String>,
) {
    for it in items {
        match it {
            Item::Fn(f) if !is_cfg_test(&f.attrs) => {
                // items declared inside a function are taken as items of its module
                let mut f = f.clone();
                let (mut inner, mut rest) = (vec![], vec![]);
                for s in f.block.stmts.drain(..) {
                    match s {
                        Stmt::Item(i) if !matches!(i, Item::Use(_) | Item::Macro(_)) => inner.push(i),
                        s => rest.push(s),
                    }
                }
                f.block.stmts = rest;
                collect(file, modp, &inner, fns, types, errs);
                let r = FnRec {
                    id: format!("{}::{}", modp, f.sig.ident),
                    file: file.into(),
                    line: f.sig.ident.span().start().line,
                    impl_generics: String::new(),
                    impl_self: None,
                    impl_trait: None,
                    impl_where: String::new(),
                    vis: f.vis.to_token_stream().to_string(),
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    name: f.sig.ident.to_string(),
                };
                fns.push(r);
            }
            Item::Impl(im) if !is_cfg_test(&im.attrs) => {
                let sn = ty_name(&im.self_ty);
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if is_cfg_test(&f.attrs) {
                            continue;
                        }
                        let tr = im
                            .trait_
                            .as_ref()
                            .map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', ""));
                        let id = match &tr {
                            Some(t) => format!("{}::{}::<{}>::{}", modp, sn, t, f.sig.ident),
                            None => format!("{}::{}::{}", modp, sn, f.sig.ident),
                        };
                        let r = FnRec {
                            id,
                            file: file.into(),
                            line: f.sig.ident.span().start().line,
                            impl_generics: im.generics.params.to_token_stream().to_string(),
                            impl_self: Some((*im.self_ty).clone()),
                            impl_trait: tr,
                            impl_where: im
                                .generics
                                .where_clause
                                .as_ref()
                                .map(|w| w.predicates.to_token_stream().to_string())
                                .unwrap_or_default(),
                            vis: f.vis.to_token_stream().to_string(),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            name: f.sig.ident.to_string(),
                        };
                        split_select(&r, fns, errs);
                        fns.push(r);
                    }
                }
            }
            Item::Struct(s) if !is_cfg_test(&s.attrs) => {
                let mut s = s.clone();
                let derives = derives(&s.attrs);
                let serde = serde_attrs(&s.attrs);
                let fserde: Vec<Vec<String>> = s.fields.iter().map(|f| serde_attrs(&f.attrs)).collect();
                s.attrs.clear();
                rewrite::clean_generics(&mut s.generics);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                    rewrite::clean_type(&mut f.ty);
                }
                s.vis = parse_quote!(pub);
                types.push(json!({"kind":"struct","name":s.ident.to_string(),"mod":modp,"derives":derives,"serde":serde,"field_serde":fserde,
                    "generics": s.generics.params.to_token_stream().to_string(),
                    "fields": s.fields.iter().map(|f| json!([f.ident.as_ref().map(|i|i.to_string()), f.ty.to_token_stream().to_string()])).collect::<Vec<_>>(),
                    "text": print::pretty(s.to_token_stream())}));
            }
            Item::Enum(e) if !is_cfg_test(&e.attrs) => {
                let mut e = e.clone();
                let derives = derives(&e.attrs);
                let serde = serde_attrs(&e.attrs);
                let vserde: Vec<Vec<String>> = e
                    .variants
                    .iter()
                    .map(|v| serde_attrs(&v.attrs).into_iter().chain(v.fields.iter().flat_map(|f| serde_attrs(&f.attrs))).collect())
                    .collect();
                e.attrs.clear();
                e.vis = parse_quote!(pub);
                rewrite::clean_generics(&mut e.generics);
                e.variants = e
                    .variants
                    .into_iter()
                    .filter(|v| !is_cfg_test(&v.attrs))
                    .map(|mut v| {
                        v.attrs.clear();
                        for f in v.fields.iter_mut() {
                            f.attrs.clear();
                            rewrite::clean_type(&mut f.ty);
                        }
                        v
                    })
                    .collect();
                let vars: Vec<Value> = e
                    .variants
                    .iter()
                    .map(|v| json!([v.ident.to_string(), match v.fields { Fields::Unit => "unit", Fields::Named(_) => "named", Fields::Unnamed(_) => "tuple" }]))
                    .collect();
                types.push(json!({"kind":"enum","name":e.ident.to_string(),"mod":modp,"derives":derives,"serde":serde,"variant_serde":vserde,"variants":vars,
                    "variant_types": e.variants.iter().map(|v| v.fields.iter().map(|f| f.ty.to_token_stream().to_string()).collect::<Vec<_>>()).collect::<Vec<_>>(),
                    "generics": e.generics.params.to_token_stream().to_string(),
                    "text": print::pretty(e.to_token_stream())}));
            }
            Item::Const(c) if !is_cfg_test(&c.attrs) => {
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                types.push(json!({"kind":"const","name":c.ident.to_string(),"mod":modp,"text":c.to_token_stream().to_string()}));
            }
            Item::Type(t) if !is_cfg_test(&t.attrs) => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                types.push(json!({"kind":"type","name":t.ident.to_string(),"mod":modp,"text":t.to_token_stream().to_string()}));
            }
            Item::Mod(m) if !is_cfg_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    collect(file, &format!("{}::{}", modp, m.ident), its, fns, types, errs);
                }
            }
            _ => (),
        }
    }
}

fn serde_attrs(attrs: &[Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| a.path().is_ident("serde"))
        .map(|a| match &a.meta {
            Meta::List(l) => l.tokens.to_string(),
            m => m.to_token_stream().to_string(),
        })
        .collect()
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut r = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                r.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    r
}

struct Calls(BTreeSet<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.0.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            if n == "spawn" && !matches!(c.args.first(), Some(Expr::Async(_))) {
                self.0.insert("vx_await".into());
            }
            self.0.insert(n);
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_await(&mut self, a: &'a ExprAwait) {
        if matches!(&*a.base, Expr::Path(_)) {
            self.0.insert("vx_await".into());
        }
        visit::visit_expr_await(self, a);
    }
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

fn main() {
    let cfg: Value =
        serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap())
            .unwrap();
    let mut fns = vec![];
    let mut types = vec![];
    let mut errs: Vec<String> = vec![];
    for f in cfg["files"].as_array().unwrap() {
        let path = f["path"].as_str().unwrap();
        let src = match std::fs::read_to_string(path) {
            Ok(s) => s,
            Err(e) => {
                errs.push(format!("{}: {}", path, e));
                continue;
            }
        };
        match parse_file(&src) {
            Ok(file) => collect(
                path,
                f["mod"].as_str().unwrap(),
                &file.items,
                &mut fns,
                &mut types,
                &mut errs,
            ),
            Err(e) => errs.push(format!("{}: {}", path, e)),
        }
    }
    // which fns are wanted (have a contract); anything else they call by name is inlined
    let wanted: BTreeSet<String> = strs(&cfg["wanted"]).into_iter().collect();
    let no_inline: BTreeSet<String> = strs(&cfg["no_inline"]).into_iter().collect();
    let prims: BTreeSet<String> = strs(&cfg["effect_prims"]).into_iter().collect();
    let selfref: BTreeSet<String> = strs(&cfg["selfref"]).into_iter().collect();
    let renames: BTreeMap<String, String> = cfg["renames"]
        .as_object()
        .map(|o| {
            o.iter()
                .map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string()))
                .collect()
        })
        .unwrap_or_default();

    let wanted_names: BTreeSet<String> = fns
        .iter()
        .filter(|f| wanted.contains(&f.id))
        .map(|f| f.name.clone())
        .collect();
    let mut helpers: BTreeMap<String, Vec<FnRec>> = BTreeMap::new();
    for f in &fns {
        if !wanted.contains(&f.id) && !no_inline.contains(&f.name) && !wanted_names.contains(&f.name) && f.impl_trait.is_none() {
            helpers.entry(f.name.clone()).or_default().push(f.clone());
        }
    }
    let mut out = vec![];
    // inline first
    let mut done: Vec<(FnRec, Vec<String>, Vec<String>)> = vec![];
    for f in fns.iter().filter(|f| wanted.contains(&f.id)) {
        let mut f = f.clone();
        let mut e = vec![];
        let inl = elim::inline_helpers(&mut f, &helpers, &mut e);
        done.push((f, inl, e));
    }
    // effect fixpoint by name
    let mut eff = prims.clone();
    loop {
        let n = eff.len();
        for (f, _, _) in &done {
            let mut c = Calls(BTreeSet::new());
            c.visit_block(&f.block);
            struct T<'b>(&'b mut Calls);
            impl<'a, 'b> Visit<'a> for T<'b> {
                fn visit_macro(&mut self, _m: &'a Macro) {}
            }
            let _ = T(&mut c);
            if c.0.iter().any(|x| eff.contains(x)) {
                eff.insert(f.name.clone());
            }
        }
        if eff.len() == n {
            break;
        }
    }
    for (mut f, inl, mut e) in done {
        let is_eff = eff.contains(&f.name);
        let mut cx = Ctx::new(&eff, &renames);
        rewrite::rewrite_fn(&mut f, &mut cx);
        e.append(&mut cx.errs);
        let mut c = Calls(BTreeSet::new());
        c.visit_block(&f.block);
        for l in &cx.loops {
            for b in [&l.src, &l.body] {
                if let Ok(b) = parse2::<Block>(quote!({ #b })) {
                    c.visit_block(&b);
                }
            }
        }
        let mut selfk = String::new();
        let mut params: Vec<Value> = vec![];
        for a in f.sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    let s = r.to_token_stream().to_string().replace(' ', "");
                    selfk = match s.as_str() {
                        "self" => "self".into(),
                        "mutself" => "mut self".into(),
                        "&self" => "&self".into(),
                        "&mutself" => "&mut self".into(),
                        "mutself:Pin<&mutSelf>" => "&mut self".into(),
                        "self:Pin<&mutSelf>" => "&mut self".into(),
                        o => {
                            e.push(format!("receiver {}", o));
                            "&mut self".into()
                        }
                    };
                    if selfk == "&mut self" && selfref.contains(&f.id) {
                        selfk = "&self".into();
                    }
                }
                FnArg::Typed(t) => {
                    rewrite::clean_type(&mut t.ty);
                    params.push(json!([
                        t.pat.to_token_stream().to_string(),
                        t.ty.to_token_stream().to_string()
                    ]));
                }
            }
        }
        let ret = match &mut f.sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                rewrite::clean_type(t);
                t.to_token_stream().to_string()
            }
        };
        rewrite::clean_generics(&mut f.sig.generics);
        let tk = |t: TokenStream| print::pretty(t);
        let loops: Vec<Value> = cx
            .loops
            .iter()
            .map(|l: &Loop| json!({"kind": l.kind, "pat": l.pat.to_string(), "src": tk(l.src.clone()), "body": tk(l.body.clone())}))
            .collect();
        out.push(json!({
            "id": f.id, "name": f.name, "file": f.file, "line": f.line, "vis": f.vis,
            "impl_generics": f.impl_generics, "impl_where": f.impl_where,
            "impl_self": f.impl_self.as_ref().map(|t| t.to_token_stream().to_string()),
            "impl_trait": f.impl_trait,
            "generics": f.sig.generics.params.to_token_stream().to_string(),
            "where": f.sig.generics.where_clause.as_ref().map(|w| w.predicates.to_token_stream().to_string()),
            "self": selfk, "params": params, "ret": ret, "effect": is_eff,
            "body": tk(f.block.to_token_stream()), "loops": loops,
            "calls": c.0.iter().cloned().collect::<Vec<_>>(),
            "inlined": inl, "errors": e, "rules": cx.rules.into_iter().collect::<Vec<_>>(),
        }));
    }
    let all: Vec<Value> = fns.iter().map(|f| json!({"id": f.id, "line": f.line, "file": f.file})).collect();
    println!(
        "{}",
        serde_json::to_string_pretty(&json!({"fns": out, "types": types, "all": all, "errors": errs}))
            .unwrap()
    );
}
