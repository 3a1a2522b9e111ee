//! Mechanical extraction of /repo/src into one Verus file.
//! See DESIGN.md ("Extraction") for the complete list of what is dropped or rewritten.
mod contracts;
mod inline;
mod lexer;
mod print;
mod rewrite;

use contracts::Contracts;
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::*;

pub struct Cx {
    pub features: BTreeSet<String>,
    pub lits: Vec<String>,
    pub str_consts: BTreeSet<String>,
    pub arr_consts: BTreeMap<String, Vec<String>>,
    pub contracts: Contracts,
    pub module: String,
    pub hoisted: Vec<String>,
    pub out: String,
    pub fns: Vec<FnMeta>,
    pub errors: Vec<String>,
    /// contract parts that no longer have a place in the code
    pub soft: Vec<String>,
    pub mentions: Vec<String>,
}
#[derive(Default, Clone)]
pub struct FnMeta {
    pub path: String,
    pub mode: String, // contract | verified | trusted
    pub start: usize,
    pub end: usize,
    pub loops: usize,
    pub hash: u64,
    pub calls: BTreeSet<String>,
    pub locals: Vec<String>,
}

pub fn lit_id(cx: &mut Cx, s: &str) -> usize {
    if let Some(i) = cx.lits.iter().position(|x| x == s) {
        return i;
    }
    cx.lits.push(s.to_string());
    cx.lits.len() - 1
}

fn cfg_ok(cx: &Cx, attrs: &[Attribute]) -> bool {
    fn eval(cx: &Cx, m: &Meta) -> bool {
        match m {
            Meta::Path(p) => {
                if p.is_ident("test") {
                    false
                } else {
                    false
                }
            }
            Meta::NameValue(nv) => {
                if nv.path.is_ident("feature") {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                        return cx.features.contains(&s.value());
                    }
                }
                false
            }
            Meta::List(l) => {
                let inner: Vec<Meta> = l
                    .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect())
                    .unwrap_or_default();
                if l.path.is_ident("not") {
                    !inner.iter().any(|m| eval(cx, m))
                } else if l.path.is_ident("all") {
                    inner.iter().all(|m| eval(cx, m))
                } else {
                    inner.iter().any(|m| eval(cx, m))
                }
            }
        }
    }
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            match a.parse_args::<Meta>() {
                Ok(m) => eval(cx, &m),
                Err(_) => true,
            }
        } else {
            true
        }
    })
}

fn has_derive(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive") && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == what)
    })
}

pub fn ty_name(t: &impl ToTokens) -> String {
    // drop lifetimes, spaces
    let mut s = String::new();
    fn go(ts: TokenStream, s: &mut String) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Punct(p) if p.as_char() == '\'' => {
                    i += 2;
                    // swallow a following comma or empty <>
                    if let Some(TokenTree::Punct(p)) = v.get(i) {
                        if p.as_char() == ',' {
                            i += 1;
                        }
                    }
                    continue;
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    s.push_str(a);
                    go(g.stream(), s);
                    s.push_str(b);
                }
                t => s.push_str(&t.to_string()),
            }
            i += 1;
        }
    }
    go(t.to_token_stream(), &mut s);
    s.replace("<>", "").replace("crate::", "").replace("fmt::", "")
}

fn emit(cx: &mut Cx, s: &str) {
    cx.out.push_str(s);
    if !s.ends_with('\n') {
        cx.out.push('\n');
    }
}
fn line(cx: &Cx) -> usize {
    cx.out.matches('\n').count() + 1
}

fn strip_fields(cx: &Cx, fields: &mut Fields) {
    let keep = |f: &Field| cfg_ok(cx, &f.attrs);
    match fields {
        Fields::Named(n) => {
            let v: Vec<Field> = n.named.iter().filter(|f| keep(f)).cloned().collect();
            n.named = v
                .into_iter()
                .map(|mut f| {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                    f
                })
                .collect();
        }
        Fields::Unnamed(n) => {
            for f in n.unnamed.iter_mut() {
                f.attrs.clear();
            }
        }
        _ => {}
    }
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

struct CallCollect(BTreeSet<String>, Vec<String>);
impl<'a> syn::visit::Visit<'a> for CallCollect {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.0.insert(c.method.to_string());
        syn::visit::visit_expr_method_call(self, c);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.1.push(p.ident.to_string());
    }
}

/// Emit one function. `path` is the contract key.
fn do_fn(cx: &mut Cx, path: &str, sig: &Signature, vis: &str, body: Option<&Block>, in_trait_impl: bool) {
    let c = cx.contracts.get_fn(path);
    if c.skip {
        return;
    }
    let mut sig = sig.clone();
    sig.constness = None;
    let mut mut_self = false;
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            mut_self = true;
        }
    }
    // fix paths in signature
    rewrite::fix_sig(cx, &mut sig);
    let mut meta = FnMeta { path: path.to_string(), ..Default::default() };
    let mut spec = String::new();
    for l in &c.spec {
        spec.push_str(l);
        spec.push('\n');
    }
    let ret = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some((**t).clone()),
    };
    sig.output = ReturnType::Default;
    let mut head = String::new();
    if c.trusted {
        head.push_str("#[verifier::external_body]\n");
    } else if body.is_some() {
        // one solver process per function, so that no proof depends on its neighbours
        head.push_str("#[verifier::spinoff_prover]\n");
    }
    for a in &c.attrs {
        head.push_str(a);
        head.push('\n');
    }
    let mut wherec = String::new();
    if let Some(w) = sig.generics.where_clause.take() {
        wherec = print::tokens(w.to_token_stream(), &c);
    }
    write!(head, "{}{}", vis, print::tokens(sig.to_token_stream(), &c)).unwrap();
    if let Some(t) = &ret {
        write!(head, " -> (r: {})", print::tokens(t.to_token_stream(), &c)).unwrap();
    }
    head.push_str(&wherec);
    let start = line(cx);
    emit(cx, &format!("// @FN {}", path));
    emit(cx, &head);
    emit(cx, &spec);
    match body {
        None => emit(cx, ";"),
        Some(b) => {
            if c.trusted {
                emit(cx, "{ unimplemented!() }");
                meta.mode = "trusted".into();
                meta.hash = fnv(&b.to_token_stream().to_string());
            } else {
                let mut cc = CallCollect(Default::default(), vec![]);
                syn::visit::Visit::visit_block(&mut cc, b);
                meta.calls = cc.0;
                meta.locals = cc.1;
                let mut b = b.clone();
                if mut_self {
                    struct S;
                    impl syn::visit_mut::VisitMut for S {
                        fn visit_ident_mut(&mut self, i: &mut Ident) {
                            if i == "self" {
                                *i = quote::format_ident!("__self");
                            }
                        }
                    }
                    syn::visit_mut::VisitMut::visit_block_mut(&mut S, &mut b);
                    b.stmts.insert(0, parse_quote!(let mut __self = self;));
                }
                let loops = rewrite::rewrite_body(cx, &mut b, &c, path);
                meta.loops = loops;
                meta.hash = fnv(&b.to_token_stream().to_string());
                if loops < c.loops.len() {
                    cx.soft.push(format!("{}: contract has {} loop specs, code has {} loops", path, c.loops.len(), loops));
                }
                let text = print::tokens(b.to_token_stream(), &c);
                // which definitions and lemmas the solver sees in this function
                let mut open = String::from("{ ");
                for h in &c.hides {
                    write!(open, "hide({}); ", h).unwrap();
                }
                open.push_str(&print::broadcast(&c));
                // the verifier must see the definitions of this impl before the function
                if in_trait_impl {
                    for m in &cx.mentions {
                        write!(open, " proof {{ let _ = {}; }}", m).unwrap();
                    }
                }
                emit(cx, &text.replacen('{', &open, 1));
                meta.mode = if c.present || in_trait_impl { "contract".into() } else { "verified".into() };
            }
        }
    }
    meta.start = start;
    meta.end = line(cx) - 1;
    emit(cx, &format!("// @END {}", path));
    if body.is_some() {
        cx.fns.push(meta);
    }
}

/// A use of each spec function that an impl defines, with arbitrary arguments.
fn mentions(extra: &str) -> Vec<String> {
    let mut r = vec![];
    for l in extra.lines() {
        let t = l.trim();
        if let Some(p) = t.strip_prefix("open spec fn ") {
            let (name, rest) = p.split_once('(').unwrap();
            // the parameters: commas at nesting depth 0
            let mut depth = 0i32;
            let mut ps = vec![String::new()];
            for c in rest.chars() {
                match c {
                    '(' | '<' | '[' => depth += 1,
                    ')' if depth == 0 => break,
                    ')' | '>' | ']' => depth -= 1,
                    ',' if depth == 0 => {
                        ps.push(String::new());
                        continue;
                    }
                    _ => {}
                }
                ps.last_mut().unwrap().push(c);
            }
            let args: Vec<String> = ps
                .iter()
                .filter(|p| !p.trim().is_empty())
                .map(|p| match p.split_once(':') {
                    Some((_, t)) => format!("vstd::pervasive::arbitrary::<{}>()", t.trim()),
                    None => "vstd::pervasive::arbitrary()".into(),
                })
                .collect();
            let args = args.join(", ");
            r.push(format!("Self::{}({})", name.trim(), args));
        }
    }
    r
}

fn do_impl(cx: &mut Cx, im: &ItemImpl) {
    let mut im = im.clone();
    im.attrs.clear();
    let self_name = ty_name(&im.self_ty);
    let trait_name = im.trait_.as_ref().map(|(_, p, _)| ty_name(p));
    let key = match &trait_name {
        Some(t) => format!("{}::<{} as {}>", cx.module, self_name, t),
        None => format!("{}::{}", cx.module, self_name),
    };
    let key = key.trim_start_matches("lib::").to_string();
    if cx.contracts.skip_impl(&key) {
        return;
    }
    let mut head = String::from("impl");
    rewrite::fix_generics(cx, &mut im.generics);
    let c0 = contracts::FnContract::default();
    let (ig, _, wc) = im.generics.split_for_impl();
    head.push_str(&print::tokens(ig.to_token_stream(), &c0));
    if let Some((_, p, _)) = &im.trait_ {
        let mut p = p.clone();
        rewrite::fix_path(cx, &mut p);
        write!(head, " {} for", print::tokens(p.to_token_stream(), &c0)).unwrap();
    }
    let mut st = (*im.self_ty).clone();
    rewrite::fix_type(cx, &mut st);
    write!(head, " {} {}", print::tokens(st.to_token_stream(), &c0), print::tokens(wc.to_token_stream(), &c0)).unwrap();
    emit(cx, &format!("{} {{", head));
    cx.mentions.clear();
    if let Some(extra) = cx.contracts.impl_extra(&key) {
        if trait_name.is_some() {
            cx.mentions = mentions(&extra);
        }
        emit(cx, &extra);
    }
    for it in &im.items {
        match it {
            ImplItem::Fn(f) => {
                if !cfg_ok(cx, &f.attrs) {
                    continue;
                }
                let vis = if trait_name.is_some() { "" } else { "pub " };
                let mut sig = f.sig.clone();
                if trait_name.as_ref().map_or(false, |t| t.starts_with("From<") || t.starts_with("TryFrom<")) {
                    sig.ident = quote::format_ident!("vx_{}", sig.ident);
                }
                do_fn(cx, &format!("{}::{}", key, f.sig.ident), &sig, vis, Some(&f.block), trait_name.is_some());
            }
            ImplItem::Type(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                rewrite::fix_type(cx, &mut t.ty);
                emit(cx, &print::tokens(t.to_token_stream(), &c0));
            }
            other => {
                cx.errors.push(format!("{}: unsupported impl item {}", key, other.to_token_stream()));
            }
        }
    }
    emit(cx, "}");
}

fn use_paths(cx: &mut Cx, u: &ItemUse) -> String {
    let mut u = u.clone();
    u.attrs.clear();
    u.vis = parse_quote!(pub);
    let t = rewrite::fix_use_tree(&u.tree);
    u.tree = t;
    let _ = cx;
    u.to_token_stream().to_string()
}

fn expand_macro(defs: &BTreeMap<String, TokenStream>, m: &Macro) -> Option<Vec<Item>> {
    let name = m.path.get_ident()?.to_string();
    let def = defs.get(&name)?.clone();
    // one arm: ( $x : frag ) => { body }
    let v: Vec<TokenTree> = def.into_iter().collect();
    let (pat, body) = match (&v.first()?, v.iter().rev().find(|t| matches!(t, TokenTree::Group(_)))?) {
        (TokenTree::Group(p), TokenTree::Group(b)) => (p.stream(), b.stream()),
        _ => return None,
    };
    let pv: Vec<TokenTree> = pat.into_iter().collect();
    let var = pv.get(1)?.to_string();
    fn subst(ts: TokenStream, var: &str, with: &TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            if let TokenTree::Punct(p) = &v[i] {
                if p.as_char() == '$' {
                    if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                        if id == var {
                            out.extend(with.clone());
                            i += 2;
                            continue;
                        }
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let mut ng = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), var, with));
                    ng.set_span(g.span());
                    out.extend([TokenTree::Group(ng)]);
                }
                t => out.extend([t.clone()]),
            }
            i += 1;
        }
        out
    }
    let ts = subst(body, &var, &m.tokens);
    let f: File = syn::parse2(ts).ok()?;
    Some(f.items)
}

fn do_items(cx: &mut Cx, items: &[Item], defs: &mut BTreeMap<String, TokenStream>) {
    let c0 = contracts::FnContract::default();
    for it in items {
        match it {
            Item::Use(u) => {
                let ts = u.tree.to_token_stream().to_string();
                if cx.module == "lib" && ts == "time" || ts.starts_with("thiserror ::") {
                    continue;
                }
                if cfg_ok(cx, &u.attrs) {
                    let s = use_paths(cx, u);
                    emit(cx, &s);
                }
            }
            Item::Mod(_) => {}
            Item::Const(c) => {
                if !cfg_ok(cx, &c.attrs) {
                    continue;
                }
                let name = c.ident.to_string();
                if cx.str_consts.contains(&name) {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr {
                        let id = lit_id(cx, &s.value());
                        let vis = if matches!(c.vis, Visibility::Inherited) { "" } else { "pub " };
                        emit(cx, &format!("{vis}exec const {n}: &'static str ensures {n}@ == crate::lits::l_{id}(), crate::sh::code({n}@) == {id} {{ crate::lits::lit_{id}() }}", n = name));
                    }
                } else if cx.arr_consts.contains_key(&name) {
                } else {
                    cx.errors.push(format!("{}: unsupported const {}", cx.module, name));
                }
            }
            Item::Struct(s) => {
                if !cfg_ok(cx, &s.attrs) {
                    continue;
                }
                let dflt = has_derive(&s.attrs, "Default");
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                strip_fields(cx, &mut s.fields);
                if let Fields::Unnamed(n) = &mut s.fields {
                    for f in n.unnamed.iter_mut() {
                        f.vis = parse_quote!(pub);
                    }
                }
                for f in s.fields.iter_mut() {
                    rewrite::fix_type(cx, &mut f.ty);
                }
                emit(cx, &print::tokens(s.to_token_stream(), &c0));
                if dflt {
                    let mut ens = String::new();
                    let mut body = String::new();
                    for f in &s.fields {
                        let n = f.ident.as_ref().unwrap();
                        let t = f.ty.to_token_stream().to_string();
                        if t.starts_with("Vec ") {
                            write!(ens, "r.{}@ == Seq::<_>::empty(), ", n).unwrap();
                            write!(body, "{}: Vec::new(), ", n).unwrap();
                        } else if t.starts_with("Option ") {
                            write!(ens, "r.{} is None, ", n).unwrap();
                            write!(body, "{}: None, ", n).unwrap();
                        } else {
                            cx.errors.push(format!("derive(Default) on {}: field type {}", s.ident, t));
                        }
                    }
                    emit(cx, &format!("impl {id} {{ pub fn default() -> (r: Self) ensures {ens} {{ {id} {{ {body} }} }} }}", id = s.ident));
                }
            }
            Item::Enum(e) => {
                if !cfg_ok(cx, &e.attrs) {
                    continue;
                }
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = parse_quote!(pub);
                let is_err = e.ident == "Error" && cx.module == "error";
                let mut froms = vec![];
                let vars: Vec<Variant> = e.variants.iter().filter(|v| cfg_ok(cx, &v.attrs)).cloned().collect();
                let mut nv = punctuated::Punctuated::new();
                for mut v in vars {
                    v.attrs.clear();
                    if is_err {
                        for f in v.fields.iter() {
                            if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                                let mut t = f.ty.clone();
                                rewrite::fix_type(cx, &mut t);
                                froms.push((v.ident.clone(), t));
                            }
                        }
                    }
                    strip_fields(cx, &mut v.fields);
                    for f in v.fields.iter_mut() {
                        f.vis = Visibility::Inherited;
                        rewrite::fix_type(cx, &mut f.ty);
                    }
                    nv.push(v);
                }
                e.variants = nv;
                emit(cx, &print::tokens(e.to_token_stream(), &c0));
                for (v, t) in froms {
                    let t = print::tokens(t.to_token_stream(), &c0);
                    emit(cx, &format!("impl vstd::std_specs::convert::FromSpecImpl<{t}> for Error {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(e: {t}) -> Self {{ Error::{v}(e) }} }}"));
                    emit(cx, &format!("impl core::convert::From<{t}> for Error {{ fn from(e: {t}) -> (r: Self) {{ Error::{v}(e) }} }}"));
                    emit(cx, &format!("impl crate::sh::From<{t}> for Error {{ open spec fn from_post(e: {t}, r: Self) -> bool {{ r == Error::{v}(e) }} fn vx_from(e: {t}) -> (r: Self) {{ Error::{v}(e) }} }}"));
                }
            }
            Item::Type(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                rewrite::fix_type(cx, &mut t.ty);
                emit(cx, &print::tokens(t.to_token_stream(), &c0));
            }
            Item::Trait(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                let key = format!("{}::{}", cx.module, t.ident);
                let sup = t.supertraits.to_token_stream();
                emit(cx, &format!("pub trait {}{} {{", t.ident, if sup.is_empty() { String::new() } else { format!(": {}", sup) }));
                if let Some(extra) = cx.contracts.impl_extra(&key) {
                    emit(cx, &extra);
                }
                for i in &mut t.items {
                    if let TraitItem::Fn(f) = i {
                        cx.mentions.clear();
                        do_fn(cx, &format!("{}::{}", key, f.sig.ident), &f.sig, "", f.default.as_ref(), true);
                    }
                }
                emit(cx, "}");
            }
            Item::Impl(i) => {
                if cfg_ok(cx, &i.attrs) {
                    do_impl(cx, i)
                }
            }
            Item::Fn(f) => {
                if cfg_ok(cx, &f.attrs) {
                    let path = if cx.module == "lib" { f.sig.ident.to_string() } else { format!("{}::{}", cx.module, f.sig.ident) };
                    do_fn(cx, &path, &f.sig, "pub ", Some(&f.block), false)
                }
            }
            Item::Macro(m) => {
                if let Some(id) = &m.ident {
                    defs.insert(id.to_string(), m.mac.tokens.clone());
                } else if let Some(items) = expand_macro(defs, &m.mac) {
                    do_items(cx, &items, defs);
                } else {
                    cx.errors.push(format!("{}: cannot expand macro {}", cx.module, m.mac.path.to_token_stream()));
                }
            }
            other => cx.errors.push(format!("{}: unsupported item {}", cx.module, other.to_token_stream().to_string().chars().take(60).collect::<String>())),
        }
    }
    let _ = quote!();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (src, cdir, out) = (&args[1], &args[2], &args[3]);
    let features: BTreeSet<String> = args.get(4).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut contracts = Contracts::load(cdir);
    // functions taken out of the proof for this run (one "trust PATH" or "bare PATH" per line)
    if let Some(f) = args.get(5) {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
            if let Some((w, p)) = l.split_once(' ') {
                // other annotations for the same contract: see bin/check.py
                if w == "flat" {
                    contracts.fns.entry(p.to_string()).or_default().attrs.push("#[verifier::loop_isolation(false)]".into());
                    continue;
                }
                if let Some(k) = w.strip_prefix("alt") {
                    contracts.use_alt(p, k.parse().unwrap());
                    continue;
                }
                let e = contracts.fns.entry(p.to_string()).or_default();
                if w == "bare" {
                    *e = contracts::FnContract { present: true, ..Default::default() };
                }
                e.trusted = true;
            }
        }
    }
    let mut cx = Cx {
        features,
        lits: vec![],
        str_consts: Default::default(),
        arr_consts: Default::default(),
        contracts,
        module: String::new(),
        hoisted: vec![],
        out: String::new(),
        fns: vec![],
        mentions: vec![], errors: vec![], soft: vec![],
    };
    for l in cx.contracts.lits.clone() {
        lit_id(&mut cx, &l);
    }
    // which modules: from lib.rs
    let lib = parse_file(&std::fs::read_to_string(format!("{}/lib.rs", src)).expect("lib.rs")).expect("parse lib.rs");
    let mut mods = vec![];
    for it in &lib.items {
        if let Item::Mod(m) = it {
            if cfg_ok(&cx, &m.attrs) && m.content.is_none() {
                mods.push(m.ident.to_string());
            }
        }
    }
    let mut files = vec![];
    for m in &mods {
        let p = format!("{}/{}.rs", src, m);
        let p = if std::path::Path::new(&p).exists() { p } else { format!("{}/{}/mod.rs", src, m) };
        let text = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {}", p, e));
        files.push((m.clone(), parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", p, e))));
    }
    files.push(("lib".into(), lib));
    // the lexer, from the code the derive macro generates
    let token = files.iter().flat_map(|(_, f)| &f.items).find_map(|i| match i {
        Item::Enum(e) if e.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Logos")) => Some(e.clone()),
        _ => None,
    });
    let lexed = token.map_or(Err("no Logos enum".to_string()), |e| lexer::run(&e));
    let lexfile = format!("{}_lex.rs", out.trim_end_matches(".rs"));
    let _ = std::fs::remove_file(&lexfile);
    let lexer = match &lexed {
        Ok(l) => {
            std::fs::write(&lexfile, lexer::crate_text(cdir, &l.text)).unwrap();
            format!("{{\"states\": {}, \"error\": \"\"}}", l.states)
        }
        Err(e) => format!("{{\"states\": 0, \"error\": \"{}\"}}", e.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")),
    };
    let (expanded, expanded_in) = inline::run(&mut files, &cx.contracts, &|a: &[Attribute]| cfg_ok(&cx, a));
    // collect consts
    for (_, f) in &files {
        for it in &f.items {
            if let Item::Const(c) = it {
                match &*c.expr {
                    Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => {
                        cx.str_consts.insert(c.ident.to_string());
                    }
                    Expr::Array(a) => {
                        let v: Vec<String> = a
                            .elems
                            .iter()
                            .filter_map(|e| if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = e { Some(s.value()) } else { None })
                            .collect();
                        if v.len() == a.elems.len() {
                            cx.arr_consts.insert(c.ident.to_string(), v);
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    let prelude = std::fs::read_to_string(format!("{}/prelude.rs", cdir)).expect("prelude");
    let mut specs = String::new();
    let mut names: Vec<_> = std::fs::read_dir(cdir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.file_name().unwrap().to_string_lossy().starts_with("spec") && p.extension().map_or(false, |x| x == "rs")).collect();
    names.sort();
    let header = "#![allow(unused_imports, dead_code, non_camel_case_types, non_upper_case_globals, unused_variables, unused_mut, unreachable_code, unused_assignments, ambiguous_glob_reexports, private_interfaces, unused_parens, unused_braces, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n";
    emit(&mut cx, header);
    let prelude = contracts::subst_lits(&mut cx, &prelude);
    emit(&mut cx, &prelude);
    for n in names {
        let t = std::fs::read_to_string(&n).unwrap();
        specs.push_str(&contracts::subst_lits(&mut cx, &t));
    }
    let t = subst_all_contracts(&mut cx);
    let _ = t;
    emit(&mut cx, &specs);
    let mut defs = BTreeMap::new();
    for (m, f) in &files {
        cx.module = m.clone();
        cx.hoisted.clear();
        if m != "lib" {
            emit(&mut cx, &format!("pub mod {} {{", m));
        }
        emit(&mut cx, "use vstd::prelude::*; use crate::sh::pre::*; use crate::spec::*;");
        let mark = cx.out.len();
        do_items(&mut cx, &f.items, &mut defs);
        let h: BTreeSet<String> = cx.hoisted.drain(..).collect();
        let htxt: String = h.into_iter().collect::<Vec<_>>().join(" ");
        // keep line numbering stable: put hoisted uses on the marked line
        let htxt = htxt.replace('\n', " ");
        cx.out.insert_str(mark - 1, &format!(" {}", htxt));
        if let Some(extra) = cx.contracts.module_extra(m) {
            emit(&mut cx, &extra);
        }
        if m != "lib" {
            emit(&mut cx, "}");
        }
    }
    // literals
    emit(&mut cx, "pub mod lits { use vstd::prelude::*; use crate::sh::str;");
    let lits = cx.lits.clone();
    let mut ax = String::new();
    for (i, l) in lits.iter().enumerate() {
        let bytes: Vec<String> = l.bytes().map(|b| format!("{}u8", b)).collect();
        let seq = if bytes.is_empty() { "Seq::<u8>::empty()".to_string() } else { format!("seq![{}]", bytes.join(", ")) };
        let op = if l.len() > 2 { "#[verifier::opaque] " } else { "" };
        emit(&mut cx, &format!("{op}pub open spec fn l_{i}() -> Seq<u8> {{ {seq} }} // {:?}", l));
        emit(&mut cx, &format!("#[verifier::external_body] pub const fn lit_{i}() -> (r: &'static str) ensures r@ == l_{i}(), crate::sh::code(r@) == {i} {{ unsafe {{ core::mem::transmute::<&'static std::primitive::str, &'static str>({:?}) }} }}", l));
        write!(ax, "crate::sh::code(l_{i}()) == {i}, ").unwrap();
    }
    emit(&mut cx, &format!("#[verifier::external_body] pub proof fn ax_codes() ensures {} {{ unimplemented!() }}", ax));
    emit(&mut cx, "}");
    emit(&mut cx, "} // verus!\nfn main() {}");
    std::fs::write(out, &cx.out).unwrap();
    // unused contracts
    let used: BTreeSet<String> = cx.fns.iter().map(|f| f.path.clone()).collect();
    let mut lost: Vec<String> = vec![];
    for k in cx.contracts.fns.keys() {
        if !used.contains(k) && !cx.contracts.fns[k].skip && !cx.contracts.fns[k].decl {
            lost.push(k.clone());
        }
    }
    let mut js = String::from("{\n\"functions\": [\n");
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n");
    for (i, f) in cx.fns.iter().enumerate() {
        let calls: Vec<String> = f.calls.iter().map(|c| format!("\"{}\"", esc(c))).collect();
        let locals: Vec<String> = f.locals.iter().map(|c| format!("\"{}\"", esc(c))).collect();
        write!(js, "{}{{\"path\": \"{}\", \"mode\": \"{}\", \"start\": {}, \"end\": {}, \"loops\": {}, \"hash\": \"{:x}\", \"calls\": [{}], \"locals\": [{}]}}", if i > 0 { ",\n" } else { "" }, esc(&f.path), f.mode, f.start, f.end, f.loops, f.hash, calls.join(","), locals.join(",")).unwrap();
    }
    let q = |v: &Vec<String>| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",\n");
    write!(js, "\n],\n\"expanded\": [{}],\n\"expanded_in\": [{}],\n\"lost\": [{}],\n\"soft\": [{}],\n\"errors\": [{}]\n}}\n", q(&expanded), q(&expanded_in), q(&lost), q(&cx.soft), q(&cx.errors)).unwrap();
    let alts: Vec<String> = cx.contracts.alts.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v.len())).collect();
    let js = js.replacen('{', &format!("{{\n\"lexer\": {},\n\"alts\": {{{}}},", lexer, alts.join(", ")), 1);
    std::fs::write(format!("{}.meta.json", out), js).unwrap();
    if !cx.errors.is_empty() {
        for e in &cx.errors {
            eprintln!("extract: {}", e);
        }
    }
}

fn subst_all_contracts(cx: &mut Cx) {
    let mut fns = std::mem::take(&mut cx.contracts.fns);
    for c in fns.values_mut() {
        for s in c.spec.iter_mut() {
            *s = contracts::subst_lits(cx, s);
        }
        for l in c.loops.values_mut() {
            *l = contracts::subst_lits(cx, l);
        }
        for g in c.ghosts.iter_mut() {
            g.text = contracts::subst_lits(cx, &g.text);
        }
    }
    cx.contracts.fns = fns;
    let mut e = std::mem::take(&mut cx.contracts.impls);
    for v in e.values_mut() {
        *v = contracts::subst_lits(cx, v);
    }
    cx.contracts.impls = e;
    let mut e = std::mem::take(&mut cx.contracts.modules);
    for v in e.values_mut() {
        *v = contracts::subst_lits(cx, v);
    }
    cx.contracts.modules = e;
}
