//! Functions of /repo that no contract speaks about are expanded at their calls, so that their callers are
//! verified against what the code does. A call is left alone where the expansion would not mean the same.
use crate::contracts::Contracts;
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    sig: Signature,
    body: Block,
    method: bool,
    /// `?` or `return` remain in the body
    leaves: bool,
}

struct Leaves(bool, bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.0 = true;
        let err = matches!(r.expr.as_deref(), Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")));
        if !err {
            self.1 = true;
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.0 = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let t = m.tokens.to_string();
        if t.contains('?') || t.contains("return") {
            self.0 = true;
            self.1 = true;
        }
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// `if c { ..; return e; } rest` becomes `if c { ..; e } else { rest }`
fn structure(b: &Block) -> Block {
    let mut stmts: Vec<Stmt> = vec![];
    for (i, s) in b.stmts.iter().enumerate() {
        if let Stmt::Expr(Expr::If(x), semi) = s {
            if x.else_branch.is_none() && semi.is_none() && i + 1 < b.stmts.len() {
                if let Some(Stmt::Expr(Expr::Return(r), _)) = x.then_branch.stmts.last() {
                    let mut x = x.clone();
                    let v: Expr = match &r.expr {
                        Some(e) => (**e).clone(),
                        None => parse_quote!(()),
                    };
                    x.then_branch.stmts.pop();
                    x.then_branch.stmts.push(Stmt::Expr(v, None));
                    let rest = structure(&Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() });
                    x.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
                    stmts.push(Stmt::Expr(Expr::If(x), None));
                    return Block { brace_token: b.brace_token, stmts };
                }
            }
        }
        stmts.push(s.clone());
    }
    // a final `return e;`
    if let Some(Stmt::Expr(Expr::Return(r), _)) = stmts.last() {
        if let Some(e) = &r.expr {
            let e = (**e).clone();
            stmts.pop();
            stmts.push(Stmt::Expr(e, None));
        }
    }
    Block { brace_token: b.brace_token, stmts }
}

fn key(module: &str, ty: Option<&str>, name: &str) -> String {
    let p = match ty {
        Some(t) => format!("{}::{}::{}", module, t, name),
        None => format!("{}::{}", module, name),
    };
    p.trim_start_matches("lib::").to_string()
}

fn prepare(sig: &Signature, body: &Block) -> Option<Helper> {
    if sig.asyncness.is_some() || sig.unsafety.is_some() || sig.constness.is_some() {
        return None;
    }
    for a in &sig.inputs {
        match a {
            FnArg::Typed(t) => {
                if !matches!(&*t.pat, Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none()) {
                    return None;
                }
            }
            FnArg::Receiver(r) => {
                if r.colon_token.is_some() {
                    return None;
                }
            }
        }
    }
    let method = matches!(sig.inputs.first(), Some(FnArg::Receiver(_)));
    let body = structure(body);
    let mut l = Leaves(false, false);
    l.visit_block(&body);
    if l.1 {
        return None;
    }
    Some(Helper { sig: sig.clone(), body, method, leaves: l.0 })
}

struct NoLife;
impl VisitMut for NoLife {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        t.lifetime = None;
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_path_arguments_mut(&mut self, p: &mut PathArguments) {
        if let PathArguments::AngleBracketed(a) = p {
            for g in a.args.iter_mut() {
                if let GenericArgument::Lifetime(l) = g {
                    l.ident = format_ident!("_");
                }
            }
        }
        visit_mut::visit_path_arguments_mut(self, p);
    }
}
struct HasImpl(bool, BTreeSet<String>);
impl<'a> Visit<'a> for HasImpl {
    fn visit_type_impl_trait(&mut self, _: &'a TypeImplTrait) {
        self.0 = true;
    }
    fn visit_path(&mut self, p: &'a Path) {
        if p.segments.iter().any(|s| self.1.contains(&s.ident.to_string())) {
            self.0 = true;
        }
        visit::visit_path(self, p);
    }
}

struct Binds(BTreeSet<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
fn word_in(ts: proc_macro2::TokenStream, w: &str) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == w,
        proc_macro2::TokenTree::Group(g) => word_in(g.stream(), w),
        _ => false,
    })
}

/// replaces a variable by another expression: `x`, a place that is borrowed (`&x`, `&mut x`)
struct Subst {
    from: String,
    /// the place
    to: Expr,
    /// what a bare use becomes
    bare: Expr,
    ok: bool,
}
impl Subst {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.qself.is_none() && p.path.is_ident(&self.from))
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Field(f) if self.is(&f.base) => {
                *f.base = self.to.clone();
                return;
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                *m.receiver = self.to.clone();
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) && self.to != self.bare => {
                *e = self.to.clone();
                return;
            }
            _ => {}
        }
        if self.is(e) {
            *e = self.bare.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() && self.is(&f.expr) {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut v) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            for (i, x) in v.iter_mut().enumerate() {
                if i == 0 && self.is(x) && (m.path.is_ident("write") || m.path.is_ident("writeln")) {
                    // write!(f, ..) takes the place
                    *x = self.to.clone();
                } else {
                    self.visit_expr_mut(x);
                }
            }
            // a name inside a format string cannot be replaced
            if v.iter().any(|x| matches!(x, Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if s.value().contains(&format!("{{{}", self.from)))) {
                self.ok = false;
            }
            m.tokens = v.to_token_stream();
        } else if word_in(m.tokens.clone(), &self.from) {
            self.ok = false;
        }
    }
}

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none() && p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}
fn root(e: &Expr) -> String {
    match e {
        Expr::Path(p) => p.path.to_token_stream().to_string(),
        Expr::Field(f) => root(&f.base),
        Expr::Paren(p) => root(&p.expr),
        _ => String::new(),
    }
}

struct Inliner<'a> {
    free: &'a BTreeMap<String, Helper>,
    methods: &'a BTreeMap<String, Helper>,
    n: usize,
    changed: bool,
    /// whether the value of the expression is what the function returns
    tail: bool,
}
impl<'a> Inliner<'a> {
    fn expand(&mut self, h: &Helper, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        let mut body = h.body.clone();
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        let mut binds = Binds(Default::default());
        binds.visit_block(&body);
        let generics: BTreeSet<String> = h.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let mut actual: Vec<(String, bool, Option<Type>, Expr, bool)> = vec![];
        let mut it = args.into_iter();
        for a in &h.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    let e = recv?.clone();
                    if r.reference.is_none() && !matches!(&e, Expr::Path(p) if p.path.is_ident("self")) {
                        return None;
                    }
                    if matches!(&e, Expr::Path(p) if p.path.is_ident("self")) {
                        continue;
                    }
                    if !place(&e) {
                        return None;
                    }
                    let e2: Expr = if r.mutability.is_some() { parse_quote!(&mut #e) } else { parse_quote!(&#e) };
                    actual.push(("self".into(), false, None, e2, r.mutability.is_some()));
                }
                FnArg::Typed(t) => {
                    let e = it.next()?;
                    if let Pat::Ident(p) = &*t.pat {
                        let mut ty = (*t.ty).clone();
                        NoLife.visit_type_mut(&mut ty);
                        let mut hi = HasImpl(false, generics.clone());
                        hi.visit_type(&ty);
                        let mutref = matches!(&ty, Type::Reference(r) if r.mutability.is_some());
                        actual.push((p.ident.to_string(), p.mutability.is_some(), if hi.0 { None } else { Some(ty) }, e, mutref));
                    }
                }
            }
        }
        if it.next().is_some() {
            return None;
        }
        for (name, mutable, ty, e, mutref) in actual {
            // a variable handed on, or a place borrowed, stands for the parameter
            let (to, bare) = match &e {
                Expr::Reference(r) if place(&r.expr) && (mutref || name == "self") => ((*r.expr).clone(), e.clone()),
                x if place(x) && mutref && matches!(x, Expr::Path(_)) => (x.clone(), x.clone()),
                Expr::Path(p) if !mutable && p.path.is_ident(&name) => continue,
                _ if mutref || name == "self" => return None,
                _ => {
                    self.n += 1;
                    let t = format_ident!("__p{}", self.n);
                    let id = format_ident!("{}", name);
                    match &ty {
                        Some(ty) => pre.push(parse_quote!(let #t: #ty = #e;)),
                        None => pre.push(parse_quote!(let #t = #e;)),
                    }
                    if mutable {
                        post.push(parse_quote!(let mut #id = #t;));
                    } else {
                        post.push(parse_quote!(let #id = #t;));
                    }
                    continue;
                }
            };
            if mutable || (binds.0.contains(&root(&to)) && root(&to) != name) || binds.0.contains(&name) {
                return None;
            }
            if matches!(&to, Expr::Path(p) if p.path.is_ident(&name)) && to == bare {
                continue;
            }
            let mut s = Subst { from: name, to, bare, ok: true };
            s.visit_block_mut(&mut body);
            if !s.ok {
                return None;
            }
        }
        let mut stmts = pre;
        stmts.extend(post);
        stmts.extend(body.stmts);
        body.stmts = stmts;
        self.changed = true;
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: body }))
    }
    fn call(&mut self, e: &Expr, may_leave: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.iter().any(|s| !s.arguments.is_none()) {
                        return None;
                    }
                    let last = p.path.segments.last()?.ident.to_string();
                    let n = p.path.segments.len();
                    let h = if n > 1 && p.path.segments[n - 2].ident.to_string().starts_with(char::is_uppercase) { self.methods.get(&last) } else { self.free.get(&last) }?.clone();
                    if h.leaves && !may_leave {
                        return None;
                    }
                    if h.method {
                        return None;
                    }
                    return self.expand(&h, None, c.args.iter().cloned().collect());
                }
                None
            }
            Expr::MethodCall(m) => {
                let h = self.methods.get(&m.method.to_string())?.clone();
                if h.leaves && !may_leave || !h.method || m.turbofish.is_some() {
                    return None;
                }
                self.expand(&h, Some(&m.receiver), m.args.iter().cloned().collect())
            }
            _ => None,
        }
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let tail = std::mem::replace(&mut self.tail, false);
        match e {
            Expr::Try(t) => {
                if let Some(x) = self.call(&t.expr, true) {
                    *t.expr = x;
                }
                self.visit_expr_mut(&mut t.expr);
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail = true;
                    self.visit_expr_mut(x);
                    self.tail = false;
                }
                return;
            }
            Expr::Block(b) => {
                self.tail = tail;
                self.visit_block_mut(&mut b.block);
                return;
            }
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail = tail;
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail = tail;
                    self.visit_expr_mut(x);
                }
                self.tail = false;
                return;
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail = tail;
                    self.visit_expr_mut(&mut a.body);
                    self.tail = false;
                }
                return;
            }
            _ => {}
        }
        if let Some(x) = self.call(e, tail) {
            *e = x;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let tail = std::mem::replace(&mut self.tail, false);
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    self.tail = tail;
                    self.visit_expr_mut(e);
                    self.tail = false;
                    continue;
                }
            }
            self.visit_stmt_mut(s);
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.tail = false;
        visit_mut::visit_expr_closure_mut(self, c);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        self.tail = false;
        if let Ok(mut v) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            let before = self.changed;
            self.changed = false;
            for x in v.iter_mut() {
                self.visit_expr_mut(x);
            }
            if self.changed {
                m.tokens = v.to_token_stream();
            }
            self.changed |= before;
        }
    }
}

fn ty_last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

/// Returns the functions of /repo that were expanded, and those they were expanded in.
pub fn run(files: &mut [(String, File)], contracts: &Contracts, cfg: &dyn Fn(&[Attribute]) -> bool) -> (Vec<String>, Vec<String>) {
    let known = |k: &str| contracts.fns.contains_key(k) || contracts.fns.keys().any(|x| x.starts_with(&format!("{}::", k)));
    let mut free: BTreeMap<String, Helper> = BTreeMap::new();
    let mut methods: BTreeMap<String, Helper> = BTreeMap::new();
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    for (m, f) in files.iter() {
        for it in &f.items {
            match it {
                Item::Fn(x) if cfg(&x.attrs) => {
                    *names.entry(x.sig.ident.to_string()).or_default() += 1;
                    if !known(&key(m, None, &x.sig.ident.to_string())) {
                        if let Some(h) = prepare(&x.sig, &x.block) {
                            free.insert(x.sig.ident.to_string(), h);
                        }
                    }
                }
                Item::Impl(im) if cfg(&im.attrs) => {
                    for i in &im.items {
                        if let ImplItem::Fn(x) = i {
                            *names.entry(x.sig.ident.to_string()).or_default() += 1;
                            if im.trait_.is_none() && !known(&key(m, Some(&ty_last(&im.self_ty)), &x.sig.ident.to_string())) {
                                if let Some(h) = prepare(&x.sig, &x.block) {
                                    methods.insert(x.sig.ident.to_string(), h);
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    // a name that more than one function has is not resolved
    free.retain(|n, _| names[n] == 1);
    methods.retain(|n, _| names[n] == 1);
    if free.is_empty() && methods.is_empty() {
        return (vec![], vec![]);
    }
    let mut callers = BTreeSet::new();
    let mut n = 0;
    for _ in 0..4 {
        let mut any = false;
        for (m, f) in files.iter_mut() {
            for it in f.items.iter_mut() {
                match it {
                    Item::Fn(x) if cfg(&x.attrs) => {
                        let mut v = Inliner { free: &free, methods: &methods, n, changed: false, tail: true };
                        v.visit_block_mut(&mut x.block);
                        n = v.n;
                        if v.changed {
                            any = true;
                            callers.insert(key(m, None, &x.sig.ident.to_string()));
                        }
                    }
                    Item::Impl(im) if cfg(&im.attrs) => {
                        let st = crate::ty_name(&im.self_ty);
                        let tr = im.trait_.as_ref().map(|(_, p, _)| crate::ty_name(p));
                        for i in im.items.iter_mut() {
                            if let ImplItem::Fn(x) = i {
                                let mut v = Inliner { free: &free, methods: &methods, n, changed: false, tail: true };
                                v.visit_block_mut(&mut x.block);
                                n = v.n;
                                if v.changed {
                                    any = true;
                                    let t = match &tr {
                                        Some(t) => format!("<{} as {}>", st, t),
                                        None => st.clone(),
                                    };
                                    callers.insert(key(m, Some(&t), &x.sig.ident.to_string()));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        if !any {
            break;
        }
    }
    // a function no longer mentioned anywhere is dropped
    let mut gone = vec![];
    loop {
        let mut uses: BTreeMap<String, usize> = BTreeMap::new();
        fn count(ts: proc_macro2::TokenStream, u: &mut BTreeMap<String, usize>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Ident(i) => *u.entry(i.to_string()).or_default() += 1,
                    proc_macro2::TokenTree::Group(g) => count(g.stream(), u),
                    _ => {}
                }
            }
        }
        for (_, f) in files.iter() {
            for it in &f.items {
                let skip = matches!(it, Item::Mod(_)) || matches!(it, Item::Fn(x) if !cfg(&x.attrs));
                if !skip {
                    count(it.to_token_stream(), &mut uses);
                }
            }
        }
        let mut any = false;
        for (m, f) in files.iter_mut() {
            let m = m.clone();
            f.items.retain_mut(|it| match it {
                Item::Fn(x) => {
                    let s = x.sig.ident.to_string();
                    let drop = free.contains_key(&s) && uses.get(&s) == Some(&1);
                    if drop {
                        gone.push(key(&m, None, &s));
                        any = true;
                    }
                    !drop
                }
                Item::Impl(im) if im.trait_.is_none() => {
                    let t = ty_last(&im.self_ty);
                    im.items.retain(|i| match i {
                        ImplItem::Fn(x) => {
                            let s = x.sig.ident.to_string();
                            let drop = methods.contains_key(&s) && uses.get(&s) == Some(&1) && !matches!(x.vis, Visibility::Public(_));
                            if drop {
                                gone.push(key(&m, Some(&t), &s));
                                any = true;
                            }
                            !drop
                        }
                        _ => true,
                    });
                    true
                }
                _ => true,
            });
        }
        if !any {
            break;
        }
    }
    (gone, callers.into_iter().collect())
}
