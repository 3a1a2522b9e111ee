//! Documented, purely mechanical rewrites from the crate's Rust to the subset Verus accepts.
use crate::contracts::FnContract;
use crate::{lit_id, Cx};
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const EXT: &[&str] = &["time", "logos", "uriparse", "unicode_segmentation", "aho_corasick", "base64", "language_tags", "mime"];

fn map_root(id: &Ident) -> Option<Vec<Ident>> {
    let s = id.to_string();
    if s == "std" || s == "core" {
        Some(vec![format_ident!("crate"), format_ident!("sh")])
    } else if EXT.contains(&s.as_str()) {
        Some(vec![format_ident!("crate"), format_ident!("{}", s)])
    } else {
        None
    }
}
fn std_str(t: &mut UseTree) {
    match t {
        UseTree::Path(p) => {
            if p.ident == "str" {
                p.ident = format_ident!("str_");
            }
        }
        UseTree::Group(g) => g.items.iter_mut().for_each(std_str),
        _ => {}
    }
}
pub fn fix_use_tree(t: &UseTree) -> UseTree {
    match t {
        UseTree::Path(p) => {
            if p.ident == "crate" || p.ident == "self" || p.ident == "super" {
                return t.clone();
            }
            if let Some(v) = map_root(&p.ident) {
                let (a, b) = (&v[0], &v[1]);
                let mut tree = (*p.tree).clone();
                if b == "sh" {
                    std_str(&mut tree);
                }
                return parse_quote!(#a::#b::#tree);
            }
            t.clone()
        }
        UseTree::Name(n) => {
            if let Some(v) = map_root(&n.ident) {
                let (a, b) = (&v[0], &v[1]);
                return parse_quote!(#a::#b);
            }
            t.clone()
        }
        UseTree::Group(g) => {
            let mut g = g.clone();
            for i in g.items.iter_mut() {
                *i = fix_use_tree(i);
            }
            UseTree::Group(g)
        }
        _ => t.clone(),
    }
}

struct PathFix;
impl VisitMut for PathFix {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() >= 2 && p.leading_colon.is_none() {
            if let Some(v) = map_root(&p.segments[0].ident) {
                let mut np = Path { leading_colon: None, segments: Default::default() };
                for i in v {
                    np.segments.push(PathSegment::from(i));
                }
                let n = p.segments.len();
                for (k, s) in p.segments.iter().enumerate().skip(1) {
                    let mut s = s.clone();
                    if k == 1 && n > 2 && s.ident == "str" {
                        s.ident = format_ident!("str_");
                    }
                    np.segments.push(s);
                }
                *p = np;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}
pub fn fix_path(_cx: &mut Cx, p: &mut Path) {
    PathFix.visit_path_mut(p)
}
pub fn fix_type(_cx: &mut Cx, t: &mut Type) {
    PathFix.visit_type_mut(t)
}
pub fn fix_sig(_cx: &mut Cx, s: &mut Signature) {
    PathFix.visit_signature_mut(s)
}
pub fn fix_generics(_cx: &mut Cx, g: &mut Generics) {
    PathFix.visit_generics_mut(g)
}

// ---------------------------------------------------------------- anchors
struct Anchors<'a> {
    c: &'a FnContract,
    loops: usize,
    calls: BTreeMap<String, usize>,
    lets: BTreeMap<String, usize>,
    ifs: BTreeMap<String, usize>,
    done: BTreeSet<usize>,
}
impl<'a> Anchors<'a> {
    fn target(&self, g: &[String]) -> Option<(String, String, usize, String)> {
        // kind, name, index, pos
        match g.first().map(|s| s.as_str()) {
            Some("loop") if g.len() == 3 => Some(("loop".into(), String::new(), g[1].parse().ok()?, g[2].clone())),
            Some("call") if g.len() == 4 => Some(("call".into(), g[1].clone(), g[2].parse().ok()?, g[3].clone())),
            Some("let") if g.len() == 4 => Some(("let".into(), g[1].clone(), g[2].parse().ok()?, g[3].clone())),
            // the n-th `if` statement whose condition mentions the name
            Some("if") if g.len() == 4 => Some(("if".into(), g[1].clone(), g[2].parse().ok()?, g[3].clone())),
            _ => None,
        }
    }
    fn body_mark(&mut self, k: usize, b: &mut Block) {
        for (i, g) in self.c.ghosts.iter().enumerate() {
            if let Some((kind, _, n, pos)) = self.target(&g.anchor) {
                if kind == "loop" && n == k && !self.done.contains(&i) {
                    if pos == "start" {
                        b.stmts.insert(0, parse_quote!(__GHOST!(#i);));
                        self.done.insert(i);
                    } else if pos == "top" {
                        b.stmts.insert(0, parse_quote!(__GHOST!(#i top);));
                        self.done.insert(i);
                    } else if pos == "end" {
                        b.stmts.push(parse_quote!(__GHOST!(#i);));
                        self.done.insert(i);
                    }
                }
            }
        }
    }
}
fn idents(ts: TokenStream) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                r.insert(i.to_string());
            }
            TokenTree::Group(g) => r.extend(idents(g.stream())),
            _ => {}
        }
    }
    r
}
fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
        }
    }
    let mut v = V(vec![]);
    visit::Visit::visit_pat(&mut v, p);
    v.0
}
impl<'a> VisitMut for Anchors<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_while_mut(self, w);
                self.body_mark(k, &mut w.body);
            }
            Expr::ForLoop(w) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_for_loop_mut(self, w);
                self.body_mark(k, &mut w.body);
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_loop_mut(self, w);
                self.body_mark(k, &mut w.body);
            }
            Expr::MethodCall(m) => {
                *self.calls.entry(m.method.to_string()).or_default() += 1;
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    *self.calls.entry(p.path.segments.last().unwrap().ident.to_string()).or_default() += 1;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let (l0, c0, t0, i0) = (self.loops, self.calls.clone(), self.lets.clone(), self.ifs.clone());
            if let Stmt::Expr(Expr::If(x), _) = &s {
                for n in idents(x.cond.to_token_stream()) {
                    *self.ifs.entry(n).or_default() += 1;
                }
            }
            let i1 = self.ifs.clone();
            if let Stmt::Local(l) = &s {
                for n in pat_names(&l.pat) {
                    *self.lets.entry(n).or_default() += 1;
                }
            }
            self.visit_stmt_mut(&mut s);
            let mut before = vec![];
            let mut after = vec![];
            let mut iso = None;
            for (i, g) in self.c.ghosts.iter().enumerate() {
                if self.done.contains(&i) {
                    continue;
                }
                if let Some((kind, name, n, pos)) = self.target(&g.anchor) {
                    let z = 0usize;
                    let (a, z2) = match kind.as_str() {
                        "loop" => (l0, self.loops),
                        "if" => (*i0.get(&name).unwrap_or(&z), *i1.get(&name).unwrap_or(&z)),
                        "call" => (*c0.get(&name).unwrap_or(&z), *self.calls.get(&name).unwrap_or(&z)),
                        _ => (*t0.get(&name).unwrap_or(&z), *self.lets.get(&name).unwrap_or(&z)),
                    };
                    if a <= n && n < z2 {
                        if pos == "before" {
                            before.push(i);
                        } else if pos == "after" {
                            after.push(i);
                        } else if pos == "isolate" {
                            // a statement that breaks out of an outer loop, or is a value, stays as it is
                            let ids = idents(s.to_token_stream());
                            if ids.contains("break") || ids.contains("continue") || !matches!(&s, Stmt::Expr(Expr::If(_), _)) {
                                continue;
                            }
                            iso = Some(i);
                        } else {
                            continue;
                        }
                        self.done.insert(i);
                    }
                }
            }
            for i in before {
                out.push(parse_quote!(__GHOST!(#i);));
            }
            // a trailing expression followed by ghost code must become a statement
            let has_after = !after.is_empty();
            if has_after {
                if let Stmt::Expr(e, None) = &s {
                    match e {
                        Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_) => {}
                        _ => {
                            // keep as value: cannot place after
                        }
                    }
                }
            }
            if let Some(i) = iso {
                out.push(parse_quote!({ __ISO!(#i); #s }));
            } else {
                out.push(s);
            }
            for i in after {
                out.push(parse_quote!(__GHOST!(#i);));
            }
        }
        b.stmts = out;
    }
}

// ---------------------------------------------------------------- rewriting
struct Rw<'a> {
    cx: &'a mut Cx,
    loops: usize,
    path: String,
}

fn is_upper_const(s: &str) -> bool {
    s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric())
}
fn call_of<'b>(e: &'b Expr, name: &str) -> Option<&'b ExprMethodCall> {
    if let Expr::MethodCall(m) = e {
        if m.method == name {
            return Some(m);
        }
    }
    None
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        _ => e,
    }
}
fn blockify(e: &Expr) -> Block {
    if let Expr::Block(b) = e {
        if b.label.is_none() && b.attrs.is_empty() {
            return b.block.clone();
        }
    }
    parse_quote!({ #e })
}

impl<'a> Rw<'a> {
    fn err(&mut self, s: &str) {
        let p = self.path.clone();
        self.cx.errors.push(format!("{}: {}", p, s));
    }
    fn lit(&mut self, s: &str) -> Expr {
        let id = format_ident!("lit_{}", lit_id(self.cx, s));
        parse_quote!(crate::lits::#id())
    }
    fn pat_str(&mut self, p: &Pat) -> Option<Vec<Expr>> {
        match p {
            Pat::Lit(l) => {
                if let Lit::Str(s) = &l.lit {
                    Some(vec![self.lit(&s.value())])
                } else {
                    None
                }
            }
            Pat::Ident(i) if i.subpat.is_none() && self.cx.str_consts.contains(&i.ident.to_string()) => {
                let id = &i.ident;
                Some(vec![parse_quote!(#id)])
            }
            Pat::Path(pp) if self.cx.str_consts.contains(&pp.path.segments.last().unwrap().ident.to_string()) => Some(vec![parse_quote!(#pp)]),
            Pat::Or(o) => {
                let mut v = vec![];
                for c in &o.cases {
                    v.extend(self.pat_str(c)?);
                }
                Some(v)
            }
            _ => None,
        }
    }
    fn strish(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
            Expr::Path(p) => self.cx.str_consts.contains(&p.path.segments.last().unwrap().ident.to_string()),
            Expr::Reference(r) => self.strish(&r.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.strish(expr),
            Expr::Index(i) => matches!(&*i.index, Expr::Range(_)),
            Expr::MethodCall(m) => ["to_uppercase", "to_lowercase", "to_string", "to_owned", "to_ascii_uppercase", "to_ascii_lowercase", "as_str"].contains(&m.method.to_string().as_str()),
            _ => false,
        }
    }
    fn fmt_macro(&mut self, m: &Macro, is_write: bool) -> Option<Expr> {
        let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let mut args: Vec<Expr> = args.into_iter().collect();
        let f = if is_write { Some(args.remove(0)) } else { None };
        let fs = match args.remove(0) {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        enum P {
            Lit(String),
            Arg(Expr),
            Debug,
        }
        let mut pieces = vec![];
        let mut cur = String::new();
        let mut ch = fs.chars().peekable();
        let mut ai = 0;
        while let Some(c) = ch.next() {
            if c == '{' {
                if ch.peek() == Some(&'{') {
                    ch.next();
                    cur.push('{');
                    continue;
                }
                let mut spec = String::new();
                for d in ch.by_ref() {
                    if d == '}' {
                        break;
                    }
                    spec.push(d);
                }
                if !cur.is_empty() {
                    pieces.push(P::Lit(std::mem::take(&mut cur)));
                }
                if spec.is_empty() {
                    pieces.push(P::Arg(args.get(ai)?.clone()));
                    ai += 1;
                } else if spec.chars().all(|c| c.is_alphanumeric() || c == '_') && !spec.starts_with(|c: char| c.is_numeric()) {
                    let id = format_ident!("{}", spec);
                    pieces.push(P::Arg(parse_quote!(#id)));
                } else if spec.ends_with('?') {
                    ai += 1;
                    pieces.push(P::Debug);
                } else {
                    return None;
                }
            } else if c == '}' {
                if ch.peek() == Some(&'}') {
                    ch.next();
                }
                cur.push('}');
            } else {
                cur.push(c);
            }
        }
        if !cur.is_empty() {
            pieces.push(P::Lit(cur));
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut calls: Vec<Expr> = vec![];
        let fe: Expr = f.clone().unwrap_or_else(|| parse_quote!(&mut __f));
        let mut n: usize = 0;
        for p in pieces {
            match p {
                P::Lit(s) => {
                    let l = self.lit(&s);
                    calls.push(parse_quote!(crate::sh::fmt::Display::fmt(#l, #fe)));
                }
                P::Arg(a) => {
                    let id = format_ident!("__a{}", n);
                    n += 1;
                    lets.push(parse_quote!(let #id = &(#a);));
                    calls.push(parse_quote!(crate::sh::fmt::Display::fmt(#id, #fe)));
                }
                P::Debug => calls.push(parse_quote!(crate::sh::fmt::vx_debug(#fe))),
            }
        }
        let mut e: Expr = parse_quote!(Ok(()));
        let mut first = true;
        for c in calls.into_iter().rev() {
            if first {
                e = c;
                first = false;
            } else {
                e = parse_quote!(match #c { Ok(()) => #e, Err(__e) => Err(__e) });
            }
        }
        Some(if is_write {
            if lets.is_empty() {
                e
            } else {
                parse_quote!({ #(#lets)* #e })
            }
        } else {
            parse_quote!({ #(#lets)* let mut __f = crate::sh::fmt::Formatter::vx_new(); let __res: crate::sh::fmt::Result = #e; crate::sh::fmt::vx_ok(__res); __f.vx_finish() })
        })
    }
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "write" => self.fmt_macro(m, true),
            "format" => self.fmt_macro(m, false),
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse::<Expr>()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = m.parse_body().ok()?;
                Some(match g {
                    None => parse_quote!((match #e { #p => true, _ => false })),
                    Some(g) => parse_quote!((match #e { #p if #g => true, _ => false })),
                })
            }
            "vec" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let pushes: Vec<Stmt> = args.iter().map(|a| parse_quote!(__v.push(#a);)).collect();
                Some(parse_quote!({ let mut __v = Vec::new(); #(#pushes)* __v }))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(crate::sh::vx_panic())),
            _ => None,
        }
    }
    /// `if` whose condition is a let chain.
    fn if_chain(&mut self, i: &ExprIf) -> Option<Expr> {
        fn flat(e: &Expr, v: &mut Vec<Expr>) {
            match e {
                Expr::Binary(ExprBinary { left, op: BinOp::And(_), right, .. }) => {
                    flat(left, v);
                    flat(right, v);
                }
                e => v.push(e.clone()),
            }
        }
        let mut v = vec![];
        flat(&i.cond, &mut v);
        if v.len() < 2 || !v.iter().any(|e| matches!(e, Expr::Let(_))) {
            return None;
        }
        let then = &i.then_branch;
        let els: Option<Expr> = i.else_branch.as_ref().map(|(_, e)| (**e).clone());
        let mut e: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: then.clone() });
        for c in v.into_iter().rev() {
            let b = blockify(&e);
            e = match &els {
                None => parse_quote!(if #c #b),
                Some(x) => {
                    let xb = blockify(x);
                    parse_quote!(if #c #b else #xb)
                }
            };
        }
        Some(e)
    }
    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &m.receiver;
        let clos = |i: usize| -> Option<&ExprClosure> {
            match m.args.iter().nth(i) {
                Some(Expr::Closure(c)) => Some(c),
                _ => None,
            }
        };
        match name.as_str() {
            "map_err" => {
                let c = clos(0)?;
                let (p, b) = (c.inputs.first()?, &c.body);
                Some(parse_quote!((match #recv { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })))
            }
            "ok_or_else" => {
                let b = &clos(0)?.body;
                Some(parse_quote!((match #recv { Some(__v) => Ok(__v), None => Err(#b) })))
            }
            "ok_or" => {
                let b = m.args.first()?;
                Some(parse_quote!((match #recv { Some(__v) => Ok(__v), None => Err(#b) })))
            }
            "or_else" => {
                let c = clos(0)?;
                if !c.inputs.is_empty() {
                    return None;
                }
                let b = &c.body;
                Some(parse_quote!((match #recv { Some(__v) => Some(__v), None => #b })))
            }
            "unwrap_or_else" => {
                let c = clos(0)?;
                if !c.inputs.is_empty() {
                    return None;
                }
                let b = &c.body;
                Some(parse_quote!((match crate::sh::VxOr::vx_opt(#recv) { Some(__v) => __v, None => #b })))
            }
            "unwrap_or" => {
                let b = m.args.first()?;
                Some(parse_quote!((match crate::sh::VxOr::vx_opt(#recv) { Some(__v) => __v, None => #b })))
            }
            "and_then" | "map" => {
                let c = clos(0)?;
                let (p, b) = (c.inputs.first()?, &c.body);
                // only on Option producing receivers
                fn optish(e: &Expr) -> bool {
                    match e {
                        Expr::MethodCall(m) => {
                            let n = m.method.to_string();
                            ["as_ref", "first", "last", "get", "find", "as_mut", "take", "next", "strip_prefix", "strip_suffix", "ok"].contains(&n.as_str()) || (["map", "and_then", "or_else"].contains(&n.as_str()) && optish(&m.receiver))
                        }
                        _ => false,
                    }
                }
                if !optish(recv) {
                    return None;
                }
                Some(if name == "map" {
                    parse_quote!((match #recv { Some(#p) => Some(#b), None => None }))
                } else {
                    parse_quote!((match #recv { Some(#p) => #b, None => None }))
                })
            }
            "collect" => {
                if let Some(mp) = call_of(recv, "map") {
                    match mp.args.first()? {
                        Expr::Closure(c) => {
                            if let (Pat::Ident(p), Expr::MethodCall(b)) = (c.inputs.first()?, &*c.body) {
                                if let Expr::Path(bp) = &*b.receiver {
                                    if bp.path.is_ident(&p.ident) && ["to_string", "to_owned", "into"].contains(&b.method.to_string().as_str()) && b.args.is_empty() {
                                        let r = &mp.receiver;
                                        return Some(parse_quote!(crate::sh::own_all(#r)));
                                    }
                                }
                            }
                            None
                        }
                        Expr::Path(p) if p.path.segments.last()?.ident == "from" => {
                            let it = call_of(&mp.receiver, "into_iter")?;
                            let r = &it.receiver;
                            let mut q = p.path.clone();
                            q.segments.pop();
                            q.segments.pop_punct();
                            return Some(parse_quote!(crate::sh::into_all::<_, #q>(#r)));
                        }
                        Expr::Path(p) if ["to_string", "to_owned", "from"].contains(&p.path.segments.last()?.ident.to_string().as_str()) => {
                            let r = &mp.receiver;
                            return Some(parse_quote!(crate::sh::own_all(#r)));
                        }
                        _ => None,
                    }
                } else if let Some(it) = call_of(recv, "split") {
                    if matches!(it.args.first(), Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) if s.value().is_empty()) {
                        let r = &it.receiver;
                        return Some(parse_quote!(#r.vx_split_chars()));
                    }
                    Some(parse_quote!(crate::sh::vx_collect(#recv)))
                } else {
                    None
                }
            }
            "join" => {
                let a = m.args.first()?;
                Some(parse_quote!(crate::sh::vx_join(&(#recv), #a)))
            }
            "unwrap_or_default" => Some(parse_quote!((match crate::sh::VxOr::vx_opt(#recv) { Some(__v) => __v, None => crate::sh::vx_default() }))),
            "to_string" if m.args.is_empty() => Some(parse_quote!(#recv.vx_to_string())),
            "into_iter" => Some(parse_quote!(crate::sh::vx_into_iter(#recv))),
            "contains" => {
                let r = strip_paren(recv);
                if let Expr::Range(rg) = r {
                    let x = m.args.first()?;
                    let x = if let Expr::Reference(x) = x { (*x.expr).clone() } else { parse_quote!(*#x) };
                    let (a, b) = (rg.start.as_ref()?, rg.end.as_ref()?);
                    return Some(match rg.limits {
                        RangeLimits::Closed(_) => parse_quote!((#a <= #x && #x <= #b)),
                        RangeLimits::HalfOpen(_) => parse_quote!((#a <= #x && #x < #b)),
                    });
                }
                if let Expr::Path(p) = r {
                    let n = p.path.segments.last()?.ident.to_string();
                    if let Some(v) = self.cx.arr_consts.get(&n).cloned() {
                        let mut x = m.args.first()?.clone();
                        // &&e -> &e : compare as strings
                        while let Expr::Reference(r) = &x {
                            if let Expr::Reference(_) = &*r.expr {
                                x = (*r.expr).clone();
                            } else {
                                break;
                            }
                        }
                        let mut e: Expr = parse_quote!(false);
                        for l in v.iter().rev() {
                            let l = self.lit(l);
                            e = parse_quote!((crate::sh::str_eq(__x, #l) || #e));
                        }
                        return Some(parse_quote!({ let __x = #x; #e }));
                    }
                }
                let x = m.args.first()?;
                Some(parse_quote!(#recv.vx_contains(#x)))
            }
            _ => None,
        }
    }
    fn pattern_like(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    (n == "Ok" || n == "Some" || n == "Err") && c.args.iter().all(|a| self.pattern_like(a))
                } else {
                    false
                }
            }
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if n == "None" {
                    return true;
                }
                p.path.segments.len() >= 2 && n.chars().next().map_or(false, |c| c.is_uppercase()) && n.chars().any(|c| c.is_lowercase()) || (p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "Token")
            }
            Expr::Tuple(t) => t.elems.is_empty(),
            Expr::Reference(r) => self.pattern_like(&r.expr),
            _ => false,
        }
    }
    fn cmp(&mut self, b: &ExprBinary) -> Option<Expr> {
        let ne = match b.op {
            BinOp::Eq(_) => false,
            BinOp::Ne(_) => true,
            _ => return None,
        };
        let (l, r) = (&b.left, &b.right);
        let unref = |e: &Expr| -> Expr {
            match strip_paren(e) {
                Expr::Reference(r) => (*r.expr).clone(),
                e => e.clone(),
            }
        };
        let e: Expr = if self.pattern_like(r) {
            let p = unref(r);
            // strip references inside patterns is not supported
            parse_quote!((match &(#l) { #p => true, _ => false }))
        } else if self.pattern_like(l) {
            let p = unref(l);
            parse_quote!((match &(#r) { #p => true, _ => false }))
        } else if let (Expr::Call(_), true) = (strip_paren(r), r.to_token_stream().to_string().starts_with("Some (")) {
            parse_quote!(crate::sh::opt_str_eq(#l, #r))
        } else if self.strish(l) || self.strish(r) {
            parse_quote!(crate::sh::str_eq(&(#l), &(#r)))
        } else if let Expr::Path(p) = strip_paren(r) {
            if p.path.segments.len() >= 2 && is_upper_const(&p.path.segments.last().unwrap().ident.to_string()) {
                parse_quote!(crate::sh::val_eq(&(#l), &(#r)))
            } else {
                return None;
            }
        } else {
            return None;
        };
        Some(if ne { parse_quote!((!#e)) } else { e })
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        PathFix.visit_path_mut(p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        PathFix.visit_type_mut(t);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        // let x: T = Default::default()
        if let (Pat::Type(pt), Some(init)) = (&l.pat, &mut l.init) {
            if init.expr.to_token_stream().to_string() == "Default :: default ()" {
                if let Type::Path(tp) = &*pt.ty {
                    let p = &tp.path;
                    *init.expr = parse_quote!(#p::default());
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        for (i, s) in old.into_iter().enumerate() {
            match s {
                Stmt::Item(Item::Use(u)) => {
                    let mut u = u.clone();
                    u.attrs.clear();
                    u.vis = Visibility::Inherited;
                    u.tree = fix_use_tree(&u.tree);
                    self.cx.hoisted.push(u.to_token_stream().to_string());
                }
                Stmt::Item(it) => {
                    self.err(&format!("nested item {}", it.to_token_stream().to_string().chars().take(40).collect::<String>()));
                }
                Stmt::Macro(m) => {
                    if m.mac.path.is_ident("__GHOST") || m.mac.path.is_ident("__ISO") || m.mac.path.is_ident("__GHOSTALL") || m.mac.path.is_ident("__LOOP") {
                        b.stmts.push(Stmt::Macro(m));
                    } else {
                        let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                        let semi = m.semi_token.or_else(|| if i + 1 < n { Some(Default::default()) } else { None });
                        b.stmts.push(Stmt::Expr(e, semi));
                    }
                }
                s => b.stmts.push(s),
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // structural rewrites first (outside-in)
        let new: Option<Expr> = match &*e {
            Expr::Macro(m) if m.mac.path.is_ident("__GHOST") || m.mac.path.is_ident("__ISO") || m.mac.path.is_ident("__GHOSTALL") || m.mac.path.is_ident("__LOOP") => return,
            Expr::Macro(m) => {
                let m = m.mac.clone();
                let r = self.mac(&m);
                if r.is_none() {
                    self.err(&format!("unsupported macro {}", m.to_token_stream()));
                    return;
                }
                r
            }
            Expr::If(i) => {
                let i = i.clone();
                self.if_chain(&i)
            }
            Expr::Match(m) => {
                let m = m.clone();
                if m.arms.iter().any(|a| self.pat_str(&a.pat).is_some()) {
                    let s = &m.expr;
                    let mut els: Option<Expr> = None;
                    let mut bad = false;
                    for a in m.arms.iter().rev() {
                        if a.guard.is_some() {
                            bad = true;
                        }
                        let body = blockify(&a.body);
                        if let Some(lits) = self.pat_str(&a.pat) {
                            let mut cond: Expr = parse_quote!(false);
                            for (n, l) in lits.iter().rev().enumerate() {
                                cond = if n == 0 { parse_quote!(crate::sh::str_eq(__m, #l)) } else { parse_quote!(crate::sh::str_eq(__m, #l) || #cond) };
                            }
                            els = Some(match els {
                                None => parse_quote!(if #cond #body),
                                Some(x) => {
                                    let xb = blockify(&x);
                                    if let Expr::If(_) = &x {
                                        parse_quote!(if #cond #body else #x)
                                    } else {
                                        parse_quote!(if #cond #body else #xb)
                                    }
                                }
                            });
                        } else if let Pat::Wild(_) = &a.pat {
                            els = Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: body }));
                        } else if let Pat::Ident(p) = &a.pat {
                            let id = &p.ident;
                            els = Some(parse_quote!({ let #id = __m; #body }));
                        } else {
                            bad = true;
                        }
                    }
                    if bad {
                        self.err("unsupported string match");
                        None
                    } else {
                        let e = els.unwrap();
                        Some(parse_quote!({ match #s { __m => #e } }))
                    }
                } else {
                    None
                }
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                let k = self.loops;
                self.loops += 1;
                let (it, i, s, en) = (format_ident!("__it_{}", k), format_ident!("__i_{}", k), format_ident!("__s_{}", k), format_ident!("__e_{}", k));
                let stmts = &f.body.stmts;
                let pat: &Pat = &f.pat;
                let kk = k;
                let mut ex = (*f.expr).clone();
                let r: Expr = 'x: {
                    if let Some(en) = call_of(&ex, "enumerate") {
                        if let (Some(itc), Pat::Tuple(t)) = (call_of(&en.receiver, "iter"), pat) {
                            let x = &itc.receiver;
                            let (a, b) = (&t.elems[0], &t.elems[1]);
                            break 'x parse_quote!({ let #s = crate::sh::vx_slice(&(#x)); let mut #i: usize = 0; while #i < #s.len() { __LOOP!(#kk s); let #a = #i; let #b = &#s[#i]; #i += 1; #(#stmts)* } });
                        }
                        self.err("unsupported enumerate");
                    }
                    if let Some(itc) = call_of(&ex, "iter") {
                        let x = (*itc.receiver).clone();
                        ex = parse_quote!(&#x);
                    }
                    if let Expr::Range(rg) = strip_paren(&ex) {
                        if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                            break 'x parse_quote!({ let mut #i = #a; let #en = #b; while #i < #en { __LOOP!(#kk r); let #pat = #i; #i += 1; #(#stmts)* } });
                        }
                        self.err("unsupported range loop");
                    }
                    parse_quote!({ let mut #it = crate::sh::vx_into_iter(#ex); __GHOSTALL!(#kk); while #it.has_next() { __LOOP!(#kk v); let #pat = #it.take_next(); #(#stmts)* } })
                };
                *e = r;
                // visit children without renumbering this loop
                if let Expr::Block(b) = e {
                    for st in b.block.stmts.iter_mut() {
                        if let Stmt::Expr(Expr::While(w), _) = st {
                            self.visit_expr_mut(&mut w.cond);
                            self.visit_block_mut(&mut w.body);
                        } else {
                            self.visit_stmt_mut(st);
                        }
                    }
                }
                return;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                let mut w = w.clone();
                let haslet = w.cond.to_token_stream().to_string().split_whitespace().any(|t| t == "let");
                if haslet {
                    // ghost code for the top of the loop goes before the test
                    let is_top = |s: &Stmt| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("__GHOST") && m.mac.tokens.to_string().ends_with("top"));
                    let (tops, stmts): (Vec<Stmt>, Vec<Stmt>) = w.body.stmts.iter().cloned().partition(is_top);
                    let c = &w.cond;
                    let mut inner: Expr = parse_quote!(if #c { #(#stmts)* } else { break; });
                    self.visit_expr_mut(&mut inner);
                    *e = parse_quote!(loop { __LOOP!(#k); #(#tops)* #inner });
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    w.body.stmts.insert(0, parse_quote!(__LOOP!(#k);));
                    *e = Expr::While(w);
                }
                return;
            }
            Expr::Loop(l) => {
                let k = self.loops;
                self.loops += 1;
                let mut l = l.clone();
                self.visit_block_mut(&mut l.body);
                l.body.stmts.insert(0, parse_quote!(__LOOP!(#k);));
                *e = Expr::Loop(l);
                return;
            }
            Expr::Binary(b) => {
                let b = b.clone();
                self.cmp(&b)
            }
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "into" || m.method == "try_into") => {
                let mut m = m.clone();
                m.method = format_ident!("vx_{}", m.method);
                Some(Expr::MethodCall(m))
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.len() >= 2 && (p.path.segments.last().unwrap().ident == "from" || p.path.segments.last().unwrap().ident == "try_from")) => {
                let mut c = c.clone();
                if let Expr::Path(p) = &mut *c.func {
                    let l = p.path.segments.last_mut().unwrap();
                    l.ident = format_ident!("vx_{}", l.ident);
                }
                Some(Expr::Call(c))
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                self.method(&m)
            }
            Expr::Reference(r) => match &*r.expr {
                Expr::Index(ix) if r.mutability.is_none() => {
                    let (b, i) = (&ix.expr, &ix.index);
                    range_call(b, i).or_else(|| Some(parse_quote!(crate::sh::vx_idx(&*#b, #i))))
                }
                _ => None,
            },
            Expr::Index(ix) => {
                let (b, i) = (&ix.expr, &ix.index);
                range_call(b, i)
            }
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                let v = s.value();
                Some(self.lit(&v))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
            // the replacement may itself need rewriting, but a literal call does not
            if let Expr::Call(c) = e {
                if c.args.is_empty() {
                    return;
                }
            }
            if let Expr::Reference(_) | Expr::Index(_) = e {
                visit_mut::visit_expr_mut(self, e);
            } else {
                self.visit_expr_mut(e);
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn range_call(b: &Expr, i: &Expr) -> Option<Expr> {
    if let Expr::Range(r) = i {
        return match (&r.start, &r.end, &r.limits) {
            (None, None, _) => Some(parse_quote!(#b.vx_all())),
            (Some(a), None, _) => Some(parse_quote!(#b.vx_from(#a))),
            (None, Some(z), RangeLimits::HalfOpen(_)) => Some(parse_quote!(#b.vx_to(#z))),
            (Some(a), Some(z), RangeLimits::HalfOpen(_)) => Some(parse_quote!(#b.vx_range(#a, #z))),
            _ => None,
        };
    }
    None
}

pub fn rewrite_body(cx: &mut Cx, b: &mut Block, c: &FnContract, path: &str) -> usize {
    // 1. anchors
    let mut an = Anchors { c, loops: 0, calls: Default::default(), lets: Default::default(), ifs: Default::default(), done: Default::default() };
    an.visit_block_mut(b);
    for (i, g) in c.ghosts.iter().enumerate() {
        match g.anchor.first().map(|s| s.as_str()) {
            Some("start") => {
                b.stmts.insert(0, parse_quote!(__GHOST!(#i);));
                an.done.insert(i);
            }
            Some("end") => {
                if let Some(Stmt::Expr(_, None)) = b.stmts.last() {
                    if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
                        b.stmts.push(parse_quote!(let __r = #e;));
                        b.stmts.push(parse_quote!(__GHOST!(#i);));
                        b.stmts.push(parse_quote!(return __r;));
                    }
                } else {
                    b.stmts.push(parse_quote!(__GHOST!(#i);));
                }
                an.done.insert(i);
            }
            _ => {}
        }
        if !an.done.contains(&i) {
            cx.soft.push(format!("{}: lost ghost anchor {}", path, g.anchor.join(" ")));
        }
    }
    // 2. rewrites
    let mut rw = Rw { cx, loops: 0, path: path.to_string() };
    rw.visit_block_mut(b);
    let n = rw.loops;
    let _ = quote!();
    n
}
