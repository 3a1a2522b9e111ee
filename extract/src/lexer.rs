//! The lexer: `logos_codegen` turns the attributes of `Token` into the code the derive macro puts into the crate, and that
//! code - a set of functions that read bytes, move the end of the token and call each other - is written down as a table.
//! `contracts/lex/table.rs` says what a table means and proves what the parser relies on.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::*;

type Set = [bool; 256];
#[derive(Clone, PartialEq, Debug)]
enum Tgt {
    F(String),
    Err0,
    Err1,
    End,
}
#[derive(Clone)]
struct Edge {
    sets: Vec<Set>,
    bump: usize,
    to: Tgt,
}
#[derive(Clone)]
enum F {
    Leaf(String),
    Read { k: usize, need: usize, none: Tgt, dflt: Tgt, edges: Vec<Edge> },
}
type R<T> = std::result::Result<T, String>;

fn num(e: &Expr) -> R<usize> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().map_err(|e| e.to_string()),
        _ => Err(format!("number expected: {}", e.to_token_stream())),
    }
}
fn byte(e: &Expr) -> R<u8> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) => Ok(b.value()),
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().map_err(|e| e.to_string()),
        _ => Err(format!("byte expected: {}", e.to_token_stream())),
    }
}
fn set(p: &Pat) -> R<Set> {
    let mut s = [false; 256];
    match p {
        Pat::Lit(l) => s[byte(&Expr::Lit(l.clone()))? as usize] = true,
        Pat::Range(r) => {
            let (a, b) = (r.start.as_ref().ok_or("range")?, r.end.as_ref().ok_or("range")?);
            if !matches!(r.limits, RangeLimits::Closed(_)) {
                return Err("half open range".into());
            }
            for i in byte(a)?..=byte(b)? {
                s[i as usize] = true;
            }
        }
        Pat::Or(o) => {
            for c in &o.cases {
                let t = set(c)?;
                for i in 0..256 {
                    s[i] |= t[i];
                }
            }
        }
        Pat::Paren(p) => return set(&p.pat),
        _ => return Err(format!("pattern {}", p.to_token_stream())),
    }
    Ok(s)
}
/// `f(lex)`, `lex.error()`, or a block that moves the end of the token first
fn target(e: &Expr) -> R<(usize, Tgt)> {
    match e {
        Expr::Call(c) if c.args.len() == 1 && c.args[0].to_token_stream().to_string() == "lex" => {
            let f = c.func.to_token_stream().to_string();
            Ok((0, match f.as_str() {
                "_error" => Tgt::Err1,
                "_end" => Tgt::End,
                _ => Tgt::F(f),
            }))
        }
        Expr::MethodCall(_) if e.to_token_stream().to_string().replace(' ', "") == "lex.error()" => Ok((0, Tgt::Err0)),
        Expr::Block(b) => {
            let mut n = 0;
            for (i, s) in b.block.stmts.iter().enumerate() {
                match s {
                    Stmt::Expr(Expr::MethodCall(m), Some(_)) if m.method == "bump_unchecked" && m.receiver.to_token_stream().to_string() == "lex" => n += num(&m.args[0])?,
                    Stmt::Expr(x, _) if i + 1 == b.block.stmts.len() => {
                        let (k, t) = target(x)?;
                        return Ok((n + k, t));
                    }
                    _ => return Err(format!("statement {}", s.to_token_stream())),
                }
            }
            Err("empty block".into())
        }
        _ => Err(format!("target {}", e.to_token_stream())),
    }
}
/// `lex.read::<T>()`, `lex.read_at::<T>(k)`: the offset and the number of bytes
fn read(e: &Expr) -> R<(usize, usize)> {
    if let Expr::MethodCall(m) = e {
        let k = match (m.method.to_string().as_str(), m.args.len()) {
            ("read", 0) => 0,
            ("read_at", 1) => num(&m.args[0])?,
            _ => return Err(format!("read {}", e.to_token_stream())),
        };
        if m.receiver.to_token_stream().to_string() == "lex" {
            if let Some(GenericArgument::Type(t)) = m.turbofish.as_ref().and_then(|t| t.args.first()) {
                match t {
                    Type::Path(p) if p.path.is_ident("u8") => return Ok((k, 1)),
                    Type::Reference(r) => {
                        if let Type::Array(a) = &*r.elem {
                            if a.elem.to_token_stream().to_string() == "u8" {
                                return Ok((k, num(&a.len)?));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    Err(format!("read {}", e.to_token_stream()))
}
fn function(f: &ItemFn) -> R<F> {
    let mut lut: Option<Vec<String>> = None;
    let mut bound: Option<(String, usize, usize, Tgt)> = None;
    for (n, s) in f.block.stmts.iter().enumerate() {
        let last = n + 1 == f.block.stmts.len();
        match s {
            Stmt::Item(Item::Enum(_)) => {}
            Stmt::Item(Item::Const(c)) if c.ident == "LUT" => {
                if let Expr::Block(b) = &*c.expr {
                    if let Some(Stmt::Expr(Expr::Array(a), None)) = b.block.stmts.last() {
                        lut = Some(a.elems.iter().map(|e| e.to_token_stream().to_string()).collect());
                    }
                }
                if lut.as_ref().map_or(true, |l| l.len() != 256) {
                    return Err("jump table".into());
                }
            }
            Stmt::Local(l) => {
                // let byte = match lex.read() { Some(byte) => byte, None => return f(lex) };
                let (id, init) = match (&l.pat, &l.init) {
                    (Pat::Ident(i), Some(x)) => (i.ident.to_string(), &x.expr),
                    _ => return Err("let".into()),
                };
                if let Expr::Match(m) = &**init {
                    let (k, need) = read(&m.expr)?;
                    if m.arms.len() == 2 && m.arms[0].pat.to_token_stream().to_string() == format!("Some ({})", id) && m.arms[0].body.to_token_stream().to_string() == id && m.arms[1].pat.to_token_stream().to_string() == "None" {
                        if let Expr::Return(r) = &*m.arms[1].body {
                            let (b, t) = target(r.expr.as_ref().ok_or("return")?)?;
                            if b != 0 {
                                return Err("bump at the end".into());
                            }
                            bound = Some((id, k, need, t));
                            continue;
                        }
                    }
                }
                return Err(format!("let {}", l.to_token_stream()));
            }
            Stmt::Expr(Expr::MethodCall(m), _) if m.method == "set" => {
                let t = m.to_token_stream().to_string().replace(' ', "");
                let t = t.strip_prefix("lex.set(Ok(Token::").and_then(|x| x.strip_suffix("))")).ok_or("set")?.to_string();
                return if last { Ok(F::Leaf(t)) } else { Err("code after set".into()) };
            }
            Stmt::Expr(Expr::Match(m), _) if last => {
                let mut edges = vec![];
                let mut dflt = None;
                let on = m.expr.to_token_stream().to_string().replace(' ', "");
                if let Some((id, k, need, none)) = bound {
                    let table = on == format!("LUT[{}asusize]", id);
                    if !(table || on == id && need == 1 || on == format!("{}[0]", id) || on == format!("{}[0usize]", id)) {
                        return Err(format!("match {}", on));
                    }
                    for a in &m.arms {
                        let (b, t) = target(&a.body)?;
                        if a.guard.is_some() {
                            return Err("guard".into());
                        }
                        if table {
                            let name = a.pat.to_token_stream().to_string().replace(' ', "");
                            let name = name.strip_prefix("Jump::").ok_or("jump")?.to_string();
                            let mut s = [false; 256];
                            for (i, x) in lut.as_ref().ok_or("no table")?.iter().enumerate() {
                                s[i] = *x == name;
                            }
                            edges.push(Edge { sets: vec![s], bump: b, to: t });
                        } else if let Pat::Wild(_) = a.pat {
                            if b != 0 {
                                return Err("bump on a miss".into());
                            }
                            dflt = Some(t);
                        } else {
                            edges.push(Edge { sets: vec![set(&a.pat)?], bump: b, to: t });
                        }
                    }
                    if table {
                        if let Some(i) = m.arms.iter().position(|a| a.pat.to_token_stream().to_string().replace(' ', "") == "Jump::__") {
                            // the entries `__` are the miss
                            let e = edges.remove(i);
                            if e.bump != 0 {
                                return Err("bump on a miss".into());
                            }
                            dflt = Some(e.to);
                        } else if (0..256).any(|b| !edges.iter().any(|e| e.sets[0][b])) {
                            return Err("a byte without a jump".into());
                        } else {
                            dflt = Some(none.clone());
                        }
                    }
                    return Ok(F::Read { k, need, none, dflt: dflt.ok_or("no default")?, edges });
                }
                // match lex.read::<&[u8; n]>() { Some(&[..]) => .., _ => .. }
                let (k, need) = read(&m.expr)?;
                for a in &m.arms {
                    let (b, t) = target(&a.body)?;
                    match &a.pat {
                        Pat::Wild(_) if b == 0 => dflt = Some(t),
                        Pat::TupleStruct(ts) if ts.path.is_ident("Some") && ts.elems.len() == 1 && a.guard.is_none() => {
                            let mut p = &ts.elems[0];
                            if let Pat::Reference(r) = p {
                                p = &r.pat;
                            }
                            let sets = match p {
                                Pat::Slice(s) => s.elems.iter().map(set).collect::<R<Vec<_>>>()?,
                                Pat::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => b
                                    .value()
                                    .iter()
                                    .map(|b| {
                                        let mut s = [false; 256];
                                        s[*b as usize] = true;
                                        s
                                    })
                                    .collect(),
                                p => vec![set(p)?],
                            };
                            if sets.len() != need {
                                return Err("length of a pattern".into());
                            }
                            edges.push(Edge { sets, bump: b, to: t });
                        }
                        p => return Err(format!("arm {}", p.to_token_stream())),
                    }
                }
                let d = dflt.ok_or("no default")?;
                return Ok(F::Read { k, need, none: d.clone(), dflt: d, edges });
            }
            _ => return Err(format!("statement {}", s.to_token_stream().to_string().chars().take(80).collect::<String>())),
        }
    }
    Err("no result".into())
}

/// what is known when a function is entered: see `contracts/lex/table.rs`
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Ann {
    me: usize,
    mk: usize,
    ce: usize,
    ck: usize,
    /// the token is still empty
    z: usize,
}
/// continuation bytes still to come after a byte of the set
fn mstep(m: usize, s: &Set) -> Option<usize> {
    if m > 0 {
        return if (0..256).all(|b| !s[b] || (0x80..0xC0).contains(&b)) { Some(m - 1) } else { None };
    }
    for (lo, hi, r) in [(0, 0x80, 0), (0xC0, 0xE0, 1), (0xE0, 0xF0, 2), (0xF0, 0xF8, 3)] {
        if (0..256).all(|b| !s[b] || (lo..hi).contains(&b)) {
            return Some(r);
        }
    }
    None
}
fn colons(s: &Set) -> Option<bool> {
    if !s[58] {
        Some(false)
    } else if (0..256).all(|b| s[b] == (b == 58)) {
        Some(true)
    } else {
        None
    }
}

pub struct Lexed {
    pub text: String,
    pub states: usize,
}

/// What `contracts/lex` proves stands in the contracts of the crate between `//@lex` and `//@end`: the same text is used here.
fn shared(cdir: &str, f: &str) -> String {
    let t = std::fs::read_to_string(format!("{}/{}", cdir, f)).expect("contracts");
    let mut o = String::new();
    let mut on = false;
    for l in t.lines() {
        match l {
            "//@lex" => on = true,
            "//@end" => on = false,
            _ if on => {
                o.push_str(l);
                o.push('\n');
            }
            _ => {}
        }
    }
    o
}
/// the table, what it means, and the proof about it
pub fn crate_text(cdir: &str, table: &str) -> String {
    let r = |f: &str| std::fs::read_to_string(format!("{}/lex/{}", cdir, f)).expect("contracts/lex");
    format!(
        "#![allow(unused_imports, dead_code)]\nuse vstd::prelude::*;\nverus! {{\npub mod sh {{ use vstd::prelude::*;\n{}{}}}\n{}{}{}{}}} // verus!\nfn main() {{}}\n",
        shared(cdir, "prelude.rs"),
        shared(cdir, "spec_n.rs"),
        r("table.rs"),
        r("compute.rs").replace("//@table\n", table),
        r("proof.rs").replace("//@shared\n", &(shared(cdir, "spec_a.rs") + &shared(cdir, "spec_c.rs"))),
        r("nproof.rs")
    )
}

pub fn run(e: &ItemEnum) -> R<Lexed> {
    let variants: Vec<String> = e.variants.iter().map(|v| v.ident.to_string()).collect();
    if e.variants.iter().any(|v| !matches!(v.fields, Fields::Unit)) {
        return Err("a token with fields".into());
    }
    let gen = logos_codegen::generate(e.to_token_stream());
    let imp: ItemImpl = parse2(gen).map_err(|e| format!("generated code: {}", e))?;
    let lex = imp.items.iter().find_map(|i| if let ImplItem::Fn(f) = i { if f.sig.ident == "lex" { Some(f) } else { None } } else { None }).ok_or("no lex function")?;
    let mut fs: BTreeMap<String, F> = BTreeMap::new();
    let mut root = None;
    for s in &lex.block.stmts {
        match s {
            Stmt::Item(Item::Fn(f)) => {
                let n = f.sig.ident.to_string();
                let b: String = f.block.to_token_stream().to_string().replace(' ', "");
                match n.as_str() {
                    "_end" if b == "{lex.end()}" => {}
                    "_error" if b == "{lex.bump_unchecked(1);lex.error();}" => {}
                    _ => {
                        fs.insert(n.clone(), function(f).map_err(|e| format!("{}: {}", n, e))?);
                    }
                }
            }
            Stmt::Item(Item::Use(_)) | Stmt::Item(Item::Type(_)) | Stmt::Macro(_) | Stmt::Item(Item::Macro(_)) => {}
            Stmt::Expr(x, _) => {
                if let (0, Tgt::F(f)) = target(x)? {
                    root = Some(f);
                }
            }
            s => return Err(format!("lex: {}", s.to_token_stream().to_string().chars().take(80).collect::<String>())),
        }
    }
    let root = root.ok_or("no entry")?;
    // states: functions with what is known when they are entered
    let z = Ann { me: 0, mk: 0, ce: 0, ck: 0, z: 1 };
    type Key = (Tgt2, Ann);
    #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
    enum Tgt2 {
        F(String),
        Err0,
        Err1,
        End,
    }
    let t2 = |t: &Tgt| match t {
        Tgt::F(f) => Tgt2::F(f.clone()),
        Tgt::Err0 => Tgt2::Err0,
        Tgt::Err1 => Tgt2::Err1,
        Tgt::End => Tgt2::End,
    };
    let kof = |t: &Tgt| -> usize {
        if let Tgt::F(f) = t {
            if let Some(F::Read { k, .. }) = fs.get(f) {
                return *k;
            }
        }
        0
    };
    // successors with annotations; a byte set is split where one annotation does not fit all of it
    struct Node {
        lab: i64,
        k: usize,
        need: usize,
        none: Key,
        dflt: Key,
        edges: Vec<(Vec<Set>, usize, Key)>,
    }
    let mut nodes: HashMap<Key, Node> = HashMap::new();
    let rootkey: Key = (Tgt2::F(root.clone()), z);
    let mut todo = vec![rootkey.clone()];
    while let Some(key) = todo.pop() {
        if nodes.contains_key(&key) {
            continue;
        }
        let an = key.1;
        let leaf = |lab: i64| Node { lab, k: 0, need: 0, none: key.clone(), dflt: key.clone(), edges: vec![] };
        let node = match &key.0 {
            Tgt2::Err0 => leaf(100),
            Tgt2::Err1 => leaf(101),
            Tgt2::End => leaf(102),
            Tgt2::F(f) => match fs.get(f).ok_or_else(|| format!("no function {}", f))? {
                F::Leaf(t) => leaf(variants.iter().position(|v| v == t).ok_or("unknown token")? as i64),
                F::Read { k, need, none, dflt, edges } => {
                    let back = |t: &Tgt| -> Key {
                        let kk = kof(t);
                        // the same offset, or back to the end of the token; an error state keeps what is known
                        let a = if kk == *k && *k > 0 || matches!(t, Tgt::Err1) { an } else { Ann { mk: an.me, ck: 0, ..an } };
                        (t2(t), a)
                    };
                    let mut es = vec![];
                    for e in edges {
                        // split the last set by what it tells
                        let mut parts: Vec<Vec<Set>> = vec![e.sets.clone()];
                        for i in 0..e.sets.len() {
                            let mut next = vec![];
                            for p in parts {
                                for (lo, hi, colon) in [(0usize, 0x80usize, false), (58, 59, true), (0x80, 0xC0, false), (0xC0, 0xE0, false), (0xE0, 0xF0, false), (0xF0, 0x100, false)] {
                                    let mut q = p.clone();
                                    for b in 0..256 {
                                        q[i][b] = p[i][b] && (lo..hi).contains(&b) && (colon || b != 58);
                                    }
                                    if q[i].iter().any(|x| *x) {
                                        next.push(q);
                                    }
                                }
                            }
                            parts = next;
                        }
                        for sets in parts {
                            let mut mk = an.mk;
                            let mut ck = an.ck;
                            for s in &sets {
                                mk = mstep(mk, s).unwrap_or(9);
                                ck |= colons(s).map_or(9, |x| x as usize);
                            }
                            let a = if e.bump == 0 { Ann { me: an.me, mk, ce: an.ce, ck, z: an.z } } else { Ann { me: mk, mk, ce: an.ce | ck, ck: 0, z: 0 } };
                            es.push((sets, e.bump, (t2(&e.to), a)));
                        }
                    }
                    Node { lab: -1, k: *k, need: *need, none: back(none), dflt: back(dflt), edges: es }
                }
            },
        };
        if node.lab < 0 {
            todo.push(node.none.clone());
            todo.push(node.dflt.clone());
            todo.extend(node.edges.iter().map(|e| e.2.clone()));
        }
        nodes.insert(key, node);
        if nodes.len() > 20000 {
            return Err("too many states".into());
        }
    }
    // numbers that grow along every step that does not move the end of the token
    fn visit(k: &Key, nodes: &HashMap<Key, Node>, mark: &mut HashMap<Key, u8>, out: &mut Vec<Key>) -> R<()> {
        match mark.get(k) {
            Some(2) => return Ok(()),
            Some(_) => return Err("a cycle that reads nothing".into()),
            None => {}
        }
        mark.insert(k.clone(), 1);
        let n = &nodes[k];
        if n.lab < 0 {
            visit(&n.none, nodes, mark, out)?;
            visit(&n.dflt, nodes, mark, out)?;
            for e in n.edges.iter().filter(|e| e.1 == 0) {
                visit(&e.2, nodes, mark, out)?;
            }
        }
        mark.insert(k.clone(), 2);
        out.push(k.clone());
        Ok(())
    }
    let mut keys: Vec<Key> = nodes.keys().cloned().collect();
    keys.sort();
    let (mut mark, mut order) = (HashMap::new(), vec![]);
    for k in &keys {
        visit(k, &nodes, &mut mark, &mut order)?;
    }
    order.reverse();
    let id: HashMap<Key, usize> = order.iter().enumerate().map(|(i, k)| (k.clone(), i)).collect();
    let ranges = |s: &Set| -> String {
        let mut v = vec![];
        let mut b = 0;
        while b < 256 {
            if s[b] {
                let a = b;
                while b < 256 && s[b] {
                    b += 1;
                }
                v.push(format!("({},{})", a, b - 1));
            } else {
                b += 1;
            }
        }
        format!("seq![{}]", v.join(","))
    };
    // states entered after a part of a group (letters, digits, hyphens) has been read
    let gb = |b: usize| b == 45 || (48..58).contains(&b) || (65..91).contains(&b) || (97..123).contains(&b);
    let mut far: BTreeSet<usize> = BTreeSet::new();
    let mut todo = vec![rootkey.clone()];
    while let Some(k) = todo.pop() {
        let n = &nodes[&k];
        if n.lab >= 0 {
            continue;
        }
        let mut next = vec![];
        if n.need == 1 {
            for b in (0..256).filter(|b| gb(*b)) {
                next.push(n.edges.iter().find(|e| e.0[0][b]).map_or(&n.dflt, |e| &e.2));
            }
        } else {
            next.push(&n.dflt);
            next.extend(n.edges.iter().filter(|e| e.0.iter().all(|s| (0..256).any(|b| s[b] && gb(b)))).map(|e| &e.2));
        }
        for x in next {
            if far.insert(id[x]) {
                todo.push(x.clone());
            }
        }
    }
    let mut farr: Vec<(usize, usize)> = vec![];
    for q in far {
        match farr.last_mut() {
            Some(r) if r.1 + 1 == q => r.1 = q,
            _ => farr.push((q, q)),
        }
    }
    let mut o = String::new();
    let mut leaves = vec![];
    // patterns by number
    let mut pats: Vec<String> = vec![];
    for k in &order {
        let n = &nodes[k];
        let a = k.1;
        // sets that lead to the same place in one go, unless they say something about colons or UTF-8
        let mut es: Vec<(Vec<Set>, usize, usize)> = vec![];
        for (s, b, t) in &n.edges {
            match es.iter_mut().find(|x| s.len() == 1 && x.0.len() == 1 && x.1 == *b && x.2 == id[t] && colons(&x.0[0]).is_some() && colons(&x.0[0]) == colons(&s[0]) && mstep(0, &x.0[0]).is_some() && mstep(0, &x.0[0]) == mstep(0, &s[0])) {
                Some(x) => (0..256).for_each(|i| x.0[0][i] |= s[0][i]),
                None => es.push((s.clone(), *b, id[t])),
            }
        }
        let eds: Vec<String> = es
            .iter()
            .map(|(s, b, t)| {
                let r = format!("seq![{}]", s.iter().map(&ranges).collect::<Vec<_>>().join(","));
                let i = pats.iter().position(|x| *x == r).unwrap_or_else(|| {
                    pats.push(r);
                    pats.len() - 1
                });
                format!("ed({},{},{})", i, b, t)
            })
            .collect();
        let eds = if eds.is_empty() { "Seq::empty()".to_string() } else { format!("seq![{}]", eds.join(", ")) };
        let ann = 10000 * a.z + 1000 * a.me + 100 * a.mk + 10 * a.ce + a.ck;
        leaves.push(if n.lab >= 0 { format!("leaf({},{})", n.lab, ann) } else { format!("rd({},{},{},{},{},{})", n.k, n.need, id[&n.none], id[&n.dflt], ann, eds) });
    }
    writeln!(o, "pub open spec fn leaf(lab: int, a: int) -> St {{ St {{ lab, k: 0, need: 0, none: 0, dflt: 0, ed: Seq::empty(), z: a / 10000, me: a / 1000 % 10, mk: a / 100 % 10, ce: a / 10 % 10, ck: a % 10 }} }}").unwrap();
    writeln!(o, "pub open spec fn rd(k: int, need: int, none: int, dflt: int, a: int, ed: Seq<Ed>) -> St {{ St {{ lab: -1, k, need, none, dflt, ed, z: a / 10000, me: a / 1000 % 10, mk: a / 100 % 10, ce: a / 10 % 10, ck: a % 10 }} }}").unwrap();
    writeln!(o, "pub open spec fn ed(p: int, b: int, to: int) -> Ed {{ Ed {{ p, b, to }} }}").unwrap();
    fn ptree(lo: usize, hi: usize, v: &[String]) -> String {
        if hi - lo <= 1 {
            v.get(lo).cloned().unwrap_or_else(|| "Seq::empty()".into())
        } else {
            let m = (lo + hi) / 2;
            format!("if p < {} {{ {} }} else {{ {} }}", m, ptree(lo, m, v), ptree(m, hi, v))
        }
    }
    writeln!(o, "#[verifier::memoize] pub closed spec fn pat(p: int) -> Seq<Seq<(int, int)>> {{ {} }}", ptree(0, pats.len(), &pats)).unwrap();
    let chunk = 16;
    for (i, c) in leaves.chunks(chunk).enumerate() {
        write!(o, "pub open spec fn c_{}(q: int) -> St {{ ", i).unwrap();
        for (j, x) in c.iter().enumerate() {
            if j + 1 < c.len() {
                write!(o, "if q == {} {{ {} }} else ", i * chunk + j, x).unwrap();
            } else {
                writeln!(o, "{{ {} }} }}", x).unwrap();
            }
        }
    }
    fn tree(lo: usize, hi: usize, chunk: usize) -> String {
        if hi - lo == 1 {
            format!("c_{}(q)", lo)
        } else {
            let m = (lo + hi) / 2;
            format!("if q < {} {{ {} }} else {{ {} }}", m * chunk, tree(lo, m, chunk), tree(m, hi, chunk))
        }
    }
    let nc = leaves.len().div_ceil(chunk);
    writeln!(o, "#[verifier::memoize] pub closed spec fn st(q: int) -> St {{ {} }}", tree(0, nc, chunk)).unwrap();
    writeln!(o, "pub closed spec fn farset() -> Seq<(int, int)> {{ seq![{}] }}", farr.iter().map(|(a, b)| format!("({},{})", a, b)).collect::<Vec<_>>().join(",")).unwrap();
    writeln!(o, "pub closed spec fn nst() -> int {{ {} }}", leaves.len()).unwrap();
    writeln!(o, "pub closed spec fn root() -> int {{ {} }}", id[&rootkey]).unwrap();
    writeln!(o, "pub enum Token {{ {} }}", variants.join(", ")).unwrap();
    write!(o, "pub open spec fn token(lab: int) -> Tok {{ ").unwrap();
    for (i, v) in variants.iter().enumerate() {
        write!(o, "if lab == {} {{ Tok::Ok(Token::{}) }} else ", i, v).unwrap();
    }
    writeln!(o, "{{ Tok::Err(LexError) }} }}").unwrap();
    for (i, v) in variants.iter().enumerate() {
        writeln!(o, "pub open spec fn n_{}() -> int {{ {} }}", v, i).unwrap();
    }
    Ok(Lexed { text: o, states: leaves.len() })
}
