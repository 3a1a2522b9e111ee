//! Contract files (*.vc): specifications spliced onto the extracted functions.
use std::collections::BTreeMap;

#[derive(Default, Clone)]
pub struct Ghost {
    pub anchor: Vec<String>,
    pub text: String,
}
#[derive(Default, Clone)]
pub struct FnContract {
    pub present: bool,
    pub trusted: bool,
    pub skip: bool,
    pub decl: bool,
    pub attrs: Vec<String>,
    pub hides: Vec<String>,
    pub group: Option<String>,
    pub spec: Vec<String>,
    pub loops: BTreeMap<usize, String>,
    pub ghosts: Vec<Ghost>,
}
#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub impls: BTreeMap<String, String>,
    pub skips: Vec<String>,
    pub modules: BTreeMap<String, String>,
    pub lits: Vec<String>,
    /// other loop contracts and ghost code for a function
    pub alts: BTreeMap<String, Vec<FnContract>>,
}

fn expand(s: &str) -> Vec<String> {
    if let (Some(a), Some(b)) = (s.find('{'), s.find('}')) {
        s[a + 1..b].split(',').flat_map(|x| expand(&format!("{}{}{}", &s[..a], x.trim(), &s[b + 1..]))).collect()
    } else {
        vec![s.to_string()]
    }
}

impl Contracts {
    pub fn load(dir: &str) -> Self {
        let mut me = Contracts::default();
        let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "vc")).collect();
        files.sort();
        for f in files {
            me.parse(&std::fs::read_to_string(&f).unwrap(), &f.to_string_lossy());
        }
        let ks: Vec<String> = me.fns.keys().filter(|k| k.contains('\u{0}')).cloned().collect();
        for k in ks {
            let c = me.fns.remove(&k).unwrap();
            me.alts.entry(k.split('\u{0}').next().unwrap().to_string()).or_default().push(c);
        }
        me
    }
    fn parse(&mut self, text: &str, file: &str) {
        enum Cur {
            None,
            Fn(Vec<String>),
            Loop(Vec<String>, usize),
            Ghost(Vec<String>),
            Impl(Vec<String>),
            Module(String),
        }
        let mut cur = Cur::None;
        let mut fnk: Vec<String> = vec![];
        for (n, l) in text.lines().enumerate() {
            let t = l.trim();
            if t.starts_with("//#") {
                continue;
            }
            if let Some(r) = t.strip_prefix('@') {
                let (w, rest) = r.split_once(char::is_whitespace).unwrap_or((r, ""));
                let rest = rest.trim();
                match w {
                    "fn" => {
                        fnk = expand(rest);
                        for k in &fnk {
                            if self.fns.contains_key(k) {
                                panic!("{}:{}: duplicate contract {}", file, n + 1, k);
                            }
                            self.fns.insert(k.clone(), FnContract { present: true, ..Default::default() });
                        }
                        cur = Cur::Fn(fnk.clone());
                    }
                    "alt" => {
                        fnk = expand(rest).iter().map(|k| format!("{}\u{0}{}", k, self.fns.keys().filter(|x| x.starts_with(&format!("{}\u{0}", k))).count())).collect();
                        for k in &fnk {
                            self.fns.insert(k.clone(), FnContract { present: true, ..Default::default() });
                        }
                        cur = Cur::Fn(fnk.clone());
                    }
                    "trusted" => fnk.iter().for_each(|k| self.fns.get_mut(k).unwrap().trusted = true),
                    "skip" => fnk.iter().for_each(|k| self.fns.get_mut(k).unwrap().skip = true),
                    "decl" => fnk.iter().for_each(|k| self.fns.get_mut(k).unwrap().decl = true),
                    "attr" => fnk.iter().for_each(|k| self.fns.get_mut(k).unwrap().attrs.push(rest.to_string())),
                    "hide" => fnk.iter().for_each(|k| self.fns.get_mut(k).unwrap().hides.extend(rest.split_whitespace().map(|s| s.to_string()))),
                    "group" => fnk.iter().for_each(|k| self.fns.get_mut(k).unwrap().group = Some(rest.to_string())),
                    "loop" => cur = Cur::Loop(fnk.clone(), rest.parse().unwrap()),
                    "ghost" => {
                        for k in &fnk {
                            self.fns.get_mut(k).unwrap().ghosts.push(Ghost { anchor: rest.split_whitespace().map(|s| s.to_string()).collect(), text: String::new() });
                        }
                        cur = Cur::Ghost(fnk.clone());
                    }
                    "impl" => {
                        let ks = expand(rest);
                        for k in &ks {
                            self.impls.entry(k.clone()).or_default();
                        }
                        cur = Cur::Impl(ks);
                    }
                    "skipimpl" => {
                        self.skips.extend(expand(rest));
                        cur = Cur::None;
                    }
                    "module" => {
                        self.modules.entry(rest.to_string()).or_default();
                        cur = Cur::Module(rest.to_string());
                    }
                    _ => panic!("{}:{}: unknown directive {}", file, n + 1, w),
                }
                continue;
            }
            match &cur {
                Cur::None => {
                    if !t.is_empty() && !t.starts_with("//") {
                        panic!("{}:{}: stray text", file, n + 1)
                    }
                }
                Cur::Fn(ks) => ks.iter().for_each(|k| {
                    if !t.is_empty() {
                        self.fns.get_mut(k).unwrap().spec.push(l.to_string())
                    }
                }),
                Cur::Loop(ks, i) => ks.iter().for_each(|k| {
                    let e = self.fns.get_mut(k).unwrap().loops.entry(*i).or_default();
                    e.push_str(l);
                    e.push('\n');
                }),
                Cur::Ghost(ks) => ks.iter().for_each(|k| {
                    let g = self.fns.get_mut(k).unwrap().ghosts.last_mut().unwrap();
                    g.text.push_str(l);
                    g.text.push('\n');
                }),
                Cur::Impl(ks) => ks.iter().for_each(|k| {
                    let e = self.impls.get_mut(k).unwrap();
                    e.push_str(l);
                    e.push('\n');
                }),
                Cur::Module(m) => {
                    let e = self.modules.get_mut(m).unwrap();
                    e.push_str(l);
                    e.push('\n');
                }
            }
        }
    }
    /// Keeps what the function promises, and proves it with other loop contracts and ghost code.
    pub fn use_alt(&mut self, p: &str, k: usize) {
        if let (Some(a), Some(e)) = (self.alts.get(p).and_then(|v| v.get(k)).cloned(), self.fns.get_mut(p)) {
            e.loops = a.loops;
            e.ghosts = a.ghosts;
            if !a.hides.is_empty() {
                e.hides = a.hides;
            }
            if a.group.is_some() {
                e.group = a.group;
            }
            e.attrs.extend(a.attrs);
        }
    }
    pub fn get_fn(&self, p: &str) -> FnContract {
        self.fns.get(p).cloned().unwrap_or_default()
    }
    pub fn skip_impl(&self, k: &str) -> bool {
        self.skips.iter().any(|s| s == k)
    }
    pub fn impl_extra(&self, k: &str) -> Option<String> {
        self.impls.get(k).cloned()
    }
    pub fn module_extra(&self, k: &str) -> Option<String> {
        self.modules.get(k).cloned()
    }
}

/// Replace L"text" by the spec constant of that literal.
pub fn subst_lits(cx: &mut crate::Cx, s: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if (b[i] == 'L' || b[i] == 'R') && i + 1 < b.len() && b[i + 1] == '"' && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut j = i + 2;
            let mut lit = String::new();
            while b[j] != '"' {
                if b[j] == '\\' {
                    j += 1;
                    lit.push(match b[j] {
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        c => c,
                    });
                } else {
                    lit.push(b[j]);
                }
                j += 1;
            }
            let id = crate::lit_id(cx, &lit);
            if b[i] == 'R' { out.push_str(&format!("reveal(crate::lits::l_{})", id)); } else { out.push_str(&format!("crate::lits::l_{}()", id)); }
            i = j + 1;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}
