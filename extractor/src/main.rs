//! Mechanical extractor: copies the functions named in the contract files out of /repo's current
//! source, applies a fixed list of syntactic edits (see DESIGN.md, "What the extraction changes"),
//! and weaves in the contracts.  It never rewrites an expression by meaning: every edit is keyed
//! on syntax only, and everything else of the function's text is carried over byte for byte.
use proc_macro2::{LineColumn, Span};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod cells;
mod macros;

// ------------------------------------------------------------------ contracts

#[derive(Default, Clone, Debug)]
struct FnContract {
    name: String,
    unit: String,
    ret: Option<String>,
    attrs: Vec<String>,
    spec: String,
    with: String,
    entry: String,
    tail: String,
    loops: BTreeMap<usize, String>,
    loop_begin: BTreeMap<usize, String>,
    loop_end: BTreeMap<usize, String>,
    loop_done: BTreeMap<usize, String>,
    closures: BTreeMap<usize, (Option<String>, bool, String)>, // type, additive, text
    before: Vec<(String, usize, String)>,
    after: Vec<(String, usize, String)>,
    replace: Vec<(String, String)>,
    trusted: bool,
    formats: bool,
    floats: Vec<String>,
    fvecs: Vec<String>,
    panic_when: Option<String>,
}

#[derive(Clone, Debug)]
enum Item {
    Fn(FnContract),
    Type(String, Vec<String>),
}

fn parse_contracts(path: &Path) -> Vec<Item> {
    let unit = path.file_stem().unwrap().to_string_lossy().to_string();
    let text = fs::read_to_string(path).unwrap();
    let mut out: Vec<Item> = vec![];
    let mut cur: Option<FnContract> = None;
    let mut sec: Option<(String, String)> = None; // header, body
    fn flush(cur: &mut Option<FnContract>, sec: &mut Option<(String, String)>) {
        if let (Some(c), Some((h, body))) = (cur.as_mut(), sec.take()) {
            let mut it = h.splitn(2, char::is_whitespace);
            let key = it.next().unwrap().to_string();
            let arg = it.next().unwrap_or("").trim().to_string();
            match key.as_str() {
                "@spec" => c.spec.push_str(&body),
                "@with" => c.with.push_str(&body),
                "@entry" => c.entry.push_str(&body),
                "@tail" => c.tail.push_str(&body),
                "@loop" => {
                    c.loops.insert(arg.parse().unwrap(), body);
                }
                "@loopbegin" => {
                    c.loop_begin.insert(arg.parse().unwrap(), body);
                }
                "@loopdone" => {
                    c.loop_done.insert(arg.parse().unwrap(), body);
                }
                "@loopend" => {
                    c.loop_end.insert(arg.parse().unwrap(), body);
                }
                "@closure" | "@closure+" => {
                    let (n, ty) = match arg.find(':') {
                        Some(i) => (arg[..i].trim().to_string(), Some(arg[i + 1..].trim().to_string())),
                        None => (arg.clone(), None),
                    };
                    c.closures
                        .insert(n.parse().unwrap(), (ty, key == "@closure+", body));
                }
                "@before" | "@after" => {
                    let (k, needle) = if let Some(rest) = arg.strip_prefix('#') {
                        let mut it = rest.splitn(2, char::is_whitespace);
                        (it.next().unwrap().parse().unwrap(), it.next().unwrap_or("").to_string())
                    } else {
                        (1usize, arg.clone())
                    };
                    if key == "@before" {
                        c.before.push((needle, k, body));
                    } else {
                        c.after.push((needle, k, body));
                    }
                }
                "@ret" => c.ret = Some(arg),
                "@attr" => c.attrs.push(arg),
                "@trusted" => c.trusted = true,
                "@formats" => c.formats = true,
                // names of floating-point numbers, and of sequences of them (`.x` for a field)
                "@floats" => c.floats = arg.split_whitespace().map(String::from).collect(),
                "@fvecs" => c.fvecs = arg.split_whitespace().map(String::from).collect(),
                "@panic" => c.panic_when = Some(arg),
                "@replace" => {
                    let i = arg.find("=>").expect("@replace A => B");
                    c.replace
                        .push((arg[..i].trim().to_string(), arg[i + 2..].trim().to_string()));
                }
                _ => panic!("unknown section {} in {}", key, c.name),
            }
        }
    }
    for line in text.lines() {
        let t = line.trim_start();
        if t.starts_with("//@") {
            continue;
        }
        if t.starts_with("@fn ") || t.starts_with("@type ") {
            flush(&mut cur, &mut sec);
            if let Some(c) = cur.take() {
                out.push(Item::Fn(c));
            }
            if let Some(n) = t.strip_prefix("@fn ") {
                cur = Some(FnContract {
                    name: n.trim().to_string(),
                    unit: unit.clone(),
                    ..Default::default()
                });
            } else {
                let mut it = t.strip_prefix("@type ").unwrap().splitn(2, ' ');
                let n = it.next().unwrap().trim().to_string();
                let at = it.next().map(|x| x.trim().to_string());
                out.push(Item::Type(n, at.into_iter().collect()));
            }
        } else if t.starts_with('@') && cur.is_some() {
            flush(&mut cur, &mut sec);
            sec = Some((t.trim_end().to_string(), String::new()));
        } else if let Some((_, b)) = sec.as_mut() {
            b.push_str(line);
            b.push('\n');
        }
    }
    flush(&mut cur, &mut sec);
    if let Some(c) = cur.take() {
        out.push(Item::Fn(c));
    }
    out
}

// ------------------------------------------------------------------ source index

struct SrcFile {
    rel: String,
    text: String,
    line_starts: Vec<usize>,
}
impl SrcFile {
    fn off(&self, lc: LineColumn) -> usize {
        // column is in chars
        let ls = self.line_starts[lc.line - 1];
        let line = &self.text[ls..];
        line.char_indices()
            .nth(lc.column)
            .map(|(i, _)| ls + i)
            .unwrap_or(self.text.len())
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn line_of(&self, off: usize) -> usize {
        match self.line_starts.binary_search(&off) {
            Ok(i) => i + 1,
            Err(i) => i,
        }
    }
}

struct FnEntry {
    file: usize,
    impl_header: Option<String>,
    in_trait_impl: bool,
    sig: syn::Signature,
    block: syn::Block,
    start: usize, // offset of visibility / fn keyword (attributes dropped)
    end: usize,
}
struct TyEntry {
    file: usize,
    start: usize,
    end: usize,
    attr_ranges: Vec<(usize, usize)>,
}

#[derive(Default)]
struct Index {
    files: Vec<SrcFile>,
    fns: BTreeMap<String, Vec<FnEntry>>,
    types: BTreeMap<String, Vec<TyEntry>>,
    all_fn_names: BTreeSet<String>,
}

fn is_test_cfg(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && quote::quote!(#a).to_string().replace(' ', "").contains("cfg(test)")
    })
}

fn norm(s: &str) -> String {
    // whitespace-insensitive comparison form; comments removed
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if b[i].is_whitespace() {
            i += 1;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

impl Index {
    fn add_items(&mut self, fi: usize, items: &[syn::Item]) {
        for it in items {
            match it {
                syn::Item::Fn(f) if !is_test_cfg(&f.attrs) => {
                    let sf = &self.files[fi];
                    let start = match &f.vis {
                        syn::Visibility::Inherited => sf.off(f.sig.span().start()),
                        v => sf.off(v.span().start()),
                    };
                    let end = sf.off(f.span().end());
                    let name = f.sig.ident.to_string();
                    let stem = Path::new(&sf.rel).with_extension("").to_string_lossy().to_string();
                    self.all_fn_names.insert(name.clone());
                    let e = FnEntry {
                        file: fi,
                        impl_header: None,
                        in_trait_impl: false,
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        start,
                        end,
                    };
                    self.fns.entry(format!("{}::{}", stem, name)).or_default().push(e);
                }
                syn::Item::Impl(im) if !is_test_cfg(&im.attrs) => {
                    let sf = &self.files[fi];
                    let hs = sf.off(im.impl_token.span().start());
                    let he = sf.off(im.brace_token.span.open().start());
                    let header = sf.text[hs..he].to_string();
                    let ty = norm(&{
                        let (a, b) = sf.range(im.self_ty.span());
                        sf.text[a..b].to_string()
                    });
                    let ty_base = ty.split('<').next().unwrap().to_string();
                    let key = match &im.trait_ {
                        Some((_, p, _)) => {
                            let (a, b) = sf.range(p.span());
                            format!("<{} for {}>", norm(&sf.text[a..b]), ty)
                        }
                        None => ty_base,
                    };
                    let in_trait = im.trait_.is_some();
                    let mut add = vec![];
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let start = match &f.vis {
                                syn::Visibility::Inherited => sf.off(f.sig.span().start()),
                                v => sf.off(v.span().start()),
                            };
                            let end = sf.off(f.span().end());
                            add.push((
                                format!("{}::{}", key, f.sig.ident),
                                FnEntry {
                                    file: fi,
                                    impl_header: Some(header.clone()),
                                    in_trait_impl: in_trait,
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    start,
                                    end,
                                },
                            ));
                        }
                    }
                    for (k, e) in add {
                        self.all_fn_names.insert(e.sig.ident.to_string());
                        self.fns.entry(k).or_default().push(e);
                    }
                }
                syn::Item::Struct(s) if !is_test_cfg(&s.attrs) => {
                    self.add_type(fi, s.ident.to_string(), s.span(), &s.attrs, s.fields.iter().flat_map(|f| f.attrs.iter()));
                }
                syn::Item::Enum(s) if !is_test_cfg(&s.attrs) => {
                    let v: Vec<syn::Attribute> = s.variants.iter().flat_map(|v| v.attrs.clone()).collect();
                    self.add_type(fi, s.ident.to_string(), s.span(), &s.attrs, v.iter());
                }
                syn::Item::Type(s) => self.add_type(fi, s.ident.to_string(), s.span(), &s.attrs, [].iter()),
                syn::Item::Const(s) => self.add_type(fi, s.ident.to_string(), s.span(), &s.attrs, [].iter()),
                syn::Item::Mod(m) if !is_test_cfg(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        self.add_items(fi, items);
                    }
                }
                _ => {}
            }
        }
    }
    fn add_type<'a>(
        &mut self,
        fi: usize,
        name: String,
        span: Span,
        attrs: &'a [syn::Attribute],
        fattrs: impl Iterator<Item = &'a syn::Attribute>,
    ) {
        let sf = &self.files[fi];
        let (start, end) = sf.range(span);
        let mut ar: Vec<(usize, usize)> = attrs.iter().map(|a| sf.range(a.span())).collect();
        ar.extend(fattrs.map(|a| sf.range(a.span())));
        self.types.entry(name).or_default().push(TyEntry {
            file: fi,
            start,
            end,
            attr_ranges: ar,
        });
    }
    fn find_fn(&self, name: &str) -> Result<&FnEntry, String> {
        let mut hits: Vec<&FnEntry> = vec![];
        for (k, v) in &self.fns {
            if k == name || (!name.contains("::") && k.ends_with(&format!("::{}", name)) && v[0].impl_header.is_none())
                || (k.ends_with(&format!("/{}", name)))
            {
                hits.extend(v.iter());
            }
        }
        match hits.len() {
            1 => Ok(hits[0]),
            0 => Err(format!("function {} not found", name)),
            n => Err(format!("function {} ambiguous ({} hits)", name, n)),
        }
    }
}

// ------------------------------------------------------------------ edits

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Open,
    Close,
    Replace(usize),
}
#[derive(Clone, Debug)]
struct Edit {
    pos: usize,
    kind: Kind,
    text: String,
    seq: usize,
}

struct Ctx<'a> {
    sf: &'a SrcFile,
    edits: Vec<Edit>,
    seq: usize,
    loops: usize,
    closures: usize,
    contract: &'a FnContract,
    problems: Vec<String>,
    used_loops: BTreeSet<usize>,
    used_closures: BTreeSet<usize>,
    /// closure in the text -> closure the contract was written for (1-based), when their numbers differ
    align: Option<&'a [usize]>,
    seen_closures: Vec<(String, String)>,
    soft: Vec<String>,
    rewrites: BTreeMap<String, usize>,
    stmts: Vec<(usize, usize)>,
    method_stack: Vec<String>,
    calls: BTreeSet<String>,
    mut_params: Vec<String>,
    rename_self: bool,
    floats: BTreeSet<String>,
    fvecs: BTreeSet<String>,
}

impl<'a> Ctx<'a> {
    fn t(&self, s: Span) -> &'a str {
        let (a, b) = self.sf.range(s);
        &self.sf.text[a..b]
    }
    fn ins_open(&mut self, pos: usize, text: impl Into<String>) {
        self.seq += 1;
        let seq = self.seq;
        self.edits.push(Edit { pos, kind: Kind::Open, text: text.into(), seq });
    }
    fn ins_close(&mut self, pos: usize, text: impl Into<String>) {
        self.seq += 1;
        let seq = self.seq;
        self.edits.push(Edit { pos, kind: Kind::Close, text: text.into(), seq });
    }
    fn repl(&mut self, a: usize, b: usize, text: impl Into<String>) {
        self.seq += 1;
        let seq = self.seq;
        self.edits.push(Edit { pos: a, kind: Kind::Replace(b), text: text.into(), seq });
    }
    fn note(&mut self, what: &str) {
        *self.rewrites.entry(what.to_string()).or_default() += 1;
    }

    /// syntactically a floating-point expression
    fn is_float(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Paren(p) => self.is_float(&p.expr),
            syn::Expr::Group(p) => self.is_float(&p.expr),
            syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Float(_)),
            syn::Expr::Cast(c) => is_f64(&norm(self.t(c.ty.span()))),
            syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Neg(_) | syn::UnOp::Deref(_)) && self.is_float(&u.expr),
            syn::Expr::Index(i) => self.is_fvec(&i.expr) && !matches!(&*i.index, syn::Expr::Range(_)),
            syn::Expr::Binary(b) => {
                matches!(b.op, syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_) | syn::BinOp::Div(_)) && (self.is_float(&b.left) || self.is_float(&b.right))
            }
            syn::Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "floor" | "ceil" | "round" | "trunc" | "abs" | "max" | "min") && self.is_float(&m.receiver),
            syn::Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.floats.contains(&i.to_string())),
            _ => false,
        }
    }

    /// syntactically a sequence of floating-point numbers
    fn is_fvec(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Paren(p) => self.is_fvec(&p.expr),
            syn::Expr::Reference(r) => self.is_fvec(&r.expr),
            syn::Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.fvecs.contains(&i.to_string())),
            syn::Expr::Field(f) => matches!(&f.member, syn::Member::Named(i) if self.fvecs.contains(&format!(".{}", i))),
            _ => false,
        }
    }
    fn note_type(&mut self, name: &syn::Ident, ty: &str) {
        let ty = ty.trim_start_matches('&').trim_start_matches("mut ").trim();
        if is_f64(ty) {
            self.floats.insert(name.to_string());
        }
        if is_fvec_type(ty) {
            self.fvecs.insert(name.to_string());
        }
    }

    /// rewrite a pattern so that it has no `&` sub-patterns; returns (pattern text, prelude lets)
    fn pat_no_ref(&mut self, p: &syn::Pat, top: bool) -> (String, String) {
        match p {
            syn::Pat::Reference(r) => {
                let inner = self.t(r.pat.span()).to_string();
                self.seq += 1;
                let v = format!("vp_r{}", self.seq);
                // nested & inside the reference
                let (inner_txt, more) = self.pat_no_ref(&r.pat, true);
                let _ = inner;
                let lets = format!("let {} = *{}; {}", inner_txt, v, more);
                self.note("ref-pattern");
                (v, lets)
            }
            syn::Pat::TupleStruct(ts) => {
                let mut parts = vec![];
                let mut lets = String::new();
                for e in &ts.elems {
                    let (t, l) = self.pat_no_ref(e, false);
                    parts.push(t);
                    lets.push_str(&l);
                }
                (format!("{}({})", self.t(ts.path.span()), parts.join(", ")), lets)
            }
            syn::Pat::Tuple(ts) => {
                let mut parts = vec![];
                let mut lets = String::new();
                for e in &ts.elems {
                    let (t, l) = self.pat_no_ref(e, false);
                    parts.push(t);
                    lets.push_str(&l);
                }
                let trail = if parts.len() == 1 { "," } else { "" };
                (format!("({}{})", parts.join(", "), trail), lets)
            }
            syn::Pat::Type(pt) if top => {
                let (t, l) = self.pat_no_ref(&pt.pat, true);
                let ty = self.t(pt.ty.span()).to_string();
                (format!("{}: {}", t, ty), l)
            }
            _ => (self.t(p.span()).to_string(), String::new()),
        }
    }
}

/// Spec-mode rendering of a closure body; `None` if it cannot be read as a specification.
fn is_f64(ty: &str) -> bool { ty == "f64" || ty == "RankScore" }
fn is_fvec_type(ty: &str) -> bool { matches!(ty, "Vec<f64>" | "Vec<RankScore>" | "[f64]" | "[RankScore]" | "Vec < f64 >" | "Vec < RankScore >") }
struct SpecV<'a> {
    sf: &'a SrcFile,
    edits: Vec<Edit>,
    ok: bool,
    seq: usize,
    index_req: Vec<(usize, usize, usize, usize)>,
}
impl<'a, 'ast> Visit<'ast> for SpecV<'a> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Index(ix) => {
                let (a, b) = self.sf.range(ix.index.span());
                let (c, d) = self.sf.range(ix.expr.span());
                self.seq += 2;
                self.edits.push(Edit { pos: a, kind: Kind::Open, text: "(".into(), seq: self.seq });
                self.edits.push(Edit { pos: b, kind: Kind::Close, text: ") as int".into(), seq: self.seq + 1 });
                self.index_req.push((c, d, a, b));
                if matches!(&*ix.index, syn::Expr::Range(_)) {
                    self.ok = false;
                }
                visit::visit_expr(self, e);
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if matches!(
                    n.as_str(),
                    "iter" | "into_iter" | "clone" | "cloned" | "collect" | "to_vec" | "push" | "insert" | "remove" | "copied" | "map"
                ) || m.turbofish.is_some()
                {
                    self.ok = false;
                }
                visit::visit_expr(self, e);
            }
            syn::Expr::Binary(b) => {
                match b.op {
                    syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_) => self.ok = false,
                    _ => {}
                }
                visit::visit_expr(self, e);
            }
            syn::Expr::Path(_)
            | syn::Expr::Lit(_)
            | syn::Expr::Field(_)
            | syn::Expr::Call(_)
            | syn::Expr::Unary(_)
            | syn::Expr::Reference(_)
            | syn::Expr::Paren(_)
            | syn::Expr::Cast(_)
            | syn::Expr::Tuple(_) => visit::visit_expr(self, e),
            syn::Expr::Block(b) if b.block.stmts.len() == 1 => visit::visit_expr(self, e),
            _ => self.ok = false,
        }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        match s {
            syn::Stmt::Expr(e, None) => self.visit_expr(e),
            _ => self.ok = false,
        }
    }
    fn visit_macro(&mut self, _m: &'ast syn::Macro) {
        self.ok = false;
    }
}

fn render(text: &str, a: usize, b: usize, edits: &[Edit]) -> String {
    let mut es: Vec<&Edit> = edits
        .iter()
        .filter(|e| match e.kind {
            Kind::Open | Kind::Close => e.pos >= a && e.pos <= b,
            Kind::Replace(r) => e.pos >= a && r <= b,
        })
        .collect();
    // at one position: closes (inner first = later seq first), then opens (outer first), then replaces
    es.sort_by(|x, y| {
        let rank = |e: &Edit| match e.kind {
            Kind::Close => 0,
            Kind::Open => 1,
            Kind::Replace(_) => 2,
        };
        x.pos
            .cmp(&y.pos)
            .then(rank(x).cmp(&rank(y)))
            .then(if rank(x) == 0 { y.seq.cmp(&x.seq) } else { x.seq.cmp(&y.seq) })
    });
    let mut out = String::new();
    let mut cur = a;
    for e in es {
        if e.pos < cur {
            continue; // inside a replaced range
        }
        out.push_str(&text[cur..e.pos]);
        cur = e.pos;
        out.push_str(&e.text);
        if let Kind::Replace(r) = e.kind {
            cur = r;
        }
    }
    out.push_str(&text[cur..b]);
    out
}

const BOOL_METHODS: &[&str] = &[
    "filter", "all", "any", "find", "position", "take_while", "skip_while", "partition", "retain",
];
const LOG_MACROS: &[&str] = &["debug", "info", "warn", "error", "trace", "println", "eprintln", "print", "eprint"];

impl<'a> Ctx<'a> {
    fn handle_macro(&mut self, mac: &syn::Macro, stmt: Option<(usize, usize)>) {
        let name = mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let (a, b) = self.sf.range(mac.span());
        let parse_args = |m: &syn::Macro| -> Option<Vec<syn::Expr>> {
            m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated)
                .ok()
                .map(|p| p.into_iter().collect())
        };
        if LOG_MACROS.contains(&name.as_str()) {
            self.note("dropped-log-macro");
            match stmt {
                Some((x, y)) => self.repl(x, y, ""),
                None => self.repl(a, b, "()"),
            }
            return;
        }
        match name.as_str() {
            "assert" | "debug_assert" => {
                if let Some(args) = parse_args(mac) {
                    self.note("assert-macro");
                    let (x, y) = self.sf.range(args[0].span());
                    match self.contract.panic_when.clone() {
                        None => {
                            self.repl(a, x, "v_assert(");
                            self.repl(y, b, ")");
                        }
                        Some(w) => {
                            self.repl(a, x, "v_assert_when(");
                            self.repl(y, b, format!(", Ghost({}))", w));
                        }
                    }
                    self.visit_expr(&args[0]);
                    return;
                }
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                if let Some(args) = parse_args(mac) {
                    self.note("assert-macro");
                    let (x, y) = self.sf.range(args[0].span());
                    let (z, w) = self.sf.range(args[1].span());
                    self.repl(a, x, "v_assert((");
                    self.repl(y, z, if name.ends_with("_ne") { ") != (" } else { ") == (" });
                    self.repl(w, b, "))");
                    self.visit_expr(&args[0]);
                    self.visit_expr(&args[1]);
                    return;
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.note("panic-macro");
                match self.contract.panic_when.clone() {
                    None => self.repl(a, b, "v_panic()"),
                    Some(w) => self.repl(a, b, format!("v_panic_when(Ghost({}))", w)),
                }
                return;
            }
            "format" => {
                if self.contract.formats {
                    if let Some(args) = parse_args(mac) {
                        if self.split_format(a, b, &args) {
                            return;
                        }
                    }
                }
                // an unspecified string
                self.note("format-macro");
                self.repl(a, b, "v_format()");
                return;
            }
            "bitset" => {
                if let Some(args) = parse_args(mac) {
                    self.note("bitset-macro");
                    if args.is_empty() {
                        self.repl(a, b, "BitSet::new()");
                    } else {
                        let n = args.len();
                        let mut prev = a;
                        for (i, e) in args.iter().enumerate() {
                            let (x, y) = self.sf.range(e.span());
                            if i == 0 {
                                self.repl(prev, x, format!("{}BitSet::new(), ", "v_bs_with(".repeat(n)));
                            } else {
                                self.repl(prev, x, "), ");
                            }
                            prev = y;
                            self.visit_expr(e);
                        }
                        self.repl(prev, b, ")");
                    }
                    return;
                }
            }
            "vec" => {
                if mac.tokens.is_empty() {
                    self.note("vec-macro");
                    self.repl(a, b, "Vec::new()");
                    return;
                }
                if let Some(args) = parse_args(mac) {
                    self.note("vec-macro");
                    let n = args.len();
                    let mut prev = a;
                    for (i, e) in args.iter().enumerate() {
                        let (x, y) = self.sf.range(e.span());
                        if i == 0 {
                            self.repl(prev, x, format!("{}Vec::new(), ", "v_vec_with(".repeat(n)));
                        } else {
                            self.repl(prev, x, "), ");
                        }
                        prev = y;
                        self.visit_expr(e);
                    }
                    self.repl(prev, b, ")");
                    return;
                }
                // vec![x; n]
                if let Ok(rep) = mac.parse_body_with(|input: syn::parse::ParseStream| {
                    let x: syn::Expr = input.parse()?;
                    let _: syn::Token![;] = input.parse()?;
                    let n: syn::Expr = input.parse()?;
                    Ok((x, n))
                }) {
                    self.note("vec-macro");
                    let (x, y) = self.sf.range(rep.0.span());
                    let (z, w) = self.sf.range(rep.1.span());
                    self.repl(a, x, "v_vec_repeat(");
                    self.repl(y, z, ", ");
                    self.repl(w, b, ")");
                    self.visit_expr(&rep.0);
                    self.visit_expr(&rep.1);
                    return;
                }
            }
            _ => {}
        }
        self.problems.push(format!("unsupported macro {}!", name));
    }

    /// `format!("a{}b", x)` with plain `{}` or `{name}` holes, taken apart into its pieces
    fn split_format(&mut self, a: usize, b: usize, args: &[syn::Expr]) -> bool {
        let lit = match args.first() {
            Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) => l.value(),
            _ => return false,
        };
        enum P {
            C(char),
            Arg,
            Name(String),
        }
        let mut ps = vec![];
        let mut it = lit.chars().peekable();
        let mut used = 0;
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    ps.push(P::C('{'));
                }
                '}' if it.peek() == Some(&'}') => {
                    it.next();
                    ps.push(P::C('}'));
                }
                '{' => {
                    let mut h = String::new();
                    loop {
                        match it.next() {
                            Some('}') => break,
                            Some(x) => h.push(x),
                            None => return false,
                        }
                    }
                    if h.is_empty() {
                        used += 1;
                        ps.push(P::Arg);
                    } else if h.chars().all(|x| x.is_alphanumeric() || x == '_') && !h.starts_with(|x: char| x.is_numeric()) {
                        ps.push(P::Name(h));
                    } else {
                        return false;
                    }
                }
                '}' => return false,
                c => ps.push(P::C(c)),
            }
        }
        if used != args.len() - 1 {
            return false;
        }
        self.note("format-split");
        let mut txt = String::new();
        for p in ps.iter().rev() {
            txt.push_str(if let P::C(_) = p { "v_fc(" } else { "v_fs(" });
        }
        txt.push_str("v_f0()");
        let mut from = a;
        let mut k = 1;
        for p in &ps {
            match p {
                P::C(c) => txt.push_str(&format!(", {:?})", c)),
                P::Name(n) => txt.push_str(&format!(", &({}))", n)),
                P::Arg => {
                    txt.push_str(", &(");
                    let (x, y) = self.sf.range(args[k].span());
                    self.repl(from, x, std::mem::replace(&mut txt, "))".to_string()));
                    self.visit_expr(&args[k]);
                    from = y;
                    k += 1;
                }
            }
        }
        self.repl(from, b, txt);
        true
    }

    fn handle_closure(&mut self, c: &syn::ExprClosure) {
        self.closures += 1;
        let k = self.closures;
        let method = self.method_stack.last().cloned().unwrap_or_default();
        self.seen_closures.push((method.clone(), norm(self.t(c.span()))));
        let kc = self.align.map_or(k, |a| a.get(k - 1).copied().unwrap_or(0));
        let mut over = self.contract.closures.get(&kc).cloned();
        if over.is_some() {
            self.used_closures.insert(kc);
        }
        // parameters; `$1`, `$2`, … in a contract stand for their names
        let mut lets = String::new();
        let mut pnames: Vec<String> = vec![];
        for p in &c.inputs {
            match p {
                syn::Pat::Ident(i) => {
                    pnames.push(i.ident.to_string());
                    if let Some(m) = &i.mutability {
                        let (a, _) = self.sf.range(m.span());
                        let (_, b) = self.sf.range(i.ident.span());
                        self.repl(a, b, i.ident.to_string());
                        lets.push_str(&format!("let mut {i} = {i}; ", i = i.ident));
                        self.note("closure-mut-parameter");
                    }
                }
                syn::Pat::Wild(_) => pnames.push("_".into()),
                syn::Pat::Type(pt) if matches!(&*pt.pat, syn::Pat::Ident(_)) => {
                    if let syn::Pat::Ident(i) = &*pt.pat { pnames.push(i.ident.to_string()) }
                }
                syn::Pat::Type(pt) => {
                    let (t, l) = self.pat_no_ref(&pt.pat, true);
                    let (a, b) = self.sf.range(pt.pat.span());
                    if matches!(&*pt.pat, syn::Pat::Reference(_)) {
                        pnames.push(t.clone());
                        self.repl(a, b, t);
                        lets.push_str(&l);
                    } else {
                        let v = format!("vp_c{}", k);
                        pnames.push(v.clone());
                        self.repl(a, b, v.clone());
                        lets.push_str(&format!("let {} = {}; {}", t, v, l));
                    }
                }
                syn::Pat::Reference(_) => {
                    let (t, l) = self.pat_no_ref(p, true);
                    let (a, b) = self.sf.range(p.span());
                    pnames.push(t.clone());
                    self.repl(a, b, t);
                    lets.push_str(&l);
                }
                _ => {
                    let (t, l) = self.pat_no_ref(p, true);
                    let (a, b) = self.sf.range(p.span());
                    let v = format!("vp_c{}", k);
                    pnames.push(v.clone());
                    self.repl(a, b, v.clone());
                    lets.push_str(&format!("let {} = {}; {}", t, v, l));
                    self.note("closure-pattern");
                }
            }
        }
        if let Some(o) = over.as_mut() {
            for (i, n) in pnames.iter().enumerate() {
                o.2 = o.2.replace(&format!("${}", i + 1), n);
            }
        }
        // spec rendering of the body
        let (ba, bb) = self.sf.range(c.body.span());
        let mut sv = SpecV { sf: self.sf, edits: vec![], ok: true, seq: 0, index_req: vec![] };
        sv.visit_expr(&c.body);
        let spec_txt = if sv.ok {
            Some(render(&self.sf.text, ba, bb, &sv.edits))
        } else {
            None
        };
        let idx_req: Vec<String> = if sv.ok {
            sv.index_req
                .iter()
                .map(|(c, d, a, b)| {
                    format!(
                        "({}) < ({})@.len()",
                        render(&self.sf.text, *a, *b, &[]),
                        render(&self.sf.text, *c, *d, &sv.edits)
                    )
                })
                .collect()
        } else {
            vec![]
        };
        let mut_locals = lets.contains("let mut ") || lets.contains("(mut ") || c.inputs.iter().any(|p| self.t(p.span()).trim_start().starts_with("mut "));
        let ret_ty: String = match (&c.output, over.as_ref().and_then(|o| o.0.clone())) {
            (_, Some(t)) => t,
            (syn::ReturnType::Type(_, t), None) => self.t(t.span()).to_string(),
            _ if BOOL_METHODS.contains(&method.as_str()) => "bool".into(),
            _ => "_".into(),
        };
        let is_bool = ret_ty == "bool";
        let with_lets = |s: &str| -> String {
            if lets.is_empty() {
                format!("({})", s)
            } else {
                format!("({{ {} {} }})", lets, s)
            }
        };
        let auto_ens = spec_txt.as_ref().filter(|_| !mut_locals).map(|s| {
            if is_bool {
                format!("vr == {}", with_lets(s))
            } else {
                format!("veq(vr, {})", with_lets(s))
            }
        });
        let auto_req: Vec<String> = idx_req.iter().map(|r| with_lets(r)).collect();
        let head = match &over {
            Some((_, false, txt)) => format!(" -> (vr: {}) {} ", ret_ty, txt),
            Some((_, true, txt)) => {
                let mut h = format!(" -> (vr: {}) ", ret_ty);
                let mut reqs = auto_req.clone();
                reqs.push(txt.trim().trim_start_matches("requires").trim().trim_end_matches(',').to_string());
                h.push_str(&format!("requires {}, ", reqs.join(", ")));
                if let Some(e) = &auto_ens {
                    h.push_str(&format!("ensures {}, ", e));
                }
                h
            }
            None => {
                let mut h = format!(" -> (vr: {}) ", ret_ty);
                if !auto_req.is_empty() {
                    h.push_str(&format!("requires {}, ", auto_req.join(", ")));
                }
                if let Some(e) = &auto_ens {
                    h.push_str(&format!("ensures {}, ", e));
                }
                h
            }
        };
        self.note("closure-contract");
        // head replaces any `-> T`, body gets braces
        let or2 = self.sf.range(c.or2_token.span()).1;
        match &c.output {
            syn::ReturnType::Default => self.ins_open(ba, ""),
            syn::ReturnType::Type(_, _) => {}
        }
        self.repl(or2, ba, head);
        self.ins_open(ba, format!("{{ {}", lets));
        self.ins_close(bb, " }");
        self.method_stack.push(String::new());
        visit::visit_expr(self, &c.body);
        if let syn::Expr::MethodCall(_) | syn::Expr::Closure(_) | syn::Expr::Macro(_) = &*c.body {}
        self.method_stack.pop();
    }
}

impl<'a, 'ast> Visit<'ast> for Ctx<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let (a, b) = self.sf.range(s.span());
        self.stmts.push((a, b));
        if let syn::Stmt::Macro(m) = s {
            self.handle_macro(&m.mac, if m.semi_token.is_some() { Some((a, b)) } else { None });
            return;
        }
        visit::visit_stmt(self, s);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.handle_macro(m, None);
    }
    fn visit_item(&mut self, _i: &'ast syn::Item) {
        self.problems.push("nested item".into());
    }
    fn visit_expr_lit(&mut self, l: &'ast syn::ExprLit) {
        if let syn::Lit::Float(f) = &l.lit {
            // only integral literals are given a meaning
            let v: f64 = f.base10_parse().unwrap_or(f64::NAN);
            let (a, b) = self.sf.range(l.span());
            if v.fract() == 0. && v >= 0. && v < 9e15 {
                self.repl(a, b, format!("v_f64({}usize)", v as u64));
                self.note("float");
            } else {
                // a decimal fraction: the float nearest to the ratio
                let d = f.base10_digits();
                match d.split_once('.') {
                    Some((i, r)) if !d.contains(|c: char| !(c.is_ascii_digit() || c == '.')) && d.len() < 18 => {
                        let num: u64 = format!("{}{}", i, r).parse().unwrap_or(0);
                        self.repl(a, b, format!("v_flit({}u64, {}u64)", num, 10u64.pow(r.len() as u32)));
                        self.note("float");
                    }
                    _ => self.problems.push("float literal".into()),
                }
            }
        }
    }
    /// the crate has `BitSet<B = u32>`; the argument says nothing about the elements
    fn visit_type_path(&mut self, t: &'ast syn::TypePath) {
        if let Some(s) = t.path.segments.last() {
            if s.ident == "BitSet" && !s.arguments.is_empty() {
                let (a, b) = self.sf.range(s.span());
                self.repl(a, b, "BitSet");
                return;
            }
        }
        visit::visit_type_path(self, t);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if self.rename_self && p.path.is_ident("self") {
            let (a, b) = self.sf.range(p.span());
            self.repl(a, b, "vp_self");
        }
    }
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        let ty = norm(self.t(c.ty.span()));
        let w = if is_f64(&ty) {
            "v_f64("
        } else if self.is_float(&c.expr) {
            if ty != "usize" {
                self.problems.push("float cast".into());
            }
            "v_f_usize("
        } else {
            return visit::visit_expr_cast(self, c);
        };
        self.note("float");
        let (a, b) = self.sf.range(c.span());
        let (_, e) = self.sf.range(c.expr.span());
        self.ins_open(a, w);
        self.visit_expr(&c.expr);
        self.repl(e, b, ")");
    }
    fn visit_expr_binary(&mut self, x: &'ast syn::ExprBinary) {
        // `x == None` as `x.is_none()`
        if matches!(x.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && matches!(&*x.right, syn::Expr::Path(p) if p.path.is_ident("None")) {
            let (a, _) = self.sf.range(x.span());
            let (_, lb) = self.sf.range(x.left.span());
            let (_, b) = self.sf.range(x.span());
            self.note("is-none");
            self.ins_open(a, "(");
            self.visit_expr(&x.left);
            self.repl(lb, b, format!(").{}()", if matches!(x.op, syn::BinOp::Eq(_)) { "is_none" } else { "is_some" }));
            return;
        }
        if self.is_float(&x.left) || self.is_float(&x.right) {
            let f = match x.op {
                syn::BinOp::Add(_) => "v_fadd(",
                syn::BinOp::Sub(_) => "v_fsub(",
                syn::BinOp::Mul(_) => "v_fmul(",
                syn::BinOp::Div(_) => "v_fdiv(",
                syn::BinOp::Ge(_) => "v_fge(",
                syn::BinOp::Gt(_) => "v_fgt(",
                syn::BinOp::Le(_) => "v_fle(",
                syn::BinOp::Lt(_) => "v_flt(",
                syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::MulAssign(_) | syn::BinOp::DivAssign(_) => {
                    // `x += e` as `x = x + e`
                    let f = match x.op {
                        syn::BinOp::AddAssign(_) => "v_fadd(",
                        syn::BinOp::SubAssign(_) => "v_fsub(",
                        syn::BinOp::MulAssign(_) => "v_fmul(",
                        _ => "v_fdiv(",
                    };
                    self.note("float");
                    let left = self.t(x.left.span()).to_string();
                    let (_, b) = self.sf.range(x.span());
                    let (_, le) = self.sf.range(x.left.span());
                    let (rb, _) = self.sf.range(x.right.span());
                    self.ins_close(b, ")");
                    self.visit_expr(&x.left);
                    self.repl(le, rb, format!(" = {}{}, ", f, left));
                    self.visit_expr(&x.right);
                    return;
                }
                _ => return visit::visit_expr_binary(self, x),
            };
            self.note("float");
            let (a, b) = self.sf.range(x.span());
            let (_, le) = self.sf.range(x.left.span());
            let (rb, _) = self.sf.range(x.right.span());
            self.ins_open(a, f);
            self.ins_close(b, ")");
            self.visit_expr(&x.left);
            self.repl(le, rb, ", ");
            self.visit_expr(&x.right);
            return;
        }
        visit::visit_expr_binary(self, x);
    }
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        // for a `Result` whose error type is the function's own; anything else is refused by the verifier
        let (a, b) = self.sf.range(e.expr.span());
        let (_, q) = self.sf.range(e.question_token.span());
        self.ins_open(a, "(match ");
        self.visit_expr(&e.expr);
        self.repl(b, q, " { Ok(v_ok) => v_ok, Err(v_er) => return Err(v_er) })");
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        if let syn::Expr::Let(l) = &*e.cond {
            let (t, lets) = self.pat_no_ref(&l.pat, false);
            if !lets.is_empty() {
                let (a, b) = self.sf.range(l.pat.span());
                self.repl(a, b, t);
                let p = self.sf.range(e.then_branch.brace_token.span.open()).1;
                self.ins_open(p, format!(" {}", lets));
            }
            self.visit_expr(&l.expr);
            self.visit_block(&e.then_branch);
            if let Some((_, x)) = &e.else_branch {
                self.visit_expr(x);
            }
            return;
        }
        visit::visit_expr_if(self, e);
    }
    fn visit_arm(&mut self, arm: &'ast syn::Arm) {
        let (t, lets) = self.pat_no_ref(&arm.pat, false);
        if !lets.is_empty() {
            if arm.guard.is_some() {
                self.problems.push("guarded ref pattern".into());
            }
            let (a, b) = self.sf.range(arm.pat.span());
            self.repl(a, b, t);
            let (c, d) = self.sf.range(arm.body.span());
            self.ins_open(c, format!("{{ {}", lets));
            self.ins_close(d, " }");
        }
        visit::visit_arm(self, arm);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        // `let &x = e;`
        let p = match &l.pat {
            syn::Pat::Type(pt) => {
                self.visit_type(&pt.ty);
                if let syn::Pat::Ident(pi) = &*pt.pat {
                    let ty = norm(self.t(pt.ty.span()));
                    self.note_type(&pi.ident, &ty);
                }
                &*pt.pat
            }
            p => p,
        };
        if let (syn::Pat::Ident(pi), Some(init)) = (p, &l.init) {
            if self.is_float(&init.expr) {
                self.floats.insert(pi.ident.to_string());
            }
        }
        let (t, lets) = self.pat_no_ref(p, false);
        if !lets.is_empty() {
            let (a, b) = self.sf.range(p.span());
            self.repl(a, b, t);
            let e = self.sf.range(l.span()).1;
            self.ins_close(e, format!(" {}", lets));
        }
        if let Some(init) = &l.init {
            self.visit_expr(&init.expr);
            if let Some((_, d)) = &init.diverge {
                self.visit_expr(d);
            }
        }
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        self.loops += 1;
        let k = self.loops;
        let inv = self.contract.loops.get(&k).cloned();
        if inv.is_none() {
            self.problems.push(format!("loop {} has no invariant", k));
        } else {
            self.used_loops.insert(k);
        }
        if f.label.is_some() {
            self.problems.push("labelled loop".into());
        }
        self.note("for-loop");
        let (mut t, mut lets) = self.pat_no_ref(&f.pat, true);
        // `for x in v.iter_mut()`: a loop over positions
        let iter_mut = match &*f.expr {
            syn::Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some((&*m.receiver, self.sf.range(m.receiver.span()))),
            _ => None,
        };
        if let Some((_, (ra, rb))) = iter_mut {
            let mut rt = self.sf.text[ra..rb].to_string();
            if self.rename_self && rt.starts_with("self.") {
                rt = format!("vp_{}", rt);
            }
            lets = format!("let {} = &mut {}[vp_i{}]; {}", t, rt, k, lets);
            t = format!("vp_i{}", k);
            self.note("iter-mut-loop");
        }
        let (fa, _) = self.sf.range(f.for_token.span());
        let (ea, eb) = self.sf.range(f.expr.span());
        let body_open = self.sf.range(f.body.brace_token.span.open());
        let body_close = self.sf.range(f.body.brace_token.span.close());
        self.repl(fa, ea, format!("{{ let mut it{} = (", k));
        let lb = format!(
            "{}{}",
            self.contract.entry.lines().filter(|l| l.trim_start().starts_with("broadcast use")).collect::<Vec<_>>().join("\n"),
            self.contract.loop_begin.get(&k).cloned().unwrap_or_default()
        );
        let le = self.contract.loop_end.get(&k).cloned().unwrap_or_default();
        // `except_break` lines hold where the loop goes on, not where it is left
        let inv = inv.unwrap_or_default();
        let eb_lines: Vec<&str> = inv.lines().filter_map(|l| l.trim_start().strip_prefix("except_break ")).collect();
        let except = if eb_lines.is_empty() { String::new() } else { format!("   invariant_except_break {}\n", eb_lines.join("\n")) };
        let inv: String = inv.lines().filter(|l| !l.trim_start().starts_with("except_break ")).collect::<Vec<_>>().join("\n");
        self.repl(
            eb,
            body_open.1,
            format!(
                ").v_into_iter(); let ghost it{k}_all = it{k}.seq(); while it{k}.v_has_next()\n{except}   invariant it{k}.seq() == it{k}_all, 0 <= it{k}.pos() <= it{k}.seq().len(),\n{inv}\n   decreases it{k}.seq().len() - it{k}.pos()\n {{ let ghost it{k}_i = it{k}.pos(); let {t} = it{k}.v_next(); {lets} {lb}",
                k = k,
                inv = inv,
                except = except,
                t = t,
                lets = lets,
                lb = lb
            ),
        );
        match iter_mut {
            Some((r, (ra, rb))) => {
                self.ins_open(ra, "v_range(0, ");
                self.visit_expr(r);
                self.repl(rb, eb, ".len())");
            }
            None => self.visit_expr(&f.expr),
        }
        self.visit_block(&f.body);
        let ld = self.contract.loop_done.get(&k).cloned().unwrap_or_default();
        self.repl(body_close.0, body_close.1, format!("{} }} {} }}", le, ld));
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        self.loops += 1;
        let k = self.loops;
        let inv = self.contract.loops.get(&k).cloned();
        if inv.is_none() {
            self.problems.push(format!("loop {} has no invariant", k));
        } else {
            self.used_loops.insert(k);
        }
        let mut lets_txt = String::new();
        if let syn::Expr::Let(l) = &*w.cond {
            let (t, lets) = self.pat_no_ref(&l.pat, false);
            if !lets.is_empty() {
                let (a, b) = self.sf.range(l.pat.span());
                self.repl(a, b, t);
                lets_txt = lets;
            }
            self.visit_expr(&l.expr);
        } else {
            self.visit_expr(&w.cond);
        }
        let body_open = self.sf.range(w.body.brace_token.span.open());
        let body_close = self.sf.range(w.body.brace_token.span.close());
        let lb = format!(
            "{}{}",
            self.contract.entry.lines().filter(|l| l.trim_start().starts_with("broadcast use")).collect::<Vec<_>>().join("\n"),
            self.contract.loop_begin.get(&k).cloned().unwrap_or_default()
        );
        let le = self.contract.loop_end.get(&k).cloned().unwrap_or_default();
        self.repl(
            body_open.0,
            body_open.1,
            format!("\n{}\n {{ {} {}", inv.unwrap_or_default(), lets_txt, lb),
        );
        self.visit_block(&w.body);
        self.repl(body_close.0, body_close.1, format!("{} }}", le));
    }
    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        self.loops += 1;
        let k = self.loops;
        let inv = self.contract.loops.get(&k).cloned();
        if inv.is_none() {
            self.problems.push(format!("loop {} has no invariant", k));
        } else {
            self.used_loops.insert(k);
        }
        let body_open = self.sf.range(w.body.brace_token.span.open());
        self.repl(body_open.0, body_open.1, format!("\n{}\n {{ ", inv.unwrap_or_default()));
        self.visit_block(&w.body);
    }
    fn visit_expr_range(&mut self, r: &'ast syn::ExprRange) {
        if r.start.is_none() && r.end.is_none() {
            let (a, b) = self.sf.range(r.span());
            self.repl(a, b, "v_full()");
            return;
        }
        if r.start.is_none() || r.end.is_none() {
            self.problems.push("half-open range".into());
        }
        if let (Some(s), Some(e)) = (&r.start, &r.end) {
            if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                self.note("range");
                let (a, _) = self.sf.range(r.span());
                let (_, sb) = self.sf.range(s.span());
                let (ea, eb) = self.sf.range(e.span());
                self.ins_open(a, "v_range(");
                self.repl(sb, ea, ", ");
                self.ins_close(eb, ")");
            } else {
                self.note("range");
                let (a, _) = self.sf.range(r.span());
                let (_, sb) = self.sf.range(s.span());
                let (ea, eb) = self.sf.range(e.span());
                self.ins_open(a, "v_range_incl(");
                self.repl(sb, ea, ", ");
                self.ins_close(eb, ")");
            }
        }
        visit::visit_expr_range(self, r);
    }
    fn visit_expr_index(&mut self, ix: &'ast syn::ExprIndex) {
        if let syn::Expr::Range(_) = &*ix.index {
            self.problems.push("slice range".into());
            return;
        }
        visit::visit_expr_index(self, ix);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(s) = p.path.segments.last() {
                self.calls.insert(s.ident.to_string());
            }
            let (a, b) = self.sf.range(p.span());
            if matches!(norm(&self.sf.text[a..b]).as_str(), "String::from" | "PublicKey::from") {
                self.repl(a, b, "v_string_from");
                self.note("call-rename");
            }
        }
        self.method_stack.push(String::new());
        visit::visit_expr_call(self, c);
        self.method_stack.pop();
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let n = m.method.to_string();
        self.calls.insert(n.clone());
        let (a, b) = self.sf.range(m.method.span());
        if matches!(
            n.as_str(),
            "iter" | "into_iter" | "to_vec" | "clone" | "sort_unstable" | "sort" | "dedup" | "sort_by_key" | "sort_by_cached_key" | "extend"
                | "unwrap_or_default" | "into" | "try_into" | "retain" | "sort_by" | "partial_cmp" | "floor" | "ceil"
                | "extend_from_slice" | "drain" | "shuffle" | "choose" | "choose_weighted" | "resize_with" | "to_owned" | "push_str" | "lines" | "parse" | "split" | "starts_with" | "ends_with" | "binary_search" | "register_event" | "serialize" | "to_string"
        ) {
            self.repl(a, b, format!("v_{}", n));
            self.note("method-rename");
        } else if (n == "cmp" || n == "hash") && matches!(&*m.receiver, syn::Expr::Field(_)) {
            self.repl(a, b, format!("v_{}", n));
            self.note("method-rename");
        } else if n == "next" {
            self.repl(a, b, "v_next_opt");
            self.note("method-rename");
        } else if matches!(n.as_str(), "abs" | "max" | "min") && self.is_float(&m.receiver) {
            self.repl(a, b, format!("v_{}", n));
            self.note("method-rename");
        } else if n == "sum" {
            if let Some(t) = &m.turbofish {
                let (ta, tb) = self.sf.range(t.span());
                self.repl(ta, tb, "");
            }
        }
        self.method_stack.push(String::new());
        self.visit_expr(&m.receiver);
        self.method_stack.pop();
        self.method_stack.push(n);
        for x in &m.args {
            self.visit_expr(x);
        }
        self.method_stack.pop();
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.handle_closure(c);
    }
}

struct FnOut {
    text: String,
    problems: Vec<String>,
    rewrites: BTreeMap<String, usize>,
    calls: BTreeSet<String>,
    loops: usize,
    src_line: usize,
    file: String,
    hash_src: String,
    closures: Vec<(String, String)>,
    loop_shapes: Vec<String>,
    soft: Vec<String>,
    names: Vec<String>,
}

/// what the contracts were written for: the closures and the loop headers of a function
struct Shape {
    closures: Vec<(String, String)>,
    loops: Vec<String>,
    names: Vec<String>,
}

/// the names a function binds, in order
struct Names(Vec<String>);
impl<'ast> Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        // (a path in a pattern that looks like a name: constants and unit variants are capitalised)
        let n = p.ident.to_string();
        if n.starts_with(|c: char| c.is_lowercase()) {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}
fn names(sig: &syn::Signature, b: &syn::Block) -> Vec<String> {
    let mut l = Names(vec![]);
    visit::visit_signature(&mut l, sig);
    visit::visit_block(&mut l, b);
    l.0
}
/// annotations speak of a function's variables: where the text is that of before but for the names of some of
/// them (old name gone, new name not known before, at the same place), the annotations follow
fn renamed(then: &[String], now: &[String], c: &FnContract) -> Option<BTreeMap<String, String>> {
    if then.len() != now.len() {
        return None;
    }
    let mut m: BTreeMap<String, String> = Default::default();
    for (a, b) in then.iter().zip(now) {
        if a != b && (now.contains(a) || then.contains(b) || m.get(a).map_or(false, |x| x != b)) {
            return None;
        }
        m.insert(a.clone(), b.clone());
    }
    m.retain(|a, b| a != b);
    let new: BTreeSet<&String> = m.values().collect();
    let all = format!("{:?} r old", c);
    if m.is_empty() || new.len() != m.len() || new.iter().any(|b| words(&all).contains(b.as_str())) {
        return None;
    }
    Some(m)
}
fn words(t: &str) -> BTreeSet<&str> {
    t.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect()
}
fn subst(t: &str, m: &BTreeMap<String, String>) -> String {
    let cs: Vec<char> = t.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let (mut out, mut i) = (String::new(), 0);
    while i < cs.len() {
        if !word(cs[i]) {
            out.push(cs[i]);
            i += 1;
            continue;
        }
        let j = (i..cs.len()).find(|k| !word(cs[*k])).unwrap_or(cs.len());
        let w: String = cs[i..j].iter().collect();
        let field = i > 0 && cs[i - 1] == '.' && !(i > 1 && cs[i - 2] == '.');
        let call = j < cs.len() && (cs[j] == '(' || cs[j] == ':' && j + 1 < cs.len() && cs[j + 1] == ':');
        out.push_str(match m.get(&w) {
            Some(x) if !field && !call => x,
            _ => &w,
        });
        i = j;
    }
    out
}
impl FnContract {
    fn renamed(&self, m: &BTreeMap<String, String>) -> FnContract {
        let f = |t: &String| subst(t, m);
        let g = |t: &BTreeMap<usize, String>| t.iter().map(|(k, v)| (*k, subst(v, m))).collect();
        let h = |t: &Vec<(String, usize, String)>| t.iter().map(|(a, k, b)| (subst(a, m), *k, subst(b, m))).collect();
        let mut c = self.clone();
        c.spec = f(&c.spec);
        c.entry = f(&c.entry);
        c.tail = f(&c.tail);
        c.loops = g(&c.loops);
        c.loop_begin = g(&c.loop_begin);
        c.loop_end = g(&c.loop_end);
        c.loop_done = g(&c.loop_done);
        c.closures = c.closures.iter().map(|(k, (a, b, t))| (*k, (a.clone(), *b, subst(t, m)))).collect();
        c.before = h(&c.before);
        c.after = h(&c.after);
        c.replace = c.replace.iter().map(|(a, b)| (f(a), f(b))).collect();
        c.floats = c.floats.iter().map(f).collect();
        c.fvecs = c.fvecs.iter().map(f).collect();
        c.panic_when = c.panic_when.as_ref().map(f);
        c
    }
}
fn read_shapes(t: &str) -> BTreeMap<String, Shape> {
    let v: BTreeMap<String, serde_json::Value> = serde_json::from_str(t).unwrap();
    v.into_iter()
        .map(|(k, v)| {
            let get = |n: &str| v.get(n).cloned().unwrap_or_else(|| serde_json::json!([]));
            (k, Shape { closures: serde_json::from_value(get("closures")).unwrap(), loops: serde_json::from_value(get("loops")).unwrap(), names: serde_json::from_value(get("names")).unwrap() })
        })
        .collect()
}

/// the shape of an expression: method chain and ranges, without names, operators and literals
fn skel(e: &syn::Expr) -> String {
    match e {
        syn::Expr::MethodCall(m) => format!("{}.{}()", skel(&m.receiver), m.method),
        syn::Expr::Call(c) => match &*c.func {
            syn::Expr::Path(p) => format!("{}()", p.path.segments.last().map_or(String::new(), |s| s.ident.to_string())),
            _ => "?()".into(),
        },
        syn::Expr::Range(r) => format!("{}..{}", r.start.as_ref().map_or(String::new(), |x| skel(x)), r.end.as_ref().map_or(String::new(), |x| skel(x))),
        syn::Expr::Reference(r) => skel(&r.expr),
        syn::Expr::Paren(r) => skel(&r.expr),
        syn::Expr::Index(i) => format!("{}[]", skel(&i.expr)),
        syn::Expr::Binary(b) => format!("{} {}", skel(&b.left), skel(&b.right)),
        syn::Expr::Unary(b) => skel(&b.expr),
        syn::Expr::Let(l) => format!("let {}", skel(&l.expr)),
        _ => "_".into(),
    }
}
/// jumps that leave out the rest of a loop's body
struct Jumps(usize);
impl<'ast> Visit<'ast> for Jumps {
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
        self.0 += 1;
    }
    fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) {
        self.0 += 1;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
struct LoopShapes(Vec<String>, usize);
impl LoopShapes {
    fn add(&mut self, head: String, body: &syn::Block) {
        let mut j = Jumps(0);
        j.visit_block(body);
        self.0.push(format!("{}{} ^{}", ">".repeat(self.1), head, j.0));
        self.1 += 1;
        visit::visit_block(self, body);
        self.1 -= 1;
    }
}
impl<'ast> Visit<'ast> for LoopShapes {
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        self.visit_expr(&f.expr);
        self.add(format!("for {}", skel(&f.expr)), &f.body);
    }
    fn visit_expr_while(&mut self, f: &'ast syn::ExprWhile) {
        self.add(format!("while {}", skel(&f.cond)), &f.body);
    }
    fn visit_expr_loop(&mut self, f: &'ast syn::ExprLoop) {
        self.add("loop".into(), &f.body);
    }
}
fn loop_shapes(b: &syn::Block) -> Vec<String> {
    let mut l = LoopShapes(vec![], 0);
    visit::visit_block(&mut l, b);
    l.0
}

/// closures of the text matched to the closures the contract was written for: longest common subsequence of
/// the methods they are passed to, preferring equal texts
fn align_closures(now: &[(String, String)], then: &[(String, String)]) -> Vec<usize> {
    let w = |a: &(String, String), b: &(String, String)| if a == b { 5 } else if a.1 == b.1 { 4 } else if a.0 == b.0 { 2 } else { 0 };
    let (n, m) = (now.len(), then.len());
    let mut best = vec![vec![0; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            let t = w(&now[i], &then[j]);
            best[i][j] = best[i + 1][j].max(best[i][j + 1]).max(if t > 0 { t + best[i + 1][j + 1] } else { 0 });
        }
    }
    let mut res = vec![0; n];
    let (mut i, mut j) = (0, 0);
    while i < n && j < m {
        let t = w(&now[i], &then[j]);
        if t > 0 && best[i][j] == t + best[i + 1][j + 1] {
            res[i] = j + 1;
            i += 1;
            j += 1;
        } else if best[i][j] == best[i + 1][j] {
            i += 1;
        } else {
            j += 1;
        }
    }
    res
}

fn emit_fn(ix: &Index, e: &FnEntry, c: &FnContract, degrade: bool, probe: bool, shape: Option<&Shape>) -> FnOut {
    let now = names(&e.sig, &e.block);
    let map = shape.and_then(|s| renamed(&s.names, &now, c));
    let new;
    let c = match &map {
        Some(m) => {
            new = c.renamed(m);
            &new
        }
        None => c,
    };
    let mut o = emit_fn_with(ix, e, c, degrade, probe, None);
    o.names = now;
    if let (Some(m), false) = (&map, degrade || c.trusted) {
        o.soft.push(format!("variables renamed: {:?}", m));
    }
    if let Some(s) = shape {
        if !c.closures.is_empty() && s.closures.len() != o.closures.len() {
            let (n, t) = (o.names, o.soft);
            o = emit_fn_with(ix, e, c, degrade, probe, Some(&align_closures(&o.closures, &s.closures)));
            o.names = n;
            o.soft.extend(t.into_iter().filter(|x| x.starts_with("variables")));
        }
        if !degrade && !c.trusted && !c.loops.is_empty() && s.loops != o.loop_shapes {
            o.soft.push(format!("loops {:?} instead of {:?}", o.loop_shapes, s.loops));
        }
    }
    o
}

fn emit_fn_with(ix: &Index, e: &FnEntry, c: &FnContract, degrade: bool, probe: bool, align: Option<&[usize]>) -> FnOut {
    let sf = &ix.files[e.file];
    let mut cx = Ctx {
        sf,
        edits: vec![],
        seq: 0,
        loops: 0,
        closures: 0,
        contract: c,
        problems: vec![],
        used_loops: Default::default(),
        used_closures: Default::default(),
        align,
        seen_closures: vec![],
        soft: vec![],
        rewrites: Default::default(),
        stmts: vec![],
        method_stack: vec![],
        calls: Default::default(),
        mut_params: vec![],
        rename_self: false,
        floats: c.floats.iter().cloned().collect(),
        fvecs: c.fvecs.iter().cloned().collect(),
    };
    // signature: drop `mut` of by-value parameters, add a ghost name for the return value
    let mut sig_lets = String::new();
    for inp in &e.sig.inputs {
        if let syn::FnArg::Typed(pt) = inp {
            if let syn::Pat::Ident(pi) = &*pt.pat {
                if let Some(m) = &pi.mutability {
                    let (a, _) = sf.range(m.span());
                    let (_, b) = sf.range(pi.ident.span());
                    cx.repl(a, b, pi.ident.to_string());
                    sig_lets.push_str(&format!(" let mut {i} = {i};", i = pi.ident));
                    cx.note("mut-parameter");
                    cx.mut_params.push(pi.ident.to_string());
                }
                let (a, b) = sf.range(pt.ty.span());
                cx.note_type(&pi.ident, &norm(&sf.text[a..b]));
            } else if let syn::Pat::Wild(w) = &*pt.pat {
                let (a, b) = sf.range(w.span());
                cx.seq += 1;
                let v = format!("vp_u{}", cx.seq);
                cx.repl(a, b, v);
                cx.note("unnamed-parameter");
            } else {
                cx.problems.push("pattern parameter".into());
            }
        }
        if let syn::FnArg::Receiver(r) = inp {
            if r.reference.is_none() && r.mutability.is_some() {
                let (a, _) = sf.range(r.mutability.unwrap().span());
                let (b, _) = sf.range(r.self_token.span());
                cx.repl(a, b, "");
                sig_lets.push_str(" let mut vp_self = self;");
                cx.rename_self = true;
                cx.note("mut-parameter");
            }
        }
    }
    let (sig_start, block_open) = (e.start, sf.range(e.block.brace_token.span.open()).0);
    if let syn::ReturnType::Type(_, t) = &e.sig.output {
        let (a, b) = sf.range(t.span());
        let rn = c.ret.clone().unwrap_or_else(|| "r".into());
        cx.ins_open(a, format!("({}: ", rn));
        cx.ins_close(b, ")");
    }
    // where clauses stay where they are: contract goes right before the body
    let attrs: String = c.attrs.iter().map(|a| format!("{}\n", a)).collect();
    let mut body_txt;
    let trusted = degrade || c.trusted;
    if !trusted {
        visit::visit_block(&mut cx, &e.block);
        for k in c.loops.keys() {
            if !cx.used_loops.contains(k) {
                cx.soft.push(format!("contract names loop {} which does not exist", k));
            }
        }
        for k in c.closures.keys() {
            if !cx.used_closures.contains(k) {
                cx.soft.push(format!("contract names closure {} which does not exist", k));
            }
        }
        let stmts = cx.stmts.clone();
        let find = |needle: &str, k: usize| -> Option<(usize, usize)> {
            let n = norm(needle);
            stmts
                .iter()
                .filter(|(a, b)| norm(&sf.text[*a..*b]).starts_with(&n))
                .nth(k - 1)
                .copied()
        };
        for (needle, k, txt) in &c.before {
            match find(needle, *k) {
                Some((a, _)) => cx.ins_open(a, format!("{}\n", txt)),
                None => cx.soft.push(format!("anchor `{}` lost", needle)),
            }
        }
        for (needle, k, txt) in &c.after {
            match find(needle, *k) {
                Some((_, b)) => cx.ins_close(b, format!("\n{}", txt)),
                None => cx.soft.push(format!("anchor `{}` lost", needle)),
            }
        }
        if !c.tail.is_empty() {
            match e.block.stmts.last() {
                Some(syn::Stmt::Expr(x, None)) => {
                    let (a, b) = sf.range(x.span());
                    let rn = c.ret.clone().unwrap_or_else(|| "r".into());
                    let _ = rn;
                    // `collect()` needs the type
                    let ty = match &e.sig.output {
                        syn::ReturnType::Type(_, t) if sf.text[a..b].trim_end().ends_with(".collect()") => {
                            let (ta, tb) = sf.range(t.span());
                            format!(": {}", &sf.text[ta..tb])
                        }
                        _ => String::new(),
                    };
                    cx.ins_open(a, &format!("let vp_tail{} = ", ty));
                    cx.ins_close(b, format!(";\n{}\nvp_tail", c.tail));
                }
                _ => {
                    // unit function: append
                    let (a, _) = sf.range(e.block.brace_token.span.close());
                    cx.ins_open(a, format!("\n{}\n", c.tail));
                }
            }
        }
        let (ba, bb) = sf.range(e.block.span());
        body_txt = render(&sf.text, ba, bb, &cx.edits);
        // entry code right after `{`
        body_txt = format!("{{\n{}\n{}{}", sig_lets,
            if probe { format!("{}\nproof {{ assert(false); }}", c.entry) } else { c.entry.clone() },
            &body_txt[1..]);
    } else {
        body_txt = "{ unimplemented!() }".to_string();
    }
    let sig_txt = render(&sf.text, sig_start, block_open, &cx.edits);
    let mut attrs2 = attrs;
    if trusted {
        attrs2.push_str("#[verifier::external_body]\n");
    }
    let mut text = format!("{}{}{}\n{}{}\n", c.with, attrs2, sig_txt.trim_end(), c.spec, body_txt);
    let mut problems = cx.problems.clone();
    for (a, b) in &c.replace {
        if trusted || text.contains(a.as_str()) {
            text = text.replace(a.as_str(), b);
        } else {
            problems.push(format!("replacement anchor `{}` lost", a));
        }
    }
    if let Some(h) = &e.impl_header {
        // these traits carry no contract of their own: the method is checked as an inherent one
        let plain = ["Ord", "PartialOrd", "Hash", "SimulationMonitor", "AnalysisResult", "Serialize", "Deserialize<'de>"];
        let mut h = h.clone();
        for t in plain {
            for (pre, n) in [(format!("impl {} for ", t), 5), (format!("> {} for ", t), 2)] {
                if let Some(i) = h.find(&pre) {
                    h = format!("{}{}", &h[..i + n], &h[i + pre.len()..]);
                }
            }
        }
        text = format!("{} {{\n{}}}\n", h.trim_end(), text);
    }
    FnOut {
        text,
        problems: if trusted { vec![] } else { problems },
        rewrites: cx.rewrites,
        calls: cx.calls,
        loops: cx.loops,
        src_line: sf.line_of(e.start),
        file: sf.rel.clone(),
        hash_src: norm(&sf.text[e.start..e.end]),
        closures: cx.seen_closures,
        loop_shapes: loop_shapes(&e.block),
        soft: if trusted { vec![] } else { cx.soft },
        names: vec![],
    }
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = fs::read_dir(dir).unwrap().map(|x| x.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

fn main() {
    let mut repo = PathBuf::from("/repo");
    let mut contracts: Vec<PathBuf> = vec![];
    let mut specs: Vec<PathBuf> = vec![];
    let mut out = PathBuf::from("gen.rs");
    let mut map = PathBuf::from("map.json");
    let mut degrade: BTreeSet<String> = Default::default();
    let mut probe = false;
    let mut dump: Option<String> = None;
    let mut shapes: BTreeMap<String, Shape> = Default::default();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let v = it.next().unwrap();
        match a.as_str() {
            "--repo" => repo = v.into(),
            "--contracts" => contracts.extend(v.split(',').filter(|s| !s.is_empty()).map(PathBuf::from)),
            "--specs" => specs.extend(v.split(',').filter(|s| !s.is_empty()).map(PathBuf::from)),
            "--out" => out = v.into(),
            "--map" => map = v.into(),
            "--shapes" => shapes = read_shapes(&fs::read_to_string(v).unwrap()),
            "--dump" => dump = Some(v),
            "--probe" => probe = v == "1",
            "--degrade" => degrade.extend(v.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string())),
            _ => panic!("unknown option {}", a),
        }
    }
    let mut ix = Index::default();
    let mut files = vec![];
    walk(&repo.join("src"), &mut files);
    let mut parse_errors = vec![];
    for p in &files {
        let mut text = fs::read_to_string(p).unwrap();
        let rel = p.strip_prefix(&repo).unwrap().to_string_lossy().to_string();
        if text.contains("RefCell<") {
            match cells::flatten(&text) {
                Ok(t) => text = t,
                Err(e) => parse_errors.push(format!("{}: {}", rel, e)),
            }
        }
        if text.contains("macro_rules!") {
            text = macros::expand(&text);
        }
        if let Some(d) = &dump {
            if rel.contains(d.as_str()) {
                println!("{}", text);
            }
        }
        let mut ls = vec![0];
        for (i, c) in text.char_indices() {
            if c == '\n' {
                ls.push(i + 1);
            }
        }
        let parsed = syn::parse_file(&text);
        ix.files.push(SrcFile { rel: rel.clone(), text, line_starts: ls });
        let fi = ix.files.len() - 1;
        match parsed {
            Ok(f) => ix.add_items(fi, &f.items),
            Err(e) => parse_errors.push(format!("{}: {}", rel, e)),
        }
    }
    let mut gen = String::new();
    gen.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, unused_must_use, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut segs: Vec<Value> = vec![];
    let line = |g: &str| g.matches('\n').count() + 1;
    for s in &specs {
        let a = line(&gen);
        gen.push_str(&fs::read_to_string(s).unwrap());
        gen.push('\n');
        segs.push(json!({"kind":"spec","name":s.file_stem().unwrap().to_string_lossy(),"from":a,"to":line(&gen)-1}));
    }
    let mut items: Vec<Item> = vec![];
    for c in &contracts {
        items.extend(parse_contracts(c));
    }
    let mut fns_out = vec![];
    let mut lost: Vec<Value> = vec![];
    let contracted: BTreeSet<String> = items
        .iter()
        .filter_map(|i| match i {
            Item::Fn(c) => Some(c.name.rsplit("::").next().unwrap().to_string()),
            _ => None,
        })
        .collect();
    for i in &items {
        match i {
            Item::Type(n, attrs) => match {
                let (stem, base) = match n.rsplit_once("::") { Some((s, b)) => (Some(s), b), None => (None, n.as_str()) };
                let v: Vec<&TyEntry> = ix.types.get(base).map(|v| v.iter().collect()).unwrap_or_default();
                v.into_iter().filter(|t| stem.map_or(true, |s| ix.files[t.file].rel.contains(&format!("{}.rs", s)))).collect::<Vec<_>>()
            }.as_slice() {
                [t] => {
                    let sf = &ix.files[t.file];
                    let edits: Vec<Edit> = t
                        .attr_ranges
                        .iter()
                        .map(|(a, b)| Edit { pos: *a, kind: Kind::Replace(*b), text: "".into(), seq: 0 })
                        .collect();
                    let a = line(&gen);
                    for at in attrs {
                        gen.push_str(at);
                        gen.push('\n');
                    }
                    let mut txt = render(&sf.text, t.start, t.end, &edits);
                    txt = txt.replace("pub(crate) ", "pub ");
                    // make private fields visible to specifications
                    let mut t2 = String::new();
                    for l in txt.lines() {
                        let tl = l.trim_start();
                        let is_field = txt.trim_start().contains("struct ")
                            && tl.contains(':')
                            && !tl.starts_with("pub ")
                            && !tl.starts_with("//")
                            && !tl.contains("struct ");
                        if is_field {
                            t2.push_str(&l.replacen(tl, &format!("pub {}", tl), 1));
                        } else if tl.contains("struct ") && tl.ends_with(");") && !tl.contains("(pub ") {
                            t2.push_str(&l.replacen('(', "(pub ", 1));
                        } else {
                            t2.push_str(l);
                        }
                        t2.push('\n');
                    }
                    if !t2.trim_start().starts_with("pub") {
                        t2 = t2.replacen("struct ", "pub struct ", 1).replacen("enum ", "pub enum ", 1);
                    }
                    gen.push_str(&t2);
                    gen.push('\n');
                    let derives: String = t.attr_ranges.iter().map(|(a, b)| &sf.text[*a..*b]).filter(|x| x.starts_with("#[derive")).collect();
                    let head = t2.split('{').next().unwrap_or("");
                    let lt = head.split('<').nth(1).and_then(|x| x.split('>').next()).map(|x| format!("<{}>", x)).unwrap_or_default();
                    for (d, tr) in [("Clone", "VCl"), ("PartialEq", "VPEq")] {
                        if derives.split(|c: char| !c.is_alphanumeric()).any(|w| w == d) {
                            let b = n.rsplit("::").next().unwrap();
                            gen.push_str(&format!("impl{lt} {tr} for {b}{lt} {{}}\n"));
                            if d == "PartialEq" {
                                gen.push_str(&format!("impl{lt} PartialEq for {b}{lt} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\nimpl{lt} vstd::std_specs::cmp::PartialEqSpecImpl for {b}{lt} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\n"));
                            }
                        }
                    }
                    segs.push(json!({"kind":"type","name":n,"from":a,"to":line(&gen)-1}));
                }
                _ => lost.push(json!({"name": n, "why": "type not found or ambiguous", "fatal": true})),
            },
            Item::Fn(c) => match ix.find_fn(&c.name) {
                Err(w) => {
                    lost.push(json!({"name": c.name, "unit": c.unit, "why": w, "missing": true}));
                }
                Ok(e) => {
                    let mut deg = degrade.contains(&c.name);
                    let mut o = emit_fn(&ix, e, c, deg, probe, shapes.get(&c.name));
                    if !o.problems.is_empty() {
                        lost.push(json!({"name": c.name, "unit": c.unit, "why": o.problems.join("; ")}));
                        let oo = emit_fn(&ix, e, c, true, probe, None);
                        o.text = oo.text;
                        deg = true;
                    }
                    let a = line(&gen);
                    gen.push_str(&o.text);
                    gen.push('\n');
                    let uncontracted: Vec<&String> = o
                        .calls
                        .iter()
                        .filter(|n| ix.all_fn_names.contains(*n) && !contracted.contains(*n))
                        .collect();
                    segs.push(json!({"kind":"fn","name":c.name,"from":a,"to":line(&gen)-1}));
                    fns_out.push(json!({"name":c.name,"unit":c.unit,"file":o.file,"line":o.src_line,"trusted":c.trusted,"degraded":deg && !c.trusted,
                        "rewrites":o.rewrites,"loops":o.loops,"replace":c.replace.len(),"uncontracted_calls":uncontracted,"soft":o.soft,"closures":if c.closures.is_empty() { vec![] } else { o.closures },"names":if c.trusted { vec![] } else { o.names },"loop_shapes":if c.loops.is_empty() { vec![] } else { o.loop_shapes },"src":o.hash_src.len()}));
                }
            },
        }
    }
    gen.push_str("\nfn main() {}\n} // verus!\n");
    fs::write(&out, &gen).unwrap();
    fs::write(
        &map,
        serde_json::to_string_pretty(&json!({"segments":segs,"functions":fns_out,"lost":lost,"parse_errors":parse_errors})).unwrap(),
    )
    .unwrap();
}
