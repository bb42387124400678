//! Pre-pass for files that keep state in `RefCell` fields (purely syntactic):
//!  1. a method that takes a `&RefCell` and a closure is copied into its callers, arguments for
//!     parameters (a closure argument becomes a block); the method itself is then dropped
//!  2. `RefCell<T>` fields become plain fields: `RefCell::new(x)` -> `(x)`,
//!     `self.f.borrow()` -> `self.f.v_snap()` (a copy), `self.f.replace(x)` -> `self.f.v_replace(x)`,
//!     `self.f.borrow_mut().m(x)` -> `self.f.m(x)`
//!  3. methods that (transitively) replace a field take `&mut self`; a call that needs `self` both
//!     for itself and for an argument gets the argument bound first
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct Txt {
    pub text: String,
    pub ls: Vec<usize>,
}
impl Txt {
    pub fn new(text: String) -> Txt {
        let mut ls = vec![0];
        for (i, c) in text.char_indices() {
            if c == '\n' {
                ls.push(i + 1);
            }
        }
        Txt { text, ls }
    }
    pub fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let s = self.ls[lc.line - 1];
        self.text[s..].char_indices().nth(lc.column).map(|(i, _)| s + i).unwrap_or(self.text.len())
    }
    pub fn rg(&self, s: proc_macro2::Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    pub fn t(&self, s: proc_macro2::Span) -> &str {
        let (a, b) = self.rg(s);
        &self.text[a..b]
    }
}
pub type Edits = Vec<(usize, usize, String)>;
pub fn apply(text: &str, a: usize, b: usize, edits: &Edits) -> String {
    let mut es: Vec<&(usize, usize, String)> = edits.iter().filter(|e| e.0 >= a && e.1 <= b).collect();
    es.sort_by_key(|e| (e.0, e.1));
    let mut out = String::new();
    let mut cur = a;
    for e in es {
        if e.0 < cur {
            continue;
        }
        out.push_str(&text[cur..e.0]);
        out.push_str(&e.2);
        cur = e.1;
    }
    out.push_str(&text[cur..b]);
    out
}
fn strip(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip(&p.expr),
        syn::Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
fn is_ident(e: &syn::Expr, n: &str) -> bool {
    matches!(strip(e), syn::Expr::Path(p) if p.path.is_ident(n))
}
fn idents(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

#[derive(Default)]
struct Locals {
    names: BTreeSet<String>,
    escapes: bool,
}
impl<'ast> Visit<'ast> for Locals {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.names.insert(p.ident.to_string());
    }
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.escapes = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.escapes = true;
    }
}

struct Callee {
    params: Vec<String>,
    body: syn::Block,
    range: (usize, usize),
}

fn methods(f: &syn::File) -> Vec<&syn::ImplItemFn> {
    methods_of(f, false)
}
fn methods_of(f: &syn::File, traits: bool) -> Vec<&syn::ImplItemFn> {
    let mut v = vec![];
    for it in &f.items {
        if let syn::Item::Impl(im) = it {
            if traits || im.trait_.is_none() {
                for x in &im.items {
                    if let syn::ImplItem::Fn(m) = x {
                        v.push(m);
                    }
                }
            }
        }
    }
    v
}

struct Subst<'a> {
    tx: &'a Txt,
    args: BTreeMap<String, (syn::Expr, String)>,
    edits: Edits,
    ok: bool,
}
impl<'a, 'ast> Visit<'ast> for Subst<'a> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = strip(&c.func) {
                    if let Some((a, txt)) = p.path.get_ident().and_then(|i| self.args.get(&i.to_string())).cloned() {
                        let mut inner = vec![];
                        for x in &c.args {
                            let mut s = Subst { tx: self.tx, args: self.args.clone(), edits: vec![], ok: true };
                            s.visit_expr(x);
                            self.ok &= s.ok;
                            let (i, j) = self.tx.rg(x.span());
                            inner.push(apply(&self.tx.text, i, j, &s.edits));
                        }
                        let (i, j) = self.tx.rg(e.span());
                        match strip(&a) {
                            syn::Expr::Closure(cl) => {
                                let mut lets = String::new();
                                if cl.inputs.len() != inner.len() {
                                    self.ok = false;
                                }
                                let mut l = Locals::default();
                                l.visit_expr(&cl.body);
                                if l.escapes {
                                    self.ok = false;
                                }
                                for (p, v) in cl.inputs.iter().zip(&inner) {
                                    lets.push_str(&format!("let {} = {}; ", self.tx.t(p.span()), v));
                                }
                                self.edits.push((i, j, format!("{{ {}{} }}", lets, self.tx.t(cl.body.span()))));
                            }
                            _ => self.edits.push((i, j, format!("{}({})", txt, inner.join(", ")))),
                        }
                        return;
                    }
                }
            }
            syn::Expr::Path(p) => {
                if let Some((_, txt)) = p.path.get_ident().and_then(|i| self.args.get(&i.to_string())) {
                    let (i, j) = self.tx.rg(e.span());
                    self.edits.push((i, j, format!("({})", txt)));
                }
                return;
            }
            syn::Expr::MethodCall(m) => {
                if let syn::Expr::Path(p) = strip(&m.receiver) {
                    if let Some((a, txt)) = p.path.get_ident().and_then(|i| self.args.get(&i.to_string())) {
                        let t = match strip(a) {
                            syn::Expr::Reference(r) if r.mutability.is_none() => self.tx.t(r.expr.span()).to_string(),
                            _ => format!("({})", txt),
                        };
                        let (i, j) = self.tx.rg(m.receiver.span());
                        self.edits.push((i, j, t));
                        for x in &m.args {
                            self.visit_expr(x);
                        }
                        return;
                    }
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

struct Inliner<'a> {
    tx: &'a Txt,
    callees: &'a BTreeMap<String, Callee>,
    edits: Edits,
    ok: bool,
}
impl<'a, 'ast> Visit<'ast> for Inliner<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let n = m.method.to_string();
        if is_ident(&m.receiver, "self") {
            if let Some(c) = self.callees.get(&n) {
                let mut locals = Locals::default();
                locals.visit_block(&c.body);
                let mut used = BTreeSet::new();
                for a in &m.args {
                    idents(quote::quote!(#a), &mut used);
                }
                if locals.escapes || c.params.len() != m.args.len() || locals.names.iter().any(|x| used.contains(x)) {
                    self.ok = false;
                    return;
                }
                let args = c.params.iter().zip(&m.args).map(|(p, a)| (p.clone(), (a.clone(), self.tx.t(a.span()).to_string()))).collect();
                let mut s = Subst { tx: self.tx, args, edits: vec![], ok: true };
                s.visit_block(&c.body);
                self.ok &= s.ok;
                let (i, j) = self.tx.rg(c.body.span());
                let (a, b) = self.tx.rg(m.span());
                self.edits.push((a, b, apply(&self.tx.text, i, j, &s.edits)));
                return;
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}

fn cell_of<'a>(e: &'a syn::Expr, fields: &BTreeSet<String>) -> Option<String> {
    if let syn::Expr::Field(f) = strip(e) {
        if is_ident(&f.base, "self") {
            if let syn::Member::Named(n) = &f.member {
                if fields.contains(&n.to_string()) {
                    return Some(n.to_string());
                }
            }
        }
    }
    None
}

struct Cells<'a> {
    tx: &'a Txt,
    fields: &'a BTreeSet<String>,
    edits: Edits,
}
impl<'a, 'ast> Visit<'ast> for Cells<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if cell_of(&m.receiver, self.fields).is_some() {
            let to = match m.method.to_string().as_str() {
                "borrow" => Some("v_snap"),
                "replace" => Some("v_replace"),
                _ => None,
            };
            if let Some(t) = to {
                let (a, b) = self.tx.rg(m.method.span());
                self.edits.push((a, b, t.into()));
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        let (a, b) = self.tx.rg(c.func.span());
        if self.tx.text[a..b].replace(' ', "").ends_with("RefCell::new") {
            self.edits.push((a, b, String::new()));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            let es: Vec<syn::Expr> = es.into_iter().collect();
            let mut c = Cells { tx: self.tx, fields: self.fields, edits: vec![] };
            for e in &es {
                // the parsed arguments live only here; the edits carry positions
                Visit::visit_expr(&mut c, e);
            }
            self.edits.extend(c.edits);
        }
    }
    fn visit_type_path(&mut self, t: &'ast syn::TypePath) {
        if let Some(s) = t.path.segments.last() {
            if s.ident == "RefCell" || s.ident == "Ref" {
                if let syn::PathArguments::AngleBracketed(ab) = &s.arguments {
                    let (a, b) = self.tx.rg(t.span());
                    self.edits.push((a, b, self.tx.t(ab.args.span()).to_string()));
                    return;
                }
            }
        }
        visit::visit_type_path(self, t);
    }
}

#[derive(Default)]
struct Mutates<'a> {
    fields: Option<&'a BTreeSet<String>>,
    known: BTreeSet<String>,
    hit: bool,
}
impl<'a, 'ast> Visit<'ast> for Mutates<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let n = m.method.to_string();
        if (n == "v_replace" || n == "borrow_mut") && cell_of(&m.receiver, self.fields.unwrap()).is_some() {
            self.hit = true;
        }
        if is_ident(&m.receiver, "self") && self.known.contains(&n) {
            self.hit = true;
        }
        visit::visit_expr_method_call(self, m);
    }
}
struct Hoist<'a> {
    tx: &'a Txt,
    fields: &'a BTreeSet<String>,
    known: &'a BTreeSet<String>,
    edits: Edits,
}
impl<'a, 'ast> Visit<'ast> for Hoist<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if is_ident(&m.receiver, "self") {
            let hit = m.args.iter().any(|a| {
                let mut x = Mutates { fields: Some(self.fields), known: self.known.clone(), hit: false };
                x.visit_expr(a);
                x.hit
            });
            if hit {
                let mut lets = String::new();
                let mut names = vec![];
                for (k, a) in m.args.iter().enumerate() {
                    let mut h = Hoist { tx: self.tx, fields: self.fields, known: self.known, edits: vec![] };
                    h.visit_expr(a);
                    let (i, j) = self.tx.rg(a.span());
                    lets.push_str(&format!("let vp_a{} = {}; ", k, apply(&self.tx.text, i, j, &h.edits)));
                    names.push(format!("vp_a{}", k));
                }
                let (i, j) = self.tx.rg(m.span());
                self.edits.push((i, j, format!("{{ {}self.{}({}) }}", lets, m.method, names.join(", "))));
                return;
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}

pub fn flatten(src: &str) -> Result<String, String> {
    let mut text = src.to_string();
    let parse = |t: &str| syn::parse_file(t).map_err(|e| e.to_string());
    // 1. copy closure-taking methods into their callers
    for _ in 0..6 {
        let f = parse(&text)?;
        let tx = Txt::new(text.clone());
        let mut callees = BTreeMap::new();
        for m in methods(&f) {
            let mut params = vec![];
            let mut cell = false;
            let mut plain = true;
            for i in &m.sig.inputs {
                if let syn::FnArg::Typed(t) = i {
                    match &*t.pat {
                        syn::Pat::Ident(p) if p.mutability.is_none() => params.push(p.ident.to_string()),
                        _ => plain = false,
                    }
                    if tx.t(t.ty.span()).replace(' ', "").contains("&RefCell<") {
                        cell = true;
                    }
                }
            }
            if cell && plain {
                callees.insert(m.sig.ident.to_string(), Callee { params, body: m.block.clone(), range: tx.rg(m.span()) });
            }
        }
        if callees.is_empty() {
            break;
        }
        // callees that call no other callee can be copied; when none is called any more, drop them
        let mut il = Inliner { tx: &tx, callees: &callees, edits: vec![], ok: true };
        for m in methods(&f) {
            il.visit_block(&m.block);
        }
        if !il.ok {
            return Err("a cell-taking helper cannot be copied into its callers".into());
        }
        if il.edits.is_empty() {
            let ed: Edits = callees.values().map(|c| (c.range.0, c.range.1, String::new())).collect();
            text = apply(&text, 0, text.len(), &ed);
            break;
        }
        text = apply(&text, 0, text.len(), &il.edits);
    }
    // 2. cells become plain fields
    let f = parse(&text)?;
    let tx = Txt::new(text.clone());
    let mut fields = BTreeSet::new();
    for it in &f.items {
        if let syn::Item::Struct(s) = it {
            for x in &s.fields {
                if tx.t(x.ty.span()).contains("RefCell") {
                    if let Some(i) = &x.ident {
                        fields.insert(i.to_string());
                    }
                }
            }
        }
    }
    let mut c = Cells { tx: &tx, fields: &fields, edits: vec![] };
    c.visit_file(&f);
    text = apply(&text, 0, text.len(), &c.edits);
    // 3. who changes a field
    let f = parse(&text)?;
    let tx = Txt::new(text.clone());
    let mut known: BTreeSet<String> = BTreeSet::new();
    loop {
        let n = known.len();
        for m in methods_of(&f, true) {
            let mut x = Mutates { fields: Some(&fields), known: known.clone(), hit: false };
            x.visit_block(&m.block);
            if x.hit {
                known.insert(m.sig.ident.to_string());
            }
        }
        if known.len() == n {
            break;
        }
    }
    let mut h = Hoist { tx: &tx, fields: &fields, known: &known, edits: vec![] };
    for m in methods_of(&f, true) {
        h.visit_block(&m.block);
        if known.contains(&m.sig.ident.to_string()) {
            if let Some(r) = m.sig.receiver() {
                if r.reference.is_some() && r.mutability.is_none() {
                    let (a, b) = tx.rg(r.span());
                    h.edits.push((a, b, "&mut self".into()));
                }
            }
        }
    }
    text = apply(&text, 0, text.len(), &h.edits);
    // 4. `self.f.borrow_mut().m()` is `self.f.m()`
    let f = parse(&text)?;
    let tx = Txt::new(text.clone());
    let mut b = Borrows { tx: &tx, fields: &fields, edits: vec![] };
    b.visit_file(&f);
    text = apply(&text, 0, text.len(), &b.edits);
    parse(&text)?;
    Ok(text)
}

struct Borrows<'a> {
    tx: &'a Txt,
    fields: &'a BTreeSet<String>,
    edits: Edits,
}
impl<'a, 'ast> Visit<'ast> for Borrows<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if let syn::Expr::MethodCall(r) = &*m.receiver {
            if r.method == "borrow_mut" && cell_of(&r.receiver, self.fields).is_some() {
                let (_, a) = self.tx.rg(r.receiver.span());
                let (_, b) = self.tx.rg(r.span());
                self.edits.push((a, b, String::new()));
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}
