//! Pre-pass: invocations of a file's own one-armed `macro_rules!` (parameters of kind `expr`) are
//! replaced by the macro's body, parenthesised arguments for parameters, inside a block.
use crate::cells::{apply, Edits, Txt};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Mac {
    params: Vec<String>,
    body: (usize, usize),
    uses: Vec<(usize, usize, String)>,
    def: (usize, usize),
}

fn arm(t: &Txt, ts: TokenStream, def: (usize, usize)) -> Option<Mac> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let n = v.len();
    if n < 4 || n > 5 {
        return None;
    }
    let (pat, body) = match (&v[0], &v[1], &v[2], &v[3]) {
        (TokenTree::Group(p), TokenTree::Punct(a), TokenTree::Punct(b), TokenTree::Group(g)) if a.as_char() == '=' && b.as_char() == '>' => (p, g),
        _ => return None,
    };
    let mut params = vec![];
    let p: Vec<TokenTree> = pat.stream().into_iter().collect();
    for c in p.split(|x| matches!(x, TokenTree::Punct(q) if q.as_char() == ',')) {
        if c.is_empty() {
            continue;
        }
        match c {
            [TokenTree::Punct(d), TokenTree::Ident(i), TokenTree::Punct(k), TokenTree::Ident(e)] if d.as_char() == '$' && k.as_char() == ':' && e == "expr" => params.push(i.to_string()),
            _ => return None,
        }
    }
    if body.delimiter() == Delimiter::None {
        return None;
    }
    let b = (t.rg(body.span_open()).1, t.rg(body.span_close()).0);
    let mut uses = vec![];
    fn go(t: &Txt, ts: TokenStream, params: &[String], uses: &mut Vec<(usize, usize, String)>) -> bool {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (i, x) in v.iter().enumerate() {
            match x {
                TokenTree::Punct(d) if d.as_char() == '$' => match v.get(i + 1) {
                    Some(TokenTree::Ident(n)) if params.contains(&n.to_string()) => uses.push((t.rg(d.span()).0, t.rg(n.span()).1, n.to_string())),
                    _ => return false,
                },
                TokenTree::Group(g) => {
                    if !go(t, g.stream(), params, uses) {
                        return false;
                    }
                }
                _ => {}
            }
        }
        true
    }
    if !go(t, body.stream(), &params, &mut uses) {
        return None;
    }
    Some(Mac { params, body: b, uses, def })
}

struct Defs<'a> {
    t: &'a Txt,
    out: BTreeMap<String, Option<Mac>>,
}
impl<'a, 'ast> Visit<'ast> for Defs<'a> {
    fn visit_item_macro(&mut self, m: &'ast syn::ItemMacro) {
        if m.mac.path.is_ident("macro_rules") {
            if let Some(i) = &m.ident {
                let r = arm(self.t, m.mac.tokens.clone(), self.t.rg(m.span()));
                let twice = self.out.contains_key(&i.to_string());
                self.out.insert(i.to_string(), if twice { None } else { r });
            }
        }
    }
}
struct Calls<'a> {
    t: &'a Txt,
    defs: &'a BTreeMap<String, Option<Mac>>,
    edits: Edits,
}
impl<'a> Calls<'a> {
    fn call(&mut self, m: &syn::Macro, whole: (usize, usize)) {
        let Some(name) = m.path.get_ident().map(|i| i.to_string()) else { return };
        let Some(Some(d)) = self.defs.get(&name) else { return };
        let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) else { return };
        if args.len() != d.params.len() {
            return;
        }
        let mut body = String::new();
        let mut cur = d.body.0;
        for (a, b, n) in &d.uses {
            body.push_str(&self.t.text[cur..*a]);
            let k = d.params.iter().position(|p| p == n).unwrap();
            let x = self.t.t(args[k].span());
            let simple = x.chars().all(|c| c.is_alphanumeric() || c == '_');
            if simple { body.push_str(x) } else { body.push_str(&format!("({})", x)) }
            cur = *b;
        }
        body.push_str(&self.t.text[cur..d.body.1]);
        // the copy stays on one line
        let body: String = body.lines().map(|l| l.split("//").next().unwrap().trim()).collect::<Vec<_>>().join(" ");
        self.edits.push((whole.0, whole.1, format!("{{ {} }}", body)));
    }
}
impl<'a, 'ast> Visit<'ast> for Calls<'a> {
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        let w = self.t.rg(m.span());
        self.call(&m.mac, w);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        let w = self.t.rg(m.span());
        self.call(&m.mac, w);
    }
    fn visit_item_macro(&mut self, _m: &'ast syn::ItemMacro) {}
    fn visit_block(&mut self, b: &'ast syn::Block) {
        visit::visit_block(self, b);
    }
}

pub fn expand(text: &str) -> String {
    let mut cur = text.to_string();
    for _ in 0..5 {
        let t = Txt::new(cur.clone());
        let Ok(f) = syn::parse_file(&cur) else { return cur };
        let mut d = Defs { t: &t, out: BTreeMap::new() };
        d.visit_file(&f);
        if d.out.values().all(|x| x.is_none()) {
            return cur;
        }
        let mut c = Calls { t: &t, defs: &d.out, edits: vec![] };
        c.visit_file(&f);
        if c.edits.is_empty() {
            // the definitions are not needed any more
            let es: Edits = d.out.values().flatten().map(|m| (m.def.0, m.def.1, "\n".repeat(cur[m.def.0..m.def.1].matches('\n').count()))).collect();
            return apply(&cur, 0, cur.len(), &es);
        }
        let es = c.edits;
        cur = apply(&cur, 0, cur.len(), &es);
    }
    cur
}
