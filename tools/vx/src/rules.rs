//! Token-level rewrite rules with expression metavariables.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};

#[derive(Clone)]
pub struct Rule {
    pub name: String,
    kind: Kind,
    pat: Vec<P>,
    rep: TokenStream,
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Expr,
    Type,
    Stmt,
}

#[derive(Clone, Debug)]
enum P {
    Tok(String),
    Group(Delimiter, Vec<P>),
    Meta(String),
}

fn compile(ts: TokenStream) -> Vec<P> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    o.push(P::Meta(id.to_string()));
                    i += 2;
                    continue;
                }
                o.push(P::Tok("$".into()));
            }
            TokenTree::Group(g) => o.push(P::Group(g.delimiter(), compile(g.stream()))),
            t => o.push(P::Tok(t.to_string())),
        }
        i += 1;
    }
    o
}

type Bind = BTreeMap<String, TokenStream>;

fn meta_ok(name: &str, ts: &[TokenTree]) -> bool {
    let t: TokenStream = ts.iter().cloned().collect();
    if name.starts_with("s_") {
        return true;
    }
    if ts.is_empty() {
        return false;
    }
    if name.starts_with("p_") {
        struct Pt;
        impl syn::parse::Parse for Pt {
            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                syn::Pat::parse_multi(i).map(|_| Pt)
            }
        }
        return syn::parse2::<Pt>(t).is_ok();
    }
    if name.starts_with("t_") {
        return syn::parse2::<syn::Type>(t).is_ok();
    }
    if name.starts_with("i_") {
        return ts.len() == 1 && matches!(ts[0], TokenTree::Ident(_));
    }
    if name.starts_with("o_") {
        // a receiver that is not an iterator chain
        const IT: &[&str] = &["iter", "iter_mut", "into_iter", "chars", "char_indices", "bytes", "rev", "copied", "cloned", "enumerate", "filter", "filter_map",
            "map", "zip", "chain", "skip", "take", "take_while", "skip_while", "lines", "split", "keys", "values", "drain", "try_iter", "windows", "chunks", "flat_map", "flatten"];
        let e = match syn::parse2::<syn::Expr>(t.clone()) { Ok(e) => e, Err(_) => return false };
        if let syn::Expr::MethodCall(m) = &e {
            if IT.contains(&m.method.to_string().as_str()) {
                return false;
            }
        }
        return meta_ok("b_", ts);
    }
    if name.starts_with("b_") {
        // a postfix expression: usable as a method receiver
        return matches!(
            syn::parse2::<syn::Expr>(t),
            Ok(syn::Expr::Path(_)
                | syn::Expr::Field(_)
                | syn::Expr::MethodCall(_)
                | syn::Expr::Call(_)
                | syn::Expr::Index(_)
                | syn::Expr::Paren(_)
                | syn::Expr::Lit(_)
                | syn::Expr::Try(_)
                | syn::Expr::Macro(_)
                | syn::Expr::Block(_))
        );
    }
    syn::parse2::<syn::Expr>(t).is_ok()
}

fn m(pat: &[P], toks: &[TokenTree], b: &mut Bind) -> bool {
    let Some(p) = pat.first() else { return toks.is_empty() };
    match p {
        P::Tok(s) => match toks.first() {
            Some(TokenTree::Group(_)) | None => false,
            Some(t) => t.to_string() == *s && m(&pat[1..], &toks[1..], b),
        },
        P::Group(d, inner) => match toks.first() {
            Some(TokenTree::Group(g)) if g.delimiter() == *d => {
                let it: Vec<TokenTree> = g.stream().into_iter().collect();
                let save = b.clone();
                // tolerate one trailing comma
                if m(inner, &it, b) && m(&pat[1..], &toks[1..], b) {
                    return true;
                }
                *b = save.clone();
                if let Some(TokenTree::Punct(c)) = it.last() {
                    if c.as_char() == ',' && m(inner, &it[..it.len() - 1], b) && m(&pat[1..], &toks[1..], b) {
                        return true;
                    }
                }
                *b = save;
                false
            }
            _ => false,
        },
        P::Meta(name) => {
            let min = if name.starts_with("s_") { 0 } else { 1 };
            let mut n = toks.len();
            loop {
                if n < min {
                    return false;
                }
                // quick reject: the next literal token has to match
                let ok = match pat.get(1) {
                    None => n == toks.len(),
                    Some(P::Tok(s)) => toks.get(n).map(|t| !matches!(t, TokenTree::Group(_)) && t.to_string() == *s).unwrap_or(false),
                    _ => true,
                };
                if ok && meta_ok(name, &toks[..n]) {
                    let ts: TokenStream = toks[..n].iter().cloned().collect();
                    let save = b.clone();
                    let same = b.get(name).map(|x| x.to_string() == ts.to_string()).unwrap_or(true);
                    if same {
                        b.insert(name.clone(), ts);
                        if m(&pat[1..], &toks[n..], b) {
                            return true;
                        }
                    }
                    *b = save;
                }
                if n == 0 {
                    return false;
                }
                n -= 1;
            }
        }
    }
}

fn subst(ts: TokenStream, b: &Bind) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut o = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    if let Some(x) = b.get(&id.to_string()) {
                        o.extend(x.clone());
                        i += 2;
                        continue;
                    }
                }
                o.extend([v[i].clone()]);
            }
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst(g.stream(), b));
                ng.set_span(g.span());
                o.extend([TokenTree::Group(ng)]);
            }
            t => o.extend([t.clone()]),
        }
        i += 1;
    }
    o
}

impl Rule {
    pub fn new(arg: &str, pat: &str, rep: &str) -> Result<Self, String> {
        let mut w = arg.split_whitespace();
        let name = w.next().unwrap_or("?").to_string();
        let kind = match w.next() {
            Some("type") => Kind::Type,
            Some("stmt") => Kind::Stmt,
            _ => Kind::Expr,
        };
        let p: TokenStream = pat.parse().map_err(|e| format!("rule {name}: {e}"))?;
        let rep: TokenStream = rep.parse().map_err(|e| format!("rule {name}: {e}"))?;
        Ok(Rule { name, kind, pat: compile(p), rep })
    }
    fn apply(&self, ts: TokenStream) -> Option<TokenStream> {
        let v: Vec<TokenTree> = flatten_none(ts).into_iter().collect();
        let mut b = Bind::new();
        if m(&self.pat, &v, &mut b) {
            Some(subst(self.rep.clone(), &b))
        } else {
            None
        }
    }
}

fn flatten_none(ts: TokenStream) -> TokenStream {
    let mut o = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => o.extend(flatten_none(g.stream())),
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), flatten_none(g.stream()));
                ng.set_span(g.span());
                o.extend([TokenTree::Group(ng)]);
            }
            t => o.extend([t]),
        }
    }
    o
}

pub struct Rewriter<'a> {
    pub rules: &'a [Rule],
    pub counts: &'a mut BTreeMap<String, usize>,
}

impl VisitMut for Rewriter<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        for r in self.rules.iter().filter(|r| r.kind == Kind::Expr) {
            if let Some(t) = r.apply(e.to_token_stream()) {
                match syn::parse2::<syn::Expr>(t.clone()) {
                    Ok(x) => {
                        // keep the result usable as a method receiver / operand
                        let stmt_like = matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_));
                        *e = match x {
                            x if stmt_like => x,
                            x @ (syn::Expr::Match(_) | syn::Expr::If(_) | syn::Expr::Block(_) | syn::Expr::Binary(_) | syn::Expr::Unary(_)) => syn::parse_quote!((#x)),
                            x => x,
                        };
                        *self.counts.entry(r.name.clone()).or_default() += 1;
                    }
                    Err(err) => eprintln!("vx: rule {} produced unparsable `{t}`: {err}", r.name),
                }
            }
        }
    }
    fn visit_type_mut(&mut self, e: &mut syn::Type) {
        visit_mut::visit_type_mut(self, e);
        for r in self.rules.iter().filter(|r| r.kind == Kind::Type) {
            if let Some(t) = r.apply(e.to_token_stream()) {
                if let Ok(x) = syn::parse2::<syn::Type>(t) {
                    *e = x;
                    *self.counts.entry(r.name.clone()).or_default() += 1;
                }
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let stmts = std::mem::take(&mut b.stmts);
        'next: for mut s in stmts {
            for r in self.rules.iter().filter(|r| r.kind == Kind::Stmt) {
                if let Some(t) = r.apply(s.to_token_stream()) {
                    let blk: syn::Block = match syn::parse2(quote::quote!({ #t })) {
                        Ok(b) => b,
                        Err(err) => {
                            eprintln!("vx: rule {} produced unparsable: {err}", r.name);
                            continue;
                        }
                    };
                    *self.counts.entry(r.name.clone()).or_default() += 1;
                    for mut x in blk.stmts {
                        visit_mut::visit_stmt_mut(self, &mut x);
                        b.stmts.push(x);
                    }
                    continue 'next;
                }
            }
            // a statement that is a bare expression macro is visited as an expression
            if let syn::Stmt::Macro(sm) = &s {
                let mut e: syn::Expr = syn::Expr::Macro(syn::ExprMacro { attrs: vec![], mac: sm.mac.clone() });
                let before = e.to_token_stream().to_string();
                self.visit_expr_mut(&mut e);
                if e.to_token_stream().to_string() != before {
                    s = syn::Stmt::Expr(e, sm.semi_token);
                    b.stmts.push(s);
                    continue 'next;
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            b.stmts.push(s);
        }
    }
}
