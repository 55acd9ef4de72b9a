//! vx: mechanical extractor.
//!
//! `vx verus UNIT OUT.rs OUT.json [REPO]`  unit template -> Verus file
//! `vx native TEMPLATE OUT.rs OUT.json [REPO]` native template -> plain Rust file
//!
//! Unit templates are text; lines starting `//@` are directives. Functions, types and constants
//! named by directives are copied out of the *current* source text of the repository.  What is
//! changed on the way is: attributes/doc comments/visibility dropped, the declared rewrite rules
//! applied (each maps one source expression form onto a shim with an assumed contract or onto an
//! equivalent form that the verifier's dialect has), helper functions of the same file that are
//! not under contract inlined, contracts and invariants spliced in.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};

mod rules;
use rules::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vx verus|native TEMPLATE OUT.rs OUT.json [REPO]");
        std::process::exit(2);
    }
    let repo = a.get(5).cloned().unwrap_or_else(|| "/repo".into());
    let verus = a[1] == "verus";
    let text = std::fs::read_to_string(&a[2]).expect("read template");
    let mut u = Unit::new(repo, verus);
    let r = u.run(&text, std::path::Path::new(&a[2]).parent().unwrap());
    if let Err(e) = r {
        u.errors.push(e);
    }
    std::fs::write(&a[3], &u.out).expect("write");
    std::fs::write(&a[4], u.report()).expect("write");
    if !u.errors.is_empty() {
        for e in &u.errors {
            eprintln!("vx: {e}");
        }
        std::process::exit(3);
    }
}

#[derive(Default, Clone)]
struct Source {
    fns: BTreeMap<String, FnDef>,
    items: BTreeMap<String, syn::Item>,
    consts: BTreeMap<String, syn::Item>,
    /// every text-level item in order (for native whole-file copies)
    text: String,
}

#[derive(Clone)]
struct FnDef {
    sig: syn::Signature,
    block: syn::Block,
    owner: Option<String>,
    lines: (usize, usize),
}

struct FnReport {
    key: String,
    file: String,
    src: (usize, usize),
    gen: (usize, usize),
    loops_declared: usize,
    loops_found: usize,
    inlined: Vec<String>,
    rules: BTreeMap<String, usize>,
    has_requires: bool,
    probe: bool,
}

struct Unit {
    repo: String,
    verus: bool,
    out: String,
    errors: Vec<String>,
    sources: HashMap<String, Source>,
    cur: String,
    rules: Vec<Rule>,
    known: BTreeSet<String>,
    emitted_consts: BTreeSet<String>,
    reports: Vec<FnReport>,
    items: Vec<String>,
    /// contracts assumed here and discharged in another unit
    stub: bool,
    stubs: Vec<String>,
    included: BTreeSet<String>,
}

fn is_test_attr(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg")
                && a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)"))
    })
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        x => x.to_token_stream().to_string(),
    }
}

fn span_lines(t: &impl ToTokens) -> (usize, usize) {
    let mut lo = usize::MAX;
    let mut hi = 0;
    fn go(ts: TokenStream, lo: &mut usize, hi: &mut usize) {
        for t in ts {
            let s = t.span();
            *lo = (*lo).min(s.start().line);
            *hi = (*hi).max(s.end().line);
            if let TokenTree::Group(g) = t {
                go(g.stream(), lo, hi);
            }
        }
    }
    go(t.to_token_stream(), &mut lo, &mut hi);
    (lo, hi)
}

impl Source {
    fn parse(text: String) -> Result<Self, String> {
        let f = syn::parse_file(&text).map_err(|e| format!("cannot parse source: {e}"))?;
        let mut s = Source { text, ..Default::default() };
        s.add_items(&f.items);
        Ok(s)
    }
    fn add_fn(&mut self, key: String, sig: &syn::Signature, block: &syn::Block, owner: Option<String>, lines: (usize, usize)) {
        // nested fns
        for st in &block.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(f)) = st {
                self.add_fn(format!("{key}/{}", f.sig.ident), &f.sig, &f.block, owner.clone(), span_lines(f));
            }
        }
        self.fns.insert(key, FnDef { sig: sig.clone(), block: block.clone(), owner, lines });
    }
    /// a nested function may have moved: out of its function, or into another
    fn find_fn(&self, key: &str) -> Option<FnDef> {
        if let Some(d) = self.fns.get(key) {
            return Some(d.clone());
        }
        // a trait's default method, for an implementation that does not override it
        if let Some((_, tm)) = key.rsplit_once('@') {
            return self.fns.get(tm).cloned();
        }
        let (_, last) = key.rsplit_once('/')?;
        let mut it = self.fns.iter().filter(|(k, _)| k.rsplit('/').next() == Some(last));
        let d = it.next()?.1.clone();
        if it.next().is_some() {
            return None;
        }
        Some(d)
    }
    fn add_items(&mut self, items: &[syn::Item]) {
        for it in items {
            match it {
                syn::Item::Fn(f) if !is_test_attr(&f.attrs) => {
                    self.add_fn(f.sig.ident.to_string(), &f.sig, &f.block, None, span_lines(f));
                }
                syn::Item::Impl(im) if !is_test_attr(&im.attrs) => {
                    let owner = ty_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    for x in &im.items {
                        match x {
                            syn::ImplItem::Fn(f) if !is_test_attr(&f.attrs) => {
                                let name = f.sig.ident.to_string();
                                let key = match &tr {
                                    Some(t) => format!("{owner}@{t}::{name}"),
                                    None => format!("{owner}::{name}"),
                                };
                                self.add_fn(key, &f.sig, &f.block, Some(owner.clone()), span_lines(f));
                            }
                            syn::ImplItem::Const(c) => {
                                let ident = &c.ident;
                                let ty = &c.ty;
                                let e = &c.expr;
                                let it: syn::Item = syn::parse2(quote!(const #ident : #ty = #e ;)).unwrap();
                                self.consts.insert(format!("{owner}::{ident}"), it);
                            }
                            _ => (),
                        }
                    }
                }
                syn::Item::Struct(x) => {
                    self.items.insert(x.ident.to_string(), it.clone());
                }
                syn::Item::Enum(x) => {
                    self.items.insert(x.ident.to_string(), it.clone());
                }
                syn::Item::Type(x) => {
                    self.items.insert(x.ident.to_string(), it.clone());
                }
                syn::Item::Trait(x) => {
                    for ti in &x.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            if let Some(b) = &f.default {
                                self.add_fn(format!("{}::{}", x.ident, f.sig.ident), &f.sig, b, Some(x.ident.to_string()), span_lines(f));
                            }
                        }
                    }
                    self.items.insert(x.ident.to_string(), it.clone());
                }
                syn::Item::Const(x) => {
                    self.consts.insert(x.ident.to_string(), it.clone());
                }
                syn::Item::Static(x) => {
                    self.consts.insert(x.ident.to_string(), it.clone());
                }
                syn::Item::Mod(m) if !is_test_attr(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        self.add_items(its);
                    }
                }
                _ => (),
            }
        }
    }
}

/// Drop attributes (doc comments, derives, cfgs) everywhere.
struct DropAttrs;
impl VisitMut for DropAttrs {
    fn visit_attributes_mut(&mut self, i: &mut Vec<syn::Attribute>) {
        i.clear();
    }
}

#[derive(Default, Debug)]
struct FnSpec {
    contract: String,
    params: Vec<String>,
    ret: String,
    loops: BTreeMap<usize, String>,
    sections: BTreeMap<String, String>,
    rename: Option<String>,
    noself: bool,
    sig_override: Option<String>,
    probe: bool,
}

impl Unit {
    fn new(repo: String, verus: bool) -> Self {
        Unit {
            repo,
            verus,
            out: String::new(),
            errors: vec![],
            sources: HashMap::new(),
            cur: String::new(),
            rules: vec![],
            known: BTreeSet::new(),
            emitted_consts: BTreeSet::new(),
            reports: vec![],
            items: vec![],
            stub: false,
            stubs: vec![],
            included: BTreeSet::new(),
        }
    }

    fn src(&mut self) -> Result<Source, String> {
        let p = self.cur.clone();
        if !self.sources.contains_key(&p) {
            let full = format!("{}/{}", self.repo, p);
            let text = std::fs::read_to_string(&full).map_err(|e| format!("anchor lost: cannot read {full}: {e}"))?;
            let s = Source::parse(text).map_err(|e| format!("{p}: {e}"))?;
            self.sources.insert(p.clone(), s);
        }
        Ok(self.sources[&p].clone())
    }

    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }

    fn run(&mut self, text: &str, dir: &std::path::Path) -> Result<(), String> {
        // pre-scan for functions under contract (not inlined)
        for l in text.lines() {
            let l = l.trim();
            if let Some(x) = l.strip_prefix("//@fn ") {
                let k = x.split_whitespace().next().unwrap();
                self.known.insert(k.to_string());
            }
            if let Some(x) = l.strip_prefix("//@known ") {
                for k in x.split_whitespace() {
                    self.known.insert(k.to_string());
                }
            }
        }
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i].trim();
            if let Some(d) = l.strip_prefix("//@") {
                let mut w = d.splitn(2, ' ');
                let cmd = w.next().unwrap();
                let arg = w.next().unwrap_or("").trim().to_string();
                match cmd {
                    "stub" => {
                        if self.included.insert(arg.clone()) {
                            let t = std::fs::read_to_string(dir.join(&arg)).map_err(|e| format!("stub {arg}: {e}"))?;
                            let (s0, r0, c0) = (self.stub, self.rules.clone(), self.cur.clone());
                            self.stub = true;
                            self.run(&t, dir)?;
                            self.stub = s0;
                            self.rules = r0;
                            self.cur = c0;
                        }
                    }
                    "ordinal" => {
                        // NAME FN: position of each variant in the declaration
                        let mut w = arg.split_whitespace();
                        let (n, f) = (w.next().unwrap().to_string(), w.next().unwrap().to_string());
                        let s = self.src()?;
                        let Some(syn::Item::Enum(e)) = s.items.get(&n).cloned() else { return Err(format!("anchor lost: enum `{n}` not in {}", self.cur)) };
                        self.out.push_str(&format!("pub open spec fn {f}(x: {n}) -> int {{ match x {{ "));
                        for (k, v) in e.variants.iter().enumerate() {
                            let p = match v.fields { syn::Fields::Unit => "", syn::Fields::Unnamed(_) => "(..)", syn::Fields::Named(_) => "{..}" };
                            self.out.push_str(&format!("{n}::{}{p} => {k}, ", v.ident));
                        }
                        self.out.push_str("} }\n");
                    }
                    "include" => {
                        if !self.included.insert(arg.clone()) && !arg.ends_with(".rules") {
                            i += 1;
                            continue;
                        }
                        let t = std::fs::read_to_string(dir.join(&arg)).map_err(|e| format!("include {arg}: {e}"))?;
                        self.run(&t, dir)?;
                    }
                    "src" => self.cur = arg,
                    "known" => (),
                    "text" => {
                        // whole file, test modules included (cfg(test) keeps them out)
                        let s = self.src()?;
                        let dir = std::path::Path::new(&self.repo).join(&self.cur);
                        let dir = dir.parent().unwrap().display().to_string();
                        for l in s.text.lines() {
                            // file modules are taken from where they are
                            let t = l.trim();
                            let m = t.strip_prefix("pub(crate) ").or(t.strip_prefix("pub ")).unwrap_or(t);
                            if let (true, Some(n)) = (arg == "modpath", m.strip_prefix("mod ").and_then(|x| x.strip_suffix(';'))) {
                                let f = if std::path::Path::new(&format!("{dir}/{n}.rs")).exists() { format!("{n}.rs") } else { format!("{n}/mod.rs") };
                                self.out.push_str(&format!("#[path = \"{dir}/{f}\"] {t}\n"));
                            } else {
                                self.out.push_str(l);
                                self.out.push('\n');
                            }
                        }
                    }
                    "rule" => {
                        let mut pat = String::new();
                        let mut rep = String::new();
                        let mut inrep = false;
                        i += 1;
                        while lines[i].trim() != "//@endrule" {
                            if lines[i].trim() == "//@=>" {
                                inrep = true;
                            } else if inrep {
                                rep.push_str(lines[i]);
                                rep.push('\n');
                            } else {
                                pat.push_str(lines[i]);
                                pat.push('\n');
                            }
                            i += 1;
                        }
                        self.rules.push(Rule::new(&arg, &pat, &rep)?);
                    }
                    "norules" => self.rules.clear(),
                    "item" => self.emit_item(&arg)?,
                    "const" => self.emit_const(&arg)?,
                    "fn" | "closure" => {
                        let mut w = arg.split_whitespace();
                        let mut key = w.next().unwrap().to_string();
                        let mut spec = FnSpec { ret: "ret".into(), probe: true, ..Default::default() };
                        if cmd == "closure" {
                            // FN SELECTOR, selector `let:NAME` or `METHOD:N`
                            key = format!("{key}#{}", w.next().unwrap_or(""));
                        }
                        for o in w {
                            if let Some(x) = o.strip_prefix("as=") {
                                spec.rename = Some(x.to_string());
                            }
                            if o == "noprobe" {
                                spec.probe = false;
                            }
                        }
                        i += 1;
                        let mut sect = "contract".to_string();
                        while lines[i].trim() != "//@endfn" {
                            let t = lines[i].trim();
                            if let Some(d) = t.strip_prefix("//@") {
                                let mut w = d.splitn(2, ' ');
                                let c = w.next().unwrap();
                                let a = w.next().unwrap_or("").trim();
                                match c {
                                    "params" => spec.params = a.split_whitespace().map(Into::into).collect(),
                                    "ret" => spec.ret = a.to_string(),
                                    "sig" => spec.sig_override = Some(a.to_string()),
                                    "noself" => spec.noself = true,
                                    "contract" => sect = "contract".into(),
                                    "loop" => sect = format!("loop {a}"),
                                    "head" | "tail" | "loophead" | "looptail" | "after" | "before" => sect = format!("{c} {a}").trim().to_string(),
                                    x => return Err(format!("unknown fn directive //@{x}")),
                                }
                            } else {
                                let s = lines[i];
                                if sect == "contract" {
                                    spec.contract.push_str(s);
                                    spec.contract.push('\n');
                                } else if let Some(n) = sect.strip_prefix("loop ") {
                                    let e = spec.loops.entry(n.parse().unwrap()).or_default();
                                    e.push_str(s);
                                    e.push('\n');
                                } else {
                                    let e = spec.sections.entry(sect.clone()).or_default();
                                    e.push_str(s);
                                    e.push('\n');
                                }
                            }
                            i += 1;
                        }
                        if let Err(e) = self.emit_fn(&key, spec) {
                            self.errors.push(e);
                        }
                    }
                    x => return Err(format!("unknown directive //@{x}")),
                }
            } else {
                self.out.push_str(lines[i]);
                self.out.push('\n');
            }
            i += 1;
        }
        Ok(())
    }

    fn emit_item(&mut self, arg: &str) -> Result<(), String> {
        let mut w = arg.split_whitespace();
        let name = w.next().unwrap().to_string();
        let opts: Vec<String> = w.map(Into::into).collect();
        let s = self.src()?;
        let mut it = s.items.get(&name).cloned().ok_or_else(|| format!("anchor lost: type `{name}` not in {}", self.cur))?;
        DropAttrs.visit_item_mut(&mut it);
        let vis: syn::Visibility = syn::parse2(quote!(pub)).unwrap();
        match &mut it {
            syn::Item::Struct(x) => {
                x.vis = vis.clone();
                for f in x.fields.iter_mut() {
                    f.vis = vis.clone();
                }
            }
            syn::Item::Enum(x) => x.vis = vis,
            syn::Item::Type(x) => x.vis = vis,
            _ => (),
        }
        let mut counts = BTreeMap::new();
        let mut rw = Rewriter { rules: &self.rules, counts: &mut counts };
        rw.visit_item_mut(&mut it);
        for o in &opts {
            if let Some(d) = o.strip_prefix("derive=") {
                self.out.push_str(&format!("#[derive({d})]\n"));
            }
            if let Some(d) = o.strip_prefix("attr=") {
                self.out.push_str(&format!("#[{d}]\n"));
            }
        }
        self.out.push_str(&it.to_token_stream().to_string());
        self.out.push('\n');
        self.items.push(format!("{}:{}", self.cur, name));
        Ok(())
    }

    fn emit_const(&mut self, name: &str) -> Result<(), String> {
        let s = self.src()?;
        let it = s.consts.get(name).cloned().ok_or_else(|| format!("anchor lost: const `{name}` not in {}", self.cur))?;
        self.emit_const_item(&it);
        Ok(())
    }
    fn emit_const_item(&mut self, it: &syn::Item) {
        let mut it = it.clone();
        DropAttrs.visit_item_mut(&mut it);
        let name = match &mut it {
            syn::Item::Const(c) => {
                c.vis = syn::parse2(quote!(pub)).unwrap();
                c.ident.to_string()
            }
            syn::Item::Static(c) => c.ident.to_string(),
            _ => return,
        };
        if self.emitted_consts.insert(name.clone()) {
            self.items.push(format!("{}:{}", self.cur, name));
            self.out.push_str(&it.to_token_stream().to_string());
            self.out.push('\n');
        }
    }

    fn emit_fn(&mut self, key: &str, spec: FnSpec) -> Result<(), String> {
        let s = self.src()?;
        let (fkey, sel) = match key.split_once('#') {
            Some((a, b)) => (a, Some(b)),
            None => (key, None),
        };
        let def = s.find_fn(fkey).ok_or_else(|| format!("anchor lost: function `{fkey}` not in {}", self.cur))?;
        let mut sig = def.sig.clone();
        let mut block = def.block.clone();
        DropAttrs.visit_signature_mut(&mut sig);
        DropAttrs.visit_block_mut(&mut block);
        if self.verus {
            Matches.visit_block_mut(&mut block);
            Select.visit_block_mut(&mut block);
        }
        let mut inlined_closures = vec![];
        if self.verus {
            inline_closures(&mut block, &mut inlined_closures);
        }
        if let Some(sel) = sel {
            let c = find_closure(&block, sel).ok_or_else(|| format!("anchor lost: closure `{sel}` not in function `{fkey}` of {}", self.cur))?;
            let mut stmts: Vec<syn::Stmt> = vec![];
            sig.inputs.clear();
            sig.generics = Default::default();
            sig.output = syn::ReturnType::Default;
            for (n, p) in c.inputs.iter().enumerate() {
                let (p, ty) = match p {
                    syn::Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                    p => (p.clone(), None),
                };
                let _ = ty;
                match &p {
                    syn::Pat::Ident(i) if i.subpat.is_none() => {
                        let id = &i.ident;
                        sig.inputs.push(syn::parse_quote!(#id : _));
                    }
                    _ => {
                        let id = syn::Ident::new(&format!("__arg{n}"), proc_macro2::Span::call_site());
                        sig.inputs.push(syn::parse_quote!(#id : _));
                        if !matches!(p, syn::Pat::Wild(_)) {
                            let p: syn::Pat = p;
                            stmts.push(syn::parse_quote!(let #p = #id;));
                        }
                    }
                }
            }
            match &*c.body {
                syn::Expr::Block(b) if b.label.is_none() => stmts.extend(b.block.stmts.clone()),
                e => stmts.push(syn::Stmt::Expr(e.clone(), None)),
            }
            block.stmts = stmts;
            if spec.sig_override.is_none() {
                return Err(format!("closure `{key}` needs a sig"));
            }
        }

        // helper functions
        let mut inl = Inliner {
            src: &s,
            owner: def.owner.clone(),
            key: fkey.to_string(),
            known: &self.known,
            done: vec![],
            depth: 0,
            allow: 0,
        };
        inl.visit_block_mut(&mut block);
        inl.tail(&mut block);
        let mut inlined = inl.done;
        inlined.extend(inlined_closures.into_iter().map(|c| format!("closure {c}")));
        // drop nested fn items (they are reached by inlining or are under contract themselves)
        block.stmts.retain(|s| !matches!(s, syn::Stmt::Item(syn::Item::Fn(_))));

        let mut counts = BTreeMap::new();
        for _ in 0..4 {
            let before: usize = counts.values().sum();
            let mut rw = Rewriter { rules: &self.rules, counts: &mut counts };
            rw.visit_block_mut(&mut block);
            rw.visit_signature_mut(&mut sig);
            let mut te = TryExpander { n: 0, bad: false, done: 0 };
            te.visit_block_mut(&mut block);
            if te.done == 0 && counts.values().sum::<usize>() == before {
                break;
            }
        }

        // constants the body mentions
        let mut idents = BTreeSet::new();
        collect_idents(block.to_token_stream(), &mut idents);
        let wanted: Vec<syn::Item> = s
            .consts
            .iter()
            .filter(|(k, _)| idents.contains(*k) && !self.emitted_consts.contains(*k) && !self.known.contains(*k))
            .map(|(_, v)| v.clone())
            .collect();

        // parameter names: contract name -> actual name
        let mut ren: Vec<(String, String)> = vec![];
        let mut actual = vec![];
        for inp in &sig.inputs {
            match inp {
                syn::FnArg::Receiver(_) => actual.push("self".to_string()),
                syn::FnArg::Typed(p) => actual.push(match &*p.pat {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    x => x.to_token_stream().to_string(),
                }),
            }
        }
        if !spec.params.is_empty() {
            if spec.params.len() != actual.len() {
                return Err(format!("anchor lost: `{key}` takes {} parameters, contract names {}", actual.len(), spec.params.len()));
            }
            for (a, b) in spec.params.iter().zip(&actual) {
                if a != b {
                    ren.push((a.clone(), b.clone()));
                }
            }
        }
        let ren_text = |t: &str| -> String { rename_idents(t, &ren) };

        let mut lm = LoopMarker { n: 0, spec: &spec, verus: self.verus };
        if self.verus {
            lm.visit_block_mut(&mut block);
        }
        let loops_found = lm.n;

        if self.verus {
            if spec.sections.contains_key("head") {
                block.stmts.insert(0, syn::parse_quote!(__VHEAD!();));
            }
            if spec.sections.contains_key("tail") {
                if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last().cloned() {
                    block.stmts.pop();
                    block.stmts.push(syn::parse_quote!(let __vret = #e;));
                    block.stmts.push(syn::parse_quote!(__VTAIL!();));
                    block.stmts.push(syn::Stmt::Expr(syn::parse_quote!(__vret), None));
                } else {
                    block.stmts.push(syn::parse_quote!(__VTAIL!();));
                }
            }
        }

        if self.stub && self.verus {
            self.stubs.push(key.to_string());
        }
        let mut name = sig.ident.to_string();
        if let Some(r) = &spec.rename {
            name = r.clone();
            sig.ident = syn::Ident::new(r, sig.ident.span());
        }
        let _ = name;
        let mut head = String::new();
        if let Some(o) = &spec.sig_override {
            head.push_str(&if sel.is_some() { ren_text(o) } else { o.clone() });
        } else {
            let ret = match &sig.output {
                syn::ReturnType::Default => String::new(),
                syn::ReturnType::Type(_, t) => {
                    if self.verus {
                        format!(" -> ({} : {})", spec.ret, t.to_token_stream())
                    } else {
                        format!(" -> {}", t.to_token_stream())
                    }
                }
            };
            let mut sg = sig.clone();
            sg.output = syn::ReturnType::Default;
            let wh = sg.generics.where_clause.take();
            head.push_str(&sg.to_token_stream().to_string());
            head.push_str(&ret);
            if let Some(w) = wh {
                head.push(' ');
                head.push_str(&w.to_token_stream().to_string());
            }
        }
        // consts must be outside of impl blocks: they are emitted through a side list
        for c in wanted {
            if !self.consts_later(&c) {
                self.emit_const_item(&c);
            }
        }
        let mut body = unraw(block.to_token_stream()).to_string();
        if self.verus {
            body = splice(&body, &spec, &ren_text);
        }
        if self.stub && self.verus {
            self.out.push_str("#[verifier::external_body]\n");
            self.out.push_str(&head);
            self.out.push('\n');
            self.out.push_str(&ren_text(&spec.contract));
            self.out.push_str("{ unimplemented!() }\n");
            return Ok(());
        }
        if self.verus && spec.probe && std::env::var_os("VX_PROBE").is_some() {
            // vacuity probe: the end of the body has to be reachable under the contract
            // (running out of the usual budget counts as not accepted)
            if let Some(k) = head.find("#[verifier::rlimit(") {
                if let Some(e) = head[k..].find(")]") {
                    head.replace_range(k..k + e + 2, "");
                }
            }
            // (hide headers have to stay at the very beginning)
            let hides: String = body
                .lines()
                .filter(|l| l.trim_start().starts_with("hide("))
                .map(|l| format!("{l}\n"))
                .collect();
            let rest: String = body
                .lines()
                .filter(|l| !l.trim_start().starts_with("hide("))
                .map(|l| format!("{l}\n"))
                .collect();
            body = format!("{{ {hides} let __vprobe = {rest} ; assert(false); __vprobe }}");
        }
        let g0 = self.line();
        self.out.push_str(&head);
        self.out.push('\n');
        if self.verus {
            self.out.push_str(&ren_text(&spec.contract));
        }
        self.out.push_str(&body);
        self.out.push('\n');
        let g1 = self.line();
        self.reports.push(FnReport {
            key: key.to_string(),
            file: self.cur.clone(),
            src: def.lines,
            gen: (g0, g1),
            loops_declared: spec.loops.len(),
            loops_found,
            inlined,
            rules: counts,
            has_requires: spec.contract.contains("requires"),
            probe: spec.probe,
        });
        Ok(())
    }

    /// If we are inside an `impl {` written in the template, hoist the const above it.
    fn consts_later(&mut self, c: &syn::Item) -> bool {
        // find the last line that starts with "impl" and has no closing "}" line after it
        let mut pos = None;
        let mut off = 0;
        for l in self.out.split_inclusive('\n') {
            if l.starts_with("impl") {
                pos = Some(off);
            }
            if l.starts_with('}') {
                pos = None;
            }
            off += l.len();
        }
        let Some(p) = pos else { return false };
        let mut it = c.clone();
        DropAttrs.visit_item_mut(&mut it);
        let name = match &mut it {
            syn::Item::Const(c) => {
                c.vis = syn::parse2(quote!(pub)).unwrap();
                c.ident.to_string()
            }
            _ => return true,
        };
        if self.emitted_consts.insert(name.clone()) {
            self.items.push(format!("{}:{}", self.cur, name));
            let t = format!("{}\n", it.to_token_stream());
            self.out.insert_str(p, &t);
            for r in &mut self.reports {
                // one line was added somewhere above
                if r.gen.0 > self.out[..p].matches('\n').count() {
                    r.gen.0 += 1;
                    r.gen.1 += 1;
                }
            }
        }
        true
    }

    fn report(&self) -> String {
        fn q(s: &str) -> String {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\t' => o.push_str("\\t"),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        let mut o = String::from("{\"errors\":[");
        o.push_str(&self.errors.iter().map(|e| q(e)).collect::<Vec<_>>().join(","));
        o.push_str("],\"items\":[");
        o.push_str(&self.items.iter().map(|e| q(e)).collect::<Vec<_>>().join(","));
        o.push_str("],\"stubs\":[");
        o.push_str(&self.stubs.iter().map(|e| q(e)).collect::<Vec<_>>().join(","));
        o.push_str("],\"functions\":[");
        let fs: Vec<String> = self
            .reports
            .iter()
            .map(|r| {
                format!(
                    "{{\"key\":{},\"file\":{},\"src\":[{},{}],\"gen\":[{},{}],\"loops_declared\":{},\"loops_found\":{},\"has_requires\":{},\"probe\":{},\"inlined\":[{}],\"rules\":{{{}}}}}",
                    q(&r.key),
                    q(&r.file),
                    r.src.0,
                    r.src.1,
                    r.gen.0,
                    r.gen.1,
                    r.loops_declared,
                    r.loops_found,
                    r.has_requires,
                    r.probe,
                    r.inlined.iter().map(|e| q(e)).collect::<Vec<_>>().join(","),
                    r.rules.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(","),
                )
            })
            .collect();
        o.push_str(&fs.join(",\n"));
        o.push_str("]}\n");
        o
    }
}

/// `let NAME = |args| body;` where NAME is only ever called: the calls become blocks.
fn inline_closures(block: &mut syn::Block, done: &mut Vec<String>) {
    struct Finder {
        found: Vec<(String, syn::ExprClosure)>,
    }
    impl<'a> syn::visit::Visit<'a> for Finder {
        fn visit_local(&mut self, l: &'a syn::Local) {
            if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                if let syn::Expr::Closure(c) = &*init.expr {
                    use syn::visit::Visit;
                    let mut h = HasReturn(false, false);
                    h.visit_expr(&c.body);
                    if i.by_ref.is_none() && c.asyncness.is_none() && c.capture.is_none() && !h.0 && !h.1 {
                        self.found.push((i.ident.to_string(), c.clone()));
                    }
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    struct Uses<'n> {
        name: &'n str,
        calls: usize,
        all: usize,
        lets: usize,
    }
    impl<'a> syn::visit::Visit<'a> for Uses<'_> {
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident(self.name)) {
                self.calls += 1;
            }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            if p.ident == self.name {
                self.lets += 1;
            }
            syn::visit::visit_pat_ident(self, p);
        }
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            if p.path.is_ident(self.name) {
                self.all += 1;
            }
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            let mut ids = BTreeSet::new();
            collect_idents(m.tokens.clone(), &mut ids);
            if ids.contains(self.name) {
                self.all += 1;
            }
        }
    }
    struct Subst {
        name: String,
        c: syn::ExprClosure,
    }
    impl VisitMut for Subst {
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let syn::Expr::Call(c) = e {
                if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident(&self.name)) && c.args.len() == self.c.inputs.len() {
                    let mut lets: Vec<syn::Stmt> = vec![];
                    for (n, (p, a)) in self.c.inputs.iter().zip(&c.args).enumerate() {
                        let t = syn::Ident::new(&format!("__cl{n}"), proc_macro2::Span::call_site());
                        let _ = p;
                        lets.push(syn::parse_quote!(let #t = #a;));
                    }
                    for (n, p) in self.c.inputs.iter().enumerate() {
                        let t = syn::Ident::new(&format!("__cl{n}"), proc_macro2::Span::call_site());
                        let p = match p {
                            syn::Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        lets.push(syn::parse_quote!(let #p = #t;));
                    }
                    match &*self.c.body {
                        syn::Expr::Block(b) if b.label.is_none() => {
                            let st = &b.block.stmts;
                            *e = syn::parse_quote!({ #(#lets)* #(#st)* });
                        }
                        b if lets.is_empty() => *e = syn::parse_quote!((#b)),
                        b => *e = syn::parse_quote!({ #(#lets)* #b }),
                    }
                }
            }
        }
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            visit_mut::visit_block_mut(self, b);
            b.stmts.retain(|s| !matches!(s, syn::Stmt::Local(l) if matches!(&l.pat, syn::Pat::Ident(i) if i.ident == self.name)
                && matches!(&l.init, Some(i) if matches!(&*i.expr, syn::Expr::Closure(_)))));
        }
    }
    for _ in 0..8 {
        use syn::visit::Visit;
        let mut f = Finder { found: vec![] };
        f.visit_block(block);
        let mut hit = false;
        for (name, c) in f.found {
            let mut u = Uses { name: &name, calls: 0, all: 0, lets: 0 };
            u.visit_block(block);
            if u.calls == u.all && u.lets == 1 && u.calls > 0 {
                Subst { name: name.clone(), c }.visit_block_mut(block);
                done.push(name);
                hit = true;
                break;
            }
        }
        if !hit {
            break;
        }
    }
}

/// `let:NAME`, or `METHOD:N` for the closure passed to the Nth call of METHOD.
fn find_closure(block: &syn::Block, sel: &str) -> Option<syn::ExprClosure> {
    struct F<'s> {
        kind: &'s str,
        name: &'s str,
        n: usize,
        found: Option<syn::ExprClosure>,
    }
    impl<'a> syn::visit::Visit<'a> for F<'_> {
        fn visit_local(&mut self, l: &'a syn::Local) {
            if self.kind == "let" {
                if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let (true, syn::Expr::Closure(c)) = (i.ident == self.name, &*init.expr) {
                        self.found.get_or_insert(c.clone());
                    }
                }
            }
            syn::visit::visit_local(self, l);
        }
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            if m.method == self.kind {
                for a in &m.args {
                    if let syn::Expr::Closure(c) = a {
                        if self.n == 0 {
                            self.found.get_or_insert(c.clone());
                        }
                        self.n = self.n.wrapping_sub(1);
                    }
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_call(&mut self, m: &'a syn::ExprCall) {
            if matches!(&*m.func, syn::Expr::Path(p) if p.path.segments.last().map(|s| s.ident == self.kind).unwrap_or(false)) {
                for a in &m.args {
                    if let syn::Expr::Closure(c) = a {
                        if self.n == 0 {
                            self.found.get_or_insert(c.clone());
                        }
                        self.n = self.n.wrapping_sub(1);
                    }
                }
            }
            syn::visit::visit_expr_call(self, m);
        }
    }
    use syn::visit::Visit;
    let (kind, name) = sel.split_once(':')?;
    let n = if kind == "let" { 0 } else { name.parse().ok()? };
    let mut f = F { kind, name, n, found: None };
    f.visit_block(block);
    f.found
}

/// `__raw!(…)` in a rule's replacement stands for text that is not Rust
fn unraw(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut o: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1), v.get(i + 2)) {
            (TokenTree::Ident(a), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) if a == "__raw" && p.as_char() == '!' => {
                o.extend(unraw(g.stream()));
                i += 3;
                continue;
            }
            (TokenTree::Group(g), _, _) => o.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), unraw(g.stream())))),
            (t, _, _) => o.push(t.clone()),
        }
        i += 1;
    }
    o.into_iter().collect()
}

fn collect_idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => collect_idents(g.stream(), out),
            _ => (),
        }
    }
}

fn rename_idents(t: &str, ren: &[(String, String)]) -> String {
    if ren.is_empty() {
        return t.to_string();
    }
    let mut o = String::new();
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let mut j = i;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            let w: String = b[i..j].iter().collect();
            match ren.iter().find(|(a, _)| *a == w) {
                Some((_, n)) => o.push_str(n),
                None => o.push_str(&w),
            }
            i = j;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// Replace the markers by Verus text.
fn splice(body: &str, spec: &FnSpec, ren: &dyn Fn(&str) -> String) -> String {
    let mut b = body.to_string();
    // `for P in __VIT_n ! (E)` -> `for P in it_n : E`
    while let Some(p) = b.find("__VIT_") {
        let rest = &b[p..];
        let num: String = rest["__VIT_".len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
        let open = p + rest.find('(').unwrap();
        let mut d = 0i32;
        let mut close = open;
        for (i, c) in b[open..].char_indices() {
            match c {
                '(' => d += 1,
                ')' => {
                    d -= 1;
                    if d == 0 {
                        close = open + i;
                        break;
                    }
                }
                _ => (),
            }
        }
        let inner = b[open + 1..close].to_string();
        b = format!("{}it_{} : {}{}", &b[..p], num, inner, &b[close + 1..]);
    }
    // `{ __VLOOP_n ! () ;` -> `INV {`
    while let Some(p) = b.find("__VLOOP_") {
        let rest = &b[p..];
        let num: usize = rest["__VLOOP_".len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
        let semi = p + rest.find(';').unwrap();
        let brace = b[..p].rfind('{').unwrap();
        let inv = spec.loops.get(&num).map(|s| ren(s)).unwrap_or_default();
        b = format!("{}\n{}{{{}", &b[..brace], inv, &b[semi + 1..]);
    }
    for (k, t) in &spec.sections {
        let m = match k.split_once(' ') {
            None => format!("__V{} ! () ;", k.to_uppercase()),
            Some((k, n)) => format!("__V{}_{} ! () ;", k.to_uppercase(), n),
        };
        b = b.replace(&m, &format!("\n{}\n", ren(t)));
    }
    b
}

struct LoopMarker<'a> {
    n: usize,
    spec: &'a FnSpec,
    verus: bool,
}
impl LoopMarker<'_> {
    fn mark(&mut self, body: &mut syn::Block, n: usize) {
        let id = |s: &str| syn::Ident::new(&format!("{s}_{n}"), proc_macro2::Span::call_site());
        if self.spec.sections.contains_key(&format!("loophead {n}")) {
            let m = id("__VLOOPHEAD");
            body.stmts.insert(0, syn::parse_quote!(#m!();));
        }
        if self.spec.sections.contains_key(&format!("looptail {n}")) {
            let m = id("__VLOOPTAIL");
            if let Some(syn::Stmt::Expr(e, semi @ None)) = body.stmts.last_mut() {
                // unit tail expression
                let _ = e;
                *semi = Some(Default::default());
            }
            body.stmts.push(syn::parse_quote!(#m!();));
        }
        if self.spec.loops.contains_key(&n) {
            let m = id("__VLOOP");
            body.stmts.insert(0, syn::parse_quote!(#m!();));
        }
    }
}
impl VisitMut for LoopMarker<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        let _ = self.verus;
        match e {
            syn::Expr::While(w) => {
                let n = self.n;
                self.n += 1;
                visit_mut::visit_expr_mut(self, &mut w.cond);
                self.visit_block_mut(&mut w.body);
                self.mark(&mut w.body, n);
            }
            syn::Expr::Loop(w) => {
                let n = self.n;
                self.n += 1;
                self.visit_block_mut(&mut w.body);
                self.mark(&mut w.body, n);
            }
            syn::Expr::ForLoop(w) => {
                let n = self.n;
                self.n += 1;
                self.visit_expr_mut(&mut w.expr);
                self.visit_block_mut(&mut w.body);
                self.mark(&mut w.body, n);
                if self.spec.loops.contains_key(&n) {
                    let m = syn::Ident::new(&format!("__VIT_{n}"), proc_macro2::Span::call_site());
                    let x = &w.expr;
                    *w.expr = syn::parse_quote!(#m!(#x));
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            let is_loop = matches!(&s, syn::Stmt::Expr(syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::ForLoop(_), _));
            let n = self.n;
            if is_loop && self.spec.sections.contains_key(&format!("before {n}")) {
                let m = syn::Ident::new(&format!("__VBEFORE_{n}"), proc_macro2::Span::call_site());
                b.stmts.push(syn::parse_quote!(#m!();));
            }
            self.visit_stmt_mut(&mut s);
            if is_loop && self.spec.sections.contains_key(&format!("after {n}")) {
                let m = syn::Ident::new(&format!("__VAFTER_{n}"), proc_macro2::Span::call_site());
                if let syn::Stmt::Expr(e, None) = s {
                    s = syn::Stmt::Expr(e, Some(Default::default()));
                }
                b.stmts.push(s);
                b.stmts.push(syn::parse_quote!(#m!();));
            } else {
                b.stmts.push(s);
            }
        }
    }
}

/// Inline calls of same-file helpers that are not under contract.
struct Inliner<'a> {
    src: &'a Source,
    owner: Option<String>,
    key: String,
    known: &'a BTreeSet<String>,
    done: Vec<String>,
    depth: usize,
    /// what the helper may do: 0 just give its value, 1 also `?` (the call is itself under `?`), 2 leave anyhow (the call is the caller's result)
    allow: u8,
}

struct HasReturn(bool, bool);
impl<'ast> syn::visit::Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        self.0 = true;
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        self.1 = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

impl Inliner<'_> {
    fn candidate(&self, keys: &[String]) -> Option<(String, FnDef)> {
        for k in keys {
            if self.known.contains(k) {
                return None;
            }
        }
        for k in keys {
            if let Some(d) = self.src.fns.get(k) {
                use syn::visit::Visit;
                let mut h = HasReturn(false, false);
                h.visit_block(&d.block);
                if h.0 && self.allow < 2 || h.1 && self.allow < 1 || self.depth > 4 {
                    return None;
                }
                if d.sig.generics.params.iter().any(|p| !matches!(p, syn::GenericParam::Lifetime(_))) {
                    return None;
                }
                return Some((k.clone(), d.clone()));
            }
        }
        None
    }
    fn build(&mut self, d: &FnDef, args: &[syn::Expr]) -> Option<syn::Expr> {
        let mut lets: Vec<syn::Stmt> = vec![];
        let mut it = args.iter();
        for (n, inp) in d.sig.inputs.iter().enumerate() {
            match inp {
                syn::FnArg::Receiver(_) => (),
                syn::FnArg::Typed(p) => {
                    let a = it.next()?;
                    // bind through a temporary so that argument expressions cannot capture
                    let t = syn::Ident::new(&format!("__inl{}_{n}", self.depth), proc_macro2::Span::call_site());
                    lets.push(syn::parse_quote!(let #t = #a;));
                    let _ = p;
                }
            }
        }
        for (n, inp) in d.sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(p) = inp {
                let t = syn::Ident::new(&format!("__inl{}_{n}", self.depth), proc_macro2::Span::call_site());
                let (pat, ty) = (&p.pat, &p.ty);
                if ty.to_token_stream().to_string().contains("impl ") {
                    lets.push(syn::parse_quote!(let #pat = #t;));
                } else {
                    lets.push(syn::parse_quote!(let #pat : #ty = #t;));
                }
            }
        }
        let mut blk = d.block.clone();
        DropAttrs.visit_block_mut(&mut blk);
        self.depth += 1;
        let allow = self.allow;
        self.allow = 0;
        self.visit_block_mut(&mut blk);
        if allow == 2 {
            self.tail(&mut blk);
        }
        self.allow = allow;
        self.depth -= 1;
        let stmts = &blk.stmts;
        Some(syn::parse_quote!({ #(#lets)* #(#stmts)* }))
    }
}

/// the value of a block of type Result under `?`
fn under_try(b: &mut syn::Block) {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last_mut() {
        under_try_expr(e);
    }
}
fn under_try_expr(e: &mut syn::Expr) {
    use syn::Expr as E;
    match e {
        E::Block(b) if b.label.is_none() => under_try(&mut b.block),
        E::If(i) if i.else_branch.is_some() => {
            under_try(&mut i.then_branch);
            under_try_expr(&mut i.else_branch.as_mut().unwrap().1);
        }
        E::Match(m) => m.arms.iter_mut().for_each(|a| under_try_expr(&mut a.body)),
        E::Call(c) if c.args.len() == 1 && matches!(&*c.func, E::Path(p) if p.path.is_ident("Ok")) => {
            let x = c.args[0].clone();
            *e = x;
        }
        E::Call(c) if c.args.len() == 1 && matches!(&*c.func, E::Path(p) if p.path.is_ident("Err")) => {
            let c = c.clone();
            *e = syn::parse_quote!(return #c);
        }
        E::Return(_) => (),
        _ => {
            let y = e.clone();
            *e = syn::parse_quote!(#y?);
        }
    }
}

impl Inliner<'_> {
    /// calls that are the function's own result
    fn tail(&mut self, b: &mut syn::Block) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_expr(e);
        }
    }
    fn tail_expr(&mut self, e: &mut syn::Expr) {
        use syn::Expr as E;
        match e {
            E::Block(b) if b.label.is_none() => self.tail(&mut b.block),
            E::If(i) if i.else_branch.is_some() => {
                self.tail(&mut i.then_branch);
                self.tail_expr(&mut i.else_branch.as_mut().unwrap().1);
            }
            E::Match(m) => m.arms.iter_mut().for_each(|a| self.tail_expr(&mut a.body)),
            E::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail_expr(x);
                }
            }
            E::Call(_) | E::MethodCall(_) => {
                let a = self.allow;
                self.allow = 2;
                self.call(e);
                self.allow = a;
            }
            _ => (),
        }
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Try(t) = e {
            if matches!(&*t.expr, syn::Expr::Call(_) | syn::Expr::MethodCall(_)) {
                visit_mut::visit_expr_mut(self, &mut t.expr);
                let a = self.allow;
                self.allow = 1;
                self.call(&mut t.expr);
                self.allow = a;
                if let syn::Expr::Block(b) = &mut *t.expr {
                    under_try(&mut b.block);
                    *e = syn::Expr::Block(b.clone());
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        self.call(e);
    }
}

impl Inliner<'_> {
    fn call(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let mut keys = vec![];
                    if segs.len() == 1 {
                        keys.push(format!("{}/{}", self.key, segs[0]));
                        if let Some((outer, _)) = self.key.rsplit_once('/') {
                            keys.push(format!("{outer}/{}", segs[0]));
                        }
                        keys.push(segs[0].clone());
                    } else if segs.len() == 2 {
                        let o = if segs[0] == "Self" { self.owner.clone().unwrap_or_default() } else { segs[0].clone() };
                        keys.push(format!("{o}::{}", segs[1]));
                    } else {
                        return;
                    }
                    if keys.iter().any(|k| *k == self.key) {
                        return;
                    }
                    if let Some((k, d)) = self.candidate(&keys) {
                        if d.sig.receiver().is_some() {
                            return;
                        }
                        let args: Vec<syn::Expr> = c.args.iter().cloned().collect();
                        if let Some(x) = self.build(&d, &args) {
                            self.done.push(k);
                            *e = x;
                        }
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                let is_self = matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
                if !is_self {
                    return;
                }
                let Some(o) = self.owner.clone() else { return };
                let key = format!("{o}::{}", m.method);
                if key == self.key {
                    return;
                }
                if let Some((k, d)) = self.candidate(&[key]) {
                    if d.sig.receiver().map(|r| r.reference.is_none()).unwrap_or(true) {
                        return;
                    }
                    let args: Vec<syn::Expr> = m.args.iter().cloned().collect();
                    if let Some(x) = self.build(&d, &args) {
                        self.done.push(k);
                        *e = x;
                    }
                }
            }
            _ => (),
        }
    }
}

#[allow(dead_code)]
fn unused(_: Delimiter) {}

/// `__try!(e)` in a rule's replacement: the result `e` has as a closure's body, `?` leaves `e` only
struct TryExpander {
    n: usize,
    bad: bool,
    done: usize,
}
struct HasTry(bool);
impl<'a> syn::visit::Visit<'a> for HasTry {
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
fn try_in_expr(e: &syn::Expr) -> bool {
    let mut h = HasTry(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}
fn try_in_stmt(s: &syn::Stmt) -> bool {
    let mut h = HasTry(false);
    syn::visit::Visit::visit_stmt(&mut h, s);
    h.0
}
fn wrap_block(b: &mut syn::Block) {
    match b.stmts.last().cloned() {
        Some(syn::Stmt::Expr(e, None)) => {
            b.stmts.pop();
            b.stmts.push(syn::Stmt::Expr(wrap_ok(e), None));
        }
        _ => b.stmts.push(syn::Stmt::Expr(syn::parse_quote!(Ok(())), None)),
    }
}
fn wrap_ok(e: syn::Expr) -> syn::Expr {
    use syn::Expr as E;
    match e {
        E::Match(mut m) => {
            for a in m.arms.iter_mut() {
                a.body = Box::new(wrap_ok((*a.body).clone()));
            }
            E::Match(m)
        }
        E::If(mut i) => {
            wrap_block(&mut i.then_branch);
            let x = match i.else_branch.take() {
                Some((_, x)) => wrap_ok(*x),
                None => syn::parse_quote!({ Ok(()) }),
            };
            i.else_branch = Some((Default::default(), Box::new(x)));
            E::If(i)
        }
        E::Block(mut b) if b.label.is_none() => {
            wrap_block(&mut b.block);
            E::Block(b)
        }
        E::Return(_) => e,
        e => syn::parse_quote!(Ok(#e)),
    }
}
impl TryExpander {
    /// take out the operand of the `?` that is evaluated first
    fn first(&mut self, e: &mut syn::Expr) -> Option<(syn::Expr, syn::Ident)> {
        use syn::Expr as E;
        if !try_in_expr(e) {
            return None;
        }
        macro_rules! seq { ($($x:expr),*) => {{ $( if let Some(r) = self.first($x) { return Some(r); } )* None }} }
        match e {
            E::Try(t) => {
                if let Some(r) = self.first(&mut t.expr) {
                    return Some(r);
                }
                self.n += 1;
                let id = syn::Ident::new(&format!("__t{}", self.n), proc_macro2::Span::call_site());
                let inner = (*t.expr).clone();
                *e = syn::parse_quote!(#id);
                Some((inner, id))
            }
            E::Paren(x) => self.first(&mut x.expr),
            E::Group(x) => self.first(&mut x.expr),
            E::Reference(x) => self.first(&mut x.expr),
            E::Unary(x) => self.first(&mut x.expr),
            E::Field(x) => self.first(&mut x.base),
            E::Cast(x) => self.first(&mut x.expr),
            E::Assign(x) => seq!(&mut x.right, &mut x.left),
            E::Index(x) => seq!(&mut x.expr, &mut x.index),
            E::Binary(x) => {
                if matches!(x.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) && try_in_expr(&x.right) && !try_in_expr(&x.left) {
                    self.bad = true;
                    return None;
                }
                seq!(&mut x.left, &mut x.right)
            }
            E::MethodCall(x) => {
                if let Some(r) = self.first(&mut x.receiver) {
                    return Some(r);
                }
                for a in x.args.iter_mut() {
                    if let Some(r) = self.first(a) {
                        return Some(r);
                    }
                }
                None
            }
            E::Call(x) => {
                for a in x.args.iter_mut() {
                    if let Some(r) = self.first(a) {
                        return Some(r);
                    }
                }
                None
            }
            E::Tuple(x) => {
                for a in x.elems.iter_mut() {
                    if let Some(r) = self.first(a) {
                        return Some(r);
                    }
                }
                None
            }
            E::If(x) if try_in_expr(&x.cond) && !matches!(*x.cond, E::Let(_)) => self.first(&mut x.cond),
            E::Match(x) if try_in_expr(&x.expr) => self.first(&mut x.expr),
            E::If(_) | E::Match(_) | E::Block(_) => {
                let w = wrap_ok(e.clone());
                let w = self.tail(w);
                self.n += 1;
                let id = syn::Ident::new(&format!("__t{}", self.n), proc_macro2::Span::call_site());
                *e = syn::parse_quote!(#id);
                Some((w, id))
            }
            _ => {
                self.bad = true;
                None
            }
        }
    }
    fn first_stmt(&mut self, s: &mut syn::Stmt) -> Option<(syn::Expr, syn::Ident)> {
        match s {
            syn::Stmt::Local(l) => match &mut l.init {
                Some(i) if i.diverge.is_none() => self.first(&mut i.expr),
                _ => {
                    self.bad = true;
                    None
                }
            },
            syn::Stmt::Expr(e, _) => self.first(e),
            _ => {
                self.bad = true;
                None
            }
        }
    }
    fn stmts(&mut self, v: Vec<syn::Stmt>) -> Vec<syn::Stmt> {
        for k in 0..v.len() {
            if !try_in_stmt(&v[k]) {
                continue;
            }
            let mut out: Vec<syn::Stmt> = v[..k].to_vec();
            if k + 1 == v.len() {
                if let syn::Stmt::Expr(e, None) = &v[k] {
                    let e = self.tail(e.clone());
                    out.push(syn::Stmt::Expr(e, None));
                    return out;
                }
            }
            let mut s = v[k].clone();
            let Some((x, id)) = self.first_stmt(&mut s) else { return v };
            let mut rest = vec![s];
            rest.extend(v[k + 1..].iter().cloned());
            let rest = self.stmts(rest);
            out.push(syn::Stmt::Expr(syn::parse_quote!(match #x { Ok(#id) => { #(#rest)* } Err(__e) => Err(__e) }), None));
            return out;
        }
        v
    }
    fn tail(&mut self, mut e: syn::Expr) -> syn::Expr {
        use syn::Expr as E;
        if !try_in_expr(&e) {
            return e;
        }
        match &mut e {
            E::Return(r) => {
                if let Some(x) = &r.expr {
                    let x = (**x).clone();
                    return self.tail(x);
                }
            }
            E::Block(b) if b.label.is_none() => {
                b.block.stmts = self.stmts(b.block.stmts.clone());
                return e;
            }
            E::If(i) if !try_in_expr(&i.cond) && i.else_branch.is_some() => {
                i.then_branch.stmts = self.stmts(i.then_branch.stmts.clone());
                let (t, x) = i.else_branch.take().unwrap();
                i.else_branch = Some((t, Box::new(self.tail(*x))));
                return e;
            }
            E::Match(m) if !try_in_expr(&m.expr) => {
                for a in m.arms.iter_mut() {
                    let b = (*a.body).clone();
                    a.body = Box::new(self.tail(b));
                }
                return e;
            }
            _ => (),
        }
        match self.first(&mut e) {
            Some((x, id)) => {
                let e = self.tail(e);
                syn::parse_quote!(match #x { Ok(#id) => #e, Err(__e) => Err(__e) })
            }
            None => e,
        }
    }
}
impl VisitMut for TryExpander {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if m.mac.path.is_ident("__try") {
                if let Ok(x) = syn::parse2::<syn::Expr>(m.mac.tokens.clone()) {
                    self.done += 1;
                    *e = self.tail(x);
                    if self.bad || try_in_expr(e) {
                        *e = syn::parse_quote!(__vx_unsupported_question_mark());
                    }
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// `matches!(e, p if g)` is the `match` it stands for
struct Matches;
impl VisitMut for Matches {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if m.mac.path.is_ident("matches") {
                use syn::parse::Parser;
                let q = |i: syn::parse::ParseStream| -> syn::Result<syn::Expr> {
                    let x: syn::Expr = i.parse()?;
                    i.parse::<syn::Token![,]>()?;
                    let pat = syn::Pat::parse_multi_with_leading_vert(i)?;
                    let g: Option<syn::Expr> = if i.peek(syn::Token![if]) {
                        i.parse::<syn::Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<syn::Token![,]>>()?;
                    Ok(match g {
                        Some(g) => syn::parse_quote!(match #x { #pat if #g => true, _ => false }),
                        None => syn::parse_quote!(match #x { #pat => true, _ => false }),
                    })
                };
                if let Ok(x) = q.parse2(m.mac.tokens.clone()) {
                    *e = x;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `crossbeam_select! { recv(rx) -> _ => a, default(d) => b }` waits: `if v_select(&rx) { a } else { b }`
struct Select;
impl VisitMut for Select {
    fn visit_stmt_mut(&mut self, st: &mut syn::Stmt) {
        if let syn::Stmt::Macro(m) = st {
            if let Some(e) = select(&m.mac) {
                *st = syn::Stmt::Expr(e, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, st);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if let Some(x) = select(&m.mac) {
                *e = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn select(m: &syn::Macro) -> Option<syn::Expr> {
    let last = m.path.segments.last()?.ident.to_string();
    if last != "crossbeam_select" && last != "select" {
        return None;
    }
    use syn::parse::Parser;
    let q = |i: syn::parse::ParseStream| -> syn::Result<(Option<(syn::Expr, syn::Expr)>, Option<syn::Expr>)> {
        let (mut r, mut d) = (None, None);
        while !i.is_empty() {
            let name: syn::Ident = i.parse()?;
            let c;
            syn::parenthesized!(c in i);
            let on: syn::Expr = c.parse()?;
            if name == "recv" && r.is_none() {
                i.parse::<syn::Token![->]>()?;
                i.parse::<syn::Token![_]>()?;
                i.parse::<syn::Token![=>]>()?;
                r = Some((on, i.parse()?));
            } else if name == "default" && d.is_none() {
                i.parse::<syn::Token![=>]>()?;
                d = Some(i.parse()?);
            } else {
                return Err(i.error("another arm"));
            }
            let _ = i.parse::<Option<syn::Token![,]>>()?;
        }
        Ok((r, d))
    };
    let (r, d) = q.parse2(m.tokens.clone()).ok()?;
    let (on, a) = r?;
    let b = d?;
    Some(syn::parse_quote!(if v_select(&#on) { #a } else { #b }))
}
