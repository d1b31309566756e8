//! vx: mechanical extraction of functions, types and constants from the real
//! sources of /repo into a single Verus file.
//!
//!   vx REPO TEMPLATE OUT.rs REPORT.json [--features a,b] [--probe]
//!
//! The template is a Verus file in which `//@` directives ask for the current
//! text of an item of the repository, with contracts spliced in.  Nothing of an
//! executable function is written by hand: bodies come from the repository on
//! every run.  What the extraction changes is the fixed list of rewrites below;
//! each application is counted in the report.
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Ctx {
    features: BTreeSet<String>,
    rw: BTreeMap<String, usize>,
}

impl Ctx {
    fn hit(&mut self, k: &str) {
        *self.rw.entry(k.to_string()).or_insert(0) += 1;
    }
    fn cfg_meta(&self, m: &Meta) -> bool {
        match m {
            Meta::Path(p) => {
                // cfg(test), cfg(kani), cfg(debug_assertions) ...
                p.is_ident("debug_assertions") || p.is_ident("unix")
            }
            Meta::NameValue(nv) => {
                if nv.path.is_ident("feature") {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                        return self.features.contains(&s.value());
                    }
                }
                false
            }
            Meta::List(l) => {
                let inner = l
                    .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                    .unwrap_or_default();
                if l.path.is_ident("not") {
                    !inner.iter().all(|m| self.cfg_meta(m))
                } else if l.path.is_ident("any") {
                    inner.iter().any(|m| self.cfg_meta(m))
                } else {
                    inner.iter().all(|m| self.cfg_meta(m))
                }
            }
        }
    }
    fn attrs_on(&self, attrs: &[Attribute]) -> bool {
        attrs.iter().all(|a| {
            if a.path().is_ident("cfg") {
                match a.parse_args::<Meta>() {
                    Ok(m) => self.cfg_meta(&m),
                    Err(_) => true,
                }
            } else {
                true
            }
        })
    }
}

fn stmt_attrs(s: &Stmt) -> Vec<Attribute> {
    match s {
        Stmt::Local(l) => l.attrs.clone(),
        Stmt::Item(i) => item_attrs(i).to_vec(),
        Stmt::Expr(e, _) => expr_attrs(e),
        Stmt::Macro(m) => m.attrs.clone(),
    }
}
fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    match e {
        Expr::Block(b) => b.attrs.clone(),
        Expr::If(b) => b.attrs.clone(),
        Expr::Match(b) => b.attrs.clone(),
        Expr::Return(b) => b.attrs.clone(),
        Expr::Call(b) => b.attrs.clone(),
        Expr::MethodCall(b) => b.attrs.clone(),
        Expr::Assign(b) => b.attrs.clone(),
        Expr::ForLoop(b) => b.attrs.clone(),
        Expr::While(b) => b.attrs.clone(),
        Expr::Macro(b) => b.attrs.clone(),
        Expr::Let(b) => b.attrs.clone(),
        Expr::Unsafe(b) => b.attrs.clone(),
        _ => vec![],
    }
}
fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        _ => &[],
    }
}

/// The rewrites.
struct Rw<'a> {
    c: &'a mut Ctx,
    n: usize,
    opts: &'a BTreeSet<String>,
    /// method name -> free function (trusted or extracted) that stands for it
    methods: &'a BTreeMap<String, String>,
    /// path (as written) -> replacement path
    paths: &'a BTreeMap<String, String>,
    /// names the file uses for a protocol-version specific type -> its name in the output
    vers: BTreeMap<String, String>,
}

/// The packet types exist once per protocol version under the same name; the flat output
/// tells them apart by a suffix.
const VERSIONED: [&str; 16] = [
    "MqttConnect", "MqttConnAck", "MqttPublish", "MqttPubAck", "MqttPubRec", "MqttPubRel", "MqttPubComp", "MqttSubscribe",
    "MqttSubAck", "MqttUnsubscribe", "MqttUnsubAck", "MqttPingReq", "MqttPingResp", "MqttDisconnect", "MqttAuth", "Will",
];
fn version_of(segs: &[String]) -> Option<&'static str> {
    for s in segs {
        if s.ends_with("v5") {
            return Some("5");
        }
        if s.ends_with("v3") {
            return Some("3");
        }
    }
    None
}
fn versions(file: &File, path: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for v in ["5", "3"] {
        if path.contains(&format!("/mqttv{}/", v)) {
            for t in VERSIONED {
                m.insert(t.to_string(), format!("{}{}", t, v));
            }
        }
    }
    fn walk(t: &UseTree, pre: &mut Vec<String>, m: &mut BTreeMap<String, String>) {
        match t {
            UseTree::Path(p) => {
                pre.push(p.ident.to_string());
                walk(&p.tree, pre, m);
                pre.pop();
            }
            UseTree::Name(n) => put(&n.ident.to_string(), &n.ident.to_string(), pre, m),
            UseTree::Rename(n) => put(&n.ident.to_string(), &n.rename.to_string(), pre, m),
            UseTree::Group(g) => {
                for t in &g.items {
                    walk(t, pre, m);
                }
            }
            UseTree::Glob(_) => {}
        }
    }
    fn put(orig: &str, alias: &str, pre: &[String], m: &mut BTreeMap<String, String>) {
        if VERSIONED.contains(&orig) {
            if let Some(v) = version_of(pre) {
                m.insert(alias.to_string(), format!("{}{}", orig, v));
            }
        }
    }
    for i in &file.items {
        if let Item::Use(u) = i {
            walk(&u.tree, &mut vec![], &mut m);
        }
    }
    m
}

fn refpat(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_pat_reference(&mut self, _: &'a PatReference) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}

impl<'a> Rw<'a> {
    fn fresh(&mut self) -> Ident {
        self.n += 1;
        Ident::new(&format!("vxp{}", self.n), Span::call_site())
    }
    /// Replaces every `&P` inside a pattern by a fresh name; returns the lets
    /// that recover P's bindings.
    fn deref_pats(&mut self, p: &mut Pat) -> Vec<Stmt> {
        struct V {
            out: Vec<(Ident, Pat)>,
            next: usize,
        }
        impl VisitMut for V {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    self.next += 1;
                    let id = Ident::new(&format!("vxp{}", self.next), Span::call_site());
                    self.out.push((id.clone(), (*r.pat).clone()));
                    *p = parse_quote_pat(quote!(#id));
                } else {
                    visit_mut::visit_pat_mut(self, p);
                }
            }
        }
        let mut v = V { out: vec![], next: self.n };
        v.visit_pat_mut(p);
        self.n = v.next;
        v.out
            .into_iter()
            .map(|(id, pat)| parse_quote!(let #pat = *#id;))
            .collect()
    }
}
fn parse_quote_pat(t: TokenStream) -> Pat {
    parse::Parser::parse2(Pat::parse_single, t).unwrap()
}

fn is_str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}

/// X.iter()
fn iter_of(mc: &ExprMethodCall) -> Option<Expr> {
    match &*mc.receiver {
        Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty() && mc.args.len() == 1 => Some((*i.receiver).clone()),
        _ => None,
    }
}
/// X.iter().filter(F).count()
fn filtered(mc: &ExprMethodCall) -> Option<(Expr, Expr)> {
    if let Expr::MethodCall(m) = &*mc.receiver {
        if m.method == "filter" && m.args.len() == 1 {
            if let Expr::MethodCall(i) = &*m.receiver {
                if i.method == "iter" {
                    return Some(((*i.receiver).clone(), m.args[0].clone()));
                }
            }
        }
    }
    None
}
fn chain(mc: &ExprMethodCall) -> Option<(&'static str, Option<Expr>, Expr)> {
    match &*mc.receiver {
        // values() was already replaced by a function returning a Vec
        Expr::Call(c) if c.func.to_token_stream().to_string().starts_with("vx_values") => Some(("values().collect()", None, (*mc.receiver).clone())),
        Expr::MethodCall(m) if m.method == "filter_map" && m.args.len() == 1 => match &*m.receiver {
            Expr::MethodCall(i) if i.method == "into_iter" && i.args.is_empty() => Some(("into_iter().filter_map(f).collect()", Some(m.args[0].clone()), (*i.receiver).clone())),
            _ => None,
        },
        Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => {
            let f = m.args[0].clone();
            match &*m.receiver {
                Expr::MethodCall(i) if i.method == "into_iter" && i.args.is_empty() => Some(("into_iter().map(f).collect()", Some(f), (*i.receiver).clone())),
                Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty() => Some(("iter().map(f).collect()", Some(f), (*i.receiver).clone())),
                _ => None,
            }
        }
        _ => None,
    }
}

struct MatchesArgs {
    e: Expr,
    p: Pat,
    g: Option<Expr>,
}
impl parse::Parse for MatchesArgs {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let e = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) {
            i.parse::<Token![if]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _ = i.parse::<Option<Token![,]>>()?;
        Ok(MatchesArgs { e, p, g })
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let before = b.stmts.len();
        b.stmts.retain(|s| self.c.attrs_on(&stmt_attrs(s)));
        if b.stmts.len() != before {
            self.c.hit("cfg-disabled statement dropped");
        }
        // imports of the crate's own names: everything extracted lies in one module
        b.stmts.retain(|s| {
            if let Stmt::Item(Item::Use(u)) = s {
                fn plain(t: &UseTree) -> bool {
                    match t {
                        UseTree::Path(p) => plain(&p.tree),
                        UseTree::Name(_) | UseTree::Glob(_) => true,
                        UseTree::Rename(_) => false,
                        UseTree::Group(g) => g.items.iter().all(plain),
                    }
                }
                fn named(t: &UseTree, pre: &mut Vec<String>, m: &mut BTreeMap<String, String>) {
                    match t {
                        UseTree::Path(p) => {
                            pre.push(p.ident.to_string());
                            named(&p.tree, pre, m);
                            pre.pop();
                        }
                        UseTree::Name(n) => {
                            let n = n.ident.to_string();
                            if let (true, Some(v)) = (VERSIONED.contains(&n.as_str()), version_of(pre)) {
                                m.insert(n.clone(), format!("{}{}", n, v));
                            }
                        }
                        UseTree::Group(g) => g.items.iter().for_each(|t| named(t, pre, m)),
                        _ => {}
                    }
                }
                if let UseTree::Path(p) = &u.tree {
                    if (p.ident == "crate" || p.ident == "super" || p.ident == "self" || p.ident == "flowsdk") && plain(&u.tree) {
                        named(&u.tree, &mut vec![], &mut self.vers);
                        self.c.hit("local import dropped");
                        return false;
                    }
                }
            }
            true
        });
        // logging macros
        b.stmts.retain(|s| {
            if let Stmt::Macro(m) = s {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if ["println", "eprintln", "print", "eprint", "debug", "info", "warn", "error", "trace"]
                    .contains(&n.as_str())
                {
                    return false;
                }
            }
            true
        });
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                *s = Stmt::Expr(e, m.semi_token.or(Some(Default::default())));
            }
        }
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let mut post = vec![];
            if let Stmt::Local(l) = &mut s {
                if l.init.as_ref().map(|i| i.diverge.is_some()).unwrap_or(false) && refpat(&l.pat) {
                    post = self.deref_pats(&mut l.pat);
                    self.c.hit("reference pattern -> explicit dereference");
                }
            }
            b.stmts.push(s);
            b.stmts.extend(post);
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        e.fields = std::mem::take(&mut e.fields).into_iter().filter(|f| self.c.attrs_on(&f.attrs)).collect();
        visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = Visibility::Inherited;
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        let key = p.to_token_stream().to_string().replace(' ', "");
        if let Some(r) = self.paths.get(&key) {
            *p = parse_str(r).unwrap();
            self.c.hit(&format!("path {} -> {}", key, r));
            return;
        }
        // the type of a path, per protocol version
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some(k) = segs.iter().position(|s| s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false)) {
            let new = if k == 0 {
                self.vers.get(&segs[0]).cloned()
            } else if VERSIONED.contains(&segs[k].as_str()) {
                version_of(&segs[..k]).map(|v| format!("{}{}", segs[k], v))
            } else {
                None
            };
            if let Some(n) = new {
                let mut q: punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(k).cloned().collect();
                q[0].ident = Ident::new(&n, Span::call_site());
                p.segments = q;
                p.leading_colon = None;
                visit_mut::visit_path_mut(self, p);
                return;
            }
        }
        // crate::a::b::C -> C ; super::x::Y -> Y (the output is one flat module)
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if (first == "crate" || first == "super" || first == "self" || first == "flowsdk") && p.segments.len() > 1 {
            // keep from the first segment that starts with an upper-case letter
            let k = p
                .segments
                .iter()
                .position(|s| s.ident.to_string().chars().next().unwrap().is_uppercase())
                .unwrap_or(p.segments.len() - 1);
            let segs: punctuated::Punctuated<PathSegment, Token![::]> =
                p.segments.iter().skip(k).cloned().collect();
            p.segments = segs;
            p.leading_colon = None;
        } else if p.segments.len() > 1 {
            // module-qualified local paths: foo::Bar::baz -> Bar::baz when the
            // option `flat=foo` is given
            if self.opts.contains(&format!("flat={}", first)) {
                let segs: punctuated::Punctuated<PathSegment, Token![::]> =
                    p.segments.iter().skip(1).cloned().collect();
                p.segments = segs;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if refpat(&a.pat) && a.guard.is_none() {
            let mut ls = self.deref_pats(&mut a.pat);
            if !ls.is_empty() {
                self.c.hit("reference pattern -> explicit dereference");
                let body = &a.body;
                ls.push(Stmt::Expr((**body).clone(), None));
                *a.body = Expr::Block(ExprBlock {
                    attrs: vec![],
                    label: None,
                    block: Block { brace_token: Default::default(), stmts: ls },
                });
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let c = &*self.c;
        m.arms.retain(|a| c.attrs_on(&a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // while let / if let with reference patterns
        match e {
            Expr::While(w) => {
                if let Expr::Let(l) = &mut *w.cond {
                    let ls = self.deref_pats(&mut l.pat);
                    if !ls.is_empty() {
                        self.c.hit("reference pattern -> explicit dereference");
                        w.body.stmts.splice(0..0, ls);
                    }
                }
            }
            Expr::If(w) => {
                if let Expr::Let(l) = &mut *w.cond {
                    let ls = self.deref_pats(&mut l.pat);
                    if !ls.is_empty() {
                        self.c.hit("reference pattern -> explicit dereference");
                        w.then_branch.stmts.splice(0..0, ls);
                    }
                }
            }
            Expr::ForLoop(f) => {
                if let Expr::Reference(r) = &*f.expr {
                    if r.mutability.is_none() {
                        let x = &r.expr;
                        *f.expr = parse_quote!(#x.iter());
                        self.c.hit("for p in &e -> for p in e.iter()");
                    }
                }
                if !matches!(&*f.pat, Pat::Ident(_) | Pat::Wild(_)) {
                    let id = self.fresh();
                    let pat = (*f.pat).clone();
                    let st: Stmt = if let Pat::Reference(r) = &pat {
                        let p = &r.pat;
                        parse_quote!(let #p = *#id;)
                    } else {
                        parse_quote!(let #pat = #id;)
                    };
                    *f.pat = parse_quote_pat(quote!(#id));
                    f.body.stmts.insert(0, st);
                    self.c.hit("for pattern -> let");
                }
            }
            Expr::Closure(c) => {
                let mut lets: Vec<Stmt> = vec![];
                for p in c.inputs.iter_mut() {
                    if !matches!(p, Pat::Ident(_) | Pat::Type(_) | Pat::Wild(_)) {
                        let id = self.fresh();
                        let pat = p.clone();
                        lets.push(if let Pat::Reference(r) = &pat {
                            let mut q = (*r.pat).clone();
                            let mut e: Expr = parse_quote!(*#id);
                            while let Pat::Reference(r) = &q {
                                q = (*r.pat).clone();
                                e = parse_quote!(*#e);
                            }
                            parse_quote!(let #q = #e;)
                        } else {
                            parse_quote!(let #pat = #id;)
                        });
                        *p = parse_quote_pat(quote!(#id));
                    } else if let Pat::Wild(_) = p {
                        let id = self.fresh();
                        *p = parse_quote_pat(quote!(#id));
                    }
                }
                if !lets.is_empty() {
                    self.c.hit("closure pattern -> let");
                    lets.push(Stmt::Expr((*c.body).clone(), None));
                    *c.body = Expr::Block(ExprBlock {
                        attrs: vec![],
                        label: None,
                        block: Block { brace_token: Default::default(), stmts: lets },
                    });
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // macros
        let mut new: Option<Expr> = None;
        match &*e {
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "format" if self.opts.contains("debug-text") && debug_of(&m.mac).is_some() => {
                        let x = debug_of(&m.mac).unwrap();
                        self.c.hit("format!(\"{:?}\", x) -> vx_text_of(&x)");
                        new = Some(parse_quote!(vx_text_of(&#x)));
                    }
                    "format" => {
                        self.c.hit("format!(..) -> vx_string() (text dropped)");
                        new = Some(parse_quote!(vx_string()));
                    }
                    "panic" | "unreachable" | "todo" | "unimplemented" => {
                        self.c.hit("panic!/unreachable! -> vx_panic() (requires false)");
                        new = Some(parse_quote!(vx_panic()));
                    }
                    "println" | "eprintln" | "print" | "eprint" | "debug" | "info" | "warn" | "error" | "trace" => {
                        self.c.hit("printing/logging macro dropped");
                        new = Some(parse_quote!(()));
                    }
                    "assert" | "debug_assert" => {
                        let args = m
                            .mac
                            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        if let Ok(a) = args {
                            let mut c = a[0].clone();
                            self.visit_expr_mut(&mut c);
                            self.c.hit("assert!(c) -> if !c { vx_panic() }");
                            new = Some(parse_quote!({ if !(#c) { vx_panic(); } }));
                        }
                    }
                    "assert_eq" | "debug_assert_eq" => {
                        let args = m
                            .mac
                            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        if let Ok(a) = args {
                            let (mut x, mut y) = (a[0].clone(), a[1].clone());
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut y);
                            new = Some(parse_quote!({ if !(#x == #y) { vx_panic(); } }));
                        }
                    }
                    "matches" => {
                        if let Ok(MatchesArgs { mut e, mut p, g }) = m.mac.parse_body() {
                            self.visit_expr_mut(&mut e);
                            self.visit_pat_mut(&mut p);
                            self.c.hit("matches! -> match");
                            new = Some(match g {
                                None => parse_quote!(match #e { #p => true, _ => false }),
                                Some(mut g) => {
                                    self.visit_expr_mut(&mut g);
                                    parse_quote!(match #e { #p if #g => true, _ => false })
                                }
                            });
                        }
                    }
                    "vec" => {
                        let args = m
                            .mac
                            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        if let Ok(a) = args {
                            let mut xs: Vec<Expr> = a.into_iter().collect();
                            for x in xs.iter_mut() {
                                self.visit_expr_mut(x);
                            }
                            if xs.is_empty() {
                                new = Some(parse_quote!(Vec::new()));
                            } else {
                                let id = self.fresh();
                                self.c.hit("vec![..] -> pushes");
                                new = Some(parse_quote!({ let mut #id = Vec::new(); #( #id.push(#xs); )* #id }));
                            }
                        }
                    }
                    _ => {}
                }
            }
            Expr::MethodCall(mc) => {
                let n = mc.method.to_string();
                if (n == "to_string" || n == "to_owned" || n == "into")
                    && is_str_lit(&mc.receiver)
                    && !self.opts.contains("keep-literals")
                {
                    self.c.hit("string literal -> vx_string() (text dropped)");
                    new = Some(parse_quote!(vx_string()));
                } else if n == "expect" && mc.args.len() == 1 {
                    let r = &mc.receiver;
                    self.c.hit("expect(..) -> unwrap()");
                    new = Some(parse_quote!(#r.unwrap()));
                } else if let (true, Some((k, f, x))) = (n == "collect", chain(mc)) {
                    // X.into_iter().map(F).collect() and the like, as one call of a trusted function
                    self.c.hit(&format!("{} -> one call", k));
                    new = Some(match f {
                        Some(f) => match k {
                            "into_iter().map(f).collect()" => parse_quote!(vx_map_all(#x, #f)),
                            "into_iter().filter_map(f).collect()" => parse_quote!(vx_filter_map(#x, #f)),
                            _ => parse_quote!(vx_map_ref(&#x, #f)),
                        },
                        None => x,
                    });
                } else if let (true, Some(x)) = (n == "all" || n == "any", iter_of(mc)) {
                    self.c.hit("iter().all(f), iter().any(f) -> one call");
                    let f = &mc.args[0];
                    let p: Path = parse_str(if n == "all" { "vx_all_of" } else { "vx_any_of" }).unwrap();
                    new = Some(parse_quote!(#p(&#x, #f)));
                } else if let (true, Some((x, f))) = (n == "count", filtered(mc)) {
                    self.c.hit("iter().filter(f).count() -> one call");
                    new = Some(parse_quote!(vx_count_if(&#x, #f)));
                } else if let Some(f) = self.methods.get(&n).and_then(|f| f.strip_prefix('.')) {
                    let mut m2 = mc.clone();
                    m2.method = Ident::new(f, Span::call_site());
                    self.c.hit(&format!(".{}(..) -> .{}(..)", n, f));
                    new = Some(Expr::MethodCall(m2));
                } else if let Some(f) = self.methods.get(&n) {
                    let mut r = (*mc.receiver).clone();
                    let args: Vec<Expr> = mc.args.iter().cloned().collect();
                    // fn-name with a prefix: "&f" borrows, "&mut f" borrows mutably
                    let (pre, name) = if let Some(x) = f.strip_prefix("&mut ") {
                        (2, x)
                    } else if let Some(x) = f.strip_prefix('&') {
                        (1, x)
                    } else {
                        (0, f.as_str())
                    };
                    while let Expr::Paren(p) = r {
                        r = *p.expr;
                    }
                    let path: Path = parse_str(name).unwrap();
                    self.c.hit(&format!(".{}(..) -> {}(..)", n, name));
                    new = Some(match pre {
                        2 => parse_quote!(#path(&mut #r #(, #args)*)),
                        1 => parse_quote!(#path(&#r #(, #args)*)),
                        _ => parse_quote!(#path(#r #(, #args)*)),
                    });
                }
            }
            Expr::Reference(r) if r.mutability.is_none() && self.opts.contains("subslice") => {
                if let Expr::Index(ix) = &*r.expr {
                    let mut k = &*ix.index;
                    while let Expr::Paren(p) = k {
                        k = &*p.expr;
                    }
                    if let Expr::Range(g) = k {
                        let x = &ix.expr;
                        if matches!(g.limits, RangeLimits::HalfOpen(_)) {
                            new = match (&g.start, &g.end) {
                                (Some(a), Some(b)) => Some(parse_quote!(#x.vx_sub(#a, #b))),
                                (Some(a), None) => Some(parse_quote!(#x.vx_from(#a))),
                                (None, Some(b)) => Some(parse_quote!(#x.vx_sub(0, #b))),
                                _ => None,
                            };
                            if new.is_some() {
                                self.c.hit("&x[a..b] -> x.vx_sub(a, b), &x[a..] -> x.vx_from(a)");
                            }
                        }
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_str_lit(&b.left) || is_str_lit(&b.right)) => {
                let (x, l) = if is_str_lit(&b.right) { (&b.left, &b.right) } else { (&b.right, &b.left) };
                self.c.hit("x == \"literal\" -> x.vx_eq_str(\"literal\")");
                new = Some(if matches!(b.op, BinOp::Eq(_)) { parse_quote!(#x.vx_eq_str(#l)) } else { parse_quote!(!#x.vx_eq_str(#l)) });
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = p.path.to_token_stream().to_string().replace(' ', "");
                    if s == "String::from"
                        && c.args.len() == 1
                        && is_str_lit(&c.args[0])
                        && !self.opts.contains("keep-literals")
                    {
                        self.c.hit("string literal -> vx_string() (text dropped)");
                        new = Some(parse_quote!(vx_string()));
                    }
                }
            }
            _ => {}
        }
        if let Some(x) = new {
            *e = x;
        }
    }
}

/// Numbers loops in source order and plants markers.
struct Loops {
    n: usize,
    iters: BTreeMap<usize, String>,
}
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let k;
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                k = self.n;
                self.n += 1;
            }
            Expr::Closure(_) => return,
            _ => {
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let mk = |a: &str| -> Stmt {
            let s = format!("vxmark{}_{}", a, k);
            parse_str::<Stmt>(&format!("{}!();", s)).unwrap()
        };
        let mut hoist = String::new();
        let body = match e {
            Expr::While(w) => &mut w.body,
            Expr::Loop(w) => &mut w.body,
            Expr::ForLoop(w) => {
                if let Some(n) = self.iters.get(&k) {
                    let (n, h) = match n.split_once(' ') {
                        Some((a, b)) => (a, b.trim() == "hoist"),
                        None => (n.as_str(), false),
                    };
                    let id = Ident::new(n, Span::call_site());
                    if h {
                        hoist = format!("let vxit{} = {};", k, w.expr.to_token_stream());
                        let v = Ident::new(&format!("vxit{}", k), Span::call_site());
                        *w.expr = parse_quote!(#v);
                    }
                    let x = &w.expr;
                    *w.expr = parse_quote!(vxiter!(#id, #x, vxenditer));
                }
                &mut w.body
            }
            _ => unreachable!(),
        };
        body.stmts.insert(0, mk("loop"));
        body.stmts.push(mk("loopend"));
        *e = parse_str(&format!(
            "{{ {hoist} vxmarkloopbefore_{k}!(); {} ; vxmarkloopafter_{k}!(); }}",
            e.to_token_stream()
        ))
        .unwrap();
    }
}

/// A bit operation on a reference to a byte: on the byte (std: BitAnd for &u8).
struct ByteRef {
    id: String,
}
impl VisitMut for ByteRef {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shr(_) | BinOp::Shl(_)) {
                for x in [&mut b.left, &mut b.right] {
                    if let Expr::Path(p) = &**x {
                        if p.path.is_ident(&self.id) {
                            let q = (**x).clone();
                            **x = parse_quote!(*#q);
                        }
                    }
                }
            }
        }
    }
}
/// Numbers closures in source order; those with a contract become markers.
struct Clos<'a> {
    n: usize,
    with: &'a BTreeMap<String, String>,
}
impl<'a> VisitMut for Clos<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut k = None;
        if let Expr::Closure(_) = e {
            k = Some(self.n);
            self.n += 1;
        }
        visit_mut::visit_expr_mut(self, e);
        if let (Some(k), Expr::Closure(c)) = (k, &mut *e) {
            if let Some(spec) = self.with.get(&format!("closure {}", k)) {
                // the parameter under its name in the contract
                let (name, ty) = spec.trim().trim_start_matches('|').split_once(':').map(|(n, t)| (n.trim().to_string(), t.trim().to_string())).unwrap_or_default();
                let orig = if c.inputs.len() == 1 { match &c.inputs[0] { Pat::Ident(i) => Some(i.ident.clone()), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => Some(i.ident.clone()), _ => None }, _ => None } } else { None };
                if let Some(o) = &orig {
                    if ty.starts_with("&u8") { ByteRef { id: o.to_string() }.visit_expr_mut(&mut c.body); }
                }
                let body = &c.body;
                let b = match (&**body, &orig) {
                    (x, Some(o)) if !name.is_empty() && o.to_string() != name => {
                        let n: Ident = parse_str(&name).unwrap();
                        quote!({ let #o = #n; #x })
                    }
                    (Expr::Block(b), _) => b.to_token_stream(),
                    (x, _) => quote!({ #x }),
                };
                *e = parse_str(&format!("vxclo!({}, {}, vxendclo)", k, b)).unwrap();
            }
        }
    }
}

/// A combinator of Option, Result or bool given a closure literal, as the match std defines it
/// by (a function Verus would otherwise know nothing about unless the closure had a contract).
/// Where the method exists on both Option and Result, the one with that number of closure
/// parameters, else Option (else Result with `comb-result`): on the other type the result does
/// not compile; check.py then asks for the other reading, and if that fails too the function
/// counts as lost.
struct Comb<'a> {
    c: &'a mut Ctx,
    n: usize,
    /// the ambiguous ones are Result's
    res: bool,
}
fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_macro(&mut self, _: &'a Macro) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}
impl<'a> VisitMut for Comb<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(mc) = e else { return };
        let m = mc.method.to_string();
        let arg = |k: usize| match mc.args.get(k) {
            Some(Expr::Closure(c)) if !leaves(&c.body) && c.inputs.len() <= 1 => {
                let p = c.inputs.first().map(|p| match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                });
                let t = match c.inputs.first() { Some(Pat::Type(t)) => Some((*t.ty).clone()), _ => None };
                Some((p, t, (*c.body).clone()))
            }
            _ => None,
        };
        let r = &mc.receiver;
        // not on an iterator
        let mut x = &**r;
        while let Expr::MethodCall(i) = x {
            if ["iter", "iter_mut", "into_iter", "chars", "bytes", "keys", "values", "values_mut", "drain", "split", "windows", "chunks", "lines", "enumerate", "rev", "zip", "skip", "take_while"].contains(&i.method.to_string().as_str()) {
                return;
            }
            x = &i.receiver;
        }
        if let Expr::Range(_) = x { return; }
        if let Expr::Paren(p) = x { if let Expr::Range(_) = &*p.expr { return; } }
        self.n += 1;
        let v = Ident::new(&format!("vxo{}", self.n), Span::call_site());
        let d = Ident::new(&format!("vxd{}", self.n), Span::call_site());
        let bind = |p: &Pat, t: &Option<Type>, val: TokenStream| match t {
            Some(t) => quote!(let #p: #t = #val;),
            None => quote!(let #p = #val;),
        };
        let n = mc.args.len();
        let new: TokenStream = match (m.as_str(), n) {
            ("then", 1) => {
                let Some((None, _, b)) = arg(0) else { return };
                quote!((if #r { Some(#b) } else { None }))
            }
            ("unwrap_or_else" | "or_else" | "ok_or_else", 1) => {
                let Some((p, t, b)) = arg(0) else { return };
                match (m.as_str(), p) {
                    ("unwrap_or_else", None) => quote!((match #r { Some(#v) => #v, None => #b })),
                    ("or_else", None) => quote!((match #r { Some(#v) => Some(#v), None => #b })),
                    ("ok_or_else", None) => quote!((match #r { Some(#v) => Ok(#v), None => Err(#b) })),
                    ("unwrap_or_else", Some(p)) => {
                        let l = bind(&p, &t, quote!(#d));
                        quote!((match #r { Ok(#v) => #v, Err(#d) => { #l #b } }))
                    }
                    ("or_else", Some(p)) => {
                        let l = bind(&p, &t, quote!(#d));
                        quote!((match #r { Ok(#v) => Ok(#v), Err(#d) => { #l #b } }))
                    }
                    _ => return,
                }
            }
            ("map" | "and_then" | "is_some_and" | "is_none_or" | "filter" | "map_err" | "is_ok_and", 1) => {
                let Some((Some(p), t, b)) = arg(0) else { return };
                let l = bind(&p, &t, quote!(#v));
                match m.as_str() {
                    "map" if self.res => quote!((match #r { Ok(#v) => { #l Ok(#b) }, Err(#d) => Err(#d) })),
                    "and_then" if self.res => quote!((match #r { Ok(#v) => { #l #b }, Err(#d) => Err(#d) })),
                    "map" => quote!((match #r { Some(#v) => { #l Some(#b) }, None => None })),
                    "and_then" => quote!((match #r { Some(#v) => { #l #b }, None => None })),
                    "is_some_and" => quote!((match #r { Some(#v) => { #l #b }, None => false })),
                    "is_none_or" => quote!((match #r { Some(#v) => { #l #b }, None => true })),
                    "is_ok_and" => quote!((match #r { Ok(#v) => { #l #b }, Err(_) => false })),
                    "map_err" => quote!((match #r { Ok(#d) => Ok(#d), Err(#v) => { #l Err(#b) } })),
                    _ => {
                        let l = bind(&p, &t, quote!(&#v));
                        quote!((match #r { Some(#v) => { let #d = { #l #b }; if #d { Some(#v) } else { None } }, None => None }))
                    }
                }
            }
            ("map_or", 2) => {
                let Some((Some(p), t, b)) = arg(1) else { return };
                let l = bind(&p, &t, quote!(#v));
                let x = &mc.args[0];
                if self.res { quote!((match (#r, #x) { (Ok(#v), _) => { #l #b }, (Err(_), #d) => #d })) } else { quote!((match (#r, #x) { (Some(#v), _) => { #l #b }, (None, #d) => #d })) }
            }
            ("map_or_else", 2) => {
                let (Some((Some(p), t, b)), Some((q, qt, x))) = (arg(1), arg(0)) else { return };
                let l = bind(&p, &t, quote!(#v));
                match q {
                    None => quote!((match #r { Some(#v) => { #l #b }, None => #x })),
                    Some(q) => {
                        let k = bind(&q, &qt, quote!(#d));
                        quote!((match #r { Ok(#v) => { #l #b }, Err(#d) => { #k #x } }))
                    }
                }
            }
            _ => return,
        };
        if let Ok(x) = parse2::<Expr>(new) {
            self.c.hit(&format!(".{}(closure) -> match", m));
            *e = x;
        }
    }
}

#[derive(Default, Clone)]
struct FnSpec {
    file: String,
    name: String,
    rename: Option<String>,
    free: bool,
    ret: Option<String>,
    sections: BTreeMap<String, String>,
    opts: BTreeSet<String>,
    methods: BTreeMap<String, String>,
    paths: BTreeMap<String, String>,
    before: Vec<(String, String)>,
    after: Vec<(String, String)>,
    subst: Vec<(String, String)>,
    subst_any: Vec<(String, String)>,
    havoc: Vec<String>,
    tparams: Vec<(String, String)>,
    selfty: Option<String>,
    props: Vec<String>,
    /// consecutive statements of the function, as a function of its own: name, signature, beginnings of the first and the last, value
    slice: Option<[String; 4]>,
}

fn find_items<'a>(items: &'a [Item], c: &Ctx, out: &mut Vec<&'a Item>) {
    for i in items {
        if !c.attrs_on(item_attrs(i)) {
            continue;
        }
        if let Item::Mod(m) = i {
            if let Some((_, its)) = &m.content {
                find_items(its, c, out);
            }
        } else {
            out.push(i);
        }
    }
}

// ---- macro_rules expansion (single-level `$name:frag` parameters) -----------
fn subst_tokens(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(ref p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = it.peek() {
                    let n = id.to_string();
                    if let Some(r) = map.get(&n) {
                        it.next();
                        out.extend(r.clone());
                        continue;
                    }
                }
                out.push(t);
            }
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst_tokens(g.stream(), map));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}
fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut v: Vec<Vec<TokenTree>> = vec![vec![]];
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                v.push(vec![]);
                continue;
            }
        }
        v.last_mut().unwrap().push(t);
    }
    if v.last().unwrap().is_empty() {
        v.pop();
    }
    v.into_iter().map(|x| x.into_iter().collect()).collect()
}
fn expand_macro(def: &ItemMacro, args: TokenStream) -> std::result::Result<Vec<Item>, String> {
    // rules: ( matcher ) => { body } ;
    let toks: Vec<TokenTree> = def.mac.tokens.clone().into_iter().collect();
    let mut i = 0;
    let given = split_commas(args);
    while i + 3 < toks.len() {
        let m = if let TokenTree::Group(g) = &toks[i] { g.stream() } else { return Err("macro shape".into()) };
        let b = if let TokenTree::Group(g) = &toks[i + 3] { g.stream() } else { return Err("macro shape".into()) };
        i += 4;
        if i < toks.len() {
            if let TokenTree::Punct(_) = &toks[i] {
                i += 1;
            }
        }
        let params = split_commas(m);
        if params.len() != given.len() {
            continue;
        }
        let mut map = BTreeMap::new();
        map.insert("crate".to_string(), quote!(crate));
        let mut ok = true;
        for (p, g) in params.iter().zip(given.iter()) {
            let pt: Vec<TokenTree> = p.clone().into_iter().collect();
            let opt_tail = pt.len() == 7 && pt[4].to_string() == "$" && pt[6].to_string() == "?";
            if pt.len() == 4 || opt_tail {
                map.insert(pt[1].to_string(), g.clone());
            } else {
                ok = false;
            }
        }
        if !ok {
            continue;
        }
        let body = subst_tokens(b, &map);
        return syn::parse2::<File>(body).map(|f| f.items).map_err(|e| e.to_string());
    }
    Err("no matching macro rule".into())
}

fn load(repo: &str, file: &str) -> std::result::Result<File, String> {
    let p = format!("{}/{}", repo, file);
    let s = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e))?;
    syn::parse_file(&s).map_err(|e| format!("{}: {}", p, e))
}

fn all_items(repo: &str, file: &str, c: &mut Ctx, macro_files: &[String]) -> std::result::Result<Vec<Item>, String> {
    let f = load(repo, file)?;
    let mut refs = vec![];
    find_items(&f.items, c, &mut refs);
    let mut items: Vec<Item> = refs.into_iter().cloned().collect();
    // expand item macros
    let mut defs: BTreeMap<String, ItemMacro> = BTreeMap::new();
    for mf in macro_files.iter().chain(std::iter::once(&file.to_string())) {
        if let Ok(f) = load(repo, mf) {
            for i in &f.items {
                if let Item::Macro(m) = i {
                    if let Some(id) = &m.ident {
                        defs.insert(id.to_string(), m.clone());
                    }
                }
            }
        }
    }
    let mut extra = vec![];
    for i in &items {
        if let Item::Macro(m) = i {
            if m.ident.is_none() {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some(d) = defs.get(&n) {
                    let x = expand_macro(d, m.mac.tokens.clone())?;
                    c.hit("macro_rules expansion (token substitution)");
                    let mut refs = vec![];
                    find_items(&x, c, &mut refs);
                    extra.extend(refs.into_iter().cloned());
                }
            }
        }
    }
    items.extend(extra);
    Ok(items)
}

fn self_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => self_name(&r.elem),
        _ => String::new(),
    }
}

struct Found {
    sig: Signature,
    block: Block,
    header: Option<String>, // impl<..> Type where ..
    line: usize,
    end: usize,
}

fn find_fn(items: &[Item], name: &str, c: &Ctx, selfty: &Option<String>, vers: &BTreeMap<String, String>) -> Option<Found> {
    let (tr, rest) = match name.split_once('@') {
        Some((t, r)) => (Some(t.to_string()), r.to_string()),
        None => (None, name.to_string()),
    };
    match rest.rsplit_once("::") {
        None => {
            for i in items {
                if let Item::Fn(f) = i {
                    if f.sig.ident == rest {
                        return Some(Found {
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            header: None,
                            line: f.sig.ident.span().start().line,
                            end: f.block.brace_token.span.close().end().line,
                        });
                    }
                }
            }
            None
        }
        Some((ty, m)) => {
            for i in items {
                match i {
                    Item::Impl(im) => {
                        if self_name(&im.self_ty) != ty {
                            continue;
                        }
                        let trs = im.trait_.as_ref().map(|(_, p, _)| {
                            p.to_token_stream().to_string().replace(' ', "")
                        });
                        if let Some(t) = &tr {
                            match &trs {
                                Some(s) => {
                                    let last = s.clone();
                                    if !(last == *t || last.ends_with(&format!("::{}", t))) {
                                        continue;
                                    }
                                }
                                None => continue,
                            }
                        }
                        for it in &im.items {
                            if let ImplItem::Fn(f) = it {
                                if f.sig.ident == m && c.attrs_on(&f.attrs) {
                                    let g = &im.generics;
                                    let (ig, _, wc) = g.split_for_impl();
                                    let st = &im.self_ty;
                                    let st = match selfty {
                                        Some(s) => s.clone(),
                                        None => vers
                                            .get(&st.to_token_stream().to_string())
                                            .cloned()
                                            .unwrap_or_else(|| st.to_token_stream().to_string()),
                                    };
                                    return Some(Found {
                                        sig: f.sig.clone(),
                                        block: f.block.clone(),
                                        header: Some(format!(
                                            "impl{} {} {}",
                                            ig.to_token_stream(),
                                            st,
                                            wc.map(|w| w.to_token_stream().to_string()).unwrap_or_default()
                                        )),
                                        line: f.sig.ident.span().start().line,
                                        end: f.block.brace_token.span.close().end().line,
                                    });
                                }
                            }
                        }
                    }
                    Item::Trait(t) if t.ident == ty => {
                        for it in &t.items {
                            if let TraitItem::Fn(f) = it {
                                if f.sig.ident == m {
                                    if let Some(b) = &f.default {
                                        return Some(Found {
                                            sig: f.sig.clone(),
                                            block: b.clone(),
                                            header: selfty.as_ref().map(|s| format!("impl {} ", s)),
                                            line: f.sig.ident.span().start().line,
                                            end: b.brace_token.span.close().end().line,
                                        });
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            None
        }
    }
}

/// Plants `vxmarkb_i!()` / `vxmarka_i!()` around statements whose text matches.
struct Anchors<'a> {
    before: &'a [(String, String)],
    after: &'a [(String, String)],
    hitb: Vec<usize>,
    hita: Vec<usize>,
}
/// `~TEXT` names a simple statement that contains TEXT, anything else the beginning of a statement
fn anchored(s: &Stmt, txt: &str, pat: &str) -> bool {
    match pat.trim().strip_prefix('~') {
        None => txt.starts_with(&norm(pat)),
        Some(p) => {
            let simple = match s {
                Stmt::Expr(e, _) => !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Block(_)),
                Stmt::Local(_) => true,
                _ => false,
            };
            simple && txt.contains(&norm(p))
        }
    }
}
fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
impl<'a> VisitMut for Anchors<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            // an anchor names the beginning of a statement
            let txt = norm(&s.to_token_stream().to_string());
            let mut post = vec![];
            for (i, (pat, _)) in self.before.iter().enumerate() {
                if anchored(&s, &txt, pat) {
                    self.hitb[i] += 1;
                    b.stmts.push(parse_str(&format!("vxmarkb_{}!();", i)).unwrap());
                }
            }
            for (i, (pat, _)) in self.after.iter().enumerate() {
                if anchored(&s, &txt, pat) {
                    self.hita[i] += 1;
                    post.push(parse_str(&format!("vxmarka_{}!();", i)).unwrap());
                }
            }
            b.stmts.push(s);
            b.stmts.extend(post);
        }
    }
}

/// `for x in v { .. continue .. }` over a vector of Copy values -> the same by index (Verus has no `continue` in `for`)
struct ByIndex {
    n: usize,
}
struct HasContinue(bool);
impl<'b> visit::Visit<'b> for HasContinue {
    fn visit_expr_continue(&mut self, _: &'b ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'b ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'b ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'b ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
}
impl VisitMut for ByIndex {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            let mut h = HasContinue(false);
            visit::Visit::visit_block(&mut h, &f.body);
            if h.0 && matches!(&*f.expr, Expr::Path(_)) {
                let i = Ident::new(&format!("vxi{}", self.n), Span::call_site());
                self.n += 1;
                let (x, v, st) = (&f.pat, &f.expr, &f.body.stmts);
                *e = parse_quote!({ let mut #i: usize = 0; while #i < #v.len() { let #x = #v[#i]; #i += 1; #(#st)* } });
            }
        }
    }
}

/// the first block with a statement that begins with `from` and, not before it, one that begins with `to`
struct Slice<'a> {
    from: &'a str,
    to: &'a str,
    hit: Option<Vec<Stmt>>,
}
impl<'a, 'b> visit::Visit<'b> for Slice<'a> {
    fn visit_block(&mut self, b: &'b Block) {
        if self.hit.is_some() {
            return;
        }
        let t: Vec<String> = b.stmts.iter().map(|s| norm(&s.to_token_stream().to_string())).collect();
        if let Some(i) = t.iter().position(|x| x.starts_with(&norm(self.from))) {
            if let Some(j) = t.iter().rposition(|x| x.starts_with(&norm(self.to))) {
                if j >= i {
                    self.hit = Some(b.stmts[i..=j].to_vec());
                    return;
                }
            }
        }
        visit::visit_block(self, b);
    }
}

fn pretty_block(b: &Block) -> String {
    let f: File = parse_quote!(fn vxbody() #b);
    let s = prettyplease::unparse(&f);
    let i = s.find('{').unwrap();
    s[i..].trim_end().to_string()
}

/// a contract about `self` as a contract about `self.FIELD`
fn on_field(spec: &str, field: &str) -> String {
    let mut s = spec.to_string();
    for w in ["old", "final"] {
        s = s.replace(&format!("*{}(self)", w), &format!("\u{1}{}\u{2}", w)).replace(&format!("{}(self)", w), &format!("\u{1}{}\u{2}", w));
    }
    let mut o = String::new();
    let b: Vec<char> = s.replace("*self", "self").chars().collect();
    let mut i = 0;
    while i < b.len() {
        let t: String = b[i..b.len().min(i + 4)].iter().collect();
        let id = |c: Option<&char>| c.map(|c| c.is_alphanumeric() || *c == '_').unwrap_or(false);
        if t == "self" && !id(b.get(i + 4)) && (i == 0 || !id(b.get(i - 1))) {
            o.push_str(&format!("self.{}", field));
            i += 4;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o.replace('\u{1}', "").replace('\u{2}', &format!("(self).{}", field))
}

fn rename_ident(t: TokenStream, a: &str, b: &str) -> TokenStream {
    t.into_iter()
        .map(|x| match x {
            TokenTree::Ident(i) if i == a => TokenTree::Ident(Ident::new(b, i.span())),
            TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename_ident(g.stream(), a, b))),
            x => x,
        })
        .collect()
}

/// `match .. { p => e }` at the end of a body -> `match .. { p => return e }`
fn ret_tail(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        ret_expr(e);
    }
}
fn ret_expr(e: &mut Expr) {
    match e {
        Expr::Match(m) => {
            for a in &mut m.arms {
                ret_expr(&mut a.body);
            }
        }
        Expr::If(i) if i.else_branch.is_some() => {
            ret_tail(&mut i.then_branch);
            ret_expr(&mut i.else_branch.as_mut().unwrap().1);
        }
        Expr::Block(b) => ret_tail(&mut b.block),
        Expr::Return(_) => {}
        _ => {
            let x = e.clone();
            *e = parse_quote!(return #x);
        }
    }
}

/// the argument of format!("{:?}", x), format!("{x:?}")
fn debug_of(m: &Macro) -> Option<Expr> {
    let a = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &a[0] else { return None };
    let t = s.value();
    if t == "{:?}" && a.len() == 2 {
        return Some(a[1].clone());
    }
    let n = t.strip_prefix('{')?.strip_suffix(":?}")?;
    if a.len() == 1 { parse_str::<Ident>(n).ok().map(|i| parse_quote!(#i)) } else { None }
}

/// Leaves out the statements of a body that mention none of the protected names (nor self, nor a way out of the function):
/// they cannot change what those names hold. A variable such a statement declares, where a kept statement uses it, is any value.
fn havoc(block: &mut Block, keep: &[String], c: &mut Ctx) {
    // the names a text mentions, but for those a nested block declares itself (`let x = ..;`) from there on
    fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
        names(t, out, &BTreeSet::new(), false)
    }
    fn names(t: TokenStream, out: &mut BTreeSet<String>, own: &BTreeSet<String>, braces: bool) {
        use proc_macro2::{Delimiter, TokenTree as T};
        let mut own = own.clone();
        let mut pending: Vec<String> = vec![];
        let ts: Vec<T> = t.into_iter().collect();
        for (i, x) in ts.iter().enumerate() {
            match x {
                T::Ident(id) => {
                    let s = id.to_string();
                    if s == "let" && braces && (i == 0 || matches!(&ts[i - 1], T::Punct(p) if p.as_char() == ';') || matches!(&ts[i - 1], T::Group(g) if g.delimiter() == Delimiter::Brace)) {
                        let mut j = i + 1;
                        if matches!(ts.get(j), Some(T::Ident(m)) if m == "mut") {
                            j += 1;
                        }
                        if let (Some(T::Ident(n)), Some(T::Punct(p))) = (ts.get(j), ts.get(j + 1)) {
                            if p.as_char() == '=' || p.as_char() == ':' {
                                pending.push(n.to_string());
                            }
                        }
                    }
                    let declared = pending.contains(&s) && i > 0 && matches!(&ts[i - 1], T::Ident(m) if m == "let" || m == "mut");
                    // a field's, method's or function's name is no variable
                    let dot = i > 0 && matches!(&ts[i - 1], T::Punct(p) if p.as_char() == '.') && !(i > 1 && matches!(&ts[i - 2], T::Punct(p) if p.as_char() == '.'));
                    let path = i > 1 && s.starts_with(|c: char| c.is_lowercase()) && matches!((&ts[i - 1], &ts[i - 2]), (T::Punct(p), T::Punct(q)) if p.as_char() == ':' && q.as_char() == ':');
                    if !own.contains(&s) && !declared && !dot && !path {
                        out.insert(s);
                    }
                }
                T::Group(g) => names(g.stream(), out, &own, g.delimiter() == Delimiter::Brace),
                T::Punct(p) if p.as_char() == '?' => {
                    out.insert("?".into());
                }
                T::Punct(p) if p.as_char() == ';' => own.extend(pending.drain(..)),
                _ => {}
            }
        }
    }
    let n = block.stmts.len();
    let ids: Vec<BTreeSet<String>> = block
        .stmts
        .iter()
        .map(|s| {
            let mut o = BTreeSet::new();
            idents(s.to_token_stream(), &mut o);
            o
        })
        .collect();
    let mut keep: BTreeSet<String> = keep.iter().map(|x| x.to_string()).chain(["self", "return", "?", "unsafe", "loop", "macro_rules"].map(|x| x.to_string())).collect();
    let mut kept: Vec<bool> = (0..n).map(|i| i + 1 == n && matches!(block.stmts[i], Stmt::Expr(_, None))).collect();
    // what a kept statement declares may borrow from a protected name: protected too
    loop {
        let mut more = false;
        for i in 0..n {
            if !kept[i] && ids[i].iter().any(|x| keep.contains(x)) {
                kept[i] = true;
                more = true;
            }
            if let (true, Stmt::Local(l)) = (kept[i], &block.stmts[i]) {
                let mut o = BTreeSet::new();
                idents(l.pat.to_token_stream(), &mut o);
                for x in o {
                    if x != "mut" && x != "ref" && x != "_" && keep.insert(x) {
                        more = true;
                    }
                }
            }
        }
        if !more {
            break;
        }
    }
    let mut out = vec![];
    for (i, s) in std::mem::take(&mut block.stmts).into_iter().enumerate() {
        if kept[i] {
            out.push(s);
            continue;
        }
        c.hit("statement that mentions none of the protected names -> left out");
        if let Stmt::Local(l) = &s {
            if let Pat::Ident(p) = &l.pat {
                let id = &p.ident;
                if (i + 1..n).any(|j| kept[j] && ids[j].contains(&id.to_string())) {
                    out.push(parse_quote!(let mut #id = vx_any();));
                    c.hit("its variable -> any value");
                }
            }
        }
    }
    block.stmts = out;
}

fn emit_fn(
    repo: &str,
    fs: &FnSpec,
    c: &mut Ctx,
    macro_files: &[String],
    probe: bool,
) -> std::result::Result<(String, Value), String> {
    let items = all_items(repo, &fs.file, c, macro_files)?;
    let vers = versions(&load(repo, &fs.file)?, &fs.file);
    // a method the type takes from its trait: the trait's default body, for this type
    let mut from = fs.file.clone();
    let mut found = find_fn(&items, &fs.name, c, &fs.selfty, &vers);
    if let (None, Some(d)) = (&found, fs.opts.iter().find_map(|o| o.strip_prefix("orelse="))) {
        let (file, tr) = d.split_once('#').ok_or("orelse=FILE#Trait")?;
        let (ty, m) = fs.name.rsplit_once("::").ok_or("orelse")?;
        let ty = ty.rsplit('@').next().unwrap();
        let st = fs.selfty.clone().unwrap_or_else(|| vers.get(ty).cloned().unwrap_or_else(|| ty.to_string()));
        let its = all_items(repo, file, c, macro_files)?;
        found = find_fn(&its, &format!("{}::{}", tr, m), c, &Some(st), &vers);
        from = file.to_string();
        c.hit("default method of a trait, for one implementor");
    }
    let f = found
        .ok_or_else(|| format!("function {} not found in {}", fs.name, fs.file))?;
    let Found { mut sig, mut block, header, mut line, mut end } = f;
    let before = c.rw.clone();
    if let Some([sg, from, to, app]) = &fs.slice {
        let mut v = Slice { from, to, hit: None };
        visit::Visit::visit_block(&mut v, &block);
        let mut st = v.hit.ok_or_else(|| format!("statements `{}` to `{}` not found in {}", from, to, fs.name))?;
        line = spanned::Spanned::span(&st[0]).start().line;
        end = spanned::Spanned::span(&st[st.len() - 1]).end().line;
        if !app.is_empty() {
            st.push(Stmt::Expr(parse_str(app).map_err(|e| e.to_string())?, None));
        }
        sig = parse_str(sg).map_err(|e| format!("slice {}: {}", sg, e))?;
        block.stmts = st;
        c.hit("statements of a function, as a function of their own");
    }
    {
        let mut rw = Rw { c, n: 0, opts: &fs.opts, methods: &fs.methods, paths: &fs.paths, vers };
        rw.visit_signature_mut(&mut sig);
        rw.visit_block_mut(&mut block);
    }
    // `mut` parameters and `impl Trait` parameters, which Verus does not take
    let mut binds: Vec<Stmt> = vec![];
    let mut k = 0;
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                if r.reference.is_none() && r.mutability.take().is_some() {
                    let t = rename_ident(block.to_token_stream(), "self", "vxself");
                    block = parse2(t).map_err(|e| e.to_string())?;
                    binds.push(parse_quote!(let mut vxself = self;));
                    c.hit("mut self -> let mut vxself = self");
                }
            }
            FnArg::Typed(t) => {
                if let Pat::Ident(p) = &mut *t.pat {
                    if p.by_ref.is_none() && p.mutability.take().is_some() {
                        let id = &p.ident;
                        binds.push(parse_quote!(let mut #id = #id;));
                        c.hit("mut parameter -> let mut");
                    }
                }
                if let Type::ImplTrait(i) = &*t.ty {
                    let g = Ident::new(&format!("VxT{}", k), Span::call_site());
                    let b = &i.bounds;
                    sig.generics.params.push(parse_quote!(#g: #b));
                    *t.ty = parse_quote!(#g);
                    c.hit("impl Trait parameter -> type parameter");
                }
                k += 1;
            }
        }
    }
    block.stmts.splice(0..0, binds);
    if fs.opts.contains("by-index") {
        let mut v = ByIndex { n: 0 };
        v.visit_block_mut(&mut block);
        if v.n > 0 {
            c.hit("for over a vector, with continue -> the same by index");
        }
    }
    if fs.opts.contains("armret") {
        ret_tail(&mut block);
        c.hit("value of the last branches -> return");
    }
    if !fs.havoc.is_empty() {
        havoc(&mut block, &fs.havoc, c);
    }
    if !fs.subst_any.is_empty() {
        let mut txt = block.to_token_stream().to_string();
        for (a, b) in &fs.subst_any {
            let na = a.parse::<TokenStream>().map_err(|e| e.to_string())?.to_string();
            let nb = b.parse::<TokenStream>().map_err(|e| e.to_string())?.to_string();
            let n = txt.matches(&na).count();
            if n > 0 {
                txt = txt.replace(&na, &nb);
                *c.rw.entry(format!("`{}` -> `{}`", a, b)).or_insert(0) += n;
            }
        }
        block = parse_str(&txt).map_err(|e| format!("subst in {}: {}", fs.name, e))?;
    }
    // substitutions on the text of expressions (stated in the report)
    if !fs.subst.is_empty() {
        let mut txt = block.to_token_stream().to_string();
        for (a, b) in &fs.subst {
            let na = a.parse::<TokenStream>().map_err(|e| e.to_string())?.to_string();
            let nb = b.parse::<TokenStream>().map_err(|e| e.to_string())?.to_string();
            let n = txt.matches(&na).count();
            if n == 0 {
                return Err(format!("substitution anchor `{}` not found in {}", a, fs.name));
            }
            txt = txt.replace(&na, &nb);
            *c.rw.entry(format!("`{}` -> `{}`", a, b)).or_insert(0) += n;
        }
        block = parse_str(&txt).map_err(|e| format!("subst in {}: {}", fs.name, e))?;
    }
    let mut an = Anchors {
        before: &fs.before,
        after: &fs.after,
        hitb: vec![0; fs.before.len()],
        hita: vec![0; fs.after.len()],
    };
    an.visit_block_mut(&mut block);
    let mut lost = vec![];
    for (i, (p, _)) in fs.before.iter().enumerate() {
        if an.hitb[i] == 0 {
            lost.push(p.clone());
        }
    }
    for (i, (p, _)) in fs.after.iter().enumerate() {
        if an.hita[i] == 0 {
            lost.push(p.clone());
        }
    }
    if !lost.is_empty() {
        return Err(format!("proof anchor lost in {}: {}", fs.name, lost.join(" | ")));
    }
    let mut iters = BTreeMap::new();
    for (k, v) in &fs.sections {
        if let Some(r) = k.strip_prefix("loopiter ") {
            iters.insert(r.trim().parse::<usize>().unwrap(), v.trim().to_string());
        }
    }
    let mut lv = Loops { n: 0, iters };
    lv.visit_block_mut(&mut block);
    let nloops = lv.n;
    let spec_loops = fs
        .sections
        .keys()
        .filter(|k| {
            k.strip_prefix("loop ").map(|r| !r.trim().contains(' ')).unwrap_or(false)
        })
        .count();
    if nloops != spec_loops && !fs.opts.contains("noloopcheck") {
        return Err(format!("{}: {} loops in the source, {} under contract", fs.name, nloops, spec_loops));
    }
    let mut cl = Clos { n: 0, with: &fs.sections };
    cl.visit_block_mut(&mut block);
    let spec_clos = fs.sections.keys().filter(|k| k.starts_with("closure ")).count();
    if spec_clos > 0 && cl.n != spec_clos {
        return Err(format!("{}: {} closures in the source, {} under contract", fs.name, cl.n, spec_clos));
    }
    if spec_clos == 0 && !fs.opts.contains("keep-comb") {
        Comb { c, n: 0, res: fs.opts.contains("comb-result") }.visit_block_mut(&mut block);
    }
    // tail marker
    let has_tail = fs.sections.contains_key("tail");
    if has_tail {
        if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
            block.stmts.pop();
            block.stmts.push(parse_quote!(let vxret = #e;));
            block.stmts.push(parse_str("vxmarktail_0!();").unwrap());
            block.stmts.push(Stmt::Expr(parse_quote!(vxret), None));
        } else {
            block.stmts.push(parse_str("vxmarktail_0!();").unwrap());
        }
    }
    let mut body = pretty_block(&block);
    // splice
    let get = |k: &str| fs.sections.get(k).cloned().unwrap_or_default();
    // loop headers: `{ vxmarkloop_k!();`
    for k in 0..nloops {
        let inv = get(&format!("loop {}", k));
        let beg = get(&format!("loop {} begin", k));
        let mark = format!("vxmarkloop_{}!();", k);
        let p = body.find(&mark).ok_or("marker lost")?;
        let open = body[..p].rfind('{').ok_or("marker lost")?;
        let mut nb = String::new();
        nb.push_str(&body[..open]);
        nb.push('\n');
        nb.push_str(&inv);
        nb.push_str("\n{\n");
        nb.push_str(&beg);
        nb.push_str(&body[p + mark.len()..]);
        body = nb;
        body = body.replace(&format!("vxmarkloopend_{}!();", k), &get(&format!("loop {} end", k)));
        body = body.replace(&format!("vxmarkloopbefore_{}!();", k), &get(&format!("loop {} before", k)));
        body = body.replace(&format!("vxmarkloopafter_{}!();", k), &get(&format!("loop {} after", k)));
    }
    // for-loop iterators
    while let Some(p) = body.find("vxiter!(") {
        let s = p + "vxiter!(".len();
        let e = body[s..].find(", vxenditer)").ok_or("iter marker")? + s;
        let inner = body[s..e].to_string();
        let (id, ex) = inner.split_once(',').ok_or("iter marker")?;
        body = format!("{}{}: {}{}", &body[..p], id.trim(), ex.trim(), &body[e + ", vxenditer)".len()..]);
    }
    while let Some(p) = body.rfind("vxclo!(") {
        let s = p + "vxclo!(".len();
        let q = body[s..].find("vxendclo").ok_or("closure marker")? + s;
        let e = body[..q].rfind(',').ok_or("closure marker")?;
        let stop = body[q..].find(')').ok_or("closure marker")? + q + 1;
        let inner = body[s..e].to_string();
        let (k, ex) = inner.split_once(',').ok_or("closure marker")?;
        body = format!("{}{} {}{}", &body[..p], get(&format!("closure {}", k.trim())), ex.trim(), &body[stop..]);
    }
    for (i, (_, t)) in fs.before.iter().enumerate() {
        body = body.replace(&format!("vxmarkb_{}!();", i), t);
    }
    for (i, (_, t)) in fs.after.iter().enumerate() {
        body = body.replace(&format!("vxmarka_{}!();", i), t);
    }
    body = body.replace("vxmarktail_0!();", &get("tail"));
    // body starts with '{'
    let begin = get("begin");
    let probe_txt = if probe { "proof { assert(false); }\n" } else { "" };
    body = format!("{{\n{}{}{}", probe_txt, begin, &body[1..]);
    // signature
    let name = fs.rename.clone().unwrap_or_else(|| sig.ident.to_string());
    sig.ident = Ident::new(&name, Span::call_site());
    let ret_ty = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()),
    };
    sig.output = ReturnType::Default;
    let mut sg = sig.to_token_stream().to_string();
    if let Some(t) = ret_ty {
        match &fs.ret {
            Some(r) => sg.push_str(&format!(" -> ({}: {})", r, t)),
            None => sg.push_str(&format!(" -> {}", t)),
        }
    }
    for (a, b) in &fs.tparams {
        sg = sg.replace(a.as_str(), b);
    }
    let mut out = String::new();
    out.push_str(&format!("// extracted: {}:{}-{} {}\n", from, line, end, fs.name));
    let own = if fs.sections.contains_key("own") { "#[verifier::spinoff_prover]\n" } else { "" };
    let inner = format!("{}{}\n{}\n{}\n", own, sg, get("spec"), body);
    match (&header, fs.free) {
        (Some(h), false) => out.push_str(&format!("{} {{\n{}}}\n", h, inner)),
        _ => out.push_str(&inner),
    }
    let mut used = BTreeMap::new();
    for (k, v) in &c.rw {
        let b = before.get(k).copied().unwrap_or(0);
        if *v > b {
            used.insert(k.clone(), v - b);
        }
    }
    let contracted = fs.sections.contains_key("spec");
    Ok((
        out,
        json!({"fn": fs.name, "as": name, "file": from, "line": line, "end": end, "loops": nloops,
               "contract": contracted, "props": fs.props, "rewrites": used}),
    ))
}

fn emit_item(repo: &str, file: &str, name: &str, opts: &[String], c: &mut Ctx, macro_files: &[String]) -> std::result::Result<String, String> {
    let items = all_items(repo, file, c, macro_files)?;
    let mut o = BTreeSet::new();
    for x in opts {
        o.insert(x.clone());
    }
    for i in &items {
        let hit = match i {
            Item::Struct(s) => s.ident == name,
            Item::Enum(s) => s.ident == name,
            Item::Const(s) => s.ident == name,
            Item::Type(s) => s.ident == name,
            _ => false,
        };
        if !hit {
            continue;
        }
        let mut i = i.clone();
        if let Item::Struct(s) = &mut i {
            if let Fields::Named(n) = &mut s.fields {
                let keep: punctuated::Punctuated<Field, Token![,]> = n
                    .named
                    .iter()
                    .filter(|f| c.attrs_on(&f.attrs))
                    .cloned()
                    .collect();
                n.named = keep;
            }
        }
        if let Item::Enum(s) = &mut i {
            s.variants = s.variants.iter().filter(|v| c.attrs_on(&v.attrs)).cloned().collect();
        }
        let methods = BTreeMap::new();
        let mut paths = BTreeMap::new();
        for x in opts {
            if let Some((a, b)) = x.split_once("=>") {
                paths.insert(a.to_string(), b.to_string());
            }
        }
        let vers = versions(&load(repo, file)?, file);
        let mut rw = Rw { c, n: 0, opts: &o, methods: &methods, paths: &paths, vers: vers.clone() };
        rw.visit_item_mut(&mut i);
        if let (Some(n), Item::Struct(s)) = (vers.get(name), &mut i) {
            s.ident = Ident::new(n, Span::call_site());
        }
        let f = File { shebang: None, attrs: vec![], items: vec![i] };
        let mut s = String::new();
        for x in opts {
            if let Some(d) = x.strip_prefix("derive=") {
                s.push_str(&format!("#[derive({})]\n", d));
            }
            if let Some(d) = x.strip_prefix("attr=") {
                s.push_str(&format!("#[{}]\n", d));
            }
        }
        s.push_str(&format!("// extracted: {} {}\n", file, name));
        s.push_str(&prettyplease::unparse(&f));
        return Ok(s);
    }
    Err(format!("item {} not found in {}", name, file))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, tpl, out, rep) = (&a[1], &a[2], &a[3], &a[4]);
    let mut c = Ctx { features: BTreeSet::new(), rw: BTreeMap::new() };
    let mut probe = false;
    let mut comb_res: BTreeSet<String> = BTreeSet::new();
    let mut i = 5;
    while i < a.len() {
        if a[i] == "--features" {
            for f in a[i + 1].split(',') {
                c.features.insert(f.to_string());
            }
            i += 1;
        } else if a[i] == "--comb-result" {
            comb_res.insert(a[i + 1].clone());
            i += 1;
        } else if a[i] == "--probe" {
            probe = true;
        }
        i += 1;
    }
    let dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    let mut text = String::new();
    // includes
    fn slurp(p: &std::path::Path, dir: &std::path::Path, out: &mut String) {
        for l in std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{:?}: {}", p, e)).lines() {
            if let Some(r) = l.trim().strip_prefix("//@ include ") {
                // include FILE [A=b ..]: $A stands for b in the included text
                let w: Vec<&str> = r.split_whitespace().collect();
                let mut sub = String::new();
                slurp(&dir.join(w[0]), dir, &mut sub);
                for a in &w[1..] {
                    let (k, v) = a.split_once('=').unwrap();
                    sub = sub.replace(&format!("${}", k), v);
                }
                out.push_str(&sub);
            } else {
                out.push_str(l);
                out.push('\n');
            }
        }
    }
    slurp(std::path::Path::new(tpl), &dir, &mut text);
    let mut o = String::new();
    let mut fns: Vec<Value> = vec![];
    let mut lost: Vec<String> = vec![];
    let mut macro_files: Vec<String> = vec![];
    let mut specs: BTreeMap<String, (Option<String>, String, Vec<String>)> = BTreeMap::new();
    let mut gmethods: BTreeMap<String, String> = BTreeMap::new();
    let mut gpaths: BTreeMap<String, String> = BTreeMap::new();
    let mut gopts: BTreeSet<String> = BTreeSet::new();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        if let Some(d) = l.strip_prefix("//@ ") {
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "macros" => macro_files.push(w[1].to_string()),
                "method" => {
                    gmethods.insert(w[1].to_string(), w[2..].join(" "));
                }
                "path" => {
                    gpaths.insert(w[1].to_string(), w[2].to_string());
                }
                "opt" => {
                    gopts.insert(w[1].to_string());
                }
                // the types prost generates for a .proto file
                "proto" => {
                    let t = dir.join("../tools/proto.py");
                    match std::process::Command::new("python3").arg(&t).arg(format!("{}/{}", repo, w[1])).arg(w[2]).arg("verus").output() {
                        Ok(r) if r.status.success() => o.push_str(&String::from_utf8_lossy(&r.stdout)),
                        _ => lost.push(format!("the types of {} could not be read", w[1])),
                    }
                }
                "item" => {
                    let opts: Vec<String> = w[3..].iter().map(|x| x.to_string()).collect();
                    match emit_item(repo, w[1], w[2], &opts, &mut c, &macro_files) {
                        Ok(s) => o.push_str(&s),
                        Err(e) => lost.push(e),
                    }
                }
                "fn" | "slice" => {
                    let mut fs = FnSpec {
                        file: w[1].to_string(),
                        name: w[2].to_string(),
                        methods: gmethods.clone(),
                        paths: gpaths.clone(),
                        opts: gopts.clone(),
                        ..Default::default()
                    };
                    let mut k = 3;
                    while k < w.len() {
                        match w[k] {
                            "as" => {
                                fs.rename = Some(w[k + 1].to_string());
                                k += 1;
                            }
                            "free" => fs.free = true,
                            x => {
                                fs.opts.insert(x.to_string());
                            }
                        }
                        k += 1;
                    }
                    if comb_res.contains(&fs.name) {
                        fs.opts.insert("comb-result".to_string());
                    }
                    i += 1;
                    let mut cur: Option<(String, String)> = None; // (kind,key)
                    let mut buf = String::new();
                    loop {
                        let end = i >= lines.len();
                        let t = if end { "//@ end" } else { lines[i].trim() };
                        if let Some(d) = t.strip_prefix("//@ ") {
                            if let Some((kind, key)) = cur.take() {
                                match kind.as_str() {
                                    "sec" => {
                                        fs.sections.insert(key, buf.clone());
                                    }
                                    "before" => fs.before.push((key, buf.clone())),
                                    "after" => fs.after.push((key, buf.clone())),
                                    _ => {}
                                }
                            }
                            buf.clear();
                            if d == "end" {
                                break;
                            }
                            let (k0, rest) = d.split_once(' ').unwrap_or((d, ""));
                            match k0 {
                                "own" => {
                                    fs.sections.insert("own".into(), String::new());
                                }
                                // the contract of another function, said of a field: a delegate
                                "like" => {
                                    let (m, fld) = rest.trim().split_once(' ').unwrap();
                                    let (ret, spec, props) = specs.get(m).unwrap_or_else(|| panic!("like {}: unknown", m)).clone();
                                    fs.ret = ret;
                                    fs.props = props;
                                    fs.sections.insert("spec".into(), on_field(&spec, fld.trim()));
                                }
                                "sig" => fs.slice.get_or_insert_with(Default::default)[0] = rest.trim().to_string(),
                                "from" => fs.slice.get_or_insert_with(Default::default)[1] = rest.trim().to_string(),
                                "to" => fs.slice.get_or_insert_with(Default::default)[2] = rest.trim().to_string(),
                                "value" => fs.slice.get_or_insert_with(Default::default)[3] = rest.trim().to_string(),
                                "ret" => fs.ret = Some(rest.trim().to_string()),
                                "self" => fs.selfty = Some(rest.trim().to_string()),
                                "for" => fs.props = rest.split_whitespace().map(|x| x.to_string()).collect(),
                                "method" => {
                                    let (m, t) = rest.split_once(' ').unwrap();
                                    if t.trim() == "-" {
                                        fs.methods.remove(m);
                                    } else {
                                        fs.methods.insert(m.to_string(), t.trim().to_string());
                                    }
                                }
                                "path" => {
                                    let (m, t) = rest.split_once(' ').unwrap();
                                    fs.paths.insert(m.to_string(), t.trim().to_string());
                                }
                                "subst" => {
                                    let (m, t) = rest.split_once(" ==>").unwrap();
                                    fs.subst.push((m.trim().to_string(), t.trim().to_string()));
                                }
                                // a substitution that need not apply
                                "subst?" => {
                                    let (m, t) = rest.split_once(" ==>").unwrap();
                                    fs.subst_any.push((m.trim().to_string(), t.trim().to_string()));
                                }
                                // leave out the statements that mention none of these names
                                "havoc" => fs.havoc = rest.split_whitespace().map(|x| x.to_string()).collect(),
                                "sigsubst" => {
                                    let (m, t) = rest.split_once(" ==>").unwrap();
                                    fs.tparams.push((m.trim().to_string(), t.trim().to_string()));
                                }
                                "iter" => {
                                    let (m, t) = rest.split_once(' ').unwrap();
                                    fs.sections.insert(format!("loopiter {}", m), t.to_string());
                                }
                                "before" => cur = Some(("before".into(), rest.to_string())),
                                "after" => cur = Some(("after".into(), rest.to_string())),
                                "spec" | "begin" | "tail" => cur = Some(("sec".into(), k0.to_string())),
                                "closure" => {
                                    let (m, t) = rest.split_once(' ').unwrap();
                                    fs.sections.insert(format!("closure {}", m), t.to_string());
                                }
                                "loop" => cur = Some(("sec".into(), format!("loop {}", rest.trim()))),
                                x => panic!("unknown directive {} in {}", x, tpl),
                            }
                        } else {
                            buf.push_str(lines[i]);
                            buf.push('\n');
                        }
                        i += 1;
                    }
                    specs.insert(fs.name.clone(), (fs.ret.clone(), fs.sections.get("spec").cloned().unwrap_or_default(), fs.props.clone()));
                    match emit_fn(repo, &fs, &mut c, &macro_files, probe) {
                        Ok((s, v)) => {
                            let start = o.lines().count() + 1;
                            o.push_str(&s);
                            let stop = o.lines().count();
                            let mut v = v;
                            v["out_start"] = json!(start);
                            v["out_end"] = json!(stop);
                            fns.push(v);
                        }
                        Err(e) => lost.push(e),
                    }
                }
                x => panic!("unknown directive {} in {}", x, tpl),
            }
        } else {
            o.push_str(lines[i]);
            o.push('\n');
        }
        i += 1;
    }
    std::fs::write(out, &o).unwrap();
    std::fs::write(
        rep,
        serde_json::to_string_pretty(&json!({"functions": fns, "lost": lost, "rewrites": c.rw})).unwrap(),
    )
    .unwrap();
    if !lost.is_empty() {
        eprintln!("lost: {:?}", lost);
        std::process::exit(3);
    }
}
