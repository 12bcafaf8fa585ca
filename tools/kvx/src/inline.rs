//! kvx --inline <repo> <known.json> <out>: copies <repo>/src to <out>/src with calls of *new* functions (not in the
//! list of known keys, hence without a contract) replaced by their bodies, so that the contract of the caller decides
//! what the helper does. Source to source; a call site outside the rules below is left as it is:
//!  * no type parameters, not a trait method, not recursive; of another file: every name it uses is known to the caller's file;
//!  * `helper(..)?`: error exits (`?`, whatever!) in the helper leave the caller (errors are opaque to the contracts);
//!  * `return helper(..)` or tail position with the caller's return type: every exit leaves the caller;
//!  * anywhere else: no early exits, after `if c { return e; } rest` became `if c { e } else { rest }`;
//!  * `spawn(helper(..))` of an async helper becomes `spawn(async move { body })`;
//!  * parameters: `&x`, `&mut x` and plain variables are substituted, everything else is bound by `let` before the body.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;

type R = (usize, usize);
fn br(s: proc_macro2::Span) -> R {
    let r = s.byte_range();
    (r.start, r.end)
}

struct Helper {
    key: String,
    file: usize,
    name: String,
    selfty: Option<String>,
    has_self: bool,
    is_async: bool,
    params: Vec<(syn::Pat, syn::Type)>,
    ret: String,
    block: syn::Block,
}

fn norm(t: &str, selfty: &Option<String>) -> String {
    let t: String = t.split_whitespace().collect();
    let t = t.replace("snafu::", "").replace("std::result::", "");
    match selfty {
        Some(s) => t.split("Self").collect::<Vec<_>>().join(s),
        None => t,
    }
}
/// the error type of Result<T, E>
fn err_of(t: &str) -> Option<String> {
    let t = &t[t.find("Result<").filter(|i| t[..*i].chars().all(|c| c.is_alphanumeric() || c == '_'))? + 7..];
    let t = t.strip_suffix('>')?;
    let (mut depth, mut at) = (0i32, None);
    for (i, c) in t.char_indices() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => at = Some(i),
            _ => {}
        }
    }
    Some(at.map_or(String::new(), |i| t[i + 1..].to_string()))
}

#[derive(Default)]
struct Exits {
    ret: Vec<R>,
    tries: usize,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, n: &'a syn::ExprReturn) {
        self.ret.push(br(n.span()));
        syn::visit::visit_expr_return(self, n);
    }
    fn visit_expr_try(&mut self, n: &'a syn::ExprTry) {
        self.tries += 1;
        syn::visit::visit_expr_try(self, n);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n.contains("whatever") || n == "ensure" || n == "bail" {
            self.tries += 1;
        }
        fn question(ts: TokenStream) -> bool {
            ts.into_iter().any(|t| match t {
                TokenTree::Group(g) => question(g.stream()),
                TokenTree::Punct(p) => p.as_char() == '?',
                _ => false,
            })
        }
        if question(m.tokens.clone()) {
            self.tries += 1
        }
        if crate::has_ident(m.tokens.clone(), "return") {
            self.ret.push((0, 0))
        }
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'a syn::ExprAsync) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn exits_block(b: &syn::Block) -> Exits {
    let mut e = Exits::default();
    e.visit_block(b);
    e
}

#[derive(Default)]
struct Binds(BTreeSet<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
        self.0.insert(i.ident.to_string());
        syn::visit::visit_pat_ident(self, i);
    }
}
struct Short<'n>(&'n str, Vec<R>);
impl<'a, 'n> Visit<'a> for Short<'n> {
    fn visit_field_value(&mut self, f: &'a syn::FieldValue) {
        if f.colon_token.is_none() && f.expr.to_token_stream().to_string() == self.0 {
            self.1.push(br(f.span()));
        }
        syn::visit::visit_field_value(self, f);
    }
}

struct ShortPat<'n>(&'n str, Vec<R>);
impl<'a, 'n> Visit<'a> for ShortPat<'n> {
    fn visit_field_pat(&mut self, f: &'a syn::FieldPat) {
        if f.colon_token.is_none() {
            if let syn::Pat::Ident(i) = &*f.pat {
                if i.ident == self.0 {
                    self.1.push(br(i.ident.span()));
                }
            }
        }
        syn::visit::visit_field_pat(self, f);
    }
}

fn place(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.to_string()),
        syn::Expr::Field(f) => Some(format!("{}.{}", place(&f.base)?, f.member.to_token_stream())),
        syn::Expr::Paren(p) => place(&p.expr),
        _ => None,
    }
}

/// (byte range, kind of use) of identifier `name` as a variable
fn uses(ts: TokenStream, name: &str, out: &mut Vec<(R, u8)>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let p = |i: usize, c: char| matches!(v.get(i), Some(TokenTree::Punct(q)) if q.as_char() == c);
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => uses(g.stream(), name, out),
            TokenTree::Ident(id) if id == name => {
                let dot = i > 0 && p(i - 1, '.') && !(i > 1 && p(i - 2, '.'));
                let path = i > 0 && p(i - 1, ':') && i > 1 && p(i - 2, ':') || p(i + 1, ':') && p(i + 2, ':');
                let field = p(i + 1, ':') && !p(i + 2, ':');
                if dot || path || field {
                    continue;
                }
                let indexed = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Bracket);
                if i > 0 && p(i - 1, '*') {
                    out.push(((br(v[i - 1].span()).0, br(id.span()).1), 2)) // *p
                } else if p(i + 1, '.') && !p(i + 2, '.') || indexed {
                    out.push((br(id.span()), 1)) // p.x, p[..]
                } else {
                    out.push((br(id.span()), 0))
                }
            }
            _ => {}
        }
    }
}

fn apply(text: &str, off: usize, mut eds: Vec<(R, String)>) -> Option<String> {
    eds.sort_by_key(|e| (e.0 .0, e.0 .1));
    let mut s = String::new();
    let mut at = off;
    for ((a, b), t) in eds {
        if a < at {
            return None;
        }
        s.push_str(&text[at - off..a - off]);
        s.push_str(&t);
        at = b;
    }
    s.push_str(&text[at - off..]);
    Some(s)
}

/// `if c { ..; return e; } rest` to `if c { ..; e } else { rest }`, let-else likewise, `return e;` at the end to `e`
fn normalise(b: &syn::Block, text: &str, eds: &mut Vec<(R, String)>) {
    let end = br(b.span()).1 - 1;
    let n = b.stmts.len();
    for (i, st) in b.stmts.iter().enumerate() {
        match st {
            syn::Stmt::Expr(syn::Expr::If(f), semi) if f.else_branch.is_none() && ends_with_return(&f.then_branch) && i + 1 < n => {
                normalise(&f.then_branch, text, eds);
                let at = br(st.span()).1;
                let from = if let Some(s) = semi { br(s.span()).0 } else { at };
                eds.push(((from, at), " else {".into()));
                eds.push(((end, end), "}".into()));
            }
            syn::Stmt::Local(l) => {
                if let Some(init) = &l.init {
                    if let (syn::Expr::Match(m), None) = (&*init.expr, &init.diverge) {
                        if let Some(t) = last_value_arm(m, Some(&l.pat.to_token_stream().to_string()), text) {
                            eds.push((br(l.span()), t));
                            eds.push(((end, end), "} }".into()));
                        }
                    }
                    if let Some((_, e)) = &init.diverge {
                        if let syn::Expr::Block(d) = &**e {
                            if ends_with_return(&d.block) {
                                let (a, z) = br(l.span());
                                let pat = l.pat.to_token_stream().to_string();
                                let ex = init.expr.to_token_stream().to_string();
                                let mut de = vec![];
                                normalise(&d.block, text, &mut de);
                                let (ds, dz) = br(d.block.span());
                                if let Some(dt) = apply(&text[ds..dz], ds, de) {
                                    eds.push(((a, z), format!("if let {pat} = {ex} {{")));
                                    eds.push(((end, end), format!("}} else {dt}")));
                                }
                            }
                        }
                    }
                }
            }
            syn::Stmt::Expr(syn::Expr::Match(m), semi) if i + 1 < n => {
                if let Some(t) = last_value_arm(m, None, text) {
                    let (a, z) = br(m.span());
                    eds.push(((a, semi.map_or(z, |s| br(s.span()).1)), t));
                    eds.push(((end, end), "} }".into()));
                }
            }
            syn::Stmt::Expr(e, semi) if i + 1 == n => {
                match e {
                    syn::Expr::Return(r) => {
                        let (a, z) = br(r.span());
                        let z = semi.map_or(z, |s| br(s.span()).1);
                        if let Some(x) = &r.expr {
                            let (xa, xz) = br(x.span());
                            eds.push(((a, xa), String::new()));
                            eds.push(((xz, z), String::new()));
                        } else {
                            eds.push(((a, z), String::new()));
                        }
                    }
                    syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_) if semi.is_none() => tail_normalise(e, text, eds),
                    _ => {}
                };
            }
            _ => {}
        }
    }
}
/// `let p = match e { A => v, B => { ..; return x; } };` to `match e { B => { ..; x } A => { let p = v;` (the rest follows)
fn last_value_arm(m: &syn::ExprMatch, pat: Option<&str>, text: &str) -> Option<String> {
    let returns = |a: &syn::Arm| match &*a.body {
        syn::Expr::Return(_) => true,
        syn::Expr::Block(b) => ends_with_return(&b.block),
        _ => false,
    };
    if !m.arms.iter().any(returns) || m.arms.iter().any(|a| a.guard.is_some()) {
        return None;
    }
    let macro_exit = |a: &syn::Arm| matches!(&*a.body, syn::Expr::Macro(x) if x.mac.path.segments.last().unwrap().ident == "whatever");
    let value: Vec<usize> = (0..m.arms.len()).filter(|i| !returns(&m.arms[*i]) && !macro_exit(&m.arms[*i])).collect();
    let [v] = value.as_slice() else { return None };
    let head = |p: &syn::Pat| match p {
        syn::Pat::TupleStruct(t) => Some(t.path.to_token_stream().to_string()),
        syn::Pat::Path(p) => Some(p.to_token_stream().to_string()),
        syn::Pat::Ident(i) if i.ident == "None" => Some("None".to_string()),
        _ => None,
    };
    if *v + 1 != m.arms.len() {
        // the value arm moves to the end: patterns have to exclude each other
        let hs: Vec<_> = m.arms.iter().map(|a| head(&a.pat)).collect();
        if hs.iter().any(|h| h.is_none()) || hs.iter().enumerate().any(|(i, h)| i != *v && h == &hs[*v]) {
            return None;
        }
    }
    let mut out = format!("match {} {{ ", m.expr.to_token_stream());
    for (i, a) in m.arms.iter().enumerate() {
        if i == *v {
            continue;
        }
        let mut eds = vec![];
        match &*a.body {
            syn::Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    eds.push(((br(r.span()).0, br(x.span()).0), String::new()))
                } else {
                    eds.push((br(r.span()), "()".into()))
                }
            }
            syn::Expr::Block(b) => normalise(&b.block, text, &mut eds),
            _ => {}
        }
        let (s, e) = br(a.body.span());
        out.push_str(&format!("{} => {} , ", a.pat.to_token_stream(), apply(&text[s..e], s, eds)?));
    }
    let a = &m.arms[*v];
    let body = a.body.to_token_stream();
    match pat {
        Some(p) => out.push_str(&format!("{} => {{ let {p} = {body} ; ", a.pat.to_token_stream())),
        None => out.push_str(&format!("{} => {{ {body} ; ", a.pat.to_token_stream())),
    }
    Some(out)
}
fn tail_normalise(e: &syn::Expr, text: &str, eds: &mut Vec<(R, String)>) {
    match e {
        syn::Expr::If(f) => {
            normalise(&f.then_branch, text, eds);
            if let Some((_, x)) = &f.else_branch {
                tail_normalise(x, text, eds)
            }
        }
        syn::Expr::Block(b) => normalise(&b.block, text, eds),
        syn::Expr::Match(m) => {
            for a in &m.arms {
                match &*a.body {
                    syn::Expr::Return(r) => {
                        if let Some(x) = &r.expr {
                            eds.push(((br(r.span()).0, br(x.span()).0), String::new()));
                        }
                    }
                    x => tail_normalise(x, text, eds),
                }
            }
        }
        _ => {}
    }
}
fn ends_with_return(b: &syn::Block) -> bool {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) => true,
        _ => false,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Tail,
    Try,
    Plain,
    Spawn,
}
struct Site<'a> {
    range: R,
    kind: Kind,
    awaited: bool,
    call: &'a syn::Expr,
}
/// every call of a function body, with the way its result leaves
struct Sites<'a> {
    out: Vec<Site<'a>>,
    tails: BTreeSet<R>,
    nested: usize, // closures, async blocks: `return` and `?` mean something else there
}
impl<'a> Sites<'a> {
    fn tail(&mut self, e: &'a syn::Expr) {
        self.tails.insert(br(e.span()));
        match e {
            syn::Expr::If(f) => {
                self.tail_block(&f.then_branch);
                if let Some((_, x)) = &f.else_branch {
                    self.tail(x)
                }
            }
            syn::Expr::Match(m) => {
                for a in &m.arms {
                    self.tail(&a.body)
                }
            }
            syn::Expr::Block(b) => self.tail_block(&b.block),
            _ => {}
        }
    }
    fn tail_block(&mut self, b: &'a syn::Block) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            self.tail(e)
        }
    }
    fn push(&mut self, e: &'a syn::Expr, range: R, kind: Kind) -> bool {
        let (awaited, c) = match e {
            syn::Expr::Await(a) => (true, &*a.base),
            x => (false, x),
        };
        if matches!(c, syn::Expr::Call(_) | syn::Expr::MethodCall(_)) {
            let kind = if self.nested > 0 && kind == Kind::Tail { Kind::Plain } else { kind };
            self.out.push(Site { range, kind, awaited, call: c });
            // arguments and receiver
            match c {
                syn::Expr::Call(c) => c.args.iter().for_each(|a| self.visit_expr(a)),
                syn::Expr::MethodCall(m) => {
                    self.visit_expr(&m.receiver);
                    m.args.iter().for_each(|a| self.visit_expr(a))
                }
                _ => {}
            }
            return true;
        }
        false
    }
}
impl<'a> Visit<'a> for Sites<'a> {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        let r = br(e.span());
        let done = match e {
            syn::Expr::Return(x) => x.expr.as_ref().map_or(false, |x| self.push(x, r, Kind::Tail)),
            syn::Expr::Try(x) => self.push(&x.expr, r, Kind::Try),
            syn::Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.last().unwrap().ident == "spawn") && matches!(&c.args[0], syn::Expr::Call(_)) => {
                let a = &c.args[0];
                self.out.push(Site { range: br(a.span()), kind: Kind::Spawn, awaited: false, call: a });
                true
            }
            syn::Expr::Await(_) | syn::Expr::Call(_) | syn::Expr::MethodCall(_) => {
                let k = if self.tails.contains(&r) { Kind::Tail } else { Kind::Plain };
                self.push(e, r, k)
            }
            syn::Expr::Closure(_) | syn::Expr::Async(_) => {
                self.nested += 1;
                syn::visit::visit_expr(self, e);
                self.nested -= 1;
                true
            }
            _ => false,
        };
        if !done {
            syn::visit::visit_expr(self, e);
        }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        // the branches of select! run in the enclosing function
        if m.path.segments.last().unwrap().ident == "select" {
            for a in crate::select_arms(m.tokens.clone()).unwrap_or_default() {
                for ts in [a.expr_ts, a.body_ts] {
                    if let Ok(e) = syn::parse2::<syn::Expr>(ts) {
                        self.visit_expr(Box::leak(Box::new(e)));
                    }
                }
            }
        }
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

struct Caller<'a> {
    key: String,
    selfty: Option<String>,
    ret: String,
    block: &'a syn::Block,
}

struct Fun<'a> {
    ty: Option<String>,
    of_trait: bool,
    generic: bool,
    assoc: BTreeMap<String, String>,
    sig: &'a syn::Signature,
    block: &'a syn::Block,
    whole: R,
}
fn functions(file: &syn::File) -> Vec<Fun<'_>> {
    let mut v = vec![];
    for it in &file.items {
        match it {
            syn::Item::Fn(f) => v.push(Fun { ty: None, of_trait: false, generic: false, assoc: BTreeMap::new(), sig: &f.sig, block: &f.block, whole: br(f.span()) }),
            syn::Item::Impl(im) => {
                if let syn::Type::Path(p) = &*im.self_ty {
                    let ty = p.path.segments.last().unwrap().ident.to_string();
                    let gen = im.generics.type_params().next().is_some();
                    let mut assoc = BTreeMap::new();
                    for ii in &im.items {
                        if let syn::ImplItem::Type(t) = ii {
                            assoc.insert(t.ident.to_string(), t.ty.to_token_stream().to_string());
                        }
                    }
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            v.push(Fun { ty: Some(ty.clone()), of_trait: im.trait_.is_some(), generic: gen, assoc: assoc.clone(), sig: &f.sig, block: &f.block, whole: br(f.span()) });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    v
}

fn mkkey(modpath: &str, ty: &Option<String>, name: &str) -> String {
    let mut v: Vec<&str> = vec![];
    if !modpath.is_empty() {
        v.push(modpath)
    }
    if let Some(t) = ty {
        v.push(t)
    }
    v.push(name);
    v.join("::")
}

fn ret_of(f: &Fun) -> String {
    match &f.sig.output {
        syn::ReturnType::Default => "()".into(),
        syn::ReturnType::Type(_, t) => {
            let mut t: String = t.to_token_stream().to_string().split_whitespace().collect();
            for (k, v) in &f.assoc {
                t = t.replace(&format!("Self::{k}"), v);
            }
            norm(&t, &f.ty)
        }
    }
}

/// the text that replaces the call, or why it stays
fn expand(here: &str, text: &str, h: &Helper, c: &Caller, s: &Site, args: &[&syn::Expr], recv: Option<String>) -> Result<String, String> {
    if h.is_async != s.awaited && s.kind != Kind::Spawn {
        return Err("async function not awaited".into());
    }
    if args.len() != h.params.len() {
        return Err("number of arguments".into());
    }
    let mut kind = s.kind;
    if kind == Kind::Tail && h.ret != c.ret {
        kind = Kind::Plain;
    }
    let ex = exits_block(&h.block);
    if ex.ret.contains(&(0, 0)) {
        return Err("return inside a macro".into());
    }
    let mut eds: Vec<(R, String)> = vec![];
    let mut left = ex.ret.len();
    if kind != Kind::Tail && kind != Kind::Spawn && left > 0 {
        normalise(&h.block, text, &mut eds);
        // every return has to be gone
        let (a, z) = br(h.block.span());
        let t = apply(&text[a..z], a, eds.clone()).ok_or("overlapping edits")?;
        let b: syn::Block = syn::parse_str(&t).map_err(|e| format!("normalised body: {e}"))?;
        left = exits_block(&b).ret.len();
        if left > 0 {
            return Err("early return".into());
        }
    }
    if ex.tries > 0 {
        match kind {
            Kind::Plain => return Err("error exit".into()),
            Kind::Try if err_of(&h.ret).is_none() => return Err("no Result".into()),
            _ => {}
        }
    }
    let mut bound = Binds::default();
    bound.visit_block(&h.block);
    let bound = bound.0;
    let mut pre = String::new();
    let mut body_eds = eds;
    let mut lets: Vec<(String, String, String)> = vec![];
    let subst = |name: &str, x: &str, mode: &str, eds: &mut Vec<(R, String)>| -> Result<(), String> {
        // mode: "" the variable itself, "&"/"&mut " a reference to the place x
        let root = x.split('.').next().unwrap();
        if name == x && mode.is_empty() {
            return Ok(());
        }
        if bound.contains(name) {
            return Err(format!("{name} bound again"));
        }
        if root != "self" && bound.contains(root) {
            return Err(format!("@rename {root}"));
        }
        let mut sh = Short(name, vec![]);
        sh.visit_block(&h.block);
        let mut us = vec![];
        uses(h.block.to_token_stream(), name, &mut us);
        for (r, k) in us {
            let t = if sh.1.contains(&r) {
                format!("{name}: {mode}{x}")
            } else {
                match (k, mode) {
                    (_, "") if k == 2 => format!("*{x}"),
                    (_, "") => x.to_string(),
                    (0, m) => format!("{m}{x}"),
                    _ => x.to_string(),
                }
            };
            eds.push((r, t));
        }
        Ok(())
    };
    if let Some(r) = &recv {
        if r != "self" {
            let mut us = vec![];
            uses(h.block.to_token_stream(), "self", &mut us);
            if us.iter().any(|u| u.1 != 1) {
                return Err("self used as a whole".into());
            }
            let root = r.split('.').next().unwrap();
            if root != "self" && bound.contains(root) {
                return Err(format!("@rename {root}"));
            }
            for (u, _) in us {
                body_eds.push((u, r.clone()));
            }
        }
    }
    for ((pat, ty), a) in h.params.iter().zip(args) {
        let (pn, pmut) = match pat {
            syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => (Some(i.ident.to_string()), i.mutability.is_some()),
            _ => (None, false),
        };
        let tyt = ty.to_token_stream().to_string();
        let rebound = pn.as_ref().map_or(false, |n| bound.contains(n));
        if let (Some(n), false, false) = (&pn, pmut, rebound) {
            let done = match a {
                syn::Expr::Reference(r) => match place(&r.expr) {
                    Some(x) => {
                        subst(n, &x, if r.mutability.is_some() { "&mut " } else { "&" }, &mut body_eds)?;
                        true
                    }
                    None => false,
                },
                e => match place(e) {
                    // a variable (or a reference kept in one)
                    Some(x) if !x.contains('.') || tyt.starts_with('&') => {
                        subst(n, &x, "", &mut body_eds)?;
                        true
                    }
                    _ => {
                        // x.clone(), Arc::clone(&x) for a spawned task
                        let t: String = e.to_token_stream().to_string().split_whitespace().collect();
                        let x = t.strip_suffix(".clone()").or_else(|| t.strip_prefix("Arc::clone(&").and_then(|t| t.strip_suffix(')')));
                        match x {
                            Some(x) if s.kind == Kind::Spawn && x.chars().all(|c| c.is_alphanumeric() || c == '_') => {
                                subst(n, x, "", &mut body_eds)?;
                                pre.push_str(&format!("let {x} = {x}.clone(); "));
                                true
                            }
                            _ => false,
                        }
                    }
                },
            };
            if done {
                continue;
            }
        }
        if tyt.contains("& mut") {
            return Err("mutable reference to a computed place".into());
        }
        let ann = if tyt.contains('\'') || tyt.contains("impl") { String::new() } else { format!(": {}", norm_self(&tyt, &h.selfty)) };
        lets.push((pat.to_token_stream().to_string(), ann, a.to_token_stream().to_string()));
    }
    if s.kind == Kind::Spawn && !lets.is_empty() {
        return Err("computed argument of a task".into());
    }
    // arguments are evaluated before any parameter is bound
    let clash = lets.len() > 1;
    for (i, (p, t, a)) in lets.iter().enumerate() {
        if clash {
            pre.push_str(&format!("let kvx_a{i}{t} = {a}; "));
        } else {
            pre.push_str(&format!("let {p}{t} = {a}; "));
        }
    }
    if clash {
        for (i, (p, t, _)) in lets.iter().enumerate() {
            pre.push_str(&format!("let {p}{t} = kvx_a{i}; "));
        }
    }
    let (a, z) = br(h.block.span());
    let body = apply(&text[a..z], a, body_eds).ok_or("overlapping edits")?;
    let b: syn::Block = syn::parse_str(&body).map_err(|e| format!("inlined body: {e}"))?;
    let body = norm_self(&body, &h.selfty);
    Ok(match kind {
        Kind::Spawn => {
            if pre.is_empty() {
                format!("async move {body}")
            } else {
                format!("{{ {pre} async move {body} }}")
            }
        }
        Kind::Tail if s.range_is_return(here) => format!("return {{ {pre} {body} }}"),
        Kind::Tail => format!("{{ {pre} {body} }}"),
        Kind::Try if err_of(&h.ret).is_some() => format!("({{ {pre} let kvx_r: {} = {body}; kvx_r? }})", h.ret),
        Kind::Try => format!("({{ {pre} {body} }})?"),
        Kind::Plain if here[s.range.0..].starts_with("return") => format!("return {{ {pre} {body} }}"),
        Kind::Plain => match b.stmts.as_slice() {
            [syn::Stmt::Expr(e, None)] if pre.is_empty() => {
                let _ = e;
                format!("({})", body.trim().strip_prefix('{').and_then(|x| x.strip_suffix('}')).unwrap_or(&body).trim())
            },
            _ => format!("({{ {pre} {body} }})"),
        },
    })
}
impl<'a> Site<'a> {
    fn range_is_return(&self, text: &str) -> bool {
        text[self.range.0..].starts_with("return")
    }
}
/// the text on one line, without comments, with `Self` spelled out
fn norm_self(t: &str, selfty: &Option<String>) -> String {
    fn leaves(ts: TokenStream, out: &mut Vec<R>) {
        for t in ts {
            match t {
                TokenTree::Group(g) if g.delimiter() != Delimiter::None => {
                    out.push(br(g.span_open()));
                    leaves(g.stream(), out);
                    out.push(br(g.span_close()));
                }
                t => out.push(br(t.span())),
            }
        }
    }
    let Ok(ts) = t.parse::<TokenStream>() else { return t.to_string() };
    let mut v = vec![];
    leaves(ts, &mut v);
    let (mut s, mut at) = (String::new(), None);
    // spans of a parsed string may start anywhere
    let off = v.first().map_or(0, |r| r.0).saturating_sub(t.len() - t.trim_start().len());
    for (a, z) in v {
        let (a, z) = (a - off, z - off);
        if let Some(p) = at {
            if a > p {
                s.push(' ')
            }
        }
        let w = &t[a..z];
        s.push_str(match selfty {
            Some(x) if w == "Self" => x,
            _ => w,
        });
        at = Some(z);
    }
    s
}

struct Source {
    modpath: String,
    text: String,
}
/// names a file defines or imports from the crate
fn scope(file: &syn::File) -> BTreeSet<String> {
    fn tree(t: &syn::UseTree, out: &mut BTreeSet<String>) {
        match t {
            syn::UseTree::Path(p) => tree(&p.tree, out),
            syn::UseTree::Name(n) => {
                out.insert(n.ident.to_string());
            }
            syn::UseTree::Rename(r) => {
                out.insert(r.rename.to_string());
            }
            syn::UseTree::Group(g) => g.items.iter().for_each(|t| tree(t, out)),
            syn::UseTree::Glob(_) => {}
        }
    }
    let mut out = BTreeSet::new();
    for it in &file.items {
        match it {
            syn::Item::Fn(f) => drop(out.insert(f.sig.ident.to_string())),
            syn::Item::Struct(f) => drop(out.insert(f.ident.to_string())),
            syn::Item::Enum(f) => drop(out.insert(f.ident.to_string())),
            syn::Item::Const(f) => drop(out.insert(f.ident.to_string())),
            syn::Item::Static(f) => drop(out.insert(f.ident.to_string())),
            syn::Item::Type(f) => drop(out.insert(f.ident.to_string())),
            syn::Item::Use(u) => {
                if let syn::UseTree::Path(p) = &u.tree {
                    if p.ident == "crate" || p.ident == "super" || p.ident == "self" {
                        tree(&u.tree, &mut out)
                    }
                }
            }
            _ => {}
        }
    }
    out
}
fn has_paths(ts: TokenStream) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Group(g) => has_paths(g.stream()),
        TokenTree::Ident(i) => i == "super" || i == "self",
        _ => false,
    })
}

/// one round over file `at`: (index of the file that changed, its new text)
fn pass(srcs: &[Source], at: usize, known: &BTreeSet<String>, names: &BTreeMap<String, usize>, why: &mut BTreeSet<String>, done: &mut BTreeMap<String, usize>) -> Option<(usize, String)> {
    let (text, modpath) = (&srcs[at].text, &srcs[at].modpath);
    let files: Vec<syn::File> = srcs.iter().filter_map(|s| syn::parse_file(&s.text).ok()).collect();
    if files.len() != srcs.len() {
        return None;
    }
    let fns = functions(&files[at]);
    let here = scope(&files[at]);
    let mut helpers: Vec<Helper> = vec![];
    for (fi, file) in files.iter().enumerate() {
        let there = scope(file);
        for f in &functions(file) {
            let (ty, sig, block) = (&f.ty, f.sig, f.block);
            let key = mkkey(&srcs[fi].modpath, ty, &sig.ident.to_string());
            if f.of_trait || f.generic || known.contains(&key) || sig.generics.type_params().next().is_some() || sig.ident == "main" {
                continue;
            }
            if fi != at {
                // names of its own file have to mean the same here
                let ts: TokenStream = [sig.to_token_stream(), block.to_token_stream()].into_iter().collect();
                if there.iter().any(|n| *n != sig.ident.to_string() && !here.contains(n) && crate::has_ident(ts.clone(), n)) || has_paths(block.to_token_stream()) && sig.receiver().is_none() {
                    continue;
                }
            }
            let mut params = vec![];
            for a in &sig.inputs {
                if let syn::FnArg::Typed(t) = a {
                    params.push(((*t.pat).clone(), (*t.ty).clone()))
                }
            }
            if crate::has_ident(block.to_token_stream(), &sig.ident.to_string()) {
                why.insert(format!("{key}: mentions its own name"));
                continue;
            }
            helpers.push(Helper { key, file: fi, name: sig.ident.to_string(), selfty: ty.clone(), has_self: sig.receiver().is_some(), is_async: sig.asyncness.is_some(), params, ret: ret_of(f), block: block.clone() });
        }
    }
    if helpers.is_empty() {
        return None;
    }
    let mut eds: Vec<(R, String)> = vec![];
    for f in &fns {
        let (ty, sig, block) = (&f.ty, f.sig, f.block);
        let c = Caller { key: mkkey(modpath, ty, &sig.ident.to_string()), selfty: ty.clone(), ret: ret_of(f), block };
        let mut v = Sites { out: vec![], tails: BTreeSet::new(), nested: 0 };
        v.tail_block(c.block);
        v.visit_block(c.block);
        for s in &v.out {
            let (h, args, recv): (&Helper, Vec<&syn::Expr>, Option<String>) = match s.call {
                syn::Expr::Call(x) => {
                    let syn::Expr::Path(p) = &*x.func else { continue };
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let key = match segs.as_slice() {
                        [n] => mkkey(modpath, &None, n),
                        [q, n] if q == "self" => mkkey(modpath, &None, n),
                        [q, n] if q == "Self" => mkkey(modpath, &c.selfty, n),
                        [q, n] => mkkey(modpath, &Some(q.clone()), n),
                        _ => String::new(),
                    };
                    let unique = |h: &Helper| names.get(&h.name) == Some(&1) && !h.has_self && segs.last() == Some(&h.name);
                    match helpers.iter().find(|h| h.key == key && !h.has_self).or_else(|| helpers.iter().find(|h| h.file != at && unique(h))) {
                        Some(h) => (h, x.args.iter().collect(), None),
                        None => continue,
                    }
                }
                syn::Expr::MethodCall(m) => {
                    let n = m.method.to_string();
                    let Some(h) = helpers.iter().find(|h| h.has_self && h.key.rsplit("::").next() == Some(&n)) else { continue };
                    if names.get(&n).copied().unwrap_or(0) > 1 {
                        why.insert(format!("{}: several functions of this name", h.key));
                        continue;
                    }
                    let Some(r) = place(&m.receiver) else {
                        why.insert(format!("{}: computed receiver", h.key));
                        continue;
                    };
                    (h, m.args.iter().collect(), Some(r))
                }
                _ => continue,
            };
            if h.key == c.key || eds.iter().any(|e| !(s.range.1 <= e.0 .0 || e.0 .1 <= s.range.0)) {
                continue;
            }
            match expand(text, &srcs[h.file].text, h, &c, s, &args, recv) {
                Ok(t) => {
                    // keep the line numbers of what follows
                    let nl = text[s.range.0..s.range.1].matches('\n').count();
                    eds.push((s.range, t + &"\n".repeat(nl)));
                    *done.entry(h.key.clone()).or_insert(0) += 1;
                }
                Err(e) if e.starts_with("@rename ") => {
                    // a variable of the helper would capture one of the caller: rename it in the helper
                    let n = &e[8..];
                    let (mut us, mut sh) = (vec![], Short(n, vec![]));
                    uses(h.block.to_token_stream(), n, &mut us);
                    sh.visit_block(&h.block);
                    let mut sp = ShortPat(n, vec![]);
                    sp.visit_block(&h.block);
                    let mut ren: Vec<(R, String)> = us.into_iter().map(|((a, z), k)| {
                        let s = if sh.1.contains(&(a, z)) || sp.1.contains(&(a, z)) { format!("{n}: {n}_kvx") } else { format!("{n}_kvx") };
                        ((a, z), if k == 2 { format!("*{s}") } else { s })
                    }).collect();
                    ren.sort();
                    ren.dedup();
                    return apply(&srcs[h.file].text, 0, ren).map(|t| (h.file, t));
                }
                Err(e) => {
                    why.insert(format!("{} in {}: {e}", h.key, c.key));
                }
            }
        }
    }
    if eds.is_empty() {
        return None;
    }
    apply(text, 0, eds).map(|t| (at, t))
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = fs::read_dir(dir).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, out)
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p)
        }
    }
}

fn count(ts: TokenStream, name: &str) -> usize {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => count(g.stream(), name),
            TokenTree::Ident(i) => (i == name) as usize,
            _ => 0,
        })
        .sum()
}

/// patterns Verus does not take, where nothing but the spelling changes: `Some(&x) => e` to `Some(x) => { let x = *x; e }`,
/// `Some([1, x]) => e` to `Some(s) if s.len() == 2 && s[0] == 1 => { let x = &s[1]; e }`, `let [a, b] = e;` by element
#[derive(Default)]
struct Desugar {
    eds: Vec<(R, String)>,
    n: usize,
}
enum Slot {
    Deref(R, String),
    Slice(R, Vec<String>, Vec<String>),
}
impl Desugar {
    fn slot(&self, p: &syn::Pat) -> Option<Slot> {
        match p {
            syn::Pat::TupleStruct(t) if t.elems.len() == 1 => self.slot(&t.elems[0]),
            syn::Pat::Paren(p) => self.slot(&p.pat),
            syn::Pat::Reference(r) => match &*r.pat {
                syn::Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() => Some(Slot::Deref(br(r.span()), i.ident.to_string())),
                syn::Pat::Slice(_) => match self.slot(&r.pat) {
                    Some(Slot::Slice(_, c, b)) => Some(Slot::Slice(br(r.span()), c, b.into_iter().map(|l| l.replace("= &", "= ")).collect())),
                    x => x,
                },
                _ => None,
            },
            syn::Pat::Slice(s) => {
                let v = format!("kvx_s{}", self.n);
                let (mut conds, mut binds) = (vec![], vec![]);
                let k = s.elems.len();
                let mut len = format!("{v}.len() == {k}");
                for (i, e) in s.elems.iter().enumerate() {
                    let x = format!("{v}[{i}]");
                    match e {
                        syn::Pat::Wild(_) => {}
                        syn::Pat::Lit(_) | syn::Pat::Path(_) => conds.push(format!("{x} == {}", e.to_token_stream())),
                        syn::Pat::Rest(_) if i + 1 == k => len = format!("{v}.len() >= {i}"),
                        syn::Pat::Ident(p) if p.by_ref.is_none() && p.mutability.is_none() => match &p.subpat {
                            None if p.ident.to_string().chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) => conds.push(format!("{x} == {}", p.ident)),
                            None => binds.push(format!("let {} = &{x};", p.ident)),
                            Some((_, q)) if matches!(&**q, syn::Pat::Rest(_)) && i + 1 == k => {
                                len = format!("{v}.len() >= {i}");
                                binds.push(format!("let {} = &{v}[{i}..];", p.ident));
                            }
                            _ => return None,
                        },
                        _ => return None,
                    }
                }
                conds.insert(0, len);
                Some(Slot::Slice(br(s.span()), conds, binds))
            }
            _ => None,
        }
    }
}
impl<'a> Visit<'a> for Desugar {
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        for a in &m.arms {
            let (bs, be) = br(a.body.span());
            match self.slot(&a.pat) {
                Some(Slot::Deref(r, x)) if a.guard.is_none() => {
                    self.n += 1;
                    self.eds.push((r, x.clone()));
                    self.eds.push(((bs, bs), format!("{{ let {x} = *{x}; ")));
                    self.eds.push(((be, be), " }".into()));
                    return;
                }
                Some(Slot::Slice(r, c, b)) => {
                    let pe = br(a.pat.span()).1;
                    let cond = c.join(" && ");
                    match &a.guard {
                        None => self.eds.push(((pe, pe), format!(" if {cond}"))),
                        Some((_, g)) if b.is_empty() => {
                            let (gs, ge) = br(g.span());
                            self.eds.push(((gs, gs), format!("{cond} && (")));
                            self.eds.push(((ge, ge), ")".into()));
                        }
                        _ => continue,
                    }
                    self.eds.push((r, format!("kvx_s{}", self.n)));
                    if !b.is_empty() {
                        self.eds.push(((bs, bs), format!("{{ {} ", b.join(" "))));
                        self.eds.push(((be, be), " }".into()));
                    }
                    self.n += 1;
                    return;
                }
                _ => {}
            }
        }
        syn::visit::visit_expr_match(self, m);
    }
    fn visit_expr_if(&mut self, f: &'a syn::ExprIf) {
        if let syn::Expr::Let(l) = &*f.cond {
            if let Some(Slot::Deref(r, x)) = self.slot(&l.pat) {
                let at = br(f.then_branch.span()).0 + 1;
                self.n += 1;
                self.eds.push((r, x.clone()));
                self.eds.push(((at, at), format!(" let {x} = *{x};")));
                return;
            }
        }
        syn::visit::visit_expr_if(self, f);
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let Some(i) = &l.init {
            let end = br(l.span()).1;
            match (self.slot(&l.pat), i.diverge.is_some()) {
                (Some(Slot::Deref(r, x)), true) => {
                    self.n += 1;
                    self.eds.push((r, x.clone()));
                    self.eds.push(((end, end), format!(" let {x} = *{x};")));
                    return;
                }
                (Some(Slot::Slice(r, c, b)), false) if c.len() == 1 && matches!(l.pat, syn::Pat::Slice(_)) => {
                    self.eds.push((r, format!("kvx_s{}", self.n)));
                    self.eds.push(((end, end), format!(" {}", b.join(" ").replace("= &", "= "))));
                    self.n += 1;
                    return;
                }
                _ => {}
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if !crate::is_cfg_test(&m.attrs) {
            syn::visit::visit_item_mod(self, m)
        }
    }
}
fn desugar(text: &str) -> (String, usize) {
    let (mut t, mut n) = (text.to_string(), 0);
    for _ in 0..60 {
        let Ok(f) = syn::parse_file(&t) else { break };
        let mut d = Desugar { eds: vec![], n };
        d.visit_file(&f);
        if d.n == n {
            break;
        }
        // one pattern at a time
        match apply(&t, 0, d.eds) {
            Some(x) => (t, n) = (x, d.n),
            None => break,
        }
    }
    (t, n)
}

pub fn main(repo: &Path, known: &Path, outdir: &Path) {
    let known: BTreeSet<String> = serde_json::from_str(&fs::read_to_string(known).unwrap()).unwrap();
    let src = repo.join("src");
    let mut files = vec![];
    walk(&src, &mut files);
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    for f in &files {
        if let Ok(file) = syn::parse_file(&fs::read_to_string(f).unwrap_or_default()) {
            for x in functions(&file) {
                *names.entry(x.sig.ident.to_string()).or_insert(0) += 1;
            }
        }
    }
    let (mut left, mut done): (BTreeSet<String>, BTreeMap<String, usize>) = Default::default();
    let mut srcs: Vec<Source> = vec![];
    for f in &files {
        let rel = f.strip_prefix(&src).unwrap();
        let mut segs: Vec<String> = rel.with_extension("").components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect();
        if matches!(segs.last().map(|s| s.as_str()), Some("mod") | Some("lib")) {
            segs.pop();
        }
        srcs.push(Source { modpath: segs.join("::"), text: fs::read_to_string(f).unwrap() });
    }
    let new = srcs.iter().any(|s| s.modpath != "main" && syn::parse_file(&s.text).map_or(false, |f| functions(&f).iter().any(|x| !x.of_trait && !known.contains(&mkkey(&s.modpath, &x.ty, &x.sig.ident.to_string())))));
    for i in 0..files.len() {
        if !new || files[i] == src.join("main.rs") {
            continue;
        }
        let mut why = BTreeSet::new();
        for _ in 0..24 {
            why.clear();
            match pass(&srcs, i, &known, &names, &mut why, &mut done) {
                Some((k, t)) => srcs[k].text = t,
                None => break,
            }
        }
        left.extend(why);
    }
    let mut patterns = 0;
    for (f, s) in files.iter().zip(srcs.iter_mut()) {
        if s.modpath != "main" {
            let (t, n) = desugar(&s.text);
            s.text = t;
            patterns += n;
        }
        let o = outdir.join("src").join(f.strip_prefix(&src).unwrap());
        fs::create_dir_all(o.parent().unwrap()).unwrap();
        fs::write(o, &s.text).unwrap();
    }
    // a helper that nobody calls any more is not part of what is verified
    let mut texts: Vec<(PathBuf, String)> = files.iter().map(|f| outdir.join("src").join(f.strip_prefix(&src).unwrap())).map(|p| (p.clone(), fs::read_to_string(p).unwrap())).collect();
    for _ in 0..8 {
        let mut gone = None;
        'find: for (i, (p, t)) in texts.iter().enumerate() {
            let rel = p.strip_prefix(outdir.join("src")).unwrap();
            let mut segs: Vec<String> = rel.with_extension("").components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect();
            if matches!(segs.last().map(|s| s.as_str()), Some("mod") | Some("lib")) {
                segs.pop();
            }
            let Ok(file) = syn::parse_file(t) else { continue };
            for f in functions(&file) {
                let key = mkkey(&segs.join("::"), &f.ty, &f.sig.ident.to_string());
                if f.of_trait || known.contains(&key) || !done.contains_key(&key) || names.get(&f.sig.ident.to_string()) != Some(&1) {
                    continue;
                }
                let n: usize = texts.iter().map(|(_, t)| t.parse::<TokenStream>().map_or(2, |ts| count(ts, &f.sig.ident.to_string()))).sum();
                if n == 1 {
                    gone = Some((i, f.whole));
                    break 'find;
                }
            }
        }
        let Some((i, (a, z))) = gone else { break };
        let t = &texts[i].1;
        let nl = t[a..z].matches('\n').count();
        let t = format!("{}{}{}", &t[..a], "\n".repeat(nl), &t[z..]);
        fs::write(&texts[i].0, &t).unwrap();
        texts[i].1 = t;
    }
    println!("{}", serde_json::json!({"inlined": done, "left": left, "patterns": patterns}));
}
