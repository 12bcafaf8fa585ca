//! kvx: mechanical extraction of /repo/src into one Verus file.
//!
//! usage: kvx <repo> <contracts-dir> <prelude.rs> <out.rs> <map.json> [--quarantine key]... [--vacuity]
//!
//! Every function body is copied byte for byte from the source; the only edits are the
//! ones listed in RULES below (they are counted and reported in the map).
use proc_macro2::{Delimiter, Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;
mod inline;

#[derive(Default, Clone, Debug)]
struct Contract {
    props: Vec<String>,
    flags: BTreeSet<String>,
    spec: String,
    loops: HashMap<usize, (Option<String>, String)>,
    begin: String,
    end: String,
    nloops: Option<usize>,
}

#[derive(Default)]
struct Contracts {
    fns: BTreeMap<String, Contract>,
    items: BTreeMap<String, String>,
    consts: BTreeMap<String, Contract>,
    tasks: BTreeMap<String, (String, Contract)>,
    inject: BTreeMap<String, String>,
}

fn parse_contracts(dir: &Path) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<PathBuf> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "vc")).collect();
    files.sort();
    for f in files {
        let text = fs::read_to_string(&f).unwrap();
        let mut kind = String::new();
        let mut key = String::new();
        let mut cur = Contract::default();
        let mut params = String::new();
        // section: ("spec"|"loop"|"begin"|"end"|"items"|"params")
        let mut sect = String::from("none");
        let mut loopn = 0usize;
        let flush = |c: &mut Contracts, kind: &str, key: &str, cur: Contract, params: String| match kind {
            "fn" => {
                if c.fns.insert(key.to_string(), cur).is_some() {
                    panic!("duplicate contract {key}")
                }
            }
            "items" => {
                let e = c.items.entry(key.to_string()).or_default();
                e.push_str(&cur.spec);
            }
            "const" => {
                c.consts.insert(key.to_string(), cur);
            }
            "inject" => {
                c.inject.insert(key.to_string(), cur.spec);
            }
            "task" => {
                c.tasks.insert(key.to_string(), (params, cur));
            }
            _ => {}
        };
        for line in text.lines() {
            if let Some(h) = line.strip_prefix("=== ") {
                flush(&mut c, &kind, &key, std::mem::take(&mut cur), std::mem::take(&mut params));
                let (head, tail) = match h.split_once('|') {
                    Some((a, b)) => (a.trim(), b.trim()),
                    None => (h.trim(), ""),
                };
                let (k, p) = head.split_once(' ').unwrap_or((head, ""));
                kind = k.to_string();
                key = p.trim().to_string();
                for t in tail.split_whitespace() {
                    if t.starts_with('C') && t[1..].chars().all(|c| c.is_ascii_digit()) {
                        cur.props.push(t.to_string())
                    } else {
                        cur.flags.insert(t.to_string());
                    }
                }
                sect = "spec".into();
            } else if let Some(h) = line.strip_prefix("--- ") {
                let w: Vec<&str> = h.split_whitespace().collect();
                sect = w[0].to_string();
                if w[0] == "loop" {
                    loopn = w[1].parse().unwrap();
                    cur.loops.insert(loopn, (w.get(2).map(|s| s.to_string()), String::new()));
                    cur.nloops = Some(cur.nloops.unwrap_or(0).max(loopn + 1));
                }
            } else {
                if line.trim_start().starts_with("//#") {
                    continue;
                }
                let l = format!("{line}\n");
                match sect.as_str() {
                    "spec" => cur.spec.push_str(&l),
                    "loop" => cur.loops.get_mut(&loopn).unwrap().1.push_str(&l),
                    "begin" => cur.begin.push_str(&l),
                    "end" => cur.end.push_str(&l),
                    "params" => params.push_str(&l),
                    _ => {}
                }
            }
        }
        flush(&mut c, &kind, &key, cur, params);
    }
    c
}

#[derive(Clone, Debug)]
struct Ed {
    start: usize,
    end: usize,
    text: String,
    prio: i32,
}

struct FileCtx<'a> {
    text: &'a str,
    modpath: String,
    file: String,
    eds: Vec<Ed>,
    drops: Vec<(usize, usize)>,
    con: &'a Contracts,
    quar: &'a BTreeSet<String>,
    vacuity: bool,
    fns: &'a mut Vec<Value>,
    rules: &'a mut BTreeMap<String, usize>,
    extra: String,
    opaque: BTreeSet<String>,
    conflicts: BTreeSet<String>,
    tasks: Vec<TaskOut>,
}
/// the body of a spawned task, generated as a function of its own behind the spawning one
struct TaskOut {
    at: usize,
    range: (usize, usize),
    head: String,
    tail: String,
    eds: Vec<Ed>,
    drops: Vec<(usize, usize)>,
}
/// tokio::spawn(async move { BODY }) or tokio::spawn({ let x = x.clone(); ..; async move { BODY } })
#[derive(Default)]
struct SpawnFinder<'a> {
    found: Vec<(Vec<&'a syn::Local>, &'a syn::Block)>,
}
impl<'a> Visit<'a> for SpawnFinder<'a> {
    fn visit_expr_call(&mut self, n: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*n.func {
            if p.path.segments.last().unwrap().ident == "spawn" && n.args.len() == 1 {
                match &n.args[0] {
                    syn::Expr::Async(a) => self.found.push((vec![], &a.block)),
                    syn::Expr::Block(b) => {
                        let mut lets = vec![];
                        for st in &b.block.stmts {
                            match st {
                                syn::Stmt::Local(l) => lets.push(l),
                                syn::Stmt::Expr(syn::Expr::Async(a), None) => self.found.push((lets.clone(), &a.block)),
                                _ => return,
                            }
                        }
                    }
                    _ => {}
                }
                return;
            }
        }
        syn::visit::visit_expr_call(self, n);
    }
}

fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

impl<'a> FileCtx<'a> {
    fn rule(&mut self, r: &str) {
        *self.rules.entry(r.to_string()).or_insert(0) += 1;
    }
    fn ed(&mut self, start: usize, end: usize, text: impl Into<String>) {
        self.eds.push(Ed { start, end, text: text.into(), prio: 0 });
    }
    fn edp(&mut self, start: usize, end: usize, text: impl Into<String>, prio: i32) {
        self.eds.push(Ed { start, end, text: text.into(), prio });
    }
    fn drop_range(&mut self, r: (usize, usize), rule: &str) {
        self.rule(rule);
        self.drops.push(r);
    }
    fn key(&self, ty: Option<&str>, name: &str) -> String {
        let mut k = self.modpath.clone();
        if let Some(t) = ty {
            if !k.is_empty() {
                k.push_str("::")
            };
            k.push_str(t);
        }
        if !k.is_empty() {
            k.push_str("::")
        };
        k.push_str(name);
        k
    }
    fn widen(&mut self, vis: &syn::Visibility, at: usize) {
        match vis {
            syn::Visibility::Inherited => self.edp(at, at, "pub ", -5),
            syn::Visibility::Restricted(r) => {
                let (s, e) = br(r.span());
                self.ed(s, e, "pub")
            }
            _ => {}
        }
    }
    fn drop_attrs(&mut self, attrs: &[syn::Attribute]) -> (bool, bool, bool, bool) {
        // returns (clone, copy, partialeq, snafu)
        let (mut cl, mut co, mut pe, mut sn) = (false, false, false, false);
        for a in attrs {
            if a.path().is_ident("doc") {
                continue;
            }
            if a.path().is_ident("derive") {
                let t = a.meta.to_token_stream().to_string();
                let has = |w: &str| t.split(|c: char| !c.is_alphanumeric()).any(|x| x == w);
                cl |= has("Clone");
                co |= has("Copy");
                pe |= has("PartialEq");
                sn |= has("Snafu");
            }
            if a.path().is_ident("repr") {
                continue;
            }
            self.drop_range(br(a.span()), "attributes (derive/instrument/allow/non_exhaustive) dropped");
        }
        (cl, co, pe, sn)
    }
    /// Rewrites Arc<T>/Mutex<T> in a type. by_ref: a function parameter (Arc<T> becomes &mut T)
    fn fix_type(&mut self, ty: &syn::Type, param: bool) {
        if let syn::Type::Path(p) = ty {
            let seg = p.path.segments.last().unwrap();
            let name = seg.ident.to_string();
            if name == "Mutex" && is_data(seg) {
                self.rule("Mutex<T> over data becomes VMutex<T> (its critical sections are recorded)");
                let (s, e) = (br(ty.span()).0, br(seg.ident.span()).1);
                self.ed(s, e, "VMutex");
            } else if name == "Arc" || name == "Mutex" {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(syn::GenericArgument::Type(inner)) = a.args.first() {
                        self.rule("Arc<T>, Mutex<Receiver> erased to T (Arc parameters to &mut T)");
                        let (s, e) = br(ty.span());
                        let (is, ie) = br(inner.span());
                        self.ed(s, is, if param { "&mut " } else { "" });
                        self.ed(ie, e, "");
                        self.fix_type(inner, false);
                        return;
                    }
                }
            }
            if param && name == "Sender" {
                let (s, _) = br(ty.span());
                self.rule("Sender parameter passed as &mut");
                self.edp(s, s, "&mut ", 0);
            }
            for s in &p.path.segments {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    for g in &a.args {
                        if let syn::GenericArgument::Type(t) = g {
                            self.fix_type(t, false)
                        }
                    }
                }
            }
        } else if let syn::Type::Reference(r) = ty {
            if let syn::Type::Path(p) = &*r.elem {
                if p.path.segments.last().unwrap().ident == "Arc" {
                    let (s, _) = br(ty.span());
                    let (is, _) = br(r.elem.span());
                    self.ed(s, is, "");
                    self.fix_type(&r.elem, true);
                    return;
                }
            }
            self.fix_type(&r.elem, false);
        }
    }

    fn items(&mut self, items: &[syn::Item]) {
        for it in items {
            self.item(it)
        }
    }
    fn item(&mut self, it: &syn::Item) {
        match it {
            syn::Item::Use(u) => {
                let first = match &u.tree {
                    syn::UseTree::Path(p) => p.ident.to_string(),
                    syn::UseTree::Name(n) => n.ident.to_string(),
                    _ => String::new(),
                };
                if !(first == "crate" || first == "super" || first == "self") {
                    self.drop_range(br(u.span()), "use of external crates dropped (names come from the prelude)");
                }
            }
            syn::Item::Mod(m) => {
                let test = is_cfg_test(&m.attrs);
                if test {
                    self.drop_range(br(m.span()), "cfg(test) module dropped");
                } else {
                    self.drop_range(br(m.span()), "mod declaration inlined");
                }
            }
            syn::Item::Const(c) => {
                let (s, _) = br(c.const_token.span());
                self.widen(&c.vis, s);
                if !matches!(&*c.expr, syn::Expr::Lit(_)) {
                    let key = self.key(None, &c.ident.to_string());
                    self.rule("const with a call initialiser becomes an exec const");
                    let spec = self.con.consts.get(&key).map(|c| c.spec.clone()).unwrap_or_default();
                    let (s, e) = br(c.const_token.span());
                    self.ed(s, e, "exec const");
                    let (es, ee) = br(c.eq_token.span());
                    self.ed(es, ee, format!("{spec} {{ "));
                    let (ss, se) = br(c.semi_token.span());
                    self.ed(ss, se, " }");
                }
            }
            syn::Item::Struct(st) => {
                let (cl, co, _pe, sn) = self.drop_attrs(&st.attrs);
                let name = st.ident.to_string();
                if sn {
                    self.opaque_type(&name, br(st.span()));
                    return;
                }
                let (s, _) = br(st.struct_token.span());
                if cl && co {
                    self.edp(s, s, "", 0);
                }
                let at = match &st.vis {
                    syn::Visibility::Inherited => s,
                    v => br(v.span()).0,
                };
                if co {
                    self.edp(at, at, "#[derive(Copy, Clone)] ", -10);
                }
                self.widen(&st.vis, s);
                if st.generics.params.is_empty() {
                    self.extra.push_str(&
                        format!("impl VMx for {name} {{ type M = VMutex<{name}>; open spec fn made(t: Self, m: VMutex<{name}>) -> bool {{ m.last@ == t && m.hist@ =~= Seq::<({name}, {name})>::empty() }} fn mk(t: Self) -> (r: VMutex<{name}>) {{ VMutex {{ last: Ghost(t), hist: Ghost(Seq::empty()) }} }} }}\n"));
                }
                for f in &st.fields {
                    self.drop_attrs(&f.attrs);
                    if let Some(id) = &f.ident {
                        let (s, _) = br(id.span());
                        self.widen(&f.vis, s);
                    } else {
                        let (s, _) = br(f.ty.span());
                        self.widen(&f.vis, s);
                    }
                    self.fix_type(&f.ty, false);
                }
                if cl && !co {
                    self.clone_impl(&name);
                }
            }
            syn::Item::Enum(en) => {
                let (cl, co, _pe, sn) = self.drop_attrs(&en.attrs);
                let name = en.ident.to_string();
                if sn {
                    self.opaque_type(&name, br(en.span()));
                    return;
                }
                let (s, _) = br(en.enum_token.span());
                let at = match &en.vis {
                    syn::Visibility::Inherited => s,
                    v => br(v.span()).0,
                };
                if co {
                    self.edp(at, at, "#[derive(Copy, Clone)] ", -10);
                }
                self.widen(&en.vis, s);
                for v in &en.variants {
                    self.drop_attrs(&v.attrs);
                }
                if cl && !co {
                    self.clone_impl(&name);
                }
            }
            syn::Item::Type(t) => {
                let (s, _) = br(t.type_token.span());
                self.widen(&t.vis, s);
            }
            syn::Item::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                let r = br(m.span());
                if n == "bitflags" {
                    let shim = bitflags_shim(m.mac.tokens.clone());
                    self.extra.push_str(&shim);
                    self.drop_range(r, "bitflags! expanded to the prelude's model of the generated API");
                } else {
                    self.drop_range(r, "item macro dropped");
                }
            }
            syn::Item::Fn(f) => self.func(None, None, &f.attrs, Some(&f.vis), &f.sig, &f.block, br(f.span())),
            syn::Item::Impl(im) => self.imp(im),
            syn::Item::Trait(t) => {
                self.drop_attrs(&t.attrs);
                let (s, _) = br(t.trait_token.span());
                self.widen(&t.vis, s);
                if t.supertraits.is_empty() {
                    let e = if t.generics.params.is_empty() { br(t.ident.span()).1 } else { br(t.generics.span()).1 };
                    self.rule("trait given the supertrait Sized");
                    self.edp(e, e, ": Sized", 0);
                }
                let tname = t.ident.to_string();
                if let Some(i) = self.con.inject.get(&self.key(None, &tname)) {
                    let b = br(t.brace_token.span.open()).1;
                    self.edp(b, b, i.clone(), 0);
                }
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if let (None, Some(c)) = (&f.default, self.con.fns.get(&self.key(Some(&tname), &f.sig.ident.to_string())).cloned()) {
                            if let syn::ReturnType::Type(_, t) = &f.sig.output {
                                let (s, e) = br(t.span());
                                self.edp(s, s, "(r: ", -30);
                                self.edp(e, e, ")", 30);
                            }
                            let (_, e) = br(f.sig.span());
                            self.edp(e, e, format!("\n{} ", c.spec), 40);
                            let k = self.key(Some(&tname), &f.sig.ident.to_string());
                            let (a, b) = br(f.span());
                            self.fns.push(json!({"key": k, "file": self.file, "lines": [line_of(self.text, a), line_of(self.text, b)], "status": "trait", "props": c.props, "nloops": 0, "contract_loops": 0, "requires": false}));
                        }
                    }
                }
            }
            other => self.drop_range(br(other.span()), "other item dropped"),
        }
    }
    fn opaque_type(&mut self, name: &str, r: (usize, usize)) {
        self.drop_range(r, "snafu error type replaced by an opaque unit struct");
        self.opaque.insert(name.to_string());
        self.extra.push_str(&format!("pub struct {name};\nimpl VFail for {name} {{ fn vfail() -> Self {{ {name} }} }}\n"));
    }
    fn clone_impl(&mut self, name: &str) {
        self.rule("derive(Clone) replaced by a trusted structural clone");
        self.extra.push_str(&format!(
            "impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
        ));
    }
    fn imp(&mut self, im: &syn::ItemImpl) {
        let ty = match &*im.self_ty {
            syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            _ => "?".into(),
        };
        if let Some((_, tr, _)) = &im.trait_ {
            let seg = tr.segments.last().unwrap();
            let t = seg.ident.to_string();
            if t == "Debug" || t == "Display" {
                self.drop_range(br(im.span()), "Debug/Display impl dropped");
                return;
            }
            let _ = t;
        }
        self.drop_attrs(&im.attrs);
        if let Some((_, tr, _)) = &im.trait_ {
            let k = format!("{} as {}", self.key(None, &ty), tr.segments.last().unwrap().ident);
            if let Some(i) = self.con.inject.get(&k) {
                let b = br(im.brace_token.span.open()).1;
                self.edp(b, b, i.clone(), 0);
            }
        }
        let opaque = self.opaque.contains(&ty);
        for ii in &im.items {
            match ii {
                syn::ImplItem::Fn(f) => {
                    let vis = if im.trait_.is_some() { None } else { Some(&f.vis) };
                    if opaque {
                        let (bs, be) = br(f.block.span());
                        let (s, _) = br(f.span());
                        self.rule("methods of opaque error types: body not verified");
                        self.edp(s, s, "#[verifier::external_body] ", -20);
                        self.drops.push((bs, be));
                        self.edp(be, be, "{ unimplemented!() }", 0);
                        continue;
                    }
                    self.func(Some(&ty), im.trait_.as_ref().map(|t| &t.1), &f.attrs, vis, &f.sig, &f.block, br(f.span()))
                }
                syn::ImplItem::Type(_) => {}
                o => self.drop_range(br(o.span()), "other impl item dropped"),
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn func(&mut self, ty: Option<&str>, _tr: Option<&syn::Path>, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, sig: &syn::Signature, block: &syn::Block, span: (usize, usize)) {
        let name = sig.ident.to_string();
        let mut key = self.key(ty, &name);
        if _tr.is_none() && self.conflicts.contains(&key) {
            key.push_str("~inherent");
        }
        let con = self.con.fns.get(&key).cloned();
        let flags = con.as_ref().map(|c| c.flags.clone()).unwrap_or_default();
        let quarantined = self.quar.contains(&key);
        let (sl, el) = (line_of(self.text, span.0), line_of(self.text, span.1));
        if flags.contains("drop") || quarantined && con.is_none() {
            self.fns.push(json!({"key": key, "file": self.file, "lines": [sl, el], "status": if quarantined {"quarantined"} else {"dropped"}, "props": con.map(|c| c.props).unwrap_or_default()}));
            self.drop_range(span, "function outside the verified set dropped");
            return;
        }
        self.drop_attrs(attrs);
        let fs = match &sig.asyncness {
            Some(a) => {
                let (s, e) = br(a.span());
                self.rule("async removed");
                self.ed(s, e, "");
                s
            }
            None => match &sig.constness {
                Some(c) => br(c.span()).0,
                None => br(sig.fn_token.span()).0,
            },
        };
        let at = match vis {
            Some(syn::Visibility::Inherited) | None => fs,
            Some(v) => br(v.span()).0,
        };
        if let Some(v) = vis {
            self.widen(v, fs);
        }
        let floaty = has_float(block.to_token_stream()) || has_float(sig.to_token_stream());
        if floaty {
            self.rule("functions computing with floats: body not sent to Verus (decided by Kani)");
        }
        let external = flags.contains("external") || quarantined || floaty;
        // loops
        let mut lv = LoopVisitor::default();
        lv.visit_block(block);
        let nloops = lv.loops.len();
        let mut pre = format!("/*@F:{key}@*/ ");
        if external {
            pre.push_str("#[verifier::external_body] ");
        }
        let mut conl = Contract::default();
        if let Some(c) = &con {
            conl = c.clone();
        }
        if nloops > 0 {
            pre.push_str("#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] ");
        }
        if flags.contains("rlimit") {
            pre.push_str("#[verifier::rlimit(60)] ");
        }
        if flags.contains("spinoff") {
            pre.push_str("#[verifier::spinoff_prover] ");
        }
        self.edp(at, at, pre, -20);
        // params
        let mut names = vec![];
        let is_async = sig.asyncness.is_some();
        for a in &sig.inputs {
            match a {
                syn::FnArg::Receiver(r) => {
                    if is_async && r.reference.is_some() && r.mutability.is_none() {
                        let (s, e) = br(r.span());
                        self.rule("&self of an async method becomes &mut self (locks erased)");
                        self.ed(s, e, "&mut self");
                    }
                }
                syn::FnArg::Typed(t) => {
                    let n = match &*t.pat {
                        syn::Pat::Ident(i) => i.ident.to_string(),
                        _ => "_".into(),
                    };
                    names.push(n);
                    self.fix_type(&t.ty, ty.is_none());
                }
            }
        }
        // return type
        match &sig.output {
            syn::ReturnType::Type(_, t) => {
                let (s, e) = br(t.span());
                self.fix_type(t, false);
                self.edp(s, s, "(r: ", -30);
                self.edp(e, e, ")", 30);
            }
            syn::ReturnType::Default => {}
        }
        let subst = |t: &str| -> String {
            let mut t = t.to_string();
            for (i, n) in names.iter().enumerate().rev() {
                t = t.replace(&format!("${}", i + 1), n);
            }
            t
        };
        let (bs, be) = br(block.span());
        if con.is_some() && !conl.spec.trim().is_empty() {
            self.edp(bs, bs, format!("\n{} ", subst(&conl.spec)), 40);
        }
        if external {
            self.drops.push((bs, be));
            self.edp(be, be, format!("{{ unimplemented!() }} /*@E:{key}@*/"), 50);
        } else {
            let mut beg = subst(&conl.begin);
            let mut lits = BTreeSet::new();
            short_lits(block.to_token_stream(), &mut lits);
            for l in lits {
                beg.push_str(&format!(" proof {{ reveal_strlit({l}); }}"));
                self.rule("reveal_strlit added for address-like string literals");
            }
            if self.vacuity && con.is_some() {
                beg = "proof { assert(false); }".into();
            }
            if !beg.trim().is_empty() {
                self.edp(bs + 1, bs + 1, format!(" {} ", beg), -40);
            }
            if !conl.end.trim().is_empty() {
                self.edp(be - 1, be - 1, format!(" {} ", subst(&conl.end)), 40);
            }
            for (i, l) in lv.loops.iter().enumerate() {
                if let Some((nm, inv)) = conl.loops.get(&i) {
                    if let (Some(nm), Some(ex)) = (nm, l.for_expr) {
                        self.edp(ex, ex, format!("{nm}: "), -10);
                    }
                    let inv = subst(inv).replace("$pat", l.pat.as_deref().unwrap_or("_"));
                    self.edp(l.body, l.body, format!("\n{} ", inv), 0);
                }
            }
            let socks: Vec<String> = sig
                .inputs
                .iter()
                .filter_map(|a| match a {
                    syn::FnArg::Typed(t) if t.ty.to_token_stream().to_string().contains("UdpSocket") => Some(t.pat.to_token_stream().to_string()),
                    _ => None,
                })
                .collect();
            let sock = if socks.len() == 1 { Some(socks[0].clone()) } else { None };
            self.body_rules(block, &key, is_async, sock);
            self.edp(be, be, format!(" /*@E:{key}@*/"), 50);
        }
        if let Some((params, tc)) = self.con.tasks.get(&key).cloned() {
            self.task(&key, &params, &tc, block, be);
        }
        self.fns.push(json!({
            "key": key, "file": self.file, "lines": [sl, el], "ty": ty,
            "status": if quarantined {"quarantined"} else if external {"external"} else if con.is_some() {"contracted"} else {"uncontracted"},
            "props": conl.props, "nloops": nloops, "contract_loops": conl.nloops.unwrap_or(0),
            "requires": conl.spec.contains("requires"),
        }));
    }

    fn task(&mut self, key: &str, params: &str, tc: &Contract, block: &syn::Block, at: usize) {
        let mut sf = SpawnFinder::default();
        sf.visit_block(block);
        if sf.found.len() != 1 {
            return; // reported as missing
        }
        let (lets, body) = sf.found.pop().unwrap();
        let tkey = format!("{key}__task");
        let (sl, el) = (line_of(self.text, br(body.span()).0), line_of(self.text, br(body.span()).1));
        let quarantined = self.quar.contains(&tkey);
        let mut lv = LoopVisitor::default();
        lv.visit_block(body);
        self.fns.push(json!({"key": tkey, "file": self.file, "lines": [sl, el], "ty": Value::Null,
            "status": if quarantined {"quarantined"} else {"contracted"}, "props": tc.props, "nloops": lv.loops.len(),
            "contract_loops": tc.nloops.unwrap_or(0), "requires": tc.spec.contains("requires")}));
        if quarantined {
            return;
        }
        self.rule("body of a spawned task lifted into a function of its own over the captured variables (Arc clones are the shared object)");
        let range = br(body.span());
        let name = tkey.rsplit("::").next().unwrap();
        let mut head = format!("\nfn {name}_ty({}) {{ }}\n/*@F:{tkey}@*/ #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn {name}({}) {} {{ ", params.trim().replace('\n', " ").replace("&mut ", "&").replace("Owned<", "VMutex<"), params.trim().replace('\n', " "), tc.spec.replace('\n', " "));
        if self.vacuity {
            head.push_str("proof { assert(false); } ");
        } else {
            head.push_str(&tc.begin.replace('\n', " "));
        }
        for l in lets {
            // let x = x.clone(): the captured object itself
            let t = l.to_token_stream().to_string().replace(' ', "").replace("let", "").replace("mut", "");
            let same = t.trim_end_matches(';').split_once('=').map_or(false, |(a, b)| b == format!("{a}.clone()") || b == format!("Arc::clone(&{a})"));
            if same {
                continue;
            }
            let (s, e) = br(l.span());
            head.push_str(&self.text[s..e]);
        }
        // the statements of the task, in a block of their own
        let mut bv = BindVisitor::default();
        bv.visit_block(body);
        let refs: BTreeSet<String> = bv.refs.difference(&bv.vals).cloned().collect();
        let mut v = BodyVisitor { is_async: true, locks: BTreeSet::new(), edp_marks: vec![], refs, eds: vec![], rules: vec![], drops: vec![], loop_depth: vec![], tail_loop: None, text: self.text, modpath: &self.modpath, key: &tkey, pinned: BTreeMap::new(), captured: params.split(',').filter_map(|p| p.split_once(':').map(|x| x.0.trim().to_string())).collect(), prologue: vec![], sock: None, nlocks: 0, waits: None };
        v.visit_block(body);
        let (mut eds, rules, drops) = (v.eds, v.rules, v.drops);
        for (i, l) in lv.loops.iter().enumerate() {
            if let Some((nm, inv)) = tc.loops.get(&i) {
                if let (Some(nm), Some(ex)) = (nm, l.for_expr) {
                    eds.push(Ed { start: ex, end: ex, text: format!("{nm}: "), prio: -10 });
                }
                let inv = inv.replace("$pat", l.pat.as_deref().unwrap_or("_"));
                eds.push(Ed { start: l.body, end: l.body, text: format!("\n{} ", inv.replace('\n', " ")), prio: 0 });
            }
        }
        for r in rules {
            self.rule(&r)
        }
        self.tasks.push(TaskOut { at, range, head, tail: format!("; {} }} /*@E:{tkey}@*/", tc.end), eds, drops });
    }

    /// expression-level rules
    fn body_rules(&mut self, block: &syn::Block, key: &str, is_async: bool, sock: Option<String>) {
        let mut bv = BindVisitor::default();
        bv.visit_block(block);
        let refs: BTreeSet<String> = bv.refs.difference(&bv.vals).cloned().collect();
        let mut v = BodyVisitor { is_async, locks: BTreeSet::new(), edp_marks: vec![], refs, eds: vec![], rules: vec![], drops: vec![], loop_depth: vec![], tail_loop: None, text: self.text, modpath: &self.modpath, key, pinned: BTreeMap::new(), captured: BTreeSet::new(), prologue: vec![], sock, nlocks: 0, waits: deadline_receiver(block) };
        // tail loop of the function: `break EXPR` means `return EXPR`
        if let Some(syn::Stmt::Expr(syn::Expr::Loop(l), None)) = block.stmts.last() {
            v.tail_loop = Some(br(l.span()));
        }
        v.visit_block(block);
        let (eds, rules, drops, marks) = (v.eds, v.rules, v.drops, v.edp_marks);
        if !v.prologue.is_empty() {
            let at = br(block.span()).0 + 1;
            self.edp(at, at, format!(" {} ", v.prologue.join(" ")), -35);
        }
        self.eds.extend(eds);
        self.drops.extend(drops);
        let mut sp = String::from("()");
        if let Some((params, _)) = self.con.tasks.get(key) {
            let tkey = format!("{key}__task");
            let mut sf = SpawnFinder::default();
            sf.visit_block(block);
            if sf.found.len() == 1 && !self.quar.contains(&tkey) {
                // fixes the types of the captured variables
                let names: Vec<String> = params.split(',').filter_map(|p| p.split_once(':').map(|x| format!("&{}", x.0.trim()))).collect();
                sp = format!("Self::{}_ty({})", tkey.rsplit("::").next().unwrap(), names.join(", "));
            }
        }
        for m in marks {
            self.edp(m, m, sp.clone(), 0);
        }
        for r in rules {
            self.rule(&r)
        }
    }

    /// token-level rules on the whole file
    fn token_rules(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        for i in 0..toks.len() {
            if let TokenTree::Group(g) = &toks[i] {
                self.token_rules(g.stream());
            }
            if let (Some(TokenTree::Punct(p)), Some(TokenTree::Ident(id))) = (toks.get(i), toks.get(i + 1)) {
                if p.as_char() == ':' && (id == "from_be_bytes" || id == "from_le_bytes") {
                    let (s, e) = br(id.span());
                    self.ed(s, e, format!("v{id}"));
                }
                if p.as_char() == '.' {
                    let n = id.to_string();
                    let follow = match toks.get(i + 2) {
                        Some(TokenTree::Group(g)) => g.delimiter() == Delimiter::Parenthesis,
                        Some(TokenTree::Punct(p)) => p.as_char() == ':' && p.spacing() == Spacing::Joint,
                        _ => false,
                    };
                    if n == "await" {
                        self.rule(".await removed");
                        let s = br(p.span()).0;
                        let e = br(id.span()).1;
                        self.ed(s, e, "");
                    } else if follow && ["parse", "split", "contains", "extend", "retain", "to_be_bytes", "to_le_bytes"].contains(&n.as_str()) {
                        let (s, e) = br(id.span());
                        self.rule("str::parse/split/contains, Vec::extend/retain, to_/from_be/le_bytes renamed to their prelude models (v...)");
                        self.ed(s, e, format!("v{n}"));
                    }
                }
            }
        }
    }

    fn render(&mut self) -> String {
        for t in std::mem::take(&mut self.tasks) {
            let inside = |a: usize, b: usize| a >= t.range.0 && b <= t.range.1;
            let mut eds: Vec<Ed> = self.eds.iter().filter(|e| inside(e.start, e.end)).cloned().collect();
            eds.extend(t.eds);
            let body = self.render_range(t.range, &eds, &t.drops);
            self.edp(t.at, t.at, format!("{}{}{}", t.head, body, t.tail), 60);
        }
        self.render_range((0, self.text.len()), &self.eds, &self.drops)
    }
    fn render_range(&self, range: (usize, usize), eds: &[Ed], drops: &[(usize, usize)]) -> String {
        let mut eds: Vec<Ed> = eds
            .iter()
            .filter(|e| {
                !drops.iter().any(|d| {
                    if e.start == e.end {
                        // zero-width: strictly inside only, or at the start with negative priority
                        (e.start > d.0 && e.start < d.1) || (e.start == d.0 && e.start < d.1 && e.prio <= 0 && d.1 - d.0 > 0 && e.prio > -20 && false)
                    } else {
                        e.start >= d.0 && e.end <= d.1
                    }
                })
            })
            .cloned()
            .collect();
        for d in drops {
            // nested drops: skip those inside a larger one
            if drops.iter().any(|o| o != d && o.0 <= d.0 && o.1 >= d.1) {
                continue;
            }
            let nl = self.text[d.0..d.1].matches('\n').count();
            eds.push(Ed { start: d.0, end: d.1, text: "\n".repeat(nl), prio: 0 });
        }
        eds.sort_by(|a, b| a.start.cmp(&b.start).then((a.end).cmp(&b.end)).then(a.prio.cmp(&b.prio)));
        let mut out = String::new();
        let mut pos = range.0;
        for e in &eds {
            if e.start < pos {
                continue; // overlapped by an earlier edit
            }
            out.push_str(&self.text[pos..e.start]);
            out.push_str(&e.text);
            pos = e.end;
        }
        out.push_str(&self.text[pos..range.1]);
        out
    }
}

struct LoopInfo {
    body: usize,
    for_expr: Option<usize>,
    pat: Option<String>,
}
#[derive(Default)]
struct LoopVisitor {
    loops: Vec<LoopInfo>,
}
impl<'ast> Visit<'ast> for LoopVisitor {
    fn visit_expr_while(&mut self, n: &'ast syn::ExprWhile) {
        self.loops.push(LoopInfo { body: br(n.body.span()).0, for_expr: None, pat: None });
        syn::visit::visit_expr_while(self, n);
    }
    fn visit_expr_loop(&mut self, n: &'ast syn::ExprLoop) {
        self.loops.push(LoopInfo { body: br(n.body.span()).0, for_expr: None, pat: None });
        syn::visit::visit_expr_loop(self, n);
    }
    fn visit_expr_for_loop(&mut self, n: &'ast syn::ExprForLoop) {
        self.loops.push(LoopInfo { body: br(n.body.span()).0, for_expr: Some(br(n.expr.span()).0), pat: Some(n.pat.to_token_stream().to_string()) });
        syn::visit::visit_expr_for_loop(self, n);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

#[derive(Default)]
struct BindVisitor {
    refs: BTreeSet<String>,
    vals: BTreeSet<String>,
}
impl BindVisitor {
    fn pat(&mut self, p: &syn::Pat, isref: bool) {
        struct P(Vec<String>);
        impl<'a> Visit<'a> for P {
            fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
                self.0.push(i.ident.to_string());
                syn::visit::visit_pat_ident(self, i);
            }
        }
        let mut v = P(vec![]);
        v.visit_pat(p);
        for n in v.0 {
            if isref {
                self.refs.insert(n);
            } else {
                self.vals.insert(n);
            }
        }
    }
}
impl<'ast> Visit<'ast> for BindVisitor {
    fn visit_arm(&mut self, n: &'ast syn::Arm) {
        self.pat(&n.pat, true);
        syn::visit::visit_arm(self, n);
    }
    fn visit_expr_let(&mut self, n: &'ast syn::ExprLet) {
        self.pat(&n.pat, true);
        syn::visit::visit_expr_let(self, n);
    }
    fn visit_local(&mut self, n: &'ast syn::Local) {
        let r = match (&n.pat, &n.init) {
            (syn::Pat::Type(_), _) => false,
            (syn::Pat::Ident(i), Some(e)) => i.mutability.is_none() && matches!(&*e.expr, syn::Expr::Try(_) | syn::Expr::MethodCall(_)),
            (_, Some(_)) => true,
            _ => false,
        };
        self.pat(&n.pat, r);
        syn::visit::visit_local(self, n);
    }
    fn visit_expr_for_loop(&mut self, n: &'ast syn::ExprForLoop) {
        self.pat(&n.pat, !matches!(&*n.expr, syn::Expr::Range(_)));
        syn::visit::visit_expr_for_loop(self, n);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

fn has_ident(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Group(g) => has_ident(g.stream(), name),
        TokenTree::Ident(i) => i == name,
        _ => false,
    })
}

struct BodyVisitor<'b> {
    is_async: bool,
    locks: BTreeSet<String>,
    edp_marks: Vec<usize>,
    refs: BTreeSet<String>,
    eds: Vec<Ed>,
    drops: Vec<(usize, usize)>,
    rules: Vec<String>,
    loop_depth: Vec<bool>,
    tail_loop: Option<(usize, usize)>,
    text: &'b str,
    modpath: &'b str,
    key: &'b str,
    pinned: BTreeMap<String, String>,
    /// variables captured by a task
    captured: BTreeSet<String>,
    /// bindings evaluated at function entry
    prologue: Vec<String>,
    /// the one parameter that is a socket
    sock: Option<String>,
    /// guards bound so far
    nlocks: usize,
    /// the one receiver whose messages are awaited until a deadline
    waits: Option<String>,
}
impl<'b> BodyVisitor<'b> {
    /// a duration self.f() is evaluated at function entry
    fn at_entry(&mut self, a: usize, b: usize) -> Option<String> {
        let d = self.text[a..b].to_string();
        if d.starts_with("self.") && !d.contains("await") && d.chars().all(|c| c.is_alphanumeric() || "_.()".contains(c)) {
            let v = format!("vdl{}", self.prologue.len());
            self.prologue.push(format!("let {v} = {d};"));
            self.rules.push("a deadline self.f() is evaluated at function entry (what &self reads outside a lock does not change)".into());
            return Some(v);
        }
        None
    }
    fn ed(&mut self, s: usize, e: usize, t: &str) {
        self.eds.push(Ed { start: s, end: e, text: t.into(), prio: 0 })
    }
}
impl<'b, 'ast> Visit<'ast> for BodyVisitor<'b> {
    fn visit_expr_loop(&mut self, n: &'ast syn::ExprLoop) {
        let t = self.tail_loop == Some(br(n.span()));
        self.loop_depth.push(t);
        syn::visit::visit_expr_loop(self, n);
        self.loop_depth.pop();
    }
    fn visit_expr_while(&mut self, n: &'ast syn::ExprWhile) {
        self.loop_depth.push(false);
        syn::visit::visit_expr_while(self, n);
        self.loop_depth.pop();
    }
    fn visit_expr_for_loop(&mut self, n: &'ast syn::ExprForLoop) {
        self.loop_depth.push(false);
        syn::visit::visit_expr_for_loop(self, n);
        self.loop_depth.pop();
    }
    fn visit_expr_break(&mut self, n: &'ast syn::ExprBreak) {
        if n.expr.is_some() && n.label.is_none() && self.loop_depth.last() == Some(&true) {
            let (s, e) = br(n.break_token.span());
            self.rules.push("`break EXPR` of the function's tail loop written as `return EXPR`".into());
            self.ed(s, e, "return");
        }
        syn::visit::visit_expr_break(self, n);
    }
    fn visit_expr_binary(&mut self, n: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(n.op, Add(_)) && self.waits.is_some() && is_now(&n.left) {
            let (a0, b0) = br(n.right.span());
            if let Some(v) = self.at_entry(a0, b0) {
                self.ed(a0, b0, &v);
                self.visit_expr(&n.left);
                return;
            }
        }
        if matches!(n.op, Eq(_) | Ne(_)) {
            if let syn::Expr::Call(c) = &*n.right {
                if let (syn::Expr::Path(p), Some(syn::Expr::Reference(rf))) = (&*c.func, c.args.first()) {
                    let arr = match &*rf.expr {
                        syn::Expr::Array(_) => true,
                        syn::Expr::Macro(m) => m.mac.path.is_ident("vec"),
                        _ => false,
                    };
                    if p.path.is_ident("Some") && arr {
                        let (ls, le) = br(n.left.span());
                        let (as_, ae) = br(c.args[0].span());
                        let (_, re) = br(n.right.span());
                        self.ed(ls, ls, if matches!(n.op, Eq(_)) { "vopt_eq(" } else { "!vopt_eq(" });
                        self.ed(le, as_, ", ");
                        self.ed(ae, re, ")");
                        self.rules.push("E == Some(&[..]) written as vopt_eq(E, &[..])".into());
                    }
                }
            }
        }
        if matches!(n.op, Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | BitXor(_) | BitAnd(_) | BitOr(_) | Shl(_) | Shr(_)) {
            for o in [&n.left, &n.right] {
                if let syn::Expr::Path(p) = &**o {
                    if let Some(i) = p.path.get_ident() {
                        if self.refs.contains(&i.to_string()) {
                            let (_, e) = br(o.span());
                            self.rules.push("integer operand bound by a pattern read through .vd() (same value, whether bound by value or by reference)".into());
                            self.ed(e, e, ".vd()");
                        }
                    }
                }
            }
        }
        syn::visit::visit_expr_binary(self, n);
    }
    fn visit_block(&mut self, n: &'ast syn::Block) {
        // let V = CALL; pin!(V);   or   let mut V = Box::pin(CALL) / pin!(CALL)
        for (i, st) in n.stmts.iter().enumerate() {
            let syn::Stmt::Local(l) = st else { continue };
            let (syn::Pat::Ident(id), Some(init)) = (&l.pat, &l.init) else { continue };
            let v = id.ident.to_string();
            let pin_next = match n.stmts.get(i + 1) {
                Some(syn::Stmt::Macro(m)) if m.mac.path.segments.last().unwrap().ident == "pin" && m.mac.tokens.to_string() == v => Some(br(m.span())),
                _ => None,
            };
            let call = match &*init.expr {
                syn::Expr::Call(c) if c.func.to_token_stream().to_string().replace(' ', "") == "Box::pin" && c.args.len() == 1 => Some(br(c.args[0].span())),
                syn::Expr::Macro(m) if m.mac.path.segments.last().unwrap().ident == "pin" => {
                    let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    if t.is_empty() { None } else { Some(tts(&t).1) }
                }
                e if pin_next.is_some() => Some(br(e.span())),
                _ => None,
            };
            if let Some((s, e)) = call {
                self.pinned.insert(v, self.text[s..e].to_string());
                self.drops.push(br(l.span()));
                if let Some(r) = pin_next {
                    self.drops.push(r);
                }
                self.rules.push("a pinned future is run where select! awaits it to completion".into());
            }
        }
        syn::visit::visit_block(self, n);
    }
    fn visit_expr_match(&mut self, n: &'ast syn::ExprMatch) {
        if self.is_async {
            let used: Vec<String> = self.locks.iter().filter(|l| has_ident(n.expr.to_token_stream(), l)).cloned().collect();
            let borrowing = ["as_ref", "as_mut", "iter", "get", "first", "last"].iter().any(|m| has_ident(n.expr.to_token_stream(), m));
            if !used.is_empty() && !borrowing {
                for a in &n.arms {
                    let (s, e) = br(a.body.span());
                    let t: String = used.iter().map(|u| format!("vtouch({u}); ")).collect();
                    self.eds.push(Ed { start: s, end: s, text: format!("{{ {t}"), prio: -15 });
                    self.eds.push(Ed { start: e, end: e, text: " }".into(), prio: 15 });
                    self.rules.push("match arms over a lock guard start with the verified no-op vtouch(guard) (keeps the borrow alive)".into());
                }
            }
        }
        syn::visit::visit_expr_match(self, n);
    }
    fn visit_expr_call(&mut self, n: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*n.func {
            let f = p.path.to_token_stream().to_string().replace(' ', "");
            if (f == "timeout" || f == "tokio::time::timeout") && n.args.len() == 2 {
                // timeout(D, FUT): either the deadline passes first (FUT is dropped without effect) or FUT completes
                let (s, e) = br(n.span());
                let (a1, b1) = br(n.args[1].span());
                let who = match &n.args[1] {
                    syn::Expr::MethodCall(m) if m.method == "recv" => match &*m.receiver {
                        syn::Expr::Path(p) => Some(p.path.to_token_stream().to_string().replace(' ', "")),
                        _ => None,
                    },
                    _ => None,
                };
                let blk = match &n.args[1] {
                    syn::Expr::Async(a) => waits_on(&a.block).map(|x| (x, &a.block)),
                    _ => None,
                };
                if matches!(&n.args[1], syn::Expr::Async(_)) {
                    // a deadline over a block that does nothing but receive from X
                    let Some((x, b)) = blk else { return };
                    let (a0, b0) = br(n.args[0].span());
                    let (s2, e2) = br(b.span());
                    self.ed(s, a0, &format!("(if {x}.vcut("));
                    self.ed(b0, s2, ") { Err(Elapsed) } else { Ok(");
                    self.ed(e2, e, ") })");
                    self.rules.push("timeout(D, async { .. receive from X .. }) written as a choice between Err(Elapsed) after some messages, recorded with D in X's log, and Ok(the block)".into());
                    syn::visit::visit_expr(self, &n.args[0]);
                    self.visit_block(b);
                    return;
                }
                if let Some(x) = who {
                    // the deadline that passed is recorded in the log of what was waited for
                    let (a0, b0) = br(n.args[0].span());
                    if let Some(v) = self.at_entry(a0, b0) {
                        self.drops.push((a0, b0));
                        self.ed(s, a0, &format!("(if {x}.vlate({v}"));
                    } else {
                        self.ed(s, a0, &format!("(if {x}.vlate("));
                    }
                    self.ed(b0, a1, ") { Err(Elapsed) } else { Ok(");
                    self.ed(b1, e, ") })");
                    self.rules.push("timeout(D, X.recv(..)) written as a choice between Err(Elapsed), recorded with D in X's log, and Ok(X.recv(..))".into());
                    syn::visit::visit_expr(self, &n.args[0]);
                } else {
                    self.ed(s, a1, "(if vnondet() { Err(Elapsed) } else { Ok(");
                    self.ed(b1, e, ") })");
                    self.rules.push("timeout(D, FUT) written as a choice between Err(Elapsed) and Ok(FUT): durations dropped".into());
                }
                syn::visit::visit_expr(self, &n.args[1]);
                return;
            } else if (f == "timeout_at" || f == "tokio::time::timeout_at") && n.args.len() == 2 {
                // timeout_at(T, X.recv()): either T passes first or X.recv() completes
                if let (Some(x), syn::Expr::MethodCall(m)) = (self.waits.clone(), &n.args[1]) {
                    if m.method == "recv" {
                        let (s, e) = br(n.span());
                        let (a0, b0) = br(n.args[0].span());
                        let (a1, b1) = br(n.args[1].span());
                        self.ed(s, a0, &format!("(if {x}.vlate_at("));
                        self.ed(b0, a1, ") { Err(Elapsed) } else { Ok(");
                        self.ed(b1, e, ") })");
                        self.rules.push("timeout_at(T, X.recv()) written as a choice between Err(Elapsed), recorded with T in X's log, and Ok(X.recv())".into());
                        self.visit_expr(&n.args[0]);
                        self.visit_expr(&n.args[1]);
                        return;
                    }
                }
            } else if (f == "Instant::now" || f == "tokio::time::Instant::now") && n.args.is_empty() {
                if let Some(x) = self.waits.clone() {
                    let (s, e) = br(n.span());
                    self.ed(s, e, &format!("{x}.vnow()"));
                    self.rules.push("Instant::now() is told by the number of messages received so far from the receiver that is waited for".into());
                    return;
                }
            } else if f == "tokio::spawn" || f == "spawn" {
                let (s, e) = br(n.span());
                self.drops.push((s, e));
                self.edp_marks.push(e);
                self.rules.push("tokio::spawn(TASK) removed from the spawning function (the task body is its own obligation or listed as not covered)".into());
                return;
            } else if (f == "sleep" || f == "tokio::time::sleep") && n.args.len() == 1 {
                let (s, e) = br(n.span());
                if let Some(x) = self.sock.clone() {
                    let (a0, _) = br(n.args[0].span());
                    self.ed(s, a0, &format!("{x}.vrest("));
                    self.rules.push("sleep(D) in a function over one socket written as a pause recorded in the socket's log".into());
                    syn::visit::visit_expr(self, &n.args[0]);
                    return;
                }
                self.ed(s, e, "()");
                self.rules.push("sleep(D) dropped".into());
                return;
            }
        }
        syn::visit::visit_expr_call(self, n);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_type(&mut self, n: &'ast syn::Type) {
        if let syn::Type::Path(p) = n {
            let seg = p.path.segments.last().unwrap();
            if seg.ident == "Mutex" && is_data(seg) {
                let (s, e) = (br(n.span()).0, br(seg.ident.span()).1);
                self.ed(s, e, "VMutex");
            } else if seg.ident == "Arc" || seg.ident == "Mutex" {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(syn::GenericArgument::Type(inner)) = a.args.first() {
                        let (s, e) = br(n.span());
                        let (is, ie) = br(inner.span());
                        self.ed(s, is, "");
                        self.ed(ie, e, "");
                        self.visit_type(inner);
                        return;
                    }
                }
            }
        }
        syn::visit::visit_type(self, n);
    }
    fn visit_local(&mut self, n: &'ast syn::Local) {
        if self.is_async {
            let p = match &n.pat {
                syn::Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let syn::Pat::Ident(i) = p {
                let it = n.init.as_ref().map_or(String::new(), |x| x.expr.to_token_stream().to_string().replace(' ', ""));
                if it.ends_with(".lock().await") || it.contains(".lock().await.") && !it.contains(".lock().await.clone()") && (it.ends_with(".clone()") || it.ends_with(".clone()}")) {
                    let (_, e) = br(n.semi_token.span());
                    let k = self.nlocks;
                    self.nlocks += 1;
                    self.ed(e, e, &format!(" let ghost vlk{k} = *{};", i.ident));
                    self.rules.push("ghost copy of what a lock gave added behind the binding of its guard".into());
                }
                if n.init.as_ref().map_or(false, |x| x.expr.to_token_stream().to_string().replace(' ', "").ends_with(".lock().await")) && !self.captured.contains(&i.ident.to_string()) {
                    self.locks.insert(i.ident.to_string());
                }
                if i.mutability.is_none() && i.by_ref.is_none() {
                    let (s, _) = br(i.ident.span());
                    self.ed(s, s, "mut ");
                    self.rules.push("let bindings of async functions made mut (locks and sockets take &mut self)".into());
                }
            }
        }
        syn::visit::visit_local(self, n);
    }
    fn visit_expr_reference(&mut self, n: &'ast syn::ExprReference) {
        if let syn::Expr::Path(p) = &*n.expr {
            if n.mutability.is_none() && p.path.get_ident().map_or(false, |i| self.captured.contains(&i.to_string())) {
                let (s, _) = br(n.span());
                let (es, _) = br(n.expr.span());
                self.ed(s, es, "&mut *");
                self.rules.push("& of a captured shared object written as a reborrow (locks and sockets take &mut self)".into());
            }
        }
        syn::visit::visit_expr_reference(self, n);
    }
    fn visit_pat_reference(&mut self, n: &'ast syn::PatReference) {
        if let syn::Pat::Ident(i) = &*n.pat {
            if i.by_ref.is_some() && i.subpat.is_none() {
                let (s, _) = br(n.span());
                let (is, _) = br(i.ident.span());
                self.ed(s, is, "");
                self.rules.push("pattern `&ref x` written as `x`".into());
            }
        }
        syn::visit::visit_pat_reference(self, n);
    }
    fn visit_expr_method_call(&mut self, n: &'ast syn::ExprMethodCall) {
        if n.method == "get" && n.args.len() == 1 {
            if let syn::Expr::Range(r) = &n.args[0] {
                if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(d)) = (&r.start, &r.end, &r.limits) {
                    let (s, e) = br(n.method.span());
                    self.ed(s, e, "vget_range");
                    let (ds, de) = br(d.span());
                    self.ed(ds, de, ", ");
                    let _ = (a, b);
                    self.rules.push("x.get(a..b) written as x.vget_range(a, b)".into());
                }
            }
        }
        syn::visit::visit_expr_method_call(self, n);
    }
    fn visit_expr_macro(&mut self, n: &'ast syn::ExprMacro) {
        self.mac(&n.mac, br(n.span()));
    }
    fn visit_stmt_macro(&mut self, n: &'ast syn::StmtMacro) {
        let (s, e) = br(n.mac.span());
        let _ = n;
        self.mac(&n.mac, (s, e));
    }
}
impl<'b> BodyVisitor<'b> {
    fn mac(&mut self, m: &syn::Macro, r: (usize, usize)) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name == "select" {
            let Some(arms) = select_arms(m.tokens.clone()) else { return };
            // select! { P = E => B, ... }  ->  if vnondet() { let P = E; B } else { ... }
            self.rules.push("select! written as a nondeterministic choice between its branches".into());
            let mut pos = r.0;
            let n = arms.len();
            // select! { P = X.recv(..) => A, _ = sleep(D) => B }: X was waited for with the deadline D
            let mut dead = None;
            if n == 2 {
                let ex: Vec<Option<syn::Expr>> = arms.iter().map(|a| syn::parse2::<syn::Expr>(a.expr_ts.clone()).ok()).collect();
                let recv = |e: &Option<syn::Expr>| match e {
                    Some(syn::Expr::MethodCall(m)) if m.method == "recv" => match &*m.receiver {
                        syn::Expr::Path(p) => Some(p.path.to_token_stream().to_string().replace(' ', "")),
                        _ => None,
                    },
                    _ => None,
                };
                let slp = |e: &Option<syn::Expr>| match e {
                    Some(syn::Expr::Call(c)) if c.args.len() == 1 && ["sleep", "tokio::time::sleep"].contains(&c.func.to_token_stream().to_string().replace(' ', "").as_str()) => {
                        let (a, b) = br(c.args[0].span());
                        Some(self.text[a..b].to_string())
                    }
                    _ => None,
                };
                for (i, j) in [(0, 1), (1, 0)] {
                    if let (Some(x), Some(d)) = (recv(&ex[i]), slp(&ex[j])) {
                        dead = Some(if i == 0 { format!("if !{x}.vlate({d}) {{ let ") } else { format!("if {x}.vlate({d}) {{ let ") });
                        self.rules.push("select! between X.recv(..) and sleep(D) written as a wait for X with the deadline D, recorded in X's log when it passed".into());
                    }
                }
            }
            for (i, a) in arms.iter().enumerate() {
                let head = if let (0, Some(d)) = (i, &dead) { d.as_str() } else if i == 0 { "if vnondet() { let " } else if i + 1 == n { " } else { let " } else { " } else if vnondet() { let " };
                self.ed(pos, a.pat.0, head);
                self.ed(a.pat.1, a.expr.0, " = ");
                self.ed(a.expr.1, a.body.0, "; ");
                pos = a.body.1;
                let et = a.expr_ts.to_string().replace(' ', "");
                if let Some(c) = et.strip_prefix("&mut").and_then(|v| self.pinned.get(v)).cloned() {
                    self.ed(a.expr.0, a.expr.1, &c);
                } else if let Ok(e) = syn::parse2::<syn::Expr>(a.expr_ts.clone()) {
                    self.visit_expr(&e);
                }
                if let Ok(e) = syn::parse2::<syn::Expr>(a.body_ts.clone()) {
                    self.visit_expr(&e);
                }
            }
            self.ed(pos, r.1, " }");
        }
    }
}
fn is_now(e: &syn::Expr) -> bool {
    let t = e.to_token_stream().to_string().replace(' ', "");
    t == "Instant::now()" || t == "tokio::time::Instant::now()"
}
/// the receiver X of all timeout_at(T, X.recv()) of a function
fn deadline_receiver(b: &syn::Block) -> Option<String> {
    #[derive(Default)]
    struct W(BTreeSet<String>);
    impl<'a> Visit<'a> for W {
        fn visit_expr_call(&mut self, n: &'a syn::ExprCall) {
            let f = n.func.to_token_stream().to_string().replace(' ', "");
            if f == "timeout_at" || f == "tokio::time::timeout_at" {
                match n.args.iter().nth(1) {
                    Some(syn::Expr::MethodCall(m)) if m.method == "recv" && matches!(&*m.receiver, syn::Expr::Path(_)) => self.0.insert(m.receiver.to_token_stream().to_string().replace(' ', "")),
                    _ => self.0.insert("?".into()),
                };
            }
            syn::visit::visit_expr_call(self, n);
        }
    }
    let mut w = W::default();
    w.visit_block(b);
    if w.0.len() == 1 && !w.0.contains("?") { w.0.into_iter().next() } else { None }
}
/// the receiver a block waits on, when receiving is all it does: the guard of X.lock() or X itself
fn waits_on(b: &syn::Block) -> Option<String> {
    #[derive(Default)]
    struct W {
        locks: BTreeSet<String>,
        recvs: BTreeSet<String>,
        bound: BTreeMap<String, String>,
        other: bool,
    }
    fn path(e: &syn::Expr) -> String {
        e.to_token_stream().to_string().replace(' ', "")
    }
    impl<'a> Visit<'a> for W {
        fn visit_local(&mut self, l: &'a syn::Local) {
            if let (syn::Pat::Ident(i), Some(x)) = (&l.pat, &l.init) {
                if let Some(p) = path(&x.expr).strip_suffix(".lock().await") {
                    self.bound.insert(i.ident.to_string(), p.to_string());
                }
            }
            syn::visit::visit_local(self, l);
        }
        fn visit_expr_await(&mut self, a: &'a syn::ExprAwait) {
            match &*a.base {
                syn::Expr::MethodCall(m) if m.method == "lock" => {
                    self.locks.insert(path(&m.receiver));
                }
                syn::Expr::MethodCall(m) if m.method == "recv" && m.args.is_empty() => {
                    let p = path(&m.receiver);
                    let p = p.strip_suffix(".lock().await").unwrap_or(&p).to_string();
                    self.recvs.insert(p);
                }
                _ => self.other = true,
            }
            syn::visit::visit_expr_await(self, a);
        }
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.other = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.other = true;
        }
        fn visit_expr_assign(&mut self, _: &'a syn::ExprAssign) {
            self.other = true;
        }
    }
    let mut w = W::default();
    w.visit_block(b);
    let who: BTreeSet<String> = w.recvs.iter().map(|r| w.bound.get(r).unwrap_or(r).clone()).collect();
    if w.other || who.len() != 1 || !w.locks.is_subset(&who) {
        return None;
    }
    who.into_iter().next()
}
struct SelArm {
    pat: (usize, usize),
    expr: (usize, usize),
    body: (usize, usize),
    expr_ts: TokenStream,
    body_ts: TokenStream,
}
fn tts(v: &[TokenTree]) -> (TokenStream, (usize, usize)) {
    let s = br(v[0].span()).0;
    let e = br(v[v.len() - 1].span()).1;
    (v.iter().cloned().collect(), (s, e))
}
fn select_arms(ts: TokenStream) -> Option<Vec<SelArm>> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    let isp = |x: Option<&TokenTree>, c: char| matches!(x, Some(TokenTree::Punct(p)) if p.as_char() == c);
    while i < t.len() {
        let p0 = i;
        while i < t.len() && !isp(t.get(i), '=') {
            i += 1;
        }
        if i >= t.len() || i == p0 {
            return None;
        }
        let (_, pat) = tts(&t[p0..i]);
        i += 1;
        let e0 = i;
        while i < t.len() && !(isp(t.get(i), '=') && isp(t.get(i + 1), '>')) {
            if matches!(t.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ',') {
                return None; // precondition arms are not handled
            }
            i += 1;
        }
        if i >= t.len() || i == e0 {
            return None;
        }
        let (expr_ts, expr) = tts(&t[e0..i]);
        i += 2;
        let b0 = i;
        if matches!(t.get(i), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace) {
            i += 1;
        } else {
            while i < t.len() && !isp(t.get(i), ',') {
                i += 1;
            }
        }
        if i == b0 {
            return None;
        }
        let (body_ts, body) = tts(&t[b0..i]);
        if isp(t.get(i), ',') {
            i += 1;
        }
        out.push(SelArm { pat, expr, body, expr_ts, body_ts });
    }
    if out.len() < 2 {
        return None;
    }
    Some(out)
}

fn bitflags_shim(ts: TokenStream) -> String {
    // struct NAME : u8 { const A = EXPR; ... }
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut name = String::from("Flags");
    let mut rep = String::from("u8");
    let mut consts: Vec<(String, String)> = vec![];
    for i in 0..toks.len() {
        if let TokenTree::Ident(id) = &toks[i] {
            if id == "struct" {
                name = toks[i + 1].to_string();
                if let Some(t) = toks.get(i + 3) {
                    rep = t.to_string();
                }
            }
        }
        if let TokenTree::Group(g) = &toks[i] {
            if g.delimiter() == Delimiter::Brace {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut j = 0;
                while j < inner.len() {
                    if let TokenTree::Ident(id) = &inner[j] {
                        if id == "const" {
                            let n = inner[j + 1].to_string();
                            let mut k = j + 3;
                            let mut e = String::new();
                            while k < inner.len() && inner[k].to_string() != ";" {
                                e.push_str(&inner[k].to_string());
                                e.push(' ');
                                k += 1;
                            }
                            consts.push((n, e));
                            j = k;
                        }
                    }
                    j += 1;
                }
            }
        }
    }
    let mask: u64 = consts
        .iter()
        .map(|(_, e)| {
            let t = e.trim().replace('_', "");
            if let Some(b) = t.strip_prefix("0b") {
                u64::from_str_radix(b, 2).unwrap_or(0)
            } else if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h, 16).unwrap_or(0)
            } else {
                t.parse().unwrap_or(0)
            }
        })
        .fold(0, |a, b| a | b);
    format!(
        "pub struct {name} {{ pub bits: {rep} }}\nimpl {name} {{\n pub open spec fn all_bits() -> {rep} {{ {mask} }}\n #[verifier::external_body] pub fn from_bits_truncate(b: {rep}) -> (r: Self) ensures r.bits == (b & Self::all_bits()) {{ unimplemented!() }}\n #[verifier::external_body] pub fn from_bits_retain(b: {rep}) -> (r: Self) ensures r.bits == b {{ unimplemented!() }}\n #[verifier::external_body] pub fn bits(&self) -> (r: {rep}) ensures r == self.bits {{ unimplemented!() }}\n}}\nimpl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
    )
}

fn has_float(ts: TokenStream) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Group(g) => has_float(g.stream()),
        TokenTree::Ident(i) => i == "f32" || i == "f64",
        TokenTree::Literal(l) => matches!(syn::parse_str::<syn::Lit>(&l.to_string()), Ok(syn::Lit::Float(_))),
        _ => false,
    })
}

fn short_lits(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => short_lits(g.stream(), out),
            TokenTree::Literal(l) => {
                if let Ok(syn::Lit::Str(s)) = syn::parse_str::<syn::Lit>(&l.to_string()) {
                    let v = s.value();
                    if !v.is_empty() && v.len() <= 12 && v.chars().all(|c| "0123456789./:+-".contains(c)) {
                        out.insert(format!("{v:?}"));
                    }
                }
            }
            _ => {}
        }
    }
}

/// Mutex<T> over plain data; a mutex over a receiver protects a handle
fn is_data(seg: &syn::PathSegment) -> bool {
    if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
        if let Some(syn::GenericArgument::Type(syn::Type::Path(p))) = a.args.first() {
            let n = p.path.segments.last().unwrap().ident.to_string();
            return !n.ends_with("Receiver");
        }
        return true;
    }
    false
}
fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
}
fn line_of(t: &str, off: usize) -> usize {
    t[..off].matches('\n').count() + 1
}

struct Global<'a> {
    con: &'a Contracts,
    quar: &'a BTreeSet<String>,
    vacuity: bool,
    fns: Vec<Value>,
    rules: BTreeMap<String, usize>,
    files: Vec<String>,
}

fn module(g: &mut Global, path: &Path, modpath: &str, root: &Path) -> String {
    let text = fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("kvx: cannot read {}: {e}", path.display());
        std::process::exit(3)
    });
    let file: syn::File = syn::parse_file(&text).unwrap_or_else(|e| {
        eprintln!("kvx: cannot parse {}: {e}", path.display());
        std::process::exit(3)
    });
    let rel = path.strip_prefix(root).unwrap().display().to_string();
    g.files.push(rel.clone());
    let mut fc = FileCtx {
        text: &text,
        modpath: modpath.to_string(),
        file: rel,
        eds: vec![],
        drops: vec![],
        con: g.con,
        quar: g.quar,
        vacuity: g.vacuity,
        fns: &mut g.fns,
        rules: &mut g.rules,
        extra: String::new(),
        opaque: BTreeSet::new(),
        conflicts: BTreeSet::new(),
        tasks: vec![],
    };
    {
        // an inherent method with the name of a trait method of the same type
        let (mut inh, mut tra) = (BTreeSet::new(), BTreeSet::new());
        for it in &file.items {
            if let syn::Item::Impl(im) = it {
                if let syn::Type::Path(p) = &*im.self_ty {
                    let ty = p.path.segments.last().unwrap().ident.to_string();
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let k = fc.key(Some(&ty), &f.sig.ident.to_string());
                            if im.trait_.is_some() { tra.insert(k); } else { inh.insert(k); }
                        }
                    }
                }
            }
        }
        fc.conflicts = inh.intersection(&tra).cloned().collect();
    }
    for a in &file.attrs {
        let r = br(a.span());
        fc.drop_range(r, "inner attributes dropped");
    }
    // opaque types first
    fc.items(&file.items);
    let ts: TokenStream = text.parse().unwrap();
    fc.token_rules(ts);
    let mut body = fc.render();
    let extra = std::mem::take(&mut fc.extra);
    let mut out = String::new();
    if !modpath.is_empty() {
        let name = modpath.rsplit("::").next().unwrap();
        out.push_str(&format!("pub mod {name} {{ #![allow(unused_imports)] use crate::vprelude::*; use crate::vspec::*; verus! {{ broadcast use {{crate::vprelude::group_kvx, crate::vspec::group_spec}}; /*@M:{modpath}@*/\n"));
    }
    out.push_str(&std::mem::take(&mut body));
    out.push('\n');
    out.push_str(&extra);
    if let Some(i) = g.con.items.get(modpath) {
        out.push_str(i);
    }
    if !modpath.is_empty() {
        out.push_str("} // verus!\n");
    }
    for it in &file.items {
        if let syn::Item::Mod(m) = it {
            if is_cfg_test(&m.attrs) || m.content.is_some() {
                continue;
            }
            let n = m.ident.to_string();
            let dir = if path.file_name().unwrap() == "lib.rs" || path.file_name().unwrap() == "mod.rs" { path.parent().unwrap().to_path_buf() } else { path.with_extension("") };
            let p1 = dir.join(format!("{n}.rs"));
            let p2 = dir.join(&n).join("mod.rs");
            let p = if p1.exists() { p1 } else { p2 };
            let mp = if modpath.is_empty() { n.clone() } else { format!("{modpath}::{n}") };
            if g.con.items.get(&format!("skip {mp}")).is_some() {
                continue;
            }
            out.push_str(&module(g, &p, &mp, root));
        }
    }
    if !modpath.is_empty() {
        out.push_str("}\n");
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--inline" {
        return inline::main(Path::new(&a[2]), Path::new(&a[3]), Path::new(&a[4]));
    }
    let repo = PathBuf::from(&a[1]);
    let con = parse_contracts(Path::new(&a[2]));
    let prelude = fs::read_to_string(&a[3]).unwrap();
    let mut quar = BTreeSet::new();
    let mut vacuity = false;
    let mut i = 6;
    while i < a.len() {
        if a[i] == "--quarantine" {
            quar.insert(a[i + 1].clone());
            i += 2;
        } else {
            if a[i] == "--vacuity" {
                vacuity = true;
            }
            i += 1;
        }
    }
    let mut g = Global { con: &con, quar: &quar, vacuity, fns: vec![], rules: BTreeMap::new(), files: vec![] };
    let body = module(&mut g, &repo.join("src/lib.rs"), "", &repo);
    let mut out = String::from("// generated by kvx from /repo/src - do not edit\n");
    out.push_str(&prelude);
    out.push_str(&body);
    let spec = con.items.get("vspec").cloned().unwrap_or_default();
    out.push_str("pub mod vspec { #![allow(unused_imports)] use crate::vprelude::*; use crate::packets::addresses::*; use crate::packets::apdu::*; use crate::packets::core::*; use crate::packets::emi::*; use crate::packets::tpdu::*; use crate::packets::tunneling::*; use crate::transport::udp::*; verus! { broadcast use crate::vprelude::group_kvx; /*@M:vspec@*/\n");
    out.push_str(&spec);
    out.push_str("\n} }\nfn main() {}\n");
    fs::write(&a[4], &out).unwrap();
    // positions of functions in the generated file
    let mut spans: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (ln, l) in out.lines().enumerate() {
        let mut rest = l;
        while let Some(p) = rest.find("/*@") {
            let r = &rest[p + 3..];
            if let Some(q) = r.find("@*/") {
                let m = &r[..q];
                if let Some(k) = m.strip_prefix("F:") {
                    spans.insert(k.to_string(), (ln + 1, usize::MAX));
                } else if let Some(k) = m.strip_prefix("E:") {
                    if let Some(s) = spans.get_mut(k) {
                        s.1 = ln + 1
                    }
                }
                rest = &r[q + 3..];
            } else {
                break;
            }
        }
    }
    for f in g.fns.iter_mut() {
        let k = f["key"].as_str().unwrap().to_string();
        if let Some(s) = spans.get(&k) {
            f["gen"] = json!([s.0, s.1]);
        }
    }
    let have: BTreeSet<String> = g.fns.iter().map(|f| f["key"].as_str().unwrap().to_string()).collect();
    let mut missing: Vec<Value> = con.fns.iter().filter(|(k, _)| !have.contains(*k)).map(|(k, c)| json!({"key": k, "props": c.props})).collect();
    missing.extend(con.tasks.iter().filter(|(k, _)| !have.contains(&format!("{k}__task"))).map(|(k, c)| json!({"key": format!("{k}__task"), "props": c.1.props})));
    let m = json!({"functions": g.fns, "rules": g.rules, "files": g.files, "missing": missing});
    fs::write(&a[5], serde_json::to_string_pretty(&m).unwrap()).unwrap();
}
