//! Mechanical extraction of /repo's Rust 2015 sources into one Verus file.
//!
//! usage: extract REPO OUT.rs MAP.json OVERLAY...
//!
//! The overlay files carry specifications only: raw ghost text, contracts keyed by function,
//! loop invariants keyed by loop number and proof hints.  Executable text comes from REPO.
//! Every rewriting rule applied to executable text is listed in /verif/DESIGN.md (section
//! "Extraction") and counted in MAP.json under "rules".
mod overlay;
mod rewrite;
mod fmt;

use overlay::*;
use proc_macro2::{Group, Ident, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use rewrite::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;

/// `try` is a keyword for syn but a macro in the 2015 edition
fn pre(ts: TokenStream, file: &str, ids: &BTreeMap<(String, String), String>) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), pre(g.stream(), file, ids));
                ng.set_span(g.span());
                TokenTree::Group(ng)
            }
            TokenTree::Ident(i) if i == "try" => TokenTree::Ident(Ident::new("vx_try", i.span())),
            TokenTree::Ident(i) => match ids.get(&(file.to_string(), i.to_string())) {
                Some(n) => TokenTree::Ident(Ident::new(n, i.span())),
                None => TokenTree::Ident(i),
            },
            x => x,
        })
        .collect()
}

/// structs, enums and impls declared inside function bodies move to the file level
/// (they cannot mention anything of the function)
struct Hoist(Vec<syn::Item>);
impl VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for s in stmts {
            match s {
                syn::Stmt::Item(i @ (syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Impl(_))) => self.0.push(i),
                s => b.stmts.push(s),
            }
        }
        syn::visit_mut::visit_block_mut(self, b);
    }
}

/// `try!(e)` -> `(e)?`, so that later steps see the code inside
struct TryFix;
impl VisitMut for TryFix {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        for s in b.stmts.iter_mut() {
            if let syn::Stmt::Macro(m) = s {
                if m.mac.path.is_ident("vx_try") {
                    if let Ok(x) = m.mac.parse_body::<syn::Expr>() {
                        let t: syn::Expr = syn::parse_quote!((#x)?);
                        *s = syn::Stmt::Expr(t, m.semi_token);
                    }
                }
            }
        }
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if m.mac.path.is_ident("vx_try") {
                if let Ok(x) = m.mac.parse_body::<syn::Expr>() {
                    *e = syn::parse_quote!((#x)?);
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

pub fn die(msg: String) -> ! {
    eprintln!("extract: {}", msg);
    std::process::exit(3)
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
    })
}

fn derives(attrs: &[syn::Attribute]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(i) = m.path.segments.last() {
                    s.insert(i.ident.to_string());
                }
                Ok(())
            });
        }
    }
    s
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

struct FlatTrait {
    item: syn::ItemTrait,
}

struct Out {
    text: String,
    fns: Vec<serde_free::FnRec>,
}

mod serde_free {
    pub struct FnRec {
        pub key: String,
        pub file: String,
        pub line: usize,
        pub contract: bool,
        pub props: Vec<String>,
        pub support: Vec<String>,
        pub lost_hints: Vec<String>,
        pub inlines: Vec<String>,
        pub calls: Vec<String>,
        pub loops: Vec<String>,
        pub bodyless: bool,
        /// contract only: verified in another unit
        pub imported: bool,
        pub overlay: String,
        pub last: usize,
    }
    pub fn jl(v: &[String]) -> String {
        format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "))
    }
    pub fn js(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\t' => o.push_str("\\t"),
                c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
}
use serde_free::*;

pub struct Ctx {
    pub ov: Overlay,
    pub rules: BTreeMap<String, usize>,
    pub used: BTreeSet<String>,
    /// (Type, method) pairs for which a flattened trait method clashes with an inherent one
    pub clash: BTreeSet<(String, String)>,
    pub fresh: usize,
    /// fields of structs, and whether the struct derives Clone
    pub structs: BTreeMap<String, (Vec<(String, syn::Type)>, bool)>,
    pub inlinable: BTreeMap<String, syn::ImplItemFn>,
    pub dropped: Vec<String>,
    pub inlined: BTreeSet<String>,
    pub macros: BTreeMap<String, (Vec<String>, TokenStream)>,
    /// names of extracted functions that have no contract and cannot be inlined
    pub opaque: BTreeSet<String>,
    /// functions reduced to their contract on this run (environment variable VX_BODYLESS)
    pub bodyless: BTreeSet<String>,
    /// overlays whose functions are verified on this run (environment variable VX_VERIFY; empty: all)
    pub verify: BTreeSet<String>,
}

impl Ctx {
    pub fn rule(&mut self, r: &str) {
        *self.rules.entry(r.to_string()).or_insert(0) += 1;
    }
}

fn strip_fn_attrs(f: &mut syn::ImplItemFn) {
    f.attrs.clear();
    f.vis = syn::Visibility::Inherited;
}

/// turn a free function into an impl-style function for uniform handling
fn free_to_impl(f: &syn::ItemFn) -> syn::ImplItemFn {
    syn::ImplItemFn {
        attrs: vec![],
        vis: syn::Visibility::Inherited,
        defaultness: None,
        sig: f.sig.clone(),
        block: (*f.block).clone(),
    }
}

fn emit_fn(ctx: &mut Ctx, key: &str, file: &str, mut f: syn::ImplItemFn, in_trait_impl: bool, out: &mut Out) {
    if ctx.ov.skip.contains(&format!("fn {}", key)) {
        ctx.used.insert(format!("skip fn {}", key));
        ctx.dropped.push(format!("fn {} ({})", key, file));
        return;
    }
    strip_fn_attrs(&mut f);
    let spec = ctx.ov.fns.get(key).cloned();
    let has = spec.is_some();
    if has {
        ctx.used.insert(format!("fn {}", key));
    }
    let mut spec = spec.unwrap_or_default();
    let bodyless = ctx.bodyless.contains(key);
    let imported = !bodyless && has && !ctx.verify.is_empty() && !ctx.verify.contains(&spec.overlay);
    let overlay = spec.overlay.clone();
    if bodyless || imported {
        // bodyless: outside the verifier's reach in its present form, only the contract is kept
        if bodyless {
            ctx.rule("bodyless");
        }
        spec = FnSpec { contract: spec.contract, ret: spec.ret, ret_ty: spec.ret_ty, props: spec.props, support: spec.support, ..Default::default() };
        if bodyless {
            // external_body here makes Verus forget axioms in some units
            f.block = syn::parse_quote!({ assume(false); vx_unreachable() });
        } else {
            spec.attrs.push("#[verifier::external_body]".into());
            f.block = syn::parse_quote!({ unimplemented!() });
        }
    }
    let before = ctx.inlined.clone();
    ctx.inlined.clear();
    let (has_loop, lost_hints, shape) = rewrite_fn(ctx, key, &mut f, &spec);
    let inlines: Vec<String> = ctx.inlined.iter().cloned().collect();
    ctx.inlined.extend(before);
    let sig = print_sig(ctx, &f.sig, &spec, in_trait_impl);
    let body = f.block.to_token_stream();
    out.text.push_str(&format!("//#FN {} @ {}\n", key, file));
    let line = out.text.lines().count() + 1;
    if has_loop {
        out.text.push_str("#[verifier::loop_isolation(false)]\n");
    }
    if !spec.attrs.iter().any(|a| a.contains("external_body")) {
        // a solver of its own: no function's proof depends on what was proved before it
        out.text.push_str("#[verifier::spinoff_prover]\n");
    }
    for a in &spec.attrs {
        out.text.push_str(&format!("{}\n", a));
    }
    out.text.push_str(&fmt::fmt(&sig));
    out.text.push('\n');
    out.text.push_str(&spec.contract);
    out.text.push('\n');
    if spec.external_body {
        out.text.push_str(&fmt::fmt(&body));
    } else {
        out.text.push_str(&fmt::fmt(&body));
    }
    out.text.push_str("\n//#END\n");
    let last = out.text.lines().count();
    out.fns.push(FnRec { key: key.to_string(), file: file.to_string(), line, contract: has, props: spec.props, support: spec.support, lost_hints, inlines, calls: shape.calls.into_iter().collect(), loops: shape.loops, bodyless, imported, overlay, last });
}

fn print_sig(ctx: &mut Ctx, sig: &syn::Signature, spec: &FnSpec, _in_trait_impl: bool) -> TokenStream {
    let name = &sig.ident;
    let gen = &sig.generics;
    let (ig, wc) = (quote!(#gen), &gen.where_clause);
    let inputs = &sig.inputs;
    let ret = match &sig.output {
        syn::ReturnType::Default => quote!(),
        syn::ReturnType::Type(_, t) => {
            let r = format_ident!("{}", spec.ret.clone().unwrap_or_else(|| "r".into()));
            if let Some(rt) = &spec.ret_ty {
                ctx.rule("concrete-return-type");
                let rt: TokenStream = rt.parse().unwrap();
                quote!(-> (#r: #rt))
            } else {
                quote!(-> (#r: #t))
            }
        }
    };
    quote!(fn #name #ig (#inputs) #ret #wc)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--literals" {
        return literals(&args[2]);
    }
    if args.len() < 5 {
        die("usage: extract REPO OUT MAP OVERLAY...".into());
    }
    let repo = &args[1];
    let ov = Overlay::load(&args[4..]);
    let mut ctx = Ctx {
        ov,
        rules: BTreeMap::new(),
        used: BTreeSet::new(),
        clash: BTreeSet::new(),
        fresh: 0,
        structs: BTreeMap::new(),
        inlinable: BTreeMap::new(),
        dropped: vec![],
        inlined: BTreeSet::new(),
        macros: BTreeMap::new(),
        opaque: BTreeSet::new(),
        bodyless: std::env::var("VX_BODYLESS").unwrap_or_default().split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
        verify: std::env::var("VX_VERIFY").unwrap_or_default().split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
    };
    let mut out = Out { text: String::new(), fns: vec![] };
    out.text.push_str("// generated by /verif/tools/extract, do not edit\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, non_snake_case, unused_parens, unused_braces, unreachable_code)]\n");
    out.text.push_str("use vstd::prelude::*;\n");
    for u in ctx.ov.uses.clone() {
        out.text.push_str(&format!("{}\n", u));
    }
    out.text.push_str("verus! {\n");
    let files = ctx.ov.files.clone();
    // pass 1: parse everything
    let mut parsed: Vec<(String, syn::File)> = vec![];
    for f in &files {
        let path = format!("{}/{}", repo, f);
        let src = std::fs::read_to_string(&path).unwrap_or_else(|e| die(format!("lost anchor: {}: {}", path, e)));
        let ts: TokenStream = src.parse().unwrap_or_else(|e| die(format!("{}: lex error {}", f, e)));
        let mut file = syn::parse2::<syn::File>(pre(ts, f, &ctx.ov.idents)).unwrap_or_else(|e| die(format!("{}: parse error {}", f, e)));
        let mut h = Hoist(vec![]);
        h.visit_file_mut(&mut file);
        for it in h.0 {
            ctx.rule("hoist-nested-item");
            file.items.push(it);
        }
        TryFix.visit_file_mut(&mut file);
        parsed.push((f.clone(), file));
    }
    for (_, file) in &parsed {
        for it in &file.items {
            if let syn::Item::Struct(s) = it {
                let fs = s.fields.iter().filter_map(|x| x.ident.as_ref().map(|i| (i.to_string(), x.ty.clone()))).collect();
                ctx.structs.insert(s.ident.to_string(), (fs, derives(&s.attrs).contains("Clone")));
            }
            if let syn::Item::Macro(m) = it {
                if let Some((n, d)) = macro_def(m) {
                    ctx.macros.insert(n, d);
                }
            }
        }
    }
    // flattened traits, keyed by (directory of file, trait name)
    let dir = |f: &str| f.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
    let mut flats: Vec<(String, String, FlatTrait)> = vec![];
    let mut inherent: BTreeSet<(String, String)> = BTreeSet::new();
    for (f, file) in &parsed {
        for it in &file.items {
            match it {
                syn::Item::Trait(t) if ctx.ov.flatten.contains(&t.ident.to_string()) => {
                    flats.push((dir(f), t.ident.to_string(), FlatTrait { item: t.clone() }));
                }
                syn::Item::Impl(i) if i.trait_.is_none() && !is_cfg_test(&i.attrs) => {
                    for m in &i.items {
                        if let syn::ImplItem::Fn(m) = m {
                            inherent.insert((type_name(&i.self_ty), m.sig.ident.to_string()));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    // clashes and candidates for inlining
    for (f, file) in &parsed {
        for it in &file.items {
            if let syn::Item::Impl(i) = it {
                if is_cfg_test(&i.attrs) {
                    continue;
                }
                let ty = type_name(&i.self_ty);
                if let Some((_, tp, _)) = &i.trait_ {
                    let tn = tp.segments.last().unwrap().ident.to_string();
                    if ctx.ov.flatten.contains(&tn) {
                        for m in &i.items {
                            if let syn::ImplItem::Fn(m) = m {
                                let k = (ty.clone(), m.sig.ident.to_string());
                                if inherent.contains(&k) {
                                    ctx.clash.insert(k);
                                }
                            }
                        }
                    }
                } else if !ctx.ov.skip.contains(&format!("impl {}", ty)) {
                    for m in &i.items {
                        if let syn::ImplItem::Fn(m) = m {
                            let key = format!("{}::{}", ty, m.sig.ident);
                            if !ctx.ov.fns.contains_key(&key) && !ctx.ov.skip.contains(&format!("fn {}", key)) {
                                ctx.inlinable.insert(key, m.clone());
                            }
                        }
                    }
                }
            }
            if let syn::Item::Fn(g) = it {
                let key = g.sig.ident.to_string();
                if !is_cfg_test(&g.attrs) && !ctx.ov.fns.contains_key(&key) && !ctx.ov.skip.contains(&format!("fn {}", key)) {
                    ctx.inlinable.insert(key, free_to_impl(g));
                }
            }
        }
        let _ = f;
    }
    let before: Vec<String> = ctx.inlinable.keys().cloned().collect();
    prune_inlinable(&mut ctx);
    for k in before {
        if !ctx.inlinable.contains_key(&k) {
            ctx.opaque.insert(k.rsplit("::").next().unwrap().to_string());
        }
    }
    // pass 2: emit
    for sec in ctx.ov.order.clone() {
        match sec {
            Section::Raw(t) => {
                out.text.push_str(&t);
                out.text.push('\n');
            }
            Section::File(f) => {
                let file = parsed.iter().find(|(n, _)| *n == f).unwrap().1.clone();
                out.text.push_str(&format!("\n// ==== {} ====\n", f));
                for it in file.items {
                    emit_item(&mut ctx, &f, it, &flats, &dir(&f), &mut out);
                }
            }
        }
    }
    out.text.push_str("\n} // verus!\nfn main() {}\n");
    // lost anchors: overlay contracts that matched nothing
    let mut lost = vec![];
    for k in ctx.ov.fns.keys() {
        if !ctx.used.contains(&format!("fn {}", k)) {
            lost.push(k.clone());
        }
    }
    std::fs::write(&args[2], &out.text).unwrap();
    let mut m = String::from("{\n \"functions\": [\n");
    for (i, r) in out.fns.iter().enumerate() {
        m.push_str(&format!(
            "  {{\"key\": {}, \"file\": {}, \"line\": {}, \"last\": {}, \"contract\": {}, \"bodyless\": {}, \"imported\": {}, \"overlay\": {}, \"props\": {}, \"support\": {}, \"lost_hints\": {}, \"inlines\": {}, \"calls\": {}, \"loops\": {}}}{}\n",
            js(&r.key), js(&r.file), r.line, r.last, r.contract, r.bodyless, r.imported, js(&r.overlay), jl(&r.props), jl(&r.support), jl(&r.lost_hints), jl(&r.inlines), jl(&r.calls), jl(&r.loops),
            if i + 1 < out.fns.len() { "," } else { "" }
        ));
    }
    m.push_str(" ],\n \"lost\": [");
    m.push_str(&lost.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    m.push_str("],\n \"inlined\": [");
    m.push_str(&ctx.inlined.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    m.push_str("],\n \"dropped\": [");
    m.push_str(&ctx.dropped.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    m.push_str("],\n \"rules\": {");
    m.push_str(&ctx.rules.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    m.push_str("}\n}\n");
    std::fs::write(&args[3], m).unwrap();
    if !lost.is_empty() {
        eprintln!("extract: lost anchors: {}", lost.join(", "));
    }
}

fn emit_item(ctx: &mut Ctx, f: &str, it: syn::Item, flats: &[(String, String, FlatTrait)], d: &str, out: &mut Out) {
    match it {
        syn::Item::Use(_) | syn::Item::ExternCrate(_) | syn::Item::Mod(_) => {}
        syn::Item::Macro(_) => {}
        syn::Item::Struct(mut s) => {
            if is_cfg_test(&s.attrs) {
                return;
            }
            let name = s.ident.to_string();
            if ctx.ov.skip.contains(&format!("struct {}", name)) {
                ctx.dropped.push(format!("struct {} ({})", name, f));
                return;
            }
            let der = derives(&s.attrs);
            s.attrs.clear();
            s.vis = syn::Visibility::Inherited;
            for x in s.fields.iter_mut() {
                x.vis = syn::Visibility::Inherited;
                x.attrs.clear();
            }
            TypeFix { ctx }.visit_item_struct_mut(&mut s);
            if let Some(a) = ctx.ov.type_attrs.get(&name) {
                out.text.push_str(a);
                out.text.push('\n');
            }
            out.text.push_str(&fmt::fmt(&s.to_token_stream()));
            out.text.push('\n');
            emit_derives(ctx, f, &s, &der, out);
        }
        syn::Item::Enum(mut s) => {
            if is_cfg_test(&s.attrs) {
                return;
            }
            let name = s.ident.to_string();
            if ctx.ov.skip.contains(&format!("enum {}", name)) {
                ctx.dropped.push(format!("enum {} ({})", name, f));
                return;
            }
            s.attrs.clear();
            s.vis = syn::Visibility::Inherited;
            TypeFix { ctx }.visit_item_enum_mut(&mut s);
            out.text.push_str(&fmt::fmt(&s.to_token_stream()));
            out.text.push('\n');
        }
        syn::Item::Type(mut t) => {
            if ctx.ov.skip.contains(&format!("type {}", t.ident)) {
                ctx.dropped.push(format!("type {} ({})", t.ident, f));
                return;
            }
            t.vis = syn::Visibility::Inherited;
            TypeFix { ctx }.visit_item_type_mut(&mut t);
            out.text.push_str(&fmt::fmt(&t.to_token_stream()));
            out.text.push('\n');
        }
        syn::Item::Const(mut t) => {
            t.vis = syn::Visibility::Inherited;
            TypeFix { ctx }.visit_item_const_mut(&mut t);
            out.text.push_str(&fmt::fmt(&t.to_token_stream()));
            out.text.push('\n');
        }
        syn::Item::Trait(t) => emit_trait(ctx, f, t, out),
        syn::Item::Fn(g) => {
            if is_cfg_test(&g.attrs) {
                return;
            }
            let key = g.sig.ident.to_string();
            if ctx.inlinable.contains_key(&key) {
                return;
            }
            emit_fn(ctx, &key, f, free_to_impl(&g), false, out);
        }
        syn::Item::Impl(i) => emit_impl(ctx, f, i, flats, d, out),
        other => die(format!("{}: unsupported item {}", f, other.to_token_stream().to_string().chars().take(80).collect::<String>())),
    }
}

fn emit_trait(ctx: &mut Ctx, f: &str, mut t: syn::ItemTrait, out: &mut Out) {
    let tn = t.ident.to_string();
    if ctx.ov.flatten.contains(&tn) {
        ctx.rule("flatten-trait");
        return;
    }
    if ctx.ov.skip.contains(&format!("trait {}", tn)) {
        ctx.dropped.push(format!("trait {} ({})", tn, f));
        return;
    }
    t.attrs.clear();
    let id = &t.ident;
    let gen = &t.generics;
    let supers: Vec<String> = t
        .supertraits
        .iter()
        .map(|s| s.to_token_stream().to_string())
        .filter(|s| !s.contains("Debug"))
        .collect();
    let supers_ts: TokenStream = supers.join(" + ").parse().unwrap();
    let colon = if supers.is_empty() { quote!() } else { quote!(:) };
    out.text.push_str(&fmt::fmt(&quote!(trait #id #gen #colon #supers_ts)));
    out.text.push_str(" {\n");
    if let Some(raw) = ctx.ov.blocks.get(&format!("trait {}", tn)) {
        out.text.push_str(raw);
        out.text.push('\n');
    }
    for m in t.items {
        let m = match m {
            syn::TraitItem::Verbatim(ts) => match anon_params(ts.clone()) {
                Some(m) => syn::TraitItem::Fn(m),
                None => die(format!("{}: unsupported trait item {}", f, ts)),
            },
            m => m,
        };
        match m {
            syn::TraitItem::Fn(m) => {
                let key = format!("{}::{}", tn, m.sig.ident);
                if ctx.ov.skip.contains(&format!("fn {}", key)) {
                    ctx.used.insert(format!("skip fn {}", key));
                    ctx.dropped.push(format!("fn {} ({})", key, f));
                    continue;
                }
                match m.default {
                    Some(b) => {
                        let g = syn::ImplItemFn {
                            attrs: vec![],
                            vis: syn::Visibility::Inherited,
                            defaultness: None,
                            sig: m.sig,
                            block: b,
                        };
                        emit_fn(ctx, &key, f, g, false, out);
                    }
                    None => {
                        let spec = ctx.ov.fns.get(&key).cloned();
                        let has = spec.is_some();
                        if has {
                            ctx.used.insert(format!("fn {}", key));
                        }
                        let spec = spec.unwrap_or_default();
                        let mut sig = m.sig.clone();
                        for (k, a) in sig.inputs.iter_mut().enumerate() {
                            if let syn::FnArg::Typed(t) = a {
                                if matches!(&*t.pat, syn::Pat::Wild(_)) {
                                    let id = format_ident!("vx_arg{}", k);
                                    *t.pat = syn::parse_quote!(#id);
                                }
                            }
                        }
                        TypeFix { ctx }.visit_signature_mut(&mut sig);
                        let s = print_sig(ctx, &sig, &spec, false);
                        out.text.push_str(&format!("//#FN {} @ {}\n", key, f));
                        let line = out.text.lines().count() + 1;
                        out.text.push_str(&fmt::fmt(&s));
                        out.text.push('\n');
                        out.text.push_str(&spec.contract);
                        out.text.push_str(";\n//#END\n");
                        let last = out.text.lines().count();
                        out.fns.push(FnRec { key, file: f.to_string(), line, contract: has, props: spec.props, support: spec.support, lost_hints: vec![], inlines: vec![], calls: vec![], loops: vec![], bodyless: false, imported: false, overlay: spec.overlay, last });
                    }
                }
            }
            syn::TraitItem::Type(mut ty) => {
                TypeFix { ctx }.visit_trait_item_type_mut(&mut ty);
                out.text.push_str(&fmt::fmt(&ty.to_token_stream()));
                out.text.push('\n');
            }
            o => die(format!("{}: unsupported trait item {}", f, o.to_token_stream())),
        }
    }
    out.text.push_str("}\n");
}

/// 2015-edition anonymous trait parameters: `fn set_name(&mut self, Option<String>);`
fn anon_params(ts: TokenStream) -> Option<syn::TraitItemFn> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut outv: Vec<TokenTree> = vec![];
    let mut done = false;
    for t in v {
        match t {
            TokenTree::Group(g) if !done && g.delimiter() == proc_macro2::Delimiter::Parenthesis => {
                done = true;
                let mut parts: Vec<TokenStream> = vec![];
                let mut cur: Vec<TokenTree> = vec![];
                let mut depth = 0i32;
                for t in g.stream() {
                    if let TokenTree::Punct(p) = &t {
                        match p.as_char() {
                            '<' => depth += 1,
                            '>' => depth -= 1,
                            ',' if depth == 0 => {
                                parts.push(cur.drain(..).collect());
                                continue;
                            }
                            _ => {}
                        }
                    }
                    cur.push(t);
                }
                if !cur.is_empty() {
                    parts.push(cur.into_iter().collect());
                }
                let mut res: Vec<TokenStream> = vec![];
                for (k, p) in parts.into_iter().enumerate() {
                    let s = p.to_string();
                    if s.contains("self") || s.contains(" : ") || s.contains(": ") {
                        res.push(p);
                    } else {
                        let id = format_ident!("vx_arg{}", k);
                        res.push(quote!(#id: #p));
                    }
                }
                outv.push(TokenTree::Group(Group::new(proc_macro2::Delimiter::Parenthesis, quote!(#(#res),*))));
            }
            x => outv.push(x),
        }
    }
    syn::parse2(outv.into_iter().collect()).ok()
}

fn emit_impl(ctx: &mut Ctx, f: &str, mut i: syn::ItemImpl, flats: &[(String, String, FlatTrait)], d: &str, out: &mut Out) {
    if is_cfg_test(&i.attrs) {
        return;
    }
    let ty = type_name(&i.self_ty);
    let clone_rec = matches!(&i.trait_, Some((_, tp, _)) if tp.is_ident("Clone")) && ctx.ov.clone_rec.contains(&ty);
    if clone_rec {
        ctx.rule("clone-to-inherent-function");
        i.trait_ = None;
        for m in i.items.iter_mut() {
            if let syn::ImplItem::Fn(m) = m {
                if m.sig.ident == "clone" {
                    m.sig.ident = format_ident!("vx_clone");
                    FieldClones { ctx, ty: ty.clone() }.visit_block_mut(&mut m.block);
                }
            }
        }
    }
    if let Some((_, tp, _)) = &mut i.trait_ {
        if tp.is_ident("Clone") && ctx.ov.derive_clone.contains(&ty) {
            // a hand-written Clone: the same code under the trait that carries the contract
            ctx.rule("clone-impl-to-VxClone");
            *tp = syn::parse_quote!(VxClone);
            for m in i.items.iter_mut() {
                if let syn::ImplItem::Fn(m) = m {
                    if m.sig.ident == "clone" {
                        m.sig.ident = format_ident!("vx_clone");
                        VxClones.visit_block_mut(&mut m.block);
                    }
                }
            }
        } else if tp.is_ident("Clone") && !ctx.ov.fns.contains_key(&format!("{}::Clone::clone", ty)) {
            // not under contract in this unit, like a derived Clone
            ctx.dropped.push(format!("impl Clone for {} ({})", ty, f));
            return;
        }
    }
    if let Some((_, tp, _)) = &mut i.trait_ {
        if tp.segments.last().unwrap().ident == "Hash" && ctx.ov.derive_hash.contains(&ty) {
            // a hand-written Hash: the same code under the trait that carries the contract
            ctx.rule("hash-impl-to-VxHash");
            *tp = syn::parse_quote!(VxHash);
            for m in i.items.iter_mut() {
                if let syn::ImplItem::Fn(m) = m {
                    if m.sig.ident == "hash" {
                        m.sig.ident = format_ident!("vx_hash");
                        m.sig.generics = Default::default();
                        if let Some(syn::FnArg::Typed(t)) = m.sig.inputs.iter_mut().nth(1) {
                            *t.ty = syn::parse_quote!(&mut VxHasher);
                        }
                    }
                }
            }
        }
    }
    if let Some((_, tp, _)) = &mut i.trait_ {
        if tp.segments.last().unwrap().ident == "From" && ctx.ov.from.contains(&ty) {
            ctx.rule("from-impl-to-VxFrom");
            tp.segments.last_mut().unwrap().ident = format_ident!("VxFrom");
            for m in i.items.iter_mut() {
                if let syn::ImplItem::Fn(m) = m {
                    if m.sig.ident == "from" {
                        m.sig.ident = format_ident!("vx_from");
                    }
                }
            }
        }
    }
    let mut sty = (*i.self_ty).clone();
    TypeFix { ctx }.visit_type_mut(&mut sty);
    let mut gen = i.generics.clone();
    TypeFix { ctx }.visit_generics_mut(&mut gen);
    let wc = gen.where_clause.take();
    match &i.trait_ {
        None => {
            if ctx.ov.skip.contains(&format!("impl {}", ty)) {
                ctx.dropped.push(format!("impl {} ({})", ty, f));
                return;
            }
            out.text.push_str(&fmt::fmt(&quote!(impl #gen #sty #wc)));
            out.text.push_str(" {\n");
            if let Some(raw) = ctx.ov.blocks.get(&format!("impl {}", ty)) {
                out.text.push_str(raw);
                out.text.push('\n');
            }
            for m in i.items {
                if let syn::ImplItem::Fn(m) = m {
                    if is_cfg_test(&m.attrs) {
                        continue;
                    }
                    let key = format!("{}::{}", ty, m.sig.ident);
                    if ctx.inlinable.contains_key(&key) {
                        continue;
                    }
                    emit_fn(ctx, &key, f, m, false, out);
                } else {
                    die(format!("{}: unsupported impl item", f));
                }
            }
            out.text.push_str("}\n");
        }
        Some((_, tp, _)) => {
            let tn = tp.segments.last().unwrap().ident.to_string();
            if ctx.ov.skip.contains(&format!("impl {} for {}", tn, ty)) || ctx.ov.skip.contains(&format!("impl {} for *", tn)) {
                ctx.dropped.push(format!("impl {} for {} ({})", tn, ty, f));
                return;
            }
            if ctx.ov.flatten.contains(&tn) {
                ctx.rule("flatten-impl");
                let flat = flats
                    .iter()
                    .find(|(fd, n, _)| *n == tn && *fd == d)
                    .or_else(|| flats.iter().find(|(fd, n, _)| *n == tn && fd.starts_with(d)));
                let mut assoc: BTreeMap<String, syn::Type> = BTreeMap::new();
                let mut have = BTreeSet::new();
                for m in &i.items {
                    match m {
                        syn::ImplItem::Type(t) => {
                            assoc.insert(t.ident.to_string(), t.ty.clone());
                        }
                        syn::ImplItem::Fn(m) => {
                            have.insert(m.sig.ident.to_string());
                        }
                        _ => {}
                    }
                }
                out.text.push_str(&fmt::fmt(&quote!(impl #gen #sty #wc)));
                out.text.push_str(" {\n");
                let mut fns: Vec<syn::ImplItemFn> = vec![];
                for m in i.items {
                    if let syn::ImplItem::Fn(m) = m {
                        fns.push(m);
                    }
                }
                if let Some((_, _, ft)) = flat {
                    for m in &ft.item.items {
                        if let syn::TraitItem::Fn(m) = m {
                            if let Some(b) = &m.default {
                                if !have.contains(&m.sig.ident.to_string()) {
                                    ctx.rule("copy-default-method");
                                    let mut b = b.clone();
                                    // in the trait, self.m() is the trait's m even where the type has its own
                                    let mut own: BTreeMap<String, String> = BTreeMap::new();
                                    for x in &ft.item.items {
                                        if let syn::TraitItem::Fn(x) = x {
                                            let n = x.sig.ident.to_string();
                                            if ctx.clash.contains(&(ty.clone(), n.clone())) {
                                                own.insert(n.clone(), format!("{}_{}", tn, n));
                                            }
                                        }
                                    }
                                    SelfCalls(own).visit_block_mut(&mut b);
                                    fns.push(syn::ImplItemFn {
                                        attrs: vec![],
                                        vis: syn::Visibility::Inherited,
                                        defaultness: None,
                                        sig: m.sig.clone(),
                                        block: b.clone(),
                                    });
                                }
                            }
                        }
                    }
                }
                for mut m in fns {
                    let mut name = m.sig.ident.to_string();
                    if ctx.clash.contains(&(ty.clone(), name.clone())) {
                        name = format!("{}_{}", tn, name);
                        m.sig.ident = format_ident!("{}", name);
                    }
                    AssocSubst { assoc: &assoc, ctx }.visit_impl_item_fn_mut(&mut m);
                    let key = format!("{}::{}", ty, name);
                    emit_fn(ctx, &key, f, m, false, out);
                }
                out.text.push_str("}\n");
                return;
            }
            let mut tp = tp.clone();
            fix_path(&mut tp, &ctx.ov);
            TypeFix { ctx }.visit_path_mut(&mut tp);
            out.text.push_str(&fmt::fmt(&quote!(impl #gen #tp for #sty #wc)));
            out.text.push_str(" {\n");
            let tn = if tn == "VxFrom" {
                tp.to_token_stream().to_string().replace(' ', "")
            } else {
                tn
            };
            if let Some(raw) = ctx.ov.blocks.get(&format!("impl {} for {}", tn, ty)) {
                out.text.push_str(raw);
                out.text.push('\n');
            }
            for m in i.items {
                match m {
                    syn::ImplItem::Fn(m) => {
                        let key = format!("{}::{}::{}", ty, tn, m.sig.ident);
                        emit_fn(ctx, &key, f, m, true, out);
                    }
                    syn::ImplItem::Type(mut t) => {
                        TypeFix { ctx }.visit_impl_item_type_mut(&mut t);
                        out.text.push_str(&fmt::fmt(&t.to_token_stream()));
                        out.text.push('\n');
                    }
                    _ => die(format!("{}: unsupported impl item", f)),
                }
            }
            out.text.push_str("}\n");
        }
    }
}

/// clone of a value of type `t` at place `e`, spelled out down to types that have a `vx_clone` of their own
fn clone_expr(ctx: &mut Ctx, t: &syn::Type, e: TokenStream) -> TokenStream {
    let arg = |t: &syn::Type| -> Option<syn::Type> {
        if let syn::Type::Path(p) = t {
            if let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                if let Some(syn::GenericArgument::Type(x)) = a.args.first() {
                    return Some(x.clone());
                }
            }
        }
        None
    };
    let rec = |ctx: &Ctx, t: &syn::Type| -> bool {
        let s = t.to_token_stream().to_string();
        ctx.ov.clone_rec.iter().any(|x| s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == x))
    };
    if !rec(ctx, t) {
        return quote!(#e.vx_clone());
    }
    match (type_name(t).as_str(), arg(t)) {
        ("Option", Some(a)) => {
            let x = clone_expr(ctx, &a, quote!(vx_x));
            quote!(match &#e { Some(vx_x) => Some(#x), None => None })
        }
        ("Vec", Some(a)) => {
            let k = ctx.fresh;
            ctx.fresh += 1;
            let (vv, vi) = (format_ident!("vx_v{}", k), format_ident!("vx_i{}", k));
            let x = clone_expr(ctx, &a, quote!(#e[#vi]));
            quote!({
                let mut #vv: Vec<#a> = Vec::new();
                let mut #vi: usize = 0;
                while #vi < #e.len() { #vv.push(#x); #vi += 1; }
                #vv
            })
        }
        (n, Some(a)) if ctx.structs.get(n).map_or(false, |s| s.1 && s.0.len() == 1) => {
            let (f, ft) = ctx.structs[n].0[0].clone();
            let f = format_ident!("{}", f);
            let id = format_ident!("{}", n);
            let mut ft = ft.clone();
            // the struct's one parameter
            struct P(syn::Type);
            impl VisitMut for P {
                fn visit_type_mut(&mut self, t: &mut syn::Type) {
                    if let syn::Type::Path(p) = t {
                        if p.path.is_ident("T") {
                            *t = self.0.clone();
                            return;
                        }
                    }
                    syn::visit_mut::visit_type_mut(self, t);
                }
            }
            P(a).visit_type_mut(&mut ft);
            let x = clone_expr(ctx, &ft, quote!(#e.#f));
            quote!(#id { #f: #x })
        }
        _ => quote!(#e.vx_clone()),
    }
}
/// `.clone()` in a hand-written Clone
struct VxClones;
impl VisitMut for VxClones {
    fn visit_expr_method_call_mut(&mut self, e: &mut syn::ExprMethodCall) {
        syn::visit_mut::visit_expr_method_call_mut(self, e);
        if e.method == "clone" && e.args.is_empty() {
            e.method = format_ident!("vx_clone");
        }
    }
}
/// `self.field.clone()` in a hand-written Clone of a type that contains itself
struct FieldClones<'c> {
    ctx: &'c mut Ctx,
    ty: String,
}
impl<'c> VisitMut for FieldClones<'c> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "clone" {
                if let syn::Expr::Field(f) = &*m.receiver {
                    if let (syn::Expr::Path(b), syn::Member::Named(n)) = (&*f.base, &f.member) {
                        if b.path.is_ident("self") {
                            let t = self.ctx.structs.get(&self.ty).and_then(|s| s.0.iter().find(|x| n == &x.0)).map(|x| x.1.clone());
                            if let Some(t) = t {
                                let r = &m.receiver;
                                let x = clone_expr(self.ctx, &t, quote!(#r));
                                *e = syn::parse2(x).unwrap();
                                return;
                            }
                        }
                    }
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

struct SelfCalls(BTreeMap<String, String>);
impl VisitMut for SelfCalls {
    fn visit_expr_method_call_mut(&mut self, e: &mut syn::ExprMethodCall) {
        syn::visit_mut::visit_expr_method_call_mut(self, e);
        if let (syn::Expr::Path(p), Some(n)) = (&*e.receiver, self.0.get(&e.method.to_string())) {
            if p.path.is_ident("self") {
                e.method = format_ident!("{}", n);
            }
        }
    }
}

fn emit_derives(ctx: &mut Ctx, f: &str, s: &syn::ItemStruct, der: &BTreeSet<String>, out: &mut Out) {
    let name = s.ident.to_string();
    if der.contains("Hash") && ctx.ov.derive_hash.contains(&name) {
        ctx.rule("expand-derive-hash");
        let id = &s.ident;
        let (ig, tg, wc) = s.generics.split_for_impl();
        let fs: Vec<_> = s.fields.iter().map(|x| x.ident.clone().unwrap()).collect();
        out.text.push_str(&fmt::fmt(&quote!(impl #ig VxHash for #id #tg #wc)));
        out.text.push_str(" {\n");
        if let Some(raw) = ctx.ov.blocks.get(&format!("impl VxHash for {}", name)) {
            out.text.push_str(raw);
        }
        let key = format!("{}::VxHash::vx_hash", name);
        let g: syn::ImplItemFn = syn::parse2(quote!(fn vx_hash(&self, state: &mut VxHasher) { #(self.#fs.vx_hash(state);)* })).unwrap();
        emit_fn(ctx, &key, f, g, true, out);
        out.text.push_str("}\n");
    }
    if der.contains("Clone") && ctx.ov.clone_rec.contains(&name) {
        ctx.rule("expand-derive-clone");
        let id = &s.ident;
        ctx.fresh = 0;
        let mut fs = vec![];
        for (n, t) in ctx.structs[&name].0.clone() {
            let n = format_ident!("{}", n);
            let x = clone_expr(ctx, &t, quote!(self.#n));
            fs.push(quote!(#n: #x));
        }
        out.text.push_str(&fmt::fmt(&quote!(impl #id)));
        out.text.push_str(" {\n");
        let key = format!("{}::vx_clone", name);
        let g: syn::ImplItemFn = syn::parse2(quote!(fn vx_clone(&self) -> #id { #id { #(#fs),* } })).unwrap();
        emit_fn(ctx, &key, f, g, true, out);
        out.text.push_str("}\n");
    }
    if der.contains("Clone") && ctx.ov.derive_clone.contains(&name) {
        ctx.rule("expand-derive-clone");
        let id = &s.ident;
        let (ig, tg, wc) = s.generics.split_for_impl();
        let fs: Vec<_> = s.fields.iter().map(|x| x.ident.clone().unwrap()).collect();
        out.text.push_str(&fmt::fmt(&quote!(impl #ig VxClone for #id #tg #wc)));
        out.text.push_str(" {\n");
        if let Some(raw) = ctx.ov.blocks.get(&format!("impl VxClone for {}", name)) {
            out.text.push_str(raw);
        }
        let key = format!("{}::VxClone::vx_clone", name);
        let g: syn::ImplItemFn = syn::parse2(quote!(fn vx_clone(&self) -> Self { #id { #(#fs: self.#fs.vx_clone()),* } })).unwrap();
        emit_fn(ctx, &key, f, g, true, out);
        out.text.push_str("}\n");
    }
}

/// every literal of the sources outside tests, one per line: file, kind, value (the harness draws sizes and texts from the new ones)
fn literals(repo: &str) {
    fn value(l: &str) -> Option<u64> {
        let t = l.replace('_', "");
        let t = t.trim_end_matches("usize").trim_end_matches("u64").trim_end_matches("u32").trim_end_matches("u8").trim_end_matches("u16").trim_end_matches("i32").trim_end_matches("isize");
        if let Some(h) = t.strip_prefix("0x") {
            return u64::from_str_radix(h, 16).ok();
        }
        t.parse().ok()
    }
    fn walk(ts: TokenStream, f: &str, out: &mut Vec<String>) {
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                proc_macro2::TokenTree::Group(g) => {
                    let test = i >= 2 && v[i - 2].to_string() == "mod" && v[i - 1].to_string().starts_with("test") && g.delimiter() == proc_macro2::Delimiter::Brace;
                    let attr = i >= 1 && v[i - 1].to_string() == "#";
                    if !test && !attr {
                        walk(g.stream(), f, out);
                    }
                }
                proc_macro2::TokenTree::Literal(l) => {
                    let s = l.to_string();
                    if let Some(n) = value(&s) {
                        out.push(format!("{}\ti\t{}", f, n));
                        let op: String = v[i + 1..].iter().take(2).map(|x| x.to_string()).collect();
                        if op == "<<" {
                            if let Some(m) = v.get(i + 3).and_then(|x| value(&x.to_string())) {
                                out.push(format!("{}\ti\t{}", f, n.checked_shl(m as u32).unwrap_or(0)));
                            }
                        } else if op.starts_with('*') {
                            if let Some(m) = v.get(i + 2).and_then(|x| value(&x.to_string())) {
                                out.push(format!("{}\ti\t{}", f, n.wrapping_mul(m)));
                            }
                        }
                    } else {
                        let t = match syn::parse_str::<syn::Lit>(&s) {
                            Ok(syn::Lit::Str(x)) => Some(x.value()),
                            Ok(syn::Lit::Char(x)) => Some(x.value().to_string()),
                            Ok(syn::Lit::Byte(x)) => Some((x.value() as char).to_string()),
                            Ok(syn::Lit::ByteStr(x)) => String::from_utf8(x.value()).ok(),
                            _ => None,
                        };
                        // the texts of messages are not of interest
                        if let Some(t) = t {
                            if t.len() <= 40 && !t.contains("{}") && !t.contains("{:?}") {
                                out.push(format!("{}\ts\t{}", f, t.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")));
                            }
                        }
                    }
                }
                proc_macro2::TokenTree::Ident(id) => {
                    // the limits of narrow integers
                    let n = match &id.to_string()[..] {
                        "u8" => 256u64,
                        "i8" => 128,
                        "u16" => 65536,
                        "i16" => 32768,
                        _ => 0,
                    };
                    if n > 0 {
                        out.push(format!("{}\ti\t{}", f, n));
                    }
                }
                _ => {}
            }
            i += 1;
        }
    }
    fn dir(d: &std::path::Path, repo: &str, out: &mut Vec<String>) {
        let mut es: Vec<_> = std::fs::read_dir(d).map(|x| x.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_else(|_| vec![]);
        es.sort();
        for p in es {
            let n = p.file_name().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default();
            if p.is_dir() {
                if !n.starts_with("test") || n == "testmessage" {
                    dir(&p, repo, out);
                }
            } else if n.ends_with(".rs") && !n.starts_with("test") {
                if let Some(ts) = std::fs::read_to_string(&p).ok().and_then(|s| s.parse::<TokenStream>().ok()) {
                    walk(ts, p.strip_prefix(repo).unwrap_or(&p).to_string_lossy().as_ref(), out);
                }
            }
        }
    }
    let mut out = vec![];
    dir(&std::path::Path::new(repo).join("src"), repo, &mut out);
    for l in out {
        println!("{}", l);
    }
}
