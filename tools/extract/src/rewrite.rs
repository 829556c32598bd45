use crate::overlay::*;
use crate::{die, type_name, Ctx};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const LOGS: [&str; 5] = ["trace", "debug", "info", "warn", "error"];

fn ts(s: &str) -> TokenStream {
    s.parse().unwrap_or_else(|e| die(format!("overlay text does not lex: {}: {}", e, s)))
}

// ---------------------------------------------------------------- paths and types

/// drop leading module segments (`matcher::result::MatchResult` -> `MatchResult`)
pub fn fix_path(p: &mut Path, ov: &Overlay) {
    let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if let Some(to) = ov.paths.get(&full.join("::")) {
        let last = p.segments.last().unwrap().arguments.clone();
        let mut np: Path = parse_str(to).unwrap();
        np.segments.last_mut().unwrap().arguments = last;
        *p = np;
        return;
    }
    let n = p.segments.len();
    let mut k = 0;
    while k + 1 < n && (ov.modules.contains(&full[k]) || full[k] == "self" || full[k] == "super" || full[k] == "crate") {
        if ov.paths.contains_key(&full[k..].join("::")) {
            break;
        }
        k += 1;
    }
    if k > 0 || p.leading_colon.is_some() {
        let segs: punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(k).cloned().collect();
        if full[0] != "std" {
            p.leading_colon = None;
        }
        p.segments = segs;
        let f2: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some(to) = ov.paths.get(&f2.join("::")) {
            let last = p.segments.last().unwrap().arguments.clone();
            let mut np: Path = parse_str(to).unwrap();
            np.segments.last_mut().unwrap().arguments = last;
            *p = np;
        }
    }
}

pub struct TypeFix<'c> {
    pub ctx: &'c mut Ctx,
}

impl<'c> VisitMut for TypeFix<'c> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() > 1 {
                let full = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                if let Some(to) = self.ctx.ov.types.get(&full).cloned() {
                    self.ctx.rule("type-substitution");
                    *t = parse_str(&to).unwrap_or_else(|e| die(format!("type {}: {}", to, e)));
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let name = p.path.segments.last().unwrap().ident.to_string();
                if let Some(to) = self.ctx.ov.types.get(&name).cloned() {
                    self.ctx.rule("type-substitution");
                    *t = parse_str(&to).unwrap_or_else(|e| die(format!("type {}: {}", to, e)));
                    return;
                }
                if self.ctx.ov.dyn_traits.contains(&name) && p.path.segments.len() == 1 {
                    self.ctx.rule("bare-trait-to-dyn");
                    let pp = p.clone();
                    *t = parse2(quote!(dyn #pp)).unwrap();
                }
            }
        }
        if let Type::Reference(r) = t {
            if let Type::TraitObject(o) = &*r.elem {
                if o.bounds.len() == 1 {
                    // `&dyn X` needs no parentheses
                }
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        fix_path(p, &self.ctx.ov);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        visit_mut::visit_trait_bound_mut(self, b);
        let l = b.path.segments.last_mut().unwrap();
        if l.ident == "FnMut" {
            // closures of this code base capture immutably; Verus specifies `Fn`
            l.ident = format_ident!("Fn");
            self.ctx.rule("FnMut-bound-to-Fn");
        }
    }
}

pub struct AssocSubst<'a> {
    pub assoc: &'a BTreeMap<String, Type>,
    pub ctx: &'a mut Ctx,
}

impl<'a> AssocSubst<'a> {
    fn path(&mut self, p: &mut Path) {
        if p.segments.len() >= 2 && p.segments[0].ident == "Self" {
            if let Some(t) = self.assoc.get(&p.segments[1].ident.to_string()).cloned() {
                let tn = type_name(&t);
                let mut segs: punctuated::Punctuated<PathSegment, Token![::]> = punctuated::Punctuated::new();
                if let Type::Path(tp) = &t {
                    segs.push(tp.path.segments.last().unwrap().clone());
                } else {
                    die("associated type is not a path".into());
                }
                for s in p.segments.iter().skip(2) {
                    let mut s = s.clone();
                    if self.ctx.clash.contains(&(tn.clone(), s.ident.to_string())) {
                        // the trait's function, not the inherent one
                        let want = self
                            .ctx
                            .ov
                            .fns
                            .keys()
                            .find(|k| k.starts_with(&format!("{}::", tn)) && k.ends_with(&format!("_{}", s.ident)))
                            .cloned();
                        if let Some(w) = want {
                            s.ident = format_ident!("{}", w.rsplit("::").next().unwrap());
                        }
                    }
                    segs.push(s);
                }
                p.segments = segs;
            }
        }
    }
}

impl<'a> VisitMut for AssocSubst<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.path(p);
        visit_mut::visit_path_mut(self, p);
    }
}

// ---------------------------------------------------------------- inlining of helpers without contract

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.path.is_ident("vx_try") {
            self.0 = true;
        }
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// replaces `return`s in tail position by plain values: `if c { return a; } b` => `if c { a } else { b }`
fn returns_option(sig: &Signature) -> bool {
    matches!(&sig.output, ReturnType::Type(_, t) if type_name(t) == "Option")
}

/// the expression under a `?`
fn tried(e: &Expr) -> Option<Expr> {
    if let Expr::Try(t) = e {
        let x = match &*t.expr {
            Expr::Paren(p) => (*p.expr).clone(),
            x => x.clone(),
        };
        let mut hr = HasReturn(false);
        hr.visit_expr(&x);
        if !hr.0 {
            return Some(x);
        }
    }
    None
}

/// `return e` or a block that is just that
fn returned(e: &Expr) -> Option<Option<Expr>> {
    match e {
        Expr::Return(r) => Some(r.expr.as_ref().map(|x| (**x).clone())),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, _) => returned(x),
            _ => None,
        },
        _ => None,
    }
}

fn parse2_pat(t: TokenStream) -> Pat {
    syn::parse::Parser::parse2(Pat::parse_single, t).unwrap()
}

/// brings a body into a form without `return` and `?`
fn structure_returns(b: &mut Block, opt: bool) -> bool {
    // only the simple guard form is handled
    let mut k = 0;
    while k < b.stmts.len() {
        let last = k + 1 == b.stmts.len();
        let is_ret_stmt = matches!(&b.stmts[k], Stmt::Expr(Expr::Return(_), _));
        if is_ret_stmt {
            if let Stmt::Expr(Expr::Return(r), _) = b.stmts[k].clone() {
                b.stmts.truncate(k);
                if let Some(e) = r.expr {
                    b.stmts.push(Stmt::Expr(*e, None));
                }
                return true;
            }
        }
        // `let p = e?; rest`, `e?; rest`, `let p = match e { A => x, B => return y }; rest`
        let (pat, init) = match &b.stmts[k] {
            Stmt::Local(l) => match &l.init {
                Some(i) if i.diverge.is_none() => (Some(l.pat.clone()), Some((*i.expr).clone())),
                _ => (None, None),
            },
            Stmt::Expr(x @ Expr::Try(_), Some(_)) => (Some(parse2_pat(quote!(_))), Some(x.clone())),
            _ => (None, None),
        };
        if let (Some(pat), Some(init)) = (pat, init) {
            if let Some(x) = tried(&init) {
                let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(k + 1) };
                if !structure_returns(&mut rest, opt) {
                    return false;
                }
                b.stmts.truncate(k);
                let st = &rest.stmts;
                let e: Expr = if opt {
                    parse2(quote!(match #x { Some(vx_ok) => { let #pat = vx_ok; #(#st)* } None => None })).unwrap()
                } else {
                    parse2(quote!(match #x { Ok(vx_ok) => { let #pat = vx_ok; #(#st)* } Err(vx_err) => Err(VxFrom::vx_from(vx_err)) })).unwrap()
                };
                b.stmts.push(Stmt::Expr(e, None));
                return true;
            }
            if let Expr::Match(m) = &init {
                let going: Vec<usize> = m.arms.iter().enumerate().filter(|(_, a)| returned(&a.body).is_none()).map(|x| x.0).collect();
                if going.len() == 1 && m.arms.len() > 1 {
                    let mut hr = HasReturn(false);
                    hr.visit_expr(&m.arms[going[0]].body);
                    hr.visit_expr(&m.expr);
                    if hr.0 {
                        return false;
                    }
                    let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(k + 1) };
                    if !structure_returns(&mut rest, opt) {
                        return false;
                    }
                    b.stmts.truncate(k);
                    let mut m = m.clone();
                    for (j, a) in m.arms.iter_mut().enumerate() {
                        let x: Expr = if j == going[0] {
                            let (y, st) = (&a.body, &rest.stmts);
                            parse2(quote!({ let #pat = #y; #(#st)* })).unwrap()
                        } else {
                            match returned(&a.body).unwrap() {
                                Some(y) => parse2(quote!({ #y })).unwrap(),
                                None => parse2(quote!({})).unwrap(),
                            }
                        };
                        a.body = Box::new(x);
                        a.comma = None;
                    }
                    b.stmts.push(Stmt::Expr(Expr::Match(m), None));
                    return true;
                }
            }
        }
        if let Stmt::Expr(Expr::If(i), semi) = &b.stmts[k] {
            let mut hr = HasReturn(false);
            hr.visit_expr_if(i);
            if hr.0 {
                if last && semi.is_none() {
                    let mut i = i.clone();
                    if !structure_returns(&mut i.then_branch, opt) {
                        return false;
                    }
                    if let Some((_, e)) = &mut i.else_branch {
                        if let Expr::Block(eb) = &mut **e {
                            if !structure_returns(&mut eb.block, opt) {
                                return false;
                            }
                        }
                    }
                    b.stmts[k] = Stmt::Expr(Expr::If(i), None);
                } else if i.else_branch.is_none() {
                    let mut i = i.clone();
                    // the branch must end in return
                    match i.then_branch.stmts.last() {
                        Some(Stmt::Expr(Expr::Return(_), _)) => {}
                        _ => return false,
                    }
                    if !structure_returns(&mut i.then_branch, opt) {
                        return false;
                    }
                    let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(k + 1) };
                    if !structure_returns(&mut rest, opt) {
                        return false;
                    }
                    i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
                    b.stmts[k] = Stmt::Expr(Expr::If(i), None);
                    return true;
                } else {
                    return false;
                }
            }
        }
        k += 1;
    }
    let mut hr = HasReturn(false);
    hr.visit_block(b);
    !hr.0
}

struct Calls(BTreeSet<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.0.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_path(&mut self, p: &'a Path) {
        self.0.insert(p.segments.last().unwrap().ident.to_string());
        visit::visit_path(self, p);
    }
}

pub fn prune_inlinable(ctx: &mut Ctx) {
    // method names must be unambiguous, bodies return-free and non-recursive
    let keys: Vec<String> = ctx.inlinable.keys().cloned().collect();
    let mut bad = BTreeSet::new();
    for k in &keys {
        let name = k.rsplit("::").next().unwrap().to_string();
        let mut f = ctx.inlinable[k].clone();
        let mut hr = HasReturn(false);
        hr.visit_block(&f.block);
        if hr.0 && !structure_returns(&mut f.block, returns_option(&f.sig)) {
            bad.insert(k.clone());
            continue;
        }
        let mut c = Calls(BTreeSet::new());
        c.visit_block(&f.block);
        if c.0.contains(&name) || f.sig.generics.params.iter().any(|p| matches!(p, GenericParam::Const(_))) {
            bad.insert(k.clone());
            continue;
        }
        if keys.iter().filter(|o| o.rsplit("::").next().unwrap() == name).count() > 1
            || ctx.ov.fns.keys().any(|o| o.rsplit("::").next().unwrap() == name)
        {
            bad.insert(k.clone());
            continue;
        }
        ctx.inlinable.insert(k.clone(), f);
    }
    for k in bad {
        ctx.inlinable.remove(&k);
    }
}

struct SelfSubst(Expr);
impl VisitMut for SelfSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// names bound by patterns
struct Bound(BTreeSet<String>);
impl VisitMut for Bound {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.insert(p.ident.to_string());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
}
fn idents_of(e: &Expr) -> BTreeSet<String> {
    fn go(t: TokenStream, o: &mut BTreeSet<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => {
                    o.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => go(g.stream(), o),
                _ => {}
            }
        }
    }
    let mut o = BTreeSet::new();
    go(e.to_token_stream(), &mut o);
    o.remove("self");
    o
}
struct Rename(BTreeSet<String>, String);
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if self.0.contains(&p.ident.to_string()) {
            p.ident = format_ident!("{}{}", p.ident, self.1);
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, p: &mut FieldPat) {
        if p.colon_token.is_none() {
            p.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, p: &mut FieldValue) {
        if p.colon_token.is_none() {
            p.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if self.0.contains(&i.to_string()) {
                p.path = format_ident!("{}{}", i, self.1).into();
            }
        }
    }
}

struct Inliner<'c> {
    ctx: &'c mut Ctx,
    depth: usize,
    own: String,
    /// type parameters of the function that is being rewritten
    tparams: BTreeSet<String>,
}

impl<'c> Inliner<'c> {
    fn expand(&mut self, key: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let f = self.ctx.inlinable.get(key)?.clone();
        // type parameters: only those the caller has under the same name
        for p in &f.sig.generics.params {
            if let GenericParam::Type(t) = p {
                if !self.tparams.contains(&t.ident.to_string()) {
                    self.ctx.opaque.insert(key.rsplit("::").next().unwrap().to_string());
                    return None;
                }
            }
        }
        let mut body = f.block.clone();
        let mut lets: Vec<TokenStream> = vec![];
        // hygiene: names the helper binds must not capture names in the receiver or in later arguments
        let mut inputs = f.sig.inputs.clone();
        {
            let mut bound = Bound(BTreeSet::new());
            bound.visit_block_mut(&mut body);
            let mut names: Vec<String> = vec![];
            for a in inputs.iter_mut() {
                let mut b = Bound(BTreeSet::new());
                if let FnArg::Typed(t) = a {
                    b.visit_pat_mut(&mut t.pat);
                    names.push(b.0.iter().next().cloned().unwrap_or_default());
                }
            }
            let mut bad: BTreeSet<String> = BTreeSet::new();
            if let Some(r) = &recv {
                let used = idents_of(r);
                bad.extend(bound.0.iter().chain(names.iter()).filter(|n| used.contains(*n)).cloned());
            }
            let skip = if recv.is_none() && matches!(inputs.first(), Some(FnArg::Receiver(_))) { 1 } else { 0 };
            for (i, n) in names.iter().enumerate() {
                if args.iter().skip(skip + i + 1).any(|a| idents_of(a).contains(n)) {
                    bad.insert(n.clone());
                }
            }
            if skip == 1 {
                if let Some(a) = args.first() {
                    let used = idents_of(a);
                    bad.extend(bound.0.iter().chain(names.iter()).filter(|n| used.contains(*n)).cloned());
                }
            }
            if !bad.is_empty() {
                let mut r = Rename(bad, format!("_v{}", self.depth));
                r.visit_block_mut(&mut body);
                for a in inputs.iter_mut() {
                    r.visit_fn_arg_mut(a);
                }
            }
        }
        let mut ai = args.into_iter();
        for a in &inputs {
            match a {
                FnArg::Receiver(_) => {
                    let r = match &recv {
                        Some(r) => r.clone(),
                        None => {
                            // UFCS call: first argument is the receiver
                            let x = ai.next()?;
                            match x {
                                Expr::Reference(r) => *r.expr,
                                x => x,
                            }
                        }
                    };
                    let simple = matches!(&r, Expr::Path(_) | Expr::Field(_));
                    if simple {
                        SelfSubst(r).visit_block_mut(&mut body);
                    } else {
                        let id = format_ident!("vx_self{}", self.depth);
                        lets.push(quote!(let #id = #r;));
                        SelfSubst(parse2(quote!(#id)).unwrap()).visit_block_mut(&mut body);
                    }
                }
                FnArg::Typed(t) => {
                    let p = &t.pat;
                    let ty = &t.ty;
                    let v = ai.next()?;
                    lets.push(quote!(let #p: #ty = #v;));
                }
            }
        }
        self.ctx.rule("inline-helper");
        self.ctx.inlined.insert(key.to_string());
        let stmts = &body.stmts;
        let e: Expr = parse2(quote!({ #(#lets)* #(#stmts)* })).ok()?;
        Some(strip_lifetimes(e))
    }
}

fn strip_lifetimes(mut e: Expr) -> Expr {
    struct S;
    impl VisitMut for S {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
        fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
            a.args = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
            visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
        }
    }
    S.visit_expr_mut(&mut e);
    e
}

impl<'c> VisitMut for Inliner<'c> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.depth > 4 {
            return;
        }
        let rep = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let key = self
                    .ctx
                    .inlinable
                    .keys()
                    .find(|k| k.rsplit("::").next().unwrap() == name && k.contains("::"))
                    .cloned();
                match key {
                    Some(k) if k != self.own && matches!(self.ctx.inlinable[&k].sig.inputs.first(), Some(FnArg::Receiver(_))) => {
                        self.expand(&k, Some((*m.receiver).clone()), m.args.iter().cloned().collect())
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    let ty = if segs.len() > 1 { segs[segs.len() - 2].clone() } else { String::new() };
                    let own_ty = self.own.split("::").next().unwrap_or("").to_string();
                    let key = if ty.is_empty() || ty.chars().next().unwrap().is_lowercase() {
                        last.clone()
                    } else if ty == "Self" {
                        format!("{}::{}", own_ty, last)
                    } else {
                        format!("{}::{}", ty, last)
                    };
                    if self.ctx.inlinable.contains_key(&key) && key != self.own {
                        self.expand(&key, None, c.args.iter().cloned().collect())
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(r) = rep {
            *e = r;
            self.depth += 1;
            self.visit_expr_mut(e);
            self.depth -= 1;
        }
    }
}

// ---------------------------------------------------------------- expression rewriting

struct Rw<'c> {
    ctx: &'c mut Ctx,
    spec: &'c FnSpec,
    fresh: usize,
    /// wrapper for `Box::new` in functions that return a boxed trait object
    boxdyn: Option<String>,
    /// the function returns an Option
    ret_opt: bool,
    /// parameters of type `&[T]` or `&Vec<T>`
    slices: BTreeSet<String>,
    /// parameters of type `Vec<T>`
    vecs: BTreeSet<String>,
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let mut p = c.inputs[0].clone();
            if let Pat::Type(t) = p {
                p = *t.pat;
            }
            // `|ref x| ...x...` on a reference argument: auto-deref makes the extra level irrelevant
            if let Pat::Ident(i) = &mut p {
                i.by_ref = None;
            }
            return Some((p, (*c.body).clone()));
        }
    }
    None
}

fn closure0(e: &Expr) -> Option<Expr> {
    if let Expr::Closure(c) = e {
        if c.inputs.is_empty() {
            return Some((*c.body).clone());
        }
    }
    None
}

fn is_path_fn(e: &Expr) -> bool {
    matches!(e, Expr::Path(_))
}

impl<'c> Rw<'c> {
    fn n(&mut self) -> usize {
        self.fresh += 1;
        self.fresh - 1
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &m.receiver;
        let a: Vec<&Expr> = m.args.iter().collect();
        match (name.as_str(), a.len()) {
            ("map", 1) => {
                if let Some((p, b)) = closure1(a[0]) {
                    self.ctx.rule("option-map");
                    return Some(parse2(quote!(match #r { Some(#p) => Some(#b), None => None })).unwrap());
                }
                if is_path_fn(a[0]) {
                    let f = a[0];
                    self.ctx.rule("option-map");
                    return Some(parse2(quote!(match #r { Some(vx_x) => Some(#f(vx_x)), None => None })).unwrap());
                }
                None
            }
            ("and_then", 1) => {
                if let Some((p, b)) = closure1(a[0]) {
                    self.ctx.rule("option-and-then");
                    return Some(parse2(quote!(match #r { Some(#p) => #b, None => None })).unwrap());
                }
                None
            }
            ("or_else", 1) => {
                if let Some(b) = closure0(a[0]) {
                    self.ctx.rule("option-or-else");
                    return Some(parse2(quote!(match #r { Some(vx_x) => Some(vx_x), None => #b })).unwrap());
                }
                None
            }
            ("ok_or", 1) => {
                let d = a[0];
                self.ctx.rule("option-ok-or");
                Some(parse2(quote!({ let vx_o = #r; let vx_d = #d; match vx_o { Some(vx_x) => Ok(vx_x), None => Err(vx_d) } })).unwrap())
            }
            ("or", 1) => {
                let d = a[0];
                self.ctx.rule("option-or");
                Some(parse2(quote!({ let vx_o = #r; let vx_d = #d; match vx_o { Some(vx_x) => Some(vx_x), None => vx_d } })).unwrap())
            }
            ("ok_or_else", 1) => {
                if let Some(b) = closure0(a[0]) {
                    self.ctx.rule("option-ok-or-else");
                    return Some(parse2(quote!(match #r { Some(vx_x) => Ok(vx_x), None => Err(#b) })).unwrap());
                }
                None
            }
            ("map_err", 1) => {
                if let Some((p, b)) = closure1(a[0]) {
                    self.ctx.rule("result-map-err");
                    return Some(parse2(quote!(match #r { Ok(vx_x) => Ok(vx_x), Err(#p) => Err(#b) })).unwrap());
                }
                if is_path_fn(a[0]) {
                    let f = a[0];
                    self.ctx.rule("result-map-err");
                    return Some(parse2(quote!(match #r { Ok(vx_x) => Ok(vx_x), Err(vx_x) => Err(#f(vx_x)) })).unwrap());
                }
                None
            }
            ("is_some_and", 1) => {
                if let Some((p, b)) = closure1(a[0]) {
                    self.ctx.rule("option-is-some-and");
                    return Some(parse2(quote!(match #r { Some(#p) => #b, None => false })).unwrap());
                }
                None
            }
            ("map_or_else", 2) => {
                if let (Some(d), Some((p, b))) = (closure0(a[0]), closure1(a[1])) {
                    self.ctx.rule("option-map-or-else");
                    return Some(parse2(quote!(match #r { Some(#p) => #b, None => #d })).unwrap());
                }
                None
            }
            ("map_or", 2) => {
                if let Some((p, b)) = closure1(a[1]) {
                    let d = a[0];
                    self.ctx.rule("option-map-or");
                    return Some(parse2(quote!(match #r { Some(#p) => #b, None => #d })).unwrap());
                }
                None
            }
            ("unwrap_or_else", 1) => {
                if let Some(b) = closure0(a[0]) {
                    self.ctx.rule("option-unwrap-or-else");
                    return Some(parse2(quote!(match #r { Some(vx_x) => vx_x, None => #b })).unwrap());
                }
                None
            }
            ("filter", 1) => {
                if let Some((p, b)) = closure1(a[0]) {
                    self.ctx.rule("option-filter");
                    return Some(parse2(quote!(match #r { Some(vx_x) => { let vx_keep = { let #p = &vx_x; #b }; if vx_keep { Some(vx_x) } else { None } } None => None })).unwrap());
                }
                None
            }
            ("split_at", 1) => {
                let x = a[0];
                self.ctx.rule("str-split-at");
                Some(parse2(quote!(vx_split_at(#r, #x))).unwrap())
            }
            ("position", 1) => {
                if let Expr::MethodCall(it) = &**r {
                    if it.method == "iter" {
                        if let Some((p, b)) = closure1(a[0]) {
                            self.ctx.rule("iter-position");
                            let e = &it.receiver;
                            let k = self.n();
                            let (vi, vr, ve) = (format_ident!("vx_i{}", k), format_ident!("vx_r{}", k), format_ident!("vx_e{}", k));
                            return Some(parse2(quote!({
                                let #ve = &#e;
                                let mut #vi: usize = 0;
                                let mut #vr: Option<usize> = None;
                                while #vr.is_none() && #vi < #ve.len() { let #p = &#ve[#vi]; if #b { #vr = Some(#vi); } else { #vi += 1; } }
                                #vr
                            })).unwrap());
                        }
                    }
                }
                None
            }
            ("any", 1) | ("all", 1) => {
                if let Expr::MethodCall(it) = &**r {
                    if it.method == "iter" {
                        if let Some((p, b)) = closure1(a[0]) {
                            self.ctx.rule("iter-any-all");
                            let e = &it.receiver;
                            let k = self.n();
                            let any = name == "any";
                            let init = if any { quote!(false) } else { quote!(true) };
                            let cond = if any { quote!(#b) } else { quote!(!(#b)) };
                            let set = if any { quote!(true) } else { quote!(false) };
                            let (vi, vr, ve) = (format_ident!("vx_i{}", k), format_ident!("vx_r{}", k), format_ident!("vx_e{}", k));
                            let go = if any { quote!(!#vr) } else { quote!(#vr) };
                            return Some(parse2(quote!({
                                let #ve = &#e;
                                let mut #vi: usize = 0;
                                let mut #vr: bool = #init;
                                while #go && #vi < #ve.len() { let #p = &#ve[#vi]; if #cond { #vr = #set; } else { #vi += 1; } }
                                #vr
                            })).unwrap());
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let k = self.n();
        let (vi, ve, vt) = (format_ident!("vx_i{}", k), format_ident!("vx_e{}", k), format_ident!("vx_it{}", k));
        let vn = format_ident!("vx_n{}", k);
        let p = &f.pat;
        let stmts = &f.body.stmts;
        let lab = &f.label;
        let slice = |e: &Expr| -> Expr {
            parse2(quote!({
                let #ve = #e;
                let mut #vi: usize = 0;
                #lab while #vi < #ve.len() { let #p = &#ve[#vi]; #vi += 1; #(#stmts)* }
            }))
            .unwrap()
        };
        let owned = |e: &Expr| -> Expr {
            parse2(quote!({
                let mut #ve = #e;
                #lab while #ve.len() > 0 { let #p = #ve.remove(0); #(#stmts)* }
            }))
            .unwrap()
        };
        // `for (k, v) in map`: the entries of a map
        if let Pat::Tuple(t) = &**p {
            let adapter = matches!(&*f.expr, Expr::MethodCall(m) if !(m.args.is_empty() && m.method != "enumerate"));
            let vals = matches!(&*f.expr, Expr::Path(_) | Expr::Reference(_) | Expr::MethodCall(_) | Expr::Field(_));
            if t.elems.len() == 2 && !adapter && vals {
                self.ctx.rule("for-map-entries-to-index-loop");
                let e: Expr = match &*f.expr {
                    Expr::MethodCall(m) if m.method == "iter" => (*m.receiver).clone(),
                    e => e.clone(),
                };
                let e: Expr = match e {
                    Expr::Reference(r) => *r.expr,
                    e => e,
                };
                return Some(parse2(quote!({
                    let #ve = #e.vx_entries();
                    let mut #vi: usize = 0;
                    #lab while #vi < #ve.len() { let #p = #ve[#vi]; #vi += 1; #(#stmts)* }
                })).unwrap());
            }
        }
        let force_slice = self.spec.opts.contains(&format!("loop{}=slice", k)) || self.spec.opts.contains("loops=slice");
        match &*f.expr {
            Expr::Reference(r) if r.mutability.is_none() => {
                self.ctx.rule("for-slice-to-index-loop");
                Some(slice(&f.expr))
            }
            Expr::Range(r) => {
                let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    return None;
                }
                self.ctx.rule("for-range-to-while");
                Some(parse2(quote!({
                    let #vn = #b;
                    let mut #vi = #a;
                    #lab while #vi < #vn { let #p = #vi; #vi += 1; #(#stmts)* }
                })).unwrap())
            }
            Expr::MethodCall(m) if m.method == "chars" || m.method == "vx_chars" => {
                self.ctx.rule("for-chars-to-loop");
                let e = &f.expr;
                Some(parse2(quote!({
                    let mut #vt = #e;
                    #lab loop { match #vt.next() { Some(#p) => { #(#stmts)* } None => { break; } } }
                })).unwrap())
            }
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => {
                self.ctx.rule("for-into-iter-to-remove-loop");
                Some(owned(&m.receiver))
            }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                self.ctx.rule("for-slice-to-index-loop");
                let e = &m.receiver;
                let e: Expr = parse2(quote!(&#e)).unwrap();
                Some(slice(&e))
            }
            Expr::MethodCall(m) if m.method == "rev" && m.args.is_empty() => {
                if let Expr::MethodCall(i) = &*m.receiver {
                    if i.method == "iter" {
                        self.ctx.rule("for-rev-to-index-loop");
                        let e = &i.receiver;
                        return Some(parse2(quote!({
                            let #ve = &#e;
                            let mut #vi: usize = #ve.len();
                            #lab while #vi > 0 { #vi -= 1; let #p = &#ve[#vi]; #(#stmts)* }
                        })).unwrap());
                    }
                }
                None
            }
            Expr::Path(x) if x.path.get_ident().map_or(false, |i| self.slices.contains(&i.to_string())) => {
                self.ctx.rule("for-slice-to-index-loop");
                Some(slice(&f.expr))
            }
            Expr::Path(x) if x.path.get_ident().map_or(false, |i| self.vecs.contains(&i.to_string())) => {
                self.ctx.rule("for-into-iter-to-remove-loop");
                Some(owned(&f.expr))
            }
            e if force_slice => {
                self.ctx.rule("for-slice-to-index-loop");
                Some(slice(e))
            }
            e if self.spec.opts.contains(&format!("loop{}=next", k)) => {
                self.ctx.rule("for-iterator-to-loop");
                Some(parse2(quote!({
                    let mut #vt = #e;
                    #lab loop { match #vt.vx_next() { Some(#p) => { #(#stmts)* } None => { break; } } }
                })).unwrap())
            }
            _ => None,
        }
    }

    fn slice_fn(&mut self, base: &Expr, r: &ExprRange) -> Option<Expr> {
        self.ctx.rule("str-slice");
        let e: TokenStream = match (&r.start, &r.end) {
            (None, None) => quote!(vx_full(&#base)),
            (Some(a), None) => quote!(vx_slice_from(&#base, #a)),
            (None, Some(b)) => quote!(vx_slice_to(&#base, #b)),
            (Some(a), Some(b)) if is_bytes(base) => quote!(vx_bytes(#base, #a, #b)),
            (Some(a), Some(b)) => quote!(vx_slice(&#base, #a, #b)),
        };
        parse2(e).ok()
    }
}

fn is_log(m: &Macro) -> bool {
    m.path.segments.len() == 1 && LOGS.iter().any(|l| m.path.is_ident(l))
}

impl<'c> VisitMut for Rw<'c> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let mut it = stmts.into_iter();
        while let Some(s) = it.next() {
            match &s {
                Stmt::Macro(m) if is_log(&m.mac) => {
                    self.ctx.rule("drop-log-macro");
                    continue;
                }
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Local(l) => {
                    // `let e: &mut FlattenedTrait = match .. { arms }; rest` -> rest copied into every arm
                    if let Pat::Type(pt) = &l.pat {
                        if let Type::Reference(r) = &*pt.ty {
                            let tn = type_name(&r.elem);
                            let base = tn.clone();
                            if self.ctx.ov.flatten.contains(&base) {
                                if let (Pat::Ident(id), Some(init)) = (&*pt.pat, &l.init) {
                                    if let Expr::Match(m) = &*init.expr {
                                        self.ctx.rule("dyn-let-continuation");
                                        let rest: Vec<Stmt> = it.by_ref().collect();
                                        let name = &id.ident;
                                        let mut m2 = m.clone();
                                        for a in m2.arms.iter_mut() {
                                            let body = &a.body;
                                            a.body = parse2(quote!({ let #name = #body; #(#rest)* })).unwrap();
                                            a.comma = None;
                                        }
                                        out.push(Stmt::Expr(Expr::Match(m2), None));
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                    out.push(s);
                }
                _ => out.push(s),
            }
        }
        // a log macro in tail position leaves a unit block
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
        // macros that expand to statements
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Macro(m) = &s {
                if let Some(e) = self.mac(&m.mac) {
                    let mut e = e;
                    self.visit_expr_mut(&mut e);
                    out.push(Stmt::Expr(e, m.semi_token));
                    continue;
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // macros first: they may contain further code to rewrite
        if let Expr::Macro(m) = e {
            if is_log(&m.mac) {
                self.ctx.rule("drop-log-macro");
                *e = parse2(quote!(())).unwrap();
                return;
            }
            if let Some(mut x) = self.mac(&m.mac) {
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
            return;
        }
        if let Expr::Match(m) = e {
            if let Some(x) = str_match(m) {
                self.ctx.rule("match-on-string-literals");
                *e = x;
            }
        }
        if let Expr::Binary(b) = e {
            if is_bytes(&b.left) || is_bytes(&b.right) {
                let (l, r) = (&b.left, &b.right);
                let x = match b.op {
                    BinOp::Eq(_) => Some(quote!(vx_bytes_eq(#l, #r))),
                    BinOp::Ne(_) => Some(quote!(!vx_bytes_eq(#l, #r))),
                    _ => None,
                };
                if let Some(x) = x {
                    self.ctx.rule("bytes-equality");
                    *e = parse2(x).unwrap();
                }
            }
        }
        if let Expr::Binary(b) = e {
            let is_ord = |x: &Expr| matches!(x, Expr::Path(p) if p.path.segments.len() >= 2
                && p.path.segments[p.path.segments.len() - 2].ident == "Ordering");
            if is_ord(&b.left) || is_ord(&b.right) {
                let (l, r) = (&b.left, &b.right);
                let x = match b.op {
                    BinOp::Eq(_) => Some(quote!(vx_ord_eq(#l, #r))),
                    BinOp::Ne(_) => Some(quote!(!vx_ord_eq(#l, #r))),
                    _ => None,
                };
                if let Some(x) = x {
                    self.ctx.rule("ordering-equality");
                    *e = parse2(x).unwrap();
                }
            }
        }
        if let Expr::Try(t) = e {
            let x = match &*t.expr {
                Expr::Paren(p) => &p.expr,
                x => x,
            };
            self.ctx.rule("question-mark");
            let n: Expr = if self.ret_opt {
                parse2(quote!(match #x { Some(vx_ok) => vx_ok, None => { return None; } })).unwrap()
            } else {
                let conv = if self.spec.opts.contains("tryid") { quote!(vx_err) } else { quote!(VxFrom::vx_from(vx_err)) };
                parse2(quote!(match #x { Ok(vx_ok) => vx_ok, Err(vx_err) => { return Err(#conv); } })).unwrap()
            };
            *e = n;
        }
        // for/while-let are numbered in source order, so rewrite before descending
        if let Expr::ForLoop(f) = e {
            if let Some(x) = self.for_loop(f) {
                *e = x;
            }
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                self.ctx.rule("while-let-to-loop");
                let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse2(quote!(#lab loop { match #x { #p => #b _ => { break; } } })).unwrap();
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(x) = self.method(m) {
                *e = x;
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        if let Some(mut x) = self.slice_fn(&ix.expr, rg) {
                            visit_mut::visit_expr_mut(self, &mut x);
                            *e = x;
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::Index(ix) = e {
            if let Expr::Range(rg) = &*ix.index {
                if let Some(mut x) = self.slice_fn(&ix.expr, rg) {
                    visit_mut::visit_expr_mut(self, &mut x);
                    *e = x;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let full = segs.join("::");
                    if full == "Box::new" && self.boxdyn.is_some() {
                        self.ctx.rule("unsize-box");
                        let id = format_ident!("{}", self.boxdyn.clone().unwrap());
                        c.func = Box::new(parse2(quote!(#id)).unwrap());
                    } else if segs.len() > 1 && segs[segs.len() - 1] == "from" && (segs[segs.len() - 2] == "From" || self.ctx.ov.from.contains(&segs[segs.len() - 2])) {
                        self.ctx.rule("from-call-to-VxFrom");
                        c.func = Box::new(parse2(quote!(VxFrom::vx_from)).unwrap());
                    } else if full.ends_with("ParseResult::new") {
                        if let Some(Expr::Path(a)) = c.args.first() {
                            if a.path.is_ident("self") {
                                self.ctx.rule("unsize-ref");
                                c.args[0] = parse2(quote!(vx_as_dyn(self))).unwrap();
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                // `(&mut x).m()` -> `x.m()`
                if let Expr::Paren(p) = &*m.receiver {
                    if let Expr::Reference(r) = &*p.expr {
                        if matches!(&*r.expr, Expr::Path(_)) {
                            self.ctx.rule("auto-ref");
                            m.receiver = r.expr.clone();
                        }
                    }
                }
                let name = m.method.to_string();
                let to = self.spec.renames.get(&name).or_else(|| self.ctx.ov.methods.get(&name)).cloned();
                if let Some(to) = to {
                    self.ctx.rule(&format!("std-wrapper .{}", name));
                    m.method = format_ident!("{}", to);
                }
            }
            Expr::Match(m) => {
                // `match *x { A(ref y) => .. }` -> `match x { A(y) => .. }`
                if let Expr::Unary(u) = &*m.expr {
                    if matches!(u.op, UnOp::Deref(_)) {
                        let mut has = HasRef(false);
                        for a in &m.arms {
                            has.visit_pat(&a.pat);
                        }
                        if has.0 {
                            self.ctx.rule("ref-pattern");
                            let inner = (*u.expr).clone();
                            m.expr = Box::new(inner);
                            for a in m.arms.iter_mut() {
                                DropRef.visit_pat_mut(&mut a.pat);
                            }
                        }
                    }
                }
            }
            Expr::Paren(p) => {
                if let Expr::Paren(q) = &*p.expr {
                    let inner = (*q.expr).clone();
                    p.expr = Box::new(inner);
                }
                if matches!(&*p.expr, Expr::Path(_)) {
                    let inner = (*p.expr).clone();
                    *e = inner;
                }
            }
            _ => {}
        }
    }
}

/// bytes of a string, or a slice of them
fn is_bytes(e: &Expr) -> bool {
    match e {
        Expr::Reference(r) => is_bytes(&r.expr),
        Expr::Index(i) => is_bytes(&i.expr),
        Expr::Paren(i) => is_bytes(&i.expr),
        Expr::MethodCall(m) => m.method == "as_bytes",
        _ => false,
    }
}
/// `match s { "a" => x, _ => y }` -> `if s == "a" { x } else { y }`
fn str_match(m: &ExprMatch) -> Option<Expr> {
    fn lits(p: &Pat) -> Option<Vec<Expr>> {
        match p {
            Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![Expr::Lit(l.clone())]),
            Pat::Or(o) => {
                let mut v = vec![];
                for c in &o.cases {
                    v.extend(lits(c)?);
                }
                Some(v)
            }
            _ => None,
        }
    }
    let n = m.arms.len();
    if n < 2 || m.arms.iter().any(|a| a.guard.is_some()) || !matches!(m.arms[n - 1].pat, Pat::Wild(_)) {
        return None;
    }
    let last = &m.arms[n - 1].body;
    let mut out = quote!({ #last });
    for a in m.arms[..n - 1].iter().rev() {
        let ls = lits(&a.pat)?;
        let b = &a.body;
        out = quote!(if #(vx_m == #ls)||* { #b } else { #out });
    }
    let x = &m.expr;
    parse2(quote!({ let vx_m: &str = #x; #out })).ok()
}
struct HasRef(bool);
impl<'a> Visit<'a> for HasRef {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if p.by_ref.is_some() {
            self.0 = true;
        }
    }
}
struct DropRef;
impl VisitMut for DropRef {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        p.by_ref = None;
    }
}

impl<'c> Rw<'c> {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "unreachable" | "panic" => {
                self.ctx.rule("panic-needs-proof");
                Some(parse2(quote!(vx_unreachable())).unwrap())
            }
            "vec" => {
                if m.tokens.is_empty() {
                    self.ctx.rule("vec-macro");
                    return Some(parse2(quote!(Vec::new())).unwrap());
                }
                let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                let xs = syn::parse::Parser::parse2(p, m.tokens.clone()).ok()?;
                self.ctx.rule("vec-macro");
                let xs = xs.iter();
                Some(parse2(quote!({ let mut vx_v = Vec::new(); #(vx_v.push(#xs);)* vx_v })).unwrap())
            }
            "format" => {
                self.ctx.rule("opaque-format");
                Some(parse2(quote!(vx_format())).unwrap())
            }
            _ => {
                let def = self.ctx.macros.get(&name)?.clone();
                self.ctx.rule("expand-macro_rules");
                let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                let xs: Vec<Expr> = syn::parse::Parser::parse2(p, m.tokens.clone()).ok()?.into_iter().collect();
                let mut env = BTreeMap::new();
                for (n, x) in def.0.iter().zip(xs.iter()) {
                    env.insert(n.clone(), quote!(#x));
                }
                let body = subst(def.1.clone(), &env);
                Some(parse2(quote!({ #body })).unwrap_or_else(|e| die(format!("macro {}: {}", name, e))))
            }
        }
    }
}

fn subst(t: TokenStream, env: &BTreeMap<String, TokenStream>) -> TokenStream {
    use proc_macro2::*;
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut k = 0;
    while k < v.len() {
        match &v[k] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(i)) = v.get(k + 1) {
                    if let Some(x) = env.get(&i.to_string()) {
                        out.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, x.clone())));
                        k += 2;
                        continue;
                    }
                }
                out.push(v[k].clone());
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), env)))),
            x => out.push(x.clone()),
        }
        k += 1;
    }
    out.into_iter().collect()
}

/// single-arm `macro_rules!` with `$x:expr` parameters separated by commas
pub fn macro_def(m: &ItemMacro) -> Option<(String, (Vec<String>, TokenStream))> {
    use proc_macro2::*;
    let name = m.ident.as_ref()?.to_string();
    let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let args = match v.first()? {
        TokenTree::Group(g) => g.stream(),
        _ => return None,
    };
    let body = v.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).nth(1)?.stream();
    let mut names = vec![];
    let a: Vec<TokenTree> = args.into_iter().collect();
    let mut k = 0;
    while k < a.len() {
        if let TokenTree::Punct(p) = &a[k] {
            if p.as_char() == '$' {
                if let Some(TokenTree::Ident(i)) = a.get(k + 1) {
                    names.push(i.to_string());
                }
            }
        }
        k += 1;
    }
    Some((name, (names, body)))
}

// ---------------------------------------------------------------- splicing of ghost text

struct Splice<'c> {
    spec: &'c FnSpec,
    loops: usize,
    closures: usize,
    lets: BTreeMap<String, usize>,
    arms: BTreeMap<String, usize>,
    calls_b: BTreeMap<String, usize>,
    calls_a: BTreeMap<String, usize>,
}

fn proof_stmt(t: &str) -> Stmt {
    let t = ts(t);
    Stmt::Expr(Expr::Verbatim(quote!(proof { #t })), None)
}

fn raw_stmt(t: &str) -> Stmt {
    let t = ts(t);
    Stmt::Expr(Expr::Verbatim(t), None)
}

fn squash(t: TokenStream) -> String {
    t.to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

struct CallNames(Vec<String>);
impl<'a> Visit<'a> for CallNames {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
    }
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_arm(&mut self, _: &'a Arm) {}
}

impl<'c> Splice<'c> {
    fn after_let_text(&mut self, name: &str) -> Option<String> {
        let k = *self.lets.entry(name.into()).and_modify(|x| *x += 1).or_insert(0);
        self.spec.after_let.iter().find(|(n, i, _)| n == name && *i == k).map(|x| x.2.clone())
    }
    fn call_hooks(&mut self, s: &Stmt) -> (Vec<String>, Vec<String>) {
        let mut c = CallNames(vec![]);
        c.visit_stmt(s);
        let (mut b, mut a) = (vec![], vec![]);
        for n in c.0 {
            let k = *self.calls_b.entry(n.clone()).and_modify(|x| *x += 1).or_insert(0);
            for (m, i, t) in &self.spec.before_call {
                if *m == n && *i == k {
                    b.push(t.clone());
                }
            }
            let k = *self.calls_a.entry(n.clone()).and_modify(|x| *x += 1).or_insert(0);
            for (m, i, t) in &self.spec.after_call {
                if *m == n && *i == k {
                    a.push(t.clone());
                }
            }
        }
        (b, a)
    }
}

impl<'c> VisitMut for Splice<'c> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let (bef, aft) = self.call_hooks(&s);
            // a loop statement gets its before/after text
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_), _) | Stmt::Expr(Expr::Loop(_), _) | Stmt::Expr(Expr::ForLoop(_), _));
            let lk = self.loops;
            if is_loop {
                if let Some(t) = self.spec.loop_before.get(&lk) {
                    out.push(raw_stmt(t));
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            for t in bef {
                out.push(proof_stmt(&t));
            }
            let mut add = None;
            if let Stmt::Local(l) = &s {
                let mut names = PatNames(vec![]);
                names.visit_pat(&l.pat);
                for n in names.0 {
                    if let Some(t) = self.after_let_text(&n) {
                        add = Some(t);
                    }
                }
            }
            if let Stmt::Expr(e, semi) = &mut s {
                // loops are statements of unit type
                if is_loop && semi.is_none() && matches!(e, Expr::Verbatim(_)) {}
            }
            out.push(s);
            for t in aft {
                out.push(proof_stmt(&t));
            }
            if let Some(t) = add {
                out.push(proof_stmt(&t));
            }
            if is_loop {
                if let Some(t) = self.spec.loop_after.get(&lk) {
                    out.push(proof_stmt(t));
                }
            }
        }
        b.stmts = out;
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let p = squash(a.pat.to_token_stream());
        let k = *self.arms.entry(p.clone()).and_modify(|x| *x += 1).or_insert(0);
        visit_mut::visit_arm_mut(self, a);
        for (n, i, t) in &self.spec.arms {
            if *n == p && *i == k {
                let t = ts(t);
                let b = &a.body;
                let nb: TokenStream = match &**b {
                    Expr::Block(x) => {
                        let st = &x.block.stmts;
                        quote!({ proof { #t } #(#st)* })
                    }
                    x => quote!({ proof { #t } #x }),
                };
                a.body = Box::new(Expr::Verbatim(nb));
                a.comma = Some(Default::default());
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_mut(self, e);
                let inv = ts(self.spec.loops.get(&k).map(|x| x.as_str()).unwrap_or(""));
                let lb = self.spec.loop_begin.get(&k).map(|x| { let t = ts(x); quote!(proof { #t }) });
                let le = self.spec.loop_end.get(&k).map(|x| { let t = ts(x); quote!(proof { #t }) });
                let nt: TokenStream = match e {
                    Expr::While(w) => {
                        let (lab, c, st) = (&w.label, &w.cond, &w.body.stmts);
                        let inv = if inv.is_empty() { default_decreases(&w.cond) } else { inv };
                        quote!(#lab while #c #inv { #lb #(#st)* #le })
                    }
                    Expr::Loop(w) => {
                        let (lab, st) = (&w.label, &w.body.stmts);
                        quote!(#lab loop #inv { #lb #(#st)* #le })
                    }
                    Expr::ForLoop(w) => {
                        let (lab, p, x, st) = (&w.label, &w.pat, &w.expr, &w.body.stmts);
                        quote!(#lab for #p in #x #inv { #lb #(#st)* #le })
                    }
                    _ => unreachable!(),
                };
                *e = Expr::Verbatim(nt);
            }
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                if let Some(t) = self.spec.closures.get(&k) {
                    let t = ts(t);
                    let (p, b) = (&c.inputs, &c.body);
                    *e = Expr::Verbatim(quote!(|#p| #t { #b }));
                } else {
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// names of the functions called, and the kinds of the loops, in the rewritten text
#[derive(Default)]
pub struct Shape {
    pub calls: BTreeSet<String>,
    pub loops: Vec<String>,
}
impl<'a> Visit<'a> for Shape {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.calls.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let v: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
            let n = v.len();
            // what a trait of std does depends on the type, which is not visible here
            if n > 1 && ["Default", "From", "Into", "Clone", "Iterator", "ToString", "FromStr", "FromIterator", "AsRef", "Borrow", "ToOwned"].contains(&v[n - 2].as_str()) {
                self.calls.insert(format!("{}::{}", v[n - 2], v[n - 1]));
            } else {
                self.calls.insert(v[n - 1].clone());
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_while(&mut self, w: &'a ExprWhile) {
        let c = squash(w.cond.to_token_stream());
        self.loops.push(if c.contains("vx_") { c } else { "while".into() });
        visit::visit_expr_while(self, w);
    }
    fn visit_expr_loop(&mut self, w: &'a ExprLoop) {
        // what a while-let asks at every step
        let asked = match w.body.stmts.first() {
            Some(Stmt::Expr(Expr::Match(m), _)) => match &*m.expr {
                Expr::MethodCall(c) => format!("loop {}", c.method.to_string().trim_start_matches("vx_")),
                Expr::Path(_) => "loop var".into(),
                _ => "loop".into(),
            },
            _ => "loop".to_string(),
        };
        self.loops.push(asked);
        visit::visit_expr_loop(self, w);
    }
    fn visit_expr_for_loop(&mut self, w: &'a ExprForLoop) {
        self.loops.push("for".into());
        visit::visit_expr_for_loop(self, w);
    }
}

/// loops made by the for-rewriting have an obvious measure
fn default_decreases(c: &Expr) -> TokenStream {
    let s = squash(c.to_token_stream());
    if let Some(r) = s.strip_prefix("vx_i") {
        if let Some((k, rest)) = r.split_once('<') {
            if rest.starts_with("vx_e") {
                let (i, e) = (format_ident!("vx_i{}", k), format_ident!("vx_e{}", k));
                return quote!(decreases #e.len() - #i,);
            }
            if rest.starts_with("vx_n") {
                let (i, n) = (format_ident!("vx_i{}", k), format_ident!("vx_n{}", k));
                return quote!(decreases #n - #i,);
            }
        }
    }
    quote!()
}

struct PatNames(Vec<String>);
impl<'a> Visit<'a> for PatNames {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.push(p.ident.to_string());
    }
}

struct HasLoop(bool);
impl<'a> Visit<'a> for HasLoop {
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {
        self.0 = true;
    }
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {
        self.0 = true;
    }
}

// ---------------------------------------------------------------- entry point

pub fn rewrite_fn(ctx: &mut Ctx, key: &str, f: &mut ImplItemFn, spec: &FnSpec) -> (bool, Vec<String>, Shape) {
    // parameters declared `mut`
    let mut lets: Vec<Stmt> = vec![];
    for a in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &mut *t.pat {
                if i.mutability.is_some() && i.by_ref.is_none() {
                    i.mutability = None;
                    let id = &i.ident;
                    lets.push(parse2(quote!(let mut #id = #id;)).unwrap());
                    ctx.rule("mut-parameter");
                }
            }
        }
    }
    if !ctx.inlinable.is_empty() {
        let tparams = f.sig.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
        Inliner { ctx, depth: 0, own: key.to_string(), tparams }.visit_block_mut(&mut f.block);
    }
    // calls of functions of which the proof knows nothing
    let mut calls = Calls(BTreeSet::new());
    calls.visit_block(&f.block);
    let opaque: Vec<String> = ctx.opaque.iter().filter(|o| calls.0.contains(*o)).cloned().collect();
    for o in opaque {
        ctx.inlined.insert(format!("opaque {}", o));
    }
    let boxdyn = match &f.sig.output {
        ReturnType::Type(_, t) => {
            let s = squash(t.to_token_stream());
            if s.contains("Box<Parser>") || s.contains("Box<dynParser>") {
                Some("vx_box_dyn".to_string())
            } else if s.contains("Box<Matcher>") || s.contains("Box<dynMatcher>") {
                Some("vx_box_matcher".to_string())
            } else {
                None
            }
        }
        _ => None,
    };
    let (mut slices, mut vecs) = (BTreeSet::new(), BTreeSet::new());
    for a in f.sig.inputs.iter() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &*t.pat {
                match &*t.ty {
                    Type::Reference(r) if r.mutability.is_none() && (matches!(&*r.elem, Type::Slice(_)) || type_name(&r.elem) == "Vec") => {
                        slices.insert(i.ident.to_string());
                    }
                    Type::Path(_) if type_name(&t.ty) == "Vec" => {
                        vecs.insert(i.ident.to_string());
                    }
                    _ => {}
                }
            }
        }
    }
    let ret_opt = returns_option(&f.sig);
    Rw { ctx, spec, fresh: 0, boxdyn, ret_opt, slices, vecs }.visit_block_mut(&mut f.block);
    TypeFix { ctx }.visit_impl_item_fn_mut(f);
    let mut hl = HasLoop(false);
    hl.visit_block(&f.block);
    let mut shape = Shape::default();
    shape.visit_block(&f.block);
    let mut sp = Splice {
        spec,
        loops: 0,
        closures: 0,
        lets: BTreeMap::new(),
        arms: BTreeMap::new(),
        calls_b: BTreeMap::new(),
        calls_a: BTreeMap::new(),
    };
    sp.visit_block_mut(&mut f.block);
    let mut stmts = lets;
    if !spec.begin.trim().is_empty() {
        stmts.insert(0, proof_stmt(&spec.begin));
    }
    stmts.extend(std::mem::take(&mut f.block.stmts));
    if !spec.end.trim().is_empty() {
        let t = ts(&spec.end);
        match stmts.last().cloned() {
            Some(Stmt::Expr(e, None)) if !matches!(f.sig.output, ReturnType::Default) => {
                stmts.pop();
                stmts.push(Stmt::Expr(Expr::Verbatim(quote!(let vx_ret = #e; proof { #t } vx_ret)), None));
            }
            _ => stmts.push(Stmt::Expr(Expr::Verbatim(quote!(proof { #t })), None)),
        }
    }
    f.block.stmts = stmts;
    let mut lost: Vec<String> = vec![];
    for k in spec.loops.keys().chain(spec.loop_begin.keys()).chain(spec.loop_end.keys()).chain(spec.loop_after.keys()) {
        if *k >= sp.loops {
            lost.push(format!("loop {}", k));
        }
    }
    // a loop of which nothing is said is one the proof does not know
    for k in 0..sp.loops {
        if !spec.loops.contains_key(&k) && !(spec.contract.trim().is_empty() && spec.loops.is_empty()) {
            lost.push(format!("unknown loop {}", k));
        }
    }
    for k in spec.closures.keys() {
        if *k >= sp.closures {
            lost.push(format!("closure {}", k));
        }
    }
    for (n, i, _) in &spec.after_let {
        if sp.lets.get(n).map_or(true, |x| x < i) {
            lost.push(format!("let {} {}", n, i));
        }
    }
    for (n, i, _) in &spec.arms {
        if sp.arms.get(n).map_or(true, |x| x < i) {
            lost.push(format!("arm {} {}", n, i));
        }
    }
    for (n, i, _) in spec.before_call.iter().chain(spec.after_call.iter()) {
        if sp.calls_b.get(n).map_or(true, |x| x < i) {
            lost.push(format!("call {} {}", n, i));
        }
    }
    (hl.0, lost, shape)
}
