//! The rewrites from the repository's Rust to the subset Verus accepts.
//! Each keeps the meaning of the code under the stated assumptions:
//!  R1  memo!(n =>> f, a:x ;; g:y)  -> f(x, y)            (memoization is transparent)
//!      get!(a) -> force(&a); println! dropped; panic!/unreachable! -> vpanic() (must be unreachable)
//!      assert!(c) -> vassert(c) (must hold); vec![..] -> pushes
//!  R2  let-bound closures that are only called -> inlined at the calls
//!  R3  Option combinators with closures -> match; expect -> unwrap
//!  R4  while / while let / for -> loop with break; iter().map()/fold()/collect() chains -> index loops
//!  R5  x.clone() -> x.vclone() (a clone equals the original); x.into() -> x.vinto(); x.extend(y) -> x.vextend(y)
//!  R6  `mut self`, `mut` and pattern parameters -> let bindings
//!  R7  `&pat` patterns -> default binding modes
//!  R8  helper functions without a contract -> inlined
use crate::spec::FnSpec;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub name: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub sig: Signature,
    pub block: Block,
    pub impl_generics: Vec<String>,
}

#[derive(Default)]
pub struct Ctx {
    /// the function is one of the evaluation crate's
    pub harness: std::cell::Cell<bool>,
    pub known: BTreeSet<String>,
    pub helpers: Vec<Helper>,
}

pub struct Out {
    pub sig: Signature,
    pub param_names: Vec<String>,
    pub body: String,
    pub inlined: Vec<String>,
    pub calls: BTreeSet<String>,
    pub loops: usize,
    pub closures: usize,
    pub locals: Vec<String>,
}

fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
pub fn nows(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

const RESERVED: [&str; 19] = ["nat", "int", "real", "old", "spec", "proof", "exec", "ghost", "tracked", "choose", "forall", "exists", "open", "closed", "assume", "broadcast", "hide", "reveal", "assert"];

pub fn rewrite(ctx: &Ctx, spec: &FnSpec, sig: &Signature, block: &Block) -> std::result::Result<Out, Vec<String>> {
    let mut sig = sig.clone();
    let mut block = block.clone();
    let mut errs: Vec<String> = vec![];
    let mut inlined = vec![];
    let locals = binders(&sig, &block);
    if !spec.locals.is_empty() { alpha(&mut sig, &mut block, &locals, &spec.locals) }
    // local names Verus reserves
    let reserved: BTreeMap<String, String> = binders(&sig, &block).into_iter().filter(|n| RESERVED.contains(&n.as_str())).map(|n| (n.clone(), format!("{}_", n))).collect();
    if !reserved.is_empty() {
        let mut r = Alpha(reserved);
        for a in sig.inputs.iter_mut() { if let FnArg::Typed(p) = a { r.visit_pat_mut(&mut p.pat) } }
        r.visit_block_mut(&mut block);
    }
    let lets = fix_params(&mut sig, &mut block, spec.params.as_deref(), &mut errs);
    let param_names = sig.inputs.iter().filter_map(|a| match a {
        FnArg::Typed(p) => Some(p.pat.to_token_stream().to_string()), _ => None }).collect();
    // ghost names for the initial values of `mut` parameters
    let mut ghosts = String::new();
    for st in &lets {
        if let Stmt::Local(l) = st {
            if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                if pi.mutability.is_some() && init.expr.to_token_stream().to_string() == pi.ident.to_string() {
                    ghosts.push_str(&format!(" let ghost {0}__0 = {0} ; ", pi.ident));
                }
            }
        }
    }
    let mut stmts = lets;
    stmts.extend(block.stmts.drain(..));
    block.stmts = stmts;
    strip_inner_items(&mut block);
    Macros { errs: &mut errs }.visit_block_mut(&mut block);
    Harness { on: ctx.harness.get(), errs: &mut errs }.visit_block_mut(&mut block);
    inline_helpers(ctx, &mut block, &mut errs, &mut inlined);
    InlineClosures { errs: &mut errs }.visit_block_mut(&mut block);
    // parameters holding a shared function: passing one is a call of a method of the repository
    let shared = sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(p) if nows(&p.ty.to_token_stream().to_string()).starts_with("Rc<") => Some(p.pat.to_token_stream().to_string()), _ => None }).collect();
    Options { shared, errs: &mut errs }.visit_block_mut(&mut block);
    RefPats { errs: &mut errs }.visit_block_mut(&mut block);
    let mut n = Number { spec, loops: 0, closures: 0, iters: BTreeMap::new(), errs: &mut errs };
    n.visit_block_mut(&mut block);
    let (loops, closures) = (n.loops, n.closures);
    Renames { eq: spec.eq, errs: &mut errs }.visit_block_mut(&mut block);
    let mut calls = CallNames::default();
    calls.visit_block(&block);
    for (i, (callee, k, _)) in spec.before_call.iter().enumerate() { wrap_call(&mut block, callee, *k, i, false); }
    for (i, (callee, k, _)) in spec.after_call.iter().enumerate() { wrap_call(&mut block, callee, *k, i, true); }
    StripInl.visit_block_mut(&mut block);
    if !errs.is_empty() { return Err(errs) }
    let has_ret = has_return(&block);
    let body = block.to_token_stream().to_string();
    let mut body = fill(body, spec);
    if !spec.entry.trim().is_empty() {
        body = format!("{{ proof {{ {} }} {}", spec.entry, body.trim_start().strip_prefix('{').unwrap());
    }
    for l in spec.ghost.lines() { if !l.trim().is_empty() { ghosts.push_str(&format!(" let ghost {} ", l.trim())); } }
    if !ghosts.is_empty() {
        body = format!("{{ {} {}", ghosts, body.trim_start().strip_prefix('{').unwrap());
    }
    if !spec.exit.trim().is_empty() {
        if has_ret { return Err(vec!["early return with an exit proof".into()]) }
        body = format!("{{ let __res = {}; proof {{ {} }} __res }}", body, spec.exit);
    }
    if !spec.hide.is_empty() {
        let h: String = spec.hide.iter().map(|x| format!(" hide({}); ", x)).collect();
        body = format!("{{ {} {}", h, body.trim_start().strip_prefix('{').unwrap());
    }
    Ok(Out { sig, param_names, body: pretty(&body), inlined, calls: calls.0, loops, closures, locals })
}

fn fill(mut s: String, spec: &FnSpec) -> String {
    // loops
    for k in 0..200 {
        let pat = format!("{{ __inv ! ({}) ;", k);
        if !s.contains(&pat) { continue }
        let txt = spec.loops.get(&k).cloned().unwrap_or_default();
        let ls = spec.loopstart.get(&k).map(|t| format!(" proof {{ {} }} ", t)).unwrap_or_default();
        s = s.replace(&pat, &format!(" {} {{ {}", txt, ls));
        for (tag, m) in [("__lend", &spec.loopend), ("__bl", &spec.beforeloop), ("__al", &spec.afterloop)] {
            let t = m.get(&k).map(|t| format!(" proof {{ {} }} ", t)).unwrap_or_default();
            s = s.replace(&format!("{} ! ({}) ;", tag, k), &t);
        }
    }
    for k in 0..200 {
        let pat = format!("| __cloh | {{ __clo ! ({}) ;", k);
        if let Some((h, txt)) = spec.closures.get(&k) {
            let (ps, ret) = closure_header(h);
            let ce = spec.closure_entry.get(&k).map(|t| format!(" proof {{ {} }} ", t)).unwrap_or_default();
            s = s.replace(&pat, &format!("|{}| {} {} {{ {}", ps.join(", "), ret, txt, ce));
        }
    }
    for (k, t) in spec.closure_after.iter() {
        s = s.replace(&format!("__ca ! ({}) ;", k), &format!(" proof {{ {} }} ", t));
    }
    for (i, (_, _, t)) in spec.before_call.iter().enumerate() {
        s = s.replace(&format!("__bc ! ({}) ;", i), &format!(" proof {{ {} }} ", t));
    }
    for (i, (_, _, t)) in spec.after_call.iter().enumerate() {
        s = s.replace(&format!("__ac ! ({}) ;", i), &format!(" proof {{ {} }} ", t));
    }
    s
}

/// `(a: T, b: U) -> (r: V)` -> (["a: T","b: U"], "-> (r: V)")
fn closure_header(h: &str) -> (Vec<String>, String) {
    let h = h.trim();
    let mut depth = 0i32;
    let mut end = h.len();
    let cs: Vec<char> = h.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        match c { '(' | '[' | '{' => depth += 1, ')' | ']' | '}' => { depth -= 1; if depth == 0 { end = i; break } } _ => {} }
    }
    let inner: String = cs[1..end].iter().collect();
    let ret: String = cs[end + 1..].iter().collect();
    let mut ps = vec![];
    let mut cur = String::new();
    let mut d = 0i32;
    let mut prev = ' ';
    for c in inner.chars() {
        match c { '(' | '[' | '<' => d += 1, ')' | ']' => d -= 1, '>' => { if prev != '-' { d -= 1 } } _ => {} }
        prev = c;
        if c == ',' && d == 0 { ps.push(cur.trim().to_string()); cur.clear() } else { cur.push(c) }
    }
    if !cur.trim().is_empty() { ps.push(cur.trim().to_string()) }
    (ps, ret)
}

fn strip_inner_items(b: &mut Block) {
    b.stmts.retain(|s| !matches!(s, Stmt::Item(_)));
}

/// R6
fn fix_params(sig: &mut Signature, block: &mut Block, canon: Option<&[String]>, errs: &mut Vec<String>) -> Vec<Stmt> {
    let mut lets: Vec<Stmt> = vec![];
    let mut n = 0;
    let mut self_mut = false;
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                if r.mutability.is_some() && r.reference.is_none() { r.mutability = None; r.ty = Box::new(parse_quote!(Self)); self_mut = true; }
            }
            FnArg::Typed(p) => {
                let cname = canon.and_then(|c| c.get(n).cloned());
                let real = (*p.pat).clone();
                match &real {
                    Pat::Ident(pi) if pi.by_ref.is_none() && pi.subpat.is_none() => {
                        let rn = pi.ident.clone();
                        let cn = match &cname { Some(c) => id(c), None => rn.clone() };
                        if pi.mutability.is_some() { lets.push(parse_quote!(let mut #rn = #cn;)); }
                        else if cn != rn { lets.push(parse_quote!(let #rn = #cn;)); }
                        p.pat = Box::new(parse_quote!(#cn));
                    }
                    Pat::Wild(_) => { let cn = id(&cname.unwrap_or(format!("__p{}", n))); p.pat = Box::new(parse_quote!(#cn)); }
                    Pat::Reference(r) => {
                        let cn = id(&cname.unwrap_or(format!("__p{}", n)));
                        let inner = &r.pat;
                        lets.push(parse_quote!(let #inner = *#cn;));
                        p.pat = Box::new(parse_quote!(#cn));
                    }
                    other => {
                        let cn = id(&cname.unwrap_or(format!("__p{}", n)));
                        lets.push(parse_quote!(let #other = #cn;));
                        p.pat = Box::new(parse_quote!(#cn));
                    }
                }
                n += 1;
            }
        }
    }
    if let Some(c) = canon { if c.len() != n { errs.push(format!("signature has {} parameters, contract expects {}", n, c.len())) } }
    if self_mut {
        SelfRename(id("self_")).visit_block_mut(block);
        lets.insert(0, parse_quote!(let mut self_ = self;));
    }
    lets
}
// ---------------------------------------------------------------- R0 names of locals
// Contracts inside a body (invariants, ghost code) name the locals of the function. Where a local has been given
// another name, the old one is put back: a consistent renaming to a name used nowhere else in the function.
struct Binders(Vec<String>);
impl<'ast> Visit<'ast> for Binders {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') && n != "self" { self.0.push(n) }
        syn::visit::visit_pat_ident(self, p)
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}
pub fn binders(sig: &Signature, b: &Block) -> Vec<String> {
    let mut v = Binders(vec![]);
    for a in &sig.inputs { if let FnArg::Typed(p) = a { v.visit_pat(&p.pat) } }
    v.visit_block(b);
    v.0
}
pub fn idents(ts: TokenStream, s: &mut BTreeSet<String>) {
    for t in ts { match t { TokenTree::Ident(i) => { s.insert(i.to_string()); } TokenTree::Group(g) => idents(g.stream(), s), _ => {} } }
}
fn alpha(sig: &mut Signature, b: &mut Block, now: &[String], was: &[String]) {
    // pairs of names at matching places: the longest common subsequence first, then gaps of equal length
    let (n, m) = (now.len(), was.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() {
        t[i][j] = if now[i] == was[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
    } }
    let (mut i, mut j, mut gi, mut gj) = (0, 0, 0, 0);
    let mut pairs: Vec<(String, String)> = vec![];
    let mut gap = |a: usize, b: usize, c: usize, d: usize| if b - a == d - c { for k in 0..b - a { pairs.push((now[a + k].clone(), was[c + k].clone())) } };
    while i < n && j < m {
        if now[i] == was[j] { gap(gi, i, gj, j); i += 1; j += 1; gi = i; gj = j }
        else if t[i + 1][j] >= t[i][j + 1] { i += 1 } else { j += 1 }
    }
    gap(gi, n, gj, m);
    let mut used = BTreeSet::new();
    idents(sig.inputs.to_token_stream(), &mut used);
    idents(b.to_token_stream(), &mut used);
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut taken: BTreeSet<String> = BTreeSet::new();
    for (x, y) in pairs {
        if was.contains(&x) || used.contains(&y) || map.contains_key(&x) || taken.contains(&y) || y == "_" { continue }
        taken.insert(y.clone());
        map.insert(x, y);
    }
    if map.is_empty() { return }
    let mut r = Alpha(map);
    for a in sig.inputs.iter_mut() { if let FnArg::Typed(p) = a { r.visit_pat_mut(&mut p.pat) } }
    r.visit_block_mut(b);
}
struct Alpha(BTreeMap<String, String>);
impl Alpha {
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        let mut dot = false;
        ts.into_iter().map(|t| {
            let d = dot;
            dot = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.');
            match t {
                TokenTree::Ident(i) if !d && self.0.contains_key(&i.to_string()) => TokenTree::Ident(id(&self.0[&i.to_string()])),
                TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()))),
                t => t,
            }
        }).collect()
    }
}
impl VisitMut for Alpha {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(y) = self.0.get(&p.ident.to_string()) { p.ident = id(y) }
        visit_mut::visit_pat_ident_mut(self, p)
    }
    fn visit_field_pat_mut(&mut self, p: &mut FieldPat) {
        let short = p.colon_token.is_none();
        visit_mut::visit_field_pat_mut(self, p);
        if short { if let Pat::Ident(pi) = &*p.pat { if let Member::Named(n) = &p.member { if *n != pi.ident { p.colon_token = Some(Default::default()) } } } }
    }
    fn visit_field_value_mut(&mut self, p: &mut FieldValue) {
        let short = p.colon_token.is_none();
        visit_mut::visit_field_value_mut(self, p);
        if short { if let (Expr::Path(e), Member::Named(n)) = (&p.expr, &p.member) { if !e.path.is_ident(n) { p.colon_token = Some(Default::default()) } } }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() { if let Some(i) = p.path.get_ident() { if let Some(y) = self.0.get(&i.to_string()) { let i = id(y); p.path = parse_quote!(#i); } } }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = self.tokens(m.tokens.clone()); }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
struct SelfRename(Ident);
impl VisitMut for SelfRename {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") { let i = &self.0; *p = parse_quote!(#i); }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = rename_tokens(m.tokens.clone(), &self.0); }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
fn rename_tokens(ts: TokenStream, to: &Ident) -> TokenStream {
    ts.into_iter().map(|t| match t {
        TokenTree::Ident(i) if i == "self" => TokenTree::Ident(to.clone()),
        TokenTree::Group(g) => { let mut ng = proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), to)); ng.set_span(g.span()); TokenTree::Group(ng) }
        t => t,
    }).collect()
}

// ---------------------------------------------------------------- R1 macros
struct Macros<'a> { errs: &'a mut Vec<String> }
struct MemoCall { path: Expr, args: Vec<Expr> }
impl syn::parse::Parse for MemoCall {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        // NAME =>> PATH , id : e , ... [ ;; id : e , ... ]
        let mut depth_name = TokenStream::new();
        while !(input.peek(Token![=>]) ) {
            let t: TokenTree = input.parse()?;
            depth_name.extend(std::iter::once(t));
            if input.is_empty() { return Err(input.error("memo!: no =>>")) }
        }
        input.parse::<Token![=>]>()?;
        input.parse::<Token![>]>()?;
        let path: Expr = input.parse()?;
        let mut args = vec![];
        while !input.is_empty() {
            if input.peek(Token![,]) { input.parse::<Token![,]>()?; }
            while input.peek(Token![;]) { input.parse::<Token![;]>()?; }
            if input.is_empty() { break }
            input.parse::<Ident>()?;
            input.parse::<Token![:]>()?;
            args.push(input.parse::<Expr>()?);
        }
        Ok(MemoCall { path, args })
    }
}
struct Exprs(Vec<Expr>, bool);
impl syn::parse::Parse for Exprs {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        let mut v = vec![];
        while !input.is_empty() {
            v.push(input.parse::<Expr>()?);
            if input.peek(Token![;]) { return Err(input.error("repeat form")) }
            if !input.is_empty() { input.parse::<Token![,]>()?; }
        }
        Ok(Exprs(v, true))
    }
}
struct MatchesArgs(Expr, Pat, Option<Expr>);
impl syn::parse::Parse for MatchesArgs {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        let e: Expr = input.parse()?;
        input.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(input)?;
        let g = if input.peek(Token![if]) { input.parse::<Token![if]>()?; Some(input.parse()?) } else { None };
        if input.peek(Token![,]) { input.parse::<Token![,]>()?; }
        Ok(MatchesArgs(e, p, g))
    }
}
impl<'a> Macros<'a> {
    fn conv(&mut self, m: &Macro) -> Expr {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let toks = m.tokens.clone();
        let fail = |s: &mut Self, e: String| { s.errs.push(e); parse_quote!(()) };
        match name.as_str() {
            "__inv" | "__bl" | "__al" | "__lend" | "__clo" | "__ca" => parse_quote!(()),
            "memo" => match syn::parse2::<MemoCall>(toks) {
                Ok(c) => { let (p, a) = (c.path, c.args); let mut e: Expr = parse_quote!(#p(#(#a),*)); self.visit_expr_mut(&mut e); e }
                Err(e) => fail(self, format!("memo!: {}", e)),
            },
            "get" => match syn::parse2::<Expr>(toks) { Ok(mut e) => { self.visit_expr_mut(&mut e); parse_quote!(force(&#e)) } Err(e) => fail(self, format!("get!: {}", e)) },
            "println" | "print" | "eprintln" | "eprint" => parse_quote!(()),
            "panic" | "unreachable" | "unimplemented" | "todo" => parse_quote!(vpanic()),
            "assert" | "debug_assert" => match syn::parse2::<Exprs>(toks) {
                Ok(mut v) if !v.0.is_empty() => { let mut c = v.0.remove(0); self.visit_expr_mut(&mut c); parse_quote!(vassert(#c)) }
                _ => fail(self, "assert!: cannot parse".into()),
            },
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => match syn::parse2::<Exprs>(toks) {
                Ok(mut v) if v.0.len() >= 2 => {
                    let mut a = v.0.remove(0); let mut b = v.0.remove(0);
                    self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                    if name.ends_with("eq") { parse_quote!(vassert((#a) == (#b))) } else { parse_quote!(vassert((#a) != (#b))) }
                }
                _ => fail(self, "assert_eq!: cannot parse".into()),
            },
            "vec" => match syn::parse2::<Exprs>(toks) {
                Ok(mut v) => {
                    for e in v.0.iter_mut() { self.visit_expr_mut(e) }
                    let es = v.0;
                    if es.is_empty() { parse_quote!(Vec::new()) } else { parse_quote!({ let mut __t = Vec::new(); #( __t.push(#es); )* __t }) }
                }
                Err(e) => fail(self, format!("vec!: {}", e)),
            },
            "matches" => match syn::parse2::<MatchesArgs>(toks) {
                Ok(MatchesArgs(mut e, p, g)) => {
                    self.visit_expr_mut(&mut e);
                    match g { None => parse_quote!(match #e { #p => true, _ => false }), Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }) }
                }
                Err(e) => fail(self, format!("matches!: {}", e)),
            },
            _ => fail(self, format!("macro {}! is not supported", name)),
        }
    }
}
impl<'a> VisitMut for Macros<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { let n = self.conv(&m.mac); *e = n; return }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let e = self.conv(&m.mac);
            *s = Stmt::Expr(e, m.semi_token);
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

// ------------------------------------------------- R9 what the test harnesses draw, time and iterate by hand
struct Harness<'a> { on: bool, errs: &'a mut Vec<String> }
fn mcall<'e>(e: &'e Expr, name: &str, n: usize) -> Option<&'e ExprMethodCall> {
    match strip_paren(e) { Expr::MethodCall(m) if m.method == name && m.args.len() == n => Some(m), _ => None }
}
/// `into_iter` / `keys` of the initial value of an iterator variable
fn hand_iter(e: &Expr) -> Option<Expr> {
    if let Some(m) = mcall(e, "into_iter", 0) { let r = &m.receiver; return Some(parse_quote!(viter(#r))) }
    if let Some(m) = mcall(e, "keys", 0) { let r = &m.receiver; return Some(parse_quote!(viter((#r).vkeys()))) }
    None
}
/// does the iterator of a chain come from drawing random values?
fn gens(e: &Expr) -> Option<(Expr, Expr)> {
    let t = mcall(e, "take", 1)?;
    let g = mcall(&t.receiver, "gen_iter", 0)?;
    Some(((*g.receiver).clone(), t.args[0].clone()))
}
impl<'a> VisitMut for Harness<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Ident(pi), Some(i)) = (&mut l.pat, &mut l.init) {
            if let (true, Some(n)) = (self.on, hand_iter(&i.expr)) { i.expr = Box::new(n); pi.mutability = Some(Default::default()); }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let new: Option<Expr> = if !self.on { None } else { match &*e {
            // the timed part is run once, where it stands
            Expr::Call(c) if nows(&c.func.to_token_stream().to_string()).ends_with("Duration::span") && c.args.len() == 1 => match strip_paren(&c.args[0]) {
                Expr::Closure(cl) => match beta(cl, vec![]) { Ok(b) => Some(parse_quote!({ #b; vspan() })), Err(x) => { self.errs.push(x); None } },
                _ => { self.errs.push("Duration::span of something other than a closure".into()); None }
            },
            // a namespace only keeps the names used inside it apart: its body is run once, where it stands
            Expr::Call(c) if nows(&c.func.to_token_stream().to_string()) == "ns" && c.args.len() == 2 => match strip_paren(&c.args[1]) {
                Expr::Closure(cl) => match beta(cl, vec![]) { Ok(b) => { let n = &c.args[0]; Some(parse_quote!({ let _ns = #n; #b })) } Err(x) => { self.errs.push(x); None } },
                _ => { self.errs.push("ns of something other than a closure".into()); None }
            },
            Expr::Call(c) if matches!(nows(&c.func.to_token_stream().to_string()).as_str(), "cmp::max" | "std::cmp::max") && c.args.len() == 2 => {
                let (a, b) = (&c.args[0], &c.args[1]); Some(parse_quote!(vmax(#a, #b)))
            }
            Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => gens(&m.receiver).map(|(g, n)| {
                let el = m.turbofish.as_ref().and_then(|_| mcall(&m.receiver, "take", 1)).and_then(|t| mcall(&t.receiver, "gen_iter", 0)).and_then(|g| g.turbofish.clone());
                match el { Some(t) => { let a = &t.args; parse_quote!(vgen_vec::<#a, _>(&mut #g, #n)) } None => parse_quote!(vgen_vec(&mut #g, #n)) }
            }),
            Expr::MethodCall(m) if m.method == "gen" && m.args.is_empty() && m.turbofish.as_ref().map_or(false, |t| nows(&t.args.to_token_stream().to_string()) == "usize") => {
                let g = &m.receiver; Some(parse_quote!(#g.vgen_usize()))
            }
            // floating point is not modelled: an unknown function of its arguments
            Expr::Cast(c) if nows(&c.ty.to_token_stream().to_string()) == "usize" && mcall(&c.expr, "powi", 1).is_some() => {
                let m = mcall(&c.expr, "powi", 1).unwrap(); let (x, k) = (&m.receiver, &m.args[0]); Some(parse_quote!(vpowi_usize(#x, #k)))
            }
            Expr::MethodCall(m) if m.method == "max" && m.args.is_empty() => mcall(&m.receiver, "iter", 0).map(|i| { let r = &i.receiver; parse_quote!(vmax_of(&#r)) }),
            _ => None,
        } };
        if let Some(n) = new { *e = n }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ------------------------------------------------- returns
struct HasRet(bool);
impl<'ast> Visit<'ast> for HasRet {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = true }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
}
fn has_return(b: &Block) -> bool { let mut h = HasRet(false); h.visit_block(b); h.0 }
fn expr_has_return(e: &Expr) -> bool { let mut h = HasRet(false); h.visit_expr(e); h.0 }
fn stmt_has_return(e: &Stmt) -> bool { let mut h = HasRet(false); h.visit_stmt(e); h.0 }

/// turn `return`s of an inlined body into the value of its block
fn elim_returns(b: &Block) -> std::result::Result<Block, String> {
    if !has_return(b) { return Ok(b.clone()) }
    let stmts = elim(&b.stmts)?;
    Ok(Block { brace_token: b.brace_token, stmts })
}
fn block_of(e: &Expr) -> Vec<Stmt> {
    match e { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] }
}
fn terminate(mut head: Vec<Stmt>, rest: &[Stmt]) -> Vec<Stmt> {
    // value of `head` is discarded, then rest
    if !rest.is_empty() {
        if let Some(Stmt::Expr(_, semi)) = head.last_mut() { if semi.is_none() { *semi = Some(Default::default()) } }
    }
    head.extend(rest.iter().cloned());
    head
}
fn elim(stmts: &[Stmt]) -> std::result::Result<Vec<Stmt>, String> {
    let mut out = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !stmt_has_return(s) { out.push(s.clone()); continue }
        let rest = &stmts[i + 1..];
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e: Expr = match &r.expr { Some(e) => (**e).clone(), None => parse_quote!(()) };
                if expr_has_return(&e) { return Err("nested return".into()) }
                out.push(Stmt::Expr(e, None));
                return Ok(out);
            }
            Stmt::Expr(Expr::If(f), _) => {
                if expr_has_return(&f.cond) { return Err("return in condition".into()) }
                let mut f2 = f.clone();
                f2.then_branch.stmts = elim(&terminate(f.then_branch.stmts.clone(), rest))?;
                let els = match &f.else_branch { Some((_, e)) => block_of(e), None => vec![] };
                let els = elim(&terminate(els, rest))?;
                let eb: Expr = parse_quote!({ #(#els)* });
                f2.else_branch = Some((Default::default(), Box::new(eb)));
                out.push(Stmt::Expr(Expr::If(f2), None));
                return Ok(out);
            }
            Stmt::Expr(Expr::Match(m), _) => {
                if expr_has_return(&m.expr) { return Err("return in scrutinee".into()) }
                let mut m2 = m.clone();
                for a in m2.arms.iter_mut() {
                    let st = elim(&terminate(block_of(&a.body), rest))?;
                    a.body = Box::new(parse_quote!({ #(#st)* }));
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m2), None));
                return Ok(out);
            }
            Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
                let st = elim(&terminate(b.block.stmts.clone(), rest))?;
                out.push(Stmt::Expr(parse_quote!({ #(#st)* }), None));
                return Ok(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref().ok_or("let")?;
                if init.diverge.is_some() { return Err("let else with return".into()) }
                let pat = &l.pat;
                match &*init.expr {
                    Expr::Match(m) if !expr_has_return(&m.expr) => {
                        let mut m2 = m.clone();
                        for a in m2.arms.iter_mut() {
                            let bst = block_of(&a.body);
                            let diverges = matches!(bst.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                            let st = if diverges { elim(&bst)? } else {
                                if bst.iter().any(stmt_has_return) { return Err("return deep in let".into()) }
                                let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = { #(#bst)* };)];
                                v.extend(rest.iter().cloned());
                                elim(&v)?
                            };
                            a.body = Box::new(parse_quote!({ #(#st)* }));
                            a.comma = Some(Default::default());
                        }
                        out.push(Stmt::Expr(Expr::Match(m2), None));
                        return Ok(out);
                    }
                    Expr::If(f) if !expr_has_return(&f.cond) && f.else_branch.is_some() => {
                        let mk = |bst: Vec<Stmt>| -> std::result::Result<Vec<Stmt>, String> {
                            if matches!(bst.last(), Some(Stmt::Expr(Expr::Return(_), _))) { return elim(&bst) }
                            if bst.iter().any(stmt_has_return) { return Err("return deep in let".into()) }
                            let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = { #(#bst)* };)];
                            v.extend(rest.iter().cloned());
                            elim(&v)
                        };
                        let mut f2 = f.clone();
                        f2.then_branch.stmts = mk(f.then_branch.stmts.clone())?;
                        let els = mk(block_of(&f.else_branch.as_ref().unwrap().1))?;
                        f2.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#els)* }))));
                        out.push(Stmt::Expr(Expr::If(f2), None));
                        return Ok(out);
                    }
                    _ => return Err("return inside a let".into()),
                }
            }
            _ => return Err("return inside a loop or expression".into()),
        }
    }
    Ok(out)
}

// ------------------------------------------------- R8 helpers
fn inline_helpers(ctx: &Ctx, b: &mut Block, errs: &mut Vec<String>, inlined: &mut Vec<String>) {
    for _ in 0..6 {
        let mut v = InlineHelpers { ctx, errs, inlined, n: 0 };
        v.visit_block_mut(b);
        if v.n == 0 { return }
        Macros { errs }.visit_block_mut(b);
    }
    errs.push("helper functions nest too deeply (recursive?)".into());
}
struct InlineHelpers<'a> { ctx: &'a Ctx, errs: &'a mut Vec<String>, inlined: &'a mut Vec<String>, n: usize }
impl<'a> InlineHelpers<'a> {
    fn find(&self, name: &str, recv: bool) -> Option<&'a Helper> {
        if self.ctx.known.contains(name) { return None }
        let c: Vec<&Helper> = self.ctx.helpers.iter().filter(|h| h.name == name && h.sig.receiver().is_some() == recv).collect();
        if c.len() == 1 { Some(c[0]) } else { None }
    }
    fn expand(&mut self, h: &Helper, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        let mut sig = h.sig.clone();
        let mut block = h.block.clone();
        strip_inner_items(&mut block);
        Macros { errs: self.errs }.visit_block_mut(&mut block);
        let mut block = match elim_returns(&block) { Ok(b) => b, Err(e) => { self.errs.push(format!("helper {}: {}", h.name, e)); return None } };
        let mut pre: Vec<Stmt> = vec![];
        if let (Some(r), Some(re)) = (sig.receiver().cloned(), recv) {
            let is_self = matches!(re, Expr::Path(p) if p.path.is_ident("self") || p.path.is_ident("self_"));
            if r.reference.is_none() {
                let m = r.mutability;
                let nm = id("self__h");
                SelfRename(nm.clone()).visit_block_mut(&mut block);
                pre.push(if m.is_some() { parse_quote!(let mut #nm = #re;) } else { parse_quote!(let #nm = #re;) });
            } else if is_self {
                if let Expr::Path(p) = re { let i = p.path.get_ident().unwrap().clone(); if i != "self" { SelfRename(i).visit_block_mut(&mut block); } }
            } else if is_place(re) {
                SelfSubst { e: re.clone(), mutable: r.mutability.is_some() }.visit_block_mut(&mut block);
            } else {
                let nm = id("self__h");
                SelfRename(nm.clone()).visit_block_mut(&mut block);
                pre.push(if r.mutability.is_some() { parse_quote!(let #nm = &mut #re;) } else { parse_quote!(let #nm = &#re;) });
            }
        }
        let gens: BTreeSet<String> = sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let mut pats = vec![]; let mut tys: Vec<Type> = vec![];
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(p) = a {
                pats.push((*p.pat).clone());
                let t = p.ty.to_token_stream();
                let bad = mentions(&t, &gens) || t.to_string().contains("impl") || t.to_string().contains('\'');
                tys.push(if bad { parse_quote!(_) } else { (*p.ty).clone() });
            }
        }
        if pats.len() != args.len() { self.errs.push(format!("helper {}: arity", h.name)); return None }
        if !pats.is_empty() {
            pre.push(if pats.len() == 1 { let (p, t, a) = (&pats[0], &tys[0], &args[0]); parse_quote!(let #p: #t = #a;) }
                     else { parse_quote!(let (#(#pats),*): (#(#tys),*) = (#(#args),*);) });
        }
        self.inlined.push(h.name.clone());
        self.n += 1;
        let mut stmts = pre;
        stmts.extend(block.stmts);
        // keep the declared return type as an inference anchor
        Some(parse_quote!(#[inl] { #(#stmts)* }))
    }
}
fn mentions(t: &TokenStream, s: &BTreeSet<String>) -> bool {
    t.clone().into_iter().any(|t| match t { TokenTree::Ident(i) => s.contains(&i.to_string()), TokenTree::Group(g) => mentions(&g.stream(), s), _ => false })
}
fn is_place(e: &Expr) -> bool {
    match e { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Paren(p) => is_place(&p.expr), _ => false }
}
struct SelfSubst { e: Expr, mutable: bool }
impl SelfSubst { fn is_self(e: &Expr) -> bool { matches!(e, Expr::Path(p) if p.path.is_ident("self")) } }
impl VisitMut for SelfSubst {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        match x {
            Expr::Field(f) if Self::is_self(&f.base) => { f.base = Box::new(self.e.clone()); return }
            Expr::MethodCall(m) if Self::is_self(&m.receiver) => {
                m.receiver = Box::new(self.e.clone());
                for a in m.args.iter_mut() { self.visit_expr_mut(a) }
                return;
            }
            e if Self::is_self(e) => { let r = &self.e; *e = if self.mutable { parse_quote!((&mut #r)) } else { parse_quote!((&#r)) }; return }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, x)
    }
}
impl<'a> VisitMut for InlineHelpers<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) => match self.find(&m.method.to_string(), true) {
                Some(h) => { let (r, a) = ((*m.receiver).clone(), m.args.iter().cloned().collect()); self.expand(h, Some(&r), a) }
                None => None,
            },
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    match self.find(&n, false) {
                        Some(h) => { let a = c.args.iter().cloned().collect(); self.expand(h, None, a) }
                        None => None,
                    }
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new { *e = n }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ------------------------------------------------- R2 closures
struct CountUses<'a> { name: &'a str, paths: usize, calls: usize }
impl<'a, 'ast> Visit<'ast> for CountUses<'a> {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) { if p.path.is_ident(self.name) { self.paths += 1 } }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func { if p.path.is_ident(self.name) { self.calls += 1 } }
        syn::visit::visit_expr_call(self, c)
    }
}
#[derive(Default)]
struct Bound(BTreeSet<String>);
impl<'ast> Visit<'ast> for Bound { fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.0.insert(p.ident.to_string()); syn::visit::visit_pat_ident(self, p) } }
#[derive(Default)]
struct Used(BTreeSet<String>);
impl<'ast> Visit<'ast> for Used { fn visit_expr_path(&mut self, p: &'ast ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } } }

struct InlineClosures<'a> { errs: &'a mut Vec<String> }
struct SubstCall<'a> { name: &'a str, clo: &'a ExprClosure, errs: &'a mut Vec<String> }
impl<'a> VisitMut for SubstCall<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(self.name) {
                    match beta(self.clo, c.args.iter().cloned().collect()) { Ok(n) => *e = n, Err(m) => self.errs.push(m) }
                }
            }
        }
    }
}
fn beta(clo: &ExprClosure, args: Vec<Expr>) -> std::result::Result<Expr, String> {
    if clo.inputs.len() != args.len() { return Err("closure arity".into()) }
    let body = block_of(&clo.body);
    let b = Block { brace_token: Default::default(), stmts: body };
    let b = elim_returns(&b)?;
    let st = b.stmts;
    let mut pats: Vec<Pat> = vec![]; let mut tys: Vec<Type> = vec![];
    for p in clo.inputs.iter() {
        match p { Pat::Type(t) => { pats.push((*t.pat).clone()); tys.push((*t.ty).clone()) } p => { pats.push(p.clone()); tys.push(parse_quote!(_)) } }
    }
    Ok(match pats.len() {
        0 => parse_quote!({ #(#st)* }),
        1 => { let (p, t, a) = (&pats[0], &tys[0], &args[0]);
               if matches!(t, Type::Infer(_)) { parse_quote!({ let #p = #a; #(#st)* }) } else { parse_quote!({ let #p: #t = #a; #(#st)* }) } }
        _ => parse_quote!({ let (#(#pats),*): (#(#tys),*) = (#(#args),*); #(#st)* }),
    })
}
impl<'a> VisitMut for InlineClosures<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let found = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, l.init.as_ref().map(|x| &*x.expr)) {
                    (Pat::Ident(pi), Some(Expr::Closure(c))) => Some((pi.ident.to_string(), c.clone())),
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, clo)) = found {
                let mut u = CountUses { name: &name, paths: 0, calls: 0 };
                for s in &b.stmts[i + 1..] { u.visit_stmt(s) }
                if u.calls == u.paths {
                    let mut used = Used::default(); used.visit_expr(&clo.body);
                    let mut bound = Bound::default(); bound.visit_expr(&clo.body);
                    for p in clo.inputs.iter() { bound.visit_pat(p) }
                    let free: BTreeSet<String> = used.0.difference(&bound.0).cloned().collect();
                    let mut later = Bound::default();
                    for s in &b.stmts[i + 1..] { later.visit_stmt(s) }
                    if let Some(x) = free.intersection(&later.0).next() {
                        self.errs.push(format!("closure {}: {} is rebound after it", name, x));
                    }
                    b.stmts.remove(i);
                    for s in b.stmts[i..].iter_mut() { SubstCall { name: &name, clo: &clo, errs: self.errs }.visit_stmt_mut(s) }
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}

// ------------------------------------------------- R3 options
struct Options<'a> { shared: BTreeSet<String>, errs: &'a mut Vec<String> }
fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(g) => strip_paren(&g.expr), e => e } }
/// is this the iterator end of a chain (x.iter(), x.into_iter(), ...iter().map(..))?
fn is_iter(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if matches!(n.as_str(), "iter" | "into_iter" | "iter_mut" | "keys" | "values" | "drain" | "chars") { return true }
            if matches!(n.as_str(), "map" | "filter" | "rev" | "enumerate" | "zip" | "skip" | "take_while" | "cloned" | "chain" | "by_ref" | "peekable" | "filter_map" | "flat_map") { return is_iter(&m.receiver) }
            false
        }
        Expr::Range(_) => true,
        _ => false,
    }
}
impl<'a> VisitMut for Options<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let m = match e { Expr::MethodCall(m) => m.clone(), _ => return };
        if is_iter(&m.receiver) { return }
        let name = m.method.to_string();
        let r = &m.receiver;
        let app = |f: &Expr, args: Vec<Expr>| -> std::result::Result<Expr, String> {
            match strip_paren(f) {
                Expr::Closure(c) => beta(c, args),
                p @ Expr::Path(_) => Ok(parse_quote!(#p(#(#args),*))),
                _ => Err("combinator argument".into()),
            }
        };
        if let Some(a) = m.args.last() {
            // a method of the repository that happens to share the name of a combinator
            if name != "expect" && !matches!(strip_paren(a), Expr::Closure(_) | Expr::Path(_)) { return }
            if self.shared.contains(&a.to_token_stream().to_string()) { return }
        }
        let x: Expr = parse_quote!(__o);
        let res: std::result::Result<Option<Expr>, String> = (|| {
            Ok(Some(match (name.as_str(), m.args.len()) {
                ("map", 1) => { let b = app(&m.args[0], vec![x.clone()])?; parse_quote!(match #r { Some(__o) => Some(#b), None => None }) }
                ("and_then", 1) => { let b = app(&m.args[0], vec![x.clone()])?; parse_quote!(match #r { Some(__o) => #b, None => None }) }
                ("map_or", 2) => { let b = app(&m.args[1], vec![x.clone()])?; let d = &m.args[0]; parse_quote!(match #r { Some(__o) => #b, None => #d }) }
                ("map_or_else", 2) => { let b = app(&m.args[1], vec![x.clone()])?; let d = app(&m.args[0], vec![])?; parse_quote!(match #r { Some(__o) => #b, None => #d }) }
                ("unwrap_or_else", 1) => { let d = app(&m.args[0], vec![])?; parse_quote!(match #r { Some(__o) => __o, None => #d }) }
                ("or_else", 1) => { let d = app(&m.args[0], vec![])?; parse_quote!(match #r { Some(__o) => Some(__o), None => #d }) }
                ("is_some_and", 1) => { let b = app(&m.args[0], vec![x.clone()])?; parse_quote!(match #r { Some(__o) => #b, None => false }) }
                ("expect", 1) => parse_quote!(#r.unwrap()),
                ("cloned", 0) => parse_quote!(match #r { Some(__o) => Some(__o.clone()), None => None }),
                _ => return Ok(None),
            }))
        })();
        match res { Ok(Some(n)) => *e = n, Ok(None) => {}, Err(m) => self.errs.push(m) }
    }
}

// ------------------------------------------------- R7 reference patterns
struct RefPats<'a> { errs: &'a mut Vec<String> }
struct ByCopy(bool);
impl<'ast> Visit<'ast> for ByCopy {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let n = p.ident.to_string();
        if p.by_ref.is_none() && n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { self.0 = true }
    }
}
impl<'a> VisitMut for RefPats<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Reference(r) = &l.pat {
            if let Some(init) = l.init.as_mut() {
                let e = &init.expr;
                init.expr = Box::new(parse_quote!(*(#e)));
                l.pat = (*r.pat).clone();
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            let mut b = ByCopy(false);
            b.visit_pat(&r.pat);
            if b.0 { self.errs.push("by-copy binding under a reference pattern".into()) }
            let inner = (*r.pat).clone();
            *p = inner;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

// ------------------------------------------------- R4 loops, numbering, closures
struct Number<'a> { spec: &'a FnSpec, loops: usize, closures: usize, iters: BTreeMap<String, (usize, Option<ExprClosure>)>, errs: &'a mut Vec<String> }

fn lit(k: usize) -> LitInt { LitInt::new(&k.to_string(), Span::call_site()) }

fn chain(e: &Expr) -> Option<(Expr, bool, Vec<(String, Vec<Expr>)>)> {
    // base, by_ref, adapters after iter()/into_iter()
    match strip_paren(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "iter" if m.args.is_empty() => Some(((*m.receiver).clone(), true, vec![])),
                "into_iter" if m.args.is_empty() => Some(((*m.receiver).clone(), false, vec![])),
                "map" | "fold" | "collect" => {
                    let (b, r, mut a) = chain(&m.receiver)?;
                    a.push((n, m.args.iter().cloned().collect()));
                    Some((b, r, a))
                }
                _ => None,
            }
        }
        _ => None,
    }
}

impl<'a> Number<'a> {
    fn wrap(&mut self, k: usize, label: Option<Label>, mut stmts: Vec<Stmt>, value: bool) -> Expr {
        let kl = lit(k);
        let mut body: Vec<Stmt> = vec![parse_quote!(__inv!(#kl);)];
        body.append(&mut stmts);
        // loop bodies are statements
        if let Some(Stmt::Expr(_, semi)) = body.last_mut() { if semi.is_none() { *semi = Some(Default::default()) } }
        body.push(parse_quote!(__lend!(#kl);));
        let lp = Expr::Loop(ExprLoop { attrs: vec![], label, loop_token: Default::default(), body: Block { brace_token: Default::default(), stmts: body } });
        if value { return lp }
        parse_quote!({ __bl!(#kl); #lp __al!(#kl); })
    }
    fn expand_chain(&mut self, e: &Expr) -> Option<Expr> {
        let (base, by_ref, ads) = chain(e)?;
        let k = self.loops;
        let (v, i, acc) = (id(&format!("__v{}", k)), id(&format!("__i{}", k)), id(&format!("__acc{}", k)));
        let names: Vec<&str> = ads.iter().map(|a| a.0.as_str()).collect();
        let fetch: Expr = if by_ref { parse_quote!(#v.vget(#i)) } else { parse_quote!(vcl(#v.vget(#i))) };
        let bind: Stmt = if by_ref { parse_quote!(let #v = &(#base);) } else { parse_quote!(let #v = #base;) };
        match names.as_slice() {
            ["fold"] | ["map", "fold"] => {
                self.loops += 1;
                let (init, f) = { let a = &ads.last().unwrap().1; if a.len() != 2 { return None } (a[0].clone(), a[1].clone()) };
                let item: Expr = if names.len() == 2 { self.apply(&ads[0].1[0], vec![fetch])? } else { fetch };
                let mut init = init;
                self.visit_expr_mut(&mut init);
                let x = id(&format!("__x{}", k));
                let call = self.apply(&f, vec![parse_quote!(#acc), parse_quote!(#x)])?;
                let mut body: Vec<Stmt> = vec![
                    parse_quote!(if !(#i < #v.vlen()) { break; }),
                    parse_quote!(let #x = #item;),
                    parse_quote!(#i = #i + 1;),
                    parse_quote!(#acc = #call;),
                ];
                for s in body.iter_mut() { self.visit_stmt_mut(s) }
                let lp = self.wrap(k, None, body, false);
                Some(parse_quote!({ #bind let mut #i: usize = 0; let mut #acc = #init; #lp #acc }))
            }
            ["collect"] | ["map", "collect"] => {
                self.loops += 1;
                let item: Expr = if names.len() == 2 { self.apply(&ads[0].1[0], vec![fetch])? } else { fetch };
                let mut body: Vec<Stmt> = vec![
                    parse_quote!(if !(#i < #v.vlen()) { break; }),
                    parse_quote!(let __x = #item;),
                    parse_quote!(#i = #i + 1;),
                    parse_quote!(#acc.push(__x);),
                ];
                for s in body.iter_mut() { self.visit_stmt_mut(s) }
                let lp = self.wrap(k, None, body, false);
                Some(parse_quote!({ #bind let mut #i: usize = 0; let mut #acc = Vec::new(); #lp #acc }))
            }
            _ => None,
        }
    }
    fn apply(&mut self, f: &Expr, args: Vec<Expr>) -> Option<Expr> {
        match strip_paren(f) {
            Expr::Closure(c) => match beta(c, args) { Ok(e) => Some(e), Err(m) => { self.errs.push(m); None } },
            p @ Expr::Path(_) => Some(parse_quote!(#p(#(#args),*))),
            _ => None,
        }
    }
}

impl<'a> VisitMut for Number<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        // let [mut] it = v.iter()[.map(f)];
        let mut i = 0;
        while i < b.stmts.len() {
            let mut repl: Option<Vec<Stmt>> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if let Some((base, true, ads)) = chain(&init.expr) {
                        let names: Vec<&str> = ads.iter().map(|a| a.0.as_str()).collect();
                        if names.is_empty() || names == ["map"] {
                            let clo = if names.is_empty() { Some(None) } else { match strip_paren(&ads[0].1[0]) { Expr::Closure(c) => Some(Some(c.clone())), _ => None } };
                            if let Some(clo) = clo {
                                let n = pi.ident.to_string();
                                let (v, ii) = (id(&format!("__{}_v", n)), id(&format!("__{}_i", n)));
                                self.iters.insert(n, (0, clo));
                                repl = Some(vec![parse_quote!(let #v = &(#base);), parse_quote!(let mut #ii: usize = 0;)]);
                            }
                        }
                    }
                }
            }
            if let Some(r) = repl { let n = r.len(); b.stmts.splice(i..i + 1, r); i += n; continue }
            self.visit_stmt_mut(&mut b.stmts[i]);
            i += 1;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                let k = self.loops; self.loops += 1;
                let mut w = w.clone();
                let stmts: Vec<Stmt> = match &mut *w.cond {
                    Expr::Let(l) => {
                        self.visit_expr_mut(&mut l.expr);
                        self.visit_block_mut(&mut w.body);
                        let (p, x, body) = (&l.pat, &l.expr, &w.body);
                        vec![parse_quote!(match #x { #p => #body, _ => { break; } })]
                    }
                    c => {
                        self.visit_expr_mut(c);
                        self.visit_block_mut(&mut w.body);
                        let mut v: Vec<Stmt> = vec![parse_quote!(if !(#c) { break; })];
                        v.extend(w.body.stmts.clone());
                        v
                    }
                };
                if w.label.is_some() && false { self.errs.push("label".into()) }
                *e = self.wrap(k, w.label.clone(), stmts, false);
            }
            Expr::Loop(l) => {
                let k = self.loops; self.loops += 1;
                let mut l = l.clone();
                self.visit_block_mut(&mut l.body);
                let value = breaks_with_value(&l.body);
                *e = self.wrap(k, l.label.clone(), l.body.stmts.clone(), value);
            }
            Expr::ForLoop(f) => {
                let k = self.loops; self.loops += 1;
                let mut f = f.clone();
                let (it, end, v) = (id(&format!("__i{}", k)), id(&format!("__end{}", k)), id(&format!("__v{}", k)));
                let pat = f.pat.clone();
                let ex = strip_paren(&f.expr).clone();
                let (pre, mut stmts): (Vec<Stmt>, Vec<Stmt>) = match &ex {
                    Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) && r.start.is_some() && r.end.is_some() => {
                        let (mut a, mut b) = ((**r.start.as_ref().unwrap()).clone(), (**r.end.as_ref().unwrap()).clone());
                        self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                        (vec![parse_quote!(let mut #it = #a;), parse_quote!(let #end = #b;)],
                         vec![parse_quote!(if !(#it < #end) { break; }), parse_quote!(let #pat = #it;), parse_quote!(#it = #it + 1;)])
                    }
                    Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter" || m.method == "keys") => {
                        let mut b = (*m.receiver).clone();
                        self.visit_expr_mut(&mut b);
                        let pre: Stmt = if m.method == "keys" { parse_quote!(let #v = (#b).vkeys();) } else if m.method == "iter" { parse_quote!(let #v = &(#b);) } else { parse_quote!(let #v = #b;) };
                        let get: Expr = if m.method == "into_iter" { parse_quote!(vcl(#v.vget(#it))) } else { parse_quote!(#v.vget(#it)) };
                        (vec![pre, parse_quote!(let mut #it: usize = 0;)],
                         vec![parse_quote!(if !(#it < #v.vlen()) { break; }), parse_quote!(let #pat = #get;), parse_quote!(#it = #it + 1;)])
                    }
                    Expr::MethodCall(m) if m.method == "rev" && m.args.is_empty() && matches!(strip_paren(&m.receiver), Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) && r.start.is_some() && r.end.is_some()) => {
                        let r = match strip_paren(&m.receiver) { Expr::Range(r) => r.clone(), _ => unreachable!() };
                        let (mut a, mut b) = ((*r.start.unwrap()).clone(), (*r.end.unwrap()).clone());
                        self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                        (vec![parse_quote!(let #end = #a;), parse_quote!(let mut #it = #b;)],
                         vec![parse_quote!(if !(#end < #it) { break; }), parse_quote!(#it = #it - 1;), parse_quote!(let #pat = #it;)])
                    }
                    Expr::MethodCall(m) if (m.method == "skip" && m.args.len() == 1 || (m.method == "rev" || m.method == "enumerate") && m.args.is_empty())
                        && matches!(strip_paren(&m.receiver), Expr::MethodCall(n) if n.args.is_empty() && (n.method == "iter" || n.method == "into_iter")) => {
                        let n = match strip_paren(&m.receiver) { Expr::MethodCall(n) => n.clone(), _ => unreachable!() };
                        let mut b = (*n.receiver).clone();
                        self.visit_expr_mut(&mut b);
                        let pre: Stmt = if n.method == "iter" { parse_quote!(let #v = &(#b);) } else { parse_quote!(let #v = #b;) };
                        let at: Expr = if m.method == "rev" { parse_quote!(#v.vlen() - 1 - #it) } else { parse_quote!(#it) };
                        let get: Expr = if n.method == "into_iter" { parse_quote!(vcl(#v.vget(#at))) } else { parse_quote!(#v.vget(#at)) };
                        let get: Expr = if m.method == "enumerate" { parse_quote!((#it, #get)) } else { get };
                        let from: Expr = if m.method == "skip" { let mut a = m.args[0].clone(); self.visit_expr_mut(&mut a); a } else { parse_quote!(0) };
                        (vec![pre, parse_quote!(let mut #it: usize = #from;)],
                         vec![parse_quote!(if !(#it < #v.vlen()) { break; }), parse_quote!(let #pat = #get;), parse_quote!(#it = #it + 1;)])
                    }
                    Expr::Reference(r) if r.mutability.is_none() => {
                        let b = &r.expr;
                        (vec![parse_quote!(let #v = &(#b);), parse_quote!(let mut #it: usize = 0;)],
                         vec![parse_quote!(if !(#it < #v.vlen()) { break; }), parse_quote!(let #pat = #v.vget(#it);), parse_quote!(#it = #it + 1;)])
                    }
                    Expr::Path(_) => {
                        (vec![parse_quote!(let #v = #ex;), parse_quote!(let mut #it: usize = 0;)],
                         vec![parse_quote!(if !(#it < #v.vlen()) { break; }), parse_quote!(let #pat = vcl(#v.vget(#it));), parse_quote!(#it = #it + 1;)])
                    }
                    _ => { self.errs.push("for loop over an unsupported iterator".into()); return }
                };
                self.visit_block_mut(&mut f.body);
                stmts.extend(f.body.stmts.clone());
                let lp = self.wrap(k, f.label.clone(), stmts, false);
                *e = parse_quote!({ #(#pre)* #lp });
            }
            Expr::MethodCall(m) => {
                // hand-held iterator variable
                if let Expr::Path(p) = strip_paren(&m.receiver) {
                    if let Some(n) = p.path.get_ident().map(|i| i.to_string()) {
                        if let Some((_, clo)) = self.iters.get(&n).cloned() {
                            let (v, ii) = (id(&format!("__{}_v", n)), id(&format!("__{}_i", n)));
                            let get: Expr = parse_quote!(#v.vget(#ii));
                            let item = match &clo { None => get, Some(c) => match beta(c, vec![get]) { Ok(e) => e, Err(x) => { self.errs.push(x); return } } };
                            match (m.method.to_string().as_str(), m.args.len()) {
                                ("next", 0) => {
                                    let mut n: Expr = parse_quote!(if #ii < #v.vlen() { let __x = #item; #ii = #ii + 1; Some(__x) } else { None });
                                    visit_mut::visit_expr_mut(self, &mut n);
                                    *e = parse_quote!((#n));
                                }
                                ("fold", 2) => {
                                    let k = self.loops; self.loops += 1;
                                    let acc = id(&format!("__acc{}", k));
                                    let (mut init, f) = (m.args[0].clone(), m.args[1].clone());
                                    self.visit_expr_mut(&mut init);
                                    let x = id(&format!("__x{}", k));
                                    let call = match self.apply(&f, vec![parse_quote!(#acc), parse_quote!(#x)]) { Some(c) => c, None => { self.errs.push("fold argument".into()); return } };
                                    let mut body: Vec<Stmt> = vec![
                                        parse_quote!(if !(#ii < #v.vlen()) { break; }),
                                        parse_quote!(let #x = #item;),
                                        parse_quote!(#ii = #ii + 1;),
                                        parse_quote!(#acc = #call;)];
                                    for s in body.iter_mut() { self.visit_stmt_mut(s) }
                                    let lp = self.wrap(k, None, body, false);
                                    *e = parse_quote!({ let mut #acc = #init; #lp #acc });
                                }
                                (o, _) => self.errs.push(format!("iterator method {}", o)),
                            }
                            return;
                        }
                    }
                }
                if chain(e).map_or(false, |(_, _, a)| matches!(a.last().map(|x| x.0.as_str()), Some("fold") | Some("collect"))) {
                    let c = e.clone();
                    match self.expand_chain(&c) { Some(n) => *e = n, None => self.errs.push("iterator chain".into()) }
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Closure(c) => {
                let k = self.closures; self.closures += 1;
                let kl = lit(k);
                let mut body = block_of(&c.body);
                match self.spec.closures.get(&k) {
                    None => { self.errs.push(format!("closure {} has no contract", k)); }
                    Some((h, _)) => {
                        let (ps, _) = closure_header(h);
                        if ps.len() != c.inputs.len() { self.errs.push(format!("closure {}: {} parameters, contract expects {}", k, c.inputs.len(), ps.len())); return }
                        let mut pre: Vec<Stmt> = vec![parse_quote!(__clo!(#kl);)];
                        for (p, cp) in c.inputs.iter().zip(ps.iter()) {
                            let cn = id(cp.split(':').next().unwrap().trim());
                            let pat: Pat = match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                            if matches!(pat, Pat::Wild(_)) { continue }
                            if pat.to_token_stream().to_string() == cn.to_string() { continue }
                            pre.push(parse_quote!(let #pat = #cn;));
                        }
                        let mut bb = Block { brace_token: Default::default(), stmts: body.drain(..).collect() };
                        self.visit_block_mut(&mut bb);
                        pre.extend(bb.stmts);
                        c.inputs.clear();
                        c.inputs.push(parse_quote!(__cloh));
                        c.output = ReturnType::Default;
                        c.body = Box::new(parse_quote!({ #(#pre)* }));
                        if self.spec.closure_after.contains_key(&k) {
                            let c2 = c.clone();
                            *e = parse_quote!({ let __c = #c2; __ca!(#kl); __c });
                        }
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
struct BreakVal(bool);
impl<'ast> Visit<'ast> for BreakVal {
    fn visit_expr_break(&mut self, b: &'ast ExprBreak) { if b.expr.is_some() { self.0 = true } }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn breaks_with_value(b: &Block) -> bool { let mut v = BreakVal(false); v.visit_block(b); v.0 }

// ------------------------------------------------- R5 renames
struct Renames<'a> { eq: bool, errs: &'a mut Vec<String> }
impl<'a> VisitMut for Renames<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("clone", 0) => { m.method = id("vclone"); None }
                    ("into", 0) => { m.method = id("vinto"); None }
                    ("extend", 1) => { m.method = id("vextend"); None }
                    ("extend_from_slice", 1) => { m.method = id("vextend_slice"); None }
                    ("to_vec", 0) => { m.method = id("vto_vec"); None }
                    ("split_at", 1) => { m.method = id("vsplit_at"); None }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let f = nows(&c.func.to_token_stream().to_string());
                match (f.as_str(), c.args.len()) {
                    ("Rc::clone", 1) | ("Clone::clone", 1) | ("Option::clone", 1) => { let a = &c.args[0]; Some(parse_quote!((#a).vclone())) }
                    ("usize::max_value", 0) => Some(parse_quote!(usize::MAX)),
                    ("u32::max_value", 0) => Some(parse_quote!(u32::MAX)),
                    ("u64::max_value", 0) => Some(parse_quote!(u64::MAX)),
                    ("String::from", 1) => { let a = &c.args[0]; Some(parse_quote!(vstring(#a))) }
                    ("mem::drop", 1) | ("drop", 1) | ("std::mem::drop", 1) => { let a = &c.args[0]; Some(parse_quote!({ let __d = #a; })) }
                    _ => None,
                }
            }
            Expr::Binary(b) if self.eq => match b.op {
                BinOp::Eq(_) => { let (l, r) = (&b.left, &b.right); Some(parse_quote!(veq(&(#l), &(#r)))) }
                BinOp::Ne(_) => { let (l, r) = (&b.left, &b.right); Some(parse_quote!((!veq(&(#l), &(#r))))) }
                _ => None,
            },
            Expr::Try(_) => { self.errs.push("? operator".into()); None }
            _ => None,
        };
        if let Some(n) = new { *e = n }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.leading_colon.is_some() { p.leading_colon = None }
        visit_mut::visit_path_mut(self, p);
    }
}

#[derive(Default)]
struct CallNames(BTreeSet<String>);
impl<'ast> Visit<'ast> for CallNames {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) { self.0.insert(m.method.to_string()); syn::visit::visit_expr_method_call(self, m) }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) { self.0.insert(p.path.segments.last().unwrap().ident.to_string()); }
}

/// the k-th call of the function itself, or, when that is not there, counting those of inlined helpers as well
fn wrap_call(b: &mut Block, callee: &str, k: usize, idx: usize, after: bool) {
    for own in [true, false] {
        let mut w = WrapCall { callee, k, n: 0, idx, after, done: false, own };
        w.visit_block_mut(b);
        if w.done { return }
    }
}
struct StripInl;
impl VisitMut for StripInl {
    fn visit_expr_block_mut(&mut self, b: &mut ExprBlock) {
        b.attrs.retain(|a| !a.path().is_ident("inl"));
        visit_mut::visit_expr_block_mut(self, b)
    }
}
struct WrapCall<'a> { callee: &'a str, k: usize, n: usize, idx: usize, after: bool, done: bool, own: bool }
impl<'a> VisitMut for WrapCall<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.own { if let Expr::Block(b) = &*e { if b.attrs.iter().any(|a| a.path().is_ident("inl")) { return } } }
        visit_mut::visit_expr_mut(self, e);
        if self.done { return }
        let hit = match e {
            Expr::MethodCall(m) => m.method == self.callee,
            Expr::Call(c) => match &*c.func { Expr::Path(p) => p.path.segments.last().unwrap().ident == self.callee, _ => false },
            _ => false,
        };
        if hit {
            if self.n == self.k {
                let i = lit(self.idx);
                let c = e.clone();
                *e = if self.after { parse_quote!({ let __r = #c; __ac!(#i); __r }) } else { parse_quote!({ __bc!(#i); #c }) };
                self.done = true;
            }
            self.n += 1;
        }
    }
}

// ------------------------------------------------- printing
pub fn pretty(s: &str) -> String {
    let mut out = String::new();
    let mut ind = 0usize;
    let mut in_str = false;
    let mut paren = 0i32;
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let nl = |out: &mut String, ind: usize| { while out.ends_with(' ') { out.pop(); } if !out.ends_with('\n') { out.push('\n'); } for _ in 0..ind { out.push_str("  ") } };
    while i < cs.len() {
        let c = cs[i];
        if in_str { out.push(c); if c == '\\' { i += 1; out.push(cs[i]) } else if c == '"' { in_str = false } i += 1; continue }
        match c {
            '"' => { in_str = true; out.push(c) }
            '/' if i + 1 < cs.len() && cs[i + 1] == '/' => { while i < cs.len() && cs[i] != '\n' { out.push(cs[i]); i += 1 } nl(&mut out, ind); }
            '{' => { ind += 1; out.push(c); nl(&mut out, ind) }
            '}' => { ind = ind.saturating_sub(1); nl(&mut out, ind); out.push(c); nl(&mut out, ind) }
            ';' => { out.push(c); if paren <= 0 || true { nl(&mut out, ind) } }
            '(' => { paren += 1; out.push(c) }
            ')' => { paren -= 1; out.push(c) }
            '\n' => nl(&mut out, ind),
            ' ' | '\t' => { if !out.ends_with(' ') && !out.ends_with('\n') { out.push(' ') } }
            c => out.push(c),
        }
        i += 1;
    }
    out
}


