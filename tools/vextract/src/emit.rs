//! Puts the translated functions, extracted types and the spec text of every
//! module into one Verus crate and records where each came from.
use crate::rewrite::{self, nows, Ctx, Helper};
use crate::spec::{FnSpec, ModSpec, Sect};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Opts { pub demote: BTreeSet<String>, pub drop_contract: BTreeSet<String>, pub false_probe: BTreeSet<String>, pub eq: BTreeSet<String>, pub skip: BTreeSet<String> }
pub struct Res { pub text: String, pub functions: Vec<Value>, pub raw: Vec<Value> }

#[derive(Clone)]
struct Found {
    sig: Signature,
    block: Block,
    imp: Option<ItemImpl>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("test") || (a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")))
}

fn type_last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_last(&r.elem),
        t => nows(&t.to_token_stream().to_string()),
    }
}
fn trait_matches(p: &Path, want: &str) -> bool {
    let full = nows(&p.to_token_stream().to_string());
    let last = p.segments.last().unwrap();
    if want.contains('<') { nows(&last.to_token_stream().to_string()) == nows(want) || full == nows(want) } else { last.ident == want }
}

/// all non-test items, including those inside inline modules
fn items<'a>(its: &'a [Item], out: &mut Vec<&'a Item>) {
    for i in its {
        match i {
            Item::Mod(m) => { if !is_test(&m.attrs) { if let Some((_, c)) = &m.content { items(c, out) } } }
            Item::Fn(f) if is_test(&f.attrs) => {}
            Item::Impl(f) if is_test(&f.attrs) => {}
            i => out.push(i),
        }
    }
}

fn find_impl<'a>(its: &[&'a Item], ty: &str, tr: &str) -> Option<&'a ItemImpl> {
    its.iter().find_map(|i| match i {
        Item::Impl(m) => match &m.trait_ {
            Some((_, p, _)) if trait_matches(p, tr) && (type_last(&m.self_ty) == ty || nows(&m.self_ty.to_token_stream().to_string()) == nows(ty)) => Some(m),
            _ => None,
        },
        _ => None,
    })
}

fn find(its: &[&Item], key: &str) -> Option<Found> {
    let (outer, inner) = match key.split_once('/') { Some((a, b)) => (a, Some(b)), None => (key, None) };
    let f = find_outer(its, outer)?;
    match inner {
        None => Some(f),
        Some(n) => f.block.stmts.iter().find_map(|s| match s {
            Stmt::Item(Item::Fn(g)) if g.sig.ident == n => Some(Found { sig: g.sig.clone(), block: (*g.block).clone(), imp: None }),
            _ => None,
        }),
    }
}
fn find_outer(its: &[&Item], key: &str) -> Option<Found> {
    if let Some((ty, rest)) = key.split_once(" as ") {
        let k = rest.rfind("::")?;
        let (tr, m) = (&rest[..k], &rest[k + 2..]);
        let im = find_impl(its, ty, tr)?;
        return im.items.iter().find_map(|x| match x {
            ImplItem::Fn(f) if f.sig.ident == m => Some(Found { sig: f.sig.clone(), block: f.block.clone(), imp: Some(im.clone()) }),
            _ => None,
        });
    }
    if let Some((ty, m)) = key.split_once("::") {
        return its.iter().find_map(|i| match i {
            Item::Impl(im) if im.trait_.is_none() && type_last(&im.self_ty) == ty => im.items.iter().find_map(|x| match x {
                ImplItem::Fn(f) if f.sig.ident == m && !is_test(&f.attrs) => Some(Found { sig: f.sig.clone(), block: f.block.clone(), imp: Some(im.clone()) }),
                _ => None,
            }),
            _ => None,
        });
    }
    its.iter().find_map(|i| match i {
        Item::Fn(f) if f.sig.ident == key => Some(Found { sig: f.sig.clone(), block: (*f.block).clone(), imp: None }),
        _ => None,
    })
}

const DROP_BOUNDS: [&str; 12] = ["Adapt", "Debug", "Clone", "Eq", "PartialEq", "Hash", "Hasher", "Copy", "Default", "Rand", "Ord", "PartialOrd"];
fn keep_bound(b: &TypeParamBound) -> bool {
    match b {
        TypeParamBound::Lifetime(_) => false,
        TypeParamBound::Trait(t) => !DROP_BOUNDS.contains(&t.path.segments.last().unwrap().ident.to_string().as_str()),
        _ => true,
    }
}
fn fix_bound(b: &TypeParamBound) -> TypeParamBound {
    let mut b = b.clone();
    if let TypeParamBound::Trait(t) = &mut b {
        let l = t.path.segments.last_mut().unwrap();
        if l.ident == "Into" { l.ident = Ident::new("VInto", proc_macro2::Span::call_site()) }
    }
    b
}
fn strip_generics(g: &Generics) -> Generics {
    let mut g = g.clone();
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            let b: Vec<TypeParamBound> = t.bounds.iter().filter(|b| keep_bound(b)).map(fix_bound).collect();
            t.bounds = b.into_iter().collect();
            if t.bounds.is_empty() { t.colon_token = None }
            t.default = None; t.eq_token = None;
        }
    }
    if let Some(w) = &mut g.where_clause {
        let mut np = syn::punctuated::Punctuated::new();
        for p in w.predicates.iter() {
            if let WherePredicate::Type(t) = p {
                let mut t = t.clone();
                let b: Vec<TypeParamBound> = t.bounds.iter().filter(|b| keep_bound(b)).map(fix_bound).collect();
                if b.is_empty() { continue }
                t.bounds = b.into_iter().collect();
                np.push(WherePredicate::Type(t));
            }
        }
        w.predicates = np;
        if w.predicates.is_empty() { g.where_clause = None }
    }
    g
}

fn assoc_types(im: &ItemImpl) -> BTreeMap<String, Type> {
    im.items.iter().filter_map(|x| match x { ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())), _ => None }).collect()
}
struct SubstAssoc<'a>(&'a BTreeMap<String, Type>);
impl<'a> VisitMut for SubstAssoc<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let s = &p.path.segments;
            if p.qself.is_none() && s.len() == 2 && s[0].ident == "Self" {
                if let Some(n) = self.0.get(&s[1].ident.to_string()) { *t = n.clone(); return }
            }
        }
        visit_mut::visit_type_mut(self, t)
    }
}
struct RenameCalls<'a>(&'a BTreeMap<String, String>);
impl<'a> VisitMut for RenameCalls<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if let Some(n) = self.0.get(&i.to_string()) { p.path = Path::from(Ident::new(n, proc_macro2::Span::call_site())) }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = rename_ts(m.tokens.clone(), self.0);
    }
}
fn rename_ts(ts: proc_macro2::TokenStream, map: &BTreeMap<String, String>) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree};
    ts.into_iter().map(|t| match t {
        TokenTree::Ident(i) => match map.get(&i.to_string()) { Some(n) => TokenTree::Ident(Ident::new(n, i.span())), None => TokenTree::Ident(i) },
        TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename_ts(g.stream(), map))),
        t => t,
    }).collect()
}

fn h64(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    format!("{:016x}", h)
}

const BUILTIN: &str = "clone into from iter into_iter next fold map len push pop new default fmt hash eq drop cmp partial_cmp \
 unwrap expect take last first get insert remove contains_key keys values append extend extend_from_slice split_at reverse as_ref as_mut \
 is_none is_some is_empty unwrap_or unwrap_or_else map_or and_then or_else cell put force force_map name_pair name_fork name_of_usize name_of_string name_unit \
 replace with_capacity min max swap abs pow trailing_zeros leading_zeros gen finish to_string borrow deref index some none ok err vec string \
 max_value push_str truncate clear drain collect filter rev enumerate zip skip";

fn word_decls(text: &str, out: &mut BTreeSet<String>) {
    let ws: Vec<&str> = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).collect();
    for w in ws.windows(2) { if w[0] == "fn" { out.insert(w[1].to_string()); } }
}

fn collect_helpers(its: &[&Item], module: &str, out: &mut Vec<Helper>) {
    for i in its {
        match i {
            Item::Fn(f) => {
                out.push(Helper { name: f.sig.ident.to_string(), module: module.into(), self_ty: None, sig: f.sig.clone(), block: (*f.block).clone(), impl_generics: vec![] });
                nested(&f.block, module, out);
            }
            Item::Impl(im) => for x in &im.items {
                if let ImplItem::Fn(f) = x {
                    if is_test(&f.attrs) { continue }
                    if im.trait_.is_none() {
                        let g = im.generics.type_params().map(|t| t.ident.to_string()).collect();
                        out.push(Helper { name: f.sig.ident.to_string(), module: module.into(), self_ty: Some(type_last(&im.self_ty)), sig: f.sig.clone(), block: f.block.clone(), impl_generics: g });
                    }
                    nested(&f.block, module, out);
                }
            },
            _ => {}
        }
    }
}
fn nested(b: &Block, module: &str, out: &mut Vec<Helper>) {
    for s in &b.stmts {
        if let Stmt::Item(Item::Fn(g)) = s {
            out.push(Helper { name: g.sig.ident.to_string(), module: module.into(), self_ty: None, sig: g.sig.clone(), block: (*g.block).clone(), impl_generics: vec![] });
        }
    }
}

pub fn emit(prelude: &str, mods: &[ModSpec], files: &BTreeMap<String, File>, opts: &Opts) -> Res {
    let mut ctx = Ctx::default();
    for w in BUILTIN.split_whitespace() { ctx.known.insert(w.to_string()); }
    word_decls(prelude, &mut ctx.known);
    for m in mods {
        for s in &m.sects { match s { Sect::Raw(t) => word_decls(t, &mut ctx.known), _ => {} } }
        for (k, f) in &m.fns {
            let n = k.rsplit(|c| c == ':' || c == '/').next().unwrap().to_string();
            ctx.known.insert(n);
            if let Some(r) = &f.rename { ctx.known.insert(r.clone()); }
        }
    }
    for m in mods {
        if let Some(f) = files.get(&m.name) {
            let mut its = vec![]; items(&f.items, &mut its);
            collect_helpers(&its, &m.name, &mut ctx.helpers);
        }
    }
    let mut out = String::new();
    let mut functions = vec![];
    let mut raw = vec![];
    out.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, unreachable_code, non_snake_case, unused_labels, unreachable_patterns, path_statements, unused_must_use, unused_attributes)]\n");
    out.push_str(prelude);
    let line = |o: &String| o.matches('\n').count() + 1;
    for m in mods {
        out.push_str(&format!("\npub mod {} {{\nuse vstd::prelude::*;\nuse crate::prelude::*;\nuse std::rc::Rc;\n{}\nverus! {{\n", m.name, m.head));
        let empty: Vec<Item> = vec![];
        let fitems = files.get(&m.name).map(|f| &f.items).unwrap_or(&empty);
        let mut its = vec![]; items(fitems, &mut its);
        for i in &its {
            if let Item::Const(c) = i {
                let ty = nows(&c.ty.to_token_stream().to_string());
                if ["usize", "u32", "u64", "u8", "i32", "bool"].contains(&ty.as_str()) {
                    out.push_str(&format!("pub const {}: {} = {};\n", c.ident, ty, c.expr.to_token_stream()));
                }
            }
        }
        let in_impl: BTreeSet<String> = m.sects.iter().filter_map(|s| match s { Sect::Impl(k, _) => Some(k.clone()), _ => None }).collect();
        for s in &m.sects {
            match s {
                Sect::Raw(t) => {
                    let a = line(&out);
                    out.push_str(t); out.push('\n');
                    raw.push(json!({"module": m.name, "start": a, "end": line(&out)}));
                }
                Sect::Type(n, attrs) => {
                    let a = line(&out);
                    match emit_type(&its, n) {
                        Some(t) => { out.push_str(attrs); out.push_str(&t); out.push('\n'); }
                        None => functions.push(json!({"key": format!("type {}", n), "module": m.name, "status": "lost", "errors": ["type not found"], "calls": [], "start": a, "end": a})),
                    }
                }
                Sect::Impl(k, inj) => {
                    let (ty, tr) = k.split_once(" as ").unwrap_or((k, ""));
                    match find_impl(&its, ty, tr) {
                        None => functions.push(json!({"key": k, "module": m.name, "status": "lost", "errors": ["impl not found"], "calls": [], "start": line(&out), "end": line(&out)})),
                        Some(im) => {
                            let g = strip_generics(&im.generics);
                            let (ig, _, wc) = g.split_for_impl();
                            out.push_str(&format!("impl{} {} for {} {} {{\n", ig.to_token_stream(), im.trait_.as_ref().unwrap().1.to_token_stream(), im.self_ty.to_token_stream(), wc.to_token_stream()));
                            for x in &im.items { if let ImplItem::Type(t) = x { out.push_str(&format!("type {} = {};\n", t.ident, t.ty.to_token_stream())); } }
                            out.push_str(inj);
                            for x in &im.items {
                                if let ImplItem::Fn(f) = x {
                                    let key = format!("{}::{}", k, f.sig.ident);
                                    let sp = m.fns.get(&key).cloned().unwrap_or(FnSpec { key: key.clone(), ret: "res".into(), ..Default::default() });
                                    let fd = Found { sig: f.sig.clone(), block: f.block.clone(), imp: Some(im.clone()) };
                                    emit_fn(&ctx, m, &sp, Some(fd), opts, &mut out, &mut functions, true);
                                }
                            }
                            out.push_str("}\n");
                        }
                    }
                }
                Sect::Fn(k) => {
                    if in_impl.iter().any(|i| k.strip_prefix(i.as_str()).map_or(false, |r| r.starts_with("::"))) { continue }
                    let sp = &m.fns[k];
                    emit_fn(&ctx, m, sp, find(&its, k), opts, &mut out, &mut functions, false);
                }
            }
        }
        out.push_str("} // verus!\n}\n");
    }
    out.push_str("\nfn main() {}\n");
    Res { text: out, functions, raw }
}

fn emit_type(its: &[&Item], n: &str) -> Option<String> {
    for i in its {
        match i {
            Item::Struct(s) if s.ident == n => {
                let mut s = s.clone();
                s.attrs.clear();
                s.generics = strip_generics(&s.generics);
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
                return Some(rewrite::pretty(&s.to_token_stream().to_string()));
            }
            Item::Enum(e) if e.ident == n => {
                let mut e = e.clone();
                e.attrs.clear();
                e.generics = strip_generics(&e.generics);
                e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() { v.attrs.clear(); }
                return Some(rewrite::pretty(&e.to_token_stream().to_string()));
            }
            _ => {}
        }
    }
    None
}

fn emit_fn(ctx: &Ctx, m: &ModSpec, sp: &FnSpec, found: Option<Found>, opts: &Opts, out: &mut String, functions: &mut Vec<Value>, in_trait_impl: bool) {
    let line = |o: &String| o.matches('\n').count() + 1;
    let start = line(out);
    let f = match found {
        Some(f) => f,
        None => { functions.push(json!({"key": sp.key, "module": m.name, "status": "lost", "errors": ["function not found in the source"], "calls": [], "start": start, "end": start})); return }
    };
    let outer = sp.key.split('/').next().unwrap();
    let ren: BTreeMap<String, String> = m.fns.iter().filter_map(|(k, s)| match k.split_once('/') {
        Some((o, i)) if o == outer => s.rename.as_ref().map(|r| (i.to_string(), r.clone())), _ => None }).collect();
    let mut block = f.block.clone();
    let mut sig0 = f.sig.clone();
    let hash = h64(&f.block.to_token_stream().to_string());
    RenameCalls(&ren).visit_block_mut(&mut block);
    if let Some(im) = &f.imp {
        let a = assoc_types(im);
        if !in_trait_impl { SubstAssoc(&a).visit_signature_mut(&mut sig0); }
        if !in_trait_impl { SubstAssoc(&a).visit_block_mut(&mut block); }
    }
    let mut sp2 = sp.clone();
    if has(&opts.false_probe, m, &sp.key) { sp2.entry.push_str(" assert(false); /*probe*/ "); }
    if has(&opts.eq, m, &sp.key) { sp2.eq = true }
    ctx.harness.set(m.file.starts_with("eval/"));
    let r = rewrite::rewrite(ctx, &sp2, &sig0, &block);
    let (sig, body, mut status, errors, inlined, calls, nl, nc) = match r {
        Ok(o) => (o.sig, o.body, if sp.trusted { "trusted" } else { "verified" }, vec![], o.inlined, o.calls, o.loops, o.closures),
        Err(e) => {
            // keep the signature with normalised parameter names
            let mut s = sig0.clone();
            let mut k = 0;
            for a in s.inputs.iter_mut() {
                match a {
                    FnArg::Typed(p) => {
                        let cn = match (sp.params.as_ref().and_then(|c| c.get(k).cloned()), &*p.pat) {
                            (Some(c), _) => c,
                            (None, Pat::Ident(pi)) => pi.ident.to_string(),
                            _ => format!("__p{}", k),
                        };
                        let i = Ident::new(&cn, proc_macro2::Span::call_site());
                        p.pat = Box::new(parse_quote!(#i));
                        k += 1;
                    }
                    FnArg::Receiver(r) => if r.reference.is_none() && r.mutability.is_some() { r.mutability = None; r.ty = Box::new(parse_quote!(Self)); },
                }
            }
            (s, String::new(), "unsupported", e, vec![], BTreeSet::new(), 0, 0)
        }
    };
    if has(&opts.demote, m, &sp.key) && status == "verified" { status = "demoted" }
    if has(&opts.skip, m, &sp.key) && status == "verified" { status = "skipped" }
    let opaque = status != "verified";
    let name = sp.rename.clone().unwrap_or(sig.ident.to_string());
    let mut g = strip_generics(&sig.generics);
    // type parameters of a trait impl that its type does not mention become the method's
    let mut ig = f.imp.as_ref().map(|im| strip_generics(&im.generics));
    if let (Some(im), Some(ig), false) = (&f.imp, &mut ig, in_trait_impl) {
        let ids = |ts: proc_macro2::TokenStream| { let mut s = BTreeSet::new(); rewrite::idents(ts, &mut s); s };
        let of = ids(im.self_ty.to_token_stream());
        let free: BTreeSet<String> = ig.type_params().map(|t| t.ident.to_string()).filter(|n| !of.contains(n)).collect();
        if !free.is_empty() {
            let (mine, theirs): (Vec<GenericParam>, Vec<GenericParam>) = ig.params.clone().into_iter().partition(|p| matches!(p, GenericParam::Type(t) if free.contains(&t.ident.to_string())));
            ig.params = theirs.into_iter().collect();
            let mut all: Vec<GenericParam> = g.params.clone().into_iter().collect();
            all.extend(mine);
            g.params = all.into_iter().collect();
            if g.lt_token.is_none() { g.lt_token = Some(Default::default()); g.gt_token = Some(Default::default()); }
            if let Some(w) = &mut ig.where_clause {
                let (mine, theirs): (Vec<WherePredicate>, Vec<WherePredicate>) = w.predicates.clone().into_iter().partition(|p| ids(p.to_token_stream()).iter().any(|n| free.contains(n)));
                w.predicates = theirs.into_iter().collect();
                for p in mine { g.make_where_clause().predicates.push(p); }
            }
            if ig.where_clause.as_ref().map_or(false, |w| w.predicates.is_empty()) { ig.where_clause = None }
        }
    }
    let ret = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => {
        if matches!(&**t, Type::Never(_)) { "-> !".into() } else { format!("-> ({}: {})", sp.ret, t.to_token_stream()) } } };
    let mut inputs: Vec<String> = vec![];
    for a in sig.inputs.iter() { inputs.push(a.to_token_stream().to_string()); }
    let gp = match &sp.generics { Some(x) => x.clone(), None => { let (ig, _, _) = g.split_for_impl(); ig.to_token_stream().to_string() } };
    let wc = g.where_clause.to_token_stream().to_string();
    let wrap = !in_trait_impl && f.imp.is_some();
    if wrap {
        let im = f.imp.as_ref().unwrap();
        let ig = ig.unwrap();
        let (ig, _, iw) = ig.split_for_impl();
        let mut self_ty = (*im.self_ty).clone();
        SubstAssoc(&BTreeMap::new()).visit_type_mut(&mut self_ty);
        out.push_str(&format!("impl{} {} {} {{\n", ig.to_token_stream(), self_ty.to_token_stream(), iw.to_token_stream()));
    }
    for a in &sp.attrs { out.push_str(a); out.push('\n'); }
    if nl > 0 && !opaque { out.push_str("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n"); }
    if opaque { out.push_str("#[verifier::external_body]\n"); }
    let dropped = has(&opts.drop_contract, m, &sp.key);
    let contract = if dropped { String::new() } else { sp.contract.clone() };
    out.push_str(&format!("{}fn {}{}({}) {} {}\n{}", if in_trait_impl { "" } else { "pub " }, name, gp, inputs.join(", "), ret, wc, contract));
    if opaque { out.push_str("{ unimplemented!() }\n"); } else { out.push_str(&body); out.push('\n'); }
    if wrap { out.push_str("}\n"); }
    let end = line(out);
    functions.push(json!({
        "key": sp.key, "module": m.name, "name": name, "status": if dropped { "dropped" } else { status }, "errors": errors,
        "inlined": inlined, "calls": calls, "loops": nl, "closures": nc, "locals": rewrite::binders(&sig0, &block), "start": start, "end": end, "hash": hash,
        "has_contract": !sp.contract.trim().is_empty() || in_trait_impl,
        "spec_loops": sp.loops.len(), "file": m.file,
    }));
}

/// does the set name this function, by key or by module:key?
fn has(s: &BTreeSet<String>, m: &ModSpec, key: &str) -> bool {
    s.contains(key) || s.contains(&format!("{}:{}", m.name, key))
}
