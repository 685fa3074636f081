//! The Actor derive macro (macros/src/lib.rs) run on type definitions of every shape within the bounds; what it
//! writes is read back as an impl and compared with the documented one. Codes 26xx.
#[path = "../../harness/src/vx.rs"]
pub mod vx;
use quote::ToTokens;
use vx::*;

/// A bound on a parameter: what it is about and what it says, without white space; `+ a +` lists split up.
type Bound = (String, String);
fn flat<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect() }
fn put(to: &mut Vec<Bound>, b: Bound) { if !to.contains(&b) { to.push(b); } }
fn norm(s: String) -> String {
    match s.as_str() {
        "::core::marker::Send" | "core::marker::Send" | "::std::marker::Send" | "std::marker::Send" => "Send".into(),
        _ => s,
    }
}

struct Def { text: String, ident: &'static str, params: Vec<(u8, &'static str)>, bounds: Vec<Bound> }

/// A type definition with `n` parameters; everything about it is for the solver to choose.
fn definition(n: usize) -> Def {
    let kind = pick(1, 4);
    let ident = ["Worker", "r#type"][pick(2, 2) as usize];
    let names = [["'a", "'b", "'c"], ["T", "U", "V"], ["N", "M", "K"]];
    let (mut params, mut bounds, mut list) = (Vec::new(), Vec::new(), String::new());
    let mut was_lifetime = true;
    for i in 0..n {
        let k = pick(10 + i as u32, 3);
        assume(k != 0 || was_lifetime); // lifetimes come first
        if k != 0 { was_lifetime = false; }
        let name = names[k as usize][i];
        params.push((k as u8, name));
        list += &match k {
            0 => match pick(20 + i as u32, 2) {
                0 => name.to_string(),
                _ => { put(&mut bounds, (name.into(), "'static".into())); format!("{name}: 'static") }
            },
            1 => match pick(20 + i as u32, 5) {
                0 => name.to_string(),
                1 => { put(&mut bounds, (name.into(), "Clone".into())); format!("{name}: Clone") }
                2 => { for b in ["?Sized", "Send", "Sync"] { put(&mut bounds, (name.into(), b.into())); } format!("{name}: ?Sized + Send + Sync") }
                3 => format!("{name} = u8"),
                _ => format!("#[allow(unused)] {name}: "),
            },
            _ => match pick(20 + i as u32, 2) { 0 => format!("const {name}: usize"), _ => format!("const {name}: usize = 3") },
        };
        list += ", ";
    }
    let first = params.iter().find(|p| p.0 == 1).map(|p| p.1);
    let wher = match pick(3, 5) {
        0 => String::new(),
        1 => "where".to_string(),
        2 => { assume(first.is_some()); let t = first.unwrap(); put(&mut bounds, (t.into(), "Debug".into())); format!("where {t}: Debug") }
        3 => {
            assume(first.is_some());
            let t = first.unwrap();
            put(&mut bounds, (format!("Vec<{t}>"), "Clone".into()));
            put(&mut bounds, (t.into(), "From<u8>".into()));
            put(&mut bounds, (t.into(), "'static".into()));
            format!("where Vec<{t}>: Clone, {t}: From<u8> + 'static,")
        }
        _ => { put(&mut bounds, ("String".into(), "Send".into())); "where String: Send,".to_string() }
    };
    for p in &params { if p.0 == 1 { for b in ["Send", "'static"] { put(&mut bounds, (p.1.into(), b.into())); } } }
    let vis = ["", "pub ", "#[doc = \"x\"] pub(crate) "][pick(4, 3) as usize];
    let list = if n == 0 { String::new() } else { format!("<{list}>") };
    let text = match kind {
        0 => format!("{vis}struct {ident}{list} {wher};"),
        1 => format!("{vis}struct {ident}{list} (u8, pub String) {wher};"),
        2 => format!("{vis}struct {ident}{list} {wher} {{ a: u8, pub b: String }}"),
        _ => format!("{vis}enum {ident}{list} {wher} {{ A, B(u8), C {{ x: String }} }}"),
    };
    Def { text, ident, params, bounds }
}

fn unit_body(b: &syn::Block) -> bool { matches!(flat(b).as_str(), "{}" | "{()}" | "{return;}" | "{return}" | "{drop(self)}" | "{drop(self);}" | "{let_=self;}" | "{}{}") }

fn derive(n: usize) {
    init();
    let d = definition(n);
    let input: proc_macro2::TokenStream = d.text.parse().unwrap_or_else(|_| { check(false, 2690); loop {} });
    let out = xtra_macros::__derive_actor(input);
    let Ok(file) = syn::parse2::<syn::File>(out) else { check(false, 2601); return };
    check(file.items.len() == 1, 2602);
    let syn::Item::Impl(im) = &file.items[0] else { check(false, 2603); return };
    check(im.unsafety.is_none() && im.defaultness.is_none(), 2604);
    // of what for what
    let Some((bang, path, _)) = &im.trait_ else { check(false, 2605); return };
    check(bang.is_none(), 2606);
    let p = flat(path);
    check(p == "xtra::Actor" || p == "::xtra::Actor", 2607);
    let mut ty = d.ident.to_string();
    if n > 0 {
        ty += "<";
        for (i, p) in d.params.iter().enumerate() { if i > 0 { ty += ","; } ty += p.1; }
        ty += ">";
    }
    check(flat(&im.self_ty).replace(",>", ">") == ty, 2608);
    // parameters and bounds
    check(im.generics.params.len() == d.params.len(), 2610);
    let mut got: Vec<Bound> = Vec::new();
    for (g, (k, name)) in im.generics.params.iter().zip(d.params.iter()) {
        match g {
            syn::GenericParam::Lifetime(l) => {
                check(*k == 0 && flat(&l.lifetime) == *name, 2611);
                for b in &l.bounds { put(&mut got, (name.to_string(), flat(b))); }
            }
            syn::GenericParam::Type(t) => {
                check(*k == 1 && flat(&t.ident) == *name, 2612);
                check(t.default.is_none(), 2613);
                for b in &t.bounds { put(&mut got, (name.to_string(), norm(flat(b)))); }
            }
            syn::GenericParam::Const(c) => {
                check(*k == 2 && flat(&c.ident) == *name && flat(&c.ty) == "usize", 2614);
                check(c.default.is_none(), 2615);
            }
        }
    }
    if let Some(w) = &im.generics.where_clause {
        for p in &w.predicates {
            match p {
                syn::WherePredicate::Type(t) => {
                    check(t.lifetimes.is_none(), 2616);
                    for b in &t.bounds { put(&mut got, (flat(&t.bounded_ty), norm(flat(b)))); }
                }
                syn::WherePredicate::Lifetime(l) => for b in &l.bounds { put(&mut got, (flat(&l.lifetime), flat(b))); },
                _ => check(false, 2617),
            }
        }
    }
    got.retain(|b| b.0 != "Self"); // an actor is Send + 'static anyhow
    for b in &d.bounds { check(got.contains(b), 2618); } // nothing missing: the impl has to compile and be usable for any T: Send + 'static
    for b in &got { check(d.bounds.contains(b), 2619); } // nothing more asked than documented
    // what is in it
    let (mut stop, mut stopped) = (0, 0);
    for i in &im.items {
        match i {
            syn::ImplItem::Type(t) => { check(flat(&t.ident) == "Stop" && flat(&t.ty) == "()" && t.generics.params.is_empty(), 2620); stop += 1; }
            syn::ImplItem::Method(m) => {
                let name = flat(&m.sig.ident);
                check(name == "stopped" || name == "started", 2621);
                if name == "stopped" {
                    stopped += 1;
                    check(m.sig.asyncness.is_some() && m.sig.inputs.len() == 1, 2622);
                    check(unit_body(&m.block), 2623);
                } else {
                    check(flat(&m.block) == "{Ok(())}", 2624);
                }
            }
            _ => check(false, 2625),
        }
    }
    check(stop == 1 && stopped == 1, 2626);
    cover(1 + n as u32);
}
#[no_mangle] pub extern "C" fn h_derive_0() { derive(0) }
#[no_mangle] pub extern "C" fn h_derive_1() { derive(1) }
#[no_mangle] pub extern "C" fn h_derive_2() { derive(2) }
#[no_mangle] pub extern "C" fn h_derive_3() { derive(3) }
