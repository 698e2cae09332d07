//! Mechanical extraction of functions of /repo for the deductive verifier.
//!   cvextract REPO SPEC.json  ->  JSON on stdout
//! SPEC: [{"id","file","imp","tr","name"}]; what is rewritten is listed in /verif/DESIGN.md.
mod chains;
mod rewrite;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::HashMap;

pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub self_ty: Option<syn::Type>,
    /// associated types of the trait impl
    pub assoc: Vec<(String, syn::Type)>,
}

fn last_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => last_ident(&r.elem),
        _ => String::new(),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
}

/// all candidates (a name can occur in several impl blocks; `tr` selects the trait,
/// `args` a fragment of the impl header)
fn find(items: &[syn::Item], imp: &str, tr: &str, name: &str, frag: &str) -> Vec<Found> {
    let mut out = vec![];
    for it in items {
        match it {
            syn::Item::Fn(f) if imp.is_empty() && f.sig.ident == name && !is_test(&f.attrs) => {
                out.push(Found { sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None, assoc: vec![] })
            }
            syn::Item::Impl(im) if !imp.is_empty() && last_ident(&im.self_ty) == imp && !is_test(&im.attrs) => {
                let t = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                if t != tr {
                    continue;
                }
                let header = format!(
                    "{} {} {}",
                    im.generics.to_token_stream(),
                    im.trait_.as_ref().map(|(_, p, _)| p.to_token_stream().to_string()).unwrap_or_default(),
                    im.self_ty.to_token_stream()
                );
                if !frag.is_empty() && !header.replace(' ', "").contains(&frag.replace(' ', "")) {
                    continue;
                }
                for i in &im.items {
                    if let syn::ImplItem::Fn(f) = i {
                        if f.sig.ident == name {
                            out.push(Found { sig: f.sig.clone(), block: f.block.clone(), self_ty: Some((*im.self_ty).clone()), assoc: im.items.iter().filter_map(|i| if let syn::ImplItem::Type(t) = i { Some((t.ident.to_string(), t.ty.clone())) } else { None }).collect() });
                        }
                    }
                }
            }
            // a default method of trait `tr`, for the implementor `imp`
            syn::Item::Trait(t) if !imp.is_empty() && t.ident == tr => {
                for i in &t.items {
                    if let syn::TraitItem::Fn(f) = i {
                        if let (true, Some(b)) = (f.sig.ident == name, &f.default) {
                            out.push(Found { sig: f.sig.clone(), block: b.clone(), self_ty: syn::parse_str(imp).ok(), assoc: vec![] });
                        }
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    out.extend(find(its, imp, tr, name, frag));
                }
            }
            _ => {}
        }
    }
    out
}

/// a struct declaration, with its fields made public
fn structure(items: &[syn::Item], name: &str) -> Result<Value, String> {
    for it in items {
        // field-less enums are copied as they are
        if let syn::Item::Enum(e) = it {
            if e.ident == name {
                if e.variants.iter().any(|v| !matches!(v.fields, syn::Fields::Unit)) {
                    return Err(format!("enum {name} has fields"));
                }
                let vs: Vec<String> = e
                    .variants
                    .iter()
                    .map(|v| match &v.discriminant {
                        Some((_, d)) => format!("{} = {}", v.ident, d.to_token_stream()),
                        None => v.ident.to_string(),
                    })
                    .collect();
                return Ok(json!({"text": format!("#[derive(Clone, Copy)] pub enum {name} {{ {} }}\nimpl PartialEqSpecImpl<{name}> for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &{name}) -> bool {{ *self === *other }} }}\nimpl PartialEq<{name}> for {name} {{\n#[verifier::external_body]\nfn eq(&self, o: &{name}) -> (r: bool) {{ unimplemented!() }} }}", vs.join(", "))}));
            }
        }
        if let syn::Item::Struct(s) = it {
            if s.ident == name {
                let mut cx = rewrite::Cx { imp: name.into(), scalars: vec!["T".into(), "F".into(), "V".into()], const_dims: vec![], errors: vec![], rules: vec![], n: 0, seqs: vec![], locals: vec![], opts: vec![], assoc: vec![] };
                let mut fields = vec![];
                let mut life = "";
                for f in &s.fields {
                    let mut ft = f.ty.clone();
                    let mut by = "";
                    if let syn::Type::Reference(r) = &ft {
                        if r.mutability.is_some() {
                            return Err(format!("struct {name} holds a mutable reference"));
                        }
                        ft = (*r.elem).clone();
                        life = "<'a>";
                        by = "&'a ";
                    }
                    let t = format!("{by}{}", cx.ty(&ft).to_token_stream());
                    fields.push(match &f.ident {
                        Some(i) => format!("pub {i}: {t}"),
                        None => format!("pub {t}"),
                    });
                }
                if !cx.errors.is_empty() {
                    return Err(cx.errors.join("; "));
                }
                let text = match &s.fields {
                    syn::Fields::Named(_) => format!("pub struct {name}{life} {{ {} }}", fields.join(", ")),
                    _ => format!("pub struct {name}{life}({});", fields.join(", ")),
                };
                return Ok(json!({"text": text, "life": !life.is_empty()}));
            }
        }
    }
    Err(format!("no struct {name}"))
}

fn overridden(d: &std::path::Path, imp: &str, tr: &str, name: &str) -> bool {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            if overridden(&p, imp, tr, name) {
                return true;
            }
        } else if p.extension().is_some_and(|x| x == "rs") {
            if let Some(f) = std::fs::read_to_string(&p).ok().and_then(|t| syn::parse_file(&t).ok()) {
                let impls: Vec<syn::Item> = f.items.into_iter().filter(|i| !matches!(i, syn::Item::Trait(_))).collect();
                if !find(&impls, imp, tr, name, "").is_empty() {
                    return true;
                }
            }
        }
    }
    false
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let repo = &a[1];
    let spec: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let mut files: HashMap<String, Result<syn::File, String>> = HashMap::new();
    let mut out = vec![];
    for s in spec.as_array().unwrap() {
        let g = |k: &str| s[k].as_str().unwrap_or("").to_string();
        let file = g("file");
        let f = files.entry(file.clone()).or_insert_with(|| {
            let p = format!("{repo}/src/{file}");
            std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}")).and_then(|t| syn::parse_file(&t).map_err(|e| format!("{p}: {e}")))
        });
        let r = match f {
            Err(e) => Err(e.clone()),
            Ok(f) if g("kind") == "struct" => structure(&f.items, &g("name")),
            Ok(f) => {
                let v = find(&f.items, &g("imp"), &g("tr"), &g("name"), &g("frag"));
                // a default method only runs when the implementor does not override it
                let dflt = v.len() == 1 && v[0].self_ty.is_some() && !g("tr").is_empty() && f.items.iter().any(|i| matches!(i, syn::Item::Trait(t) if t.ident == g("tr") && t.items.iter().any(|x| matches!(x, syn::TraitItem::Fn(m) if m.sig.ident == g("name") && m.default.is_some()))));
                match v.len() {
                    1 if dflt && overridden(std::path::Path::new(&format!("{repo}/src")), &g("imp"), &g("tr"), &g("name")) => Err("the default method is overridden".to_string()),
                    1 => std::panic::catch_unwind(|| rewrite::function(&v[0], &g("imp"))).unwrap_or_else(|_| Err("extractor panicked".into())),
                    0 => Err(format!("no such function in {file}")),
                    n => Err(format!("{n} candidates in {file}")),
                }
            }
        };
        out.push(match r {
            Ok(mut j) => {
                j["id"] = s["id"].clone();
                j
            }
            Err(e) => json!({"id": s["id"], "error": e}),
        });
    }
    println!("{}", serde_json::to_string_pretty(&out).unwrap());
}
