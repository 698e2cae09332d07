//! Rewriting of one function into the verifier's dialect.
use crate::chains;
use crate::Found;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt, Type};

pub struct Cx {
    pub imp: String,
    pub scalars: Vec<String>, // generic scalar parameters, mapped to R
    pub const_dims: Vec<String>,
    pub errors: Vec<String>,
    pub rules: Vec<String>,
    pub n: usize,
    pub seqs: Vec<(String, Type)>,          // generic parameters `I: IntoIterator<Item = X>`, taken as Vec<X>
    pub locals: Vec<(String, Expr)>,        // closures and ranges bound by a plain let, replaced where they are used
    /// parameters of type Option<T>, with T
    pub opts: Vec<(String, Type)>,
    /// associated types of the impl
    pub assoc: Vec<(String, Type)>,
}

impl Cx {
    pub fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n - 1
    }
    pub fn rule(&mut self, s: &str) {
        if !self.rules.iter().any(|r| r == s) {
            self.rules.push(s.to_string());
        }
    }
    pub fn err(&mut self, s: String) {
        self.errors.push(s);
    }
}

const POINTS: &[&str] = &["OPoint", "Point1", "Point2", "Point3", "Point4"];
const VECTORS: &[&str] = &["OVector", "Vector1", "Vector2", "Vector3", "Vector4"];
const MATRICES: &[&str] = &["OMatrix", "Matrix2", "Matrix3", "Matrix4"];
const CURVES: &[&str] = &["NurbsCurve", "NurbsCurve2D", "NurbsCurve3D"];
const SURFACES: &[&str] = &["NurbsSurface", "NurbsSurface3D"];
const PLAIN: &[&str] = &[
    "KnotVector", "KnotMultiplicity", "CompoundCurve", "BoundingBox", "Binomial", "Line", "Ray", "RayIntersection",
    "PolygonMesh", "SurfacePoint", "AdaptiveTessellationNode", "BoundaryConstraints", "EndPoints", "Region", "SurfaceTessellation",
    "SplitSurfaceOption", "CurveLengthParameter", "AdaptiveTessellationOptions", "AdaptiveTessellationProcessor", "PolygonBoundary",
    "SurfaceClosestParameterNewton", "CurveClosestParameterNewton", "SurfaceClosestParameterProblem", "CurveClosestParameterProblem",
    "BoundaryEvaluation", "NeighborDirection", "DividableDirection", "TrimmedSurface", "DVector", "DMatrix", "CurveBoundingBoxTree", "SurfaceBoundingBoxTree", "BoundingBoxTraversal",
];

fn canon(id: &str) -> Option<&'static str> {
    for (l, c) in [(POINTS, "OPoint"), (VECTORS, "OVector"), (MATRICES, "OMatrix"), (CURVES, "NurbsCurve"), (SURFACES, "NurbsSurface")] {
        if l.contains(&id) {
            return Some(c);
        }
    }
    PLAIN.iter().find(|p| **p == id).copied()
}

impl Cx {
    pub fn ty(&mut self, t: &Type) -> Type {
        match t {
            Type::Reference(r) => {
                let e = self.ty(&r.elem);
                let m = r.mutability;
                parse_quote!(& #m #e)
            }
            Type::Slice(s) => {
                let e = self.ty(&s.elem);
                parse_quote!([#e])
            }
            Type::Array(s) => {
                let e = self.ty(&s.elem);
                let l = &s.len;
                parse_quote!([#e; #l])
            }
            Type::Tuple(t) => {
                let es: Vec<Type> = t.elems.iter().map(|e| self.ty(e)).collect();
                if es.len() == 1 {
                    parse_quote!((#(#es),* ,))
                } else {
                    parse_quote!((#(#es),*))
                }
            }
            Type::Paren(p) => self.ty(&p.elem),
            Type::Infer(_) => t.clone(),
            Type::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = p.path.segments.last().unwrap();
                let id = last.ident.to_string();
                if segs.len() == 1 {
                    if let Some((_, t)) = self.seqs.iter().find(|x| x.0 == id).cloned() {
                        self.rule("generic IntoIterator parameter -> vector");
                        let t = self.ty(&t);
                        return parse_quote!(Vec<#t>);
                    }
                }
                if id == "T0" || id == "T1" {
                    let i = quote::format_ident!("{}", if id == "T0" { "TreeA" } else { "TreeB" });
                    return parse_quote!(#i);
                }
                if id == "PhantomData" {
                    return parse_quote!(());
                }
                if id == "Cow" {
                    if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                        if let Some(syn::GenericArgument::Type(t)) = a.args.iter().find(|x| matches!(x, syn::GenericArgument::Type(_))) {
                            return self.ty(t);
                        }
                    }
                }
                if p.qself.is_none() && segs.len() == 1 {
                    if self.scalars.contains(&id) || id == "f64" || (id == "P" && self.imp == "CurveClosestParameterNewton") {
                        return parse_quote!(R);
                    }
                    if id == "Self" {
                        let i = syn::Ident::new(&self.imp, proc_macro2::Span::call_site());
                        return parse_quote!(#i);
                    }
                }
                if segs.len() == 2 && segs[0] == "Self" && p.qself.is_none() {
                    if let Some((_, t)) = self.assoc.iter().find(|x| x.0 == id).cloned() {
                        self.rule("associated type -> its definition in the impl");
                        return self.ty(&t);
                    }
                }
                if segs.len() == 2 && segs[0] == "Self" && id == "Option" {
                    // associated type of the traits Split
                    return parse_quote!(SelfOption);
                }
                if segs.len() == 2 && segs[0] == "Self" && id == "Output" {
                    return t.clone();
                }
                if p.qself.is_some() {
                    self.err(format!("type {}", t.to_token_stream()));
                    return t.clone();
                }
                let args: Vec<Type> = match &last.arguments {
                    syn::PathArguments::AngleBracketed(a) => {
                        a.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect()
                    }
                    _ => vec![],
                };
                if let Some(c) = canon(&id) {
                    let i = syn::Ident::new(c, proc_macro2::Span::call_site());
                    return parse_quote!(#i);
                }
                match id.as_str() {
                    "Result" if segs[0] == "anyhow" => {
                        let e = self.ty(&args[0]);
                        parse_quote!(Result<#e, Error>)
                    }
                    "Vec" | "Option" | "Result" | "Box" | "HashMap" => {
                        let a: Vec<Type> = args.iter().map(|x| self.ty(x)).collect();
                        let i = &last.ident;
                        if a.is_empty() {
                            parse_quote!(#i)
                        } else {
                            parse_quote!(#i<#(#a),*>)
                        }
                    }
                    // the optimiser's types, as the solvers see them (lib/argmin.rs)
                    "Problem" | "IterState" if self.imp.ends_with("ClosestParameterNewton") => {
                        self.rule("type of the crate argmin -> abstract type with assumed contract");
                        let i = quote::format_ident!("{}{}", if self.imp.starts_with("Surface") { "Surface" } else { "Curve" }, id);
                        parse_quote!(#i)
                    }
                    "KV" | "Error" => parse_quote!(Error),
                    "usize" | "isize" | "bool" | "u32" | "i32" | "u64" | "i64" | "UVDirection" | "CurveDirection" | "FlipDirection" | "Orientation" | "Ordering" | "KnotStyle" | "ThreadRng" => {
                        let i = &last.ident;
                        parse_quote!(#i)
                    }
                    _ => {
                        self.err(format!("type {}", t.to_token_stream()));
                        t.clone()
                    }
                }
            }
            _ => {
                self.err(format!("type {}", t.to_token_stream()));
                t.clone()
            }
        }
    }
}

/// decimal literal -> exact fraction
fn lit_fraction(s: &str) -> Option<(u64, u64)> {
    let s = s.replace('_', "");
    let s = s.trim_end_matches("f64").trim_end_matches("f32").to_string();
    let (m, e) = match s.find(['e', 'E']) {
        Some(k) => (s[..k].to_string(), s[k + 1..].parse::<i32>().ok()?),
        None => (s.clone(), 0),
    };
    let (i, f) = match m.find('.') {
        Some(k) => (m[..k].to_string(), m[k + 1..].to_string()),
        None => (m.clone(), String::new()),
    };
    let mut num: u64 = format!("{i}{f}").parse().ok()?;
    let mut den: u64 = 1;
    let exp = e - f.len() as i32;
    for _ in 0..exp.abs() {
        if exp > 0 {
            num = num.checked_mul(10)?;
        } else {
            den = den.checked_mul(10)?;
        }
    }
    while den % 10 == 0 && num % 10 == 0 {
        num /= 10;
        den /= 10;
    }
    while den % 2 == 0 && num % 2 == 0 {
        num /= 2;
        den /= 2;
    }
    while den % 5 == 0 && num % 5 == 0 {
        num /= 5;
        den /= 5;
    }
    Some((num, den))
}

fn is_float_lit(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(syn::ExprLit { lit: syn::Lit::Float(f), .. }) => Some(f.to_string()),
        Expr::Paren(p) => is_float_lit(&p.expr),
        _ => None,
    }
}

pub fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

/// `(E as f64 / 2.).floor() as usize`
fn half_floor(e: &Expr) -> Option<Expr> {
    let Expr::Cast(c) = e else { return None };
    if c.ty.to_token_stream().to_string() != "usize" {
        return None;
    }
    let Expr::MethodCall(m) = unparen(&c.expr) else { return None };
    if m.method != "floor" {
        return None;
    }
    let Expr::Binary(b) = unparen(&m.receiver) else { return None };
    if !matches!(b.op, syn::BinOp::Div(_)) {
        return None;
    }
    let Expr::Cast(c2) = unparen(&b.left) else { return None };
    if c2.ty.to_token_stream().to_string() != "f64" {
        return None;
    }
    let (n, d) = lit_fraction(&is_float_lit(&b.right)?)?;
    if d != 1 {
        return None;
    }
    let l = syn::LitInt::new(&format!("{n}"), proc_macro2::Span::call_site());
    let x = &c2.expr;
    Some(parse_quote!((#x) / #l))
}

impl VisitMut for Cx {
    fn visit_type_mut(&mut self, t: &mut Type) {
        *t = self.ty(t);
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        // `T::zero`, `D::dim`, `Self::f`, `OPoint::<T, D>::origin`
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let sp = proc_macro2::Span::call_site();
        if segs.len() >= 2 {
            let k = segs.len() - 2;
            let q = &segs[k];
            if self.scalars.contains(q) {
                p.segments[k].ident = syn::Ident::new("R", sp);
            } else if q == "Self" && !self.imp.is_empty() {
                p.segments[k].ident = syn::Ident::new(&self.imp, sp);
            } else if let Some(c) = canon(q) {
                p.segments[k].ident = syn::Ident::new(c, sp);
                p.segments[k].arguments = syn::PathArguments::None;
                if k > 0 {
                    let tail: Vec<syn::PathSegment> = p.segments.iter().skip(k).cloned().collect();
                    p.leading_colon = None;
                    p.segments = tail.into_iter().collect();
                }
            } else if q == "f64" {
                p.segments[k].ident = syn::Ident::new("R", sp);
            }
        } else if segs.len() == 1 {
            if segs[0] == "Self" && !self.imp.is_empty() {
                p.segments[0].ident = syn::Ident::new(&self.imp, sp);
            } else if let Some(c) = canon(&segs[0]) {
                p.segments[0].ident = syn::Ident::new(c, sp);
                p.segments[0].arguments = syn::PathArguments::None;
            }
        }
        for s in p.segments.iter_mut() {
            if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                for x in a.args.iter_mut() {
                    if let syn::GenericArgument::Type(t) = x {
                        *t = self.ty(t);
                    }
                }
            }
        }
    }

    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if let Some(init) = &mut l.init {
            if chains::lazy(&init.expr) {
                self.rule("lazy iterator chain bound to a variable -> collected");
                let e = &init.expr;
                init.expr = Box::new(parse_quote!(#e.collect::<Vec<_>>()));
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // circle constants
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let all = p.path.segments.iter().all(|s| ["std", "core", "f64", "consts", n.as_str()].contains(&s.ident.to_string().as_str()));
                if all && ["TAU", "PI", "FRAC_PI_2"].contains(&n.as_str()) {
                    let f = quote::format_ident!("r_{}", n.to_lowercase());
                    *e = parse_quote!(#f());
                    return;
                }
            }
        }
        // `X { .., ..Default::default() }` is `X { .., ..X::default() }`
        if let Expr::Struct(x) = e {
            let path = x.path.clone();
            if let Some(r) = &mut x.rest {
                if r.to_token_stream().to_string().replace(' ', "") == "Default::default()" {
                    **r = parse_quote!(#path::default());
                }
            }
        }
        // `<T as Trait>::f` of a scalar
        if let Expr::Path(p) = e {
            if let (Some(q), 2) = (&p.qself, p.path.segments.len()) {
                let t = q.ty.to_token_stream().to_string();
                if self.scalars.contains(&t) {
                    let f = p.path.segments[1].ident.clone();
                    *e = parse_quote!(R::#f);
                    return;
                }
            }
        }
        // whole-expression patterns first
        if let Some(mut n) = half_floor(e) {
            self.rule("(usize as f64 / k).floor() as usize -> integer division (exact below 2^53)");
            self.visit_expr_mut(&mut n);
            *e = parse_quote!((#n));
            return;
        }
        if let Expr::Cast(c) = e {
            let t = c.ty.to_token_stream().to_string();
            if t == "f64" {
                self.rule("usize as f64 -> exact conversion");
                let x = &c.expr;
                let mut n: Expr = parse_quote!(R::from_usize(#x).unwrap());
                visit_mut::visit_expr_mut(self, &mut n);
                *e = n;
                return;
            }
        }
        if let Some(s) = is_float_lit(e) {
            match lit_fraction(&s) {
                Some((n, d)) => {
                    let a = syn::LitInt::new(&format!("{n}"), proc_macro2::Span::call_site());
                    let b = syn::LitInt::new(&format!("{d}"), proc_macro2::Span::call_site());
                    *e = parse_quote!(r_lit(#a, #b));
                    self.rule("float literal -> exact fraction");
                }
                None => self.err(format!("literal {s}")),
            }
            return;
        }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f == "D::dim" || f == "Const::<D>::dim" {
                *e = parse_quote!(d_dim());
                return;
            }
            if let Some(b) = f.strip_suffix("::new") {
                let b = b.split("::<").next().unwrap_or(b);
                if VECTORS.contains(&b) || POINTS.contains(&b) {
                    let k = c.args.len();
                    if let Expr::Path(p) = &mut *c.func {
                        if let Some(l) = p.path.segments.last_mut() {
                            l.ident = quote::format_ident!("new{}", k);
                        }
                    }
                }
            }
            if f.ends_with("::dim") {
                self.err(format!("dimension {f}"));
            }
        }
        if let Expr::Path(p) = e {
            if p.path.segments.len() == 1 && self.const_dims.contains(&p.path.segments[0].ident.to_string()) {
                *e = parse_quote!(d_dim());
                return;
            }
        }
        if let Expr::Macro(m) = e {
            if let Some(n) = self.mac(&m.mac) {
                *e = n;
                return;
            }
        }
        // `if let P(&v) = x { .. }` -> `if let P(v) = x { let v = *v; .. }`
        if let Expr::If(f) = e {
            if let Expr::Let(l) = &mut *f.cond {
                let mut d = Deref(vec![]);
                d.visit_pat_mut(&mut l.pat);
                if !d.0.is_empty() {
                    self.rule("reference pattern in if let -> dereference in the branch");
                    for v in d.0.iter().rev() {
                        f.then_branch.stmts.insert(0, parse_quote!(let #v = *#v;));
                    }
                }
            }
        }
        // iterator chains
        if let Some(n) = chains::chain(self, e) {
            *e = n;
            self.visit_expr_mut(e);
            return;
        }
        if let Expr::ForLoop(f) = e {
            if let Some(n) = chains::for_loop(self, f) {
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Some(n) = self.option_closure(e) {
            *e = n;
            self.visit_expr_mut(e);
            return;
        }
        if let Expr::Closure(_) = e {
            self.err("closure outside a known iterator chain".into());
        }
        // `while let P = x { .. }` -> `loop { if let P = x { .. } else { break } }`
        if let Expr::While(w) = e {
            if let Expr::Let(_) = &*w.cond {
                self.rule("while let -> loop with a break");
                let (c, b) = (&w.cond, &w.body);
                let l = &w.label;
                let mut n: Expr = parse_quote!(#l loop { if #c #b else { break; } });
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
        }
        if let Expr::Field(f) = e {
            if let syn::Member::Named(n) = &f.member {
                let k = match n.to_string().as_str() {
                    "x" => Some(0usize),
                    "y" => Some(1),
                    "z" => Some(2),
                    "w" => Some(3),
                    _ => None,
                };
                if let Some(k) = k {
                    self.rule("point field .x/.y/.z -> index");
                    let b = &f.base;
                    let l = syn::LitInt::new(&format!("{k}"), proc_macro2::Span::call_site());
                    let mut n: Expr = parse_quote!(#b[#l]);
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
            }
        }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f == "<f64asNumCast>::from" && c.args.len() == 1 {
                self.rule("conversion between scalar types -> the same number");
                let x = &c.args[0];
                let mut n: Expr = parse_quote!(Some(#x));
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            if f == "DVector::from_vec" && c.args.len() == 1 {
                let t = c.args[0].to_token_stream().to_string().replace(' ', "");
                if let Some(x) = t.strip_suffix(".iter().copied().collect()") {
                    if !x.is_empty() && x.chars().all(|k| k.is_alphanumeric() || k == '_') {
                        self.rule("DVector::from_vec(p.iter().copied().collect()) -> the coordinates of the point p");
                        let x = quote::format_ident!("{}", x);
                        *e = parse_quote!(DVector::of_point(#x));
                        return;
                    }
                }
            }
            if f == "rand::rng" {
                self.rule("random numbers -> any value of their range");
                *e = parse_quote!(rand_rng());
                return;
            }
            if f == "Cow::Owned" || f == "Cow::Borrowed" {
                self.rule("Cow -> owned value");
                let x = &c.args[0];
                let mut n: Expr = if f == "Cow::Owned" { parse_quote!((#x)) } else { parse_quote!(#x.clone()) };
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
        }
        if let Expr::Path(p) = e {
            if p.path.segments.last().is_some_and(|s| s.ident == "PhantomData") {
                *e = parse_quote!(());
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if matches!(m.method.to_string().as_str(), "collect_vec" | "collect") && m.args.is_empty() {
                // X.into_iter().cycle().take(k).collect()
                if let Expr::MethodCall(t) = &*m.receiver {
                    if let Expr::MethodCall(c) = &*t.receiver {
                        if let Expr::MethodCall(i) = &*c.receiver {
                            if t.method == "take" && t.args.len() == 1 && c.method == "cycle" && i.method == "into_iter" {
                                self.rule("into_iter().cycle().take(k).collect() -> vec_cycle");
                                let (x, k) = (&i.receiver, &t.args[0]);
                                let mut n: Expr = parse_quote!(vec_cycle(#x, #k));
                                self.visit_expr_mut(&mut n);
                                *e = n;
                                return;
                            }
                        }
                    }
                }
            }
            if m.method == "random" && m.turbofish.as_ref().is_some_and(|t| t.to_token_stream().to_string().contains("f64")) {
                if matches!(&*m.receiver, Expr::Path(_)) {
                    *e = parse_quote!(rand_unit());
                    return;
                }
            }
            if m.method == "contains" && m.args.len() == 1 {
                if let (Expr::Range(r), Expr::Reference(t)) = (self.range_of(&m.receiver), &m.args[0]) {
                    if let (Some(a), Some(b)) = (&r.start, &r.end) {
                        self.rule("(a..=b).contains(&t) -> a <= t && t <= b");
                        let t = &t.expr;
                        let mut n: Expr = match r.limits {
                            syn::RangeLimits::Closed(_) => parse_quote!((#a <= #t && #t <= #b)),
                            syn::RangeLimits::HalfOpen(_) => parse_quote!((#a <= #t && #t < #b)),
                        };
                        self.visit_expr_mut(&mut n);
                        *e = n;
                        return;
                    }
                }
            }
            if m.method == "sort_by" && m.args.len() == 1 {
                let a = m.args[0].to_token_stream().to_string().replace(' ', "");
                if a == "|a,b|a.partial_cmp(b).unwrap()" {
                    self.rule("sort_by ascending partial_cmp -> sort_asc");
                    let r = &m.receiver;
                    let mut n: Expr = parse_quote!(sort_asc(&mut #r));
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
            }
            if m.method == "clone_from_slice" && m.args.len() == 1 {
                if let (Some((x, a, b)), Expr::Reference(y)) = (sliced(&m.receiver), &m.args[0]) {
                    if let Some((y, c, d)) = sliced(&y.expr) {
                        self.rule("x[a..b].clone_from_slice(&y[c..d]) -> slice_copy");
                        let Expr::MethodCall(x0) = &x else { unreachable!() };
                        let x0 = &x0.receiver;
                        let mut n: Expr = parse_quote!(slice_copy(&mut #x0, #a, #b, #y, #c, #d));
                        self.visit_expr_mut(&mut n);
                        *e = n;
                        return;
                    }
                }
            }
            if let ("extend_from_slice", Some(Expr::Reference(y))) = (m.method.to_string().as_str(), m.args.first()) {
                if let Some((y, c, d)) = sliced(&y.expr) {
                    self.rule("x.extend_from_slice(&y[c..d]) -> vec_extend");
                    let x = &m.receiver;
                    let mut n: Expr = parse_quote!(vec_extend(&mut #x, slice_vec(#y, #c, #d)));
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
            }
            if let ("unwrap_or_default", Expr::Path(p)) = (m.method.to_string().as_str(), &*m.receiver) {
                if let Some((_, t)) = self.opts.iter().find(|o| p.path.is_ident(&o.0)) {
                    let (x, t) = (&m.receiver, t.clone());
                    self.rule("x.unwrap_or_default() -> match on the option");
                    *e = parse_quote!(match #x { Some(__v) => __v, None => <#t>::default() });
                    return;
                }
            }
            // an iterator held in a variable has been collected already
            if (m.method == "collect_vec" || m.method == "collect") && m.args.is_empty() {
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.get_ident().is_some() {
                        self.rule("x.collect_vec() of a variable -> x");
                        *e = (*m.receiver).clone();
                        return;
                    }
                }
            }
            // [a, b].concat() of two vectors
            if let (true, Expr::Array(a)) = (m.method == "concat" && m.args.is_empty(), &*m.receiver) {
                if a.elems.len() >= 2 {
                    self.rule("[a, b].concat() -> vec_concat(a, b)");
                    let mut n: Expr = a.elems[0].clone();
                    for y in a.elems.iter().skip(1) {
                        n = parse_quote!(vec_concat(#n, #y));
                    }
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
            }
            if m.method == "to_vec" && m.args.is_empty() {
                if let Some((y, c, d)) = sliced(&m.receiver) {
                    self.rule("y[c..d].to_vec() -> slice_vec");
                    let mut n: Expr = parse_quote!(slice_vec(#y, #c, #d));
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
            }
            if m.method == "get_mut" && m.args.len() == 1 {
                if let Expr::Reference(k) = &m.args[0] {
                    self.rule("map.get_mut(&k) -> hm_get_mut(&mut map, k)");
                    let (r, a) = (&m.receiver, &k.expr);
                    let mut n: Expr = parse_quote!(hm_get_mut(&mut #r, #a));
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
            }
            if m.method == "unwrap" {
                if let Expr::MethodCall(g) = unparen(&m.receiver) {
                    if g.method == "get_mut" && g.args.len() == 1 {
                        self.rule("v.get_mut(k).unwrap() -> &mut v[k]");
                        let (r, a) = (&g.receiver, &g.args[0]);
                        let mut n: Expr = parse_quote!((&mut #r[#a]));
                        self.visit_expr_mut(&mut n);
                        *e = n;
                        return;
                    }
                }
            }
            if m.method == "generic_view" && m.args.len() == 2 {
                let a: String = m.args.iter().map(|x| x.to_token_stream().to_string().replace(' ', "")).collect::<Vec<_>>().join(";");
                if a == "(0,0);(<DasDimNameSub<U1>>::Output::name(),Const::<1>)" {
                    self.rule("view of the leading D-1 coordinates -> view_head");
                    let r = &m.receiver;
                    let mut n: Expr = parse_quote!(view_head(#r));
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // casts between scalar types are the identity on exact values
            if m.turbofish.is_some() && m.method != "collect" && m.method != "cast" {
                self.err(format!("turbofish on {}", m.method));
            }
            m.turbofish = None;
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name == "__cv" || name == "__cv_loop" {
                return;
            }
            if let Some(n) = self.mac(&m.mac) {
                *s = match n {
                    Expr::If(_) | Expr::Block(_) | Expr::ForLoop(_) => Stmt::Expr(n, None),
                    n => Stmt::Expr(n, Some(Default::default())),
                };
                return;
            }
        }
        if let Stmt::Item(i) = s {
            if !matches!(i, syn::Item::Use(_)) {
                self.err("item inside a function".into());
            }
            *s = parse_quote!({};);
            return;
        }
        if let Some(n) = chains::stmt(self, s) {
            *s = n;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

struct Names2(Vec<String>);
impl<'a> Visit<'a> for Names2 {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}
struct Uses(Vec<String>);
impl<'a> Visit<'a> for Uses {
    fn visit_path(&mut self, p: &'a syn::Path) {
        if let Some(i) = p.get_ident() {
            self.0.push(i.to_string());
        }
        syn::visit::visit_path(self, p);
    }
}

impl Cx {
    /// a range, possibly behind parentheses or a local name
    fn range_of(&self, e: &Expr) -> Expr {
        match unparen(e) {
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some((_, r @ Expr::Range(_))) = self.locals.iter().find(|l| *i == l.0) {
                        return r.clone();
                    }
                }
                e.clone()
            }
            x => x.clone(),
        }
    }

    /// `let f = |..| ..;` and `let r = a..=b;`: remembered, and replaced where used, when every name they mention
    /// is bound once in the whole function
    fn hoist(&mut self, b: &mut syn::Block, all: &[String]) {
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    let name = p.ident.to_string();
                    let free = |e: &Expr, own: &[String]| {
                        let mut u = Uses(vec![]);
                        u.visit_expr(e);
                        u.0.iter().all(|x| own.contains(x) || all.iter().filter(|y| *y == x).count() <= 1)
                    };
                    let once = all.iter().filter(|y| **y == name).count() == 1;
                    match &*init.expr {
                        Expr::Closure(c) if once => {
                            let mut own = Names2(vec![]);
                            own.visit_expr_closure(c);
                            if free(&init.expr, &own.0) && !chains::escapes(&c.body) {
                                self.rule("local closure -> its body where it is called");
                                self.locals.push((name, (*init.expr).clone()));
                                continue;
                            }
                        }
                        Expr::Range(r) if once && p.mutability.is_none() => {
                            if let (Some(_), Some(_)) = (&r.start, &r.end) {
                                if free(&init.expr, &[]) {
                                    self.rule("local range -> its bounds where it is used");
                                    self.locals.push((name, (*init.expr).clone()));
                                    continue;
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            keep.push(s);
        }
        b.stmts = keep;
    }

    /// closures handed to methods of Option and Result
    fn option_closure(&mut self, e: &Expr) -> Option<Expr> {
        // a call of a local closure
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let i = p.path.get_ident()?;
                if let Some((_, Expr::Closure(k))) = self.locals.iter().find(|l| *i == l.0).cloned() {
                    if k.inputs.len() != c.args.len() {
                        return None;
                    }
                    let mut st: Vec<Stmt> = vec![];
                    let mut tmp = vec![];
                    for a in &c.args {
                        let t = quote::format_ident!("__a{}", self.fresh());
                        st.push(parse_quote!(let #t = #a;));
                        tmp.push(t);
                    }
                    for (p, t) in k.inputs.iter().zip(tmp) {
                        let p = match p {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        st.push(parse_quote!(let #p = #t;));
                    }
                    let b = &k.body;
                    return Some(match &**b {
                        Expr::Block(x) => {
                            let s2 = &x.block.stmts;
                            parse_quote!({ #(#st)* #(#s2)* })
                        }
                        x => parse_quote!({ #(#st)* #x }),
                    });
                }
            }
            return None;
        }
        let Expr::MethodCall(m) = e else { return None };
        let r = &m.receiver;
        let name = m.method.to_string();
        // `Executor::new(problem, solver).configure(|state| ..).run()`
        if name == "run" && m.args.is_empty() {
            if let Expr::MethodCall(c) = unparen(r) {
                if let (true, 1, Some(Expr::Closure(k)), Expr::Call(x)) = (c.method == "configure", c.args.len(), c.args.first(), unparen(&c.receiver)) {
                    let f = x.func.to_token_stream().to_string().replace(' ', "");
                    if f == "Executor::new" && x.args.len() == 2 && k.inputs.len() == 1 && !chains::escapes(&k.body) {
                        let (p, v, i, b) = (&x.args[0], &x.args[1], &k.inputs[0], &k.body);
                        let (n, o) = (quote::format_ident!("__p{}", self.fresh()), quote::format_ident!("__o{}", self.fresh()));
                        self.rule("argmin Executor -> assumed contract of the solver's run");
                        return Some(parse_quote!({ let #n = #p; let #o = #v; let #i = #o.cv_start(); let #i = #b; #o.cv_run(#n, #i) }));
                    }
                }
            }
        }
        let clos = |x: Option<&Expr>| -> Option<syn::ExprClosure> {
            match x {
                Some(Expr::Closure(c)) if !chains::escapes(&c.body) && c.inputs.len() <= 1 => Some(c.clone()),
                _ => None,
            }
        };
        let fallible = match unparen(r) {
            Expr::MethodCall(x) => x.method.to_string().starts_with("try_") || x.method == "find_closest_parameter",
            Expr::Call(x) => x.func.to_token_stream().to_string().replace(' ', "").rsplit("::").next().is_some_and(|f| f.starts_with("try_")),
            _ => false,
        };
        let pat = |c: &syn::ExprClosure| -> Option<Pat> {
            Some(match c.inputs.first()? {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            })
        };
        // a reference pattern `|&x|` becomes a dereference
        let arm = |c: &syn::ExprClosure, f: &dyn Fn(&Expr) -> Expr| -> Option<(Pat, Expr)> {
            let mut p = pat(c)?;
            let mut d = Deref(vec![]);
            d.visit_pat_mut(&mut p);
            let v = &d.0;
            let b = &c.body;
            let b: Expr = if v.is_empty() { (**b).clone() } else { parse_quote!({ #(let #v = *#v;)* #b }) };
            Some((p, f(&b)))
        };
        let out: Option<Expr> = match name.as_str() {
            "map" => {
                let c = clos(m.args.first())?;
                if fallible {
                    let (p, b) = arm(&c, &|b| parse_quote!(Ok(#b)))?;
                    Some(parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) }))
                } else {
                    let (p, b) = arm(&c, &|b| parse_quote!(Some(#b)))?;
                    Some(parse_quote!(match #r { Some(#p) => #b, None => None }))
                }
            }
            "and_then" => {
                let c = clos(m.args.first())?;
                let (p, b) = arm(&c, &|b| b.clone())?;
                if fallible {
                    Some(parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) }))
                } else {
                    Some(parse_quote!(match #r { Some(#p) => #b, None => None }))
                }
            }
            "map_or" => {
                let c = clos(m.args.iter().nth(1))?;
                let d = m.args.first()?;
                let (p, b) = arm(&c, &|b| b.clone())?;
                Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
            }
            "unwrap_or_else" => {
                let c = clos(m.args.first())?;
                if !c.inputs.is_empty() {
                    return None;
                }
                let b = &c.body;
                Some(parse_quote!(match #r { Some(__x) => __x, None => #b }))
            }
            "ok_or_else" if matches!(m.args.first(), Some(Expr::Macro(x)) if x.mac.path.is_ident("argmin_error_closure")) => {
                Some(parse_quote!(match #r { Some(__x) => Ok(__x), None => Err(Error) }))
            }
            "ok_or_else" => {
                let c = clos(m.args.first())?;
                let b = &c.body;
                Some(parse_quote!(match #r { Some(__x) => Ok(__x), None => Err(#b) }))
            }
            "ok_or" => {
                let b = m.args.first()?;
                Some(parse_quote!(match #r { Some(__x) => Ok(__x), None => Err(#b) }))
            }
            _ => None,
        };
        if out.is_some() {
            self.rule("closure of an Option/Result method -> match");
        }
        out
    }

    fn mac(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "ensure" => {
                let args: Args = syn::parse2(m.tokens.clone()).ok()?;
                let mut c = args.0[0].clone();
                self.visit_expr_mut(&mut c);
                self.rule("anyhow::ensure! -> early return of an opaque error");
                Some(parse_quote!(if !(#c) { return Err(Error); }))
            }
            "bail" => {
                self.rule("anyhow::bail! -> early return of an opaque error");
                Some(parse_quote!(return Err(Error)))
            }
            "anyhow" => {
                self.rule("anyhow::anyhow! -> opaque error");
                Some(parse_quote!(Error))
            }
            "float" => {
                let mut x: Expr = syn::parse2(m.tokens.clone()).ok()?;
                self.visit_expr_mut(&mut x);
                self.rule("argmin::float! -> the literal");
                Some(x)
            }
            "vec" => {
                if let Ok(r) = syn::parse2::<Repeat>(m.tokens.clone()) {
                    let (mut a, mut b) = (r.0, r.1);
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    // nested repeats go through a helper with a contract over clones
                    return Some(parse_quote!(vec_repeat(#a, #b)));
                }
                let args: Args = syn::parse2(m.tokens.clone()).ok()?;
                let v: Vec<Expr> = args
                    .0
                    .into_iter()
                    .map(|mut e| {
                        self.visit_expr_mut(&mut e);
                        e
                    })
                    .collect();
                if v.is_empty() {
                    Some(parse_quote!(Vec::new()))
                } else {
                    Some(parse_quote!(vec![#(#v),*]))
                }
            }
            "matches" => {
                let a: Matches = syn::parse2(m.tokens.clone()).ok()?;
                let mut x = a.0;
                self.visit_expr_mut(&mut x);
                let p = a.1;
                self.rule("matches! -> match");
                Some(parse_quote!(match #x { #p => true, _ => false }))
            }
            "assert" | "debug_assert" | "println" | "dbg" => {
                self.rule("debug macro dropped");
                Some(parse_quote!({}))
            }
            "__cv" | "__cv_loop" => None,
            "unimplemented" | "unreachable" | "todo" => {
                self.rule("unimplemented!, unreachable! -> a call with precondition false");
                Some(parse_quote!(never_here()))
            }
            _ => {
                self.err(format!("macro {name}"));
                None
            }
        }
    }
}

struct Matches(Expr, Pat);
impl syn::parse::Parse for Matches {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let e = i.parse()?;
        i.parse::<syn::Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let _: Option<syn::Token![,]> = i.parse()?;
        if !i.is_empty() {
            return Err(i.error("guard"));
        }
        Ok(Matches(e, p))
    }
}

struct Args(Vec<Expr>);
impl syn::parse::Parse for Args {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        Ok(Args(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated(i)?.into_iter().collect()))
    }
}
struct Repeat(Expr, Expr);
impl syn::parse::Parse for Repeat {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let a = i.parse()?;
        i.parse::<syn::Token![;]>()?;
        let b = i.parse()?;
        Ok(Repeat(a, b))
    }
}

// ---- collection of names

#[derive(Default)]
struct Names {
    bindings: Vec<String>,
    calls: Vec<String>,
    methods: Vec<String>,
}
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.bindings.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        self.calls.push(c.func.to_token_stream().to_string().replace(' ', ""));
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        self.methods.push(c.method.to_string());
        syn::visit::visit_expr_method_call(self, c);
    }
}

struct Deref(Vec<syn::Ident>);
impl VisitMut for Deref {
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Reference(r) = p {
            if let syn::Pat::Ident(i) = &*r.pat {
                if r.mutability.is_none() && i.by_ref.is_none() {
                    self.0.push(i.ident.clone());
                    *p = (*r.pat).clone();
                    return;
                }
            }
        }
        syn::visit_mut::visit_pat_mut(self, p);
    }
}

// ---- markers

struct Marks {
    loops: usize,
    ifs: usize,
    rets: usize,
    lets: std::collections::HashMap<String, usize>,
}

fn mk(s: String) -> Stmt {
    parse_quote!(__cv!(#s);)
}

impl Marks {
    fn block(&mut self, b: &mut syn::Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let direct_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            let k = self.loops;
            let is_ret = matches!(&s, Stmt::Expr(Expr::Return(_), _));
            if direct_loop {
                out.push(mk(format!("before_{k}")));
            }
            if is_ret {
                let r = self.rets;
                self.rets += 1;
                // a returned tuple gets a name
                if let Stmt::Expr(Expr::Return(x), _) = &mut s {
                    if let Some(Expr::Tuple(_)) = x.expr.as_deref() {
                        let e = x.expr.take();
                        out.push(parse_quote!(let __ret = #e;));
                        x.expr = Some(parse_quote!(__ret));
                    }
                }
                out.push(mk(format!("ret_{r}")));
            }
            let names = if let Stmt::Local(l) = &s {
                let mut n = Names::default();
                n.visit_pat(&l.pat);
                n.bindings
            } else {
                vec![]
            };
            self.visit_stmt_mut(&mut s);
            // `for x in a..=b` with variable bounds: guarded by a <= b, the verifier knows nothing of an empty inclusive range
            let mut guard = None;
            if let Stmt::Expr(Expr::ForLoop(f), _) = &s {
                if let Expr::Range(r) = &*f.expr {
                    if let (Some(a), syn::RangeLimits::Closed(_), Some(b)) = (&r.start, &r.limits, &r.end) {
                        if matches!(**a, Expr::Path(_)) && matches!(**b, Expr::Path(_)) {
                            guard = Some((a.clone(), b.clone()));
                        }
                    }
                }
            }
            if let Some((a, b)) = guard {
                s = parse_quote!(if #a <= #b { #s });
            }
            out.push(s);
            if direct_loop {
                out.push(mk(format!("after_{k}")));
            }
            for n in names {
                let c = self.lets.entry(n.clone()).or_insert(0);
                out.push(mk(format!("let_{n}_{c}")));
                *c += 1;
            }
        }
        b.stmts = out;
    }
    fn loop_body(&mut self, b: &mut syn::Block, k: usize) {
        self.block(b);
        let tag = format!("{k}");
        b.stmts.insert(0, parse_quote!(__cv_loop!(#tag);));
        b.stmts.insert(1, mk(format!("loop_{k}_start")));
        // an expression body of unit type gets a semicolon
        if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        b.stmts.push(mk(format!("loop_{k}_end")));
    }
}

impl VisitMut for Marks {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        self.block(b);
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
        let k = self.loops;
        self.loops += 1;
        self.visit_expr_mut(&mut f.expr);
        // a counter nobody names gets a name, for the invariants to use
        if matches!(&*f.pat, Pat::Wild(_)) {
            let w = quote::format_ident!("__w{}", k);
            *f.pat = parse_quote!(#w);
        }
        self.loop_body(&mut f.body, k);
    }
    fn visit_expr_while_mut(&mut self, f: &mut syn::ExprWhile) {
        let k = self.loops;
        self.loops += 1;
        self.visit_expr_mut(&mut f.cond);
        self.loop_body(&mut f.body, k);
    }
    fn visit_expr_loop_mut(&mut self, f: &mut syn::ExprLoop) {
        let k = self.loops;
        self.loops += 1;
        self.loop_body(&mut f.body, k);
    }
    fn visit_expr_if_mut(&mut self, f: &mut syn::ExprIf) {
        let k = self.ifs;
        self.ifs += 1;
        self.visit_expr_mut(&mut f.cond);
        self.visit_block_mut(&mut f.then_branch);
        f.then_branch.stmts.insert(0, mk(format!("then_{k}")));
        if let Some((_, e)) = &mut f.else_branch {
            if let Expr::Block(b) = &mut **e {
                self.visit_block_mut(&mut b.block);
                b.block.stmts.insert(0, mk(format!("else_{k}")));
            } else {
                self.visit_expr_mut(e);
            }
        }
    }
}

pub fn function(f: &Found, imp: &str) -> Result<Value, String> {
    let mut cx = Cx { imp: imp.to_string(), scalars: vec!["T".into(), "F".into()], const_dims: vec![], errors: vec![], rules: vec![], n: 0, seqs: vec![], locals: vec![], opts: vec![], assoc: f.assoc.clone() };
    for g in &f.sig.generics.params {
        if let syn::GenericParam::Type(g) = g {
            for b in &g.bounds {
                if let syn::TypeParamBound::Trait(t) = b {
                    let l = t.path.segments.last().unwrap();
                    if l.ident == "IntoIterator" || l.ident == "Iterator" {
                        if let syn::PathArguments::AngleBracketed(a) = &l.arguments {
                            for x in &a.args {
                                if let syn::GenericArgument::AssocType(a) = x {
                                    if a.ident == "Item" {
                                        cx.seqs.push((g.ident.to_string(), a.ty.clone()));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if let Some(t) = &f.self_ty {
        // `impl<..., const D: usize>` shows as Const<D> in the self type
        if t.to_token_stream().to_string().replace(' ', "").contains("Const<D>") {
            cx.const_dims.push("D".into());
        }
    }
    let mut params = vec![];
    let mut selfk = String::new();
    for p in &f.sig.inputs {
        match p {
            syn::FnArg::Receiver(r) => {
                selfk = match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => "&mut self",
                    (Some(_), None) => "&self",
                    (None, Some(_)) => "mut self",
                    (None, None) => "self",
                }
                .to_string()
            }
            syn::FnArg::Typed(t) => {
                let name = match &*t.pat {
                    Pat::Ident(i) => (i.mutability.is_some(), i.ident.to_string()),
                    _ => return Err("pattern parameter".into()),
                };
                let ty = cx.ty(&t.ty);
                if let Type::Path(p) = &ty {
                    if let Some(syn::PathSegment { ident, arguments: syn::PathArguments::AngleBracketed(a) }) = p.path.segments.last() {
                        if let ("Option", Some(syn::GenericArgument::Type(t @ Type::Path(_)))) = (ident.to_string().as_str(), a.args.first()) {
                            cx.opts.push((name.1.clone(), t.clone()));
                        }
                    }
                }
                params.push(json!({"name": name.1, "mut": name.0, "ty": ty.to_token_stream().to_string()}));
            }
        }
    }
    let ret = match &f.sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => cx.ty(t).to_token_stream().to_string(),
    };
    let mut body = f.block.clone();
    let mut all = Names2(vec![]);
    all.visit_block(&body);
    cx.hoist(&mut body, &all.0);
    cx.visit_block_mut(&mut body);
    if !cx.errors.is_empty() {
        return Err(format!("unsupported: {}", cx.errors.join("; ")));
    }
    let mut names = Names::default();
    names.visit_block(&body);
    // tail expression -> named, so that proofs can talk about it
    if let Some(Stmt::Expr(e, None)) = body.stmts.last() {
        if !ret.is_empty() {
            let e = e.clone();
            let n = body.stmts.len();
            let t: Type = syn::parse_str(&ret).map_err(|e| e.to_string())?;
            body.stmts[n - 1] = parse_quote!(let __tail: #t = #e;);
            body.stmts.push(mk("end".into()));
            body.stmts.push(Stmt::Expr(parse_quote!(__tail), None));
        } else {
            body.stmts.push(mk("end".into()));
        }
    } else {
        body.stmts.push(mk("end".into()));
    }
    let mut m = Marks { loops: 0, ifs: 0, rets: 0, lets: Default::default() };
    m.block(&mut body);
    if selfk == "mut self" {
        selfk = "self".to_string();
        SelfName.visit_block_mut(&mut body);
        body.stmts.insert(0, parse_quote!(let mut __me = self;));
        cx.rule("mut self -> a local variable");
    }
    body.stmts.insert(0, mk("start".into()));
    let file: syn::File = parse_quote!(fn __f() #body);
    let mut text = prettyplease::unparse(&file);
    text = text.trim_start().trim_start_matches("fn __f()").trim_start().to_string();
    let _: TokenStream = quote!();
    Ok(json!({
        "self": selfk, "params": params, "ret": ret, "body": text, "loops": m.loops, "ifs": m.ifs,
        "bindings": names.bindings, "calls": names.calls, "methods": names.methods, "rules": cx.rules,
    }))
}

/// `self` as a local variable
struct SelfName;
impl VisitMut for SelfName {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.path.is_ident("self") {
            *p = parse_quote!(__me);
        }
    }
}

/// `x[a..b]` as (x as a slice, a, b)
fn sliced(e: &Expr) -> Option<(Expr, Expr, Expr)> {
    let Expr::Index(i) = unparen(e) else { return None };
    let Expr::Range(r) = unparen(&i.index) else { return None };
    let b = &i.expr;
    let y: Expr = match &**b {
        Expr::MethodCall(m) if m.method == "as_slice" => (**b).clone(),
        _ => parse_quote!(#b.as_slice()),
    };
    let lo: Expr = match &r.start {
        Some(x) => (**x).clone(),
        None => parse_quote!(0usize),
    };
    let hi: Expr = match (&r.end, &r.limits) {
        (Some(x), syn::RangeLimits::HalfOpen(_)) => (**x).clone(),
        (Some(x), syn::RangeLimits::Closed(_)) => parse_quote!((#x) + 1),
        (None, _) => parse_quote!(#y.len()),
    };
    Some((y, lo, hi))
}
