//! Iterator chains -> index loops. Names introduced: __iK (index), __vK (accumulator), __sK (source).
use crate::rewrite::{unparen, Cx};
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr, Pat, Stmt};

#[derive(Clone)]
enum El {
    E(Expr),
    T(Vec<El>),
}

#[derive(Clone)]
enum Src {
    Iter(Expr),
    IterMut(Expr),
    Into(Expr),
    Range(syn::ExprRange),
    Windows(Expr, usize),
    Circular(Expr),
    Chain(Box<(Src, Vec<Ad>)>, Box<(Src, Vec<Ad>)>),
    /// one element
    Once(Expr),
}

#[derive(Clone)]
enum Ad {
    Enumerate,
    Flatten,
    Rev,
    Skip(Expr),
    Take(Expr),
    Map(syn::ExprClosure),
    Filter(syn::ExprClosure),
    Cloned,
    Copied,
    Zip(Src),
    FilterMap(syn::ExprClosure),
    FlatMap(syn::ExprClosure),
}

const SRC_METHODS: &[&str] = &["iter", "iter_mut", "into_iter", "control_points_iter", "control_points_iter_mut"];

fn source(e: &Expr) -> Option<Src> {
    match unparen(e) {
        Expr::Range(r) if r.start.is_some() && r.end.is_some() => Some(Src::Range(r.clone())),
        Expr::MethodCall(m) if m.args.is_empty() => {
            let r = (*m.receiver).clone();
            match m.method.to_string().as_str() {
                "iter" => Some(Src::Iter(r)),
                "iter_mut" => Some(Src::IterMut(r)),
                "into_iter" => match source(&r) {
                    Some(s) => Some(s),
                    None => Some(Src::Into(r)),
                },
                "control_points_iter" => Some(Src::Iter(parse_quote!(#r.control_points))),
                "control_points_iter_mut" => Some(Src::IterMut(parse_quote!(#r.control_points))),
                _ => None,
            }
        }
        Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "").ends_with("iter::once") && is_place(&c.args[0]) => Some(Src::Once(c.args[0].clone())),
        Expr::MethodCall(m) if m.method == "windows" && m.args.len() == 1 => {
            let k: usize = m.args[0].to_token_stream().to_string().parse().ok()?;
            Some(Src::Windows((*m.receiver).clone(), k))
        }
        _ => None,
    }
}

/// `|a, b| a.partial_cmp(b)` with any way out of the None that exact values never give
pub fn ascending(e: &Expr) -> bool {
    let a = e.to_token_stream().to_string().replace(' ', "");
    ["|a,b|a.partial_cmp(b).unwrap()", "|a,b|a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal)", "|a,b|a.partial_cmp(b).unwrap_or(Ordering::Equal)"].contains(&a.as_str())
}

fn closure(e: &Expr) -> Option<syn::ExprClosure> {
    if let Expr::Closure(c) = e {
        Some(c.clone())
    } else {
        None
    }
}

/// a chain without its terminal
fn parse(e: &Expr) -> Option<(Src, Vec<Ad>)> {
    if let Expr::MethodCall(m) = unparen(e) {
        let name = m.method.to_string();
        if !SRC_METHODS.contains(&name.as_str()) && name != "windows" {
            if name == "tuple_windows" || name == "circular_tuple_windows" {
                let (s, ads) = parse(&m.receiver)?;
                if !ads.is_empty() {
                    return None;
                }
                let Src::Iter(x) = s else { return None };
                return Some((if name == "tuple_windows" { Src::Windows(x, 0) } else { Src::Circular(x) }, vec![]));
            }
            let (s, mut ads) = parse(&m.receiver)?;
            let a0 = m.args.first();
            if name == "chain" {
                let b = parse(a0?)?;
                return Some((Src::Chain(Box::new((s, ads)), Box::new(b)), vec![]));
            }
            // sorted and deduplicated copies of the elements
            if name == "sorted_by" || name == "dedup" {
                let x = &m.receiver;
                if name == "dedup" {
                    return Some((Src::Into(parse_quote!(vec_dedup(#x.cloned().collect()))), vec![]));
                }
                if !ascending(a0?) {
                    return None;
                }
                return Some((Src::Into(parse_quote!(vec_sorted(#x.cloned().collect()))), vec![]));
            }
            let ad = match name.as_str() {
                "enumerate" => Ad::Enumerate,
                "rev" => Ad::Rev,
                "cloned" => Ad::Cloned,
                "copied" => Ad::Copied,
                "skip" => Ad::Skip(a0?.clone()),
                "take" => Ad::Take(a0?.clone()),
                "map" => Ad::Map(closure(a0?)?),
                "filter" => Ad::Filter(closure(a0?)?),
                "filter_map" => Ad::FilterMap(closure(a0?)?),
                "flatten" => Ad::Flatten,
                "flat_map" => Ad::FlatMap(closure(a0?)?),
                "zip" => Ad::Zip(source(a0?).unwrap_or(match a0? {
                    Expr::Reference(r) => Src::Iter((*r.expr).clone()),
                    o => Src::Into(o.clone()),
                })),
                _ => return None,
            };
            ads.push(ad);
            return Some((s, ads));
        }
    }
    source(e).map(|s| (s, vec![]))
}

/// an iterator chain that nothing has consumed yet
pub fn lazy(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(_)) && parse(e).map(|(_, ads)| !ads.is_empty()).unwrap_or(false)
}

/// variables read and names bound
#[derive(Default)]
struct Names {
    used: Vec<String>,
    bound: Vec<String>,
}
impl<'a> syn::visit::Visit<'a> for Names {
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.used.push(i.to_string());
        }
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.bound.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        for t in m.tokens.clone() {
            self.used.push(t.to_string());
        }
    }
}

/// names the closures of a chain leave in scope of the loop body; None when one closure would read another's names
fn chain_names(ads: &[Ad]) -> Option<Vec<String>> {
    let mut bound: Vec<String> = vec![];
    for a in ads {
        let c = match a {
            Ad::Map(c) | Ad::Filter(c) | Ad::FilterMap(c) | Ad::FlatMap(c) => c,
            _ => continue,
        };
        let mut own = Names::default();
        c.inputs.iter().for_each(|p| syn::visit::Visit::visit_pat(&mut own, p));
        let mut body = Names::default();
        syn::visit::Visit::visit_expr(&mut body, &c.body);
        if body.used.iter().any(|u| bound.contains(u) && !own.bound.contains(u)) {
            return None;
        }
        bound.extend(own.bound);
        if !matches!(a, Ad::Filter(_)) {
            bound.extend(body.bound);
        }
    }
    Some(bound)
}

/// does the loop body (with its own patterns) read a name a closure of the chain binds?
fn clash(ads: &[Ad], pats: &[&Pat], body: &[Stmt], value: Option<&Expr>) -> bool {
    let Some(bound) = chain_names(ads) else { return true };
    let (mut own, mut b) = (Names::default(), Names::default());
    pats.iter().for_each(|p| syn::visit::Visit::visit_pat(&mut own, p));
    body.iter().for_each(|s| syn::visit::Visit::visit_stmt(&mut b, s));
    value.iter().for_each(|e| syn::visit::Visit::visit_expr(&mut b, e));
    b.used.iter().any(|u| bound.contains(u) && !own.bound.contains(u))
}

fn bind(p: &Pat, el: &El) -> Option<Vec<Stmt>> {
    match (p, el) {
        (Pat::Type(t), _) => bind(&t.pat, el),
        (Pat::Paren(t), _) => bind(&t.pat, el),
        (Pat::Wild(_), _) => Some(vec![]),
        (Pat::Tuple(t), El::T(v)) if t.elems.len() == v.len() => {
            // a later element that reads a name an earlier pattern binds: bind all at once
            let mut seen = Names::default();
            for (a, b) in t.elems.iter().zip(v) {
                let mut u = Names::default();
                syn::visit::Visit::visit_expr(&mut u, &flat(b));
                if u.used.iter().any(|x| seen.bound.contains(x)) {
                    let x = flat(el);
                    return Some(vec![parse_quote!(let #p = #x;)]);
                }
                syn::visit::Visit::visit_pat(&mut seen, a);
            }
            let mut out = vec![];
            for (a, b) in t.elems.iter().zip(v) {
                out.extend(bind(a, b)?);
            }
            Some(out)
        }
        (Pat::Reference(r), El::E(e)) => {
            let q = &r.pat;
            Some(vec![parse_quote!(let #q = *(#e);)])
        }
        // an array taken apart by a pattern: its elements by index
        (Pat::Slice(p), El::E(Expr::Reference(r))) if r.mutability.is_none() && p.elems.iter().all(|q| matches!(q, Pat::Ident(_) | Pat::Wild(_))) => {
            let x = &r.expr;
            let mut out = vec![];
            for (k, q) in p.elems.iter().enumerate() {
                let i = syn::LitInt::new(&format!("{k}"), proc_macro2::Span::call_site());
                out.extend(bind(q, &El::E(parse_quote!(&#x[#i])))?);
            }
            Some(out)
        }
        (p, e) => {
            let x = flat(e);
            Some(vec![parse_quote!(let #p = #x;)])
        }
    }
}

fn flat(e: &El) -> Expr {
    match e {
        El::E(e) => e.clone(),
        El::T(v) => {
            let xs: Vec<Expr> = v.iter().map(flat).collect();
            parse_quote!((#(#xs),*))
        }
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Index(i) => is_place(&i.expr) && !matches!(*i.index, Expr::Range(_)),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Reference(r) => is_place(&r.expr),
        Expr::Unary(u) => is_place(&u.expr),
        _ => false,
    }
}

/// the source as statements to run before the loop, element by index, length
fn open_src(cx: &mut Cx, s: &Src, i: &syn::Ident, pre: &mut Vec<Stmt>) -> Option<(El, Expr, Expr)> {
    if let Src::Chain(..) | Src::Once(_) = s {
        return None;
    }
    let mut hold = |cx: &mut Cx, e: &Expr| -> Expr {
        let e = unparen(e);
        if is_place(e) {
            return match e {
                Expr::Reference(r) => (*r.expr).clone(),
                e => e.clone(),
            };
        }
        let n = cx.fresh();
        let s = format_ident!("__s{}", n);
        pre.push(parse_quote!(let #s = #e;));
        parse_quote!(#s)
    };
    let zero: Expr = parse_quote!(0);
    Some(match s {
        Src::Iter(e) => {
            let x = hold(cx, e);
            (El::E(parse_quote!(&#x[#i])), zero, parse_quote!(#x.len()))
        }
        Src::IterMut(e) => {
            let x = hold(cx, e);
            (El::E(parse_quote!(&mut #x[#i])), zero, parse_quote!(#x.len()))
        }
        Src::Into(e) => {
            let x = hold(cx, e);
            (El::E(parse_quote!(#x[#i].clone())), zero, parse_quote!(#x.len()))
        }
        Src::Windows(e, k) => {
            let x = hold(cx, e);
            let el = if *k == 0 {
                El::T(vec![El::E(parse_quote!(&#x[#i])), El::E(parse_quote!(&#x[#i + 1]))])
            } else if *k == 2 {
                El::E(parse_quote!(&#x[#i..#i + 2]))
            } else {
                return None;
            };
            (el, zero, parse_quote!(len_minus_1(#x.len())))
        }
        Src::Circular(e) => {
            let x = hold(cx, e);
            (El::T(vec![El::E(parse_quote!(&#x[#i])), El::E(parse_quote!(&#x[next_mod(#i, #x.len())]))]), zero, parse_quote!(#x.len()))
        }
        Src::Chain(..) | Src::Once(_) => return None,
        Src::Range(r) => {
            let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
            let hi: Expr = match r.limits {
                syn::RangeLimits::HalfOpen(_) => parse_quote!(#b),
                syn::RangeLimits::Closed(_) => parse_quote!((#b) + 1),
            };
            (El::E(parse_quote!(#i)), (**a).clone(), hi)
        }
    })
}

struct Has(bool, bool);
impl<'a> syn::visit::Visit<'a> for Has {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.1 = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

/// a block whose returns are all at the end of its branches, as a value; `t` is what it falls through to
fn tail_form(stmts: &[Stmt], t: &Expr) -> Option<Expr> {
    let Some((last, pre)) = stmts.split_last() else { return Some(t.clone()) };
    let none = |s: &Stmt| {
        let mut h = Has(false, false);
        syn::visit::Visit::visit_stmt(&mut h, s);
        !h.0
    };
    if !pre.iter().all(none) {
        return None;
    }
    let x: Expr = match last {
        Stmt::Expr(Expr::Return(r), _) => (**r.expr.as_ref()?).clone(),
        Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => tail_form(&b.block.stmts, t)?,
        Stmt::Expr(Expr::If(f), _) if !none(last) => {
            if !simple(&f.cond) {
                return None;
            }
            let c = &f.cond;
            let y = tail_form(&f.then_branch.stmts, t)?;
            let n = match &f.else_branch {
                None => t.clone(),
                Some((_, e)) => tail_form(&[Stmt::Expr((**e).clone(), None)], t)?,
            };
            parse_quote!(if #c { #y } else { #n })
        }
        s if none(s) => {
            return Some(parse_quote!({ #(#stmts)* #t }));
        }
        _ => return None,
    };
    if pre.is_empty() { Some(x) } else { Some(parse_quote!({ #(#pre)* #x })) }
}

/// statements with early returns as one value; `t` is what they fall through to
fn value_form(cx: &mut Cx, stmts: &[Stmt], t: &Expr) -> Option<Expr> {
    let none = |s: &Stmt| {
        let mut h = Has(false, false);
        syn::visit::Visit::visit_stmt(&mut h, s);
        !h.0
    };
    let Some(k) = stmts.iter().position(|s| !none(s)) else {
        let mut h = Has(false, false);
        syn::visit::Visit::visit_expr(&mut h, t);
        return if h.0 { None } else { Some(parse_quote!({ #(#stmts)* #t })) };
    };
    let (pre, s, post) = (&stmts[..k], &stmts[k], &stmts[k + 1..]);
    let n = cx.fresh();
    let (r, y) = (format_ident!("__r{}", n), format_ident!("__y{}", n));
    let mut s = s.clone();
    SomeReturns.visit_stmt_mut(&mut s);
    let x = tail_form(&[s], &parse_quote!(None))?;
    let rest = value_form(cx, post, t)?;
    Some(parse_quote!({ #(#pre)* let #r = #x; match #r { Some(#y) => #y, None => #rest } }))
}

/// `return x` -> `return Some(x)`
struct SomeReturns;
impl syn::visit_mut::VisitMut for SomeReturns {
    fn visit_expr_return_mut(&mut self, r: &mut syn::ExprReturn) {
        if let Some(e) = &r.expr {
            let e = e.clone();
            r.expr = Some(Box::new(parse_quote!(Some(#e))));
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

/// loop exits that belong to the statements themselves
struct Exits(bool);
impl<'a> syn::visit::Visit<'a> for Exits {
    fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.0 |= l.body.to_token_stream().to_string().contains("break '");
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.0 |= l.body.to_token_stream().to_string().contains("break '");
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.0 |= l.body.to_token_stream().to_string().contains("break '");
    }
}

/// more than one loop (or none) for the chain: leaving one is not leaving all
fn many(s: &Src, ads: &[Ad]) -> bool {
    matches!(s, Src::Chain(..) | Src::Once(_)) || ads.iter().any(|a| matches!(a, Ad::Flatten | Ad::FlatMap(_)))
}

/// `return` or `?` in a closure body
pub fn escapes(e: &Expr) -> bool {
    let mut h = Has(false, false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0 || h.1
}

fn simple(e: &Expr) -> bool {
    let mut h = Has(false, false);
    syn::visit::Visit::visit_expr(&mut h, e);
    !h.0
}

enum Term<'a> {
    Push(syn::Ident, bool),
    Body(&'a dyn Fn(&El) -> Option<Vec<Stmt>>),
}

/// split a closure body into statements and a value
fn body_parts(e: &Expr) -> (Vec<Stmt>, Expr) {
    if let Expr::Block(b) = e {
        if b.label.is_none() {
            let mut st = b.block.stmts.clone();
            if let Some(Stmt::Expr(t, None)) = st.last().cloned() {
                st.pop();
                return (st, t);
            }
        }
    }
    (vec![], e.clone())
}

fn build(cx: &mut Cx, ads: &[Ad], el: El, i: &syn::Ident, start: &Expr, plain: bool, term: &Term) -> Option<Vec<Stmt>> {
    let Some((a, rest)) = ads.split_first() else {
        return match term {
            Term::Push(v, fallible) => {
                let x = flat(&el);
                let (mut st, tail) = body_parts(&x);
                if *fallible {
                    if let Expr::Call(c) = &tail {
                        if c.func.to_token_stream().to_string() == "Ok" {
                            let y = &c.args[0];
                            st.push(parse_quote!(#v.push(#y);));
                            return Some(st);
                        }
                    }
                    let n = cx.fresh();
                    let q = format_ident!("__q{}", n);
                    st.push(parse_quote!(let #q = #tail;));
                    st.push(parse_quote!(let #q = match #q { Ok(x) => x, Err(e) => { return Err(e); } };));
                    st.push(parse_quote!(#v.push(#q);));
                    return Some(st);
                }
                let n = cx.fresh();
                let q = format_ident!("__q{}", n);
                st.push(parse_quote!(let #q = #tail;));
                st.push(parse_quote!(#v.push(#q);));
                Some(st)
            }
            Term::Body(f) => f(&el),
        };
    };
    match a {
        Ad::Enumerate => {
            if !plain {
                return None;
            }
            let ix: Expr = if start.to_token_stream().to_string() == "0" { parse_quote!(#i) } else { parse_quote!(#i - #start) };
            build(cx, rest, El::T(vec![El::E(ix), el]), i, start, plain, term)
        }
        Ad::Map(c) => {
            if c.inputs.len() != 1 {
                return None;
            }
            let mut c = c.clone();
            if !simple(&c.body) {
                let mut h = Has(false, false);
                syn::visit::Visit::visit_expr(&mut h, &c.body);
                if h.1 {
                    return None;
                }
                let (st, t) = body_parts(&c.body);
                c.body = Box::new(value_form(cx, &st, &t)?);
                cx.rule("early returns of a closure -> branches of one value");
            }
            let c = &c;
            let mut st = bind(&c.inputs[0], &el)?;
            if rest.is_empty() {
                st.extend(build(cx, rest, El::E((*c.body).clone()), i, start, plain, term)?);
            } else {
                let (pre, tail) = body_parts(&c.body);
                st.extend(pre);
                let next = match &tail {
                    Expr::Tuple(t) => El::T(t.elems.iter().map(|x| El::E(x.clone())).collect()),
                    t => El::E(t.clone()),
                };
                st.extend(build(cx, rest, next, i, start, plain, term)?);
            }
            Some(st)
        }
        Ad::Filter(c) => {
            if !simple(&c.body) || c.inputs.len() != 1 {
                return None;
            }
            let n = cx.fresh();
            let f = format_ident!("__f{}", n);
            let x = flat(&el);
            let mut st: Vec<Stmt> = vec![parse_quote!(let #f = #x;)];
            let cond = &c.body;
            let b = match &c.inputs[0] {
                // `|&x|` on an iterator of references
                Pat::Reference(r) => bind(&r.pat, &El::E(parse_quote!(#f)))?,
                p => bind(p, &El::E(parse_quote!(&#f)))?,
            };
            let k = format_ident!("__k{}", n);
            st.push(parse_quote!(let #k = { #(#b)* #cond };));
            let inner = build(cx, rest, El::E(parse_quote!(#f)), i, start, false, term)?;
            st.push(parse_quote!(if #k { #(#inner)* }));
            Some(st)
        }
        Ad::FilterMap(c) => {
            if !simple(&c.body) || c.inputs.len() != 1 {
                return None;
            }
            let n = cx.fresh();
            let f = format_ident!("__f{}", n);
            let mut st = bind(&c.inputs[0], &el)?;
            let b = &c.body;
            st.push(parse_quote!(let #f = #b;));
            let x = format_ident!("__x{}", n);
            let inner = build(cx, rest, El::E(parse_quote!(#x)), i, start, false, term)?;
            st.push(parse_quote!(if let Some(#x) = #f { #(#inner)* }));
            Some(st)
        }
        Ad::Flatten => {
            let n = cx.fresh();
            let f = format_ident!("__f{}", n);
            let j = format_ident!("__j{}", n);
            let x = flat(&el);
            let mut st: Vec<Stmt> = vec![parse_quote!(let #f = #x;)];
            let inner = build(cx, rest, El::E(parse_quote!(#f[#j].clone())), i, start, false, term)?;
            st.push(parse_quote!(for #j in 0..#f.len() { #(#inner)* }));
            Some(st)
        }
        Ad::FlatMap(c) => {
            if c.inputs.len() != 1 {
                return None;
            }
            // a closure that yields a chain: its loop is nested
            let (bst, bv) = body_parts(&c.body);
            let inner_chain = match unparen(&bv) {
                Expr::MethodCall(_) => parse(&bv).filter(|(s, a)| !a.is_empty() && matches!(s, Src::Range(_) | Src::Iter(_))),
                _ => None,
            };
            if let Some((isrc, mut iads)) = inner_chain {
                if rest.iter().any(|a| matches!(a, Ad::Enumerate | Ad::Rev | Ad::Skip(_) | Ad::Take(_) | Ad::Zip(_))) {
                    return None;
                }
                let mut st = bind(&c.inputs[0], &el)?;
                st.extend(bst);
                iads.extend(rest.iter().cloned());
                st.extend(looped(cx, &isrc, &iads, term, false)?);
                return Some(st);
            }
            if !simple(&c.body) {
                return None;
            }
            // an array literal: its elements one after the other
            if let Expr::Array(arr) = unparen(&bv) {
                let mut st = bind(&c.inputs[0], &el)?;
                st.extend(body_parts(&c.body).0);
                let mut names = vec![];
                for x in &arr.elems {
                    let v = format_ident!("__x{}", cx.fresh());
                    st.push(parse_quote!(let #v = #x;));
                    names.push(v);
                }
                for v in names {
                    st.extend(build(cx, rest, El::E(parse_quote!(#v)), i, start, false, term)?);
                }
                return Some(st);
            }
            let n = cx.fresh();
            let f = format_ident!("__f{}", n);
            let j = format_ident!("__j{}", n);
            let mut st = bind(&c.inputs[0], &el)?;
            let b = &c.body;
            st.push(parse_quote!(let #f = #b;));
            let inner = build(cx, rest, El::E(parse_quote!(#f[#j].clone())), i, start, false, term)?;
            st.push(parse_quote!(for #j in 0..#f.len() { #(#inner)* }));
            Some(st)
        }
        Ad::Cloned | Ad::Copied => {
            let x = flat(&el);
            let y: Expr = if matches!(a, Ad::Cloned) { parse_quote!((#x).clone()) } else { parse_quote!(*(#x)) };
            build(cx, rest, El::E(y), i, start, plain, term)
        }
        _ => None,
    }
}

/// the whole loop for a chain; `term` produces the innermost statements
fn looped(cx: &mut Cx, src: &Src, ads: &[Ad], term: &Term, rev_extra: bool) -> Option<Vec<Stmt>> {
    if let Src::Chain(a, b) = src {
        if rev_extra || ads.iter().any(|a| matches!(a, Ad::Enumerate | Ad::Rev | Ad::Skip(_) | Ad::Take(_) | Ad::Zip(_))) {
            return None;
        }
        let mut out = vec![];
        for (s, x) in [&**a, &**b] {
            let mut x = x.clone();
            x.extend(ads.iter().cloned());
            out.extend(looped(cx, s, &x, term, false)?);
        }
        return Some(out);
    }
    if let Src::Once(x) = src {
        if rev_extra || ads.iter().any(|a| matches!(a, Ad::Enumerate | Ad::Rev | Ad::Skip(_) | Ad::Take(_) | Ad::Zip(_))) {
            return None;
        }
        chain_names(ads)?;
        let i = format_ident!("__i{}", cx.fresh());
        let body = build(cx, ads, El::E(x.clone()), &i, &parse_quote!(0), false, term)?;
        cx.rule("once(x) -> the statements for one element");
        return Some(vec![parse_quote!({ #(#body)* })]);
    }
    // `filter(p).rev()`: the same elements as `rev().filter(p)`, in the same order
    let mut ads: Vec<Ad> = ads.to_vec();
    while let Some(k) = (1..ads.len()).find(|k| matches!(ads[*k], Ad::Rev) && matches!(ads[*k - 1], Ad::Filter(_) | Ad::FilterMap(_) | Ad::Map(_) | Ad::Cloned | Ad::Copied)) {
        ads.swap(k - 1, k);
    }
    let ads = &ads[..];
    let n = cx.fresh();
    let i = format_ident!("__i{}", n);
    let mut pre = vec![];
    let (mut el, mut lo, mut hi) = open_src(cx, src, &i, &mut pre)?;
    let mut rev = rev_extra;
    let mut k = 0;
    // leading adapters that act on the index
    while k < ads.len() {
        match &ads[k] {
            Ad::Rev => rev = !rev,
            Ad::Skip(e) if !rev => {
                lo = if lo.to_token_stream().to_string() == "0" { e.clone() } else { parse_quote!(#lo + #e) };
                // skipping past the end yields nothing
                let h = hi.clone();
                hi = parse_quote!(usize_max(#h, #lo));
            }
            Ad::Take(e) if !rev => {
                let h = hi.clone();
                hi = parse_quote!(usize_min(#h, #lo + #e));
            }
            Ad::Zip(s) if !rev => {
                let (el2, lo2, hi2) = open_src(cx, s, &i, &mut pre)?;
                if lo.to_token_stream().to_string() != "0" || lo2.to_token_stream().to_string() != "0" {
                    return None;
                }
                let h = hi.clone();
                hi = parse_quote!(usize_min(#h, #hi2));
                el = El::T(vec![el, el2]);
            }
            _ => break,
        }
        k += 1;
    }
    // `enumerate().rev()` counts from the front
    let mut rest: Vec<Ad> = ads[k..].to_vec();
    if rest.len() >= 2 && matches!(rest[0], Ad::Enumerate) && matches!(rest[1], Ad::Rev) {
        if rev {
            return None;
        }
        rev = true;
        rest.remove(1);
    } else if rev && rest.iter().any(|a| matches!(a, Ad::Enumerate)) {
        return None;
    }
    // `enumerate().take(n)` takes the same elements as `take(n).enumerate()`
    while !rev && rest.len() >= 2 && matches!(rest[0], Ad::Enumerate) && matches!(rest[1], Ad::Take(_)) {
        let Ad::Take(e) = rest.remove(1) else { return None };
        let h = hi.clone();
        hi = parse_quote!(usize_min(#h, #lo + #e));
    }
    chain_names(&rest)?;
    let start = lo.clone();
    let body = build(cx, &rest, el, &i, &start, true, term)?;
    if rev {
        let j = format_ident!("__j{}", n);
        let (a, b) = (format_ident!("__lo{}", n), format_ident!("__hi{}", n));
        pre.push(parse_quote!(let #a: usize = #lo;));
        pre.push(parse_quote!(let #b: usize = #hi;));
        pre.push(parse_quote!(for #j in #a..#b { let #i: usize = #b - 1 - (#j - #a); #(#body)* }));
        cx.rule("reversed range -> ascending counter");
    } else {
        pre.push(parse_quote!(for #i in #lo..#hi { #(#body)* }));
    }
    cx.rule("iterator chain -> index loop");
    Some(pre)
}

pub fn chain(cx: &mut Cx, e: &Expr) -> Option<Expr> {
    // X.collect::<Result<..>>()?
    if let Expr::Try(t) = e {
        if let Expr::MethodCall(m) = unparen(&t.expr) {
            if m.method == "collect" && m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().contains("Result")).unwrap_or(false) {
                let (s, ads) = parse(&m.receiver)?;
                let v = format_ident!("__v{}", cx.fresh());
                let l = looped(cx, &s, &ads, &Term::Push(v.clone(), true), false)?;
                return Some(parse_quote!({ let mut #v = Vec::new(); #(#l)* #v }));
            }
        }
        return None;
    }
    let Expr::MethodCall(m) = e else { return None };
    let name = m.method.to_string();
    let a0 = m.args.first();
    if let Some(c) = m.args.iter().find_map(closure) {
        if let Some((_, ads)) = parse(&m.receiver) {
            if clash(&ads, &c.inputs.iter().collect::<Vec<_>>(), &[], Some(&c.body)) {
                return None;
            }
        }
    }
    match name.as_str() {
        "collect" | "collect_vec" => {
            if m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().contains("Result")).unwrap_or(false) {
                return None;
            }
            let (s, ads) = parse(&m.receiver)?;
            let v = format_ident!("__v{}", cx.fresh());
            let l = looped(cx, &s, &ads, &Term::Push(v.clone(), false), false)?;
            Some(parse_quote!({ let mut #v = Vec::new(); #(#l)* #v }))
        }
        "for_each" => {
            let (s, ads) = parse(&m.receiver)?;
            let c = closure(a0?)?;
            if !simple(&c.body) {
                return None;
            }
            let f = |el: &El| -> Option<Vec<Stmt>> {
                let mut st = bind(&c.inputs[0], el)?;
                match &*c.body {
                    Expr::Block(b) => {
                        let mut bs = b.block.stmts.clone();
                        if let Some(Stmt::Expr(_, semi @ None)) = bs.last_mut() {
                            *semi = Some(Default::default());
                        }
                        st.extend(bs)
                    }
                    e => st.push(Stmt::Expr(e.clone(), Some(Default::default()))),
                }
                Some(st)
            };
            let mut l = looped(cx, &s, &ads, &Term::Body(&f), false)?;
            if l.len() == 1 {
                if let Stmt::Expr(e, _) = l.pop().unwrap() {
                    return Some(e);
                }
                return None;
            }
            Some(parse_quote!({ #(#l)* }))
        }
        "position" | "rposition" | "find" | "any" | "all" => {
            let (s, ads) = parse(&m.receiver)?;
            let c = closure(a0?)?;
            if !simple(&c.body) || c.inputs.len() != 1 {
                return None;
            }
            let n = cx.n; // the index of the loop
            let i = format_ident!("__i{}", n);
            let v = format_ident!("__v{}", n);
            let cond = &c.body;
            let nm = name.clone();
            let f = |el: &El| -> Option<Vec<Stmt>> {
                let x = flat(el);
                let b = if nm == "find" {
                    match &c.inputs[0] {
                        Pat::Reference(r) => bind(&r.pat, el)?,
                        p => {
                            let mut b: Vec<Stmt> = vec![parse_quote!(let __e = #x;)];
                            b.extend(bind(p, &El::E(parse_quote!(&__e)))?);
                            b
                        }
                    }
                } else {
                    bind(&c.inputs[0], el)?
                };
                let hit: Expr = match nm.as_str() {
                    "find" => parse_quote!(Some(#x)),
                    "any" => parse_quote!(true),
                    "all" => parse_quote!(false),
                    _ => parse_quote!(Some(#i)),
                };
                let mut st = b;
                st.push(if nm == "all" {
                    parse_quote!(if !(#cond) { #v = #hit; break; })
                } else {
                    parse_quote!(if #cond { #v = #hit; break; })
                });
                Some(st)
            };
            if many(&s, &ads) {
                return None;
            }
            if name.ends_with("position") && !ads.is_empty() {
                return None;
            }
            let l = looped(cx, &s, &ads, &Term::Body(&f), name == "rposition")?;
            let init: Expr = match name.as_str() {
                "any" => parse_quote!(false),
                "all" => parse_quote!(true),
                _ => parse_quote!(None),
            };
            Some(parse_quote!({ let mut #v = #init; #(#l)* #v }))
        }
        "find_map" => {
            let (s, ads) = parse(&m.receiver)?;
            let c = closure(a0?)?;
            if escapes(&c.body) || c.inputs.len() != 1 || many(&s, &ads) {
                return None;
            }
            let v = format_ident!("__v{}", cx.n);
            let k = format_ident!("__k{}", cx.n);
            let f = |el: &El| -> Option<Vec<Stmt>> {
                let mut st = bind(&c.inputs[0], el)?;
                let b = &c.body;
                st.push(parse_quote!(let #k = #b;));
                st.push(parse_quote!(if let Some(__y) = #k { #v = Some(__y); break; }));
                Some(st)
            };
            let l = looped(cx, &s, &ads, &Term::Body(&f), false)?;
            Some(parse_quote!({ let mut #v = None; #(#l)* #v }))
        }
        "min_by" | "max_by" => {
            let (s, ads) = parse(&m.receiver)?;
            let c = closure(a0?)?;
            if escapes(&c.body) || c.inputs.len() != 2 {
                return None;
            }
            let n = cx.fresh();
            let (v, x, w, o) = (format_ident!("__v{}", n), format_ident!("__x{}", n), format_ident!("__m{}", n), format_ident!("__o{}", n));
            let nm = name.clone();
            let f = |el: &El| -> Option<Vec<Stmt>> {
                let y = flat(el);
                let mut st: Vec<Stmt> = vec![parse_quote!(let #x = #y;)];
                let mut b = bind(&c.inputs[0], &El::E(parse_quote!(&#w)))?;
                b.extend(bind(&c.inputs[1], &El::E(parse_quote!(&#x)))?);
                let body = &c.body;
                let (keep, take): (Expr, Expr) = (parse_quote!(Some(#w)), parse_quote!(Some(#x)));
                let (g, l) = if nm == "min_by" { (take, keep) } else { (keep, take) };
                st.push(parse_quote!(#v = match #v { None => Some(#x), Some(#w) => { let #o = { #(#b)* #body }; match #o { Ordering::Greater => #g, _ => #l } } };));
                Some(st)
            };
            let l = looped(cx, &s, &ads, &Term::Body(&f), false)?;
            Some(parse_quote!({ let mut #v = None; #(#l)* #v }))
        }
        "unzip" if m.args.is_empty() => {
            let (s, ads) = parse(&m.receiver)?;
            let n = cx.fresh();
            let (v, w, p) = (format_ident!("__v{}", n), format_ident!("__w{}", n), format_ident!("__p{}", n));
            let f = |el: &El| -> Option<Vec<Stmt>> {
                let y = flat(el);
                Some(vec![parse_quote!(let #p = #y;), parse_quote!(#v.push(#p.0);), parse_quote!(#w.push(#p.1);)])
            };
            let l = looped(cx, &s, &ads, &Term::Body(&f), false)?;
            Some(parse_quote!({ let mut #v = Vec::new(); let mut #w = Vec::new(); #(#l)* (#v, #w) }))
        }
        "count" if m.args.is_empty() => {
            let (s, ads) = parse(&m.receiver)?;
            let v = format_ident!("__v{}", cx.fresh());
            let f = |_: &El| -> Option<Vec<Stmt>> { Some(vec![parse_quote!(#v += 1;)]) };
            let l = looped(cx, &s, &ads, &Term::Body(&f), false)?;
            Some(parse_quote!({ let mut #v: usize = 0; #(#l)* #v }))
        }
        "fold" => {
            let (s, ads) = parse(&m.receiver)?;
            let mut c = closure(m.args.iter().nth(1)?)?;
            if c.inputs.len() != 2 {
                return None;
            }
            let v = format_ident!("__v{}", cx.fresh());
            if !simple(&c.body) {
                // an early return of the closure: the next round of the loop
                if ads.iter().any(|a| matches!(a, Ad::Flatten | Ad::FlatMap(_))) || matches!(s, Src::Chain(..)) {
                    return None;
                }
                let (st, t) = body_parts(&c.body);
                if !matches!(t, Expr::Path(_)) {
                    return None;
                }
                c.body = Box::new(tail_form(&st, &t)?);
                cx.rule("early returns of a fold's closure -> branches of one value");
            }
            let init = a0?;
            let f = |el: &El| -> Option<Vec<Stmt>> {
                // the element is computed before the accumulator's name is bound
                let mut st = bind(&c.inputs[1], el)?;
                st.extend(bind(&c.inputs[0], &El::E(parse_quote!(#v)))?);
                let b = &c.body;
                st.push(parse_quote!(#v = #b;));
                Some(st)
            };
            let l = looped(cx, &s, &ads, &Term::Body(&f), false)?;
            Some(parse_quote!({ let mut #v = #init; #(#l)* #v }))
        }
        _ => None,
    }
}

pub fn for_loop(cx: &mut Cx, f: &syn::ExprForLoop) -> Option<Expr> {
    // ranges stay as they are
    match unparen(&f.expr) {
        Expr::Range(_) => return None,
        _ => {}
    }
    let (s, ads) = match &*f.expr {
        Expr::Reference(r) if r.mutability.is_none() => (Src::Iter((*r.expr).clone()), vec![]),
        Expr::Path(_) | Expr::Array(_) => (Src::Into((*f.expr).clone()), vec![]),
        e => parse(e)?,
    };
    let body = &f.body;
    let pat = &f.pat;
    if clash(&ads, &[&**pat], &body.stmts, None) {
        return None;
    }
    if many(&s, &ads) {
        let mut x = Exits(false);
        body.stmts.iter().for_each(|s| syn::visit::Visit::visit_stmt(&mut x, s));
        if x.0 || body.to_token_stream().to_string().contains("continue") {
            return None;
        }
    }
    let g = |el: &El| -> Option<Vec<Stmt>> {
        let mut st = bind(pat, el)?;
        st.extend(body.stmts.clone());
        if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
            *semi = Some(Default::default());
        }
        Some(st)
    };
    let mut l = looped(cx, &s, &ads, &Term::Body(&g), false)?;
    if l.len() == 1 {
        if let Stmt::Expr(e, _) = l.pop().unwrap() {
            return Some(e);
        }
        return None;
    }
    Some(parse_quote!({ #(#l)* }))
}

/// statement-level forms: `X.extend(std::iter::repeat(e).take(m));`
pub fn stmt(cx: &mut Cx, s: &Stmt) -> Option<Stmt> {
    let Stmt::Expr(Expr::MethodCall(m), Some(_)) = s else { return None };
    if m.method != "extend" || m.args.len() != 1 {
        return None;
    }
    let x = &m.receiver;
    let a = &m.args[0];
    if let Expr::MethodCall(t) = a {
        if t.method == "take" {
            if let Expr::Call(c) = unparen(&t.receiver) {
                if c.func.to_token_stream().to_string().replace(' ', "").ends_with("iter::repeat") {
                    let n = cx.fresh();
                    let (i, r) = (format_ident!("__i{}", n), format_ident!("__r{}", n));
                    let (e, k) = (&c.args[0], &t.args[0]);
                    cx.rule("extend(repeat(e).take(n)) -> n pushes");
                    return Some(parse_quote!({ let #r = #e; for #i in 0..#k { #x.push(#r.clone()); } }));
                }
            }
        }
    }
    if let Some((src, ads)) = parse(a) {
        let f = |el: &El| -> Option<Vec<Stmt>> {
            let y = flat(el);
            Some(vec![parse_quote!(#x.push(#y);)])
        };
        let l = looped(cx, &src, &ads, &Term::Body(&f), false)?;
        return Some(parse_quote!({ #(#l)* }));
    }
    // extend(vec expression)
    let n = cx.fresh();
    let (i, r) = (format_ident!("__i{}", n), format_ident!("__r{}", n));
    let _ = quote!();
    Some(parse_quote!({ let #r = #a; for #i in 0..#r.len() { #x.push(#r[#i].clone()); } }))
}
