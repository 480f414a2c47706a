use crate::{Db, format_ident, lost};
use quote::{ToTokens, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- generics
fn keep_bound(b: &TypeParamBound) -> bool {
    match b {
        TypeParamBound::Lifetime(_) => false,
        TypeParamBound::Trait(t) => {
            let n = t.path.segments.last().unwrap().ident.to_string();
            !matches!(n.as_str(), "Send" | "Sync" | "Debug" | "Unpin" | "UpgradeableObserver" | "ObserverUpgradesToSelf" | "Display")
        }
        _ => true,
    }
}
fn strip_bounds(b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>) {
    *b = b.clone().into_iter().filter(keep_bound).collect();
}
pub fn strip_generics(g: &mut Generics) {
    g.params = g.params.clone().into_iter().filter(|p| !matches!(p, GenericParam::Lifetime(_))).collect();
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            strip_bounds(&mut t.bounds);
            t.default = None;
            t.eq_token = None;
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    if let Some(w) = &mut g.where_clause {
        let mut preds: Vec<WherePredicate> = vec![];
        for p in w.predicates.iter() {
            if let WherePredicate::Type(t) = p {
                let mut t = t.clone();
                strip_bounds(&mut t.bounds);
                if !t.bounds.is_empty() {
                    preds.push(WherePredicate::Type(t));
                }
            }
        }
        if preds.is_empty() {
            g.where_clause = None;
        } else {
            w.predicates = preds.into_iter().collect();
        }
    }
}

/// `Self::In` -> its definition; Arc<Mutex<T>> -> Lk<T>; MutexGuard<'_, T> -> T; Box<dyn ..> kept
pub struct TypeRw<'a> {
    pub assoc: &'a BTreeMap<String, Type>,
    #[allow(dead_code)]
    pub self_name: Option<Ident>,
}
fn last_arg(p: &Path, name: &str) -> Option<Type> {
    let s = p.segments.last()?;
    if s.ident != name {
        return None;
    }
    if let PathArguments::AngleBracketed(a) = &s.arguments {
        for x in a.args.iter() {
            if let GenericArgument::Type(t) = x {
                return Some(t.clone());
            }
        }
    }
    None
}
impl VisitMut for TypeRw<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let mut new = None;
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(x) = self.assoc.get(&p.path.segments[1].ident.to_string()) {
                    // a generic associated type is used with its own parameter names
                    new = Some(x.clone());
                }
            } else if let Some(inner) = last_arg(&p.path, "Arc") {
                if let Type::Path(ip) = &inner {
                    for k in ["Mutex", "RwLock"] {
                        if let Some(x) = last_arg(&ip.path, k) {
                            new = Some(parse_quote!(Lk<#x>));
                        }
                    }
                    let n = ip.path.segments.last().unwrap().ident.to_string();
                    if n == "AtomicUsize" {
                        new = Some(parse_quote!(Atom<usize>));
                    }
                    if n == "AtomicBool" {
                        new = Some(parse_quote!(Atom<bool>));
                    }
                }
                // already rewritten inner Lk
                if new.is_none() {
                    new = None;
                }
            } else if let Some(x) = last_arg(&p.path, "MutexGuard") {
                new = Some(x);
            }
        }
        if let Some(n) = new {
            *t = n;
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // canonicalise absolute / crate-qualified paths to their last meaningful segments
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if p.leading_colon.is_some()
            || matches!(first.as_str(), "crate" | "super" | "std" | "core" | "alloc")
            || first.starts_with("rx_core_")
        {
            // keep last segment, or last two if the one before it is a type (uppercase)
            let n = p.segments.len();
            let keep = if n >= 2 && p.segments[n - 2].ident.to_string().chars().next().unwrap().is_uppercase() { 2 } else { 1 };
            let segs: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
        }
    }
}

// ---------------------------------------------------------------- misc visitors
struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn stmt_has_return(s: &Stmt) -> bool {
    let mut v = HasReturn(false);
    v.visit_stmt(s);
    v.0
}
fn expr_has_return(s: &Expr) -> bool {
    let mut v = HasReturn(false);
    v.visit_expr(s);
    v.0
}
fn block_has_return(s: &Block) -> bool {
    let mut v = HasReturn(false);
    v.visit_block(s);
    v.0
}

struct TryLet;
impl VisitMut for TryLet {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Local(l) = s {
            if let Some(LocalInit { expr, diverge: None, .. }) = &l.init {
                if let Expr::Try(t) = &**expr {
                    let (p, x) = (&l.pat, &t.expr);
                    *s = parse_quote!(let Some(#p) = #x else { return None; };);
                }
            }
        }
    }
}
/// rewrite a statement list so that it contains no `return` (early returns become if/else)
pub fn elim(stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        if !stmt_has_return(&s) {
            out.push(s);
            continue;
        }
        let rest: Vec<Stmt> = it.collect();
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = r.expr {
                    if expr_has_return(&e) {
                        return None;
                    }
                    out.push(Stmt::Expr(*e, None));
                }
                return Some(out);
            }
            Stmt::Expr(e, _) => {
                out.push(Stmt::Expr(elim_tail(e, rest)?, None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.clone()?;
                if let Some((_, div)) = init.diverge {
                    // let P = e else { D };  rest  ==>  if let P = e { rest } else { D }
                    if expr_has_return(&init.expr) {
                        return None;
                    }
                    let pat = l.pat.clone();
                    let e = init.expr;
                    let r = block(elim(rest)?);
                    let d = block(elim(vec![Stmt::Expr(*div, None)])?);
                    out.push(Stmt::Expr(parse_quote!(if let #pat = #e #r else #d), None));
                    return Some(out);
                }
                let pat = l.pat.clone();
                match *init.expr {
                    Expr::Match(m) => {
                        let mut m2 = m.clone();
                        for a in m2.arms.iter_mut() {
                            let b = (*a.body).clone();
                            let body = if is_ret(&b) {
                                elim(vec![Stmt::Expr(b, None)])?
                            } else if !expr_has_return(&b) {
                                let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #b;)];
                                v.extend(elim(rest.clone())?);
                                v
                            } else {
                                return None;
                            };
                            let bl = block(body);
                            *a.body = parse_quote!(#bl);
                        }
                        out.push(Stmt::Expr(Expr::Match(m2), None));
                        return Some(out);
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    Some(out)
}
fn is_ret(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => b.block.stmts.last().is_some_and(|s| matches!(s, Stmt::Expr(e, _) if is_ret(e))),
        _ => false,
    }
}
fn block(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}
fn declares(stmts: &[Stmt]) -> bool {
    stmts.iter().any(|s| matches!(s, Stmt::Local(_)))
}
fn falls(mut body: Vec<Stmt>, rest: Vec<Stmt>) -> Option<Vec<Stmt>> {
    if rest.is_empty() {
        return elim(body);
    }
    // body falls through into rest unless it ends in return
    let ends = body.last().is_some_and(|s| matches!(s, Stmt::Expr(e, _) if is_ret(e)));
    if !ends {
        if declares(&body) {
            // avoid capturing: keep the scope
            if body.iter().any(stmt_has_return) {
                return None;
            }
            let b = block(body);
            let mut v: Vec<Stmt> = vec![Stmt::Expr(parse_quote!(#b), Some(Default::default()))];
            v.extend(elim(rest)?);
            return Some(v);
        }
        if let Some(Stmt::Expr(_, semi)) = body.last_mut() {
            if semi.is_none() {
                *semi = Some(Default::default());
            }
        }
        body.extend(rest);
    }
    elim(body)
}
fn elim_tail(e: Expr, rest: Vec<Stmt>) -> Option<Expr> {
    match e {
        Expr::If(i) => {
            if expr_has_return(&i.cond) {
                return None;
            }
            let c = &i.cond;
            let a = block(falls(i.then_branch.stmts.clone(), rest.clone())?);
            let b = match &i.else_branch {
                Some((_, x)) => match &**x {
                    Expr::Block(b) => block(falls(b.block.stmts.clone(), rest)?),
                    other => block(vec![Stmt::Expr(elim_tail(other.clone(), rest)?, None)]),
                },
                None => block(elim(rest)?),
            };
            Some(parse_quote!(if #c #a else #b))
        }
        Expr::Match(mut m) => {
            if expr_has_return(&m.expr) {
                return None;
            }
            for a in m.arms.iter_mut() {
                let st = match (*a.body).clone() {
                    Expr::Block(b) => b.block.stmts,
                    x => vec![Stmt::Expr(x, None)],
                };
                let bl = block(falls(st, rest.clone())?);
                *a.body = parse_quote!(#bl);
            }
            Some(Expr::Match(m))
        }
        Expr::Block(b) => {
            let bl = block(falls(b.block.stmts, rest)?);
            Some(parse_quote!(#bl))
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- inliner
pub struct Inliner<'a> {
    pub db: &'a mut Db,
    pub cname: String,
    pub tname: String,
    pub depth: usize,
    pub inlined: Vec<String>,
}
pub struct SelfRw {
    pub to: Expr,
}
impl VisitMut for SelfRw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.to.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `Self` in the body of a helper of another type
struct SelfTy {
    to: Ident,
}
impl VisitMut for SelfTy {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() >= 1 && p.segments[0].ident == "Self" {
            p.segments[0].ident = self.to.clone();
        }
        visit_mut::visit_path_mut(self, p)
    }
}

const STD_METHODS: &[&str] = &[
    "next", "error", "complete", "unsubscribe", "is_closed", "add_teardown", "clone", "lock", "take", "push", "pop",
    "len", "is_empty", "insert", "remove", "get", "get_mut", "drain", "iter", "iter_mut", "clear", "into_iter", "as_ref",
    "as_mut", "map", "into", "from", "default", "new", "eq", "deref", "deref_mut", "drop", "contains", "subscribe", "upgrade",
    "unwrap", "expect", "replace", "call", "execute", "add", "extend", "retain", "entry", "filter", "count", "now", "tick",
    "lock_ignore_poison", "lock_clear_poison", "cmp", "partial_cmp", "fmt", "hash", "sub", "update", "find", "last", "first",
];

impl Inliner<'_> {
    fn body_of(&mut self, f: &Signature, b: &Block, args: Vec<Expr>, recv: Option<Expr>, what: &str) -> Expr {
        if self.depth > 6 {
            lost(&format!("recursive helper {what}"));
        }
        let mut stmts: Vec<Stmt> = vec![];
        let mut args = args.into_iter();
        for i in f.inputs.iter() {
            match i {
                FnArg::Receiver(_) => {}
                FnArg::Typed(t) => {
                    let Some(a) = args.next() else { lost(&format!("helper {what}: argument count")) };
                    let p = &t.pat;
                    // &mut param bound to place: keep as let
                    stmts.push(parse_quote!(let #p = #a;));
                }
            }
        }
        let mut body = b.clone();
        for s in body.stmts.iter_mut() {
            if let Stmt::Expr(e, semi) = s {
                if semi.is_none() && matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)) {
                    *semi = None;
                }
            }
        }
        // `let p = e?;` in a helper returning an Option
        if f.output.to_token_stream().to_string().starts_with("-> Option") {
            TryLet.visit_block_mut(&mut body);
        }
        if block_has_return(&body) {
            let Some(st) = elim(body.stmts.clone()) else {
                lost(&format!("helper {what} has an early return that cannot be inlined"))
            };
            body.stmts = st;
        }
        if let Some(r) = recv {
            SelfRw { to: r }.visit_block_mut(&mut body);
        }
        stmts.extend(body.stmts);
        self.inlined.push(what.to_string());
        self.depth += 1;
        let mut bl = block(stmts);
        self.visit_block_mut(&mut bl);
        self.depth -= 1;
        parse_quote!(#bl)
    }
}
fn is_self(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.is_ident("self"),
        Expr::Paren(p) => is_self(&p.expr),
        _ => false,
    }
}
impl VisitMut for Inliner<'_> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let slf = is_self(&m.receiver);
                if slf {
                    if self.db.contracted.contains(&(self.tname.clone(), name.clone())) {
                        None
                    } else {
                        let c = self.db.get(&self.cname);
                        let f = c.methods.get(&self.tname).and_then(|v| v.iter().find(|x| x.f.sig.ident == name)).map(|x| x.f.clone());
                        match f {
                            Some(f) => Some((f, m.args.iter().cloned().collect::<Vec<_>>(), (*m.receiver).clone(), format!("{}::{}", self.tname, name))),
                            None => None,
                        }
                    }
                } else if STD_METHODS.contains(&name.as_str())
                    || self.db.contracted.iter().any(|(_, n)| *n == name)
                {
                    None
                } else {
                    // a helper method on some other type of this crate, unique by name
                    let c = self.db.get(&self.cname);
                    let cands: Vec<(String, ImplItemFn)> = c
                        .methods
                        .iter()
                        .flat_map(|(t, v)| v.iter().filter(|x| x.f.sig.ident == name && x.trait_name.is_none()).map(move |x| (t.clone(), x.f.clone())))
                        .collect();
                    if cands.len() == 1 {
                        let recv: Expr = if matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) {
                            (*m.receiver).clone()
                        } else {
                            lost(&format!("helper {} on a computed receiver", name))
                        };
                        let (t, f) = cands[0].clone();
                        Some((f, m.args.iter().cloned().collect::<Vec<_>>(), recv, format!("{t}::{name}")))
                    } else {
                        None
                    }
                }
                .map(|(f, a, r, w)| self.body_of(&f.sig, &f.block, a, Some(r), &w))
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    if segs.len() == 1 {
                        let name = segs[0].clone();
                        if self.db.contracted.contains(&(String::new(), name.clone())) {
                            None
                        } else {
                            let f = self.db.get(&self.cname).fns.get(&name).cloned();
                            f.map(|f| self.body_of(&f.sig, &f.block, args, None, &name))
                        }
                    } else {
                        let ty = if segs[segs.len() - 2] == "Self" { self.tname.clone() } else { segs[segs.len() - 2].clone() };
                        let name = segs[segs.len() - 1].clone();
                        if self.db.contracted.contains(&(ty.clone(), name.clone())) {
                            None
                        } else {
                            let f = self
                                .db
                                .get(&self.cname)
                                .methods
                                .get(&ty)
                                .and_then(|v| v.iter().find(|x| x.f.sig.ident == name && x.trait_name.is_none()))
                                .map(|x| x.f.clone());
                            f.map(|mut f| {
                                if ty != self.tname {
                                    SelfTy { to: format_ident(&ty) }.visit_block_mut(&mut f.block);
                                }
                                let has_recv = matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)));
                                if has_recv {
                                    let mut a = args.clone();
                                    let mut r = a.remove(0);
                                    if let Expr::Reference(x) = &r {
                                        r = (*x.expr).clone();
                                    }
                                    self.body_of(&f.sig, &f.block, a, Some(r), &format!("{ty}::{name}"))
                                } else {
                                    self.body_of(&f.sig, &f.block, args, None, &format!("{ty}::{name}"))
                                }
                            })
                        }
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

// ---------------------------------------------------------------- body rewriting
pub struct BodyRw {
    pub ro: bool,
    pub n_loops: usize,
    pub n_closures: usize,
    pub closures: Vec<(usize, ExprClosure)>,
    pub want_closures: BTreeSet<usize>,
    pub keep_asserts: bool,
}
fn flatten_and(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            flatten_and(&b.left, out);
            flatten_and(&b.right, out);
        }
        Expr::Paren(p) if has_let(&p.expr) => flatten_and(&p.expr, out),
        _ => out.push(e.clone()),
    }
}
fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}
fn is_panic_call(e: &Expr) -> Option<bool> {
    // Some(true) = unreachable!(), Some(false) = panic!()
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if s.iter().any(|x| x == "panicking") {
                let t = c.args.to_token_stream().to_string();
                return Some(t.contains("entered unreachable code"));
            }
        }
    }
    if let Expr::Block(b) = e {
        if b.block.stmts.len() == 1 {
            if let Stmt::Expr(x, _) = &b.block.stmts[0] {
                return is_panic_call(x);
            }
        }
    }
    None
}
impl BodyRw {
    fn mark_loop(&mut self, b: &mut Block) -> usize {
        let n = self.n_loops;
        self.n_loops += 1;
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        b.stmts.insert(0, parse_quote!(vf_loop_start!(#lit);));
        b.stmts.push(parse_quote!(vf_loop_end!(#lit);));
        n
    }
}
impl VisitMut for BodyRw {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        // statements that do nothing
        b.stmts.retain(|s| match s {
            Stmt::Expr(e, Some(_)) => !noop(e),
            Stmt::Local(l) => !matches!((&l.pat, &l.init), (Pat::Wild(_), Some(i)) if noop(&i.expr)),
            Stmt::Item(Item::Use(_)) => false,
            Stmt::Item(Item::Const(_)) => true,
            _ => true,
        });
        // debug_assert!(..) expansions:  if true { if !(c) { panic } }  /  if cfg!.. 
        if !self.keep_asserts {
            b.stmts.retain(|s| match s {
                Stmt::Expr(e, _) => !is_assert(e),
                _ => true,
            });
        }
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let before = self.n_loops;
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_), _));
            visit_mut::visit_stmt_mut(self, &mut s);
            if is_loop {
                let lit = proc_macro2::Literal::usize_unsuffixed(before);
                out.push(parse_quote!(vf_loop_before!(#lit);));
                // for P in E B  ==>  let mut it = E.vf_it(); while it.vf_more() { let P = it.vf_step(); B }
                if let Stmt::Expr(Expr::ForLoop(f), _) = &s {
                    let it = format_ident(&format!("vf_it_{before}"));
                    // for (k, v) in M.iter_mut()  ==>  over the keys, with M.vf_get_mut(key)
                    let two = matches!(&*f.pat, Pat::Tuple(t) if t.elems.len() == 2);
                    // for (k, v) in M.iter_mut().filter(|(a, _)| C)  ==>  the body only where C
                    let mut guard = None;
                    let fm = match &*f.expr {
                        Expr::MethodCall(m) if two && m.method == "filter" && m.args.len() == 1 => match (&*m.receiver, &m.args[0]) {
                            (Expr::MethodCall(mm), Expr::Closure(c)) if mm.method == "iter_mut" && c.inputs.len() == 1 => match &c.inputs[0] {
                                Pat::Tuple(t) if t.elems.len() == 2 && matches!(t.elems[1], Pat::Wild(_)) => {
                                    guard = Some((t.elems[0].clone(), c.body.clone()));
                                    Some(mm)
                                }
                                _ => Some(m),
                            },
                            _ => Some(m),
                        },
                        Expr::MethodCall(m) => Some(m),
                        _ => None,
                    };
                    if let (true, Some(m)) = (two, fm) {
                        if m.args.is_empty() && (m.method == "iter_mut" || m.method == "drain") {
                            let r = &m.receiver;
                            let mut b = f.body.clone();
                            if let Some((gp, gc)) = &guard {
                                // stmts[0] is the loop marker
                                let endm = b.stmts.pop();
                                let rest: Vec<Stmt> = b.stmts.drain(1..).collect();
                                let Pat::Tuple(t) = &*f.pat else { unreachable!() };
                                let (p1, p2) = (&t.elems[0], &t.elems[1]);
                                b.stmts.push(parse_quote!(let vf_k = #it.vf_step();));
                                b.stmts.push(Stmt::Expr(parse_quote!(if { let #gp = &vf_k; #gc } { let #p1 = &vf_k; let #p2 = #r.vf_get_mut(vf_k); #(#rest)* }), None));
                                b.stmts.extend(endm);
                                out.pop();
                                out.push(parse_quote!(let mut #it = (#r.vf_keys()).vf_it();));
                                out.push(parse_quote!(vf_loop_before!(#lit);));
                                out.push(Stmt::Expr(parse_quote!(while #it.vf_more() #b), None));
                                out.push(parse_quote!(vf_loop_after!(#lit);));
                                continue;
                            }
                            let Pat::Tuple(t) = &*f.pat else { unreachable!() };
                            let (p1, p2) = (&t.elems[0], &t.elems[1]);
                            out.pop();
                            if m.method == "iter_mut" {
                                b.stmts.insert(1, parse_quote!(let vf_k = #it.vf_step();));
                                b.stmts.insert(2, parse_quote!(let #p1 = &vf_k;));
                                b.stmts.insert(3, parse_quote!(let #p2 = #r.vf_get_mut(vf_k);));
                                out.push(parse_quote!(let mut #it = (#r.vf_keys()).vf_it();));
                            } else {
                                b.stmts.insert(1, parse_quote!(let (#p1, #p2) = #it.vf_step();));
                                out.push(parse_quote!(let mut #it = (#r.vf_drain_map()).vf_it();));
                            }
                            out.push(parse_quote!(vf_loop_before!(#lit);));
                            out.push(Stmt::Expr(parse_quote!(while #it.vf_more() #b), None));
                            out.push(parse_quote!(vf_loop_after!(#lit);));
                            continue;
                        }
                    }
                    let (p, mut e) = (&f.pat, &*f.expr);
                    // E.into_iter().take(n) / .skip(n) / .rev() / .filter(|a| C)
                    let mut adapt: Vec<(Ident, Option<Expr>)> = vec![];
                    let mut keep: Vec<(Pat, Expr)> = vec![];
                    let mut inner = e;
                    while let Expr::MethodCall(m) = inner {
                        let name = m.method.to_string();
                        match (name.as_str(), m.args.len()) {
                            ("take" | "skip", 1) => adapt.push((format_ident(&format!("vf_{name}")), Some(m.args[0].clone()))),
                            ("rev", 0) => adapt.push((format_ident("vf_rev"), None)),
                            ("filter", 1) if adapt.is_empty() => match &m.args[0] {
                                Expr::Closure(c) if c.inputs.len() == 1 => keep.push((c.inputs[0].clone(), (*c.body).clone())),
                                _ => break,
                            },
                            _ => break,
                        }
                        inner = &m.receiver;
                    }
                    if let Expr::MethodCall(m) = inner
                        && m.method == "into_iter"
                        && m.args.is_empty()
                    {
                        e = &m.receiver;
                    } else {
                        adapt.clear();
                        keep.clear();
                    }
                    let mut b = f.body.clone();
                    if keep.is_empty() {
                        b.stmts.insert(1, parse_quote!(let #p = #it.vf_step();));
                    } else {
                        // stmts[0] is the loop marker, the last one its end
                        let endm = b.stmts.pop();
                        let rest: Vec<Stmt> = b.stmts.drain(1..).collect();
                        b.stmts.push(parse_quote!(let vf_x = #it.vf_step();));
                        let mut body: Expr = parse_quote!({ let #p = vf_x; #(#rest)* });
                        for (gp, gc) in &keep {
                            body = parse_quote!(if { let #gp = &vf_x; #gc } { #body });
                        }
                        b.stmts.push(Stmt::Expr(body, None));
                        b.stmts.extend(endm);
                    }
                    out.pop();
                    let mut start: Expr = parse_quote!((#e).vf_it());
                    for (a, n) in adapt.iter().rev() {
                        start = match n {
                            Some(n) => parse_quote!(#start.#a(#n)),
                            None => parse_quote!(#start.#a()),
                        };
                    }
                    out.push(parse_quote!(let mut #it = #start;));
                    out.push(parse_quote!(vf_loop_before!(#lit);));
                    s = Stmt::Expr(parse_quote!(while #it.vf_more() #b), None);
                }
                out.push(s);
                out.push(parse_quote!(vf_loop_after!(#lit);));
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `if c { continue; } rest`  ==>  `if !c { rest }`
        match e {
            Expr::While(ExprWhile { body, .. }) | Expr::Loop(ExprLoop { body, .. }) | Expr::ForLoop(ExprForLoop { body, .. }) => skip_to_if(body),
            _ => {}
        }
        // for v in M.values_mut()  ==>  for (_, v) in M.iter_mut();  for (k, v) in &mut M  ==>  for (k, v) in M.iter_mut()
        if let Expr::ForLoop(f) = e {
            let two = matches!(&*f.pat, Pat::Tuple(t) if t.elems.len() == 2);
            match (*f.expr).clone() {
                Expr::MethodCall(m) if m.args.is_empty() && m.method == "values_mut" => {
                    let (p, r) = (f.pat.clone(), m.receiver);
                    *f.pat = parse_quote_pat(quote::quote!((_, #p)));
                    *f.expr = parse_quote!(#r.iter_mut());
                }
                Expr::Reference(r) if two && r.mutability.is_some() => {
                    let r = r.expr;
                    *f.expr = parse_quote!(#r.iter_mut());
                }
                _ => {}
            }
        }
        // for x in E.filter(|y| c) B  ==>  for x in E { if c B }
        if let Expr::ForLoop(f) = e {
            if let (Pat::Ident(p), Expr::MethodCall(m)) = (&*f.pat, &*f.expr) {
                if let ("filter", Some(Expr::Closure(c))) = (m.method.to_string().as_str(), m.args.first()) {
                    if c.inputs.len() == 1 && !expr_has_return(&c.body) {
                        let (p, q, cond, b) = (p.ident.clone(), c.inputs[0].clone(), c.body.clone(), f.body.clone());
                        f.body = parse_quote!({ if { let #q = &#p; #cond } #b });
                        f.expr = m.receiver.clone();
                    }
                }
            }
        }
        // number loops in source order
        match e {
            Expr::While(w) => {
                self.mark_loop(&mut w.body);
            }
            Expr::Loop(w) => {
                self.mark_loop(&mut w.body);
            }
            Expr::ForLoop(w) => {
                self.mark_loop(&mut w.body);
            }
            Expr::Closure(c) => {
                let n = self.n_closures;
                self.n_closures += 1;
                if self.want_closures.contains(&n) {
                    self.closures.push((n, c.clone()));
                    let id = format_ident(&format!("vf_closure_{n}"));
                    *e = parse_quote!(#id!());
                    return;
                }
            }
            _ => {}
        }
        // let chains -> nested ifs
        if let Expr::If(i) = e {
            if has_let(&i.cond) && !matches!(&*i.cond, Expr::Let(_)) {
                let mut cs = vec![];
                flatten_and(&i.cond, &mut cs);
                let els: Option<Block> = i.else_branch.as_ref().map(|(_, x)| match &**x {
                    Expr::Block(b) => b.block.clone(),
                    o => block(vec![Stmt::Expr(o.clone(), None)]),
                });
                // group consecutive non-let conjuncts
                let mut groups: Vec<Expr> = vec![];
                for c in cs {
                    match (&c, groups.last_mut()) {
                        (Expr::Let(_), _) | (_, None) => groups.push(c),
                        (_, Some(Expr::Let(_))) => groups.push(c),
                        (_, Some(g)) => {
                            let g0 = g.clone();
                            *g = parse_quote!(#g0 && #c);
                        }
                    }
                }
                let mut body = i.then_branch.clone();
                for c in groups.into_iter().rev() {
                    let x: Expr = match &els {
                        Some(el) => parse_quote!(if #c #body else #el),
                        None => parse_quote!(if #c #body),
                    };
                    body = block(vec![Stmt::Expr(x, None)]);
                }
                let Stmt::Expr(x, _) = body.stmts.into_iter().next().unwrap() else { unreachable!() };
                *e = x;
            }
        }
        if let Some(unreach) = is_panic_call(e) {
            *e = if unreach { parse_quote!(vf_unreachable()) } else { parse_quote!(vf_panic()) };
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if self.ro {
            if let Expr::MethodCall(m) = e {
                let n = m.method.to_string();
                if matches!(n.as_str(), "lock_ignore_poison" | "lock_clear_poison" | "lock") {
                    m.method = format_ident("lock_ro");
                } else if n == "try_lock" {
                    m.method = format_ident("try_lock_ro");
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "or_default" && m.args.is_empty() && matches!(&*m.receiver, Expr::MethodCall(n) if n.method == "entry" && n.args.len() == 1) {
                let Expr::MethodCall(n) = &*m.receiver else { unreachable!() };
                let (r, a) = (&n.receiver, &n.args[0]);
                *e = parse_quote!(#r.vf_entry_or_default(#a));
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "drain" && m.args.len() == 1 && matches!(&m.args[0], Expr::Range(r) if r.start.is_none() && r.end.is_none()) {
                let r = &m.receiver;
                *e = parse_quote!(vf_drain_all(&mut #r));
            } else if m.method == "collect"
                && m.turbofish.as_ref().is_some_and(|t| t.to_token_stream().to_string().replace(' ', "") == "::<Vec<_>>")
                && matches!(&*m.receiver, Expr::Call(c) if c.func.to_token_stream().to_string() == "vf_drain_all")
            {
                *e = (*m.receiver).clone();
            }
        }
        if let Expr::Match(m) = e {
            m.attrs.clear();
        }
        // vec![..]
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f.ends_with("box_assume_init_into_vec_unsafe") {
                if let Some(Expr::Call(i)) = c.args.first() {
                    if let Some(a) = i.args.last() {
                        *e = parse_quote!(vf_vec(#a));
                    }
                }
            }
        }
        // x.try_lock()...: left as is.  Arc::new(Mutex::new(x)) -> Lk::new(x)
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if (f == "Arc::new" || f.ends_with("::Arc::new")) && c.args.len() == 1 {
                if let Expr::Call(inner) = &c.args[0] {
                    let g = inner.func.to_token_stream().to_string().replace(' ', "");
                    if g == "Mutex::new" || g == "RwLock::new" || g == "AtomicBool::new" || g == "AtomicUsize::new" {
                        let a = &inner.args;
                        *e = if g.starts_with("Atomic") { parse_quote!(Atom::new(#a)) } else { parse_quote!(Lk::new(#a)) };
                    }
                }
            }
        }
    }
}
fn is_assert(e: &Expr) -> bool {
    // if true { if !c { panic } }  or  if !c { panic }  or match (&l,&r) {.. assert_failed ..}
    match e {
        Expr::If(i) => {
            if let Expr::Lit(l) = &*i.cond {
                if matches!(&l.lit, Lit::Bool(b) if b.value) && i.then_branch.stmts.len() == 1 {
                    if let Stmt::Expr(x, _) = &i.then_branch.stmts[0] {
                        return is_assert(x);
                    }
                }
            }
            i.else_branch.is_none()
                && i.then_branch.stmts.len() == 1
                && matches!(&i.then_branch.stmts[0], Stmt::Expr(x, _) if is_panic_call(x).is_some())
        }
        Expr::Match(m) => m.to_token_stream().to_string().contains("assert_failed"),
        Expr::Block(b) if b.block.stmts.len() == 1 => {
            matches!(&b.block.stmts[0], Stmt::Expr(x, _) if is_assert(x))
        }
        _ => false,
    }
}
fn noop(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(noop),
        Expr::Paren(p) => noop(&p.expr),
        Expr::Reference(r) => noop(&r.expr),
        Expr::Field(f) => noop(&f.base),
        Expr::Block(b) => b.block.stmts.is_empty(),
        Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            (f.ends_with("hint::black_box") || f == "black_box") && c.args.iter().all(noop)
        }
        Expr::Binary(b) => noop(&b.left) && noop(&b.right) && !b.op.to_token_stream().to_string().contains('='),
        Expr::If(i) => {
            noop(&i.cond)
                && i.then_branch.stmts.is_empty()
                && i.else_branch.as_ref().map(|(_, e)| noop(e)).unwrap_or(true)
        }
        _ => false,
    }
}

struct DropRm;
impl VisitMut for DropRm {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Expr(Expr::Call(c), _) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                !(f == "drop" || f.ends_with("mem::drop"))
            }
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
}
pub fn remove_drops(b: &mut Block) {
    DropRm.visit_block_mut(b)
}

fn skip_to_if(b: &mut Block) {
    for i in 0..b.stmts.len() {
        // let P = e else { continue };  rest  ==>  if let P = e { rest }
        if let Stmt::Local(l) = &b.stmts[i] {
            if let Some((pat, init)) = l.init.as_ref().and_then(|n| {
                let (_, d) = n.diverge.as_ref()?;
                let Expr::Block(d) = &**d else { return None };
                matches!(d.block.stmts.as_slice(), [Stmt::Expr(Expr::Continue(c), _)] if c.label.is_none()).then(|| (l.pat.clone(), n.expr.clone()))
            }) {
                let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
                skip_to_if(&mut rest);
                b.stmts[i] = Stmt::Expr(parse_quote!(if let #pat = #init #rest), None);
                return;
            }
        }
        let Stmt::Expr(Expr::If(x), _) = &b.stmts[i] else { continue };
        let only = x.else_branch.is_none()
            && matches!(x.then_branch.stmts.as_slice(), [Stmt::Expr(Expr::Continue(c), _)] if c.label.is_none())
            && !has_let(&x.cond);
        if only {
            let c = x.cond.clone();
            let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
            skip_to_if(&mut rest);
            b.stmts[i] = Stmt::Expr(parse_quote!(if !(#c) #rest), None);
            return;
        }
    }
}
fn parse_quote_pat(t: proc_macro2::TokenStream) -> Pat {
    syn::parse::Parser::parse2(Pat::parse_single, t).unwrap()
}
/// whether the receiver of a combinator is an iterator rather than an Option
fn iterates(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "iter" | "iter_mut" | "into_iter" | "drain" | "keys" | "values" | "values_mut" | "chars" | "enumerate" | "rev" | "try_lock") || iterates(&m.receiver),
        Expr::Paren(p) => iterates(&p.expr),
        Expr::Range(_) => true,
        _ => false,
    }
}

/// standard combinators applied to a closure literal are beta-reduced to a match
pub struct Desugar {
    /// map / or_else / unwrap_or / and_then in here are those of Option
    pub opt: bool,
    /// any / all / find / filter.count become loops
    pub iter: bool,
    /// `x.into()` is the unit's `vf_into(x)`
    pub into: bool,
}
impl VisitMut for Desugar {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = e else { return };
        let name = m.method.to_string();
        let r = &m.receiver;
        let opt = self.opt && !iterates(r);
        let n = m.args.len();
        let clo = |i: usize| -> Option<(Vec<Pat>, Expr)> {
            if let Some(Expr::Closure(c)) = m.args.get(i) {
                if expr_has_return(&c.body) {
                    return None;
                }
                return Some((c.inputs.iter().map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }).collect(), (*c.body).clone()));
            }
            // a path in place of a closure: f for |x| f(x)
            if let Some(Expr::Path(p)) = m.args.get(i)
                && p.path.segments.len() > 1
                && !matches!(name.as_str(), "unwrap_or_else" | "ok_or_else" | "map_or_else" | "or_else" | "then")
            {
                let last = p.path.segments.last().unwrap().ident.to_string();
                let b: Expr = match last.as_str() {
                    "into" | "from" if self.into => parse_quote!(vf_into(vf_x)),
                    "into" | "as_ref" | "as_mut" | "clone" | "is_closed" => {
                        let f = &p.path.segments.last().unwrap().ident;
                        parse_quote!(vf_x.#f())
                    }
                    _ => parse_quote!(#p(vf_x)),
                };
                return Some((vec![parse_quote!(vf_x)], b));
            }
            None
        };
        let new: Option<Expr> = match (name.as_str(), n) {
            ("into", 0) if self.into => Some(parse_quote!(vf_into(#r))),
            // the value behind a poisoned lock: what LockWithPoisonBehavior::lock_ignore_poison does
            ("unwrap_or_else", 1) if matches!(&**r, Expr::MethodCall(l) if (l.method == "lock" || l.method == "read" || l.method == "write") && l.args.is_empty()) => clo(0).and_then(|(_, b)| {
                let Expr::MethodCall(b) = b else { return None };
                let Expr::MethodCall(l) = &**r else { return None };
                let x = &l.receiver;
                if b.method == "into_inner" { Some(parse_quote!(#x.lock_ignore_poison())) } else { None }
            }),
            ("is_some_and", 1) | ("is_none_or", 1) | ("is_ok_and", 1) => clo(0).filter(|c| c.0.len() == 1).map(|(p, b)| {
                let p = &p[0];
                match name.as_str() {
                    "is_some_and" => parse_quote!((match #r { Some(#p) => #b, None => false })),
                    "is_none_or" => parse_quote!((match #r { Some(#p) => #b, None => true })),
                    _ => parse_quote!((match #r { Ok(#p) => #b, Err(_) => false })),
                }
            }),
            ("unwrap_or_else", 1) => clo(0).filter(|c| c.0.is_empty()).map(|(_, b)| parse_quote!((match #r { Some(vf_v) => vf_v, None => #b }))),
            ("ok_or_else", 1) => clo(0).map(|(_, b)| parse_quote!((match #r { Some(vf_v) => Ok(vf_v), None => Err(#b) }))),
            ("map_or", 2) => clo(1).filter(|c| c.0.len() == 1).map(|(p, b)| {
                let (p, v) = (&p[0], &m.args[0]);
                parse_quote!({ let vf_d = #v; match #r { Some(#p) => #b, None => vf_d } })
            }),
            ("map_or_else", 2) => match (clo(0), clo(1)) {
                (Some((q, d)), Some((p, b))) if q.is_empty() && p.len() == 1 => {
                    let p = &p[0];
                    Some(parse_quote!((match #r { Some(#p) => #b, None => #d })))
                }
                _ => None,
            },
            ("then", 1) => clo(0).filter(|c| c.0.is_empty()).map(|(_, b)| parse_quote!((if #r { Some(#b) } else { None }))),
            ("map", 1) if opt => clo(0).filter(|c| c.0.len() == 1).map(|(p, b)| {
                let p = &p[0];
                parse_quote!((match #r { Some(#p) => Some(#b), None => None }))
            }),
            ("and_then", 1) if opt => clo(0).filter(|c| c.0.len() == 1).map(|(p, b)| {
                let p = &p[0];
                parse_quote!((match #r { Some(#p) => #b, None => None }))
            }),
            ("or_else", 1) if opt => clo(0).map(|(_, b)| parse_quote!((match #r { Some(vf_v) => Some(vf_v), None => #b }))),
            ("filter", 1) if opt => clo(0).filter(|c| c.0.len() == 1).map(|(p, b)| {
                let p = &p[0];
                parse_quote!((match #r { Some(vf_v) => { let vf_k = { let #p = &vf_v; #b }; if vf_k { Some(vf_v) } else { None } } None => None }))
            }),
            ("get_or_insert_with", 1) if opt => clo(0).filter(|c| c.0.is_empty()).map(|(_, b)| parse_quote!({ if #r.is_none() { #r.replace(#b); } #r.as_mut().unwrap() })),
            ("unwrap_or", 1) if opt => {
                let v = &m.args[0];
                Some(if matches!(v, Expr::Lit(_) | Expr::Path(_)) {
                    parse_quote!((match #r { Some(vf_v) => vf_v, None => #v }))
                } else {
                    parse_quote!({ let vf_o = #r; let vf_d = #v; match vf_o { Some(vf_v) => vf_v, None => vf_d } })
                })
            }
            ("any", 1) if self.iter => clo(0).filter(|c| c.0.len() == 1).map(|(p, b)| {
                let p = &p[0];
                parse_quote!({ let mut vf_r = false; for vf_x in #r { let vf_k = { let #p = vf_x; #b }; if vf_k { vf_r = true; break; } } vf_r })
            }),
            ("all", 1) if self.iter => clo(0).filter(|c| c.0.len() == 1).map(|(p, b)| {
                let p = &p[0];
                parse_quote!({ let mut vf_r = true; for vf_x in #r { let vf_k = { let #p = vf_x; #b }; if !vf_k { vf_r = false; break; } } vf_r })
            }),
            ("find", 1) if self.iter => clo(0).filter(|c| c.0.len() == 1).map(|(p, b)| {
                let p = &p[0];
                parse_quote!({ let mut vf_r = None; for vf_x in #r { let vf_k = { let #p = &vf_x; #b }; if vf_k { vf_r = Some(vf_x); break; } } vf_r })
            }),
            ("count", 0) if self.iter => match &**r {
                Expr::MethodCall(mm) if mm.method == "filter" && mm.args.len() == 1 => match &mm.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 && !expr_has_return(&c.body) => {
                        let (p, b, l) = (&c.inputs[0], &c.body, &mm.receiver);
                        Some(parse_quote!({ let mut vf_r: usize = 0; for vf_x in #l { let vf_k = { let #p = &vf_x; #b }; if vf_k { vf_r += 1; } } vf_r }))
                    }
                    _ => None,
                },
                _ => None,
            },
            // vec.retain(|x| ..)
            ("retain", 1) if clo(0).is_some_and(|c| c.0.len() == 1) => clo(0).map(|(p, b)| {
                let p = &p[0];
                parse_quote!({ let mut vf_kept = Vec::new(); for vf_x in vf_drain_all(&mut #r) { let vf_keep = { let #p = &vf_x; #b }; if vf_keep { vf_kept.push(vf_x); } } #r = vf_kept; })
            }),
            // map.retain(|k, v| ..)
            ("retain", 1) => clo(0).filter(|c| c.0.len() == 2).map(|(p, b)| {
                let (p1, p2) = (&p[0], &p[1]);
                parse_quote!(for vf_k in #r.vf_keys() { let vf_keep = { let #p1 = &vf_k; let #p2 = #r.vf_get_mut(vf_k); #b }; if !vf_keep { #r.vf_remove(vf_k); } })
            }),
            // lock.try_lock().map(|g| ..).unwrap_or(v)
            ("unwrap_or", 1) => match &**r {
                Expr::MethodCall(mm) if mm.method == "map" && mm.args.len() == 1 && matches!(&*mm.receiver, Expr::MethodCall(t) if t.method == "try_lock") => match &mm.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 && !expr_has_return(&c.body) => {
                        let (p, b, l, v) = (&c.inputs[0], &c.body, &mm.receiver, &m.args[0]);
                        Some(parse_quote!((match #l { Ok(#p) => #b, Err(_) => #v })))
                    }
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}
/// calls on a locally held guard get the state the callee may re-enter through
pub struct EnvRw {
    pub methods: Vec<String>,
    pub env: Expr,
}
impl VisitMut for EnvRw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // `()` in the list: calls of a local (a closure value) become its method
        if self.methods.iter().any(|m| m == "()") {
            if let Expr::Call(c) = e {
                // .. and of a field named by `@field`
                let mut f = &*c.func;
                while let Expr::Paren(p) = f {
                    f = &p.expr;
                }
                if matches!(f, Expr::Field(g) if matches!(&*g.base, Expr::Path(p) if p.path.is_ident("self")) && matches!(&g.member, Member::Named(n) if self.methods.contains(&format!("@{n}")))) {
                    let args = c.args.clone();
                    let mut m: syn::ExprMethodCall = syn::parse_quote!(#f.vf_call(#args));
                    match &self.env {
                        Expr::Tuple(t) => m.args.extend(t.elems.iter().cloned()),
                        e => m.args.push(e.clone()),
                    }
                    *e = Expr::MethodCall(m);
                    return;
                }
                if let Expr::Path(p) = f {
                    if let Some(i) = p.path.get_ident() {
                        let n = i.to_string();
                        if n.starts_with(|c: char| c.is_lowercase()) && n != "drop" && !n.starts_with("vf_") {
                            let (f, args) = (c.func.clone(), c.args.clone());
                            let mut m: syn::ExprMethodCall = syn::parse_quote!(#f.vf_call(#args));
                            match &self.env {
                                Expr::Tuple(t) => m.args.extend(t.elems.iter().cloned()),
                                e => m.args.push(e.clone()),
                            }
                            *e = Expr::MethodCall(m);
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let mut r = &*m.receiver;
            while let Expr::Paren(p) = r {
                r = &p.expr;
            }
            // .. also through the guard taken in the same expression
            let mut rf = r;
            while let Expr::MethodCall(l) = rf {
                if l.args.is_empty() && (l.method == "lock" || l.method == "lock_ignore_poison" || l.method == "lock_clear_poison") { rf = &l.receiver } else { break }
            }
            let of_self = matches!(rf, Expr::Field(f) if matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self")) && matches!(&f.member, Member::Named(n) if self.methods.contains(&format!("@{n}"))));
            // `%name` in the list: only these locals
            let named = self.methods.iter().any(|m| m.starts_with('%'));
            let local = of_self || matches!(r, Expr::Path(p) if p.path.get_ident().is_some_and(|i| !named || self.methods.contains(&format!("%{i}")))) && matches!(r, Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.methods.iter().any(|m| m == "self") || (i != "self" && i != "vf_self")));
            // `^` in the list: whatever the receiver is
            let local = local || self.methods.iter().any(|m| m == "^");
            if local && self.methods.contains(&m.method.to_string()) {
                match &self.env {
                    Expr::Tuple(t) => m.args.extend(t.elems.iter().cloned()),
                    e => m.args.push(e.clone()),
                }
            }
        }
    }
}
/// the n-th closure in the order of the text
pub struct FindClosure {
    pub n: usize,
    pub found: Option<ExprClosure>,
}
impl<'a> syn::visit::Visit<'a> for FindClosure {
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        if self.found.is_none() {
            if self.n == 0 {
                self.found = Some(c.clone());
                return;
            }
            self.n -= 1;
            syn::visit::visit_expr_closure(self, c);
        }
    }
}
/// the n-th closure becomes `to`
pub struct LiftRw {
    pub n: usize,
    pub to: Expr,
    pub done: bool,
}
impl VisitMut for LiftRw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.done {
            return;
        }
        if let Expr::Closure(_) = e {
            if self.n == 0 {
                *e = self.to.clone();
                self.done = true;
                return;
            }
            self.n -= 1;
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
// closure conversion: captured variables become fields of the environment struct
pub struct CapRw {
    pub caps: BTreeSet<String>,
}
#[derive(Default)]
struct Bound(BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}
impl CapRw {
    fn shadow(&mut self, p: &Pat) {
        let mut b = Bound::default();
        syn::visit::Visit::visit_pat(&mut b, p);
        for n in b.0 {
            self.caps.remove(&n);
        }
    }
}
impl VisitMut for CapRw {
    // what the body binds itself is not captured from there on
    fn visit_block_mut(&mut self, b: &mut Block) {
        let keep = self.caps.clone();
        for s in &mut b.stmts {
            visit_mut::visit_stmt_mut(self, s);
            if let Stmt::Local(l) = s {
                let p = l.pat.clone();
                self.shadow(&p);
            }
        }
        self.caps = keep;
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let keep = self.caps.clone();
        self.shadow(&a.pat.clone());
        visit_mut::visit_arm_mut(self, a);
        self.caps = keep;
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        let keep = self.caps.clone();
        self.visit_expr_mut(&mut i.cond);
        if let Expr::Let(l) = &*i.cond {
            self.shadow(&l.pat.clone());
        }
        self.visit_block_mut(&mut i.then_branch);
        self.caps = keep;
        if let Some((_, e)) = &mut i.else_branch {
            self.visit_expr_mut(e);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(id) = p.path.get_ident() {
                if self.caps.contains(&id.to_string()) {
                    let id = id.clone();
                    *e = parse_quote!(self.#id);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f)
    }
}
#[allow(dead_code)]
pub fn dbg(e: &Expr) -> String {
    quote!(#e).to_string()
}

/// ghost fields get their initial value in every literal of the struct
pub struct GhostLit<'a> {
    pub ghosts: &'a [(String, String, String, String)],
    pub tname: String,
}
impl VisitMut for GhostLit<'_> {
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        visit_mut::visit_expr_struct_mut(self, e);
        let mut n = e.path.segments.last().unwrap().ident.to_string();
        if n == "Self" {
            n = self.tname.clone();
        }
        if e.rest.is_some() {
            return;
        }
        for (_, f, _, i) in self.ghosts.iter().filter(|g| g.0 == n && !g.3.is_empty()) {
            let id = format_ident(f);
            let v: Expr = parse_str(i).unwrap_or_else(|x| lost(&format!("ghost initial value {i}: {x}")));
            e.fields.push(parse_quote!(#id: #v));
        }
    }
}
/// a call of an opaque FnOnce value: `(f)()` / `f()` -> `f.vf_run(&mut <ghost log>)`
pub struct RunRw {
    pub to: Expr,
}
impl VisitMut for RunRw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let mut f = &*c.func;
            let mut par = false;
            while let Expr::Paren(p) = f {
                f = &p.expr;
                par = true;
            }
            let local = matches!(f, Expr::Path(p) if p.path.get_ident().is_some_and(|i| !i.to_string().starts_with("vf_") && i.to_string().chars().next().unwrap().is_lowercase()));
            if c.args.is_empty() && (local || (par && matches!(f, Expr::Field(_)))) {
                let g = &self.to;
                *e = parse_quote!(#f.vf_run(&mut #g));
            }
        }
    }
}

/// `X::<..>::f(..)` as `X::f(..)`
pub struct NoTurbo;
impl VisitMut for NoTurbo {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        for s in p.path.segments.iter_mut() {
            if matches!(s.arguments, syn::PathArguments::AngleBracketed(_)) {
                s.arguments = syn::PathArguments::None;
            }
        }
    }
}
