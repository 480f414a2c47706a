//! vx: mechanical extraction of functions from the compiler's macro-expanded source
//! (`rustc -Zunpretty=expanded`) into a Verus file, merged with the contracts of a template.
//!
//! usage: vx <template.vrs> <dir with CRATE.rs expanded files> <out.rs> <out.json>
//! exit 0 = written, exit 3 = lost anchor (message on stderr)
mod xform;
use quote::{ToTokens, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub fn lost(msg: &str) -> ! {
    std::panic::panic_any(format!("LOST-ANCHOR: {msg}"))
}

#[derive(Clone)]
pub struct Method {
    pub imp: ItemImpl, // items cleared
    pub f: ImplItemFn,
    pub trait_name: Option<String>,
}

#[derive(Default)]
pub struct Crate {
    pub structs: BTreeMap<String, ItemStruct>,
    pub enums: BTreeMap<String, ItemEnum>,
    pub methods: BTreeMap<String, Vec<Method>>, // by type
    pub assoc: BTreeMap<(String, String), Type>, // (type, assoc) -> ty
    pub fns: BTreeMap<String, ItemFn>,
    pub consts: BTreeMap<String, ItemConst>,
    pub traits: BTreeMap<String, ItemTrait>,
}

pub fn type_name(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => type_name(&r.elem),
        Type::Paren(p) => type_name(&p.elem),
        Type::Group(p) => type_name(&p.elem),
        _ => None,
    }
}

fn collect(items: &[Item], c: &mut Crate) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    collect(items, c)
                }
            }
            Item::Struct(s) => {
                c.structs.insert(s.ident.to_string(), s.clone());
            }
            Item::Enum(s) => {
                c.enums.insert(s.ident.to_string(), s.clone());
            }
            Item::Fn(f) => {
                c.fns.insert(f.sig.ident.to_string(), f.clone());
            }
            Item::Const(f) => {
                // derive macros wrap impls into `const _: () = { ... }`
                if f.ident == "_" {
                    if let Expr::Block(b) = &*f.expr {
                        let items: Vec<Item> = b
                            .block
                            .stmts
                            .iter()
                            .filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None })
                            .collect();
                        collect(&items, c);
                    }
                } else {
                    c.consts.insert(f.ident.to_string(), f.clone());
                }
            }
            Item::Trait(t) => {
                c.traits.insert(t.ident.to_string(), t.clone());
            }
            Item::Impl(i) => {
                let Some(tn) = type_name(&i.self_ty) else { continue };
                let trait_name = i
                    .trait_
                    .as_ref()
                    .map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let mut head = i.clone();
                head.items.clear();
                for x in &i.items {
                    match x {
                        ImplItem::Fn(f) => c.methods.entry(tn.clone()).or_default().push(Method {
                            imp: head.clone(),
                            f: f.clone(),
                            trait_name: trait_name.clone(),
                        }),
                        ImplItem::Type(t) => {
                            c.assoc.insert((tn.clone(), t.ident.to_string()), t.ty.clone());
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

pub struct Db {
    dir: String,
    pub crates: BTreeMap<String, Crate>,
    pub contracted: BTreeSet<(String, String)>, // (Type or "", fn)
}

impl Db {
    pub fn get(&mut self, name: &str) -> &Crate {
        if !self.crates.contains_key(name) {
            let p = format!("{}/{}.rs", self.dir, name);
            let src = std::fs::read_to_string(&p).unwrap_or_else(|e| lost(&format!("no expanded source {p}: {e}")));
            let file = syn::parse_file(&src).unwrap_or_else(|e| lost(&format!("cannot parse expanded {name}: {e}")));
            let mut c = Crate::default();
            collect(&file.items, &mut c);
            self.crates.insert(name.to_string(), c);
        }
        &self.crates[name]
    }
}

/// token stream to readable text: newline after ; { }
pub fn pretty(ts: &str) -> String {
    let mut out = String::new();
    let mut depth = 0i32;
    let mut chars = ts.chars().peekable();
    let mut in_str = false;
    let mut par = 0i32;
    while let Some(ch) = chars.next() {
        if in_str {
            out.push(ch);
            if ch == '\\' {
                if let Some(n) = chars.next() {
                    out.push(n)
                }
            } else if ch == '"' {
                in_str = false
            }
            continue;
        }
        match ch {
            '"' => {
                in_str = true;
                out.push(ch)
            }
            '(' => {
                par += 1;
                out.push(ch)
            }
            ')' => {
                par -= 1;
                out.push(ch)
            }
            '{' => {
                depth += 1;
                out.push_str("{\n");
                for _ in 0..depth {
                    out.push_str("  ");
                }
                if chars.peek() == Some(&' ') {
                    chars.next();
                }
            }
            '}' => {
                depth -= 1;
                while out.ends_with(' ') {
                    out.pop();
                }
                if !out.ends_with('\n') {
                    out.push('\n');
                }
                for _ in 0..depth.max(0) {
                    out.push_str("  ");
                }
                out.push_str("}\n");
                for _ in 0..depth.max(0) {
                    out.push_str("  ");
                }
                if chars.peek() == Some(&' ') {
                    chars.next();
                }
            }
            ';' => {
                out.push_str(";\n");
                for _ in 0..depth.max(0) {
                    out.push_str("  ");
                }
                if chars.peek() == Some(&' ') {
                    chars.next();
                }
            }
            _ => out.push(ch),
        }
    }
    let _ = par;
    out
}

fn generic_names(g: &Generics) -> Vec<String> {
    g.params
        .iter()
        .filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), GenericParam::Const(t) => Some(t.ident.to_string()), _ => None })
        .collect()
}

struct Sections {
    contract: Vec<String>,
    loops: BTreeMap<usize, Vec<String>>,
    start: Vec<String>,
    end: Vec<String>,
    lstart: BTreeMap<usize, Vec<String>>,
    lend: BTreeMap<usize, Vec<String>>,
    before: BTreeMap<usize, Vec<String>>, // ghost code before / after loop N
    after: BTreeMap<usize, Vec<String>>,
    closures: BTreeMap<usize, String>,
    at: Vec<(String, Vec<String>, bool)>, // proof hints before the first line containing the tokens
}

fn sections(lines: &[String]) -> Sections {
    let mut s = Sections {
        contract: vec![],
        loops: Default::default(),
        start: vec![],
        end: vec![],
        lstart: Default::default(),
        lend: Default::default(),
        before: Default::default(),
        after: Default::default(),
        closures: Default::default(),
        at: vec![],
    };
    let mut cur = ("contract".to_string(), 0usize);
    for l in lines {
        if let Some(r) = l.trim().strip_prefix("//@@") {
            let mut it = r.split_whitespace();
            let k = it.next().unwrap().to_string();
            let n = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            if k == "at" || k == "post" {
                s.at.push((r.trim_start().strip_prefix(k.as_str()).unwrap().to_string(), vec![], k == "post"));
            }
            if k == "closure" {
                s.closures.insert(n, it.collect::<Vec<_>>().join(" "));
            }
            if k == "loop" {
                s.loops.entry(n).or_default();
            }
            cur = (k, n);
            continue;
        }
        match cur.0.as_str() {
            "contract" => s.contract.push(l.clone()),
            "loop" => s.loops.entry(cur.1).or_default().push(l.clone()),
            "start" => s.start.push(l.clone()),
            "end" => s.end.push(l.clone()),
            "lstart" => s.lstart.entry(cur.1).or_default().push(l.clone()),
            "lend" => s.lend.entry(cur.1).or_default().push(l.clone()),
            "before" => s.before.entry(cur.1).or_default().push(l.clone()),
            "after" => s.after.entry(cur.1).or_default().push(l.clone()),
            "at" | "post" => s.at.last_mut().unwrap().1.push(l.clone()),
            "closure" => {}
            k => lost(&format!("bad section {k}")),
        }
    }
    s
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    if let Err(e) = std::panic::catch_unwind(run) {
        eprintln!("{}", panic_text(&*e));
        std::process::exit(3)
    }
}

fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "vx panicked".into())
}

fn run() {
    let a: Vec<String> = std::env::args().collect();
    let tpl_path = &a[1];
    let probe = a.iter().any(|x| x == "--probe");
    let stubs: BTreeSet<String> = a.iter().filter_map(|x| x.strip_prefix("--stub=")).map(|x| x.to_string()).collect();
    let alts: BTreeSet<String> = a.iter().filter_map(|x| x.strip_prefix("--alt=")).map(|x| x.to_string()).collect();
    let mut db = Db { dir: a[2].clone(), crates: Default::default(), contracted: Default::default() };
    let tpl = load_template(tpl_path);
    let lines: Vec<String> = tpl.lines().map(|s| s.to_string()).collect();
    // pass 1: contracted functions
    for l in &lines {
        if let Some(r) = l.strip_prefix("//@fn ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            let (t, m) = w[1].split_once("::").unwrap_or(("", w[1]));
            db.contracted.insert((t.to_string(), m.to_string()));
        }
        if let Some(r) = l.strip_prefix("//@known ") {
            for w in r.split_whitespace() {
                let (t, m) = w.split_once("::").unwrap_or(("", w));
                db.contracted.insert((t.to_string(), m.to_string()));
            }
        }
    }
    let mut out = String::new();
    let mut report: Vec<serde_json::Value> = vec![];
    let mut i = 0;
    let mut repl: Vec<(String, String)> = vec![]; // textual type replacement
    // ghost fields added to extracted structs: (struct, field, type, initial value)
    let mut ghosts: Vec<(String, String, String, String)> = vec![];
    for l in &lines {
        if let Some(r) = l.strip_prefix("//@struct ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            for g in w[2..].iter().filter_map(|x| x.strip_prefix('+')) {
                let (n, r) = g.split_once(':').unwrap();
                let (t, i) = r.split_once('=').unwrap_or((r, ""));
                ghosts.push((w[1].to_string(), n.to_string(), t.to_string(), i.to_string()));
            }
        }
    }
    while i < lines.len() {
        let l = &lines[i];
        if let Some(r) = l.strip_prefix("//@replace ") {
            let (x, y) = r.split_once("=>").unwrap();
            repl.push((norm(x), norm(y)));
            i += 1;
        } else if let Some(r) = l.strip_prefix("//@struct ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            let s = db
                .get(w[0])
                .structs
                .get(w[1])
                .cloned()
                .unwrap_or_else(|| lost(&format!("struct {} not in {}", w[1], w[0])));
            out.push_str(&emit_struct(s, &w[2..], &repl, &ghosts));
            report.push(serde_json::json!({"kind":"struct","crate":w[0],"item":w[1]}));
            i += 1;
        } else if let Some(r) = l.strip_prefix("//@enum ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            let mut s = db
                .get(w[0])
                .enums
                .get(w[1])
                .cloned()
                .unwrap_or_else(|| lost(&format!("enum {} not in {}", w[1], w[0])));
            s.attrs.clear();
            for v in &mut s.variants {
                v.attrs.clear();
            }
            s.vis = parse_quote!(pub);
            xform::strip_generics(&mut s.generics);
            let mut head = String::new();
            for g in generic_names(&s.generics) {
                head.push_str(&format!("#[verifier::reject_recursive_types({g})]\n"));
            }
            if w.contains(&"nowhere") {
                s.generics.where_clause = None;
            }
            out.push_str(&head);
            out.push_str(&apply_repl(&pretty(&s.to_token_stream().to_string()), &repl));
            out.push('\n');
            report.push(serde_json::json!({"kind":"enum","crate":w[0],"item":w[1]}));
            i += 1;
        } else if let Some(r) = l.strip_prefix("//@const ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            let mut s = db
                .get(w[0])
                .consts
                .get(w[1])
                .cloned()
                .unwrap_or_else(|| lost(&format!("const {} not in {}", w[1], w[0])));
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            out.push_str(&apply_repl(&pretty(&s.to_token_stream().to_string()), &repl));
            out.push('\n');
            i += 1;
        } else if let Some(r) = l.strip_prefix("//@spec ") {
            // spec functions in an impl block with the type's real generics
            let w: Vec<&str> = r.split_whitespace().collect();
            let mut g = db
                .get(w[0])
                .structs
                .get(w[1])
                .map(|s| s.generics.clone())
                .or_else(|| db.crates[w[0]].enums.get(w[1]).map(|s| s.generics.clone()))
                .unwrap_or_else(|| lost(&format!("type {} not in {}", w[1], w[0])));
            xform::strip_generics(&mut g);
            if w.contains(&"nowhere") || w.contains(&"nobounds") {
                g.where_clause = None;
            }
            if w.contains(&"nobounds") {
                for p in g.type_params_mut() {
                    p.bounds.clear();
                }
            }
            let assoc = Default::default();
            xform::TypeRw { assoc: &assoc, self_name: None }.visit_generics_mut(&mut g);
            let (ig, tg, wc) = g.split_for_impl();
            let id = format_ident(w[1]);
            out.push_str(&apply_repl(&quote!(impl #ig #id #tg #wc).to_string(), &repl));
            out.push_str(" {\n");
            i += 1;
            while i < lines.len() && !lines[i].starts_with("//@end") {
                if lines[i].starts_with("//@fn") {
                    lost("template: missing //@end");
                }
                out.push_str(&lines[i]);
                out.push('\n');
                i += 1;
            }
            out.push_str("}\n");
            i += 1;
        } else if let Some(r) = l.strip_prefix("//@fn ") {
            let w: Vec<String> = r.split_whitespace().map(|s| s.to_string()).collect();
            let mut block = vec![];
            i += 1;
            while i < lines.len() && !lines[i].starts_with("//@end") {
                if lines[i].starts_with("//@fn") {
                    lost("template: missing //@end");
                }
                block.push(lines[i].clone());
                i += 1;
            }
            i += 1;
            // a function whose current shape cannot be brought under its contract is left undecided:
            // its contract stays (assumed), everything else is still decided
            let label = fn_label(&w[0], &w);
            let mut emit = |stub: bool| {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| emit_fn(&mut db, &w, &block, &repl, probe, &ghosts, stub, alts.contains(&label)))).map_err(|e| panic_text(&*e))
            };
            let mut why = String::new();
            let mut r = if stubs.contains(&label) { Err("see the verifier's message".into()) } else { emit(false) };
            if let Err(e) = &r {
                why = e.clone();
                r = emit(true);
            }
            match r {
                Ok((text, mut rep)) => {
                    if !why.is_empty() {
                        rep["undecided"] = why.into();
                    }
                    out.push_str(&text);
                    report.push(rep);
                }
                Err(_) => report.push(serde_json::json!({"kind":"fn","crate":w[0],"item":w[1],"inlined":[],"hash":"","has_contract":true,"undecided":why})),
            }
        } else {
            out.push_str(l);
            out.push('\n');
            i += 1;
        }
    }
    std::fs::write(&a[3], out).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&report).unwrap()).unwrap();
}

type Macros = BTreeMap<String, (Vec<String>, Vec<String>)>;
fn expand_lines(lines: Vec<String>, base: &std::path::Path, m: &mut Macros, out: &mut String) {
    let mut it = lines.into_iter();
    while let Some(l) = it.next() {
        if let Some(f) = l.strip_prefix("//@include ") {
            let p = base.join(f.trim());
            let src = std::fs::read_to_string(&p).unwrap_or_else(|e| lost(&format!("{}: {e}", p.display())));
            expand_lines(src.lines().map(|s| s.to_string()).collect(), p.parent().unwrap(), m, out);
        } else if let Some(r) = l.strip_prefix("//@macro ") {
            let w: Vec<String> = r.split_whitespace().map(|s| s.to_string()).collect();
            let mut body = vec![];
            for b in it.by_ref() {
                if b.starts_with("//@endmacro") {
                    break;
                }
                body.push(b);
            }
            m.insert(w[0].clone(), (w[1..].to_vec(), body));
        } else if let Some(r) = l.strip_prefix("//@use ") {
            let w: Vec<String> = r.split_whitespace().map(|s| s.to_string()).collect();
            let (params, body) = m.get(&w[0]).cloned().unwrap_or_else(|| lost(&format!("template macro {} unknown", w[0])));
            let b = body
                .iter()
                .map(|x| {
                    let mut x = x.clone();
                    for (p, a) in params.iter().zip(w[1..].iter()) {
                        x = x.replace(&format!("${p}"), a);
                    }
                    x
                })
                .collect();
            expand_lines(b, base, m, out);
        } else {
            out.push_str(&l);
            out.push('\n');
        }
    }
}
fn load_template(p: &str) -> String {
    let p = std::path::Path::new(p);
    let mut out = String::new();
    let src = std::fs::read_to_string(p).unwrap();
    expand_lines(src.lines().map(|s| s.to_string()).collect(), p.parent().unwrap(), &mut Default::default(), &mut out);
    out
}

/// normalise text to token spacing
pub fn norm(s: &str) -> String {
    s.parse::<proc_macro2::TokenStream>().map(|t| t.to_string()).unwrap_or_else(|_| s.trim().to_string())
}

fn apply_repl(s: &str, repl: &[(String, String)]) -> String {
    let mut s = s.to_string();
    for (x, y) in repl {
        s = s.replace(x.as_str(), y.as_str());
    }
    s
}

type Ghosts = [(String, String, String, String)];
fn emit_struct(mut s: ItemStruct, opts: &[&str], repl: &[(String, String)], ghosts: &Ghosts) -> String {
    s.attrs.clear();
    s.vis = parse_quote!(pub);
    xform::strip_generics(&mut s.generics);
    if opts.contains(&"nowhere") {
        s.generics.where_clause = None;
    }
    let drop_fields: Vec<&str> = opts.iter().filter_map(|o| o.strip_prefix("-")).collect();
    let mut fields = s.fields.clone();
    if let Fields::Named(n) = &mut fields {
        n.named = n
            .named
            .clone()
            .into_iter()
            .filter(|f| !drop_fields.contains(&f.ident.as_ref().unwrap().to_string().as_str()))
            .collect();
        for (_, f, t, _) in ghosts.iter().filter(|g| s.ident == g.0) {
            let id = format_ident(f);
            let ty: Type = parse_str(t).unwrap();
            n.named.push(Field { attrs: vec![], vis: parse_quote!(pub), mutability: FieldMutability::None, ident: Some(id), colon_token: Some(Default::default()), ty });
        }
    }
    for f in fields.iter_mut() {
        f.attrs.clear();
        f.vis = parse_quote!(pub);
        xform::TypeRw { assoc: &Default::default(), self_name: None }.visit_type_mut(&mut f.ty);
    }
    // `only=f:T;g:U`: just these fields (each an opaque value), and phantoms for the type parameters
    let only: Vec<(&str, &str)> = opts.iter().filter_map(|o| o.strip_prefix("only=")).flat_map(|o| o.split(';')).filter_map(|o| o.split_once(':')).collect();
    if !only.is_empty() {
        if let Fields::Named(n) = &mut fields {
            for (f, _) in &only {
                if !n.named.iter().any(|g| g.ident.as_ref().unwrap() == f) {
                    lost(&format!("struct {}: no field {f}", s.ident));
                }
            }
            n.named.clear();
            for (f, t) in &only {
                let id = format_ident(f);
                let ty: Type = parse_str(t).unwrap();
                n.named.push(Field { attrs: vec![], vis: parse_quote!(pub), mutability: FieldMutability::None, ident: Some(id), colon_token: Some(Default::default()), ty });
            }
            for g in s.generics.type_params().map(|t| t.ident.to_string()).collect::<Vec<_>>() {
                let id = format_ident(&format!("vf_p_{}", g.to_lowercase()));
                let ty: Type = parse_str(&format!("PhantomData<{g}>")).unwrap();
                n.named.push(Field { attrs: vec![], vis: parse_quote!(pub), mutability: FieldMutability::None, ident: Some(id), colon_token: Some(Default::default()), ty });
            }
        }
        s.generics.where_clause = None;
        for p in s.generics.type_params_mut() {
            p.bounds.clear();
        }
    }
    s.fields = fields;
    let mut head = String::new();
    for g in generic_names(&s.generics) {
        head.push_str(&format!("#[verifier::reject_recursive_types({g})]\n"));
    }
    head + &apply_repl(&pretty(&s.to_token_stream().to_string()), repl) + "\n"
}

/// the name reported for a function under contract
fn fn_label(cname: &str, w: &[String]) -> String {
    let mut l = format!("{cname}::{}", w[1]);
    for x in w {
        if let Some(t) = x.strip_prefix("of=").or(x.strip_prefix("for=")) {
            l.push_str(&format!("<{t}>"));
        } else if let (Some(t), true) = (x.strip_prefix("trait="), w[1].starts_with("T::")) {
            l.push_str(&format!("<{t}>"));
        }
    }
    l
}
fn emit_fn(
    db: &mut Db,
    w: &[String],
    block: &[String],
    repl: &[(String, String)],
    probe: bool,
    ghosts: &Ghosts,
    stub: bool,
    alt: bool,
) -> (String, serde_json::Value) {
    let cname = w[0].clone();
    let opts: Vec<&str> = w[2..].iter().map(|s| s.as_str()).collect();
    let opt = |k: &str| -> Option<String> {
        opts.iter().find_map(|o| o.strip_prefix(&format!("{k}=")).map(|s| s.to_string()))
    };
    let has = |k: &str| opts.contains(&k);
    let (tname, mname) = match w[1].split_once("::") {
        Some((t, m)) => (t.to_string(), m.to_string()),
        None => (String::new(), w[1].clone()),
    };
    let sec = sections(block);
    db.get(&cname);
    let label = fn_label(&cname, w);
    let (imp, mut f): (Option<ItemImpl>, ImplItemFn) = if tname.is_empty() {
        let f = db
            .get(&cname)
            .fns
            .get(&mname)
            .cloned()
            .unwrap_or_else(|| lost(&format!("fn {mname} not in {cname}")));
        (
            None,
            ImplItemFn {
                attrs: vec![],
                vis: f.vis.clone(),
                defaultness: None,
                sig: f.sig.clone(),
                block: (*f.block).clone(),
            },
        )
    } else {
        let want_trait = opt("trait");
        let mut default_fn: Option<(ItemImpl, ImplItemFn)> = None;
        let ms: Vec<Method> = db
            .get(&cname)
            .methods
            .get(&tname)
            .map(|v| {
                v.iter()
                    .filter(|m| m.f.sig.ident == mname)
                    .filter(|m| match &want_trait {
                        Some(t) => m.trait_name.as_deref() == Some(t.as_str()),
                        None => true,
                    })
                    // `impl From<of<..>> for ..`: the one whose type argument is `of`
                    .filter(|m| match opt("of") {
                        Some(t) => m.imp.trait_.as_ref().is_some_and(|x| {
                            let p = x.1.to_token_stream().to_string();
                            p.split('<').nth(1).map(|a| a.trim().trim_end_matches('>').trim().to_string()) == Some(t.to_string())
                        }),
                        None => true,
                    })
                    // the impl for the type written `for`
                    .filter(|m| match opt("for") {
                        Some(t) => m.imp.self_ty.to_token_stream().to_string().replace(' ', "") == t,
                        None => true,
                    })
                    .cloned()
                    .collect()
            })
            .unwrap_or_default();
        if ms.is_empty() {
            // trait default method?
            let on = opt("on").map(|h| parse_str::<ItemImpl>(&format!("{} {{}}", h.replace('~', " "))).unwrap_or_else(|e| lost(&format!("on={h}: {e}"))));
            if let Some(t) = db.get(&cname).traits.get(&tname) {
                let f = t.items.iter().find_map(|x| match x {
                    TraitItem::Fn(f) if f.sig.ident == mname && f.default.is_some() => Some(f.clone()),
                    _ => None,
                });
                // .. as a method of the implementing type named by `on`
                if let (Some(f), Some(im)) = (&f, on) {
                    default_fn = Some((
                        im,
                        ImplItemFn {
                            attrs: vec![],
                            vis: Visibility::Inherited,
                            defaultness: None,
                            sig: f.sig.clone(),
                            block: f.default.clone().unwrap(),
                        },
                    ));
                } else if let Some(f) = f {
                    lost(&format!("trait default fn {} unsupported ({})", label, f.sig.ident));
                }
            }
            if default_fn.is_none() {
                lost(&format!("method {label} not found"));
            }
        }
        if ms.len() > 1 {
            lost(&format!("method {label} ambiguous ({})", ms.len()));
        }
        match default_fn {
            Some((im, f)) => (Some(im), f),
            None => (Some(ms[0].imp.clone()), ms[0].f.clone()),
        }
    };
    let orig = f.to_token_stream().to_string();
    f.attrs.clear();
    // the n-th closure of the body, as a method of a struct holding what it captures
    let mut imp = imp;
    if let Some(n) = opt("closure") {
        let n: usize = n.parse().unwrap_or_else(|_| lost("closure="));
        let mut fc = xform::FindClosure { n, found: None };
        syn::visit::Visit::visit_block(&mut fc, &f.block);
        let c = fc.found.unwrap_or_else(|| lost(&format!("{label}: no closure {n}")));
        let tx = |k: &str| opt(k).unwrap_or_default().replace('~', " ");
        let caps: std::collections::BTreeSet<String> = tx("caps").split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        let tys: Vec<String> = tx("ptypes").split(';').filter(|x| !x.trim().is_empty()).map(|x| x.to_string()).collect();
        if tys.len() != c.inputs.len() {
            lost(&format!("{label}: closure {n} has {} parameters", c.inputs.len()));
        }
        let mut body: Block = match &*c.body {
            Expr::Block(b) => b.block.clone(),
            e => parse_quote!({ #e }),
        };
        xform::CapRw { caps: caps.clone() }.visit_block_mut(&mut body);
        let mut inputs = if has("cmut") { "&mut self".to_string() } else { "&self".to_string() };
        let mut pre: Vec<Stmt> = vec![];
        for (i, (p, t)) in c.inputs.iter().zip(&tys).enumerate() {
            inputs.push_str(&format!(", vf_a{i}: {t}"));
            let mut p = p.clone();
            if let Pat::Type(t) = p {
                p = *t.pat;
            }
            let id = format_ident(&format!("vf_a{i}"));
            if !matches!(p, Pat::Wild(_)) {
                let st: Stmt = parse_quote!(let #p = #id;);
                pre.push(st);
            }
        }
        for (i, s) in pre.into_iter().enumerate() {
            body.stmts.insert(i, s);
        }
        // captures used up by the call
        for a in tx("cargs").split(';').filter(|x| !x.trim().is_empty()) {
            inputs.push_str(&format!(", {a}"));
        }
        let r = match opt("rtype") {
            Some(t) => format!("-> {}", t.replace('~', " ")),
            None => String::new(),
        };
        let im: ItemImpl = parse_str(&format!("{} {{ fn call({inputs}) {r} {{}} }}", tx("chead"))).unwrap_or_else(|e| lost(&format!("closure head: {e}")));
        let ImplItem::Fn(mut g) = im.items[0].clone() else { lost("closure head") };
        g.block = body;
        f = g;
        imp = Some(im);
    }
    if stub {
        f.block = parse_quote!({ unimplemented!() });
    }
    // `ext`: a constructor shorthand; its parameters become opaque, its result `rtype`
    if has("ext") {
        let mut gs: Vec<String> = vec![];
        for a in f.sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                // numbers and flags stay what they are: arithmetic on them is decided
                if matches!(t.ty.to_token_stream().to_string().as_str(), "usize" | "bool" | "u64" | "u32" | "u8" | "i32") {
                    continue;
                }
                let g = format!("VfA{}", gs.len());
                t.ty = Box::new(parse_str(&g).unwrap());
                gs.push(g);
            }
        }
        f.sig.generics = parse_str(&format!("<{}>", gs.join(","))).unwrap();
        let t = opt("rtype").unwrap_or_else(|| lost("ext without rtype"));
        f.sig.output = parse_str(&format!("-> {}", t.replace('~', " "))).unwrap_or_else(|e| lost(&format!("rtype={t}: {e}")));
        xform::NoTurbo.visit_block_mut(&mut f.block);
    }
    let empty;
    // the same body with its early returns as if/else, so that all paths reach the end
    if alt && !stub && matches!(f.sig.output, ReturnType::Default) {
        if let Some(v) = xform::elim(f.block.stmts.clone()) {
            f.block.stmts = v;
        }
    }
    let sec = if stub {
        let mut s = sections(block);
        (s.loops, s.start, s.end) = Default::default();
        s.at.clear();
        empty = s;
        empty
    } else {
        sec
    };
    let probe = probe && !stub;
    // closures created here, as values of the structs `closure=` makes of them
    if stub {
    } else if let Some(l) = opt("lift") {
        for one in l.split(';') {
            let p: Vec<&str> = one.split(':').collect();
            let n: usize = p[0].parse().unwrap_or_else(|_| lost("lift="));
            let lit: Expr = parse_str(&format!("{} {{ {} }}", p[1], p.get(2).unwrap_or(&"").split(',').filter(|x| !x.is_empty()).map(|x| format!("{x}: {x}")).collect::<Vec<_>>().join(", "))).unwrap_or_else(|e| lost(&format!("lift: {e}")));
            let mut rw = xform::LiftRw { n, to: lit, done: false };
            rw.visit_block_mut(&mut f.block);
            if !rw.done {
                lost(&format!("{label}: no closure {n}"));
            }
        }
    }
    // assoc types
    let assoc: BTreeMap<String, Type> = db
        .get(&cname)
        .assoc
        .iter()
        .filter(|((t, _), _)| *t == tname)
        .map(|((_, a), ty)| (a.clone(), ty.clone()))
        .collect();
    // 1 inline uncontracted helpers
    let mut inl = xform::Inliner { db, cname: cname.clone(), tname: tname.clone(), depth: 0, inlined: vec![] };
    inl.visit_block_mut(&mut f.block);
    let inlined = inl.inlined.clone();
    // 2..: rewriting
    let into = inl.db.contracted.contains(&("vf".to_string(), "into".to_string()));
    xform::Desugar { opt: !has("noopt"), iter: has("iter"), into }.visit_block_mut(&mut f.block);
    xform::GhostLit { ghosts, tname: tname.clone() }.visit_block_mut(&mut f.block);
    if let Some(r) = opt("run") {
        let g: Expr = parse_str(&r).unwrap_or_else(|e| lost(&format!("run: {e}")));
        xform::RunRw { to: g }.visit_block_mut(&mut f.block);
    }
    for r in ["env", "env2", "env3"].iter().filter_map(|k| opt(k)) {
        let (ms, ex) = r.split_once(':').unwrap_or_else(|| lost("env="));
        let env: Expr = parse_str(&ex.replace('~', " ")).unwrap_or_else(|e| lost(&format!("env: {e}")));
        xform::EnvRw { methods: ms.split(',').map(|s| s.to_string()).collect(), env }.visit_block_mut(&mut f.block);
    }
    let mut rw = xform::BodyRw { ro: has("ro"), n_loops: 0, n_closures: 0, closures: vec![], want_closures: sec.closures.keys().cloned().collect(), keep_asserts: has("asserts") };
    rw.visit_block_mut(&mut f.block);
    if !has("keepdrop") {
        xform::remove_drops(&mut f.block);
    }
    let mut trw = xform::TypeRw { assoc: &assoc, self_name: None };
    trw.visit_block_mut(&mut f.block);
    trw.visit_signature_mut(&mut f.sig);
    // a loop without invariants supplied (or with a different count) is a lost anchor
    let nl = rw.n_loops;
    if nl != sec.loops.len() {
        lost(&format!("{label}: {nl} loops in the source, {} annotated", sec.loops.len()));
    }
    // arguments renamed to the template's names
    if let Some(names) = opt("args") {
        let names: Vec<String> = names.split(',').map(|s| s.to_string()).collect();
        let mut k = 0;
        let mut pre: Vec<Stmt> = vec![];
        for inp in f.sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = inp {
                if k >= names.len() {
                    lost(&format!("{label}: more parameters than expected"));
                }
                let id = format_ident(&names[k]);
                k += 1;
                if names[k - 1] == "_" {
                    continue;
                }
                let mut pat = (*t.pat).clone();
                // locks are exclusive borrows here
                if let (Some(m), Pat::Ident(p)) = (opt("mutargs"), &mut pat) {
                    if m.split(',').any(|m| p.ident == m) {
                        p.mutability = Some(Default::default());
                    }
                }
                let same = matches!(&pat, Pat::Ident(p) if p.ident == id && p.mutability.is_none());
                if !same {
                    if !matches!(pat, Pat::Wild(_)) {
                        pre.push(parse_quote!(let #pat = #id;));
                    }
                    *t.pat = parse_quote!(#id);
                }
            }
        }
        if k != names.len() {
            lost(&format!("{label}: fewer parameters than expected"));
        }
        for (n, s) in pre.into_iter().enumerate() {
            f.block.stmts.insert(n, s);
        }
    }
    if has("selfmut") {
        if let Some(FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
            *r = parse_quote!(&mut self);
        }
    }
    // `mut self` by value
    if let Some(FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            let id = format_ident("vf_self");
            xform::SelfRw { to: parse_quote!(#id) }.visit_block_mut(&mut f.block);
            f.block.stmts.insert(0, parse_quote!(let mut #id = self;));
        }
    }
    for o in opts.iter().filter_map(|o| o.strip_prefix("ghostarg=")) {
        let a: FnArg = parse_str(&o.replace("~", " ")).unwrap_or_else(|e| lost(&format!("ghostarg {o}: {e}")));
        f.sig.inputs.push(a);
    }
    if let Some(n) = opt("as") {
        f.sig.ident = format_ident(&n);
    }
    let drop_params: Vec<String> = opt("dropgen").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    // generics
    xform::strip_generics(&mut f.sig.generics);
    let mut head = String::new();
    if let Some(mut im) = imp {
        if opt("closure").is_none() {
            xform::strip_generics(&mut im.generics);
        }
        if has("nobounds") {
            im.generics.where_clause = None;
            for p in im.generics.type_params_mut() {
                p.bounds.clear();
                p.default = None;
            }
        }
        im.generics.params = im
            .generics
            .params
            .into_iter()
            .filter(|p| !matches!(p, GenericParam::Type(t) if drop_params.contains(&t.ident.to_string())))
            .collect();
        trw.visit_generics_mut(&mut im.generics);
        let (ig, _, wc) = im.generics.split_for_impl();
        let mut st = (*im.self_ty).clone();
        trw.visit_type_mut(&mut st);
        if has("impl") {
            // kept as an implementation of its (one-method) trait
            let mut tp = im.trait_.as_ref().map(|(_, p, _)| p.clone()).unwrap_or_else(|| lost(&format!("{label}: not a trait method")));
            trw.visit_path_mut(&mut tp);
            head.push_str(&quote!(impl #ig #tp for #st #wc).to_string());
            head.push_str(" {\n");
            for (a, t) in &assoc {
                if opt("assoc").is_some_and(|x| x.split(',').any(|y| y == a)) {
                    head.push_str(&format!("type {a} = {};\n", t.to_token_stream()));
                }
            }
        } else {
            head.push_str(&quote!(impl #ig #st #wc).to_string());
            head.push_str(" {\n");
        }
    }
    let mut ret = f.sig.output.clone();
    let retname = opt("ret").unwrap_or("r".into());
    let mut sig = f.sig.clone();
    sig.output = ReturnType::Default;
    let wc = sig.generics.where_clause.take();
    let mut sigs = format!("{}{}", if has("impl") { "" } else { "pub " }, sig.to_token_stream());
    if let ReturnType::Type(_, t) = &mut ret {
        if matches!(&**t, Type::Never(_)) {
            sigs.push_str(" -> !");
        } else {
            sigs.push_str(&format!(" -> ({retname} : {})", t.to_token_stream()));
        }
    }
    if let Some(wc) = wc {
        sigs.push_str(&format!(" {}", wc.to_token_stream()));
    }
    // body text
    let mut body = String::new();
    for s in &f.block.stmts {
        body.push_str(&s.to_token_stream().to_string());
        body.push(' ');
    }
    let mut body = format!("{{ {} }}", body);
    if let Some(r) = opt("alias") {
        for r in r.split(';') {
            let (a, b) = r.split_once("=>").unwrap_or_else(|| lost("alias="));
            body = body.replace(&norm(a), &norm(b));
        }
    }
    body = apply_repl(&body, repl);
    let mut body = pretty(&body);
    let mut no_place: Vec<String> = vec![];
    for (pat, t, post) in &sec.at {
        let place = body.find(&norm(pat));
        if place.is_none() {
            no_place.push(pat.trim().to_string());
        }
        if let Some(mut p) = place {
            // `post`: behind the statement instead of in front of it
            if *post {
                p += body[p..].find(";\n").map(|x| x + 2).unwrap_or(0);
            }
            let l = body[..p].rfind('\n').map(|x| x + 1).unwrap_or(0);
            body.insert_str(l, &format!("{}\n", t.join("\n")));
        }
    }
    // loop markers
    for (n, inv) in &sec.loops {
        let m1 = format!("vf_loop_start ! ({n}) ;");
        let Some(pos) = body.find(&m1) else { lost(&format!("{label}: loop {n} marker lost")) };
        // find preceding '{'
        let brace = body[..pos].rfind('{').unwrap();
        let mut b = body[..brace].trim_end().to_string();
        b.push('\n');
        b.push_str(&inv.join("\n"));
        b.push_str("\n{\n");
        if let Some(x) = sec.lstart.get(n) {
            b.push_str(&x.join("\n"));
            b.push('\n');
        }
        b.push_str(&body[pos + m1.len()..]);
        body = b;
        for (mark, tab) in [("vf_loop_end", &sec.lend), ("vf_loop_before", &sec.before), ("vf_loop_after", &sec.after)] {
            let m = format!("{mark} ! ({n}) ;");
            let t = tab.get(n).map(|x| x.join("\n")).unwrap_or_default();
            body = body.replace(&m, &t);
        }
    }
    if probe {
        let p = body.find('{').unwrap();
        body = format!("{{\nproof {{ assert(false); }} // VF-PROBE\n{}", &body[p + 1..]);
    }
    if !sec.start.is_empty() {
        let p = body.find('{').unwrap();
        body = format!("{{\n{}\n{}", sec.start.join("\n"), &body[p + 1..]);
    }
    if !sec.end.is_empty() {
        let p = body.trim_end().rfind('}').unwrap();
        body = format!("{}\n;{}\n}}\n", &body[..p], sec.end.join("\n"));
    }
    let mut text = String::new();
    // closures lifted out
    let mut clo_text = String::new();
    for (n, clo) in rw.closures.iter() {
        let decl = &sec.closures[n];
        let _ = (clo, decl);
        clo_text.push_str("");
    }
    text.push_str(&format!("// VF-FN {label}\n"));
    text.push_str(&apply_repl(&head, repl));
    if stub {
        text.push_str("#[verifier::external_body]\n");
    }
    text.push_str(&apply_repl(&sigs, repl));
    text.push('\n');
    text.push_str(&sec.contract.join("\n"));
    text.push('\n');
    text.push_str(&body);
    if !head.is_empty() {
        text.push_str("}\n");
    }
    text.push_str("// VF-END\n");
    text.push_str(&clo_text);
    let h = fnv(&orig);
    (
        text,
        serde_json::json!({"kind":"fn","crate":cname,"item":w[1],"inlined":inlined,"hash":format!("{h:016x}"),"no_place":no_place,
        "has_contract": block.iter().any(|l| l.contains("ensures") )}),
    )
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn format_ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}
