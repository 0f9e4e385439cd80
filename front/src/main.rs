// Front end: parses Rust source files with `syn` and prints one JSON AST per file.
use quote::ToTokens;
use serde_json::{json, Value as V};
use std::{env, fs};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn ln<T: Spanned>(t: &T) -> V {
    json!(t.span().start().line)
}
fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn member(m: &Member) -> V {
    match m {
        Member::Named(i) => json!(i.to_string()),
        Member::Unnamed(i) => json!(i.index.to_string()),
    }
}
fn gargs(a: &PathArguments) -> V {
    match a {
        PathArguments::None => json!([]),
        PathArguments::AngleBracketed(ab) => ab
            .args
            .iter()
            .filter_map(|g| match g {
                GenericArgument::Type(t) => Some(ty(t)),
                GenericArgument::AssocType(t) => {
                    Some(json!(["Assoc", t.ident.to_string(), ty(&t.ty)]))
                }
                GenericArgument::Const(e) => Some(json!(["ConstArg", expr(e)])),
                _ => None,
            })
            .collect::<Vec<_>>()
            .into(),
        PathArguments::Parenthesized(p) => {
            let ins: Vec<V> = p.inputs.iter().map(ty).collect();
            let out = match &p.output {
                ReturnType::Default => json!(["Tuple", []]),
                ReturnType::Type(_, t) => ty(t),
            };
            json!([["FnSig", ins, out]])
        }
    }
}
fn path(p: &Path) -> V {
    p.segments
        .iter()
        .map(|s| json!([s.ident.to_string(), gargs(&s.arguments)]))
        .collect::<Vec<_>>()
        .into()
}
fn bounds<'a>(b: impl Iterator<Item = &'a TypeParamBound>) -> V {
    b.filter_map(|b| match b {
        TypeParamBound::Trait(t) => Some(path(&t.path)),
        _ => None,
    })
    .collect::<Vec<_>>()
    .into()
}
fn ty(t: &Type) -> V {
    match t {
        Type::Path(p) => {
            if let Some(q) = &p.qself {
                json!(["QPath", ty(&q.ty), path(&p.path), q.position])
            } else {
                json!(["Path", path(&p.path)])
            }
        }
        Type::Reference(r) => json!(["Ref", r.mutability.is_some(), ty(&r.elem)]),
        Type::Tuple(t) => json!(["Tuple", t.elems.iter().map(ty).collect::<Vec<_>>()]),
        Type::Array(a) => json!(["Array", ty(&a.elem), expr(&a.len)]),
        Type::Slice(s) => json!(["Slice", ty(&s.elem)]),
        Type::ImplTrait(i) => json!(["Impl", bounds(i.bounds.iter())]),
        Type::TraitObject(i) => json!(["Dyn", bounds(i.bounds.iter())]),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Infer(_) => json!(["Infer"]),
        Type::Never(_) => json!(["Never"]),
        Type::Ptr(p) => json!(["Ptr", p.mutability.is_some(), ty(&p.elem)]),
        Type::BareFn(f) => json!(["BareFn", toks(f)]),
        other => json!(["OtherTy", toks(other)]),
    }
}
fn lit(l: &Lit) -> V {
    match l {
        Lit::Str(s) => json!(["Str", s.value()]),
        Lit::ByteStr(s) => json!(["ByteStr", s.value()]),
        Lit::Byte(b) => json!(["Byte", b.value()]),
        Lit::Char(c) => json!(["Char", c.value().to_string()]),
        Lit::Int(i) => json!(["Int", i.base10_digits(), i.suffix()]),
        Lit::Float(f) => json!(["Float", f.base10_digits(), f.suffix()]),
        Lit::Bool(b) => json!(["Bool", b.value]),
        other => json!(["OtherLit", toks(other)]),
    }
}
fn pat(p: &Pat) -> V {
    let l = ln(p);
    match p {
        Pat::Ident(i) => json!([
            "PIdent",
            l,
            i.ident.to_string(),
            i.by_ref.is_some(),
            i.mutability.is_some(),
            i.subpat.as_ref().map(|(_, p)| pat(p))
        ]),
        Pat::Lit(e) => json!(["PLit", l, lit(&e.lit)]),
        Pat::Or(o) => json!(["POr", l, o.cases.iter().map(pat).collect::<Vec<_>>()]),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Path(p) => json!(["PPath", l, path(&p.path), p.qself.as_ref().map(|q| ty(&q.ty))]),
        Pat::Range(r) => json!([
            "PRange",
            l,
            r.start.as_ref().map(|e| expr(e)),
            r.end.as_ref().map(|e| expr(e)),
            matches!(r.limits, RangeLimits::Closed(_))
        ]),
        Pat::Reference(r) => json!(["PRef", l, pat(&r.pat)]),
        Pat::Rest(_) => json!(["PRest", l]),
        Pat::Slice(s) => json!(["PSlice", l, s.elems.iter().map(pat).collect::<Vec<_>>()]),
        Pat::Struct(s) => json!([
            "PStruct",
            l,
            path(&s.path),
            s.fields
                .iter()
                .map(|f| json!([member(&f.member), pat(&f.pat)]))
                .collect::<Vec<_>>(),
            s.rest.is_some()
        ]),
        Pat::Tuple(t) => json!(["PTuple", l, t.elems.iter().map(pat).collect::<Vec<_>>()]),
        Pat::TupleStruct(t) => json!([
            "PTupleStruct",
            l,
            path(&t.path),
            t.elems.iter().map(pat).collect::<Vec<_>>()
        ]),
        Pat::Type(t) => json!(["PType", l, pat(&t.pat), ty(&t.ty)]),
        Pat::Wild(_) => json!(["PWild", l]),
        Pat::Const(c) => json!(["PConst", l, block(&c.block)]),
        other => json!(["POther", l, toks(other)]),
    }
}
struct Exprs(Vec<Expr>);
impl parse::Parse for Exprs {
    fn parse(input: parse::ParseStream) -> Result<Self> {
        let p = Punctuated::<Expr, Token![,]>::parse_terminated(input)?;
        Ok(Exprs(p.into_iter().collect()))
    }
}
struct LabelArgs(Vec<(Expr, Option<Expr>)>);
impl syn::parse::Parse for LabelArgs {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        while !input.is_empty() {
            let a: Expr = input.parse()?;
            let b = if input.peek(syn::Token![=>]) {
                input.parse::<syn::Token![=>]>()?;
                Some(input.parse::<Expr>()?)
            } else {
                None
            };
            v.push((a, b));
            if input.is_empty() {
                break;
            }
            input.parse::<syn::Token![,]>()?;
        }
        Ok(LabelArgs(v))
    }
}
struct RepeatArgs(Expr, Expr);
impl parse::Parse for RepeatArgs {
    fn parse(input: parse::ParseStream) -> Result<Self> {
        let a: Expr = input.parse()?;
        let _: Token![;] = input.parse()?;
        let b: Expr = input.parse()?;
        Ok(RepeatArgs(a, b))
    }
}
struct MatchesArgs(Expr, Pat, Option<Expr>);
impl parse::Parse for MatchesArgs {
    fn parse(input: parse::ParseStream) -> Result<Self> {
        let a: Expr = input.parse()?;
        let _: Token![,] = input.parse()?;
        let p = Pat::parse_multi_with_leading_vert(input)?;
        let g = if input.peek(Token![if]) {
            let _: Token![if] = input.parse()?;
            Some(input.parse()?)
        } else {
            None
        };
        let _: Option<Token![,]> = input.parse()?;
        Ok(MatchesArgs(a, p, g))
    }
}
struct SelectArms(Vec<(Pat, Expr, Expr)>);
impl syn::parse::Parse for SelectArms {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut out = vec![];
        while !input.is_empty() {
            let p = Pat::parse_multi_with_leading_vert(input)?;
            input.parse::<Token![=]>()?;
            let e: Expr = input.parse()?;
            input.parse::<Token![=>]>()?;
            let b: Expr = input.parse()?;
            if input.peek(Token![,]) {
                input.parse::<Token![,]>()?;
            }
            out.push((p, e, b));
        }
        Ok(SelectArms(out))
    }
}
fn mac(m: &Macro) -> V {
    let l = ln(m);
    let name = m
        .path
        .segments
        .iter()
        .map(|s| s.ident.to_string())
        .collect::<Vec<_>>()
        .join("::");
    let last = m.path.segments.last().unwrap().ident.to_string();
    if last == "matches" || last == "assert_matches" {
        if let Ok(a) = m.parse_body::<MatchesArgs>() {
            return json!([
                "Matches",
                l,
                expr(&a.0),
                pat(&a.1),
                a.2.as_ref().map(|g| expr(g)),
                last
            ]);
        }
    }
    if last == "select" {
        if let Ok(a) = m.parse_body::<SelectArms>() {
            let arms = a.0.iter().map(|(p, e, b)| json!(["Match", l, ["Await", l, expr(e)], [[pat(p), V::Null, expr(b)]]])).collect::<Vec<_>>();
            return json!(["Select", l, arms]);
        }
    }
    if last == "vec" {
        if let Ok(a) = m.parse_body::<RepeatArgs>() {
            return json!(["Repeat", l, expr(&a.0), expr(&a.1)]);
        }
    }
    if let Ok(a) = m.parse_body::<Exprs>() {
        return json!(["Macro", l, name, a.0.iter().map(expr).collect::<Vec<_>>()]);
    }
    if let Ok(a) = m.parse_body::<LabelArgs>() {
        return json!(["MacroLabels", l, name, a.0.iter().map(|(a, b)| json!([expr(a), b.as_ref().map(|b| expr(b))])).collect::<Vec<_>>()]);
    }
    if let Ok(stmts) = m.parse_body_with(Block::parse_within) {
        if last == "select" || last == "select_biased" {
            return json!(["MacroRaw", l, name, m.tokens.to_string()]);
        }
        return json!(["MacroStmts", l, name, stmts.iter().map(stmt).collect::<Vec<_>>()]);
    }
    json!(["MacroRaw", l, name, m.tokens.to_string()])
}
fn oexpr(e: &Option<Box<Expr>>) -> V {
    match e {
        Some(e) => expr(e),
        None => V::Null,
    }
}
fn expr(e: &Expr) -> V {
    let l = ln(e);
    match e {
        Expr::Array(a) => json!(["Array", l, a.elems.iter().map(expr).collect::<Vec<_>>()]),
        Expr::Assign(a) => json!(["Assign", l, expr(&a.left), expr(&a.right)]),
        Expr::Async(a) => json!(["Async", l, block(&a.block), a.capture.is_some()]),
        Expr::Await(a) => json!(["Await", l, expr(&a.base)]),
        Expr::Binary(b) => {
            json!(["Binary", l, toks(&b.op), expr(&b.left), expr(&b.right)])
        }
        Expr::Block(b) => json!([
            "Block",
            l,
            block(&b.block),
            b.label.as_ref().map(|l| l.name.ident.to_string())
        ]),
        Expr::Break(b) => json!([
            "Break",
            l,
            b.label.as_ref().map(|l| l.ident.to_string()),
            oexpr(&b.expr)
        ]),
        Expr::Call(c) => json!([
            "Call",
            l,
            expr(&c.func),
            c.args.iter().map(expr).collect::<Vec<_>>()
        ]),
        Expr::Cast(c) => json!(["Cast", l, expr(&c.expr), ty(&c.ty)]),
        Expr::Closure(c) => json!([
            "Closure",
            l,
            c.inputs.iter().map(pat).collect::<Vec<_>>(),
            expr(&c.body),
            match &c.output {
                ReturnType::Default => V::Null,
                ReturnType::Type(_, t) => ty(t),
            },
            c.asyncness.is_some(),
            c.capture.is_some()
        ]),
        Expr::Const(c) => json!(["Block", l, block(&c.block), V::Null]),
        Expr::Continue(c) => json!(["Continue", l, c.label.as_ref().map(|l| l.ident.to_string())]),
        Expr::Field(f) => json!(["Field", l, expr(&f.base), member(&f.member)]),
        Expr::ForLoop(f) => json!([
            "For",
            l,
            pat(&f.pat),
            expr(&f.expr),
            block(&f.body),
            f.label.as_ref().map(|l| l.name.ident.to_string())
        ]),
        Expr::Group(g) => expr(&g.expr),
        Expr::If(i) => json!([
            "If",
            l,
            expr(&i.cond),
            block(&i.then_branch),
            i.else_branch.as_ref().map(|(_, e)| expr(e))
        ]),
        Expr::Index(i) => json!(["Index", l, expr(&i.expr), expr(&i.index)]),
        Expr::Infer(_) => json!(["Infer", l]),
        Expr::Let(x) => json!(["Let", l, pat(&x.pat), expr(&x.expr)]),
        Expr::Lit(x) => json!(["Lit", l, lit(&x.lit)]),
        Expr::Loop(x) => json!([
            "Loop",
            l,
            block(&x.body),
            x.label.as_ref().map(|l| l.name.ident.to_string())
        ]),
        Expr::Macro(m) => mac(&m.mac),
        Expr::Match(m) => json!([
            "Match",
            l,
            expr(&m.expr),
            m.arms
                .iter()
                .map(|a| json!([
                    pat(&a.pat),
                    a.guard.as_ref().map(|(_, g)| expr(g)),
                    expr(&a.body)
                ]))
                .collect::<Vec<_>>()
        ]),
        Expr::MethodCall(m) => json!([
            "MethodCall",
            l,
            expr(&m.receiver),
            m.method.to_string(),
            m.turbofish
                .as_ref()
                .map(|t| gargs(&PathArguments::AngleBracketed(t.clone()))),
            m.args.iter().map(expr).collect::<Vec<_>>()
        ]),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Path(p) => json!([
            "Path",
            l,
            path(&p.path),
            p.qself.as_ref().map(|q| json!([ty(&q.ty), q.position]))
        ]),
        Expr::Range(r) => json!([
            "Range",
            l,
            oexpr(&r.start),
            oexpr(&r.end),
            matches!(r.limits, RangeLimits::Closed(_))
        ]),
        Expr::Reference(r) => json!(["Ref", l, r.mutability.is_some(), expr(&r.expr)]),
        Expr::Repeat(r) => json!(["Repeat", l, expr(&r.expr), expr(&r.len)]),
        Expr::Return(r) => json!(["Return", l, oexpr(&r.expr)]),
        Expr::Struct(s) => json!([
            "Struct",
            l,
            path(&s.path),
            s.fields
                .iter()
                .map(|f| json!([member(&f.member), expr(&f.expr)]))
                .collect::<Vec<_>>(),
            oexpr(&s.rest)
        ]),
        Expr::Try(t) => json!(["Try", l, expr(&t.expr)]),
        Expr::Tuple(t) => json!(["Tuple", l, t.elems.iter().map(expr).collect::<Vec<_>>()]),
        Expr::Unary(u) => json!(["Unary", l, toks(&u.op), expr(&u.expr)]),
        Expr::Unsafe(u) => json!(["Block", l, block(&u.block), V::Null]),
        Expr::While(w) => json!([
            "While",
            l,
            expr(&w.cond),
            block(&w.body),
            w.label.as_ref().map(|l| l.name.ident.to_string())
        ]),
        other => json!(["OtherExpr", l, toks(other)]),
    }
}
fn block(b: &Block) -> V {
    b.stmts.iter().map(stmt).collect::<Vec<_>>().into()
}
fn stmt(s: &Stmt) -> V {
    match s {
        Stmt::Local(lc) => {
            let (init, els) = match &lc.init {
                Some(i) => (
                    expr(&i.expr),
                    i.diverge.as_ref().map(|(_, e)| expr(e)).unwrap_or(V::Null),
                ),
                None => (V::Null, V::Null),
            };
            json!(["Let", ln(lc), pat(&lc.pat), init, els, attrs(&lc.attrs)])
        }
        Stmt::Item(i) => json!(["Item", ln(i), item(i)]),
        Stmt::Expr(e, semi) => json!(["Expr", ln(e), expr(e), semi.is_some()]),
        Stmt::Macro(m) => {
            // a macro in statement position: `m!{..}` with no semicolon may be the tail
            json!(["Expr", ln(m), mac(&m.mac), m.semi_token.is_some()])
        }
    }
}
fn attrs(a: &[Attribute]) -> V {
    a.iter()
        .filter(|a| !a.path().is_ident("doc"))
        .map(|a| json!(toks(&a.meta)))
        .collect::<Vec<_>>()
        .into()
}
fn sig(s: &Signature) -> V {
    let params: Vec<V> = s
        .inputs
        .iter()
        .map(|i| match i {
            FnArg::Receiver(r) => json!([
                "self",
                r.reference.is_some(),
                r.mutability.is_some(),
                if r.colon_token.is_some() { ty(&r.ty) } else { V::Null }
            ]),
            FnArg::Typed(t) => json!(["param", pat(&t.pat), ty(&t.ty)]),
        })
        .collect();
    let ret = match &s.output {
        ReturnType::Default => json!(["Tuple", []]),
        ReturnType::Type(_, t) => ty(t),
    };
    json!({"name": s.ident.to_string(), "params": params, "ret": ret,
           "async": s.asyncness.is_some(), "generics": generics(&s.generics)})
}
fn generics(g: &Generics) -> V {
    let mut v: Vec<V> = vec![];
    for p in &g.params {
        if let GenericParam::Type(t) = p {
            v.push(json!([t.ident.to_string(), bounds(t.bounds.iter()), t.default.as_ref().map(ty)]));
        }
        if let GenericParam::Const(t) = p {
            v.push(json!([t.ident.to_string(), []]));
        }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                v.push(json!([toks(&t.bounded_ty), bounds(t.bounds.iter())]));
            }
        }
    }
    v.into()
}
fn fields(f: &Fields) -> V {
    match f {
        Fields::Named(n) => json!(["named", n.named.iter().map(|f| json!([
            f.ident.as_ref().unwrap().to_string(), ty(&f.ty), attrs(&f.attrs)])).collect::<Vec<_>>()]),
        Fields::Unnamed(n) => json!(["tuple", n.unnamed.iter().enumerate().map(|(i, f)| json!([
            i.to_string(), ty(&f.ty), attrs(&f.attrs)])).collect::<Vec<_>>()]),
        Fields::Unit => json!(["unit", []]),
    }
}
fn use_tree(t: &UseTree, prefix: Vec<String>, out: &mut Vec<V>) {
    match t {
        UseTree::Path(p) => {
            let mut q = prefix.clone();
            q.push(p.ident.to_string());
            use_tree(&p.tree, q, out)
        }
        UseTree::Name(n) => {
            let mut q = prefix.clone();
            let nm = n.ident.to_string();
            if nm == "self" {
                let last = q.last().cloned().unwrap_or_default();
                out.push(json!([last, q]));
            } else {
                q.push(nm.clone());
                out.push(json!([nm, q]));
            }
        }
        UseTree::Rename(r) => {
            let mut q = prefix.clone();
            if r.ident != "self" {
                q.push(r.ident.to_string());
            }
            out.push(json!([r.rename.to_string(), q]));
        }
        UseTree::Glob(_) => out.push(json!(["*", prefix])),
        UseTree::Group(g) => {
            for t in &g.items {
                use_tree(t, prefix.clone(), out)
            }
        }
    }
}
// Item macros with a single `($x: ident) => { .. }` rule
thread_local! {
    static RULES: std::cell::RefCell<std::collections::HashMap<String, (String, proc_macro2::TokenStream)>> = Default::default();
}
fn collect_rules(i: &Item) {
    use proc_macro2::TokenTree as T;
    if let Item::Macro(m) = i {
        if let Some(name) = &m.ident {
            let t: Vec<T> = m.mac.tokens.clone().into_iter().collect();
            // (args) => { body } [;]
            if let [T::Group(a), T::Punct(_), T::Punct(_), T::Group(b), rest @ ..] = t.as_slice() {
                let a: Vec<T> = a.stream().into_iter().collect();
                if let [T::Punct(d), T::Ident(x), T::Punct(c), T::Ident(k)] = a.as_slice() {
                    if d.as_char() == '$' && c.as_char() == ':' && k == "ident" && rest.len() <= 1 {
                        RULES.with(|r| r.borrow_mut().insert(name.to_string(), (x.to_string(), b.stream())));
                    }
                }
            }
        }
    }
}
fn subst(ts: proc_macro2::TokenStream, var: &str, by: &proc_macro2::Ident) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree as T};
    let mut out: Vec<T> = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            T::Punct(ref p) if p.as_char() == '$' => {
                if matches!(it.peek(), Some(T::Ident(i)) if i == var) {
                    it.next();
                    out.push(T::Ident(by.clone()));
                } else {
                    out.push(t)
                }
            }
            T::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst(g.stream(), var, by));
                n.set_span(g.span());
                out.push(T::Group(n))
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}
fn expand_items(m: &ItemMacro) -> Option<V> {
    use proc_macro2::TokenTree as T;
    if m.ident.is_some() {
        return None;
    }
    let n = m.mac.path.segments.last()?.ident.to_string();
    let (var, body) = RULES.with(|r| r.borrow().get(&n).cloned())?;
    let args: Vec<T> = m.mac.tokens.clone().into_iter().collect();
    let by = match args.as_slice() {
        [T::Ident(i)] => i.clone(),
        _ => return None,
    };
    let f: syn::File = syn::parse2(subst(body, &var, &by)).ok()?;
    Some(f.items.iter().map(item).collect::<Vec<_>>().into())
}
// `lazy_static!`/`thread_local!` bodies: parse `static [ref] X: T = e;` as plain statics
fn lazy_items(m: &ItemMacro) -> V {
    if let Some(v) = expand_items(m) {
        return v;
    }
    let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    if n != "lazy_static" && n != "thread_local" {
        return V::Null;
    }
    let mut src = m.mac.tokens.to_string().replace("static ref ", "static ");
    if n == "thread_local" && !src.trim_end().ends_with(';') {
        src.push(';');
    }
    match parse_file(&src) {
        Ok(f) => f.items.iter().map(item).collect::<Vec<_>>().into(),
        Err(_) => V::Null,
    }
}
fn item(i: &Item) -> V {
    match i {
        Item::Fn(f) => json!({"k":"fn","line":ln(f),"attrs":attrs(&f.attrs),"sig":sig(&f.sig),
            "body":block(&f.block)}),
        Item::Struct(s) => json!({"k":"struct","line":ln(s),"attrs":attrs(&s.attrs),
            "name":s.ident.to_string(),"fields":fields(&s.fields),"generics":generics(&s.generics)}),
        Item::Enum(e) => json!({"k":"enum","line":ln(e),"attrs":attrs(&e.attrs),
            "name":e.ident.to_string(),
            "variants": e.variants.iter().map(|v| json!([v.ident.to_string(), fields(&v.fields),
               v.discriminant.as_ref().map(|(_,e)| expr(e)), attrs(&v.attrs)])).collect::<Vec<_>>()}),
        Item::Impl(im) => json!({"k":"impl","line":ln(im),"attrs":attrs(&im.attrs),
            "ty":ty(&im.self_ty), "trait": im.trait_.as_ref().map(|(_,p,_)| path(p)),
            "generics":generics(&im.generics),
            "items": im.items.iter().filter_map(|x| match x {
                ImplItem::Fn(f) => Some(json!({"k":"fn","line":ln(f),"attrs":attrs(&f.attrs),
                    "sig":sig(&f.sig),"body":block(&f.block)})),
                ImplItem::Const(c) => Some(json!({"k":"const","line":ln(c),"attrs":attrs(&c.attrs),
                    "name":c.ident.to_string(),"ty":ty(&c.ty),"expr":expr(&c.expr)})),
                ImplItem::Type(t) => Some(json!({"k":"type","line":ln(t),"name":t.ident.to_string(),"ty":ty(&t.ty)})),
                _ => None,
            }).collect::<Vec<_>>()}),
        Item::Trait(t) => json!({"k":"trait","line":ln(t),"attrs":attrs(&t.attrs),
            "name":t.ident.to_string(), "supers": bounds(t.supertraits.iter()),
            "items": t.items.iter().filter_map(|x| match x {
                TraitItem::Fn(f) => Some(json!({"k":"fn","line":ln(f),"attrs":attrs(&f.attrs),
                    "sig":sig(&f.sig),"body":f.default.as_ref().map(block)})),
                TraitItem::Const(c) => Some(json!({"k":"const","line":ln(c),
                    "name":c.ident.to_string(),"ty":ty(&c.ty),"expr":c.default.as_ref().map(|(_,e)| expr(e))})),
                _ => None,
            }).collect::<Vec<_>>()}),
        Item::Use(u) => {
            let mut out = vec![];
            use_tree(&u.tree, vec![], &mut out);
            json!({"k":"use","line":ln(u),"attrs":attrs(&u.attrs),"vis": matches!(u.vis, Visibility::Public(_)),"uses":out})
        }
        Item::Mod(m) => json!({"k":"mod","line":ln(m),"attrs":attrs(&m.attrs),"name":m.ident.to_string(),
            "items": m.content.as_ref().map(|(_,c)| c.iter().map(item).collect::<Vec<_>>())}),
        Item::Const(c) => json!({"k":"const","line":ln(c),"attrs":attrs(&c.attrs),
            "name":c.ident.to_string(),"ty":ty(&c.ty),"expr":expr(&c.expr)}),
        Item::Static(c) => json!({"k":"const","line":ln(c),"attrs":attrs(&c.attrs),
            "name":c.ident.to_string(),"ty":ty(&c.ty),"expr":expr(&c.expr)}),
        Item::Type(t) => json!({"k":"type","line":ln(t),"attrs":attrs(&t.attrs),
            "name":t.ident.to_string(),"ty":ty(&t.ty),"generics":generics(&t.generics)}),
        Item::Macro(m) => json!({"k":"macro","line":ln(m),"attrs":attrs(&m.attrs),
            "name": m.mac.path.segments.last().map(|s| s.ident.to_string()),
            "ident": m.ident.as_ref().map(|i| i.to_string()), "tokens": m.mac.tokens.to_string(),
            "statics": lazy_items(m),
            "mac": if m.ident.is_none() { mac(&m.mac) } else { V::Null }}),
        other => json!({"k":"other","line":ln(other),"tokens":toks(other)}),
    }
}
fn main() {
    // usage: front OUTDIR ROOT FILE...   (FILE relative to ROOT)
    let args: Vec<String> = env::args().collect();
    let out = &args[1];
    let root = &args[2];
    let mut bad = 0;
    for f in &args[3..] {
        if let Ok(src) = fs::read_to_string(format!("{root}/{f}")) {
            if src.contains("macro_rules!") {
                if let Ok(ast) = parse_file(&src) {
                    ast.items.iter().for_each(collect_rules);
                }
            }
        }
    }
    for f in &args[3..] {
        let src = match fs::read_to_string(format!("{root}/{f}")) {
            Ok(s) => s,
            Err(e) => {
                eprintln!("front: {f}: {e}");
                bad += 1;
                continue;
            }
        };
        match parse_file(&src) {
            Ok(ast) => {
                let items: Vec<V> = ast.items.iter().map(item).collect();
                let v = json!({"file": f, "items": items});
                fs::write(format!("{out}/{}.json", f.replace('/', "__")), v.to_string()).unwrap();
            }
            Err(e) => {
                eprintln!("front: {f}:{}: {e}", e.span().start().line);
                bad += 1;
            }
        }
    }
    std::process::exit(if bad > 0 { 3 } else { 0 });
}
