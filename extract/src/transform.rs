//! The mechanical translation of one function of the expanded crate into the Verus dialect.
//! What it changes is listed in DESIGN.md ("What the extraction changes and drops").
use crate::{
    fail,
    index::{ty_name, FnEntry, Index},
    print::pretty,
    template::{Opts, Unit},
};
use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::{
    visit::{self, Visit},
    visit_mut::{self, VisitMut},
    *,
};

// ---------------------------------------------------------------------------------------------
// tokens

pub fn flat_tokens(ts: TokenStream) -> Vec<String>
{
    let mut v = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                v.push(a.into());
                v.extend(flat_tokens(g.stream()));
                v.push(b.into());
            },
            other => v.push(other.to_string()),
        }
    }
    v.retain(|s| !s.is_empty());
    v
}

fn subst_tokens(
    ts: TokenStream,
    pat: &[String],
    rep: &TokenStream,
) -> TokenStream
{
    // patterns without groups are matched at one nesting level
    let v: Vec<TokenTree> = ts
        .into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst_tokens(g.stream(), pat, rep));
                n.set_span(g.span());
                TokenTree::Group(n)
            },
            t => t,
        })
        .collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        let m = i + pat.len() <= v.len() && v[i ..].iter().zip(pat).all(|(a, b)| !matches!(a, TokenTree::Group(_)) && a.to_string() == *b);
        let after_path = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == ':')
            && matches!(out.len().checked_sub(2).and_then(|j| out.get(j)), Some(TokenTree::Punct(p)) if p.as_char() == ':')
            || matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '.');
        if m && !after_path {
            out.extend(rep.clone());
            i += pat.len();
        }
        else {
            out.push(v[i].clone());
            i += 1;
        }
    }
    out.into_iter().collect()
}

fn rename_idents(
    ts: TokenStream,
    map: &HashMap<String, TokenStream>,
) -> TokenStream
{
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), rename_idents(g.stream(), map)))]),
            TokenTree::Ident(i) => match map.get(&i.to_string()) {
                Some(r) => out.extend(r.clone()),
                None => out.extend([TokenTree::Ident(i)]),
            },
            t => out.extend([t]),
        }
    }
    out
}

fn apply_substs(
    mut ts: TokenStream,
    u: &Unit,
) -> TokenStream
{
    for (p, r) in &u.substs {
        let rep: TokenStream = r.parse().unwrap_or_else(|_| fail("TEMPLATE", r));
        ts = subst_tokens(ts, p, &rep);
    }
    ts
}

pub fn toks(x: &impl ToTokens) -> String
{
    x.to_token_stream().to_string()
}

fn pe(s: &str) -> Expr
{
    parse_str(s).unwrap_or_else(|e| fail("INTERNAL", &format!("{s}: {e}")))
}

/// canonical name for a source type parameter, by matching the source type with the canonical one
fn unify(
    src: &Type,
    canon: &Type,
    params: &BTreeSet<String>,
    map: &mut HashMap<String, TokenStream>,
)
{
    match (src, canon) {
        (Type::Path(a), c) if a.qself.is_none() && a.path.segments.len() == 1 && params.contains(&a.path.segments[0].ident.to_string()) => {
            map.insert(a.path.segments[0].ident.to_string(), c.to_token_stream());
        },
        (Type::Path(a), Type::Path(c)) => unify_path(&a.path, &c.path, params, map),
        (Type::Reference(a), Type::Reference(c)) => unify(&a.elem, &c.elem, params, map),
        _ => (),
    }
}
fn unify_path(
    a: &Path,
    c: &Path,
    params: &BTreeSet<String>,
    map: &mut HashMap<String, TokenStream>,
)
{
    if let (Some(x), Some(y)) = (a.segments.last(), c.segments.last()) {
        if let (PathArguments::AngleBracketed(x), PathArguments::AngleBracketed(y)) = (&x.arguments, &y.arguments) {
            for (p, q) in x.args.iter().zip(&y.args) {
                if let (GenericArgument::Type(p), GenericArgument::Type(q)) = (p, q) {
                    unify(p, q, params, map);
                }
            }
        }
    }
}

fn generic_map(
    u: &Unit,
    f: &FnEntry,
) -> HashMap<String, TokenStream>
{
    let mut map = HashMap::new();
    let params: BTreeSet<String> = f.impl_gen.type_params().map(|p| p.ident.to_string()).collect();
    if let Some(st) = &f.self_ty {
        let n = ty_name(st);
        let tr = f.trait_.clone().unwrap_or_default();
        let best = u
            .selfty
            .iter()
            .find(|(t, s, ..)| *t == tr && *s == n)
            .or_else(|| u.selfty.iter().find(|(t, s, ..)| t.is_empty() && *s == n));
        if let Some((_, _, ctr, cty)) = best {
            unify(st, cty, &params, &mut map);
            if let (Some(c), Some(t)) = (ctr, &f.trait_path) {
                unify_path(t, c, &params, &mut map);
            }
        }
    }
    map
}

// ---------------------------------------------------------------------------------------------
// the body

struct Tx<'a>
{
    idx:      &'a Index,
    u:        &'a Unit,
    f:        &'a FnEntry,
    ghost:    Option<String>,
    fresh:    usize,
    stack:    Vec<String>,
    inlined:  Vec<String>,
    /// whether `return` in the current body is a return of the function under contract
    tail:     bool,
}

struct Strip;
impl VisitMut for Strip
{
    fn visit_attributes_mut(
        &mut self,
        a: &mut Vec<Attribute>,
    )
    {
        a.clear();
    }

    fn visit_expr_mut(
        &mut self,
        e: &mut Expr,
    )
    {
        while let Expr::Group(g) = e {
            *e = (*g.expr).clone();
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_block_mut(
        &mut self,
        b: &mut Block,
    )
    {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(_)));
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_closure_mut(
        &mut self,
        c: &mut ExprClosure,
    )
    {
        visit_mut::visit_expr_closure_mut(self, c);
    }
}

struct TryFinder(bool);
impl<'a> Visit<'a> for TryFinder
{
    fn visit_expr_try(
        &mut self,
        _: &'a ExprTry,
    )
    {
        self.0 = true;
    }
}
fn has_try(e: &Expr) -> bool
{
    let mut f = TryFinder(false);
    f.visit_expr(e);
    f.0
}
/// does it contain a `return` of the enclosing function?
fn has_return(e: &impl VisitableRet) -> bool
{
    e.ret()
}
trait VisitableRet
{
    fn ret(&self) -> bool;
}
struct RetFinder(bool);
impl<'a> Visit<'a> for RetFinder
{
    fn visit_expr_return(
        &mut self,
        _: &'a ExprReturn,
    )
    {
        self.0 = true;
    }

    fn visit_expr_closure(
        &mut self,
        _: &'a ExprClosure,
    )
    {
    }
}
impl VisitableRet for Expr
{
    fn ret(&self) -> bool
    {
        let mut r = RetFinder(false);
        r.visit_expr(self);
        r.0
    }
}
impl VisitableRet for Stmt
{
    fn ret(&self) -> bool
    {
        let mut r = RetFinder(false);
        r.visit_stmt(self);
        r.0
    }
}

fn is_path_call<'e>(
    e: &'e Expr,
    last: &[&str],
) -> Option<&'e ExprCall>
{
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.len() >= last.len() && segs[segs.len() - last.len() ..].iter().zip(last).all(|(a, b)| a == b) {
                return Some(c);
            }
        }
    }
    None
}

fn ident_of(e: &Expr) -> Option<String>
{
    match e {
        Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}
/// a variable, or fields of one
fn is_place(e: &Expr) -> bool
{
    match e {
        Expr::Path(p) => p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_'),
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => is_place(expr),
        Expr::Index(i) => is_place(&i.expr),
        _ => false,
    }
}
fn strip_ref(e: &Expr) -> &Expr
{
    match e {
        Expr::Reference(r) => strip_ref(&r.expr),
        Expr::Paren(p) => strip_ref(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => strip_ref(expr),
        e => e,
    }
}

fn pat_idents(p: &Pat) -> Vec<String>
{
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V
    {
        fn visit_pat_ident(
            &mut self,
            p: &'a PatIdent,
        )
        {
            let n = p.ident.to_string();
            if n.starts_with(|c: char| c.is_lowercase() || c == '_') {
                self.0.push(n);
            }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

/// are all uses of the bound names in the guard method receivers or behind `&`?
fn guard_by_ref(
    g: &Expr,
    names: &[String],
) -> (bool, bool)
{
    struct V<'n>
    {
        names: &'n [String],
        bad:   bool,
        used:  bool,
    }
    impl<'a> Visit<'a> for V<'_>
    {
        fn visit_expr(
            &mut self,
            e: &'a Expr,
        )
        {
            match e {
                Expr::MethodCall(m) if ident_of(&m.receiver).is_some_and(|n| self.names.contains(&n)) => {
                    self.used = true;
                    for a in &m.args {
                        self.visit_expr(a);
                    }
                },
                Expr::Path(_) if ident_of(e).is_some_and(|n| self.names.contains(&n)) => {
                    self.bad = true;
                    self.used = true;
                },
                _ => visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V { names, bad: false, used: false };
    v.visit_expr(g);
    (!v.bad, v.used)
}

fn paren(e: Expr) -> Expr
{
    match e {
        Expr::Path(_) | Expr::Lit(_) | Expr::Paren(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Block(_) => e,
        e => Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(e) }),
    }
}

fn mk_block(stmts: Vec<Stmt>) -> Block
{
    Block { brace_token: Default::default(), stmts }
}
fn mk_block_expr(stmts: Vec<Stmt>) -> Expr
{
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: mk_block(stmts) })
}
fn let_stmt(
    pat: TokenStream,
    ty: Option<TokenStream>,
    e: &Expr,
) -> Stmt
{
    let q = match ty {
        Some(t) => quote! { let #pat: #t = #e; },
        None => quote! { let #pat = #e; },
    };
    parse2(q).unwrap_or_else(|e| fail("INTERNAL", &e.to_string()))
}

const STD_METHODS: &[&str] = &[
    "clone", "next", "get", "insert", "new", "default", "extend", "clear", "push", "pop", "eq", "ne", "cmp", "into", "from", "set", "replace", "is_some", "is_none", "is_ok",
    "is_err", "unwrap", "expect", "map", "take", "as_ref", "as_mut", "id", "hash",
];

impl<'a> Tx<'a>
{
    fn name(
        &mut self,
        base: &str,
    ) -> Ident
    {
        self.fresh += 1;
        format_ident!("vx_{}{}", base, self.fresh)
    }

    fn ret_err_ty(&self) -> Option<String>
    {
        if let ReturnType::Type(_, t) = &self.f.sig.output {
            last_arg(t)
        }
        else {
            None
        }
    }

    fn returns_option(&self) -> bool
    {
        matches!(&self.f.sig.output, ReturnType::Type(_, t) if ty_name(t) == "Option")
    }

    /// the crate's function a call refers to, unless it has a contract of its own
    fn resolve(
        &self,
        name: &str,
        qual: Option<&str>,
        method: bool,
        recv_self: bool,
    ) -> Option<&'a FnEntry>
    {
        let canon = self.u.renames.get(name).map_or(name, |s| s.as_str());
        if self.u.known.contains(canon) {
            return None;
        }
        let myself = self.f.self_ty.as_ref().map(ty_name);
        let mytrait = self.f.trait_.clone();
        let mut c: Vec<&FnEntry> = self
            .idx
            .fns
            .iter()
            .filter(|f| f.sig.ident == name && f.block.is_some())
            .filter(|f| {
                let st = f.self_ty.as_ref().map(ty_name);
                if method {
                    let has_recv = f.sig.receiver().is_some();
                    has_recv && (!recv_self && !STD_METHODS.contains(&name) || recv_self && (st.is_some() && st == myself || st.is_none() && f.trait_.is_some()))
                }
                else {
                    match qual {
                        None => st.is_none() && f.trait_.is_none(),
                        Some("Self") => st == myself && st.is_some() || st.is_none() && f.trait_ == mytrait && f.trait_.is_some(),
                        Some(q) if q.starts_with(|c: char| c.is_uppercase()) => st.as_deref() == Some(q),
                        Some(q) => st.is_none() && f.trait_.is_none() && f.modpath.ends_with(q) || matches!(q, "super" | "crate" | "self") && st.is_none() && f.trait_.is_none(),
                    }
                }
            })
            .collect();
        if method && c.len() > 1 {
            let own: Vec<&FnEntry> = c.iter().copied().filter(|f| recv_self && f.self_ty.is_some()).collect();
            if !own.is_empty() {
                c = own;
            }
            // which of several implementations of a trait's method (or its provided one) runs depends on the receiver's type
            else if c.iter().any(|f| f.trait_.is_some() && c.iter().filter(|g| g.trait_ == f.trait_).count() > 1) {
                return None;
            }
        }
        if c.len() > 1 {
            let same: Vec<&FnEntry> = c.iter().copied().filter(|f| f.modpath == self.f.modpath || f.modpath.starts_with(&self.f.modpath)).collect();
            if !same.is_empty() {
                c = same;
            }
        }
        if c.len() > 1 {
            let same: Vec<&FnEntry> = c.iter().copied().filter(|f| f.trait_.is_none()).collect();
            if !same.is_empty() {
                c = same;
            }
        }
        if c.len() == 1 {
            Some(c[0])
        }
        else {
            None
        }
    }

    fn resolve_call(
        &self,
        e: &Expr,
    ) -> Option<&'a FnEntry>
    {
        match e {
            Expr::Paren(p) => self.resolve_call(&p.expr),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.len();
                    let name = p.path.segments[n - 1].ident.to_string();
                    let name = name.strip_prefix("vx_tail__").unwrap_or(&name).to_string();
                    let q = if n >= 2 { Some(p.path.segments[n - 2].ident.to_string()) } else { None };
                    if p.qself.is_some() || name.starts_with(|c: char| c.is_uppercase()) {
                        return None;
                    }
                    self.resolve(&name, q.as_deref(), false, false)
                }
                else {
                    None
                }
            },
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let name = name.strip_prefix("vx_tail__").unwrap_or(&name).to_string();
                let s = ident_of(strip_ref(&m.receiver)).is_some_and(|n| n == "self" || n == "vx_self");
                self.resolve(&name, None, true, s)
            },
            _ => None,
        }
    }

    fn inline(
        &mut self,
        callee: &'a FnEntry,
        recv: Option<Expr>,
        args: Vec<Expr>,
        tail: bool,
    ) -> Expr
    {
        let id = format!("{} in {}", callee.key, callee.modpath);
        if self.stack.contains(&id) || self.stack.len() > 6 {
            fail("UNSUPPORTED", &format!("recursive helper {id}"));
        }
        let mut sub = Tx {
            idx: self.idx,
            u: self.u,
            f: callee,
            ghost: self.ghost.clone(),
            fresh: self.fresh,
            stack: self.stack.iter().cloned().chain([id.clone()]).collect(),
            inlined: vec![],
            tail,
        };
        let mut block = callee.block.clone().unwrap();
        sub.run(&mut block);
        self.fresh = sub.fresh;
        self.inlined.push(id.clone());
        self.inlined.append(&mut sub.inlined);
        // canonical type parameter names, `Self` of another type
        let mut map = generic_map(self.u, callee);
        let st = callee.self_ty.as_ref().map(ty_name);
        if st != self.f.self_ty.as_ref().map(ty_name) {
            if let Some(s) = &st {
                let i = Ident::new(s, Span::call_site());
                map.insert("Self".into(), quote!(#i));
            }
        }
        // The caller's body is renamed later with the caller's map; undo what that would do here.
        let block: Block = parse2(rename_idents(block.to_token_stream(), &map)).unwrap_or_else(|e| fail("INTERNAL", &e.to_string()));
        // bind the parameters
        let mut al = Alpha { scopes: vec![HashMap::new()], n: &mut self.fresh };
        let mut pre: Vec<Stmt> = vec![];
        let mut subst: Vec<(String, Expr)> = vec![];
        let mut argv = args.into_iter();
        for inp in &callee.sig.inputs {
            match inp {
                FnArg::Receiver(r) => {
                    let e = match (&recv, r.reference.is_some()) {
                        (Some(e), _) => e.clone(),
                        (None, _) => argv.next().unwrap_or_else(|| fail("UNSUPPORTED", &id)),
                    };
                    let by_ref = r.reference.is_some();
                    if by_ref && is_place(strip_ref(&e)) {
                        subst.push(("self".into(), e));
                    }
                    else {
                        al.bump();
                        let n = format_ident!("vx_recv{}", *al.n);
                        let m = &r.mutability;
                        let init = if by_ref && recv.is_some() {
                            if r.mutability.is_some() { parse_quote!(&mut #e) } else { parse_quote!(&#e) }
                        }
                        else {
                            e
                        };
                        let mt = if by_ref { None } else { m.as_ref() };
                        pre.push(let_stmt(quote!(#mt #n), None, &init));
                        subst.push(("self".into(), parse_quote!(#n)));
                    }
                },
                FnArg::Typed(t) => {
                    let a = argv.next().unwrap_or_else(|| fail("UNSUPPORTED", &format!("arguments of {id}")));
                    let simple = match &*t.pat {
                        Pat::Ident(p) if p.mutability.is_none() && p.by_ref.is_none() && p.subpat.is_none() => Some(p.ident.to_string()),
                        _ => None,
                    };
                    let trivial = match &a {
                        Expr::Path(_) => ident_of(&a).is_some(),
                        Expr::Reference(r) => is_place(&r.expr),
                        Expr::Lit(_) => true,
                        _ => false,
                    };
                    match simple {
                        Some(n) if trivial => subst.push((n, a)),
                        _ => {
                            let mut p = (*t.pat).clone();
                            arrays_pat(&mut p);
                            al.bind(&mut p);
                            pre.push(let_stmt(p.to_token_stream(), None, &a));
                        },
                    }
                },
            }
        }
        let mut block = block;
        for (n, _) in &subst {
            let marker = format!("vx_arg_{n}");
            al.scopes[0].insert(n.clone(), marker);
        }
        al.visit_block_mut(&mut block);
        let mut sb = Subst(subst.into_iter().map(|(n, e)| (format!("vx_arg_{n}"), e)).collect());
        sb.visit_block_mut(&mut block);
        if !tail && block.stmts.iter().any(has_return) {
            block = mk_block(self.elim(block.stmts));
        }
        // an owned result type helps inference
        if pre.is_empty() && block.stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &block.stmts[0] {
                return paren(e.clone());
            }
        }
        pre.extend(block.stmts);
        mk_block_expr(pre)
    }

    /// rewrite statements so that they have the value that the function would return, with no
    /// `return` left
    fn elim(
        &mut self,
        stmts: Vec<Stmt>,
    ) -> Vec<Stmt>
    {
        let mut out = vec![];
        let mut it = stmts.into_iter();
        while let Some(s) = it.next() {
            if !has_return(&s) {
                out.push(s);
                continue;
            }
            let rest: Vec<Stmt> = it.collect();
            match s {
                Stmt::Expr(e, semi) => {
                    let is_tail = rest.is_empty() && semi.is_none();
                    self.elim_expr(e, None, rest, is_tail, &mut out);
                },
                Stmt::Local(l) => {
                    let (pat, init) = match (l.pat, l.init) {
                        (p, Some(LocalInit { expr, diverge: None, .. })) => (p, *expr),
                        (p, Some(LocalInit { expr, diverge: Some((_, d)), .. })) => {
                            // let P = E else { D }: bind the names through a match
                            let e: Expr = parse_quote!(match #expr { #p => {}, _ => #d });
                            if let Expr::Match(mut m) = e {
                                m.arms[0].body = Box::new(mk_block_expr(self.elim(rest)));
                                let b = std::mem::replace(&mut *m.arms[1].body, Expr::Verbatim(TokenStream::new()));
                                m.arms[1].body = Box::new(mk_block_expr(self.elim(into_stmts(b))));
                                out.push(Stmt::Expr(Expr::Match(m), None));
                            }
                            return out;
                        },
                        _ => fail("UNSUPPORTED", "return in a declaration"),
                    };
                    self.elim_expr(init, Some(pat), rest, false, &mut out);
                },
                _ => fail("UNSUPPORTED", "early return in a helper"),
            }
            return out;
        }
        out
    }

    /// `e` contains a `return`; its value is bound to `pat` (or dropped, or the value of the whole
    /// when `is_tail`) and then `rest` follows
    fn elim_expr(
        &mut self,
        e: Expr,
        pat: Option<Pat>,
        rest: Vec<Stmt>,
        is_tail: bool,
        out: &mut Vec<Stmt>,
    )
    {
        let cont = |tx: &mut Self, v: Expr| -> Vec<Stmt> {
            // the value `v` (a branch) followed by the rest
            let mut st = vec![];
            if !has_return(&v) && is_tail {
                st = into_stmts(v);
                return st;
            }
            if has_return(&v) {
                tx.elim_expr(v, pat.clone(), rest.clone(), is_tail, &mut st);
                return st;
            }
            if diverges(&v) {
                st.extend(into_stmts(v));
                return st;
            }
            match &pat {
                Some(p) => st.push(let_stmt(p.to_token_stream(), None, &v)),
                None => st.push(Stmt::Expr(v, Some(Default::default()))),
            }
            st.extend(tx.elim(rest.clone()));
            st
        };
        match e {
            Expr::Return(r) => {
                let v = r.expr.map_or_else(|| parse_quote!(()), |e| *e);
                if has_return(&v) {
                    self.elim_expr(v, None, vec![], true, out);
                }
                else {
                    out.push(Stmt::Expr(v, None));
                }
            },
            Expr::Paren(p) => self.elim_expr(*p.expr, pat, rest, is_tail, out),
            Expr::Block(b) if b.label.is_none() => {
                // names are unique, so the block can be opened
                let mut st = b.block.stmts;
                match st.pop() {
                    Some(Stmt::Expr(last, None)) => {
                        if has_return(&last) {
                            let mut inner = vec![];
                            self.elim_expr(last, pat, rest, is_tail, &mut inner);
                            st.extend(inner);
                        }
                        else {
                            st.extend(cont(self, last));
                        }
                    },
                    Some(last) => {
                        st.push(last);
                        if !is_tail {
                            if pat.is_some() && !st.iter().any(has_return) {
                                fail("UNSUPPORTED", "value of a block");
                            }
                            st.extend(rest);
                        }
                    },
                    None => st.extend(rest),
                }
                out.extend(self.elim(st));
            },
            Expr::If(mut i) => {
                if has_return(&*i.cond) {
                    let mut hoisted = vec![];
                    let c = (*i.cond).clone();
                    *i.cond = self.hoist(c, &mut hoisted);
                    let tail_stmt = match pat {
                        Some(p) => let_stmt(p.to_token_stream(), None, &Expr::If(i)),
                        None => Stmt::Expr(Expr::If(i), if is_tail { None } else { Some(Default::default()) }),
                    };
                    hoisted.push(tail_stmt);
                    hoisted.extend(rest);
                    out.extend(self.elim(hoisted));
                    return;
                }
                let t = mk_block_expr(i.then_branch.stmts.clone());
                let e = i.else_branch.take().map_or_else(|| parse_quote!({}), |(_, e)| *e);
                let t2 = cont(self, t);
                let e2 = cont(self, e);
                i.then_branch = mk_block(t2);
                i.else_branch = Some((Default::default(), Box::new(mk_block_expr(e2))));
                out.push(Stmt::Expr(Expr::If(i), None));
            },
            Expr::Match(mut m) => {
                if has_return(&*m.expr) {
                    let mut hoisted = vec![];
                    let c = (*m.expr).clone();
                    *m.expr = self.hoist(c, &mut hoisted);
                    let tail_stmt = match pat {
                        Some(p) => let_stmt(p.to_token_stream(), None, &Expr::Match(m)),
                        None => Stmt::Expr(Expr::Match(m), if is_tail { None } else { Some(Default::default()) }),
                    };
                    hoisted.push(tail_stmt);
                    hoisted.extend(rest);
                    out.extend(self.elim(hoisted));
                    return;
                }
                for a in &mut m.arms {
                    let b = (*a.body).clone();
                    a.body = Box::new(mk_block_expr(cont(self, b)));
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
            },
            other => {
                let mut hoisted = vec![];
                let e = self.hoist(other, &mut hoisted);
                if hoisted.is_empty() {
                    fail("UNSUPPORTED", &format!("early return in a helper: {}", toks(&e)));
                }
                let tail_stmt = match pat {
                    Some(p) => let_stmt(p.to_token_stream(), None, &e),
                    None => Stmt::Expr(e, if is_tail { None } else { Some(Default::default()) }),
                };
                hoisted.push(tail_stmt);
                hoisted.extend(rest);
                out.extend(self.elim(hoisted));
            },
        }
    }

    /// take the first-evaluated part that contains a `return` out into a `let`
    fn hoist(
        &mut self,
        e: Expr,
        out: &mut Vec<Stmt>,
    ) -> Expr
    {
        fn pure(e: &Expr) -> bool
        {
            matches!(e, Expr::Path(_) | Expr::Lit(_)) || is_place(e) || matches!(e, Expr::Reference(r) if is_place(&r.expr))
        }
        if !has_return(&e) {
            return e;
        }
        match e {
            Expr::Match(_) | Expr::If(_) | Expr::Block(_) => {
                let n = self.name("h");
                out.push(let_stmt(quote!(#n), None, &e));
                parse_quote!(#n)
            },
            Expr::Paren(p) => {
                let i = self.hoist(*p.expr, out);
                paren(i)
            },
            Expr::Binary(mut b) if has_return(&*b.left) => {
                b.left = Box::new(self.hoist(*b.left, out));
                if has_return(&*b.right) {
                    fail("UNSUPPORTED", "two early returns in an expression");
                }
                Expr::Binary(b)
            },
            Expr::Binary(mut b) if pure(&b.left) && !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => {
                b.right = Box::new(self.hoist(*b.right, out));
                Expr::Binary(b)
            },
            Expr::Unary(mut x) => {
                x.expr = Box::new(self.hoist(*x.expr, out));
                Expr::Unary(x)
            },
            Expr::Reference(mut x) => {
                x.expr = Box::new(self.hoist(*x.expr, out));
                Expr::Reference(x)
            },
            Expr::Assign(mut a) => {
                a.right = Box::new(self.hoist(*a.right, out));
                Expr::Assign(a)
            },
            Expr::Call(mut c) => {
                for i in 0 .. c.args.len() {
                    if has_return(&c.args[i]) {
                        let a = c.args[i].clone();
                        c.args[i] = self.hoist(a, out);
                        break;
                    }
                    if !pure(&c.args[i]) {
                        fail("UNSUPPORTED", "early return in an argument");
                    }
                }
                Expr::Call(c)
            },
            Expr::MethodCall(mut c) => {
                if has_return(&*c.receiver) {
                    c.receiver = Box::new(self.hoist(*c.receiver, out));
                    return Expr::MethodCall(c);
                }
                if !pure(&c.receiver) {
                    fail("UNSUPPORTED", "early return in an argument");
                }
                for i in 0 .. c.args.len() {
                    if has_return(&c.args[i]) {
                        let a = c.args[i].clone();
                        c.args[i] = self.hoist(a, out);
                        break;
                    }
                    if !pure(&c.args[i]) {
                        fail("UNSUPPORTED", "early return in an argument");
                    }
                }
                Expr::MethodCall(c)
            },
            e => fail("UNSUPPORTED", &format!("early return in a helper: {}", toks(&e))),
        }
    }

    fn run(
        &mut self,
        b: &mut Block,
    )
    {
        Strip.visit_block_mut(b);
        if self.tail {
            self.mark_tail_block(b);
        }
        self.visit_block_mut(b);
        let mut l = LoopVal { n: &mut self.fresh };
        if self.tail {
            l.tail_block(b);
        }
        l.visit_block_mut(b);
    }

    fn mark_tail_block(
        &mut self,
        b: &mut Block,
    )
    {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.mark_tail(e);
        }
    }

    fn mark_tail(
        &mut self,
        e: &mut Expr,
    )
    {
        match e {
            Expr::Paren(p) => self.mark_tail(&mut p.expr),
            Expr::Block(b) => self.mark_tail_block(&mut b.block),
            Expr::If(i) => {
                self.mark_tail_block(&mut i.then_branch);
                if let Some((_, e)) = &mut i.else_branch {
                    self.mark_tail(e);
                }
            },
            Expr::Match(m) =>
                for a in &mut m.arms {
                    self.mark_tail(&mut a.body);
                },
            Expr::Return(r) =>
                if let Some(e) = &mut r.expr {
                    self.mark_tail(e);
                },
            Expr::Call(_) | Expr::MethodCall(_) =>
                if self.resolve_call(e).is_some() {
                    match e {
                        Expr::Call(c) =>
                            if let Expr::Path(p) = &mut *c.func {
                                let l = p.path.segments.last_mut().unwrap();
                                l.ident = format_ident!("vx_tail__{}", l.ident);
                            },
                        Expr::MethodCall(m) => m.method = format_ident!("vx_tail__{}", m.method),
                        _ => (),
                    }
                },
            _ => (),
        }
    }

    /// is it an `Option` (true) or a `Result` (false)?
    fn carrier(
        &self,
        e: &Expr,
    ) -> Option<bool>
    {
        fn of_type(t: &Type) -> Option<bool>
        {
            match t {
                Type::Reference(r) => of_type(&r.elem),
                Type::Path(p) => match p.path.segments.last()?.ident.to_string().as_str() {
                    "Option" => Some(true),
                    "Result" => Some(false),
                    _ => None,
                },
                _ => None,
            }
        }
        match strip_ref(e) {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    match p.path.segments.last()?.ident.to_string().as_str() {
                        "Some" => return Some(true),
                        "Ok" | "Err" | "do_edges" | "do_traverse" | "recur" => return Some(false),
                        _ => (),
                    }
                }
                self.resolve_call(e).and_then(|f| match &f.sig.output {
                    ReturnType::Type(_, t) => of_type(t),
                    ReturnType::Default => None,
                })
            },
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "get_edge" | "increment" | "pop" | "pop_front" | "pop_back" | "last" | "last_mut" | "front" | "front_mut" | "back" | "back_mut" | "first" | "get"
                | "get_mut" | "take" | "ok" | "err" | "filter" | "zip" | "then_some" | "next" | "next_no_adv" | "get_next" | "next_subiter_as_mut" | "next_subiter"
                | "checked_sub" | "checked_add" | "checked_mul" => Some(true),
                "map_err" | "ok_or" | "ok_or_else" | "do_edges" | "do_traverse" | "recur" => Some(false),
                "map" | "and_then" | "or" | "or_else" | "and" | "as_ref" | "as_mut" | "copied" | "cloned" | "inspect" => self.carrier(&m.receiver),
                "then" if m.args.first().is_some_and(|a| matches!(a, Expr::Closure(_))) => Some(true),
                _ => self.resolve_call(e).and_then(|f| match &f.sig.output {
                    ReturnType::Type(_, t) => of_type(t),
                    ReturnType::Default => None,
                }),
            },
            Expr::Path(p) => {
                let n = p.path.get_ident()?.to_string();
                if n == "None" {
                    return Some(true);
                }
                self.f.sig.inputs.iter().find_map(|a| match a {
                    FnArg::Typed(t) => match &*t.pat {
                        Pat::Ident(i) if i.ident == n => of_type(&t.ty),
                        _ => None,
                    },
                    FnArg::Receiver(_) => None,
                })
            },
            Expr::Field(f) => match &f.member {
                Member::Named(n) => {
                    let found: Vec<_> = self
                        .idx
                        .items
                        .iter()
                        .filter_map(|i| if let Item::Struct(s) = &i.item { Some(s) } else { None })
                        .flat_map(|s| s.fields.iter())
                        .filter(|x| x.ident.as_ref() == Some(n))
                        .map(|x| of_type(&x.ty))
                        .collect();
                    match found.first() {
                        Some(k) if found.iter().all(|x| x == k) => *k,
                        _ => None,
                    }
                },
                Member::Unnamed(_) => None,
            },
            _ => None,
        }
    }

    /// pattern and value of applying a closure or a function to the value v
    fn applied(
        &mut self,
        f: &Expr,
        v: &Ident,
    ) -> Option<(Pat, Expr)>
    {
        if let Expr::Closure(c) = f {
            if has_return(&*c.body) || has_try(&c.body) {
                fail("UNSUPPORTED", &format!("closure {}", toks(f)));
            }
            if c.inputs.is_empty() {
                return Some((parse_quote!(_), (*c.body).clone()));
            }
        }
        self.err_conv(f, v)
    }

    /// rewrites a combinator of `Option`, `Result` or `bool` that is given a closure to a `match`
    fn combinator(
        &mut self,
        e: &mut Expr,
    ) -> bool
    {
        let Expr::MethodCall(m) = e else { return false };
        let name = m.method.to_string();
        if name == "cloned" && m.args.is_empty() && self.u.known.contains("clone") {
            let (x, v) = ((*m.receiver).clone(), self.name("v"));
            *e = parse_quote!(match #x { Some(#v) => Some(#v.clone()), None => None });
            return true;
        }
        if !m.args.iter().any(|a| matches!(a, Expr::Closure(_) | Expr::Path(_))) || name == "map_err" {
            return false;
        }
        let clo = m.args.iter().any(|a| matches!(a, Expr::Closure(_)));
        let x = (*m.receiver).clone();
        let a: Vec<Expr> = m.args.iter().cloned().collect();
        let v = self.name("v");
        let k = match (name.as_str(), a.len()) {
            ("then", 1) if clo => {
                let Some((_, b)) = self.applied(&a[0], &v) else { return false };
                *e = parse_quote!(if #x { Some(#b) } else { None });
                return true;
            },
            ("is_some_and" | "is_none_or" | "filter" | "ok_or_else", 1) => Some(true),
            ("is_ok_and" | "is_err_and", 1) => Some(false),
            ("or_else" | "unwrap_or_else", 1) if clo => Some(matches!(&a[0], Expr::Closure(c) if c.inputs.is_empty())),
            ("map" | "and_then" | "or_else" | "unwrap_or_else", 1) | ("map_or" | "map_or_else", 2) => self.carrier(&x),
            _ => return false,
        };
        let Some(k) = k else {
            if clo {
                fail("UNSUPPORTED", &format!("closure given to {name}"));
            }
            return false;
        };
        let w = self.name("e");
        let Some((p, b)) = self.applied(a.last().unwrap(), &v) else { return false };
        let g = if a.len() == 2 && name == "map_or_else" { self.applied(&a[0], &w) } else { None };
        *e = match (name.as_str(), k) {
            ("map", true) => parse_quote!(match #x { Some(#p) => Some(#b), None => None }),
            ("map", false) => parse_quote!(match #x { Ok(#p) => Ok(#b), Err(#w) => Err(#w) }),
            ("and_then", true) => parse_quote!(match #x { Some(#p) => #b, None => None }),
            ("and_then", false) => parse_quote!(match #x { Ok(#p) => #b, Err(#w) => Err(#w) }),
            ("or_else", true) => parse_quote!(match #x { Some(#w) => Some(#w), None => #b }),
            ("or_else", false) => parse_quote!(match #x { Ok(#w) => Ok(#w), Err(#p) => #b }),
            ("unwrap_or_else", true) => parse_quote!(match #x { Some(#w) => #w, None => #b }),
            ("unwrap_or_else", false) => parse_quote!(match #x { Ok(#w) => #w, Err(#p) => #b }),
            ("ok_or_else", _) => parse_quote!(match #x { Some(#w) => Ok(#w), None => Err(#b) }),
            ("is_some_and", _) => parse_quote!(match #x { Some(#p) => #b, None => false }),
            ("is_none_or", _) => parse_quote!(match #x { Some(#p) => #b, None => true }),
            ("is_ok_and", _) => parse_quote!(match #x { Ok(#p) => #b, Err(_) => false }),
            ("is_err_and", _) => parse_quote!(match #x { Err(#p) => #b, Ok(_) => false }),
            ("filter", _) => parse_quote!(match #x { Some(#w) => { let vx_keep = { let #p = &#w; #b }; if vx_keep { Some(#w) } else { None } }, None => None }),
            ("map_or", _) => {
                let d = &a[0];
                let (some, none): (Pat, Pat) = if k { (parse_quote!(Some(#p)), parse_quote!(None)) } else { (parse_quote!(Ok(#p)), parse_quote!(Err(_))) };
                parse_quote!({ let vx_opt = #x; let vx_or = #d; match vx_opt { #some => #b, #none => vx_or } })
            },
            ("map_or_else", _) => {
                let Some((gp, gb)) = g else { return false };
                let (some, none): (Pat, Pat) = if k { (parse_quote!(Some(#p)), parse_quote!(None)) } else { (parse_quote!(Ok(#p)), parse_quote!(Err(#gp))) };
                parse_quote!(match #x { #some => #b, #none => #gb })
            },
            _ => return false,
        };
        true
    }

    fn err_conv(
        &mut self,
        f: &Expr,
        v: &Ident,
    ) -> Option<(Pat, Expr)>
    {
        // how an error is converted by `map_err(F)`: pattern and value
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                Some((p, (*c.body).clone()))
            },
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let pt: Pat = parse_quote!(#v);
                if n == "into" || n == "from" {
                    let q = if n == "from" && p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident != "From" {
                        let mut q = p.path.clone();
                        q.segments.pop();
                        let last = q.segments.pop().unwrap().into_value();
                        q.segments.push(last);
                        Some(q)
                    }
                    else {
                        None
                    };
                    let e: Expr = match q {
                        Some(q) => parse_quote!(VxInto::<#q>::vx_into(#v)),
                        None => parse_quote!(VxInto::vx_into(#v)),
                    };
                    return Some((pt, e));
                }
                Some((pt, parse_quote!(#p(#v))))
            },
            _ => None,
        }
    }
}

fn is_int(t: &str) -> bool
{
    ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].contains(&t)
}

fn last_arg(t: &Type) -> Option<String>
{
    if let Type::Path(p) = t {
        if let PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments {
            return a.args.last().map(toks);
        }
    }
    None
}

fn diverges(e: &Expr) -> bool
{
    match e {
        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
        Expr::Call(_) => is_path_call(e, &["vx_panic"]).is_some(),
        Expr::Block(b) => b.block.stmts.iter().any(|s| match s {
            Stmt::Expr(e, _) => diverges(e),
            _ => false,
        }),
        _ => false,
    }
}
fn into_stmts(e: Expr) -> Vec<Stmt>
{
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts,
        e => vec![Stmt::Expr(e, None)],
    }
}

struct Subst(HashMap<String, Expr>);
impl VisitMut for Subst
{
    fn visit_expr_mut(
        &mut self,
        e: &mut Expr,
    )
    {
        if let Some(n) = ident_of(e) {
            if let Some(x) = self.0.get(&n) {
                *e = paren(x.clone());
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // `&(&x)`, `*(&x)` made by the substitution
        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
            if let Expr::Paren(p) = &**expr {
                if let Expr::Reference(r) = &*p.expr {
                    *e = (*r.expr).clone();
                }
            }
        }
    }

    fn visit_expr_method_call_mut(
        &mut self,
        m: &mut ExprMethodCall,
    )
    {
        visit_mut::visit_expr_method_call_mut(self, m);
        // `(&x).f()`, `(&mut x).f()` are `x.f()`
        if let Expr::Paren(p) = &*m.receiver {
            if let Expr::Reference(r) = &*p.expr {
                *m.receiver = (*r.expr).clone();
            }
        }
    }

    fn visit_expr_field_mut(
        &mut self,
        m: &mut ExprField,
    )
    {
        visit_mut::visit_expr_field_mut(self, m);
        if let Expr::Paren(p) = &*m.base {
            if let Expr::Reference(r) = &*p.expr {
                *m.base = (*r.expr).clone();
            }
        }
    }
}

/// gives every local variable a unique name
struct Alpha<'n>
{
    scopes: Vec<HashMap<String, String>>,
    n:      &'n mut usize,
}
impl Alpha<'_>
{
    fn bump(&mut self)
    {
        *self.n += 1;
    }

    fn get(
        &self,
        n: &str,
    ) -> Option<String>
    {
        self.scopes.iter().rev().find_map(|s| s.get(n).cloned())
    }

    fn bind(
        &mut self,
        p: &mut Pat,
    )
    {
        *self.n += 1;
        let suffix = *self.n;
        struct V<'s>
        {
            scope:  &'s mut HashMap<String, String>,
            suffix: usize,
        }
        impl VisitMut for V<'_>
        {
            fn visit_pat_ident_mut(
                &mut self,
                p: &mut PatIdent,
            )
            {
                let n = p.ident.to_string();
                if n.starts_with(|c: char| c.is_lowercase() || c == '_') {
                    let new = format!("{n}_{}", self.suffix);
                    p.ident = Ident::new(&new, Span::call_site());
                    self.scope.insert(n, new);
                }
                visit_mut::visit_pat_ident_mut(self, p);
            }

            fn visit_field_pat_mut(
                &mut self,
                f: &mut FieldPat,
            )
            {
                if f.colon_token.is_none() {
                    f.colon_token = Some(Default::default());
                }
                visit_mut::visit_field_pat_mut(self, f);
            }
        }
        V { scope: self.scopes.last_mut().unwrap(), suffix }.visit_pat_mut(p);
    }
}
impl VisitMut for Alpha<'_>
{
    fn visit_block_mut(
        &mut self,
        b: &mut Block,
    )
    {
        self.scopes.push(HashMap::new());
        for s in &mut b.stmts {
            match s {
                Stmt::Local(l) => {
                    if let Some(i) = &mut l.init {
                        self.visit_expr_mut(&mut i.expr);
                        if let Some((_, d)) = &mut i.diverge {
                            self.visit_expr_mut(d);
                        }
                    }
                    self.bind(&mut l.pat);
                },
                s => self.visit_stmt_mut(s),
            }
        }
        self.scopes.pop();
    }

    fn visit_arm_mut(
        &mut self,
        a: &mut Arm,
    )
    {
        self.scopes.push(HashMap::new());
        self.bind(&mut a.pat);
        if let Some((_, g)) = &mut a.guard {
            self.visit_expr_mut(g);
        }
        self.visit_expr_mut(&mut a.body);
        self.scopes.pop();
    }

    fn visit_expr_if_mut(
        &mut self,
        i: &mut ExprIf,
    )
    {
        self.scopes.push(HashMap::new());
        self.visit_expr_mut(&mut i.cond);
        self.visit_block_mut(&mut i.then_branch);
        self.scopes.pop();
        if let Some((_, e)) = &mut i.else_branch {
            self.visit_expr_mut(e);
        }
    }

    fn visit_expr_let_mut(
        &mut self,
        l: &mut ExprLet,
    )
    {
        self.visit_expr_mut(&mut l.expr);
        self.bind(&mut l.pat);
    }

    fn visit_expr_closure_mut(
        &mut self,
        c: &mut ExprClosure,
    )
    {
        self.scopes.push(HashMap::new());
        for p in &mut c.inputs {
            self.bind(p);
        }
        self.visit_expr_mut(&mut c.body);
        self.scopes.pop();
    }

    fn visit_expr_mut(
        &mut self,
        e: &mut Expr,
    )
    {
        if let Some(n) = ident_of(e) {
            if let Some(x) = self.get(&n) {
                let i = Ident::new(&x, Span::call_site());
                *e = parse_quote!(#i);
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_field_value_mut(
        &mut self,
        f: &mut FieldValue,
    )
    {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
}

fn arrays_pat(p: &mut Pat)
{
    struct V;
    impl VisitMut for V
    {
        fn visit_pat_mut(
            &mut self,
            p: &mut Pat,
        )
        {
            visit_mut::visit_pat_mut(self, p);
            if let Pat::Slice(s) = p {
                let e = &s.elems;
                *p = Pat::Tuple(PatTuple { attrs: vec![], paren_token: Default::default(), elems: e.clone() });
            }
        }
    }
    V.visit_pat_mut(p);
}

/// `loop { break v }` as a value
struct LoopVal<'n>
{
    n: &'n mut usize,
}
struct BreakVals<'m>
{
    mode:  &'m dyn Fn(Expr) -> Vec<Stmt>,
    found: bool,
}
impl VisitMut for BreakVals<'_>
{
    fn visit_expr_mut(
        &mut self,
        e: &mut Expr,
    )
    {
        match e {
            Expr::Loop(_) | Expr::Closure(_) => (),
            Expr::Break(b) if b.expr.is_some() && b.label.is_none() => {
                self.found = true;
                let v = *b.expr.take().unwrap();
                let st = (self.mode)(v);
                *e = if st.len() == 1 {
                    match st.into_iter().next().unwrap() {
                        Stmt::Expr(e, _) => e,
                        s => mk_block_expr(vec![s]),
                    }
                }
                else {
                    mk_block_expr(st)
                };
            },
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
}
impl LoopVal<'_>
{
    fn tail_block(
        &mut self,
        b: &mut Block,
    )
    {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }

    fn tail(
        &mut self,
        e: &mut Expr,
    )
    {
        match e {
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, e)) = &mut i.else_branch {
                    self.tail(e);
                }
            },
            Expr::Match(m) =>
                for a in &mut m.arms {
                    self.tail(&mut a.body);
                },
            Expr::Loop(l) => {
                let f = |v: Expr| -> Vec<Stmt> { vec![Stmt::Expr(parse_quote!(return #v), None)] };
                BreakVals { mode: &f, found: false }.visit_block_mut(&mut l.body);
            },
            _ => (),
        }
    }
}
impl VisitMut for LoopVal<'_>
{
    fn visit_expr_mut(
        &mut self,
        e: &mut Expr,
    )
    {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Loop(l) = e {
            *self.n += 1;
            let n = format_ident!("vx_l{}", *self.n);
            let n2 = n.clone();
            let f = move |v: Expr| -> Vec<Stmt> { vec![parse_quote!(#n2 = #v;), parse_quote!(break;)] };
            let mut bv = BreakVals { mode: &f, found: false };
            bv.visit_block_mut(&mut l.body);
            if bv.found {
                let l = Expr::Loop(l.clone());
                *e = parse_quote!({ let #n; #l #n });
            }
        }
    }
}

impl VisitMut for Tx<'_>
{
    fn visit_type_mut(
        &mut self,
        t: &mut Type,
    )
    {
        visit_mut::visit_type_mut(self, t);
        norm_type(t);
    }

    fn visit_pat_mut(
        &mut self,
        p: &mut Pat,
    )
    {
        visit_mut::visit_pat_mut(self, p);
        arrays_pat(p);
        if let Pat::TupleStruct(t) = p {
            norm_path(&mut t.path);
        }
        if let Pat::Struct(t) = p {
            norm_path(&mut t.path);
        }
        if let Pat::Path(t) = p {
            norm_path(&mut t.path);
        }
    }

    fn visit_field_pat_mut(
        &mut self,
        f: &mut FieldPat,
    )
    {
        if let Member::Named(n) = &f.member {
            if let Some(c) = self.u.fieldmap.get(&n.to_string()) {
                f.colon_token = Some(Default::default());
                f.member = Member::Named(Ident::new(c, n.span()));
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }

    fn visit_field_value_mut(
        &mut self,
        f: &mut FieldValue,
    )
    {
        if let Member::Named(n) = &f.member {
            if let Some(c) = self.u.fieldmap.get(&n.to_string()) {
                f.colon_token = Some(Default::default());
                f.member = Member::Named(Ident::new(c, n.span()));
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }

    fn visit_expr_mut(
        &mut self,
        e: &mut Expr,
    )
    {
        // ---- before the parts
        if self.combinator(e) {
            return self.visit_expr_mut(e);
        }
        match e {
            Expr::Try(t) => {
                let v = self.name("v");
                let r = self.name("e");
                if self.returns_option() {
                    let x = &t.expr;
                    *e = parse_quote!(match #x { Some(#v) => #v, None => return None });
                    return self.visit_expr_mut(e);
                }
                if let Expr::MethodCall(m) = &*t.expr {
                    if m.method == "map_err" && m.args.len() == 1 {
                        if let Some((p, c)) = self.err_conv(&m.args[0], &r) {
                            let x = &m.receiver;
                            // `?` converts once more: with the same type, that is the identity
                            *e = parse_quote!(match #x { Ok(#v) => #v, Err(#p) => return Err(#c) });
                            return self.visit_expr_mut(e);
                        }
                    }
                }
                let same = match &*t.expr {
                    Expr::Call(_) | Expr::MethodCall(_) => self
                        .resolve_call(&t.expr)
                        .and_then(|f| match &f.sig.output {
                            ReturnType::Type(_, t) => last_arg(t),
                            ReturnType::Default => None,
                        })
                        .is_some_and(|t| Some(t) == self.ret_err_ty()),
                    _ => false,
                };
                let x = &t.expr;
                *e = if same {
                    parse_quote!(match #x { Ok(#v) => #v, Err(#r) => return Err(#r) })
                }
                else {
                    parse_quote!(match #x { Ok(#v) => #v, Err(#r) => return Err(VxInto::vx_into(#r)) })
                };
                return self.visit_expr_mut(e);
            },
            Expr::MethodCall(m) if m.method == "map_err" && m.args.len() == 1 => {
                let r = self.name("e");
                let v = self.name("v");
                if let Some((p, c)) = self.err_conv(&m.args[0].clone(), &r) {
                    let x = &m.receiver;
                    *e = parse_quote!(match #x { Ok(#v) => Ok(#v), Err(#p) => Err(#c) });
                    return self.visit_expr_mut(e);
                }
            },
            Expr::Assign(a) if matches!(&*a.left, Expr::Tuple(_) | Expr::Array(_)) => {
                let (parts, array): (Vec<Expr>, bool) = match &*a.left {
                    Expr::Tuple(t) => (t.elems.iter().cloned().collect(), false),
                    Expr::Array(t) => (t.elems.iter().cloned().collect(), true),
                    _ => unreachable!(),
                };
                let mut pats: Vec<Pat> = vec![];
                let mut sets: Vec<Stmt> = vec![];
                for x in parts {
                    if matches!(x, Expr::Infer(_)) {
                        pats.push(parse_quote!(_));
                        continue;
                    }
                    let n = self.name("d");
                    pats.push(parse_quote!(#n));
                    sets.push(parse_quote!(#x = #n;));
                }
                let r = &a.right;
                *e = if array { parse_quote!({ let [#(#pats),*] = #r; #(#sets)* }) } else { parse_quote!({ let (#(#pats),*) = #r; #(#sets)* }) };
                return self.visit_expr_mut(e);
            },
            Expr::Closure(_) => fail("UNSUPPORTED", &format!("closure {}", toks(e))),
            Expr::ForLoop(l) => {
                let n = format_ident!("vx_for");
                let (p, x, b, lab) = (&l.pat, &l.expr, &l.body, &l.label);
                *e = parse_quote!({ let mut #n = #x; #lab loop { match #n.next() { Some(#p) => #b, None => break } } });
                return self.visit_expr_mut(e);
            },
            Expr::While(w) => {
                let (b, lab) = (&w.body, &w.label);
                *e = match &*w.cond {
                    Expr::Let(l) => {
                        let (p, x) = (&l.pat, &l.expr);
                        parse_quote!(#lab loop { match #x { #p => #b, _ => break } })
                    },
                    c => parse_quote!(#lab loop { if #c #b else { break } }),
                };
                return self.visit_expr_mut(e);
            },
            Expr::Return(r) =>
                if self.tail {
                    if let Some(x) = &mut r.expr {
                        self.mark_tail(x);
                    }
                },
            Expr::Call(c) =>
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.len() >= 2 && matches!(p.path.segments[p.path.segments.len() - 2].ident.to_string().as_str(), "panicking" | "rt") {
                        *e = parse_quote!(vx_panic());
                        return;
                    }
                },
            _ => (),
        }
        visit_mut::visit_expr_mut(self, e);
        // ---- after the parts
        match e {
            Expr::Path(p) => {
                if p.qself.is_none() {
                    norm_path(&mut p.path);
                    // associated constants are functions
                    let n = p.path.segments.len();
                    let last = p.path.segments[n - 1].ident.to_string();
                    if n >= 2
                        && last.len() > 1
                        && last.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit())
                        && p.path.segments[n - 2].ident.to_string().starts_with(|c: char| c.is_uppercase())
                        && !p.path.segments[n - 2].ident.to_string().starts_with("NonZero")
                        && !["MIN", "MAX", "BITS"].contains(&last.as_str())
                    {
                        p.path.segments[n - 1].ident = format_ident!("vxc_{}", last);
                        let p = p.clone();
                        *e = parse_quote!(#p());
                    }
                }
            },
            Expr::Array(a) => {
                let el = &a.elems;
                let t = ExprTuple { attrs: vec![], paren_token: Default::default(), elems: el.clone() };
                *e = Expr::Tuple(t);
            },
            Expr::Index(i) =>
                if let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = &*i.index {
                    let (b, k) = (&i.expr, Index_(n.base10_parse().unwrap_or(0)));
                    let k = k.tok();
                    *e = parse_quote!(#b.#k);
                },
            Expr::Field(f) =>
                if let Member::Named(n) = &f.member {
                    if let Some(c) = self.u.fieldmap.get(&n.to_string()) {
                        f.member = Member::Named(Ident::new(c, n.span()));
                    }
                },
            Expr::Macro(m) => fail("UNSUPPORTED", &format!("macro {}", toks(&m.mac.path))),
            Expr::Struct(s) => {
                norm_path(&mut s.path);
                let tn = s.path.segments.last().unwrap().ident.to_string();
                let tn = if tn == "Self" { self.f.self_ty.as_ref().map(ty_name).unwrap_or_default() } else { tn };
                if let Some(x) = self.u.literals.get(&tn) {
                    let x: TokenStream = x.parse().unwrap();
                    let f: FieldValue = parse2(x).unwrap();
                    s.fields.push(f);
                }
            },
            Expr::Range(r) =>
                if let (RangeLimits::Closed(_), Some(b)) = (&r.limits, &r.end) {
                    *e = match &r.start {
                        Some(a) => parse_quote!(vx_range_incl(#a, #b)),
                        None => parse_quote!(vx_range_to_incl(#b)),
                    };
                },
            Expr::Match(_) => self.match_(e),
            Expr::Binary(b) => {
                // comparison of addresses
                if let (BinOp::Eq(_) | BinOp::Ne(_), Expr::MethodCall(x), Expr::MethodCall(y)) = (&b.op, &*b.left, &*b.right) {
                    if x.method == "as_ptr" && y.method == "as_ptr" && self.u.known.contains("same_place") {
                        let (p, q) = (&x.receiver, &y.receiver);
                        let neg = matches!(b.op, BinOp::Ne(_));
                        *e = if neg { parse_quote!(!Rc::same_place(#p, #q)) } else { parse_quote!(Rc::same_place(#p, #q)) };
                    }
                }
            },
            Expr::Call(_) => self.call(e),
            Expr::MethodCall(_) => self.method(e),
            _ => (),
        }
    }
}
struct Index_(u32);
impl Index_
{
    fn tok(&self) -> syn::Index
    {
        syn::Index { index: self.0, span: Span::call_site() }
    }
}

fn norm_path(p: &mut Path)
{
    // strip module prefixes; keep `mem::` as core's
    p.leading_colon = None;
    let n = p.segments.len();
    if n >= 3 && p.segments[1].ident == "rc" && p.segments[2].ident == "Rc" && (p.segments[0].ident == "alloc" || p.segments[0].ident == "std") {
        p.segments[2].ident = Ident::new("StdRc", Span::call_site());
    }
    // `u16::MAX`, `i16::try_from`: the last two segments
    let prim = |s: &str| matches!(s, "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize" | "bool");
    if n >= 2 && prim(&p.segments[n - 2].ident.to_string()) {
        p.segments = p.segments.iter().skip(n - 2).cloned().collect();
        return;
    }
    if n >= 2 {
        let first = p.segments.iter().position(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase()));
        match first {
            Some(0) => (),
            Some(i) => p.segments = p.segments.iter().skip(i).cloned().collect(),
            None => {
                let l = p.segments.last().unwrap().clone();
                let m = p.segments[n - 2].ident.to_string();
                if m == "mem" {
                    let id = &l;
                    *p = parse_quote!(core::mem::#id);
                }
                else if m == "ptr" {
                    let id = &l;
                    *p = parse_quote!(ptr::#id);
                }
                else {
                    p.segments = [l].into_iter().collect();
                }
            },
        }
    }
}

fn norm_type(t: &mut Type)
{
    match t {
        Type::Array(a) => {
            if let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = &a.len {
                let n: usize = n.base10_parse().unwrap_or(0);
                if n <= 8 {
                    let el = &a.elem;
                    let v: Vec<&Box<Type>> = (0 .. n).map(|_| el).collect();
                    *t = parse_quote!((#(#v),*));
                }
            }
        },
        Type::Path(p) => {
            if p.qself.is_none() {
                norm_path(&mut p.path);
                let l = p.path.segments.last().unwrap();
                if l.ident == "Cell" {
                    if let PathArguments::AngleBracketed(a) = &l.arguments {
                        if let Some(GenericArgument::Type(x)) = a.args.first() {
                            *t = x.clone();
                        }
                    }
                }
            }
        },
        _ => (),
    }
}

impl Tx<'_>
{
    fn ghost_arg(&self) -> Option<Expr>
    {
        self.ghost.as_ref().map(|g| pe(g))
    }

    fn match_(
        &mut self,
        e: &mut Expr,
    )
    {
        let Expr::Match(m) = e
        else {
            return;
        };
        // of what has no value
        if m.arms.is_empty() {
            *e = parse_quote!(vx_panic());
            return;
        }
        // assert_eq!, assert_ne!
        if m.arms.len() == 1 {
            if let (Pat::Tuple(p), Expr::Tuple(s)) = (&m.arms[0].pat, &*m.expr) {
                if toks(&p.elems[0]) == "left_val" && s.elems.len() == 2 {
                    let strip = |e: &Expr| match e {
                        Expr::Reference(r) => (*r.expr).clone(),
                        e => e.clone(),
                    };
                    let (l, r) = (strip(&s.elems[0]), strip(&s.elems[1]));
                    let ne = !toks(&m.arms[0].body).contains("! (");
                    *e = if ne { parse_quote!(if #l == #r { vx_panic(); }) } else { parse_quote!(if !(#l == #r) { vx_panic(); }) };
                    return;
                }
            }
        }
        // guards
        for i in 0 .. m.arms.len() {
            let Some((_, g)) = &m.arms[i].guard
            else {
                continue;
            };
            let names = pat_idents(&m.arms[i].pat);
            let (by_ref, used) = guard_by_ref(g, &names);
            if !(by_ref && used) {
                continue;
            }
            let g = g.clone();
            let n = self.name("s");
            let place = is_place(&m.expr);
            let s = (*m.expr).clone();
            let tested: Expr = if place { s.clone() } else { parse_quote!(#n) };
            let mut cond = vec![];
            for a in &m.arms[.. i] {
                let p = &a.pat;
                match &a.guard {
                    Some((_, h)) => cond.push(quote!(#p if #h => false)),
                    None => cond.push(quote!(#p => false)),
                }
            }
            let p = &m.arms[i].pat;
            // names the guard does not use need no binding there, but unused ones do no harm
            let irrefutable = matches!(p, Pat::Wild(_)) || matches!(p, Pat::Ident(x) if x.ident.to_string().starts_with(|c: char| c.is_lowercase()));
            cond.push(quote!(#p => #g));
            if !irrefutable {
                cond.push(quote!(_ => false));
            }
            let body = &m.arms[i].body;
            let hit = if irrefutable { quote!(match #tested { #p => #body }) } else { quote!(match #tested { #p => #body, _ => vx_panic() }) };
            let mut rest = m.clone();
            rest.arms = rest.arms.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, a)| a.clone()).collect();
            *rest.expr = tested.clone();
            let rest = Expr::Match(rest);
            let ife = quote!(if match &#tested { #(#cond),* } { #hit } else { #rest });
            let mut out: Expr = if place { parse2(ife).unwrap() } else { parse_quote!({ let #n = #s; #ife }) };
            // further guards in the rest
            if let Some(r) = last_else(&mut out) {
                self.match_(r);
            }
            *e = out;
            return;
        }
    }

    fn call(
        &mut self,
        e: &mut Expr,
    )
    {
        let Expr::Call(c) = e
        else {
            return;
        };
        let Expr::Path(p) = &mut *c.func
        else {
            return;
        };
        let tailcall = {
            let l = p.path.segments.last_mut().unwrap();
            let n = l.ident.to_string();
            match n.strip_prefix("vx_tail__") {
                Some(x) => {
                    l.ident = Ident::new(x, Span::call_site());
                    true
                },
                None => false,
            }
        };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().clone();
        let qual = if segs.len() >= 2 { Some(segs[segs.len() - 2].clone()) } else { None };
        if p.qself.is_none() {
            if last == "drop" && segs.len() == 1 || last == "drop" && qual.as_deref() == Some("mem") {
                let a = &c.args;
                *e = parse_quote!(vx_drop(#a));
                return;
            }
            if last == "new" && qual.as_deref() == Some("Cell") {
                *e = c.args[0].clone();
                return;
            }
            if self.u.known.contains("same_place") && (last == "eq" && qual.as_deref() == Some("ptr") || last == "ptr_eq") {
                let f = |x: &Expr| -> Expr {
                    // `&**it`: one dereference less reaches the pointer itself
                    if let Expr::Reference(r) = x {
                        let mut k = 0;
                        let mut y: &Expr = &r.expr;
                        loop {
                            match y {
                                Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                                    k += 1;
                                    y = expr;
                                },
                                Expr::Paren(p) => y = &p.expr,
                                _ => break,
                            }
                        }
                        if k == 0 {
                            return x.clone();
                        }
                        let mut z: Expr = y.clone();
                        for _ in 1 .. k {
                            z = parse_quote!(*#z);
                        }
                        return parse_quote!(&#z);
                    }
                    if let Expr::MethodCall(m) = x {
                        if m.method == "deref" {
                            return (*m.receiver).clone();
                        }
                    }
                    x.clone()
                };
                let (a, b) = (f(&c.args[0]), f(&c.args[1]));
                *e = parse_quote!(Rc::same_place(#a, #b));
                return;
            }
            if last == "clone" && qual.as_deref() == Some("Clone") && c.args.len() == 1 {
                let a = paren(strip_one_ref(&c.args[0]));
                *e = parse_quote!(#a.clone());
                return;
            }
            // core's conversions to an integer type are the lossless ones
            if last == "from" && c.args.len() == 1 && p.path.segments.len() == 2 && qual.as_deref().is_some_and(is_int) {
                let t = p.path.segments[0].ident.clone();
                let a = paren(c.args[0].clone());
                *e = parse_quote!((#a as #t));
                return;
            }
            if last == "from" && qual.is_some() && c.args.len() == 1 && !self.u.known.contains("from") && !matches!(&c.args[0], Expr::Lit(_)) {
                let mut q = p.path.clone();
                q.segments.pop();
                let l = q.segments.pop().unwrap().into_value();
                q.segments.push(l);
                let a = &c.args;
                *e = if qual.as_deref() == Some("From") { parse_quote!(VxInto::vx_into(#a)) } else { parse_quote!(VxInto::<#q>::vx_into(#a)) };
                return;
            }
            if last == "into" && qual.as_deref() == Some("Into") {
                let a = &c.args;
                *e = parse_quote!(VxInto::vx_into(#a));
                return;
            }
            if !last.starts_with(|c: char| c.is_uppercase()) {
                if let Some(f) = self.resolve(&last, qual.as_deref(), false, false) {
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    *e = self.inline(f, None, args, tailcall);
                    return;
                }
            }
        }
        if qual.as_deref() == Some("mem") {
            return;
        }
        let canon = self.u.renames.get(&last).cloned().unwrap_or(last);
        p.path.segments.last_mut().unwrap().ident = Ident::new(&canon, Span::call_site());
        if self.u.thread.contains(&canon) {
            if let Some(g) = self.ghost_arg() {
                c.args.push(g);
            }
        }
    }

    fn method(
        &mut self,
        e: &mut Expr,
    )
    {
        let Expr::MethodCall(m) = e
        else {
            return;
        };
        let mut name = m.method.to_string();
        let mut tailcall = false;
        if let Some(x) = name.strip_prefix("vx_tail__").map(str::to_string) {
            m.method = Ident::new(&x, Span::call_site());
            name = x;
            tailcall = true;
        }
        if name == "into" && m.args.is_empty() && !self.u.known.contains("into") {
            let r = &m.receiver;
            *e = match &**r {
                Expr::Lit(l) => parse_quote!(From::from(#l)),
                r => parse_quote!(VxInto::vx_into(#r)),
            };
            return;
        }
        let s = ident_of(strip_ref(&m.receiver)).is_some_and(|n| n == "self");
        if let Some(f) = self.resolve(&name, None, true, s) {
            let args: Vec<Expr> = m.args.iter().cloned().collect();
            let r = (*m.receiver).clone();
            *e = self.inline(f, Some(r), args, tailcall);
            return;
        }
        if let Some(c) = self.u.renames.get(&name) {
            m.method = Ident::new(c, Span::call_site());
            name = c.clone();
        }
        if self.u.thread.contains(&name) {
            if let Some(g) = self.ghost_arg() {
                m.args.push(g);
            }
        }
    }
}

fn strip_one_ref(e: &Expr) -> Expr
{
    match e {
        Expr::Reference(r) => (*r.expr).clone(),
        e => e.clone(),
    }
}
fn last_else(e: &mut Expr) -> Option<&mut Expr>
{
    match e {
        Expr::Block(b) => match b.block.stmts.last_mut() {
            Some(Stmt::Expr(e, None)) => last_else(e),
            _ => None,
        },
        Expr::If(i) => match i.else_branch.as_mut() {
            Some((_, b)) => match &mut **b {
                Expr::Block(b) => match b.block.stmts.last_mut() {
                    Some(Stmt::Expr(e @ Expr::Match(_), None)) => Some(e),
                    _ => None,
                },
                _ => None,
            },
            None => None,
        },
        _ => None,
    }
}

// ---------------------------------------------------------------------------------------------
// output

fn find_entry<'a>(
    idx: &'a Index,
    u: &Unit,
    key: &str,
) -> &'a FnEntry
{
    if let Some(f) = idx.find_fn(key) {
        return f;
    }
    if let Some(i) = u.bysig.get(key) {
        return &idx.fns[*i];
    }
    fail("LOST-ANCHOR", &format!("function {key} not found"))
}

/// types of a signature, with the type parameters' canonical names
fn sig_string(
    u: &Unit,
    f: &FnEntry,
) -> String
{
    let mut v: Vec<String> = vec![];
    for i in &f.sig.inputs {
        match i {
            FnArg::Receiver(r) => v.push(match (&r.reference, &r.mutability) {
                (Some(_), Some(_)) => "&mut self".into(),
                (Some(_), None) => "&self".into(),
                _ => "self".into(),
            }),
            FnArg::Typed(t) => v.push(toks(&t.ty)),
        }
    }
    let r = match &f.sig.output {
        ReturnType::Default => "()".to_string(),
        ReturnType::Type(_, t) => toks(t),
    };
    let s = format!("({}) -> {}", v.join(","), r);
    let ts: TokenStream = s.parse().unwrap();
    rename_idents(ts, &generic_map(u, f)).to_string().replace(' ', "")
}

pub fn resolve_fn(
    idx: &Index,
    u: &mut Unit,
    key: &str,
    o: &Opts,
)
{
    if idx.find_fn(key).is_some() {
        return;
    }
    let Some(sig) = &o.sig
    else {
        return;
    };
    let want: TokenStream = sig.parse().unwrap_or_else(|_| fail("TEMPLATE", sig));
    let want = want.to_string().replace(' ', "");
    let k = key.split('|').next().unwrap().trim();
    let k = k.split(" @ ").last().unwrap();
    let (pre, name) = k.rsplit_once("::").unwrap_or(("", k));
    let taken = |f: &FnEntry| u.known.contains(&f.sig.ident.to_string());
    let c: Vec<usize> = (0 .. idx.fns.len())
        .filter(|i| {
            let f = &idx.fns[*i];
            let p = f.key.rsplit_once("::").map_or("", |x| x.0);
            p == pre && f.block.is_some() && !taken(f) && sig_string(u, f) == want
        })
        .collect();
    if c.len() == 1 {
        let old = idx.fns[c[0]].sig.ident.to_string();
        u.renames.insert(old, name.to_string());
        u.bysig.insert(key.to_string(), c[0]);
    }
}

pub fn resolve_item(
    idx: &Index,
    u: &mut Unit,
    key: &str,
    o: &Opts,
)
{
    let Some(it) = idx.find_item(key)
    else {
        return;
    };
    // fields: `name:TYPE` (no spaces); a field that is not there by name is looked up by its type
    let fields: Vec<(String, String)> = match &it.item {
        Item::Struct(s) => s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| (i.to_string(), toks(&f.ty).replace(' ', "")))).collect(),
        _ => vec![],
    };
    for w in &o.fields {
        let Some((n, t)) = w.split_once(':')
        else {
            continue;
        };
        if fields.iter().any(|(m, _)| m == n) {
            continue;
        }
        let c: Vec<&(String, String)> = fields.iter().filter(|(m, ft)| ft.rsplit("::").next() == t.rsplit("::").next() && !o.fields.iter().any(|x| x.split(':').next() == Some(m))).collect();
        if c.len() == 1 {
            u.fieldmap.insert(c[0].0.clone(), n.to_string());
        }
    }
}

/// `@x` in contract text stands for the local variable with role x
fn resolve_roles(
    o: &Opts,
    f: &FnEntry,
) -> Vec<(String, String)>
{
    let mut out = vec![];
    for (n, spec) in &o.roles {
        let mut found = BTreeSet::new();
        let parts: Vec<&str> = spec.split(':').collect();
        struct V<'s>
        {
            parts: &'s [&'s str],
            found: &'s mut BTreeSet<String>,
            inloop: usize,
        }
        impl<'a> Visit<'a> for V<'_>
        {
            fn visit_expr(
                &mut self,
                e: &'a Expr,
            )
            {
                let isloop = matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_));
                if isloop {
                    self.inloop += 1;
                }
                let need_loop = self.parts.last() == Some(&"loop");
                if !need_loop || self.inloop > 0 {
                    match (self.parts[0], e) {
                        ("recv", Expr::MethodCall(m)) if m.method == self.parts[1] => {
                            if let Some(i) = ident_of(strip_ref(&m.receiver)) {
                                self.found.insert(i);
                            }
                        },
                        ("recv", Expr::ForLoop(_)) if self.parts[1] == "next" => {
                            self.found.insert("vx_for".into());
                        },
                        ("arg", Expr::MethodCall(m)) if m.method == self.parts[1] => {
                            let k: usize = self.parts[2].parse().unwrap_or(0);
                            if let Some(i) = m.args.get(k).and_then(|a| ident_of(strip_ref(a))) {
                                self.found.insert(i);
                            }
                        },
                        ("arg", Expr::Call(c)) => {
                            let k: usize = self.parts[2].parse().unwrap_or(0);
                            if let Expr::Path(p) = &*c.func {
                                if p.path.segments.last().unwrap().ident == self.parts[1] {
                                    if let Some(i) = c.args.get(k).and_then(|a| ident_of(strip_ref(a))) {
                                        self.found.insert(i);
                                    }
                                }
                            }
                        },
                        _ => (),
                    }
                }
                visit::visit_expr(self, e);
                if isloop {
                    self.inloop -= 1;
                }
            }
        }
        if let Some(b) = &f.block {
            let mut v = V { parts: &parts, found: &mut found, inloop: 0 };
            v.visit_block(b);
        }
        let v = if found.len() == 1 { found.into_iter().next().unwrap() } else { n.clone() };
        out.push((format!("@{n}"), v));
    }
    out.sort_by_key(|(n, _)| std::cmp::Reverse(n.len()));
    out
}

/// the places that have the roles and exist where the (only) loop begins; none unless each role has exactly one
fn roles_at_loop(
    roles: &[(String, String)],
    block: &Block,
) -> Option<Vec<(String, String)>>
{
    let mut block = block.clone();
    let mut n = 0;
    Alpha { scopes: vec![HashMap::new()], n: &mut n }.visit_block_mut(&mut block);
    #[derive(Default)]
    struct V
    {
        depth: usize,
        decl:  HashMap<String, usize>,
        alias: HashMap<String, String>,
        /// (kind, method, number) and the expression
        found: Vec<(String, Expr)>,
    }
    /// what a value can come from
    fn calls(e: &Expr) -> BTreeSet<String>
    {
        let last = |b: &Block| match b.stmts.last() {
            Some(Stmt::Expr(e, None)) => calls(e),
            _ => BTreeSet::new(),
        };
        match e {
            Expr::MethodCall(m) => [m.method.to_string()].into(),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => [p.path.segments.last().unwrap().ident.to_string()].into(),
                _ => BTreeSet::new(),
            },
            Expr::Paren(p) => calls(&p.expr),
            Expr::Block(b) => last(&b.block),
            Expr::If(i) => {
                let mut s = last(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    s.extend(calls(e));
                }
                s
            },
            Expr::Match(m) => m.arms.iter().flat_map(|a| if ident_of(&a.body).is_some() { calls(&m.expr) } else { calls(&a.body) }).collect(),
            _ => BTreeSet::new(),
        }
    }
    impl V
    {
        fn pat(
            &mut self,
            p: &Pat,
        )
        {
            struct P<'v>(&'v mut V);
            impl<'a> Visit<'a> for P<'_>
            {
                fn visit_pat_ident(
                    &mut self,
                    p: &'a PatIdent,
                )
                {
                    let d = self.0.depth;
                    self.0.decl.insert(p.ident.to_string(), d);
                    visit::visit_pat_ident(self, p);
                }
            }
            P(self).visit_pat(p);
        }
    }
    impl<'a> Visit<'a> for V
    {
        fn visit_local(
            &mut self,
            l: &'a Local,
        )
        {
            self.pat(&l.pat);
            if let Some(src) = l.init.as_ref().and_then(|i| ident_of(&i.expr)) {
                let mut p = &l.pat;
                while let Pat::Type(t) = p {
                    p = &t.pat;
                }
                match p {
                    Pat::Ident(p) => {
                        self.alias.insert(p.ident.to_string(), src);
                    },
                    Pat::Tuple(t) => {
                        for (i, p) in t.elems.iter().enumerate() {
                            if let Pat::Ident(p) = p {
                                self.alias.insert(p.ident.to_string(), format!("{src}.{i}"));
                            }
                        }
                    },
                    _ => (),
                }
            }
            visit::visit_local(self, l);
        }

        fn visit_arm(
            &mut self,
            a: &'a Arm,
        )
        {
            self.pat(&a.pat);
            visit::visit_arm(self, a);
        }

        fn visit_expr_let(
            &mut self,
            l: &'a ExprLet,
        )
        {
            self.pat(&l.pat);
            visit::visit_expr_let(self, l);
        }

        fn visit_expr(
            &mut self,
            e: &'a Expr,
        )
        {
            if matches!(e, Expr::Loop(_)) {
                self.depth += 1;
            }
            if self.depth > 0 {
                match e {
                    Expr::MethodCall(m) => {
                        self.found.push((format!("recv:{}", m.method), (*strip_ref(&m.receiver)).clone()));
                        for (i, a) in m.args.iter().enumerate() {
                            self.found.push((format!("arg:{}:{i}", m.method), (*strip_ref(a)).clone()));
                        }
                    },
                    Expr::Call(c) => {
                        if let Expr::Path(p) = &*c.func {
                            for (i, a) in c.args.iter().enumerate() {
                                self.found.push((format!("arg:{}:{i}", p.path.segments.last().unwrap().ident), (*strip_ref(a)).clone()));
                            }
                        }
                    },
                    Expr::Assign(a) => {
                        for c in calls(&a.right) {
                            self.found.push((format!("res:{c}"), (*a.left).clone()));
                        }
                    },
                    Expr::Match(m) => {
                        for arm in &m.arms {
                            if let Expr::Assign(a) = &*arm.body {
                                if ident_of(&a.right).is_some() {
                                    for c in calls(&m.expr) {
                                        self.found.push((format!("res:{c}"), (*a.left).clone()));
                                    }
                                }
                            }
                        }
                    },
                    _ => (),
                }
            }
            visit::visit_expr(self, e);
            if matches!(e, Expr::Loop(_)) {
                self.depth -= 1;
            }
        }
    }
    let mut v = V::default();
    v.visit_block(&block);
    let mut out = vec![];
    for (n, spec) in roles {
        let specs: Vec<&str> = spec.split('|').map(|s| s.strip_suffix(":loop").unwrap_or(s)).collect();
        let mut places = BTreeSet::new();
        for (s, e) in &v.found {
            if specs.contains(&s.as_str()) {
                let Some(mut x) = ident_of(e)
                else {
                    continue;
                };
                let mut rest = String::new();
                while v.decl.get(&x).is_some_and(|d| *d > 0) {
                    let a = v.alias.get(&x)?;
                    let (b, f) = a.split_once('.').map_or((a.clone(), String::new()), |(b, f)| (b.to_string(), format!(".{f}")));
                    x = b;
                    rest = format!("{f}{rest}");
                }
                if v.decl.contains_key(&x) {
                    x = x.rsplit_once('_')?.0.to_string();
                }
                places.insert(format!("{x}{rest}"));
            }
        }
        if places.len() != 1 {
            return None;
        }
        out.push((format!("@{n}"), places.into_iter().next().unwrap()));
    }
    out.sort_by_key(|(n, _)| std::cmp::Reverse(n.len()));
    Some(out)
}

pub fn emit_fn(
    idx: &Index,
    u: &mut Unit,
    key: &str,
    o: &Opts,
) -> String
{
    let f = find_entry(idx, u, key);
    let Some(block) = &f.block
    else {
        fail("LOST-ANCHOR", &format!("{key} has no body"));
    };
    let mut block = block.clone();
    let mut map = generic_map(u, f);
    let mut sig = f.sig.clone();
    if let Some(g) = &o.generics {
        let g: Generics = parse_str(&format!("<{}>", g.trim().trim_start_matches('<').trim_end_matches('>')))
            .or_else(|_| parse_str(g))
            .unwrap_or_else(|e| fail("TEMPLATE", &format!("{g}: {e}")));
        for (a, b) in sig.generics.type_params().zip(g.type_params()) {
            let b = &b.ident;
            map.insert(a.ident.to_string(), quote!(#b));
        }
    }
    let ghostexpr = o.ghostexpr.clone().or_else(|| o.ghost.as_ref().and_then(|g| g.split_once("):").map(|x| format!("{})", x.0))));
    let u_ref: &Unit = u;
    let mut tx = Tx { idx, u: u_ref, f, ghost: ghostexpr, fresh: 0, stack: vec![key.to_string()], inlined: vec![], tail: true };
    tx.run(&mut block);
    if !o.post.is_empty() && block.stmts.iter().any(has_return) {
        let mut al = Alpha { scopes: vec![HashMap::new()], n: &mut tx.fresh };
        al.visit_block_mut(&mut block);
        let st = std::mem::take(&mut block.stmts);
        block.stmts = tx.elim(st);
    }
    let inlined = std::mem::take(&mut tx.inlined);
    // parameters
    let mut params: Vec<TokenStream> = vec![];
    let mut lets: Vec<TokenStream> = vec![];
    let mut k = 0;
    let mut self_renamed = false;
    for inp in &mut sig.inputs {
        match inp {
            FnArg::Receiver(r) => {
                if r.reference.is_none() && r.mutability.is_some() {
                    self_renamed = true;
                    lets.push(quote!(let mut vx_self = self;));
                    params.push(quote!(self));
                }
                else {
                    r.attrs.clear();
                    params.push(r.to_token_stream());
                }
            },
            FnArg::Typed(t) => {
                let canon = o.params.get(k).cloned().unwrap_or_else(|| match &*t.pat {
                    Pat::Ident(p) => p.ident.to_string(),
                    _ => format!("vx_p{k}"),
                });
                let ci = Ident::new(&canon, Span::call_site());
                k += 1;
                let mut ty = (*t.ty).clone();
                tx.visit_type_mut(&mut ty);
                let ty = match o.ptypes.get(&canon) {
                    Some(s) => s.parse().unwrap_or_else(|_| fail("TEMPLATE", s)),
                    None => apply_substs(rename_idents(ty.to_token_stream(), &map), u_ref),
                };
                params.push(quote!(#ci: #ty));
                match &*t.pat {
                    Pat::Ident(p) if p.ident == canon && p.mutability.is_none() => (),
                    Pat::Wild(_) => (),
                    Pat::Ident(p) if p.by_ref.is_none() => {
                        let (m, i) = (&p.mutability, &p.ident);
                        lets.push(quote!(let #m #i = #ci;));
                    },
                    p => {
                        let mut p = p.clone();
                        arrays_pat(&mut p);
                        lets.push(quote!(let #p = #ci;));
                    },
                }
            },
        }
    }
    if o.params.len() > 0 && k != o.params.len() {
        fail("LOST-ANCHOR", &format!("{key}: {k} parameters instead of {}", o.params.len()));
    }
    if self_renamed {
        let i: Expr = parse_quote!(vx_self);
        Subst([("self".to_string(), i)].into_iter().collect()).visit_block_mut(&mut block);
    }
    // the annotations that fit the shape of the loop
    let mut chosen = o.clone();
    let o = if o.alts.is_empty() {
        o
    }
    else {
        let mut all = vec![(o.roles.clone(), o.loops.clone(), String::new())];
        all.extend(o.alts.iter().cloned());
        let (r, l, p) = all
            .into_iter()
            .find_map(|(r, l, p)| roles_at_loop(&r, &block).map(|r| (r, l, p)))
            .unwrap_or_else(|| fail("LOST-ANCHOR", &format!("{key}: a loop of another shape")));
        chosen.roles = r;
        chosen.loops = l;
        chosen.pre.push_str(&p);
        &chosen
    };
    // loops
    struct LoopMark(usize);
    impl VisitMut for LoopMark
    {
        fn visit_expr_loop_mut(
            &mut self,
            l: &mut ExprLoop,
        )
        {
            let i = format_ident!("vx_inv_{}", self.0);
            self.0 += 1;
            l.body.stmts.insert(0, parse_quote!(#i;));
            visit_mut::visit_expr_loop_mut(self, l);
        }
    }
    let mut lm = LoopMark(0);
    lm.visit_block_mut(&mut block);
    let nloops = lm.0;
    let rettype = match (&o.rettype, &sig.output) {
        (Some(r), _) => Some(r.clone()),
        (None, ReturnType::Default) => None,
        (None, ReturnType::Type(_, t)) => {
            let mut ty = (**t).clone();
            tx.visit_type_mut(&mut ty);
            Some(pretty(apply_substs(rename_idents(ty.to_token_stream(), &map), u_ref), 0).trim().to_string())
        },
    };
    let mut generics = o.generics.clone().unwrap_or_default();
    if generics.is_empty() && !sig.generics.params.is_empty() {
        let p = &sig.generics.params;
        generics = format!("<{}>", apply_substs(rename_idents(quote!(#p), &map), u_ref));
    }
    let stmts = &block.stmts;
    let mut body = apply_substs(rename_idents(quote!(#(#lets)* #(#stmts)*), &map), u_ref);
    for (p, r) in &o.substs {
        let rep: TokenStream = r.parse().unwrap_or_else(|_| fail("TEMPLATE", r));
        body = subst_tokens(body, p, &rep);
    }
    let mut text = pretty(body, 1);
    for (a, b) in &o.calls {
        text = text.replace(&format!(".{a}("), &format!(".{b}("));
    }
    let roles = if o.alts.is_empty() { resolve_roles(o, f) } else { o.roles.clone() };
    let role = |s: &str| {
        let mut s = s.to_string();
        for (a, b) in &roles {
            s = s.replace(a, b);
        }
        s
    };
    if nloops != o.loops.len() {
        fail("LOST-ANCHOR", &format!("{key}: {nloops} loops instead of {}", o.loops.len()));
    }
    for j in 0 .. nloops {
        let m = format!("vx_inv_{j};");
        let at = text.find(&m).unwrap_or_else(|| fail("INTERNAL", "loop mark"));
        let open = text[.. at].rfind('{').unwrap();
        let end = at + m.len();
        let head = text[.. open].trim_end().to_string();
        text = format!("{head}\n        {}\n    {{{}", role(&o.loops[j]), &text[end ..]);
    }
    let name = o.name.clone().unwrap_or_else(|| {
        let n = sig.ident.to_string();
        u_ref.renames.get(&n).cloned().unwrap_or(n)
    });
    let mut ps: Vec<String> = params.into_iter().map(|p| pretty(p, 0).trim().to_string()).collect();
    if let Some(g) = &o.ghost {
        ps.push(g.clone());
    }
    let mut out = format!("// @@BEGIN {key}\n");
    for a in &o.attr {
        out.push_str(a);
        out.push('\n');
    }
    let vis = o.vis.clone().unwrap_or_else(|| "pub".into());
    let vis = if vis == "none" { String::new() } else { vis };
    out.push_str(&format!("{vis} fn {name}{generics}({})", ps.join(", ")));
    if let Some(r) = rettype {
        out.push_str(&format!(" -> ({}: {r})", o.ret.clone().unwrap_or_else(|| "r".into())));
    }
    out.push('\n');
    if let Some(w) = &o.where_ {
        out.push_str(w);
        out.push('\n');
    }
    out.push_str(&role(&o.spec));
    out.push_str("\n{\n");
    if !o.pre.is_empty() {
        out.push_str(&role(&o.pre));
        out.push('\n');
    }
    if u_ref.vacuity {
        out.push_str("proof { assert(false); }\n");
    }
    if o.post.is_empty() {
        out.push_str(&text);
    }
    else {
        out.push_str(&format!("let vx_r = {{\n{text}\n}};\n{}\nvx_r", role(&o.post)));
    }
    out.push_str("\n}\n// @@END ");
    out.push_str(key);
    out.push('\n');
    let resigned = o.sig.as_ref().is_some_and(|w| w.parse::<TokenStream>().map_or(true, |w| w.to_string().replace(' ', "") != sig_string(u, f)));
    u.meta.push(format!("{{\"fn\": {key:?}, \"source\": {:?}, \"inlined\": {:?}, \"loops\": {nloops}, \"resigned\": {resigned}}}", format!("{}::{}", f.modpath, f.key), inlined));
    out
}

pub fn emit_item(
    idx: &Index,
    u: &mut Unit,
    key: &str,
    o: &Opts,
) -> String
{
    let Some(it) = idx.find_item(key)
    else {
        fail("LOST-ANCHOR", &format!("item {key} not found"));
    };
    // what dropping runs is not in the units
    if idx.fns.iter().any(|f| f.key == format!("{} as Drop::drop", it.key)) {
        fail("UNSUPPORTED", &format!("{} has a destructor", it.key));
    }
    let (gen, fields, is_struct) = match &it.item {
        Item::Struct(s) => (s.generics.clone(), s.fields.clone(), true),
        Item::Enum(e) => (e.generics.clone(), Fields::Unit, false),
        _ => fail("LOST-ANCHOR", &format!("item {key} is of another kind")),
    };
    // canonical type parameters
    let params: BTreeSet<String> = gen.type_params().map(|p| p.ident.to_string()).collect();
    let mut map = HashMap::new();
    if let Some((_, _, _, cty)) = u.selfty.iter().find(|(_, n, ..)| *n == it.key.as_str()) {
        let names: Vec<Ident> = gen.type_params().map(|p| p.ident.clone()).collect();
        let id = Ident::new(&it.key, Span::call_site());
        let src: Type = if names.is_empty() { parse_quote!(#id) } else { parse_quote!(#id<#(#names),*>) };
        unify(&src, cty, &params, &mut map);
    }
    let header = o.header.clone().unwrap_or_else(|| fail("TEMPLATE", &format!("no header for {key}")));
    let ty = |t: &Type| {
        let mut t = t.clone();
        struct N;
        impl VisitMut for N
        {
            fn visit_type_mut(
                &mut self,
                t: &mut Type,
            )
            {
                visit_mut::visit_type_mut(self, t);
                norm_type(t);
            }
        }
        N.visit_type_mut(&mut t);
        pretty(apply_substs(rename_idents(t.to_token_stream(), &map), u), 0).trim().to_string()
    };
    let fs = |fields: &Fields, vis: &str, extra: &str| match fields {
        Fields::Named(n) => {
            let v: Vec<String> = n
                .named
                .iter()
                .map(|f| {
                    let i = f.ident.as_ref().unwrap().to_string();
                    format!("{vis}{}: {}", u.fieldmap.get(&i).unwrap_or(&i), ty(&f.ty))
                })
                .collect();
            format!("{{ {}, {extra} }}", v.join(", "))
        },
        Fields::Unnamed(n) => {
            let v: Vec<String> = n.unnamed.iter().map(|f| format!("{vis}{}", ty(&f.ty))).collect();
            format!("({})", v.join(", "))
        },
        Fields::Unit => String::new(),
    };
    let mut out = format!("// @@BEGIN item {key}\n{header}\n");
    if is_struct {
        out.push_str(&fs(&fields, "pub ", &o.extra));
        if !matches!(fields, Fields::Named(_)) {
            out.push(';');
        }
    }
    else if let Item::Enum(e) = &it.item {
        out.push_str("{\n");
        for v in &e.variants {
            out.push_str(&format!("    {}{},\n", v.ident, fs(&v.fields, "", "")));
        }
        out.push('}');
    }
    out.push_str(&format!("\n// @@END item {key}\n"));
    u.meta.push(format!("{{\"item\": {key:?}, \"source\": {:?}}}", it.modpath));
    out
}

pub fn emit_const(
    idx: &Index,
    u: &mut Unit,
    key: &str,
    o: &Opts,
) -> String
{
    let Some(c) = idx.find_const(key)
    else {
        fail("LOST-ANCHOR", &format!("constant {key} not found"));
    };
    // as a function of no arguments, evaluated where it is used
    let e = &c.expr;
    let t = &c.ty;
    let name = key.rsplit("::").next().unwrap().rsplit(' ').next().unwrap().to_string();
    let fname = format_ident!("vxc_{}", name);
    let f: ItemFn = parse_quote!(fn #fname() -> #t { #e });
    let entry = FnEntry {
        key: key.to_string(),
        modpath: c.modpath.clone(),
        sig: f.sig,
        block: Some(*f.block),
        impl_gen: c.impl_gen.clone(),
        self_ty: c.self_ty.clone(),
        trait_: None,
        trait_path: None,
    };
    let mut one = Index::default();
    let k = format!("{key}");
    let mut entry = entry;
    entry.key = k.split(" @ ").last().unwrap().trim().to_string();
    entry.modpath = c.modpath.clone();
    one.fns.push(entry);
    for f in idx.fns.iter() {
        one.fns.push(f.shallow());
    }
    emit_fn(&one, u, key, o)
}
