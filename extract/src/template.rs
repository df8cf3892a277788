//! Units: Verus text with `//@` directives.
//!
//!   //@include FILE                 (relative to the unit)
//!   //@if NAME | //@ifnot NAME | //@else | //@fi
//!   //@for VAR in a b c ... //@done
//!   //@wire NAME = MODPATH | TRAIT | ASSOC [| SELF]   (//@trywire: left undefined where there is none)
//!   //@def NAME=VALUE               (unless given on the command line)
//!   //@selfty [TRAIT<ARGS> for] TYPE<ARGS>     canonical names of an impl's type parameters
//!   //@subst TOKENS => TOKENS       token substitution on every extracted text
//!   //@thread NAME...               calls of these take the ghost argument of the calling function
//!   //@known NAME...                calls of these are left alone (they have a contract elsewhere)
//!   //@unknown NAME...              undoes that of a function of the unit
//!   //@rename OLD NEW               method/function name used in the unit for OLD
//!   //@fn KEY                       options, each `//@ option value`, then `//@end`
//!   //@item KEY                     a struct/enum (options: header, fields), then `//@end`
//!   //@const KEY                    as `fn vxc_NAME`
//!   ${NAME}                         value of a definition
use crate::{fail, index::Index, transform};
use std::{
    collections::{BTreeSet, HashMap},
    fs,
    path::Path,
};

#[derive(Default, Clone)]
pub struct Opts
{
    pub name:      Option<String>,
    pub params:    Vec<String>,
    pub ret:       Option<String>,
    pub rettype:   Option<String>,
    pub attr:      Vec<String>,
    pub ghost:     Option<String>,
    pub ghostexpr: Option<String>,
    pub generics:  Option<String>,
    pub where_:    Option<String>,
    pub vis:       Option<String>,
    pub pre:       String,
    pub post:      String,
    pub loops:     Vec<String>,
    pub spec:      String,
    pub header:    Option<String>,
    pub fields:    Vec<String>,
    pub roles:     Vec<(String, String)>,
    pub ptypes:    HashMap<String, String>,
    pub sig:       Option<String>,
    /// methods called by another name (the same function under another contract)
    pub calls:     Vec<(String, String)>,
    pub substs:    Vec<(Vec<String>, String)>,
    pub extra:     String,
    /// nothing, if the crate has no such function
    pub optional:  bool,
    /// other annotations of the loops (roles, invariants, what goes before), for other shapes of them
    pub alts:      Vec<(Vec<(String, String)>, Vec<String>, String)>,
}

#[derive(Default)]
pub struct Unit
{
    pub substs:  Vec<(Vec<String>, String)>,
    pub thread:  BTreeSet<String>,
    pub known:   BTreeSet<String>,
    pub renames: HashMap<String, String>,
    /// (trait name or "", type name) -> (canonical trait path, canonical self type)
    pub selfty:  Vec<(String, String, Option<syn::Path>, syn::Type)>,
    /// renamed struct fields: source name -> canonical name
    pub fieldmap: HashMap<String, String>,
    /// ghost fields added to the literals of a struct
    pub literals: HashMap<String, String>,
    pub meta:    Vec<String>,
    /// make every function's contract be probed for vacuity
    pub vacuity: bool,
    /// directive key -> index of the function it stands for, when found by signature
    pub bysig:   HashMap<String, usize>,
}

fn subst_vars(
    s: &str,
    defs: &HashMap<String, String>,
) -> String
{
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("${") {
        out.push_str(&rest[.. i]);
        let j = rest[i ..].find('}').unwrap_or_else(|| fail("TEMPLATE", &format!("unclosed in {s}"))) + i;
        let n = &rest[i + 2 .. j];
        match defs.get(n) {
            Some(v) => out.push_str(v),
            None => fail("TEMPLATE", &format!("undefined ${{{n}}}")),
        }
        rest = &rest[j + 1 ..];
    }
    out.push_str(rest);
    out
}

/// the value of an associated type or constant of a trait implementation, `DEF = MODPATH | TRAIT | NAME`;
/// only the last path segment of a type is kept
fn wire(
    idx: &Index,
    spec: &str,
    defs: &mut HashMap<String, String>,
    optional: bool,
)
{
    let (d, rest) = spec.split_once('=').unwrap_or_else(|| fail("TEMPLATE", spec));
    let p: Vec<&str> = rest.split('|').map(str::trim).collect();
    if p.len() != 3 && p.len() != 4 {
        fail("TEMPLATE", spec);
    }
    let mut c: Vec<_> = idx
        .assocs
        .iter()
        .filter(|a| crate::index::mod_ok(&a.modpath, p[0]) && (a.name == p[2] || p[2] == "self") && a.trait_.split('<').next().unwrap() == p[1])
        .filter(|a| p.len() == 3 || a.self_.split('<').next().unwrap() == p[3])
        .collect();
    if p[2] == "self" {
        c.dedup_by_key(|a| a.self_.clone());
        if c.len() == 1 {
            defs.insert(d.trim().to_string(), c[0].self_.split('<').next().unwrap().to_string());
            return;
        }
    }
    if optional && c.is_empty() {
        return;
    }
    if c.len() != 1 {
        fail("LOST-ANCHOR", &format!("wiring {spec}: {} candidates", c.len()));
    }
    let v = &c[0].value;
    let head = v.split('<').next().unwrap();
    let v = if p[2].starts_with("const ") || head.contains(':') && head.starts_with(|c: char| c.is_uppercase()) { v.clone() } else { head.rsplit("::").next().unwrap().to_string() };
    defs.insert(d.trim().to_string(), v);
}

fn load(
    idx: &Index,
    path: &Path,
    defs: &mut HashMap<String, String>,
    out: &mut Vec<String>,
)
{
    let txt = fs::read_to_string(path).unwrap_or_else(|e| fail("TEMPLATE", &format!("{}: {e}", path.display())));
    let lines: Vec<&str> = txt.lines().collect();
    expand(idx, &lines, path, defs, out);
}
fn expand(
    idx: &Index,
    lines: &[&str],
    path: &Path,
    defs: &mut HashMap<String, String>,
    out: &mut Vec<String>,
)
{
    let mut i = 0;
    let mut conds: Vec<bool> = vec![];
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        let on = conds.iter().all(|x| *x);
        if let Some(n) = t.strip_prefix("//@if ") {
            conds.push(n.split('|').any(|n| defs.contains_key(n.trim())));
        }
        else if let Some(n) = t.strip_prefix("//@ifnot ") {
            conds.push(!defs.contains_key(n.trim()));
        }
        else if let Some(n) = t.strip_prefix("//@ifeq ") {
            let n = if on { subst_vars(n, defs) } else { n.to_string() };
            let w: Vec<&str> = n.split_whitespace().collect();
            conds.push(on && w[1 ..].iter().any(|v| defs.get(w[0]).map(String::as_str) == Some(*v)));
        }
        else if t == "//@else" {
            let c = conds.pop().unwrap();
            conds.push(!c);
        }
        else if t == "//@fi" {
            conds.pop();
        }
        else if !on {
        }
        else if let Some(n) = t.strip_prefix("//@include ") {
            let p = path.parent().unwrap().join(subst_vars(n.trim(), defs));
            load(idx, &p, defs, out);
        }
        else if let Some(n) = t.strip_prefix("//@def ") {
            let (k, v) = n.split_once('=').unwrap_or((n, "1"));
            let v = subst_vars(v.trim(), defs);
            defs.entry(k.trim().to_string()).or_insert(v);
        }
        else if let Some(n) = t.strip_prefix("//@wire ") {
            let n = subst_vars(n, defs);
            wire(idx, &n, defs, false);
        }
        else if let Some(n) = t.strip_prefix("//@trywire ") {
            let n = subst_vars(n, defs);
            wire(idx, &n, defs, true);
        }
        else if let Some(n) = t.strip_prefix("//@fail ") {
            fail("LOST-ANCHOR", &subst_vars(n, defs));
        }
        else if let Some(n) = t.strip_prefix("//@for ") {
            let (v, list) = n.split_once(" in ").unwrap_or_else(|| fail("TEMPLATE", n));
            let end = (i .. lines.len()).find(|j| lines[*j].trim() == "//@done").unwrap_or_else(|| fail("TEMPLATE", "no //@done"));
            for x in subst_vars(list, defs).split_whitespace() {
                let old = defs.insert(v.trim().to_string(), x.to_string());
                expand(idx, &lines[i + 1 .. end], path, defs, out);
                match old {
                    Some(o) => {
                        defs.insert(v.trim().to_string(), o);
                    },
                    None => {
                        defs.remove(v.trim());
                    },
                }
            }
            i = end;
        }
        else {
            out.push(subst_vars(l, defs));
        }
        i += 1;
    }
}

pub fn run(
    idx: &Index,
    unit: &str,
    defs: &HashMap<String, String>,
) -> (String, String)
{
    let mut defs = defs.clone();
    let mut lines = vec![];
    load(idx, Path::new(unit), &mut defs, &mut lines);
    let mut u = Unit { vacuity: defs.contains_key("VACUITY"), ..Unit::default() };
    // first pass: what the unit knows; `//@clear` ends the scope of the substitutions before it
    let mut scopes: Vec<Vec<(Vec<String>, String)>> = vec![vec![]];
    let mut unknown: Vec<String> = vec![];
    for l in &lines {
        let t = l.trim();
        if let Some(x) = t.strip_prefix("//@fn ") {
            let k = x.split('|').next().unwrap();
            u.known.insert(k.rsplit(|c| c == ':' || c == '@').next().unwrap().trim().to_string());
        }
        else if let Some(x) = t.strip_prefix("//@known ") {
            u.known.extend(x.split_whitespace().map(str::to_string));
        }
        else if let Some(x) = t.strip_prefix("//@unknown ") {
            unknown.extend(x.split_whitespace().map(str::to_string));
        }
        else if let Some(x) = t.strip_prefix("//@thread ") {
            u.thread.extend(x.split_whitespace().map(str::to_string));
            u.known.extend(x.split_whitespace().map(str::to_string));
        }
        else if let Some(x) = t.strip_prefix("//@subst ") {
            let (a, b) = x.split_once("=>").unwrap_or_else(|| fail("TEMPLATE", x));
            let toks: proc_macro2::TokenStream = a.parse().unwrap_or_else(|_| fail("TEMPLATE", x));
            scopes.last_mut().unwrap().push((transform::flat_tokens(toks), b.trim().to_string()));
        }
        else if t == "//@clear" {
            scopes.push(vec![]);
        }
        else if let Some(x) = t.strip_prefix("//@rename ") {
            let (a, b) = x.trim().split_once(' ').unwrap_or_else(|| fail("TEMPLATE", x));
            u.renames.insert(a.into(), b.trim().into());
        }
        else if let Some(x) = t.strip_prefix("//@literal ") {
            let (a, b) = x.trim().split_once(' ').unwrap_or_else(|| fail("TEMPLATE", x));
            u.literals.insert(a.into(), b.trim().into());
        }
        else if let Some(x) = t.strip_prefix("//@selfty ") {
            let (tr, ty) = match x.split_once(" for ") {
                Some((a, b)) => (Some(syn::parse_str::<syn::Path>(a).unwrap_or_else(|_| fail("TEMPLATE", x))), b),
                None => (None, x),
            };
            let ty: syn::Type = syn::parse_str(ty).unwrap_or_else(|_| fail("TEMPLATE", x));
            let trn = tr.as_ref().map(|p| p.segments.last().unwrap().ident.to_string()).unwrap_or_default();
            u.selfty.push((trn, crate::index::ty_name(&ty), tr, ty));
        }
    }
    for n in unknown {
        u.known.remove(&n);
    }
    // second pass: the directives
    enum Piece
    {
        Text(String),
        Dir(String, String, Opts, usize),
    }
    let mut pieces = vec![];
    let mut scope = 0;
    let mut i = 0;
    while i < lines.len() {
        let t = lines[i].trim();
        if t.starts_with("//@fn ") || t.starts_with("//@item ") || t.starts_with("//@const ") {
            let (kind, key) = t[3 ..].split_once(' ').unwrap();
            let mut o = Opts::default();
            let mut cur: Option<(String, String)> = None;
            i += 1;
            loop {
                if i >= lines.len() {
                    fail("TEMPLATE", &format!("no //@end for {key}"));
                }
                let t = lines[i].trim();
                if t == "//@end" {
                    break;
                }
                if let Some(x) = t.strip_prefix("//@ ") {
                    if let Some((k, v)) = cur.take() {
                        set(&mut o, &k, v);
                    }
                    let (k, v) = x.split_once(' ').unwrap_or((x, ""));
                    cur = Some((k.to_string(), v.to_string()));
                }
                else if let Some((_, v)) = &mut cur {
                    v.push('\n');
                    v.push_str(&lines[i]);
                }
                else {
                    fail("TEMPLATE", &format!("text before an option in {key}"));
                }
                i += 1;
            }
            if let Some((k, v)) = cur.take() {
                set(&mut o, &k, v);
            }
            pieces.push(Piece::Dir(kind.to_string(), key.trim().to_string(), o, scope));
        }
        else if t.starts_with("//@") {
            let k = t[3 ..].split_whitespace().next().unwrap_or("");
            if k == "clear" {
                scope += 1;
            }
            else if !["subst", "thread", "known", "unknown", "rename", "selfty", "literal"].contains(&k) {
                fail("TEMPLATE", &format!("unknown directive {t}"));
            }
        }
        else {
            pieces.push(Piece::Text(lines[i].clone()));
        }
        i += 1;
    }
    // renamed private functions and fields, found by their types
    for p in &pieces {
        if let Piece::Dir(kind, key, o, scope) = p {
            u.substs = scopes[*scope].clone();
            match kind.as_str() {
                "fn" => transform::resolve_fn(idx, &mut u, key, o),
                "item" => transform::resolve_item(idx, &mut u, key, o),
                _ => (),
            }
        }
    }
    let mut out = String::new();
    for p in pieces {
        match p {
            Piece::Text(l) => out.push_str(&l),
            Piece::Dir(kind, key, o, scope) => {
                u.substs = scopes[scope].clone();
                out.push_str(&match kind.as_str() {
                    "fn" if o.optional && idx.find_fn(&key).is_none() => String::new(),
                    "fn" => transform::emit_fn(idx, &mut u, &key, &o),
                    "item" => transform::emit_item(idx, &mut u, &key, &o),
                    _ => transform::emit_const(idx, &mut u, &key, &o),
                });
            },
        }
        out.push('\n');
    }
    let meta = format!("[{}]\n", u.meta.join(",\n "));
    (out, meta)
}

fn set(
    o: &mut Opts,
    k: &str,
    v: String,
)
{
    let words = || v.split_whitespace().map(str::to_string).collect::<Vec<_>>();
    match k {
        "name" => o.name = Some(v.trim().into()),
        "params" => o.params = words(),
        "ret" => o.ret = Some(v.trim().into()),
        "rettype" => o.rettype = Some(v.trim().into()),
        "attr" => o.attr.push(v.trim().into()),
        "looping" => {
            o.attr.push("#[verifier::exec_allows_no_decreases_clause]".into());
            o.attr.push("#[verifier::loop_isolation(false)]".into());
        },
        "ghost" => o.ghost = if v.trim().is_empty() { None } else { Some(v.trim().into()) },
        "ghostexpr" => o.ghostexpr = Some(v.trim().into()),
        "generics" => o.generics = Some(v.trim().into()),
        "where" => o.where_ = Some(v.trim().into()),
        "vis" => o.vis = Some(v.trim().into()),
        "optional" => o.optional = true,
        "calls" => {
            let w = words();
            o.calls.push((w[0].clone(), w[1].clone()));
        },
        "alt" => o.alts.push(Default::default()),
        "role" if !o.alts.is_empty() => {
            let (a, b) = v.split_once('=').unwrap_or_else(|| fail("TEMPLATE", &v));
            o.alts.last_mut().unwrap().0.push((a.trim().into(), b.trim().into()));
        },
        "loop" if !o.alts.is_empty() => o.alts.last_mut().unwrap().1.push(v),
        "pre" if !o.alts.is_empty() => o.alts.last_mut().unwrap().2.push_str(&v),
        "pre" => o.pre.push_str(&v),
        "post" => o.post.push_str(&v),
        "loop" => o.loops.push(v),
        "spec" => o.spec.push_str(&v),
        "extra" => o.extra.push_str(&v),
        "header" => o.header = Some(v.trim().into()),
        "fields" => o.fields = words(),
        "sig" => o.sig = Some(v.trim().into()),
        "subst" => {
            let (a, b) = v.split_once("=>").unwrap_or_else(|| fail("TEMPLATE", &v));
            let toks: proc_macro2::TokenStream = a.parse().unwrap_or_else(|_| fail("TEMPLATE", a));
            o.substs.push((transform::flat_tokens(toks), b.trim().to_string()));
        },
        "role" => {
            let (a, b) = v.split_once('=').unwrap_or_else(|| fail("TEMPLATE", &v));
            o.roles.push((a.trim().into(), b.trim().into()));
        },
        "ptype" => {
            let (a, b) = v.split_once('=').unwrap_or_else(|| fail("TEMPLATE", &v));
            o.ptypes.insert(a.trim().into(), b.trim().into());
        },
        _ => fail("TEMPLATE", &format!("unknown option {k}")),
    }
}
