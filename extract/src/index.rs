//! Index of the items of the expanded crate.
use quote::ToTokens;
use syn::*;

pub struct FnEntry
{
    /// `Type::f`, `Type as Trait::f`, `trait Trait::f`, or `f` for a free function.
    pub key:      String,
    pub modpath:  String,
    pub sig:      Signature,
    pub block:    Option<Block>,
    pub impl_gen: Generics,
    pub self_ty:  Option<Type>,
    /// name of the trait when in a trait impl or a trait
    pub trait_:   Option<String>,
    pub trait_path: Option<Path>,
}
impl FnEntry
{
    pub fn shallow(&self) -> Self
    {
        Self {
            key:        self.key.clone(),
            modpath:    self.modpath.clone(),
            sig:        self.sig.clone(),
            block:      self.block.clone(),
            impl_gen:   self.impl_gen.clone(),
            self_ty:    self.self_ty.clone(),
            trait_:     self.trait_.clone(),
            trait_path: self.trait_path.clone(),
        }
    }
}
pub struct ItemEntry
{
    pub key:     String,
    pub modpath: String,
    pub item:    Item,
}
pub struct AssocEntry
{
    pub modpath: String,
    pub trait_:  String,
    pub self_:   String,
    pub name:    String,
    pub value:   String,
}
/// constants of impls and traits
pub struct ConstEntry
{
    pub key:     String,
    pub modpath: String,
    pub ty:      Type,
    pub expr:    Expr,
    pub impl_gen: Generics,
    pub self_ty:  Option<Type>,
}
#[derive(Default)]
pub struct Index
{
    pub fns:    Vec<FnEntry>,
    pub items:  Vec<ItemEntry>,
    pub assocs: Vec<AssocEntry>,
    pub consts: Vec<ConstEntry>,
}

pub fn ty_name(t: &Type) -> String
{
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_name(&r.elem),
        other => other.to_token_stream().to_string(),
    }
}

impl Index
{
    pub fn build(f: File) -> Self
    {
        let mut s = Self::default();
        s.items("", f.items);
        s
    }

    fn items(
        &mut self,
        path: &str,
        items: Vec<Item>,
    )
    {
        for it in items {
            self.item(path, it);
        }
    }

    fn block_items(
        &mut self,
        path: &str,
        b: &Block,
    )
    {
        for st in &b.stmts {
            match st {
                Stmt::Item(i) => self.item(path, i.clone()),
                Stmt::Expr(Expr::Block(b), _) => self.block_items(path, &b.block),
                _ => (),
            }
        }
    }

    fn item(
        &mut self,
        path: &str,
        it: Item,
    )
    {
        let sub = |n: &str| if path.is_empty() { n.to_string() } else { format!("{path}::{n}") };
        match it {
            Item::Mod(m) => {
                if let Some((_, its)) = m.content {
                    self.items(&sub(&m.ident.to_string()), its);
                }
            },
            Item::Fn(f) => {
                let n = f.sig.ident.to_string();
                self.block_items(&sub(&n), &f.block);
                self.fns.push(FnEntry {
                    key:      n,
                    modpath:  path.into(),
                    sig:      f.sig,
                    block:    Some(*f.block),
                    impl_gen: Generics::default(),
                    self_ty:  None,
                    trait_:   None,
                    trait_path: None,
                });
            },
            Item::Impl(im) => {
                let selfn = ty_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                // `From<X>` impls are told apart by their argument
                let trk = im.trait_.as_ref().map(|(_, p, _)| {
                    let l = p.segments.last().unwrap();
                    let n = l.ident.to_string();
                    match &l.arguments {
                        PathArguments::AngleBracketed(a) if n == "From" =>
                            format!("{n}<{}>", a.args.iter().map(|x| x.to_token_stream().to_string().replace(' ', "")).collect::<Vec<_>>().join(",")),
                        _ => n,
                    }
                });
                let pre = match &trk {
                    Some(t) => format!("{selfn} as {t}"),
                    None => selfn.clone(),
                };
                for x in im.items {
                    match x {
                        ImplItem::Fn(f) => {
                            let n = f.sig.ident.to_string();
                            self.block_items(&sub(&n), &f.block);
                            self.fns.push(FnEntry {
                                key:      format!("{pre}::{n}"),
                                modpath:  path.into(),
                                sig:      f.sig,
                                block:    Some(f.block),
                                impl_gen: im.generics.clone(),
                                self_ty:  Some((*im.self_ty).clone()),
                                trait_:   tr.clone(),
                                trait_path: im.trait_.as_ref().map(|x| x.1.clone()),
                            });
                        },
                        ImplItem::Type(t) => self.assocs.push(AssocEntry {
                            modpath: path.into(),
                            trait_:  im.trait_.as_ref().map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', "")).unwrap_or_default(),
                            self_:   im.self_ty.to_token_stream().to_string().replace(' ', ""),
                            name:    t.ident.to_string(),
                            value:   t.ty.to_token_stream().to_string().replace(' ', ""),
                        }),
                        ImplItem::Const(c) => {
                            self.assocs.push(AssocEntry {
                                modpath: path.into(),
                                trait_:  im.trait_.as_ref().map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', "")).unwrap_or_default(),
                                self_:   im.self_ty.to_token_stream().to_string().replace(' ', ""),
                                name:    format!("const {}", c.ident),
                                value:   c.expr.to_token_stream().to_string(),
                            });
                            self.consts.push(ConstEntry { key: format!("{pre}::{}", c.ident), modpath: path.into(), ty: c.ty, expr: c.expr, impl_gen: im.generics.clone(), self_ty: Some((*im.self_ty).clone()) });
                        },
                        _ => (),
                    }
                }
            },
            Item::Trait(t) => {
                let tn = t.ident.to_string();
                for x in &t.items {
                    match x {
                        TraitItem::Fn(f) => self.fns.push(FnEntry {
                            key:      format!("trait {tn}::{}", f.sig.ident),
                            modpath:  path.into(),
                            sig:      f.sig.clone(),
                            block:    f.default.clone(),
                            impl_gen: t.generics.clone(),
                            self_ty:  None,
                            trait_:   Some(tn.clone()),
                            trait_path: None,
                        }),
                        TraitItem::Const(c) => {
                            if let Some((_, e)) = &c.default {
                                self.consts.push(ConstEntry { key: format!("trait {tn}::{}", c.ident), modpath: path.into(), ty: c.ty.clone(), expr: e.clone(), impl_gen: t.generics.clone(), self_ty: None });
                            }
                        },
                        _ => (),
                    }
                }
                self.items.push(ItemEntry { key: tn, modpath: path.into(), item: Item::Trait(t) });
            },
            Item::Struct(s) => self.items.push(ItemEntry { key: s.ident.to_string(), modpath: path.into(), item: Item::Struct(s) }),
            Item::Enum(s) => self.items.push(ItemEntry { key: s.ident.to_string(), modpath: path.into(), item: Item::Enum(s) }),
            Item::Type(s) => self.items.push(ItemEntry { key: s.ident.to_string(), modpath: path.into(), item: Item::Type(s) }),
            Item::Const(c) => self.consts.push(ConstEntry { key: c.ident.to_string(), modpath: path.into(), ty: *c.ty, expr: *c.expr, impl_gen: Generics::default(), self_ty: None }),
            _ => (),
        }
    }

    /// `KEY` or `mod::path @ KEY` (the module path must contain the given one)
    pub fn find_fn(
        &self,
        spec: &str,
    ) -> Option<&FnEntry>
    {
        for alt in spec.split('|') {
            let (m, k) = split_key(alt);
            let found: Vec<&FnEntry> = self.fns.iter().filter(|f| f.key == k && mod_ok(&f.modpath, m)).collect();
            if found.len() == 1 {
                return Some(found[0]);
            }
            if found.len() > 1 {
                crate::fail("LOST-ANCHOR", &format!("ambiguous {spec}: {:?}", found.iter().map(|f| &f.modpath).collect::<Vec<_>>()));
            }
        }
        None
    }

    pub fn find_item(
        &self,
        spec: &str,
    ) -> Option<&ItemEntry>
    {
        let (m, k) = split_key(spec);
        let found: Vec<&ItemEntry> = self.items.iter().filter(|f| f.key == k && mod_ok(&f.modpath, m)).collect();
        if found.len() > 1 {
            crate::fail("LOST-ANCHOR", &format!("ambiguous item {spec}"));
        }
        found.first().copied()
    }

    pub fn find_const(
        &self,
        spec: &str,
    ) -> Option<&ConstEntry>
    {
        let (m, k) = split_key(spec);
        let found: Vec<&ConstEntry> = self.consts.iter().filter(|f| f.key == k && mod_ok(&f.modpath, m)).collect();
        if found.len() > 1 {
            crate::fail("LOST-ANCHOR", &format!("ambiguous const {spec}"));
        }
        found.first().copied()
    }
}

fn split_key(s: &str) -> (&str, &str)
{
    match s.split_once(" @ ") {
        Some((m, k)) => (m.trim(), k.trim()),
        None => ("", s.trim()),
    }
}
pub fn mod_ok(
    have: &str,
    want: &str,
) -> bool
{
    if want.is_empty() {
        return true;
    }
    // ordered subsequence of segments
    let mut it = have.split("::");
    want.split("::").all(|w| it.any(|h| h == w))
}
