//! SrcIndex of every function, type, alias and constant under a source tree (test code skipped).
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use syn::*;

#[derive(Clone)]
pub struct FnDef {
    pub file: String,
    pub qual: String,
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<Type>,
    pub impl_generics: Option<Generics>,
    pub trait_name: Option<String>,
    pub attrs: Vec<Attribute>,
}
#[derive(Clone)]
pub enum TyDef { Struct(ItemStruct), Enum(ItemEnum) }
#[derive(Default)]
pub struct SrcIndex {
    pub fns: Vec<FnDef>,
    pub types: BTreeMap<String, Vec<(String, TyDef)>>,
    pub aliases: BTreeMap<String, ItemType>,
    pub consts: BTreeMap<String, (Type, Expr)>,
    pub manual_impls: Vec<(String, String)>, // (trait, type)
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]"
    })
}
pub fn last_seg(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => last_seg(&r.elem),
        Type::Paren(r) => last_seg(&r.elem),
        Type::Group(r) => last_seg(&r.elem),
        _ => String::new(),
    }
}
fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for e in es {
        if e.is_dir() { walk(&e, out) } else if e.extension().map_or(false, |x| x == "rs") { out.push(e) }
    }
}
impl SrcIndex {
    pub fn build(root: &Path) -> (SrcIndex, Vec<String>) {
        let mut ix = SrcIndex::default();
        let mut errs = vec![];
        let mut fs = vec![];
        walk(root, &mut fs);
        for f in fs {
            let rel = f.strip_prefix(root).unwrap().to_string_lossy().to_string();
            if rel == "dataset/nuscenes/lib.rs" { continue; } // not part of the crate's module tree
            match std::fs::read_to_string(&f).map_err(|e| e.to_string()).and_then(|t| parse_file(&t).map_err(|e| e.to_string())) {
                Ok(file) => ix.items(&rel, "", &file.items),
                Err(e) => errs.push(format!("{rel}: {e}")),
            }
        }
        (ix, errs)
    }
    fn items(&mut self, file: &str, pre: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Fn(f) if !is_test(&f.attrs) => self.fns.push(FnDef {
                    file: file.into(), qual: format!("{pre}{}", f.sig.ident), sig: f.sig.clone(), block: (*f.block).clone(),
                    self_ty: None, impl_generics: None, trait_name: None, attrs: f.attrs.clone() }),
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content { self.items(file, &format!("{pre}{}::", m.ident), its) }
                }
                Item::Impl(im) if !is_test(&im.attrs) => {
                    let tn = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                    if let Some(t) = &tn { self.manual_impls.push((t.clone(), last_seg(&im.self_ty))) }
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if is_test(&f.attrs) { continue }
                            self.fns.push(FnDef {
                                file: file.into(), qual: format!("{pre}{}::{}", last_seg(&im.self_ty), f.sig.ident),
                                sig: f.sig.clone(), block: f.block.clone(), self_ty: Some((*im.self_ty).clone()),
                                impl_generics: Some(im.generics.clone()), trait_name: tn.clone(), attrs: f.attrs.clone() });
                        }
                    }
                }
                Item::Trait(t) => {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            if let Some(b) = &f.default {
                                self.fns.push(FnDef { file: file.into(), qual: format!("{pre}{}::{}", t.ident, f.sig.ident), sig: f.sig.clone(),
                                    block: b.clone(), self_ty: None, impl_generics: None, trait_name: Some(t.ident.to_string()), attrs: vec![] });
                            }
                        }
                    }
                }
                Item::Struct(s) => self.types.entry(s.ident.to_string()).or_default().push((file.into(), TyDef::Struct(s.clone()))),
                Item::Enum(s) => self.types.entry(s.ident.to_string()).or_default().push((file.into(), TyDef::Enum(s.clone()))),
                Item::Type(t) => { self.aliases.insert(t.ident.to_string(), t.clone()); }
                Item::Const(c) => { self.consts.insert(c.ident.to_string(), ((*c.ty).clone(), (*c.expr).clone())); }
                _ => {}
            }
        }
    }
    pub fn find_type(&self, name: &str) -> Option<&TyDef> { self.types.get(name).and_then(|v| v.first()).map(|x| &x.1) }
    pub fn find_fn(&self, file: &str, qual: &str) -> Vec<&FnDef> {
        let a: Vec<_> = self.fns.iter().filter(|f| f.file == file && f.qual == qual).collect();
        if !a.is_empty() { return a; }
        self.fns.iter().filter(|f| f.qual == qual).collect()
    }
    pub fn fns_named(&self, name: &str) -> Vec<&FnDef> {
        self.fns.iter().filter(|f| f.qual.rsplit("::").next() == Some(name)).collect()
    }
    /// Type of a field, if every struct of the crate that has a field of this name agrees on it.
    pub fn unique_field(&self, name: &str) -> Option<Type> {
        let mut r: Option<Type> = None;
        for v in self.types.values() {
            for (_, d) in v {
                if let TyDef::Struct(s) = d {
                    for f in &s.fields {
                        if f.ident.as_ref().map_or(false, |i| i == name) {
                            if let Some(t) = &r { if *t != f.ty { return None } }
                            r = Some(f.ty.clone());
                        }
                    }
                }
            }
        }
        r
    }
    pub fn field(&self, ty: &str, name: &str) -> Option<Type> {
        if let Some(TyDef::Struct(s)) = self.find_type(ty) {
            for f in &s.fields { if f.ident.as_ref().map_or(false, |i| i == name) { return Some(f.ty.clone()) } }
        }
        None
    }
}
