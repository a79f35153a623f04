//! Light types: enough to choose between translations, never trusted for soundness
//! (the printed program is type checked again by rustc inside Verus).
use crate::index::SrcIndex;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Unk, F, Int(String), Bool, Str, Arr(Box<Ty>, usize), Vec(Box<Ty>), Opt(Box<Ty>), Res(Box<Ty>, Box<Ty>),
    Map(Box<Ty>, Box<Ty>), Named(String, Vec<Ty>), Tup(Vec<Ty>), Mat(usize, usize), Unit,
}
impl Ty {
    pub fn elem(&self) -> Ty {
        match self {
            Ty::Arr(t, _) | Ty::Vec(t) => (**t).clone(),
            Ty::Map(k, v) => Ty::Tup(vec![(**k).clone(), (**v).clone()]),
            Ty::Opt(t) => (**t).clone(),
            Ty::Named(n, a) if n == "Iter" && !a.is_empty() => Ty::Named("WithDataset".into(), vec![a[0].clone()]),
            _ => Ty::Unk,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Ty::Unk => "?".into(), Ty::F => "F".into(), Ty::Int(s) => s.clone(), Ty::Bool => "bool".into(), Ty::Str => "str".into(),
            Ty::Arr(t, n) => format!("[{};{}]", t.show(), n), Ty::Vec(t) => format!("Vec<{}>", t.show()),
            Ty::Opt(t) => format!("Option<{}>", t.show()), Ty::Res(t, e) => format!("Result<{},{}>", t.show(), e.show()),
            Ty::Map(k, v) => format!("Map<{},{}>", k.show(), v.show()), Ty::Named(n, a) if a.is_empty() => n.clone(),
            Ty::Named(n, a) => format!("{}<{}>", n, a.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
            Ty::Tup(a) => format!("({})", a.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
            Ty::Mat(r, c) => format!("Mat{r}{c}"), Ty::Unit => "()".into(),
        }
    }
}
fn int_lit(e: &Expr) -> Option<usize> {
    if let Expr::Lit(l) = e { if let Lit::Int(i) = &l.lit { return i.base10_parse().ok() } }
    None
}
pub fn const_usize(ix: &SrcIndex, e: &Expr) -> Option<usize> {
    match e {
        Expr::Path(p) => p.path.get_ident().and_then(|i| ix.consts.get(&i.to_string())).and_then(|(_, e)| const_usize(ix, e)),
        Expr::Block(b) if b.block.stmts.len() == 1 => if let Stmt::Expr(e, None) = &b.block.stmts[0] { const_usize(ix, e) } else { None },
        _ => int_lit(e),
    }
}
fn gargs(s: &PathSegment) -> Vec<&GenericArgument> {
    match &s.arguments { PathArguments::AngleBracketed(a) => a.args.iter().collect(), _ => vec![] }
}
pub fn tyargs(s: &PathSegment) -> Vec<&Type> {
    gargs(s).into_iter().filter_map(|a| if let GenericArgument::Type(t) = a { Some(t) } else { None }).collect()
}
fn cargs(ix: &SrcIndex, s: &PathSegment) -> Vec<usize> {
    gargs(s).into_iter().filter_map(|a| match a {
        GenericArgument::Const(e) => const_usize(ix, e), _ => None }).collect()
}
pub fn expand(ix: &SrcIndex, t: &Type) -> Type {
    // aliases of the crate, with their type parameters substituted
    if let Type::Path(p) = t {
        let s = p.path.segments.last().unwrap();
        if let Some(a) = ix.aliases.get(&s.ident.to_string()) {
            let mut r = (*a.ty).clone();
            let names: Vec<String> = a.generics.type_params().map(|g| g.ident.to_string()).collect();
            let args = tyargs(s);
            struct Sub<'a> { names: &'a [String], args: &'a [&'a Type] }
            impl<'a> visit_mut::VisitMut for Sub<'a> {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    if let Type::Path(p) = t { if let Some(i) = p.path.get_ident() {
                        if let Some(k) = self.names.iter().position(|n| i == n) { if let Some(a) = self.args.get(k) { *t = (*a).clone(); return } }
                    } }
                    visit_mut::visit_type_mut(self, t)
                }
            }
            visit_mut::VisitMut::visit_type_mut(&mut Sub { names: &names, args: &args }, &mut r);
            return expand(ix, &r);
        }
    }
    t.clone()
}
pub fn light(ix: &SrcIndex, t: &Type, self_ty: Option<&Type>) -> Ty {
    let t = expand(ix, t);
    let go = |t: &Type| light(ix, t, self_ty);
    match &t {
        Type::Reference(r) => go(&r.elem), Type::Paren(r) => go(&r.elem), Type::Group(r) => go(&r.elem),
        Type::Slice(s) => Ty::Vec(Box::new(go(&s.elem))),
        Type::Array(a) => match const_usize(ix, &a.len) { Some(n) => Ty::Arr(Box::new(go(&a.elem)), n), None => Ty::Vec(Box::new(go(&a.elem))) },
        Type::Tuple(t) if t.elems.is_empty() => Ty::Unit,
        Type::Tuple(t) => Ty::Tup(t.elems.iter().map(go).collect()),
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let a: Vec<Ty> = tyargs(s).into_iter().map(go).collect();
            let g = |i: usize| Box::new(a.get(i).cloned().unwrap_or(Ty::Unk));
            match s.ident.to_string().as_str() {
                "f64" | "f32" | "F" => Ty::F, "bool" => Ty::Bool, "String" | "str" => Ty::Str,
                x @ ("usize" | "u64" | "i64" | "u32" | "i32" | "u8" | "i8" | "u16" | "i16" | "u128" | "i128" | "isize") => Ty::Int(x.into()),
                "Vec" | "VecDeque" => Ty::Vec(g(0)), "Option" => Ty::Opt(g(0)), "Result" => Ty::Res(g(0), g(1)), "HashMap" | "HMap" => Ty::Map(g(0), g(1)),
                "Box" => if let Some(t) = a.first() { t.clone() } else { Ty::Unk },
                "SMatrix" => { let c = cargs(ix, s); if c.len() == 2 { Ty::Mat(c[0], c[1]) } else { Ty::Unk } }
                "Self" => self_ty.map_or(Ty::Unk, |t| light(ix, t, None)),
                "_" => Ty::Unk,
                x => Ty::Named(x.into(), a),
            }
        }
        _ => Ty::Unk,
    }
}
/// Source type printed for the verifier.
pub fn emit(ix: &SrcIndex, t: &Type, rename: &dyn Fn(&str) -> Option<String>) -> std::result::Result<String, String> {
    let t = expand(ix, t);
    let go = |t: &Type| emit(ix, t, rename);
    Ok(match &t {
        Type::Reference(r) => format!("&{}{}{}", r.lifetime.as_ref().map_or(String::new(), |l| format!("{l} ")), if r.mutability.is_some() { "mut " } else { "" }, go(&r.elem)?),
        Type::Paren(r) => go(&r.elem)?, Type::Group(r) => go(&r.elem)?,
        Type::Slice(s) => format!("[{}]", go(&s.elem)?),
        Type::Array(a) => format!("[{}; {}]", go(&a.elem)?, const_usize(ix, &a.len).ok_or("array length")?),
        Type::Tuple(t) => { let v: std::result::Result<Vec<_>, _> = t.elems.iter().map(go).collect(); let v = v?; if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) } }
        Type::Infer(_) => "_".into(),
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let n = s.ident.to_string();
            if n == "SMatrix" { let c = cargs(ix, s); if c.len() == 2 { return Ok(format!("Mat{}{}", c[0], c[1])) } }
            if n == "Box" { if let Some(Type::TraitObject(o)) = tyargs(s).first() {
                if let Some(TypeParamBound::Trait(b)) = o.bounds.first() { if b.path.segments.last().unwrap().ident == "Error" { return Ok("DynErr".into()) } }
            } }
            let mut a = vec![];
            for g in gargs(s) {
                match g { GenericArgument::Type(t) => a.push(go(t)?), GenericArgument::Lifetime(l) => a.push(l.to_string()), _ => return Err("generic argument".into()) }
            }
            let m = match n.as_str() { "f64" => "F".to_string(), "HashMap" => "HMap".into(), "NaiveDateTime" => "Time".into(), "PathBuf" => "VPath".into(), "Path" => "VPath".into(), _ => rename(&n).unwrap_or(n) };
            let pre = if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" { "Self::" } else { "" };
            if a.is_empty() { format!("{pre}{m}") } else { format!("{pre}{m}<{}>", a.join(", ")) }
        }
        Type::TraitObject(o) => { let s = quote::quote!(#o).to_string(); s }
        Type::Never(_) => "!".into(),
        _ => return Err("type".into()),
    })
}
