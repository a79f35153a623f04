//! Translation of one function body into the Verus subset.
use crate::elim;
use crate::index::*;
use crate::ty::*;
use quote::quote;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Clone)]
pub enum Kind { Plain, Closure(ExprClosure), Iter(Expr) }
#[derive(Clone)]
pub struct Var { pub ty: Ty, pub mutable: bool, pub kind: Kind, pub id: usize }

#[derive(Default)]
pub struct Req {
    pub known: HashSet<String>,
    pub rename_m: HashMap<String, String>,
    pub rename_p: HashMap<String, String>,
    pub rename_t: HashMap<String, String>,
    pub unroll: usize,
}
pub struct Loop { pub id: usize, pub kind: &'static str, pub i: String, pub n: String, pub seqs: Vec<String>, pub sty: String, pub outer: Vec<usize>, pub vars: Vec<(String, bool, String)>, pub in_fn: String }
pub struct Clos { pub id: usize, pub method: String, pub params: Vec<String> }

pub struct Tr<'a> {
    pub ix: &'a SrcIndex,
    pub req: &'a Req,
    pub env: Vec<BTreeMap<String, Var>>,
    pub order: Vec<String>,
    pub self_ty: Option<Type>,
    pub self_name: String,
    pub ret: Ty,
    pub can_ret: bool,
    pub loops: Vec<Loop>,
    pub clos: Vec<Clos>,
    pub stack: Vec<usize>,
    pub ctr: usize,
    pub lits: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub consts: BTreeSet<String>,
    pub depth: usize,
    pub file: String,
    pub local_fns: Vec<FnDef>,
    pub cur: String,
    pub gen: HashMap<String, Ty>,
    pub shadow: Vec<String>,
    pub nvar: usize,
    pub refined: HashMap<(usize, String), Ty>,
    pub found: HashMap<(usize, String), Ty>,
}
pub struct Src { pub pre: String, pub n: String, pub at: Box<dyn Fn(&str) -> String>, pub ty: Ty, pub stat: Option<usize>, pub seqs: Vec<String>, pub stages: Vec<Stage> }
#[derive(Clone)]
pub enum Stage { Filter(Expr), FilterMap(Expr), Map(Expr), Enum(String), Cloned, Flat(Option<Expr>), TakeWhile(Expr, String), Inspect(Expr) }

const SOURCES: &[&str] = &["iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "into_values", "into_keys", "row_iter", "drain", "windows"];
const ADAPT: &[&str] = &["map", "filter", "filter_map", "enumerate", "zip", "rev", "skip", "take", "cloned", "copied", "progress_with", "inspect", "by_ref", "flat_map", "flatten", "take_while", "chain", "fuse"];
const TERM: &[&str] = &["for_each", "fold", "collect", "collect_vec", "sum", "product", "all", "any", "position", "find", "find_map", "count", "min", "max", "min_by", "max_by", "min_by_key", "max_by_key", "last", "next", "nth", "unzip", "partition", "into_group_map", "try_for_each", "len"];

fn un(e: &Expr) -> &Expr { match e { Expr::Paren(p) => un(&p.expr), Expr::Group(p) => un(&p.expr), _ => e } }
fn path_id(e: &Expr) -> Option<String> { if let Expr::Path(p) = un(e) { p.path.get_ident().map(|i| i.to_string()) } else { None } }
fn has_break(e: &Expr) -> bool {
    struct V(bool, usize);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Break(_) | Expr::Continue(_) if self.1 == 0 => self.0 = true,
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => { self.1 += 1; visit::visit_expr(self, e); self.1 -= 1 }
                Expr::Closure(_) => {}
                _ => visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V(false, 0); visit::Visit::visit_expr(&mut v, e); v.0
}
fn pat_has_ref(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V { fn visit_pat(&mut self, p: &'a Pat) { if matches!(p, Pat::Reference(_) | Pat::Slice(_)) { self.0 = true } visit::visit_pat(self, p) } }
    let mut v = V(false); visit::Visit::visit_pat(&mut v, p); v.0
}
fn mentions(e: &Expr, n: &str) -> bool {
    struct V<'x>(&'x str, bool);
    impl<'a, 'x> visit::Visit<'a> for V<'x> { fn visit_path(&mut self, p: &'a Path) { if p.is_ident(self.0) { self.1 = true } visit::visit_path(self, p) } }
    let mut v = V(n, false); visit::Visit::visit_expr(&mut v, e); v.1
}
fn is_lit(e: &Expr) -> bool { match un(e) { Expr::Lit(l) => matches!(l.lit, Lit::Int(_)), Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && is_lit(&u.expr), _ => false } }
fn is_str_lit(e: &Expr) -> bool { matches!(un(e), Expr::Lit(l) if matches!(l.lit, Lit::Str(_))) }

fn merge(a: &Ty, b: &Ty) -> Ty {
    match (a, b) {
        (Ty::Unk, b) => b.clone(), (Ty::Int(x), b @ Ty::Int(_)) if x == "int" => b.clone(),
        (Ty::Vec(x), Ty::Vec(y)) => Ty::Vec(Box::new(merge(x, y))), (Ty::Vec(x), Ty::Arr(y, _)) => Ty::Vec(Box::new(merge(x, y))),
        (Ty::Opt(x), Ty::Opt(y)) => Ty::Opt(Box::new(merge(x, y))),
        (Ty::Arr(x, n), Ty::Arr(y, _) | Ty::Vec(y)) => Ty::Arr(Box::new(merge(x, y)), *n),
        (Ty::Map(k, v), Ty::Map(k2, v2)) => Ty::Map(Box::new(merge(k, k2)), Box::new(merge(v, v2))),
        (Ty::Res(k, v), Ty::Res(k2, v2)) => Ty::Res(Box::new(merge(k, k2)), Box::new(merge(v, v2))),
        (Ty::Tup(x), Ty::Tup(y)) if x.len() == y.len() => Ty::Tup(x.iter().zip(y).map(|(a, b)| merge(a, b)).collect()),
        _ => a.clone(),
    }
}
impl<'a> Tr<'a> {
    pub fn new(ix: &'a SrcIndex, req: &'a Req, file: &str) -> Self {
        Tr { ix, req, env: vec![BTreeMap::new()], order: vec![], self_ty: None, self_name: "self".into(), ret: Ty::Unk, can_ret: true, loops: vec![], clos: vec![], stack: vec![], ctr: 0,
            lits: BTreeSet::new(), inlined: vec![], consts: BTreeSet::new(), depth: 0, file: file.into(), local_fns: vec![], cur: String::new(), gen: HashMap::new(), shadow: vec![], nvar: 0, refined: HashMap::new(), found: HashMap::new() }
    }
    fn fresh(&mut self) -> usize { self.ctr += 1; self.ctr }
    fn push(&mut self) { self.env.push(BTreeMap::new()) }
    fn pop(&mut self) { self.env.pop(); }
    pub fn push_scope(&mut self) { self.push() }
    pub fn bind_pub(&mut self, p: &Pat, e: &str) -> R<String> { self.bind(p, e) }
    pub fn bind_var(&mut self, n: &str, ty: Ty, mutable: bool, kind: Kind) {
        // a closure or iterator kept for later inlining must still see the variables it captured
        if self.var(n).is_some() {
            for s in &self.env { for (k, v) in s { let e = match &v.kind { Kind::Plain => continue, Kind::Closure(c) => Expr::Closure(c.clone()), Kind::Iter(e) => e.clone() }; if k != n && mentions(&e, n) { self.shadow.push(format!("{n} shadows a variable captured by {k}")) } } }
        }
        self.nvar += 1;
        let ty = match self.refined.get(&(self.nvar, n.to_string())) { Some(t) => merge(&ty, t), None => ty };
        self.env.last_mut().unwrap().insert(n.into(), Var { ty, mutable, kind, id: self.nvar });
    }
    /// Records that the value held by the place `e` has type `t`.
    fn refine(&mut self, e: &Expr, t: Ty) {
        if t == Ty::Unk { return }
        match un(e) {
            Expr::Path(_) => {
                let Some(n) = path_id(e) else { return };
                let Some(v) = self.env.iter_mut().rev().find_map(|m| m.get_mut(&n)) else { return };
                if !matches!(v.kind, Kind::Plain) { return }
                let m = merge(&v.ty, &t);
                if m != v.ty { v.ty = m.clone(); let id = v.id; self.found.insert((id, n), m); }
            }
            Expr::Index(i) => match self.ty(&i.expr) { Ty::Map(k, _) => self.refine(&i.expr, Ty::Map(k, Box::new(t))), Ty::Arr(_, n) => self.refine(&i.expr, Ty::Arr(Box::new(t), n)), Ty::Vec(_) => self.refine(&i.expr, Ty::Vec(Box::new(t))), _ => {} },
            Expr::Reference(r) => self.refine(&r.expr, t),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.refine(&u.expr, t),
            Expr::Tuple(x) => if let Ty::Tup(v) = &t { if v.len() == x.elems.len() { for (a, b) in x.elems.iter().zip(v) { self.refine(a, b.clone()) } } },
            Expr::Call(c) => if let Some(n) = path_id(&c.func) { match (n.as_str(), &t, c.args.first()) { ("Some", Ty::Opt(b), Some(a)) => self.refine(a, (**b).clone()), ("Ok", Ty::Res(b, _), Some(a)) => self.refine(a, (**b).clone()), _ => {} } },
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "clone" | "to_vec" | "as_mut" | "iter" | "iter_mut" | "to_owned") => self.refine(&m.receiver, t),
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "unwrap" | "expect") => if let Expr::MethodCall(g) = un(&m.receiver) { if g.method == "get_mut" { match self.ty(&g.receiver) { Ty::Map(k, _) => self.refine(&g.receiver, Ty::Map(k, Box::new(t))), Ty::Vec(_) => self.refine(&g.receiver, Ty::Vec(Box::new(t))), _ => {} } } },
            _ => {}
        }
    }
    fn var(&self, n: &str) -> Option<&Var> { self.env.iter().rev().find_map(|m| m.get(n)) }
    pub fn lt(&self, t: &Type) -> Ty {
        if let Type::Path(p) = t { if let Some(i) = p.path.get_ident() { if let Some(t) = self.gen.get(&i.to_string()) { return t.clone() } } }
        if let Type::Reference(r) = t { return self.lt(&r.elem) }
        light(self.ix, t, self.self_ty.as_ref())
    }
    fn emit_ty(&self, t: &Type) -> R<String> {
        let rn = |n: &str| self.rename_ty(n);
        emit(self.ix, t, &rn)
    }
    fn rename_ty(&self, n: &str) -> Option<String> { self.req.rename_t.get(n).cloned() }

    // ---------- light typing ----------
    pub fn ty(&self, e: &Expr) -> Ty {
        match un(e) {
            Expr::Lit(l) => match &l.lit { Lit::Float(_) => Ty::F, Lit::Int(i) if !i.suffix().is_empty() => if i.suffix().starts_with('f') { Ty::F } else { Ty::Int(i.suffix().into()) }, Lit::Int(_) => Ty::Int("int".into()), Lit::Bool(_) => Ty::Bool, Lit::Str(_) => Ty::Str, _ => Ty::Unk },
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    if n == "self" { return self.self_ty.as_ref().map_or(Ty::Unk, |t| self.lt(t)) }
                    if let Some(v) = self.var(&n) { return v.ty.clone() }
                    if let Some((t, _)) = self.ix.consts.get(&n) { return self.lt(t) }
                    if n == "PI" { return Ty::F }
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.iter().any(|s| s == "f64") { return Ty::F }
                if segs.len() >= 2 {
                    let t = &segs[segs.len() - 2];
                    if ["usize", "u64", "i64", "u32", "i32"].contains(&t.as_str()) { return Ty::Int(t.clone()) }
                    if self.ix.find_type(t).is_some() { return Ty::Named(t.clone(), vec![]) }
                    if t == "Self" { return self.self_ty.as_ref().map_or(Ty::Unk, |t| self.lt(t)) }
                }
                Ty::Unk
            }
            Expr::Unary(u) => match u.op { UnOp::Not(_) => { let t = self.ty(&u.expr); if t == Ty::Unk { Ty::Bool } else { t } } _ => self.ty(&u.expr) },
            Expr::Reference(r) => self.ty(&r.expr),
            Expr::Binary(b) => match b.op {
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => Ty::Bool,
                _ => { let (l, r) = (self.ty(&b.left), self.ty(&b.right)); if let (Ty::Mat(a, _), Ty::Mat(_, d)) = (&l, &r) { if matches!(b.op, BinOp::Mul(_)) { return Ty::Mat(*a, *d) } } if l == Ty::Unk || l == Ty::Int("int".into()) { r } else { l } }
            },
            Expr::Field(f) => {
                let b = self.ty(&f.base);
                match (&b, &f.member) {
                    (Ty::Named(n, a), Member::Named(m)) => {
                        let mm = m.to_string();
                        if n == "WithDataset" && mm != "dataset" && mm != "inner" { if let Some(Ty::Named(k, _)) = a.first() { return self.field_ty(k, &mm) } }
                        if n == "WithDataset" && mm == "inner" { return a.first().cloned().unwrap_or(Ty::Unk) }
                        self.field_ty(n, &mm)
                    }
                    (Ty::Tup(v), Member::Unnamed(i)) => v.get(i.index as usize).cloned().unwrap_or(Ty::Unk),
                    (Ty::Unk, Member::Named(m)) => self.ix.unique_field(&m.to_string()).map_or(Ty::Unk, |t| self.lt(&t)),
                    _ => Ty::Unk,
                }
            }
            Expr::Index(i) => match self.ty(&i.expr) { Ty::Map(_, v) => *v, Ty::Mat(_, _) => Ty::F, t => if matches!(un(&i.index), Expr::Range(_)) { Ty::Vec(Box::new(t.elem())) } else { t.elem() } },
            Expr::Cast(c) => self.lt(&c.ty),
            Expr::Tuple(t) => Ty::Tup(t.elems.iter().map(|x| self.ty(x)).collect()),
            Expr::Array(a) => Ty::Arr(Box::new(a.elems.first().map_or(Ty::Unk, |x| self.ty(x))), a.elems.len()),
            Expr::Repeat(r) => match const_usize(self.ix, &r.len) { Some(n) => Ty::Arr(Box::new(self.ty(&r.expr)), n), None => Ty::Unk },
            Expr::Struct(s) => { let n = s.path.segments.last().unwrap().ident.to_string(); if n == "Self" { self.self_ty.as_ref().map_or(Ty::Unk, |t| self.lt(t)) } else { Ty::Named(n, vec![]) } }
            Expr::Try(t) => match self.ty(&t.expr) { Ty::Res(a, _) | Ty::Opt(a) => *a, _ => Ty::Unk },
            Expr::Block(b) => self.block_ty(&b.block),
            Expr::If(i) => { let t = self.block_ty(&i.then_branch); if t == Ty::Unk { i.else_branch.as_ref().map_or(Ty::Unk, |e| self.ty(&e.1)) } else { t } }
            Expr::Match(m) => m.arms.iter().map(|a| self.ty(&a.body)).find(|t| *t != Ty::Unk).unwrap_or(Ty::Unk),
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() { "format" => Ty::Str, "matches" => Ty::Bool, "vec" => {
                    if let Some((a, _)) = vec_repeat(&m.mac) { Ty::Vec(Box::new(self.ty(&a))) } else { let v = mac_args(&m.mac); Ty::Vec(Box::new(v.first().map_or(Ty::Unk, |x| self.ty(x)))) } } _ => Ty::Unk }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = un(&c.func) {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    if last == "Some" { return Ty::Opt(Box::new(c.args.first().map_or(Ty::Unk, |x| self.ty(x)))) }
                    if last == "Ok" { return Ty::Res(Box::new(c.args.first().map_or(Ty::Unk, |x| self.ty(x))), Box::new(Ty::Unk)) }
                    if let Some(Var { kind: Kind::Closure(k), .. }) = self.var(&last) { if let ReturnType::Type(_, t) = &k.output { return self.lt(t) } return self.ty(&k.body) }
                    if segs.len() >= 2 {
                        let mut t = segs[segs.len() - 2].clone();
                        if t == "Self" { if let Some(s) = &self.self_ty { t = last_seg(s) } }
                        if last == "deserialize" { if let Ok(q) = parse_str::<Type>(&t) { return Ty::Res(Box::new(self.lt(&q)), Box::new(Ty::Unk)) } }
                        match t.as_str() { "Vec" => return Ty::Vec(Box::new(Ty::Unk)), "HashMap" => return Ty::Map(Box::new(Ty::Unk), Box::new(Ty::Unk)), "String" => return Ty::Str, _ => {} }
                        if let Some(a) = self.ix.aliases.get(&t) { let x = self.lt(&a.ty); if let Ty::Mat(..) = x { return x } }
                        if let Some(f) = self.ix.fns.iter().find(|f| f.qual == format!("{t}::{last}")) { return self.fn_ret(f) }
                        if t == "CornerMatrix" { return Ty::Mat(4, 3) }
                    }
                    let fs: Vec<_> = self.ix.fns_named(&last).into_iter().filter(|f| f.self_ty.is_none()).collect();
                    if fs.len() == 1 { return self.fn_ret(fs[0]) }
                }
                Ty::Unk
            }
            Expr::MethodCall(m) => self.mty(m),
            Expr::Range(r) => r.end.as_ref().map_or(Ty::Unk, |x| self.ty(x)),
            _ => Ty::Unk,
        }
    }
    fn fn_ret(&self, f: &FnDef) -> Ty { match &f.sig.output { ReturnType::Type(_, t) => light(self.ix, t, f.self_ty.as_ref()), _ => Ty::Unit } }
    fn field_ty(&self, n: &str, m: &str) -> Ty { self.ix.field(n, m).map_or_else(|| self.ix.unique_field(m).map_or(Ty::Unk, |t| self.lt(&t)), |t| self.lt(&t)) }
    fn block_ty(&self, b: &Block) -> Ty {
        let Some(Stmt::Expr(e, None)) = b.stmts.last() else { return Ty::Unit };
        if !b.stmts.iter().any(|s| matches!(s, Stmt::Local(_))) { return self.ty(e) }
        let mut t = Tr::new(self.ix, self.req, &self.file);
        t.env = self.env.clone(); t.self_ty = self.self_ty.clone(); t.push();
        for s in &b.stmts { if let Stmt::Local(l) = s { let x = l.init.as_ref().map_or(Ty::Unk, |i| t.ty(&i.expr)); t.bind_pat_ty(&l.pat, &x) } }
        t.ty(e)
    }
    fn mty(&self, m: &ExprMethodCall) -> Ty {
        let n = m.method.to_string();
        let rt = || self.ty(&m.receiver);
        match n.as_str() {
            "len" | "count" | "capacity" => Ty::Int("usize".into()),
            "is_empty" | "contains" | "contains_key" | "is_some" | "is_none" | "is_ok" | "is_err" | "all" | "any" | "is_nan" | "is_finite" | "starts_with" | "ends_with" | "eq" | "ne" | "lt" | "le" | "gt" | "ge" => Ty::Bool,
            "sqrt" | "hypot" | "atan2" | "atan" | "sin" | "cos" | "powi" | "powf" | "asin" | "acos" | "tan" | "exp" | "ln" | "rem_euclid" | "to_radians" | "to_degrees" | "signum" if rt() != Ty::Int("i64".into()) => Ty::F,
            "abs" | "min" | "max" | "clamp" if !m.args.is_empty() || n == "abs" => rt(),
            "clone" | "to_owned" | "as_ref" | "as_mut" | "iter" | "iter_mut" | "into_iter" | "as_slice" | "as_mut_slice" | "to_vec" | "collect_vec" | "copied" | "cloned" | "rev" | "transpose" | "borrow" | "deref" | "into" | "skip" | "take" | "saturating_sub" | "wrapping_add" | "filter" | "inspect" | "progress_with" | "then_with" | "by_ref" | "sub" | "add" | "mul" | "div" | "neg" | "min_by_" => {
                match (n.as_str(), rt()) { ("transpose", Ty::Mat(a, b)) => Ty::Mat(b, a), ("iter" | "into_iter" | "iter_mut", t @ (Ty::Map(..) | Ty::Arr(..))) => Ty::Vec(Box::new(t.elem())), ("to_vec", t) => Ty::Vec(Box::new(t.elem())), (_, t) => t }
            }
            "to_string" | "to_lowercase" | "as_str" | "to_str" | "trim" => Ty::Str,
            "first" | "last" | "min_by" | "max_by" | "min_by_key" | "max_by_key" | "next" | "find" | "nth" | "pop" | "get_mut" | "get" | "remove" | "min" | "max" | "last_mut" | "first_mut" => match rt() { Ty::Map(_, v) => Ty::Opt(v), Ty::Named(..) | Ty::Unk => self.user_m(&n, &rt()), t => if n == "remove" && matches!(t, Ty::Vec(_)) { t.elem() } else { Ty::Opt(Box::new(t.elem())) } },
            "unwrap" | "expect" | "unwrap_or" | "unwrap_or_default" | "unwrap_or_else" => match rt() { Ty::Opt(t) | Ty::Res(t, _) => *t, _ => Ty::Unk },
            "ok_or" | "ok_or_else" => match rt() { Ty::Opt(t) => Ty::Res(t, Box::new(Ty::Unk)), _ => Ty::Res(Box::new(Ty::Unk), Box::new(Ty::Unk)) },
            "map_err" => match rt() { Ty::Res(t, _) => Ty::Res(t, Box::new(Ty::Unk)), _ => Ty::Res(Box::new(Ty::Unk), Box::new(Ty::Unk)) },
            "ok" => match rt() { Ty::Res(t, _) => Ty::Opt(t), _ => Ty::Opt(Box::new(Ty::Unk)) },
            "position" => Ty::Opt(Box::new(Ty::Int("usize".into()))),
            "into_group_map" => match rt().elem() { Ty::Tup(v) if v.len() == 2 => Ty::Map(Box::new(v[0].clone()), Box::new(Ty::Vec(Box::new(v[1].clone())))), _ => Ty::Map(Box::new(Ty::Unk), Box::new(Ty::Unk)) },
            "enumerate" => Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int("usize".into()), rt().elem()]))),
            "keys" => match rt() { Ty::Map(k, _) => Ty::Vec(k), _ => Ty::Unk },
            "values" | "values_mut" | "into_values" => match rt() { Ty::Map(_, k) => Ty::Vec(k), _ => Ty::Unk },
            "zip" => Ty::Vec(Box::new(Ty::Tup(vec![rt().elem(), self.ty(&m.args[0]).elem()]))),
            "sum" | "product" => match &m.turbofish { Some(t) => { if let Some(GenericArgument::Type(t)) = t.args.first() { self.lt(t) } else { Ty::Unk } } None => rt().elem() },
            "map" | "and_then" => match rt() {
                Ty::Opt(_) => { let r = self.clos_ret(&m.args[0], &[rt().elem()]); if n == "map" { Ty::Opt(Box::new(r)) } else { r } }
                Ty::Res(a, e) => { let r = self.clos_ret(&m.args[0], &[*a]); if n == "map" { Ty::Res(Box::new(r), e) } else { r } }
                t => Ty::Vec(Box::new(self.clos_ret(&m.args[0], &[t.elem()]))),
            },
            "fold" => self.ty(&m.args[0]),
            "collect" => match &m.turbofish { Some(t) => if let Some(GenericArgument::Type(t)) = t.args.first() { let t = self.lt(t); match t { Ty::Vec(x) if *x == Ty::Unk => rt(), t @ Ty::Map(..) => match rt().elem() { Ty::Tup(v) if v.len() == 2 => merge(&t, &Ty::Map(Box::new(v[0].clone()), Box::new(v[1].clone()))), _ => t }, t => t } } else { rt() }, None => rt() },
            "timestamp_millis" | "timestamp_micros" | "timestamp" => Ty::Int("i64".into()),
            "partial_cmp" => Ty::Opt(Box::new(Ty::Unk)),
            "row" => Ty::Mat(1, 3),
            "row_iter" => Ty::Vec(Box::new(match rt() { Ty::Mat(_, c) => Ty::Mat(1, c), _ => Ty::Unk })),
            _ => self.user_m(&n, &rt()),
        }
    }
    fn user_m(&self, n: &str, rt: &Ty) -> Ty {
        if let Ty::Named(t, _) = rt { if let Some(f) = self.ix.fns.iter().find(|f| f.qual == format!("{t}::{n}")) { return self.fn_ret(f) } }
        let fs: Vec<_> = self.ix.fns_named(n).into_iter().filter(|f| f.self_ty.is_some()).collect();
        if fs.len() == 1 { return self.fn_ret(fs[0]) }
        Ty::Unk
    }
    fn clos_ret(&self, e: &Expr, args: &[Ty]) -> Ty {
        match un(e) {
            Expr::Closure(c) => {
                // type the body with the parameters bound
                let mut t = Tr::new(self.ix, self.req, &self.file);
                t.env = self.env.clone(); t.self_ty = self.self_ty.clone(); t.push();
                for (p, a) in c.inputs.iter().zip(args) { t.bind_pat_ty(p, a) }
                if let ReturnType::Type(_, x) = &c.output { return t.lt(x) }
                t.ty(&c.body)
            }
            _ => Ty::Unk,
        }
    }
    pub fn bind_pat_ty(&mut self, p: &Pat, t: &Ty) {
        match p {
            Pat::Ident(i) => { self.bind_var(&i.ident.to_string(), t.clone(), i.mutability.is_some(), Kind::Plain); if let Some((_, s)) = &i.subpat { self.bind_pat_ty(s, t) } }
            Pat::Reference(r) => self.bind_pat_ty(&r.pat, t),
            Pat::Type(x) => { let t2 = self.lt(&x.ty); self.bind_pat_ty(&x.pat, if t2 == Ty::Unk { t } else { &t2 }) }
            Pat::Paren(x) => self.bind_pat_ty(&x.pat, t),
            Pat::Tuple(x) => for (i, q) in x.elems.iter().enumerate() { let s = if let Ty::Tup(v) = t { v.get(i).cloned().unwrap_or(Ty::Unk) } else { Ty::Unk }; self.bind_pat_ty(q, &s) },
            Pat::Slice(x) => for q in &x.elems { self.bind_pat_ty(q, &t.elem()) },
            Pat::TupleStruct(x) => {
                let n = x.path.segments.last().unwrap().ident.to_string();
                for (i, q) in x.elems.iter().enumerate() {
                    let s = match (n.as_str(), t) { ("Some", Ty::Opt(a)) => (**a).clone(), ("Ok", Ty::Res(a, _)) => (**a).clone(), ("Err", Ty::Res(_, a)) => (**a).clone(),
                        _ => match self.ix.find_type(&n) { Some(TyDef::Struct(d)) => d.fields.iter().nth(i).map_or(Ty::Unk, |f| self.lt(&f.ty)), _ => Ty::Unk } };
                    self.bind_pat_ty(q, &s)
                }
            }
            Pat::Struct(x) => { let n = x.path.segments.last().unwrap().ident.to_string(); for f in &x.fields { if let Member::Named(m) = &f.member { let t = self.field_ty(&n, &m.to_string()); self.bind_pat_ty(&f.pat, &t) } } }
            Pat::Or(x) => for q in &x.cases { self.bind_pat_ty(q, t) },
            _ => {}
        }
    }
    // ---------- patterns ----------
    fn path_str(&self, p: &Path) -> String {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.len();
        let fix = |s: &str| -> String {
            if s == "Self" { if let (Some(t), true) = (&self.self_ty, self.depth > 0) { return self.rename_ty(&last_seg(t)).unwrap_or(last_seg(t)) } }
            match s { "HashMap" => "HMap".into(), "PathBuf" | "Path" => "VPath".into(), "NaiveDateTime" => "Time".into(), "f64" => "F".into(), _ => self.rename_ty(s).unwrap_or(s.into()) } };
        if n >= 2 && (segs[n - 2].starts_with(char::is_uppercase) || matches!(segs[n - 2].as_str(), "f64" | "usize" | "i64" | "u64" | "i32" | "u32")) {
            let full = format!("{}::{}", segs[n - 2], segs[n - 1]);
            if let Some(r) = self.req.rename_p.get(&full) { return r.clone() }
            let mut last = segs[n - 1].clone();
            if segs[n - 2] == "f64" { last = last.to_lowercase() }
            return format!("{}::{}", fix(&segs[n - 2]), last);
        }
        if let Some(r) = self.req.rename_p.get(&segs.join("::")) { return r.clone() }
        let l = &segs[n - 1];
        if l == "PI" && self.var("PI").is_none() { return "F::pi()".into() }
        if let Some(r) = self.req.rename_p.get(l) { return r.clone() }
        fix(l)
    }
    fn pat(&self, p: &Pat) -> R<String> {
        Ok(match p {
            Pat::Ident(i) => { if i.subpat.is_some() { return Err("@ pattern".into()) } format!("{}{}{}", if i.by_ref.is_some() { "ref " } else { "" }, if i.mutability.is_some() { "mut " } else { "" }, i.ident) }
            Pat::Wild(_) => "_".into(), Pat::Rest(_) => "..".into(),
            Pat::Paren(x) => format!("({})", self.pat(&x.pat)?),
            Pat::Type(x) => self.pat(&x.pat)?,
            Pat::Tuple(x) => { let v: R<Vec<_>> = x.elems.iter().map(|q| self.pat(q)).collect(); let v = v?; if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) } }
            Pat::TupleStruct(x) => { let v: R<Vec<_>> = x.elems.iter().map(|q| self.pat(q)).collect(); format!("{}({})", self.path_str(&x.path), v?.join(", ")) }
            Pat::Path(x) => self.path_str(&x.path),
            Pat::Or(x) => { let v: R<Vec<_>> = x.cases.iter().map(|q| self.pat(q)).collect(); v?.join(" | ") }
            Pat::Lit(x) => match &x.lit { Lit::Float(_) | Lit::Str(_) => return Err("literal pattern".into()), l => quote!(#l).to_string() },
            Pat::Struct(x) => {
                let mut v = vec![];
                for f in &x.fields { if let Member::Named(m) = &f.member { if f.colon_token.is_none() { v.push(self.pat(&f.pat)?) } else { v.push(format!("{}: {}", m, self.pat(&f.pat)?)) } } else { return Err("struct pattern".into()) } }
                if x.rest.is_some() { v.push("..".into()) }
                format!("{} {{ {} }}", self.path_str(&x.path), v.join(", "))
            }
            Pat::Range(x) => quote!(#x).to_string(),
            _ => return Err("pattern".into()),
        })
    }
    /// Statements binding `p` to the expression text `e`.
    fn bind(&mut self, p: &Pat, e: &str) -> R<String> {
        if !pat_has_ref(p) {
            if let Pat::Wild(_) = p { return Ok(format!("let _ = {e};\n")) }
            return Ok(format!("let {} = {};\n", self.pat(p)?, e));
        }
        match p {
            Pat::Reference(r) => self.bind(&r.pat, &format!("*({e})")),
            Pat::Type(t) => self.bind(&t.pat, e),
            Pat::Paren(t) => self.bind(&t.pat, e),
            Pat::Slice(s) => {
                let k = self.fresh();
                let mut o = format!("let vt{k} = {e};\n");
                let n = s.elems.len();
                for (i, q) in s.elems.iter().enumerate() {
                    match q { Pat::Wild(_) => {} Pat::Rest(_) => { if i + 1 != n { return Err("rest pattern".into()) } } q => o += &self.bind(q, &format!("vt{k}.vsp({i})"))? }
                }
                Ok(o)
            }
            Pat::Tuple(t) => {
                let k = self.fresh();
                let names: Vec<String> = (0..t.elems.len()).map(|i| format!("vt{k}_{i}")).collect();
                let mut o = format!("let ({},) = {e};\n", names.join(", "));
                for (q, n) in t.elems.iter().zip(&names) { if !matches!(q, Pat::Wild(_)) { o += &self.bind(q, n)? } }
                Ok(o)
            }
            _ => Err("pattern with reference".into()),
        }
    }
    /// Refutable pattern: (pattern text, prelude of the arm).
    fn arm_pat(&mut self, p: &Pat) -> R<(String, String)> {
        if !pat_has_ref(p) { return Ok((self.pat(p)?, String::new())) }
        // replace reference / slice sub-patterns by fresh names
        struct S { base: usize, n: usize, subs: Vec<(String, Pat)> }
        impl visit_mut::VisitMut for S {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if matches!(p, Pat::Reference(_) | Pat::Slice(_)) {
                    let id = format!("vp{}_{}", self.base, self.n); self.n += 1;
                    let ident = Ident::new(&id, proc_macro2::Span::call_site());
                    let old = std::mem::replace(p, parse_quote_pat(&ident));
                    self.subs.push((id, old));
                } else { visit_mut::visit_pat_mut(self, p) }
            }
        }
        fn parse_quote_pat(i: &Ident) -> Pat { Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: i.clone(), subpat: None }) }
        let mut q = p.clone();
        if matches!(q, Pat::Reference(_)) { if let Pat::Reference(r) = &q { if !pat_has_ref(&r.pat) && !matches!(*r.pat, Pat::Ident(_)) { return Ok((self.pat(&r.pat)?, String::new())) } } }
        let mut s = S { base: self.fresh(), n: 0, subs: vec![] };
        visit_mut::VisitMut::visit_pat_mut(&mut s, &mut q);
        let mut pre = String::new();
        for (id, sp) in s.subs { pre += &self.bind(&sp, &id)?; }
        Ok((self.pat(&q)?, pre))
    }
    // ---------- statements ----------
    pub fn block(&mut self, b: &Block, want: &Ty) -> R<String> {
        self.push();
        let nl = self.local_fns.len();
        let r = self.stmts(&b.stmts, want);
        self.local_fns.truncate(nl);
        self.pop();
        Ok(format!("{{\n{}\n}}", r?))
    }
    pub fn stmts(&mut self, ss: &[Stmt], want: &Ty) -> R<String> {
        let mut o = String::new();
        for (k, s) in ss.iter().enumerate() {
            let last = k + 1 == ss.len();
            match s {
                Stmt::Local(l) => o += &self.local(l)?,
                Stmt::Item(Item::Const(c)) => {
                    let t = self.lt(&c.ty); let e = self.expr(&c.expr, &t)?;
                    o += &format!("let {}: {} = {};\n", c.ident, self.emit_ty(&c.ty)?, e);
                    self.bind_var(&c.ident.to_string(), t, false, Kind::Plain);
                }
                Stmt::Item(Item::Fn(f)) => self.local_fns.push(FnDef { file: self.file.clone(), qual: f.sig.ident.to_string(), sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None, impl_generics: None, trait_name: None, attrs: vec![] }),
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(_) => return Err("item in body".into()),
                Stmt::Macro(m) => { let e = self.mac(&m.mac, &Ty::Unk)?; if last && m.semi_token.is_none() { o += &e } else if !e.is_empty() && e != "()" { o += &format!("{e};\n") } }
                Stmt::Expr(e, semi) => {
                    let w = if last && semi.is_none() { want.clone() } else { Ty::Unit };
                    if last && semi.is_none() { self.refine(e, w.clone()) }
                    let x = self.expr(e, &w)?;
                    if last && semi.is_none() { o += &x }
                    else if x == "()" { }
                    else if matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) && semi.is_none() { o += &format!("{x}\n") }
                    else { o += &format!("{x};\n") }
                }
            }
        }
        Ok(o)
    }
    fn local(&mut self, l: &Local) -> R<String> {
        let (pat, ann) = match &l.pat { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p.clone(), None) };
        let aty = ann.as_ref().map_or(Ty::Unk, |t| self.lt(t));
        let Some(init) = &l.init else {
            let at = match &ann { Some(t) => format!(": {}", self.emit_ty(t)?), None => String::new() };
            let s = format!("let {}{};\n", self.pat(&pat)?, at);
            self.bind_pat_ty(&pat, &aty);
            return Ok(s);
        };
        let e = un(&init.expr);
        if let (Expr::Closure(c), Pat::Ident(i)) = (e, &pat) { self.bind_var(&i.ident.to_string(), Ty::Unk, false, Kind::Closure(c.clone())); return Ok(String::new()) }
        if let (Pat::Ident(i), true) = (&pat, self.is_iter(e) && !self.term(e) && !matches!(e, Expr::Range(_))) {
            self.bind_var(&i.ident.to_string(), Ty::Unk, false, Kind::Iter(e.clone())); return Ok(String::new());
        }
        let t0 = self.ty(e);
        let t = if aty == Ty::Unk || matches!(&aty, Ty::Vec(x) if **x == Ty::Unk) { t0 } else { aty.clone() };
        let x = self.expr(e, &aty)?;
        if let Some((_, d)) = &init.diverge {
            if pat_has_ref(&pat) { return Err("let else with reference pattern".into()) }
            let p = self.pat(&pat)?;
            let d = match &**d { Expr::Block(b) => self.block(&b.block, &Ty::Unk)?, d => format!("{{ {} }}", self.expr(d, &Ty::Unk)?) };
            self.bind_pat_ty(&pat, &t);
            return Ok(format!("let {p} = {x} else {d};\n"));
        }
        let s = if pat_has_ref(&pat) { self.bind(&pat, &x)? } else {
            let at = match &ann { Some(t) => self.emit_ty(t).map(|s| format!(": {s}")).unwrap_or_default(), None => String::new() };
            format!("let {}{} = {};\n", self.pat(&pat)?, at, x) };
        self.bind_pat_ty(&pat, &t);
        Ok(s)
    }
    // ---------- iterators ----------
    pub fn is_iter(&self, e: &Expr) -> bool {
        match un(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.req.rename_m.contains_key(&n) { return false }
                if SOURCES.contains(&n.as_str()) { return !matches!(self.ty(&m.receiver), Ty::Opt(_)) }
                ADAPT.contains(&n.as_str()) && self.iterish(&m.receiver)
            }
            Expr::Range(r) => r.end.is_some(),
            Expr::Path(_) => path_id(e).and_then(|n| self.var(&n).map(|v| matches!(v.kind, Kind::Iter(_)))).unwrap_or(false),
            _ => false,
        }
    }
    /// An iterator pipeline, or a value of one of the iterators of the crate.
    fn iterish(&self, e: &Expr) -> bool { self.is_iter(e) || self.own_iter(e) }
    fn own_iter(&self, e: &Expr) -> bool { matches!(self.ty(e), Ty::Named(n, _) if n == "Iter") }
    fn term(&self, e: &Expr) -> bool { if let Expr::MethodCall(m) = un(e) { TERM.contains(&m.method.to_string().as_str()) && (self.is_iter(&m.receiver) || (m.method != "next" && self.own_iter(&m.receiver))) } else { false } }
    /// Pipeline whose elements come from any expression that `for` accepts.
    fn source(&mut self, e: &Expr) -> R<Src> {
        let e = un(e);
        if self.is_iter(e) { return self.pipe(e) }
        if let Expr::Reference(r) = e {
            if !matches!(un(&r.expr), Expr::Range(_)) {
                return if r.mutability.is_some() { self.pipe_mut(&r.expr) } else { self.pipe_ref(&r.expr) };
            }
        }
        self.pipe_own(e)
    }
    fn stat_len(&self, e: &Expr) -> Option<usize> { match self.ty(e) { Ty::Arr(_, n) if n <= 8 => Some(n), _ => None } }
    fn slice_base<'b>(&self, e: &'b Expr) -> Option<(&'b Expr, Option<&'b Expr>, Option<&'b Expr>, bool)> {
        if let Expr::Index(i) = un(e) { if let Expr::Range(r) = un(&i.index) { return Some((&i.expr, r.start.as_deref(), r.end.as_deref(), matches!(r.limits, RangeLimits::Closed(_)))) } }
        None
    }
    fn pipe_ref(&mut self, r: &Expr) -> R<Src> {
        if let Some((b, s, t, closed)) = self.slice_base(r) {
            let k = self.fresh();
            let bt = self.ty(b);
            let bx = self.expr(b, &Ty::Unk)?;
            let lo = match s { Some(e) => self.expr(e, &Ty::Unk)?, None => "0".into() };
            let mut hi = match t { Some(e) => self.expr(e, &Ty::Unk)?, None => format!("vs{k}.vlen()") };
            if closed { hi = format!("({hi} + 1)") }
            let stat = match (lo.parse::<usize>(), hi.parse::<usize>(), &bt) { (Ok(a), Ok(b), _) if b >= a && b - a <= 8 => Some(b - a), (Ok(a), _, Ty::Arr(_, n)) if t.is_none() && *n <= 8 + a && a <= *n => Some(n - a), _ => None };
            let lo2 = lo.clone();
            return Ok(Src { pre: format!("let vs{k} = &({bx});\nvslice_ok({lo}, {hi}, vs{k}.vlen());\n"), n: format!("({hi} - {lo})"), at: Box::new(move |i| format!("vs{k}.vat({lo2} + {i})")), ty: bt.elem(), stat, seqs: vec![format!("vs{k}.vs().subrange({lo} as int, {hi} as int)")], stages: vec![] });
        }
        let k = self.fresh();
        let t = self.ty(r); let stat = self.stat_len(r);
        let x = self.expr(r, &Ty::Unk)?;
        if let Ty::Map(..) = t {
            return Ok(Src { pre: format!("let vs{k} = &({x});\n"), n: format!("vnlen(&vs{k})"), at: Box::new(move |i| format!("vnx(&vs{k}, {i})")), ty: t.elem(), stat, seqs: vec![format!("vents(vs{k})")], stages: vec![] });
        }
        Ok(Src { pre: format!("let vs{k} = &({x});\n"), n: format!("vs{k}.vlen()"), at: Box::new(move |i| format!("vs{k}.vat({i})")), ty: t.elem(), stat, seqs: vec![format!("vs{k}.vs()")], stages: vec![] })
    }
    fn pipe_mut(&mut self, r: &Expr) -> R<Src> {
        let t = self.ty(r); let stat = self.stat_len(r);
        if let Ty::Map(..) = t { return Err("mutable iteration over a map".into()) }
        if let Some(_) = self.slice_base(r) { return Err("mutable iteration over a slice".into()) }
        let x = self.expr(r, &Ty::Unk)?;
        let x = format!("({})", x);
        let y = x.clone();
        Ok(Src { pre: String::new(), n: format!("{x}.vlen()"), at: Box::new(move |i| format!("(&mut {y}[{i}])")), ty: t.elem(), stat, seqs: vec![format!("{x}@")], stages: vec![] })
    }
    fn pipe_own(&mut self, e: &Expr) -> R<Src> {
        let k = self.fresh();
        let t = self.ty(e); let stat = self.stat_len(e);
        let x = self.expr(e, &Ty::Unk)?;
        if let Expr::Array(_) = un(e) {
            return Ok(Src { pre: format!("let vs{k} = {x};\n"), n: format!("vs{k}.vlen()"), at: Box::new(move |i| format!("vs{k}[{i}]")), ty: t.elem(), stat, seqs: vec![format!("vs{k}@")], stages: vec![] });
        }
        Ok(Src { pre: format!("let vs{k} = {x};\n"), n: format!("vnlen(&vs{k})"), at: Box::new(move |i| format!("vnx(&vs{k}, {i})")), ty: t.elem(), stat, seqs: vec![format!("vs{k}.vns()")], stages: vec![] })
    }
    fn pipe(&mut self, e: &Expr) -> R<Src> {
        let e = un(e);
        if !self.is_iter(e) && self.own_iter(e) { return self.pipe_own(e) }
        match e {
            Expr::Path(_) => {
                let n = path_id(e).unwrap();
                if let Some(Var { kind: Kind::Iter(x), .. }) = self.var(&n).cloned() { return self.pipe(&x) }
                Err(format!("iterator variable {n}"))
            }
            Expr::Range(r) => {
                let k = self.fresh();
                let lo = match &r.start { Some(s) => self.expr(s, &Ty::Unk)?, None => return Err("range without start".into()) };
                let end = r.end.as_ref().ok_or("endless range")?;
                let et = self.ty(end); let st = r.start.as_ref().map_or(Ty::Unk, |s| self.ty(s));
                let hi = self.expr(end, &Ty::Unk)?;
                let closed = matches!(r.limits, RangeLimits::Closed(_));
                let it = match (&et, &st) { (Ty::Int(a), _) if a != "int" => a.clone(), (_, Ty::Int(a)) if a != "int" => a.clone(), _ => "usize".into() };
                let l2 = lo.parse::<usize>().ok(); let h2 = hi.parse::<usize>().ok().map(|h| if closed { h + 1 } else { h });
                let stat = match (l2, h2) { (Some(a), Some(b)) if b >= a && b - a <= 8 => Some(b - a), _ => None };
                let plus = if closed { " + 1" } else { "" };
                let cmp = if closed { "<=" } else { "<" };
                let cast = if it == "usize" { "" } else { " as usize" };
                let it2 = it.clone();
                let (pre, n): (String, String) = (format!("let vlo{k}: {it} = {lo};\nlet vhi{k}: {it} = {hi};\n"), if l2 == Some(0) && !closed && it == "usize" { format!("vhi{k}") } else { format!("(if vlo{k} {cmp} vhi{k} {{ (vhi{k} - vlo{k}{plus}){cast} }} else {{ 0 }})") });
                let zero = l2 == Some(0) && it == "usize";
                Ok(Src { pre, n, at: Box::new(move |i| if zero { format!("{i}") } else if it2 == "usize" { format!("(vlo{k} + {i})") } else { format!("(vlo{k} + ({i} as {it2}))") }), ty: Ty::Int(it), stat, seqs: vec![], stages: vec![] })
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" => return self.pipe_ref(&m.receiver),
                    "iter_mut" => return self.pipe_mut(&m.receiver),
                    "into_iter" => return if self.is_iter(&m.receiver) { self.pipe(&m.receiver) } else { self.pipe_own(&m.receiver) },
                    "keys" | "values" | "into_values" | "into_keys" => {
                        let k = self.fresh(); let t = self.ty(e); let x = self.expr(&m.receiver, &Ty::Unk)?;
                        let f = match n.as_str() { "keys" => "vkeys", "values" => "vvalues", "into_keys" => "vinto_keys", _ => "vinto_values" };
                        return Ok(Src { pre: format!("let vs{k} = ({x}).{f}();\n"), n: format!("vnlen(&vs{k})"), at: Box::new(move |i| format!("vnx(&vs{k}, {i})")), ty: t.elem(), stat: None, seqs: vec![format!("vs{k}.vns()")], stages: vec![] });
                    }
                    "row_iter" => {
                        let k = self.fresh(); let t = self.ty(&m.receiver); let x = self.expr(&m.receiver, &Ty::Unk)?;
                        let Ty::Mat(r, c) = t else { return Err("row_iter".into()) };
                        return Ok(Src { pre: format!("let vs{k} = &({x});\n"), n: format!("{r}"), at: Box::new(move |i| format!("vs{k}.row({i})")), ty: Ty::Mat(1, c), stat: Some(r), seqs: vec![], stages: vec![] });
                    }
                    "drain" | "values_mut" | "windows" => return Err(format!("iterator source {n}")),
                    _ => {}
                }
                if !ADAPT.contains(&n.as_str()) { return Err(format!("iterator method {n}")) }
                let mut s = self.pipe(&m.receiver)?;
                match n.as_str() {
                    "map" => { let f = m.args[0].clone(); let it = self.clos_ret(&f, &[s.ty.clone()]); s.stages.push(Stage::Map(f)); s.ty = it; }
                    "filter" => s.stages.push(Stage::Filter(m.args[0].clone())),
                    "filter_map" => { let f = m.args[0].clone(); let it = self.clos_ret(&f, &[s.ty.clone()]); s.stages.push(Stage::FilterMap(f)); s.ty = match it { Ty::Opt(t) => *t, _ => Ty::Unk }; }
                    "inspect" => s.stages.push(Stage::Inspect(m.args[0].clone())),
                    "cloned" | "copied" => s.stages.push(Stage::Cloned),
                    "progress_with" | "by_ref" | "fuse" => {}
                    "flat_map" => { s.stages.push(Stage::Flat(Some(m.args[0].clone()))); let it = self.clos_ret(&m.args[0], &[s.ty.clone()]); s.ty = it.elem(); }
                    "flatten" => { s.stages.push(Stage::Flat(None)); s.ty = s.ty.elem(); }
                    "take_while" => { let k = self.fresh(); s.stages.push(Stage::TakeWhile(m.args[0].clone(), format!("vtw{k}"))); }
                    "enumerate" => {
                        if s.stages.is_empty() { let at = s.at; s.at = Box::new(move |i| format!("({i}, {})", at(i))); }
                        else { let k = self.fresh(); s.pre += &format!("let mut ve{k}: usize = 0;\n"); s.stages.push(Stage::Enum(format!("ve{k}"))); s.stat = None; }
                        s.ty = Ty::Tup(vec![Ty::Int("usize".into()), s.ty]);
                    }
                    "rev" | "skip" | "take" | "zip" | "chain" => {
                        s = self.pure(s)?;
                        let k = self.fresh();
                        s.pre += &format!("let vq{k} = {};\n", s.n);
                        let at = s.at;
                        match n.as_str() {
                            "rev" => { s.at = Box::new(move |i| at(&format!("(vq{k} - 1 - {i})"))); s.n = format!("vq{k}"); s.seqs = s.seqs.into_iter().map(|q| format!("vrev({q})")).collect(); if let Some(z) = s.stat { s.pre += &format!("let vq{k}: usize = {z};\n"); } }
                            "skip" => { let a = self.expr(&m.args[0], &Ty::Unk)?; s.pre += &format!("let vk{k}: usize = {a};\n"); s.at = Box::new(move |i| at(&format!("(vk{k} + {i})"))); s.n = format!("(if vk{k} < vq{k} {{ vq{k} - vk{k} }} else {{ 0 }})"); s.seqs = s.seqs.into_iter().map(|q| format!("vskip({q}, vk{k} as int)")).collect(); s.stat = match (s.stat, a.parse::<usize>()) { (Some(z), Ok(a)) => Some(z.saturating_sub(a)), _ => None } }
                            "take" => { let a = self.expr(&m.args[0], &Ty::Unk)?; s.pre += &format!("let vk{k}: usize = {a};\n"); s.at = at; s.n = format!("(if vk{k} < vq{k} {{ vk{k} }} else {{ vq{k} }})"); s.stat = match (s.stat, a.parse::<usize>()) { (Some(z), Ok(a)) => Some(z.min(a)), _ => None } }
                            "zip" => {
                                let o = self.source(&m.args[0])?; let o = self.pure(o)?;
                                s.pre += &o.pre; s.pre += &format!("let vr{k} = {};\n", o.n);
                                let oat = o.at;
                                s.at = Box::new(move |i| format!("({}, {})", at(i), oat(i)));
                                s.n = format!("(if vq{k} < vr{k} {{ vq{k} }} else {{ vr{k} }})");
                                s.ty = Ty::Tup(vec![s.ty, o.ty]);
                                s.stat = match (s.stat, o.stat) { (Some(a), Some(b)) => Some(a.min(b)), _ => None };
                                s.seqs.extend(o.seqs);
                            }
                            _ => return Err("chain".into()),
                        }
                    }
                    _ => return Err(format!("iterator method {n}")),
                }
                Ok(s)
            }
            _ => Err("iterator".into()),
        }
    }
    /// Source without pending stages (materialised into a vector if necessary).
    fn pure(&mut self, s: Src) -> R<Src> {
        if s.stages.is_empty() { return Ok(s) }
        if s.stages.iter().all(|x| matches!(x, Stage::Cloned)) { let at = s.at; return Ok(Src { at: Box::new(move |i| format!("({}).vclone()", at(i))), stages: vec![], ..s }) }
        let k = self.fresh(); let t = s.ty.clone();
        let body = self.run(s, "", &mut |_, it, _| Ok(format!("vm{k}.push({it});\n")), false)?;
        Ok(Src { pre: format!("let mut vm{k} = Vec::new();\n{body}\nlet vs{k} = vm{k};\n"), n: format!("vnlen(&vs{k})"), at: Box::new(move |i| format!("vnx(&vs{k}, {i})")), ty: t, stat: None, seqs: vec![format!("vs{k}.vns()")], stages: vec![] })
    }
    fn vars(&self) -> Vec<(String, bool, String)> {
        let mut m: BTreeMap<String, (bool, String)> = BTreeMap::new();
        for s in &self.env { for (k, v) in s { if matches!(v.kind, Kind::Plain) { m.insert(k.clone(), (v.mutable, v.ty.show())); } } }
        m.into_iter().map(|(k, (a, b))| (k, a, b)).collect()
    }
    fn new_loop(&mut self, kind: &'static str, seqs: Vec<String>, sty: String) -> usize {
        let id = self.loops.len();
        let l = Loop { id, kind, i: format!("vi{id}"), n: format!("vn{id}"), seqs, sty, outer: self.stack.clone(), vars: self.vars(), in_fn: self.cur.clone() };
        self.loops.push(l); id
    }
    /// Loop over a source; `cond` is an extra loop condition; `brk` says that the body may break.
    fn run(&mut self, s: Src, cond: &str, body: &mut dyn FnMut(&mut Self, String, &Ty) -> R<String>, brk: bool) -> R<String> {
        let Src { pre, n, at, ty, stat, seqs, stages } = s;
        let flatb = stages.iter().any(|x| matches!(x, Stage::TakeWhile(..)));
        let mut o = pre;
        if let (Some(z), false) = (stat, brk || flatb) {
            for j in 0..z {
                let k = self.fresh();
                self.push();
                let b = self.stage(&stages, 0, at(&format!("{j}usize")), &ty, body)?;
                self.pop();
                let _ = k;
                o += &if cond.is_empty() { format!("{{\n{b}\n}}\n") } else { format!("if {cond} {{\n{b}\n}}\n") };
            }
            return Ok(o);
        }
        let id = self.new_loop("for", seqs, ty.show());
        let c = if cond.is_empty() { String::new() } else { format!(" && {cond}") };
        self.stack.push(id); self.push();
        let b = self.stage(&stages, 0, format!("vx{id}"), &ty, body);
        self.pop(); self.stack.pop();
        let b = b?;
        let tw: String = stages.iter().filter_map(|s| if let Stage::TakeWhile(_, f) = s { Some(f.clone()) } else { None }).map(|f| { o += &format!("let mut {f} = true;\n"); format!(" && {f}") }).collect();
        o += &format!("let vn{id}: usize = {n};\nlet mut vi{id}: usize = 0;\n__PRE{id}__\nwhile vi{id} < vn{id}{c}{tw}\n__INV{id}__\n{{\nlet vx{id} = {};\nvi{id} = vi{id} + 1;\n__HINT{id}__\n{b}\n__END{id}__\n}}\n__POST{id}__\n", at(&format!("vi{id}")));
        Ok(o)
    }
    fn stage(&mut self, st: &[Stage], k: usize, item: String, ty: &Ty, body: &mut dyn FnMut(&mut Self, String, &Ty) -> R<String>) -> R<String> {
        let Some(s) = st.get(k) else { return body(self, item, ty) };
        let f = self.fresh();
        match s {
            Stage::Map(c) => { let t = self.clos_ret(c, &[ty.clone()]); let x = self.apply(c, &[item], &[ty.clone()])?; let r = self.stage(st, k + 1, format!("vm{f}"), &t, body)?; Ok(format!("let vm{f} = {x};\n{r}")) }
            Stage::Inspect(c) => { let x = self.apply(c, &[format!("&({item})")], &[ty.clone()])?; let r = self.stage(st, k + 1, item, ty, body)?; Ok(format!("{x};\n{r}")) }
            Stage::Cloned => self.stage(st, k + 1, format!("({item}).vclone()"), ty, body),
            Stage::Enum(v) => { let r = self.stage(st, k + 1, format!("(vc{f}, {item})"), &Ty::Tup(vec![Ty::Int("usize".into()), ty.clone()]), body)?; Ok(format!("let vc{f} = {v};\n{v} = {v} + 1;\n{r}")) }
            Stage::Filter(c) => { let x = self.apply(c, &[format!("&vf{f}")], &[ty.clone()])?; let r = self.stage(st, k + 1, format!("vf{f}"), ty, body)?; Ok(format!("let vf{f} = {item};\nif {x} {{\n{r}\n}}")) }
            Stage::TakeWhile(c, v) => { let x = self.apply(c, &[format!("&vf{f}")], &[ty.clone()])?; let r = self.stage(st, k + 1, format!("vf{f}"), ty, body)?; Ok(format!("let vf{f} = {item};\nif {x} {{\n{r}\n}} else {{ {v} = false; }}")) }
            Stage::FilterMap(c) => { let t = match self.clos_ret(c, &[ty.clone()]) { Ty::Opt(t) => *t, _ => Ty::Unk }; let x = self.apply(c, &[item], &[ty.clone()])?; let r = self.stage(st, k + 1, format!("vf{f}"), &t, body)?; Ok(format!("let vo{f} = {x};\nif let Some(vf{f}) = vo{f} {{\n{r}\n}}")) }
            Stage::Flat(c) => {
                let src = match c {
                    Some(c) => match un(c) {
                        Expr::Closure(cl) => {
                            self.push();
                            let b = self.bind(&cl.inputs[0], &item)?;
                            self.bind_pat_ty(&cl.inputs[0], ty);
                            let mut s = self.source(&cl.body)?; s.pre = b + &s.pre; s
                        }
                        _ => return Err("flat_map".into()),
                    },
                    None => { if let Ty::Opt(_) = ty { let r = self.stage(st, k + 1, format!("vf{f}"), &ty.elem(), body)?; return Ok(format!("if let Some(vf{f}) = {item} {{\n{r}\n}}")) }
                        self.push(); let e = ty.elem(); Src { pre: format!("let vs{f} = {item};\n"), n: format!("vnlen(&vs{f})"), at: Box::new(move |i| format!("vnx(&vs{f}, {i})")), ty: e, stat: None, seqs: vec![format!("vs{f}.vns()")], stages: vec![] } }
                };
                let rest: Vec<Stage> = st[k + 1..].to_vec();
                let r = self.run(src, "", &mut |me, it, t| me.stage(&rest, 0, it, t, body), false);
                self.pop();
                r
            }
        }
    }
    /// Inlined application of a closure (or function path) to argument texts.
    pub fn apply(&mut self, f: &Expr, args: &[String], tys: &[Ty]) -> R<String> {
        match un(f) {
            Expr::Closure(c) => {
                self.push();
                let mut o = String::new();
                if c.inputs.len() != args.len() { return Err("closure arity".into()) }
                if c.inputs.len() > 1 {
                    let k = self.fresh();
                    let names: Vec<String> = (0..args.len()).map(|i| format!("va{k}_{i}")).collect();
                    for (n, a) in names.iter().zip(args) { o += &format!("let {n} = {a};\n"); }
                    for (p, n) in c.inputs.iter().zip(&names) { if !matches!(p, Pat::Wild(_)) { o += &self.bind(p, n)?; } }
                } else { for (p, a) in c.inputs.iter().zip(args) { o += &self.bind(p, a)?; } }
                for (p, t) in c.inputs.iter().zip(tys) { self.bind_pat_ty(p, t) }
                let want = if let ReturnType::Type(_, t) = &c.output { self.lt(t) } else { Ty::Unk };
                let body = match &*c.body { Expr::Block(b) => b.block.clone(), e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] } };
                let st = if body.stmts.iter().any(|s| matches!(s, Stmt::Expr(e, _) if elim::has_return_e(e)) || matches!(s, Stmt::Local(l) if l.init.as_ref().map_or(false, |i| elim::has_return_e(&i.expr) || i.diverge.as_ref().map_or(false, |d| elim::has_return_e(&d.1))))) { elim::elim(&body.stmts).ok_or("early return in closure")? } else { body.stmts };
                let sv = std::mem::replace(&mut self.can_ret, false);
                let r = self.stmts(&st, &want);
                self.can_ret = sv;
                self.pop();
                Ok(format!("{{\n{o}{}\n}}", r?))
            }
            Expr::Path(p) => {
                if let Some(n) = path_id(f) {
                    if let Some(Var { kind: Kind::Closure(c), .. }) = self.var(&n).cloned() { return self.apply(&Expr::Closure(c), args, tys) }
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                self.call_path(&p.path, &segs, args.to_vec(), tys)
            }
            Expr::Reference(r) => self.apply(&r.expr, args, tys),
            _ => Err("callable".into()),
        }
    }
    fn iter_term(&mut self, m: &ExprMethodCall, want: &Ty, q: bool) -> R<String> {
        let n = m.method.to_string();
        let k = self.fresh();
        let src = self.pipe(&m.receiver)?;
        let a0 = m.args.first().cloned();
        let ety = src.ty.clone();
        let out = match n.as_str() {
            "for_each" => { let f = a0.unwrap(); let o = self.run(src, "", &mut |me, it, t| Ok(format!("{};", me.apply(&f, &[it], &[t.clone()])?)), false)?; return Ok(format!("{{\n{o}}}")) }
            "fold" => {
                let f = m.args[1].clone();
                let init = a0.unwrap();
                if let (Expr::Tuple(tp), Expr::Closure(c)) = (un(&init), un(&f)) {
                    if let (Pat::Tuple(pt), true) = (&c.inputs[0], tp.elems.len() > 1) { if pt.elems.len() == tp.elems.len() {
                        let mut pre = String::new(); let mut names = vec![]; let mut tys = vec![];
                        for (i, e) in tp.elems.iter().enumerate() { let t = self.ty(e); pre += &format!("let mut vacc{k}_{i} = {};\n", self.expr(e, &Ty::Unk)?); names.push(format!("vacc{k}_{i}")); tys.push(t); }
                        self.push();
                        for (nm, t) in names.iter().zip(&tys) { self.bind_var(nm, t.clone(), true, Kind::Plain) }
                        let acc = format!("({})", names.join(", ")); let at = Ty::Tup(tys.clone());
                        let set: String = names.iter().enumerate().map(|(i, nm)| format!("{nm} = vnew{k}_{i};\n")).collect();
                        let news = (0..names.len()).map(|i| format!("vnew{k}_{i}")).collect::<Vec<_>>().join(", ");
                        let o = self.run(src, "", &mut |me, it, t| { let x = me.apply(&f, &[acc.clone(), it], &[at.clone(), t.clone()])?; Ok(format!("let ({news}) = {x};\n{set}")) }, false)?;
                        self.pop();
                        return Ok(format!("{{\n{pre}{o}({})\n}}", names.join(", ")));
                    } }
                }
                let t0 = self.ty(&init); let i0 = self.expr(&init, want)?;
                self.push(); self.bind_var(&format!("vacc{k}"), t0.clone(), true, Kind::Plain);
                let o = self.run(src, "", &mut |me, it, t| { let x = me.apply(&f, &[format!("vacc{k}"), it], &[t0.clone(), t.clone()])?; Ok(format!("vacc{k} = {x};\n")) }, false)?;
                self.pop();
                format!("let mut vacc{k} = {i0};\n{o}vacc{k}")
            }
            "all" | "any" => {
                let f = a0.unwrap(); let all = n == "all";
                self.push(); self.bind_var(&format!("vb{k}"), Ty::Bool, true, Kind::Plain);
                let cond = if all { format!("vb{k}") } else { format!("!vb{k}") };
                let o = self.run(src, &cond, &mut |me, it, t| { let x = me.apply(&f, &[it], &[t.clone()])?; Ok(if all { format!("if !({x}) {{ vb{k} = false; }}") } else { format!("if {x} {{ vb{k} = true; }}") }) }, false)?;
                self.pop();
                format!("let mut vb{k}: bool = {all};\n{o}vb{k}")
            }
            "position" | "find" | "find_map" | "next" | "nth" => {
                self.push(); self.bind_var(&format!("vo{k}"), Ty::Opt(Box::new(Ty::Unk)), true, Kind::Plain);
                let mut pre = format!("let mut vo{k} = None;\n");
                if n == "nth" { let a = self.expr(&m.args[0], &Ty::Unk)?; pre += &format!("let mut vz{k}: usize = {a};\n"); }
                if n == "position" { pre += &format!("let mut vz{k}: usize = 0;\n"); self.bind_var(&format!("vz{k}"), Ty::Int("usize".into()), true, Kind::Plain); }
                let nn = n.clone();
                let o = self.run(src, &format!("vo{k}.is_none()"), &mut |me, it, t| Ok(match nn.as_str() {
                    "position" => { let x = me.apply(a0.as_ref().unwrap(), &[it], &[t.clone()])?; format!("if {x} {{ vo{k} = Some(vz{k}); }}\nvz{k} = vz{k} + 1;") }
                    "find" => { let x = me.apply(a0.as_ref().unwrap(), &[format!("&vf{k}")], &[t.clone()])?; format!("let vf{k} = {it};\nif {x} {{ vo{k} = Some(vf{k}); }}") }
                    "find_map" => { let x = me.apply(a0.as_ref().unwrap(), &[it], &[t.clone()])?; format!("vo{k} = {x};") }
                    "next" => format!("vo{k} = Some({it});"),
                    _ => format!("if vz{k} == 0 {{ vo{k} = Some({it}); }} else {{ vz{k} = vz{k} - 1; }}"),
                }), false)?;
                self.pop();
                format!("{pre}{o}vo{k}")
            }
            "count" | "len" => {
                if src.stages.is_empty() || n == "len" { let s = self.pure(src)?; format!("{}{}", s.pre, s.n) } else {
                    self.push(); self.bind_var(&format!("vc{k}"), Ty::Int("usize".into()), true, Kind::Plain);
                    let o = self.run(src, "", &mut |_, it, _| Ok(format!("let _ = {it};\nvc{k} = vc{k} + 1;")), false)?; self.pop();
                    format!("let mut vc{k}: usize = 0;\n{o}vc{k}") }
            }
            "sum" | "product" => {
                let t = match &m.turbofish { Some(t) => if let Some(GenericArgument::Type(t)) = t.args.first() { self.lt(t) } else { Ty::Unk }, None => if *want != Ty::Unk && *want != Ty::Unit { want.clone() } else { ety.clone() } };
                let (z, op) = match (&t, n.as_str()) { (Ty::F, "sum") => (self.flit("0.0")?, "+"), (Ty::F, _) => (self.flit("1.0")?, "*"), (Ty::Int(i), "sum") => (format!("0{}", if i == "int" { "usize" } else { i }), "+"), (Ty::Int(i), _) => (format!("1{i}"), "*"), _ => return Err("type of sum".into()) };
                self.push(); self.bind_var(&format!("vacc{k}"), t, true, Kind::Plain);
                let o = self.run(src, "", &mut |_, it, _| Ok(format!("vacc{k} = vacc{k} {op} ({it});")), false)?; self.pop();
                format!("let mut vacc{k} = {z};\n{o}vacc{k}")
            }
            "min" | "max" | "last" | "min_by" | "max_by" | "min_by_key" | "max_by_key" => {
                self.push(); self.bind_var(&format!("vo{k}"), Ty::Opt(Box::new(ety.clone())), true, Kind::Plain);
                let nn = n.clone(); let et = ety.clone();
                let o = self.run(src, "", &mut |me, it, t| {
                    let cond = match nn.as_str() {
                        "last" => "true".into(),
                        "min" => format!("(vy{k}).vlt(&(vz{k}))"), "max" => format!("(vz{k}).vle(&(vy{k}))"),
                        "min_by" | "max_by" => { let x = me.apply(a0.as_ref().unwrap(), &[format!("&vz{k}"), format!("&vy{k}")], &[et.clone(), t.clone()])?; if nn == "min_by" { format!("vis_gt({x})") } else { format!("!vis_gt({x})") } }
                        _ => { let a = me.apply(a0.as_ref().unwrap(), &[format!("&vz{k}")], &[et.clone()])?; let b = me.apply(a0.as_ref().unwrap(), &[format!("&vy{k}")], &[t.clone()])?; if nn == "min_by_key" { format!("({b}).vlt(&({a}))") } else { format!("({a}).vle(&({b}))") } }
                    };
                    Ok(format!("let vy{k} = {it};\nvo{k} = match vo{k} {{\nNone => Some(vy{k}),\nSome(vz{k}) => {{ if {cond} {{ Some(vy{k}) }} else {{ Some(vz{k}) }} }}\n}};"))
                }, false)?;
                self.pop();
                format!("let mut vo{k} = None;\n{o}vo{k}")
            }
            "collect_vec" | "collect" | "into_group_map" => {
                let mut t = match (&m.turbofish, n.as_str()) { (Some(t), _) => if let Some(GenericArgument::Type(t)) = t.args.first() { self.lt(t) } else { Ty::Unk }, (None, "collect") => want.clone(), _ => Ty::Vec(Box::new(Ty::Unk)) };
                let mut res = false;
                if let Ty::Res(a, _) = &t { t = (**a).clone(); res = true }
                if q && !res { return Err("collect of results".into()) }
                let map = match &t { Ty::Map(..) => true, Ty::Vec(_) | Ty::Unk | Ty::Unit => false, _ => return Err(format!("collect into {}", t.show())) };
                let et = match &ety { Ty::Res(a, _) if res => (**a).clone(), x => x.clone() };
                let tv = if map { match &et { Ty::Tup(v) if v.len() == 2 => merge(&t, &Ty::Map(Box::new(v[0].clone()), Box::new(v[1].clone()))), _ => t.clone() } } else if n == "collect" { merge(&Ty::Vec(Box::new(et)), &t) } else { Ty::Vec(Box::new(et)) };
                self.push(); self.bind_var(&format!("vcol{k}"), tv, true, Kind::Plain);
                let add = |it: &str| if map { format!("let (vk{k}, vv{k}) = {it};\nvcol{k}.insert(vk{k}, vv{k});") } else { format!("vcol{k}.push({it});") };
                let o = if res {
                    // `?` inside the closure leaves the collection with the same error
                    let cr = self.can_ret;
                    let mut pre2 = String::new();
                    let early = if q { if !cr { return Err("early return in closure".into()) } format!("return Err(vinto(verr{k}));") } else { pre2 = format!("let mut verr{k} = None;\n"); format!("verr{k} = Some(vee{k});") };
                    let mut src = src;
                    let strip = if let Some(Stage::Map(Expr::Closure(c))) = src.stages.last() { if elim::has_question_e(&c.body) { if !q { return Err("? in closure".into()) } ok_tail(c) } else if q && !elim::has_return_e(&c.body) { ok_tail(c) } else { None } } else { None };
                    if let Some(c2) = strip {
                        // closure body ends in Ok(..): only its `?` can fail; they return from the function
                        src.stages.pop();
                        src.stages.push(Stage::Map(Expr::Closure(c2.clone())));
                        let last = src.stages.pop().unwrap();
                        let Stage::Map(cf) = last else { unreachable!() };
                        let st = std::mem::take(&mut src.stages);
                        src.stages = st;
                        self.run(src, "", &mut |me, it, t| { let x = me.apply_ret(&cf, &[it], &[t.clone()])?; Ok(format!("let vit{k} = {x};\n{}", add(&format!("vit{k}")))) }, false)?
                    } else {
                        let cond = if q { String::new() } else { format!("verr{k}.is_none()") };
                        let ename = if q { format!("verr{k}") } else { format!("vee{k}") };
                        let o = self.run(src, &cond, &mut |_, it, _| Ok(format!("match {it} {{\nOk(vit{k}) => {{ {} }}\nErr({ename}) => {{ {early} }}\n}}", add(&format!("vit{k}")))), false)?;
                        format!("{pre2}{o}")
                    }
                } else { self.run(src, "", &mut |_, it, _| Ok(if map { add(&format!("{it}")) } else { add(&it) }), false)? };
                self.pop();
                let new = if map { "HMap::new()" } else { "Vec::new()" };
                let fin = if n == "into_group_map" { format!("vgroup(vcol{k})") } else if res && !q { format!("match verr{k} {{ None => Ok(vcol{k}), Some(vee{k}) => Err(vee{k}) }}") } else { format!("vcol{k}") };
                format!("let mut vcol{k} = {new};\n{o}{fin}")
            }
            "partition" => {
                let f = a0.unwrap();
                self.push(); for x in ["vya", "vyb"] { self.bind_var(&format!("{x}{k}"), Ty::Vec(Box::new(ety.clone())), true, Kind::Plain) }
                let o = self.run(src, "", &mut |me, it, t| { let x = me.apply(&f, &[format!("&vf{k}")], &[t.clone()])?; Ok(format!("let vf{k} = {it};\nif {x} {{ vya{k}.push(vf{k}); }} else {{ vyb{k}.push(vf{k}); }}")) }, false)?;
                self.pop();
                format!("let mut vya{k} = Vec::new();\nlet mut vyb{k} = Vec::new();\n{o}(vya{k}, vyb{k})")
            }
            "unzip" => {
                self.push(); for x in ["vya", "vyb"] { self.bind_var(&format!("{x}{k}"), Ty::Vec(Box::new(Ty::Unk)), true, Kind::Plain) }
                let o = self.run(src, "", &mut |_, it, _| Ok(format!("let (vp{k}, vq{k}) = {it};\nvya{k}.push(vp{k});\nvyb{k}.push(vq{k});")), false)?;
                self.pop();
                format!("let mut vya{k} = Vec::new();\nlet mut vyb{k} = Vec::new();\n{o}(vya{k}, vyb{k})")
            }
            _ => return Err(format!("iterator method {n}")),
        };
        Ok(format!("{{\n{out}\n}}"))
    }
    fn apply_ret(&mut self, f: &Expr, args: &[String], tys: &[Ty]) -> R<String> {
        // like apply, but `?` may return from the enclosing function
        let Expr::Closure(c) = un(f) else { return Err("closure".into()) };
        self.push();
        let o = self.bind(&c.inputs[0], &args[0])?;
        self.bind_pat_ty(&c.inputs[0], &tys[0]);
        let body = match &*c.body { Expr::Block(b) => b.block.clone(), e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] } };
        let r = self.stmts(&body.stmts, &Ty::Unk);
        self.pop();
        Ok(format!("{{\n{o}{}\n}}", r?))
    }
    // ---------- expressions ----------
    pub fn flit(&mut self, s: &str) -> R<String> {
        let t = s.replace('_', "");
        let mut d = t.trim_end_matches("f64").to_string();
        if d.contains('e') || d.contains('E') { return Err("float literal with exponent".into()) }
        if !d.contains('.') { d.push_str(".0") }
        let (a, b) = d.split_once('.').unwrap();
        let b = b.trim_end_matches('0');
        let name = format!("fl_{}_{}", a, b);
        self.lits.insert(format!("{a}.{b}"));
        Ok(format!("{name}()"))
    }
    fn float_ctx(&self, e: &Expr) -> bool { self.ty(e) == Ty::F }
    pub fn expr(&mut self, e: &Expr, want: &Ty) -> R<String> {
        Ok(match e {
            Expr::Paren(p) => format!("({})", self.expr(&p.expr, want)?),
            Expr::Group(p) => self.expr(&p.expr, want)?,
            Expr::Lit(l) => match &l.lit {
                Lit::Float(f) => self.flit(&f.to_string())?,
                Lit::Int(i) if i.suffix() == "f64" => self.flit(i.base10_digits())?,
                x => quote!(#x).to_string(),
            },
            Expr::Path(p) => {
                if p.path.is_ident("self") { return Ok(self.self_name.clone()) }
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    if let Some(v) = self.var(&n) { return match v.kind.clone() { Kind::Plain => Ok(n), Kind::Iter(x) => self.expr(&x, want), _ => Err(format!("use of {n} as a value")) } }
                    if let Some((_, ce)) = self.ix.consts.get(&n) { let ce = ce.clone(); let w = self.ty(e); return Ok(format!("({})", self.expr(&ce, &w)?)) }
                }
                let s = self.path_str(&p.path);
                if ["F::nan", "F::max", "F::min", "F::infinity", "F::neg_infinity", "F::epsilon", "F::pi"].contains(&s.as_str()) { format!("{s}()") } else if p.path.segments.last().unwrap().ident == "PI" { "F::pi()".into() } else { s }
            }
            Expr::Unary(u) => { let x = self.expr(&u.expr, want)?; match u.op { UnOp::Deref(_) => format!("(*{x})"), UnOp::Not(_) => format!("!({x})"), UnOp::Neg(_) => format!("(-({x}))"), _ => return Err("operator".into()) } }
            Expr::Reference(r) => { if let Some(_) = self.slice_base(&r.expr) { if r.mutability.is_some() { return Err("mutable slice".into()) } return self.expr(&r.expr, want) } let x = self.expr(&r.expr, want)?; format!("{}({x})", if r.mutability.is_some() { "&mut " } else { "&" }) }
            Expr::Binary(b) => self.binary(b)?,
            Expr::Assign(a) => {
                if let Expr::Tuple(t) = un(&a.left) {
                    let k = self.fresh(); let r = self.expr(&a.right, &Ty::Unk)?;
                    let names: Vec<String> = (0..t.elems.len()).map(|i| format!("vas{k}_{i}")).collect();
                    let mut o = format!("let ({}) = {r};\n", names.join(", "));
                    for (l, n) in t.elems.iter().zip(&names) { if !matches!(l, Expr::Infer(_)) { let l = self.expr(l, &Ty::Unk)?; o += &format!("{l} = {n};\n"); } }
                    return Ok(format!("{{\n{o}}}"));
                }
                if let Expr::Infer(_) = un(&a.left) { let r = self.expr(&a.right, &Ty::Unk)?; return Ok(format!("{{ let _ = {r}; }}")) }
                let rt = self.ty(&a.right); self.refine(&a.left, rt);
                let t = self.ty(&a.left); let l = self.expr(&a.left, &Ty::Unk)?; let r = self.expr(&a.right, &t)?; format!("{} = {}", strip_par(&l), r)
            }
            Expr::Field(f) => {
                let b = self.expr(&f.base, &Ty::Unk)?;
                match &f.member {
                    Member::Named(m) => {
                        if let Ty::Named(n, _) = self.ty(&f.base) { if n == "WithDataset" && m != "dataset" && m != "inner" { return Ok(format!("{b}.inner.{m}")) } }
                        format!("{b}.{m}")
                    }
                    Member::Unnamed(i) => format!("{b}.{}", i.index),
                }
            }
            Expr::Index(i) => {
                if let Some((b, s, t, closed)) = self.slice_base(e) {
                    let b = self.expr(b, &Ty::Unk)?; let lo = match s { Some(x) => self.expr(x, &Ty::Unk)?, None => "0".into() };
                    return Ok(match t { Some(x) => { let h = self.expr(x, &Ty::Unk)?; format!("({b}).vslice({lo}, {h}{})", if closed { " + 1" } else { "" }) } None => format!("({b}).vslice_from({lo})") });
                }
                let b = self.expr(&i.expr, &Ty::Unk)?;
                let x = self.expr(&i.index, &Ty::Unk)?;
                match self.ty(&i.expr) { Ty::Mat(..) => if let Expr::Tuple(t) = un(&i.index) { let (a, c) = (self.expr(&t.elems[0], &Ty::Unk)?, self.expr(&t.elems[1], &Ty::Unk)?); format!("{b}.get2({a}, {c})") } else { format!("{b}.get1({x})") }, _ => format!("{b}[{x}]") }
            }
            Expr::Cast(c) => {
                let to = self.lt(&c.ty);
                let from = self.ty(&c.expr);
                let x = self.expr(&c.expr, &Ty::Unk)?;
                match (&to, &from) {
                    (Ty::F, Ty::F) => x,
                    (Ty::F, _) => format!("({x}).vtof()"),
                    (Ty::Int(i), Ty::F) => format!("({x}).vf2{i}()"),
                    (Ty::Int(i), _) => format!("(({x}) as {i})"),
                    (Ty::Str, _) => format!("({x}).vas_str()"),
                    _ => x,
                }
            }
            Expr::Tuple(t) => { let mut v = vec![]; for (i, x) in t.elems.iter().enumerate() { let w = if let Ty::Tup(w) = want { w.get(i).cloned().unwrap_or(Ty::Unk) } else { Ty::Unk }; v.push(self.expr(x, &w)?) } if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) } }
            Expr::Array(a) => { let w = want.elem(); let v: R<Vec<_>> = a.elems.iter().map(|x| self.expr(x, &w)).collect(); format!("[{}]", v?.join(", ")) }
            Expr::Repeat(r) => { let n = const_usize(self.ix, &r.len).ok_or("array length")?; if n > 16 { return Err("array length".into()) } let k = self.fresh(); let x = self.expr(&r.expr, &want.elem())?; format!("{{ let vr{k} = {x}; [{}] }}", vec![format!("vr{k}"); n].join(", ")) }
            Expr::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                let tn = if n == "Self" { self.self_ty.as_ref().map(last_seg).unwrap_or(n.clone()) } else { n.clone() };
                let mut v = vec![];
                for f in &s.fields { if let Member::Named(m) = &f.member { let w = self.field_ty(&tn, &m.to_string()); self.refine(&f.expr, w.clone()); v.push(format!("{m}: {}", self.expr(&f.expr, &w)?)) } else { return Err("struct".into()) } }
                if let Some(r) = &s.rest { v.push(format!("..{}", self.expr(r, &Ty::Unk)?)) }
                format!("{} {{ {} }}", self.path_str(&s.path), v.join(", "))
            }
            Expr::Block(b) => { if b.label.is_some() { return Err("labelled block".into()) } self.block(&b.block, want)? }
            Expr::Unsafe(_) => return Err("unsafe".into()),
            Expr::If(i) => self.if_(i, want)?,
            Expr::Match(m) => self.match_(m, want)?,
            Expr::Let(_) => return Err("let in expression".into()),
            Expr::Return(r) => {
                if !self.can_ret { return Err("return inside inlined code".into()) }
                match &r.expr { Some(x) => {
                    if let Expr::Try(t) = un(x) { if let Some(s) = self.err_q(&t.expr)? { return Ok(s) } }
                    let w = self.ret.clone(); self.refine(x, w.clone()); format!("return {}", self.expr(x, &w)?) } None => "return".into() }
            }
            Expr::Break(b) => { if b.label.is_some() || b.expr.is_some() { return Err("break with label or value".into()) } "break".into() }
            Expr::Continue(c) => { if c.label.is_some() { return Err("labelled continue".into()) } "continue".into() }
            Expr::ForLoop(f) => {
                if f.label.is_some() { return Err("labelled loop".into()) }
                let src = self.source(&f.expr)?;
                let brk = has_break(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.body.clone() }));
                let (p, b) = ((*f.pat).clone(), f.body.clone());
                let o = self.run(src, "", &mut |me, it, t| { let x = if let Pat::Wild(_) = p { String::new() } else { me.bind(&p, &it)? }; me.push(); me.bind_pat_ty(&p, t); let s = me.stmts(&b.stmts, &Ty::Unit); me.pop(); let mut s = s?; semi(&mut s); Ok(format!("{x}{s}")) }, brk)?;
                format!("{{\n{o}}}")
            }
            Expr::While(w) => {
                if w.label.is_some() { return Err("labelled loop".into()) }
                let id = self.new_loop("while", vec![], String::new());
                self.stack.push(id); self.push();
                let r = (|| -> R<String> {
                    let (c, pre) = match un(&w.cond) {
                        Expr::Let(l) => { let t = self.ty(&l.expr); let x = self.expr(&l.expr, &Ty::Unk)?; let (p, pre) = self.arm_pat(&l.pat)?; self.bind_pat_ty(&l.pat, &t); (format!("let {p} = {x}"), pre) }
                        c => (self.expr(c, &Ty::Bool)?, String::new()),
                    };
                    let mut b = self.stmts(&w.body.stmts, &Ty::Unit)?; semi(&mut b);
                    Ok(format!("{{\nlet ghost mut vg{id}: int = 0;\n__PRE{id}__\nwhile {c}\n__INV{id}__\n{{\nproof {{ vg{id} = vg{id} + 1; }}\n{pre}__HINT{id}__\n{b}\n__END{id}__\n}}\n__POST{id}__\n}}"))
                })();
                self.pop(); self.stack.pop();
                r?
            }
            Expr::Loop(w) => {
                if w.label.is_some() { return Err("labelled loop".into()) }
                let id = self.new_loop("loop", vec![], String::new());
                self.stack.push(id); self.push();
                let b = self.stmts(&w.body.stmts, &Ty::Unit);
                self.pop(); self.stack.pop();
                let mut b = b?; semi(&mut b);
                format!("{{\nlet ghost mut vg{id}: int = 0;\n__PRE{id}__\nloop\n__INV{id}__\n{{\nproof {{ vg{id} = vg{id} + 1; }}\n__HINT{id}__\n{b}\n__END{id}__\n}}\n__POST{id}__\n}}")
            }
            Expr::Macro(m) => self.mac(&m.mac, want)?,
            Expr::Try(t) => self.try_(t)?,
            Expr::Call(c) => self.call(c, want)?,
            Expr::MethodCall(m) => self.method(m, want)?,
            Expr::Closure(_) => return Err("closure as a value".into()),
            Expr::Range(_) => return Err("range as a value".into()),
            _ => return Err("expression".into()),
        })
    }
    fn err_q(&mut self, inner: &Expr) -> R<Option<String>> {
        if let Expr::Call(c) = un(inner) { if let Some(n) = path_id(&c.func) { if n == "Err" {
            if !self.can_ret { return Err("error return inside inlined code".into()) }
            let x = self.expr(&c.args[0], &Ty::Unk)?; return Ok(Some(format!("return Err(vinto({x}))"))) } } }
        Ok(None)
    }
    fn try_(&mut self, t: &ExprTry) -> R<String> {
        if let Some(s) = self.err_q(&t.expr)? { return Ok(s) }
        if let Expr::MethodCall(m) = un(&t.expr) { if m.method == "collect" && self.is_iter(&m.receiver) { return self.iter_term(m, &Ty::Unk, true) } }
        if !self.can_ret { return Err("? inside inlined code".into()) }
        let et = self.ty(&t.expr);
        let x = self.expr(&t.expr, &Ty::Unk)?;
        let k = self.fresh();
        if matches!(et, Ty::Opt(_)) || matches!(self.ret, Ty::Opt(_)) { return Ok(format!("match {x} {{ Some(vk{k}) => vk{k}, None => {{ return None; }} }}")) }
        Ok(format!("match {x} {{\nOk(vk{k}) => vk{k},\nErr(ve{k}) => {{ return Err(vinto(ve{k})); }}\n}}"))
    }
    fn binary(&mut self, b: &ExprBinary) -> R<String> {
        use BinOp::*;
        let (lt, rt) = (self.ty(&b.left), self.ty(&b.right));
        let flip = is_lit(&b.left) && !is_lit(&b.right);
        let w = if lt == Ty::F || rt == Ty::F { Ty::F } else { Ty::Unk };
        if matches!(b.op, AddAssign(_)) && (lt == Ty::Str || is_str_lit(&b.right)) {
            let l = self.expr(&b.left, &Ty::Unk)?; let r = self.expr(&b.right, &Ty::Unk)?; return Ok(format!("{l}.vpush_str(({r}).vas_str())"));
        }
        let l = self.expr(&b.left, &w)?; let r = self.expr(&b.right, &w)?;
        let cmp = |m: &str, fm: &str| if flip { format!("({r}).{fm}(&({l}))") } else { format!("({l}).{m}(&({r}))") };
        Ok(match b.op {
            Add(_) => format!("({l} + {r})"), Sub(_) => format!("({l} - {r})"), Mul(_) => format!("({l} * {r})"), Div(_) => format!("({l} / {r})"), Rem(_) => format!("({l} % {r})"),
            And(_) => format!("({l} && {r})"), Or(_) => format!("({l} || {r})"),
            BitXor(_) if lt == Ty::Bool => format!("(({l}) != ({r}))"), BitAnd(_) if lt == Ty::Bool => format!("({{ let vr = {r}; ({l}) && vr }})"), BitOr(_) if lt == Ty::Bool => format!("({{ let vr = {r}; ({l}) || vr }})"),
            Eq(_) | Ne(_) => {
                let s = if lt == Ty::Str || rt == Ty::Str { format!("vstreq(({l}).vas_str(), ({r}).vas_str())") } else { cmp("veq", "veq") };
                if matches!(b.op, Ne(_)) { format!("(!{s})") } else { s }
            }
            Lt(_) => cmp("vlt", "vgt"), Le(_) => cmp("vle", "vge"), Gt(_) => cmp("vgt", "vlt"), Ge(_) => cmp("vge", "vle"),
            AddAssign(_) => format!("{} = {l} + {r}", strip_par(&l)), SubAssign(_) => format!("{} = {l} - {r}", strip_par(&l)), MulAssign(_) => format!("{} = {l} * {r}", strip_par(&l)), DivAssign(_) => format!("{} = {l} / {r}", strip_par(&l)),
            BitAndAssign(_) => format!("{{ let vr = {r}; {} = {l} && vr; }}", strip_par(&l)), BitOrAssign(_) => format!("{{ let vr = {r}; {} = {l} || vr; }}", strip_par(&l)),
            _ => return Err("operator".into()),
        })
    }
    fn if_(&mut self, i: &ExprIf, want: &Ty) -> R<String> {
        let cond = un(&i.cond);
        // conditions with `let` chains become nested ifs when there is no else branch
        let mut conj = vec![];
        fn flat<'b>(e: &'b Expr, o: &mut Vec<&'b Expr>) { if let Expr::Binary(b) = un(e) { if let BinOp::And(_) = b.op { flat(&b.left, o); flat(&b.right, o); return } } o.push(un(e)) }
        flat(cond, &mut conj);
        let lets = conj.iter().any(|c| matches!(c, Expr::Let(_)));
        if lets && conj.len() > 1 {
            if i.else_branch.is_some() { return Err("let chain with else".into()) }
            let mut e: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
            for c in conj.iter().rev() { let b = match e { Expr::Block(b) => b.block, e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] } }; e = Expr::If(ExprIf { attrs: vec![], if_token: Default::default(), cond: Box::new((*c).clone()), then_branch: b, else_branch: None }) }
            return self.expr(&e, want);
        }
        let els = |me: &mut Self| -> R<String> { Ok(match &i.else_branch { None => String::new(), Some((_, e)) => match &**e { Expr::If(_) | Expr::Match(_) => format!(" else {{\n{}\n}}", me.expr(e, want)?), Expr::Block(b) => format!(" else {}", me.block(&b.block, want)?), _ => return Err("else".into()) } }) };
        if let Expr::Let(l) = cond {
            let t = self.ty(&l.expr); let x = self.expr(&l.expr, &Ty::Unk)?;
            self.push();
            let r = (|| -> R<String> {
                let (p, pre) = self.arm_pat(&l.pat)?; self.bind_pat_ty(&l.pat, &t);
                let b = self.stmts(&i.then_branch.stmts, want)?;
                Ok(format!("if let {p} = {x} {{\n{pre}{b}\n}}"))
            })();
            self.pop();
            let r = r?;
            return Ok(r + &els(self)?);
        }
        let c = self.expr(cond, &Ty::Bool)?;
        let b = self.block(&i.then_branch, want)?;
        Ok(format!("if {c} {b}{}", els(self)?))
    }
    fn match_(&mut self, m: &ExprMatch, want: &Ty) -> R<String> {
        // match on string literals
        let strs = |p: &Pat| -> Option<Vec<String>> { match p { Pat::Lit(l) => if let Lit::Str(_) = &l.lit { let l = &l.lit; Some(vec![quote!(#l).to_string()]) } else { None }, Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { if let Pat::Lit(l) = c { if let Lit::Str(_) = &l.lit { let l = &l.lit; v.push(quote!(#l).to_string()); continue } } return None } Some(v) } _ => None } };
        if m.arms.iter().any(|a| strs(&a.pat).is_some()) {
            let k = self.fresh(); let x = self.expr(&m.expr, &Ty::Unk)?;
            let mut o = format!("{{\nlet vm{k} = ({x}).vas_str();\n"); let mut first = true; let mut done = false;
            for a in &m.arms {
                if done { return Err("unreachable arm".into()) }
                match strs(&a.pat) {
                    Some(v) => { if a.guard.is_some() { return Err("guard on string arm".into()) } let c = v.iter().map(|s| format!("vstreq(vm{k}, {s})")).collect::<Vec<_>>().join(" || "); let b = self.expr(&a.body, want)?; o += &format!("{}if {c} {{\n{b}\n}}", if first { "" } else { " else " }); }
                    None => { if a.guard.is_some() { return Err("guard on string arm".into()) } self.push(); let pre = match &a.pat { Pat::Wild(_) => String::new(), Pat::Ident(i) => { self.bind_var(&i.ident.to_string(), Ty::Str, false, Kind::Plain); format!("let {} = vm{k};\n", i.ident) } _ => return Err("string arm".into()) }; let b = self.expr(&a.body, want); self.pop(); let b = b?; o += &if first { format!("{{ {pre}{b} }}") } else { format!(" else {{\n{pre}{b}\n}}") }; done = true }
                }
                first = false;
            }
            return Ok(o + "\n}");
        }
        let t = self.ty(&m.expr); let x = self.expr(&m.expr, &Ty::Unk)?;
        let x = if let Expr::Tuple(_) | Expr::Path(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Reference(_) | Expr::Call(_) | Expr::Index(_) = un(&m.expr) { x } else { format!("({x})") };
        let mut o = format!("match {x} {{\n");
        for a in &m.arms {
            self.push();
            let r = (|| -> R<String> {
                let (p, pre) = self.arm_pat(&a.pat)?;
                self.bind_pat_ty(&a.pat, &t);
                let g = match &a.guard { Some((_, g)) => { if !pre.is_empty() { return Err("guard on reference pattern".into()) } format!(" if {}", self.expr(g, &Ty::Bool)?) } None => String::new() };
                let b = self.expr(&a.body, want)?;
                let mut b = b; if b == "()" { b = String::new() }
                Ok(format!("{p}{g} => {{\n{pre}{b}\n}}\n"))
            })();
            self.pop();
            o += &r?;
        }
        Ok(o + "}")
    }
    fn mac(&mut self, m: &Macro, want: &Ty) -> R<String> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let isl = m.path.segments.len() == 2 && m.path.segments[0].ident == "log";
        Ok(match n.as_str() {
            "error" | "warn" | "info" | "debug" | "trace" if isl => "()".into(),
            "println" | "eprintln" | "print" | "eprint" | "debug_assert" | "debug_assert_eq" => "()".into(),
            "format" => {
                if let Some(x) = self.display_fmt(m)? { x } else { "vfmt()".into() }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => "vpanic()".into(),
            "assert" => { let v = mac_args(m); let x = self.expr(v.first().ok_or("assert")?, &Ty::Bool)?; format!("vassert({x})") }
            "assert_eq" | "assert_ne" => { let v = mac_args(m); if v.len() < 2 { return Err("assert_eq".into()) } let (a, b) = (self.expr(&v[0], &Ty::Unk)?, self.expr(&v[1], &Ty::Unk)?); format!("vassert({}({a}).veq(&({b})))", if n == "assert_ne" { "!" } else { "" }) }
            "vec" => {
                if let Some((a, c)) = vec_repeat(m) { let x = self.expr(&a, &want.elem())?; let c = self.expr(&c, &Ty::Unk)?; format!("vec_from_elem({x}, {c})") }
                else { let w = want.elem(); let v = mac_args(m); let a: R<Vec<_>> = v.iter().map(|x| self.expr(x, &w)).collect(); let a = a?; if a.is_empty() { "Vec::new()".into() } else { format!("vec![{}]", a.join(", ")) } }
            }
            "polygon" => { let v = mac_args(m); let a: R<Vec<_>> = v.iter().map(|x| self.expr(x, &Ty::Unk)).collect(); format!("vpolygon(vec![{}])", a?.join(", ")) }
            "matches" => {
                struct MM(Expr, Pat, Option<Expr>);
                impl parse::Parse for MM { fn parse(i: parse::ParseStream) -> syn::Result<Self> { let e: Expr = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<Token![,]>>(); Ok(MM(e, p, g)) } }
                let MM(e, p, g) = parse2(m.tokens.clone()).map_err(|e| e.to_string())?;
                let t = self.ty(&e); let x = self.expr(&e, &Ty::Unk)?;
                self.push(); self.bind_pat_ty(&p, &t);
                let p = self.pat(&p)?; let g = match g { Some(g) => format!(" if {}", self.expr(&g, &Ty::Bool)?), None => String::new() };
                self.pop();
                format!("(match {x} {{ {p}{g} => true, _ => false }})")
            }
            "write" => {
                let v = mac_args(m);
                if let (Some(f), Some(Expr::Lit(l)), Some(a)) = (v.first(), v.get(1).map(un), v.get(2)) { if let Lit::Str(s) = &l.lit {
                    let f = self.expr(f, &Ty::Unk)?;
                    let a2 = self.expr(a, &Ty::Unk)?;
                    match s.value().as_str() { "{}" if self.ty(a) == Ty::Str => return Ok(format!("{f}.write_str(({a2}).vas_str())")), "{}" => return Ok(format!("{f}.write_str(({a2}).vto_string().vas_str())")), "{:?}" => return Ok(format!("{f}.write_str(({a2}).vdebug().vas_str())")), _ => {} }
                } }
                return Err("write!".into());
            }
            _ => return Err(format!("macro {n}!")),
        })
    }
    fn display_fmt(&mut self, m: &Macro) -> R<Option<String>> {
        let v = mac_args(m);
        if let (Some(Expr::Lit(l)), Some(a), 2) = (v.first().map(un), v.get(1), v.len()) { if let Lit::Str(s) = &l.lit {
            if s.value() == "{:?}" { if let Ty::Named(n, _) = self.ty(a) { if self.ix.find_type(&n).is_some() { let a = self.expr(a, &Ty::Unk)?; return Ok(Some(format!("({a}).vdebug()"))) } } }
            if s.value() == "{}" && self.ty(a) == Ty::Str { let a = self.expr(a, &Ty::Unk)?; return Ok(Some(format!("({a}).vto_string()"))) }
        } }
        Ok(None)
    }
    fn call(&mut self, c: &ExprCall, want: &Ty) -> R<String> {
        let Expr::Path(p) = un(&c.func) else { return Err("call".into()) };
        if let Some(q) = &p.qself {
            let l = p.path.segments.last().unwrap().ident.to_string();
            if let (Ty::Arr(_, n), "try_from") = (self.lt(&q.ty.clone()), l.as_str()) { let x = self.expr(&c.args[0], &Ty::Unk)?; return Ok(format!("vtry_arr::<{n}, _>({x})")) }
        }
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().clone();
        if segs.len() == 1 && last == "Err" { let w = if let Ty::Res(_, e) = want { (**e).clone() } else { Ty::Unk }; return Ok(format!("Err({})", self.expr(&c.args[0], &w)?)) }
        if segs.len() == 1 && (last == "Some" || last == "Ok") {
            let w = match want { Ty::Opt(a) if last == "Some" => (**a).clone(), Ty::Res(a, _) if last == "Ok" => (**a).clone(), _ => Ty::Unk };
            return Ok(format!("{last}({})", self.expr(&c.args[0], &w)?));
        }
        if segs.len() == 1 { if let Some(Var { kind: Kind::Closure(k), .. }) = self.var(&last).cloned() {
            let tys: Vec<Ty> = c.args.iter().map(|a| self.ty(a)).collect();
            let mut a = vec![]; for x in &c.args { a.push(self.expr(x, &Ty::Unk)?) }
            return self.apply(&Expr::Closure(k), &a, &tys);
        } }
        if segs.len() >= 2 && segs[segs.len() - 2] == "Box" && last == "new" { let x = self.expr(&c.args[0], &Ty::Unk)?; return Ok(format!("Box::new({x})")) }
        let tys: Vec<Ty> = c.args.iter().map(|a| self.ty(a)).collect();
        let fd = self.resolve(&segs);
        let mut a = vec![];
        for (i, x) in c.args.iter().enumerate() {
            let w = fd.as_ref().and_then(|f| f.sig.inputs.iter().filter_map(|x| if let FnArg::Typed(t) = x { Some(light(self.ix, &t.ty, f.self_ty.as_ref())) } else { None }).nth(i)).unwrap_or(Ty::Unk);
            a.push(self.expr(x, &w)?)
        }
        self.call_path(&p.path, &segs, a, &tys)
    }
    fn resolve(&self, segs: &[String]) -> Option<FnDef> {
        let last = segs.last().unwrap();
        if segs.len() >= 2 {
            let mut t = segs[segs.len() - 2].clone();
            if t == "Self" { t = self.self_ty.as_ref().map(last_seg).unwrap_or_default() }
            if let Some(f) = self.ix.fns.iter().find(|f| f.qual == format!("{t}::{last}") || f.qual.ends_with(&format!("::{t}::{last}"))) { return Some(f.clone()) }
            if t.starts_with(char::is_uppercase) { return None }
        }
        if let Some(f) = self.local_fns.iter().rev().find(|f| f.qual == *last) { return Some(f.clone()) }
        let fs: Vec<_> = self.ix.fns_named(last).into_iter().filter(|f| f.self_ty.is_none() && f.trait_name.is_none()).collect();
        let own: Vec<_> = fs.iter().filter(|f| f.file == self.file).collect();
        if own.len() == 1 { return Some((*own[0]).clone()) }
        if fs.len() == 1 { return Some(fs[0].clone()) }
        None
    }
    fn call_path(&mut self, p: &Path, segs: &[String], args: Vec<String>, tys: &[Ty]) -> R<String> {
        let last = segs.last().unwrap().clone();
        let n = segs.len();
        if n >= 2 {
            let key = format!("{}::{last}", segs[n - 2]);
            if let Some(r) = self.req.rename_p.get(&key) { return Ok(format!("{r}({})", args.join(", "))) }
            match (segs[n - 2].as_str(), last.as_str()) {
                ("String", "from") | ("String", "from_str") => return Ok(format!("({}).vto_string()", args[0])),
                ("String", "new") => return Ok("vstr_new()".into()),
                ("Vec" | "HashMap", "from" | "from_iter") => return Err("conversion".into()),
                ("HashMap", "with_capacity") => return Ok("HMap::new()".into()),
                ("f64", m) if !args.is_empty() => return Ok(format!("({}).{}({})", args[0], self.mname(m), args[1..].join(", "))),
                ("ToOwned" | "Clone", _) => return Ok(format!("({}).vclone()", args[0])),
                ("ToString", _) => return Ok(format!("({}).vto_string()", args[0])),
                ("mem", "take") => return Ok(format!("vtake({})", args[0])),
                ("mem", "replace") => return Ok(format!("vreplace({})", args.join(", "))),
                ("cmp", "min") => return Ok(format!("({}).vmin({})", args[0], args[1])),
                ("cmp", "max") => return Ok(format!("({}).vmax({})", args[0], args[1])),
                _ => {}
            }
        }
        let key = if n >= 2 { format!("{}::{last}", segs[n - 2]) } else { last.clone() };
        if self.req.rename_p.contains_key(&key) || self.req.rename_p.contains_key(&last) { return Ok(format!("{}({})", self.path_str(p), args.join(", "))) }
        if let Some(f) = self.resolve(segs) {
            let short = f.qual.rsplit("::").next().unwrap().to_string();
            let q2 = if f.self_ty.is_some() { f.qual.clone() } else { short.clone() };
            if self.req.known.contains(&f.qual) || self.req.known.contains(&q2) {
                if f.self_ty.is_some() { return Ok(format!("{}({})", self.path_str(p), args.join(", "))) }
                return Ok(format!("{}({})", short, args.join(", ")));
            }
            return self.inline(&f, None, args, tys);
        }
        if n >= 2 && self.ix.aliases.contains_key(&segs[n - 2]) { if let Ty::Mat(r, c) = self.lt(&self.ix.aliases[&segs[n - 2]].ty.clone()) { return Ok(format!("Mat{r}{c}::{last}({})", args.join(", "))) } }
        Ok(format!("{}({})", self.path_str(p), args.join(", ")))
    }
    fn inline(&mut self, f: &FnDef, recv: Option<(String, bool, Ty)>, args: Vec<String>, tys: &[Ty]) -> R<String> {
        if self.depth > 5 || self.inlined.iter().filter(|x| **x == f.qual).count() > 40 || self.cur == f.qual { return Err(format!("recursion through {}", f.qual)) }
        let k = self.fresh();
        let mut o = String::new();
        let mut names = vec![];
        for (i, a) in args.iter().enumerate() { o += &format!("let va{k}_{i} = {a};\n"); names.push(format!("va{k}_{i}")) }
        let st = if f.block.stmts.iter().any(|s| match s { Stmt::Expr(e, _) => elim::has_return_e(e), Stmt::Local(l) => l.init.as_ref().map_or(false, |i| elim::has_return_e(&i.expr) || i.diverge.as_ref().map_or(false, |d| elim::has_return_e(&d.1))), _ => false }) { elim::elim(&f.block.stmts).ok_or(format!("early return in a loop of the inlined function {}", f.qual))? } else { f.block.stmts.clone() };
        if elim::has_question(&f.block) { return Err(format!("? in the inlined function {}", f.qual)) }
        let sv_env = std::mem::replace(&mut self.env, vec![BTreeMap::new()]);
        let sv_self = self.self_ty.clone(); let sv_name = self.self_name.clone(); let sv_file = std::mem::replace(&mut self.file, f.file.clone());
        let sv_cur = std::mem::replace(&mut self.cur, f.qual.clone()); let sv_can = std::mem::replace(&mut self.can_ret, false);
        let sv_gen = std::mem::take(&mut self.gen);
        let fr = self.fn_ret(f); let sv_ret = std::mem::replace(&mut self.ret, fr);
        self.inlined.push(f.qual.clone());
        self.depth += 1;
        self.self_ty = f.self_ty.clone();
        let r = (|| -> R<String> {
            let mut b = String::new();
            if let Some((r, m, _)) = &recv { b += &format!("let vself{k} = {}({r});\n", if *m { "&mut " } else { "&" }); self.self_name = format!("vself{k}"); }
            else { self.self_name = "self".into() }
            let mut it = names.iter().zip(tys.iter().cloned().chain(std::iter::repeat(Ty::Unk)));
            let gens: Vec<String> = f.sig.generics.type_params().map(|g| g.ident.to_string()).collect();
            for inp in &f.sig.inputs {
                match inp {
                    FnArg::Receiver(_) if recv.is_some() => {}
                    FnArg::Receiver(_) => { let (n, _) = it.next().ok_or("arity")?; b += &format!("let vself{k} = {n};\n"); self.self_name = format!("vself{k}"); }
                    FnArg::Typed(t) => {
                        let (n, ty) = it.next().ok_or("arity")?;
                        let dt = light(self.ix, &t.ty, f.self_ty.as_ref());
                        let dt = match &dt { Ty::Named(x, _) if gens.contains(x) => ty.clone(), Ty::Unk => ty.clone(), _ => dt };
                        b += &self.bind(&t.pat, n)?; self.bind_pat_ty(&t.pat, &dt);
                    }
                }
            }
            let want = self.ret.clone();
            let body = self.stmts(&st, &want)?;
            Ok(format!("{{\n{o}{b}{body}\n}}"))
        })();
        self.env = sv_env; self.self_ty = sv_self; self.self_name = sv_name; self.file = sv_file; self.cur = sv_cur; self.can_ret = sv_can; self.ret = sv_ret; self.gen = sv_gen;
        self.depth -= 1;
        r
    }
    fn mname(&self, n: &str) -> String {
        if let Some(r) = self.req.rename_m.get(n) { return r.clone() }
        match n {
            "clone" | "to_owned" => "vclone", "to_string" => "vto_string", "len" => "vlen", "contains" => "vcontains", "is_empty" => "vis_empty", "first" => "vfirst", "last" => "vlast",
            "as_str" => "vas_str", "try_into" => "vtry_into", "to_lowercase" => "vto_lowercase", "to_vec" => "vto_vec", "append" => "vappend", "abs" => "vabs", "min" => "vmin", "max" => "vmax", "partial_cmp" => "vpartial_cmp", "total_cmp" => "vtotal_cmp", "cmp" => "vcmp",
            "extend_from_slice" => "vextend", "eq" => "veq", "lt" => "vlt", "le" => "vle", "gt" => "vgt", "ge" => "vge", "reverse" => "vreverse", "expect" => "unwrap", "saturating_sub" => "vsaturating_sub", "unsigned_abs" => "vunsigned_abs", "abs_diff" => "vabs_diff", "as_slice" => "vas_slice", "last_mut" => "vlast_mut",
            x => x,
        }.to_string()
    }
    fn method(&mut self, m: &ExprMethodCall, want: &Ty) -> R<String> {
        let n = m.method.to_string();
        let e = Expr::MethodCall(m.clone());
        if self.term(&e) { return self.iter_term(m, want, false) }
        if self.is_iter(&e) {
            // an iterator passed on as a value
            if m.args.is_empty() && (n == "iter" || n == "keys") { let x = self.expr(&m.receiver, &Ty::Unk)?; return Ok(format!("({x}).{}()", if n == "iter" { "vsit" } else { "vkit" })) }
            return Err(format!("iterator value ({n})"));
        }
        if n == "extend" && m.args.len() == 1 {
            let t = self.ty(&m.args[0]).elem(); self.refine(&m.receiver, Ty::Vec(Box::new(t)));
            let l = self.expr(&m.receiver, &Ty::Unk)?; let s = self.source(&m.args[0])?;
            let map = matches!(self.ty(&m.receiver), Ty::Map(..)); let k = self.fresh();
            let o = self.run(s, "", &mut |_, it, _| Ok(if map { format!("let (vk{k}, vv{k}) = {it};\n{l}.insert(vk{k}, vv{k});") } else { format!("{l}.push({it});") }), false)?;
            return Ok(format!("{{\n{o}}}"));
        }
        if n == "as_ref" && m.args.is_empty() && (self.ty(&m.receiver) == Ty::Str || matches!(self.ty(&m.receiver), Ty::Named(ref x, _) if x == "PathBuf" || x == "Path")) { return self.expr(&m.receiver, &Ty::Unk) }
        if n == "to_owned" && m.args.is_empty() && self.ty(&m.receiver) == Ty::Str && matches!(&*m.receiver, Expr::MethodCall(x) if matches!(x.method.to_string().as_str(), "as_ref" | "as_str" | "trim" | "to_str")) { let x = self.expr(&m.receiver, &Ty::Unk)?; return Ok(format!("({x}).vto_string()")) }
        if n == "clone_from" { let l = self.expr(&m.receiver, &Ty::Unk)?; let r = self.expr(&m.args[0], &Ty::Unk)?; return Ok(format!("{l} = ({r}).vclone()")) }
        if let Some(s) = self.opt_comb(m, want)? { return Ok(s) }
        // sorting with a comparison closure
        if matches!(n.as_str(), "sort_by" | "sort_unstable_by" | "sort_by_key" | "sort_by_cached_key" | "sort_unstable_by_key" | "dedup_by" | "retain" | "sort_by_") {
            let et = self.ty(&m.receiver).elem();
            let l = self.expr(&m.receiver, &Ty::Unk)?;
            let f = match path_id(&m.args[0]).and_then(|n| self.var(&n).cloned()) { Some(Var { kind: Kind::Closure(c), .. }) => Expr::Closure(c), _ => m.args[0].clone() };
            let Expr::Closure(c) = un(&f) else { return Err(format!("{n} with a function")) };
            let np = c.inputs.len(); let id = self.clos.len();
            let params: Vec<String> = (0..np).map(|i| format!("vc{id}_{i}")).collect();
            let tys = vec![et.clone(); np];
            let body = self.apply(&f, &params, &tys)?;
            self.clos.push(Clos { id, method: n.clone(), params: params.clone() });
            let (mm, ret) = match n.as_str() { "sort_by" => ("vsort_by", ": Ordering"), "sort_unstable_by" => ("vsort_unstable_by", ": Ordering"), "sort_by_key" | "sort_by_cached_key" => ("vsort_by_key", ": __KEY__"), "retain" => ("vretain", ": bool"), _ => return Err(n) };
            let ret = if ret == ": __KEY__" { format!(": __KEY{id}__") } else { ret.into() };
            let ps = params.iter().map(|p| format!("{p}: &_")).collect::<Vec<_>>().join(", ");
            return Ok(format!("{l}.{mm}(|{ps}| -> (vret{ret})\n__CLOS{id}__\n{body})"));
        }
        if n == "or_insert" || n == "or_default" || n == "or_insert_with" || n == "or_insert_with_key" {
            if let Expr::MethodCall(en) = un(&m.receiver) { if en.method == "entry" {
                let l = self.expr(&en.receiver, &Ty::Unk)?; let k = self.expr(&en.args[0], &Ty::Unk)?;
                let d = match n.as_str() { "or_insert" => self.expr(&m.args[0], &Ty::Unk)?, "or_default" => "vdefault()".into(), "or_insert_with" => self.apply(&m.args[0], &[], &[])?, _ => return Err(n) };
                return Ok(format!("{l}.ventry({k}, {d})"));
            } }
        }
        let rt = self.ty(&m.receiver);
        // method of the crate?
        if !self.req.rename_m.contains_key(&n) {
            let cands: Vec<FnDef> = match &rt {
                Ty::Named(t, a) => {
                    let mut v: Vec<FnDef> = self.ix.fns.iter().filter(|f| f.qual == format!("{t}::{n}")).cloned().collect();
                    if v.len() > 1 { if let Some(k) = a.first() { v.retain(|f| f.self_ty.as_ref().map_or(false, |s| light(self.ix, s, None) == Ty::Named(t.clone(), vec![k.clone()]))) } }
                    v
                }
                Ty::Unk => self.ix.fns_named(&n).into_iter().filter(|f| f.self_ty.is_some() && f.sig.receiver().is_some() && f.trait_name.is_none()).cloned().collect(),
                _ => vec![],
            };
            let builtin = self.mname(&n) != n || matches!(n.as_str(), "push" | "insert" | "get" | "get_mut" | "remove" | "unwrap" | "next" | "prev" | "is_none" | "is_some" | "join");
            if cands.len() == 1 && !(rt == Ty::Unk && builtin) {
                let f = cands[0].clone();
                if !self.req.known.contains(&f.qual) {
                    let mt = f.sig.receiver().map_or(false, |r| r.mutability.is_some() && r.reference.is_some());
                    let r = self.expr(&m.receiver, &Ty::Unk)?;
                    let tys: Vec<Ty> = m.args.iter().map(|a| self.ty(a)).collect();
                    let mut a = vec![]; for x in &m.args { a.push(self.expr(x, &Ty::Unk)?) }
                    if f.sig.receiver().map_or(false, |r| r.reference.is_none()) { let mut args = vec![r]; args.extend(a); let mut t2 = vec![rt]; t2.extend(tys); return self.inline(&f, None, args, &t2) }
                    return self.inline(&f, Some((r, mt, rt)), a, &tys);
                }
            }
        }
        match (n.as_str(), m.args.len()) {
            ("push" | "push_back", 1) => { let t = self.ty(&m.args[0]); self.refine(&m.receiver, Ty::Vec(Box::new(t))) }
            ("insert", 2) => { let (k, v) = (self.ty(&m.args[0]), self.ty(&m.args[1])); if matches!(rt, Ty::Vec(_)) { self.refine(&m.receiver, Ty::Vec(Box::new(v))) } else { self.refine(&m.receiver, Ty::Map(Box::new(k), Box::new(v))) } }
            ("extend" | "append" | "extend_from_slice", 1) => { let t = self.ty(&m.args[0]).elem(); self.refine(&m.receiver, Ty::Vec(Box::new(t))) }
            _ => {}
        }
        let rt = self.ty(&m.receiver);
        let w0 = match (&rt, n.as_str()) { (Ty::F, _) => Ty::F, (Ty::Vec(t), "push") => (**t).clone(), _ => Ty::Unk };
        let r = self.expr(&m.receiver, &Ty::Unk)?;
        if rt == Ty::Str && m.args.is_empty() { match n.as_str() { "len" => return Ok(format!("{r}.vslen()")), "is_empty" => return Ok(format!("({r}.vslen() == 0)")), _ => {} } }
        if (n == "unwrap" || n == "expect") && matches!(rt, Ty::Res(..)) { return Ok(format!("({r}).vunwrap()")) }
        let r = match un(&m.receiver) { Expr::Path(_) | Expr::Field(_) | Expr::Index(_) | Expr::MethodCall(_) | Expr::Call(_) => r, _ => format!("({r})") };
        let mut a = vec![];
        for x in &m.args { a.push(if let Expr::Closure(_) = un(x) { return Err(format!("closure passed to {n}")) } else { self.expr(x, &w0)? }) }
        Ok(format!("{r}.{}({})", self.mname(&n), a.join(", ")))
    }
    /// Option and Result combinators.
    fn opt_comb(&mut self, m: &ExprMethodCall, want: &Ty) -> R<Option<String>> {
        let n = m.method.to_string();
        if !matches!(n.as_str(), "map" | "and_then" | "ok_or" | "ok_or_else" | "unwrap_or" | "unwrap_or_else" | "unwrap_or_default" | "map_err" | "map_or" | "map_or_else" | "is_some_and" | "is_none_or" | "filter" | "or" | "or_else" | "ok" | "cloned" | "copied" | "is_ok_and" | "then" | "then_some" | "as_deref" | "err" | "inspect_err" | "unwrap_unchecked") { return Ok(None) }
        let rt = self.ty(&m.receiver);
        let r = self.expr(&m.receiver, &Ty::Unk)?;
        let k = self.fresh();
        let res = match (&rt, n.as_str()) { (Ty::Res(..), _) | (_, "map_err" | "ok" | "is_ok_and" | "err" | "inspect_err") => true, _ => false };
        let (some, none) = if res { ("Ok", format!("Err(ve{k})")) } else { ("Some", "None".to_string()) };
        let inner = match &rt { Ty::Opt(t) | Ty::Res(t, _) => (**t).clone(), _ => Ty::Unk };
        let et = match &rt { Ty::Res(_, e) => (**e).clone(), _ => Ty::Unk };
        let v = format!("vk{k}");
        let mk = |a: String, b: String| format!("match {r} {{\n{some}({v}) => {{ {a} }}\n{none} => {{ {b} }}\n}}");
        let ea: Vec<String> = if res { vec![format!("ve{k}")] } else { vec![] };
        let ett: Vec<Ty> = if res { vec![et.clone()] } else { vec![] };
        Ok(Some(match n.as_str() {
            "map" => { let x = self.apply(&m.args[0], &[v.clone()], &[inner])?; mk(format!("{some}({x})"), none.clone()) }
            "and_then" => { let x = self.apply(&m.args[0], &[v.clone()], &[inner])?; mk(x, none.clone()) }
            "ok_or" => { let x = self.expr(&m.args[0], &Ty::Unk)?; mk(format!("Ok({v})"), format!("Err({x})")) }
            "ok_or_else" => { let x = self.apply(&m.args[0], &[], &[])?; mk(format!("Ok({v})"), format!("Err({x})")) }
            "unwrap_or" => { let x = self.expr(&m.args[0], &inner)?; mk(v.clone(), x) }
            "unwrap_or_else" => { let x = self.apply(&m.args[0], &ea, &ett)?; mk(v.clone(), x) }
            "unwrap_or_default" => mk(v.clone(), "vdefault()".into()),
            "map_err" => { let x = self.apply(&m.args[0], &ea, &ett)?; mk(format!("Ok({v})"), format!("Err({x})")) }
            "map_or" => { let d = self.expr(&m.args[0], want)?; let x = self.apply(&m.args[1], &[v.clone()], &[inner])?; mk(x, d) }
            "map_or_else" => { let d = self.apply(&m.args[0], &ea, &ett)?; let x = self.apply(&m.args[1], &[v.clone()], &[inner])?; mk(x, d) }
            "is_some_and" | "is_ok_and" => { let x = self.apply(&m.args[0], &[v.clone()], &[inner])?; mk(x, "false".into()) }
            "is_none_or" => { let x = self.apply(&m.args[0], &[v.clone()], &[inner])?; mk(x, "true".into()) }
            "filter" => { let x = self.apply(&m.args[0], &[format!("&{v}")], &[inner])?; mk(format!("if {x} {{ Some({v}) }} else {{ None }}"), "None".into()) }
            "or" => { let x = self.expr(&m.args[0], want)?; mk(format!("{some}({v})"), x) }
            "or_else" => { let x = self.apply(&m.args[0], &ea, &ett)?; mk(format!("{some}({v})"), x) }
            "ok" => mk(format!("Some({v})"), "None".into()),
            "err" => mk("None".into(), format!("Some(ve{k})")),
            "inspect_err" => mk(format!("Ok({v})"), none.clone()),
            "cloned" | "copied" => mk(format!("{some}((*{v}).vclone())"), none.clone()),
            "then" => { let x = self.apply(&m.args[0], &[], &[])?; format!("if {r} {{ Some({x}) }} else {{ None }}") }
            "then_some" => { let x = self.expr(&m.args[0], &Ty::Unk)?; format!("if {r} {{ Some({x}) }} else {{ None }}") }
            "as_deref" => format!("{r}.as_ref()"),
            _ => return Err(n),
        }))
    }
}
fn strip_par(s: &str) -> String {
    // `(*x)` on the left of an assignment
    if s.starts_with("(*") && s.ends_with(')') { let inner = &s[1..s.len() - 1]; let mut d = 0i32; for c in inner.chars() { if c == '(' { d += 1 } if c == ')' { d -= 1 } if d < 0 { return s.into() } } return inner.into() }
    s.into()
}
fn semi(s: &mut String) { let t = s.trim_end(); if !t.is_empty() && !t.ends_with(';') && !t.ends_with('}') { s.push(';') } }
fn ok_tail(c: &ExprClosure) -> Option<ExprClosure> {
    let mut c = c.clone();
    fn tail(e: &mut Expr) -> bool {
        match e {
            Expr::Call(k) if path_id(&k.func).as_deref() == Some("Ok") => { *e = k.args[0].clone(); true }
            Expr::Block(b) => match b.block.stmts.last_mut() { Some(Stmt::Expr(e, None)) => tail(e), _ => false },
            _ => false,
        }
    }
    if tail(&mut c.body) { Some(c) } else { None }
}
pub fn mac_args(m: &Macro) -> Vec<Expr> {
    m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default()
}
fn vec_repeat(m: &Macro) -> Option<(Expr, Expr)> {
    struct VR(Expr, Expr);
    impl parse::Parse for VR { fn parse(i: parse::ParseStream) -> syn::Result<Self> { let a = i.parse()?; i.parse::<Token![;]>()?; let b = i.parse()?; Ok(VR(a, b)) } }
    parse2::<VR>(m.tokens.clone()).ok().map(|v| (v.0, v.1))
}
