//! rs2v <src root> : reads a request (JSON) on stdin, prints the translated functions and types (JSON).
mod elim;
mod index;
mod tr;
mod ty;
use index::*;
use quote::quote;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::Read;
use std::path::Path;
use syn::*;
use tr::*;
use ty::*;

fn smap(v: &Value) -> HashMap<String, String> {
    v.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()).unwrap_or_default()
}
fn squash(t: &impl quote::ToTokens) -> String { quote!(#t).to_string().replace(' ', "") }

fn generics_text(g: &Generics, skip: &HashMap<String, Ty>) -> String {
    let mut v = vec![];
    for p in &g.params {
        match p {
            GenericParam::Lifetime(l) => v.push(l.lifetime.to_string()),
            GenericParam::Type(t) => if !skip.contains_key(&t.ident.to_string()) { v.push(t.ident.to_string()) },
            GenericParam::Const(c) => v.push(format!("const {}: {}", c.ident, squash(&c.ty))),
        }
    }
    if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) }
}
fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| { v.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
        }
    }
    v
}
/// The key a field (or variant) has in the document, the module of `with`, and whether an attribute makes the rule unknown.
fn serde_rule(attrs: &[Attribute], name: &str) -> (String, Option<String>, bool, bool) {
    let (mut key, mut with, mut opt, mut unk) = (name.to_string(), None, false, false);
    for a in attrs {
        if !a.path().is_ident("serde") { continue }
        let r = a.parse_nested_meta(|m| {
            let n = m.path.get_ident().map(|x| x.to_string()).unwrap_or_default();
            let val = |m: &syn::meta::ParseNestedMeta| -> syn::Result<String> { let l: LitStr = m.value()?.parse()?; Ok(l.value()) };
            match n.as_str() {
                "rename" => key = val(&m)?,
                "with" => with = Some(val(&m)?.rsplit("::").next().unwrap_or("").to_string()),
                "deserialize_with" => { let v = val(&m)?; with = Some(v.strip_suffix("::deserialize").unwrap_or(&v).rsplit("::").next().unwrap_or("").to_string()) }
                "serialize_with" | "skip_serializing_if" => { val(&m)?; }
                "skip_serializing" => {}
                "default" => { opt = true; if m.input.peek(Token![=]) { val(&m)?; } }
                _ => { unk = true; if m.input.peek(Token![=]) { val(&m)?; } }
            }
            Ok(())
        });
        if r.is_err() { unk = true }
    }
    (key, with, opt, unk)
}
/// `De` for a type that derives Deserialize: what the document says of each field.
fn de_impl(d: &TyDef, name: &str, fields: &[Value]) -> String {
    let mut v: Vec<String> = vec![];
    match d {
        TyDef::Struct(s) => {
            let whole = serde_rule(&s.attrs, "");
            if let Fields::Named(f) = &s.fields { if !whole.3 && whole.1.is_none() && !whole.2 { for x in &f.named {
                let n = x.ident.as_ref().unwrap().to_string();
                let t = match fields.iter().find(|y| y[0] == n) { Some(y) => y[1].as_str().unwrap().to_string(), None => continue };
                let (key, with, opt, unk) = serde_rule(&x.attrs, &n);
                if unk { continue }
                let e = format!("d_get(t, \"{key}\"@)");
                let c = match with { Some(m) => format!("{m}_de({e}, v.{n})"), None => format!("<{t} as De>::de({e}, v.{n})") };
                v.push(if opt { format!("({e} is Absent || {c})") } else { c });
            } } }
        }
        TyDef::Enum(e) => {
            let whole = serde_rule(&e.attrs, "");
            if !whole.3 && e.variants.iter().all(|x| matches!(x.fields, Fields::Unit) && !serde_rule(&x.attrs, "").3) {
                let arms: Vec<String> = e.variants.iter().map(|x| format!("{name}::{} => \"{}\"@", x.ident, serde_rule(&x.attrs, &x.ident.to_string()).0)).collect();
                v.push(format!("t == VTok::Str(match v {{ {} }})", arms.join(", ")));
            }
        }
    }
    format!("impl De for {name} {{ open spec fn de(t: VTok, v: Self) -> bool {{ {} }} }}\n", if v.is_empty() { "true".into() } else { v.join(" && ") })
}
fn do_type(ix: &SrcIndex, d: &TyDef, req: &Req, opts: &Value) -> std::result::Result<Value, String> {
    let rn = |n: &str| req.rename_t.get(n).cloned();
    let none = HashMap::new();
    let noeq = opts["noeq"].as_bool().unwrap_or(false);
    let mut out = String::new();
    let mut fields = vec![];
    let (name, gens, der);
    match d {
        TyDef::Struct(s) => {
            name = s.ident.to_string(); gens = generics_text(&s.generics, &none); der = derives(&s.attrs);
            let head = if der.contains(&"Copy".to_string()) { "#[derive(Clone, Copy)]\n" } else { "" };
            match &s.fields {
                Fields::Named(f) => {
                    out += &format!("{head}pub struct {name}{gens} {{\n");
                    for x in &f.named {
                        let n = x.ident.as_ref().unwrap().to_string();
                        let t = emit(ix, &x.ty, &rn)?;
                        out += &format!("  pub {n}: {t},\n");
                        fields.push(json!([n, t]));
                    }
                    out += "}\n";
                }
                Fields::Unnamed(f) => {
                    let mut v = vec![];
                    for (i, x) in f.unnamed.iter().enumerate() { let t = emit(ix, &x.ty, &rn)?; v.push(format!("pub {t}")); fields.push(json!([i.to_string(), t])); }
                    out += &format!("{head}pub struct {name}{gens}({});\n", v.join(", "));
                }
                Fields::Unit => out += &format!("{head}pub struct {name}{gens};\n"),
            }
            if der.contains(&"PartialEq".to_string()) && !noeq {
                let c: Vec<String> = fields.iter().map(|f| { let n = f[0].as_str().unwrap(); format!("self.{n}.eqs(&o.{n})") }).collect();
                out += &format!("impl{gens} VEq for {name}{gens} {{ open spec fn eqs(&self, o: &Self) -> bool {{ {} }} #[verifier::external_body] fn veq(&self, o: &Self) -> (b: bool) {{ unimplemented!() }} }}\n", if c.is_empty() { "true".into() } else { c.join(" && ") });
            }
        }
        TyDef::Enum(e) => {
            name = e.ident.to_string(); gens = generics_text(&e.generics, &none); der = derives(&e.attrs);
            let unit = e.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
            let head = if der.contains(&"Copy".to_string()) { "#[derive(Clone, Copy)]\n" } else { "" };
            out += &format!("{head}pub enum {name}{gens} {{\n");
            let mut arms = String::new();
            for v in &e.variants {
                let n = &v.ident;
                let tys: std::result::Result<Vec<String>, String> = v.fields.iter().map(|f| emit(ix, &f.ty, &rn)).collect();
                let tys = tys?;
                match &v.fields {
                    Fields::Unit => { out += &format!("  {n},\n"); }
                    Fields::Unnamed(_) => {
                        out += &format!("  {n}({}),\n", tys.join(", "));
                        let a: Vec<String> = (0..tys.len()).map(|i| format!("a{i}")).collect();
                        let b: Vec<String> = (0..tys.len()).map(|i| format!("b{i}")).collect();
                        let c: Vec<String> = (0..tys.len()).map(|i| format!("a{i}.eqs(b{i})")).collect();
                        arms += &format!("({name}::{n}({}), {name}::{n}({})) => {},\n", a.join(", "), b.join(", "), c.join(" && "));
                    }
                    Fields::Named(f) => { let v: Vec<String> = f.named.iter().zip(&tys).map(|(x, t)| format!("{}: {t}", x.ident.as_ref().unwrap())).collect(); out += &format!("  {n} {{ {} }},\n", v.join(", ")); }
                }
                fields.push(json!([n.to_string(), tys.join(", ")]));
            }
            out += "}\n";
            if der.contains(&"PartialEq".to_string()) && !noeq {
                let b = if unit { "self == o".to_string() } else {
                    let units: String = e.variants.iter().filter(|v| matches!(v.fields, Fields::Unit)).map(|v| format!("({name}::{0}, {name}::{0}) => true,\n", v.ident)).collect();
                    format!("match (self, o) {{ {units}{arms}_ => false }}") };
                out += &format!("impl{gens} VEq for {name}{gens} {{ open spec fn eqs(&self, o: &Self) -> bool {{ {b} }} #[verifier::external_body] fn veq(&self, o: &Self) -> (b: bool) {{ unimplemented!() }} }}\n");
            }
            if der.contains(&"Debug".to_string()) && unit {
                let a: String = e.variants.iter().map(|v| format!("{name}::{0} => \"{0}\"@, ", v.ident)).collect();
                out += &format!("impl VDebug for {name} {{ open spec fn dbg(&self) -> Seq<char> {{ match self {{ {a} }} }} #[verifier::external_body] fn vdebug(&self) -> (r: String) {{ unimplemented!() }} }}\n");
            }
        }
    }
    if opts["de"].as_bool().unwrap_or(false) && der.contains(&"Deserialize".to_string()) { out += &de_impl(d, &name, &fields) }
    let manual: Vec<String> = ix.manual_impls.iter().filter(|(_, t)| *t == name).map(|(t, _)| t.clone()).collect();
    Ok(json!({"text": out, "fields": fields, "derives": der, "manual": manual, "generics": gens}))
}
fn do_fn(ix: &SrcIndex, req: &Req, r: &Value) -> Value {
    let file = r["file"].as_str().unwrap(); let qual = r["qual"].as_str().unwrap();
    let mut c: Vec<FnDef> = ix.find_fn(file, qual).into_iter().cloned().collect();
    if let Some(t) = r["trait"].as_str() { c.retain(|f| f.trait_name.as_deref() == Some(t)) }
    if let Some(t) = r["self_ty"].as_str() { c.retain(|f| f.self_ty.as_ref().map_or(false, |s| squash(s).replace("'a,", "").replace("<'a>", "") == t.replace(' ', ""))) }
    if c.len() != 1 { return json!({"errors": [format!("function {qual} in {file}: {} candidates", c.len())]}) }
    let f = c.remove(0);
    // repeated until the types of the locals no longer improve
    let mut refined = HashMap::new();
    let mut v = Value::Null;
    for _ in 0..4 {
        let (w, found) = do_fn_once(ix, req, r, &f, refined.clone());
        v = w;
        if found == refined { break }
        refined = found;
    }
    v
}
fn do_fn_once(ix: &SrcIndex, req: &Req, r: &Value, f: &FnDef, refined: HashMap<(usize, String), Ty>) -> (Value, HashMap<(usize, String), Ty>) {
    let qual = r["qual"].as_str().unwrap();
    let mut t = Tr::new(ix, req, &f.file);
    t.refined = refined.clone(); t.found = refined;
    t.self_ty = f.self_ty.clone(); t.cur = f.qual.clone();
    for (k, v) in smap(&r["gen"]) { match parse_str::<Type>(&v) { Ok(x) => { let l = light(ix, &x, None); t.gen.insert(k, l); } Err(_) => return (json!({"errors": [format!("type {v}")]}), HashMap::new()) } }
    let rn_gen = smap(&r["gen"]);
    let rn = |n: &str| rn_gen.get(n).cloned().or_else(|| req.rename_t.get(n).cloned());
    let names: Vec<String> = r["params"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let mut errors: Vec<String> = vec![];
    let mut params = vec![]; let mut pro = String::new(); let mut selfk = String::new();
    let mut i = 0;
    for inp in &f.sig.inputs {
        match inp {
            FnArg::Receiver(x) => { selfk = if x.reference.is_some() { if x.mutability.is_some() { "&mut self".into() } else { "&self".into() } } else { if x.mutability.is_some() { errors.push("mut self".into()) } "self".into() } }
            FnArg::Typed(p) => {
                let ety = emit(ix, &p.ty, &rn);
                let lt = t.lt(&p.ty);
                let lt = match r["ptypes"][i].as_str() { Some(s) => parse_str::<Type>(s).map(|x| t.lt(&x)).unwrap_or(lt), None => lt };
                let ety = match (r["ptypes"][i].as_str(), ety) { (Some(s), _) => s.to_string(), (None, Ok(s)) => s, (None, Err(e)) => { errors.push(format!("parameter type: {e}")); "()".into() } };
                let cn = names.get(i).cloned().unwrap_or_else(|| format!("vpar{i}"));
                match &*p.pat {
                    Pat::Ident(x) if x.mutability.is_none() && x.ident == cn => {}
                    Pat::Wild(_) => {}
                    q => match t.bind_pub(q, &cn) { Ok(s) => pro += &s, Err(e) => errors.push(e) },
                }
                t.bind_pat_ty(&p.pat, &lt);
                params.push(json!([cn, ety]));
                i += 1;
            }
        }
    }
    if !names.is_empty() && i != names.len() { errors.push(format!("{qual} takes {i} parameters, the contract names {}", names.len())) }
    let ret = match &f.sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, x) => { t.ret = t.lt(x); emit(ix, x, &rn).unwrap_or_else(|e| { if r["ret"].is_null() { errors.push(format!("return type: {e}")) } String::new() }) } };
    let want = t.ret.clone();
    t.push_scope();
    let body = match t.stmts(&f.block.stmts, &want) { Ok(b) => b, Err(e) => { errors.push(format!("{qual}: {e}")); String::new() } };
    errors.extend(t.shadow.clone());
    let mut skel = String::new();
    for l in &t.loops { skel += &format!("{}{}", l.outer.len(), if l.kind == "for" { "F" } else { "W" }) }
    let loops: Vec<Value> = t.loops.iter().map(|l| json!({"id": l.id, "kind": l.kind, "i": l.i, "n": l.n, "seqs": l.seqs, "sty": l.sty, "outer": l.outer, "vars": l.vars.iter().map(|(a, b, c)| json!([a, b, c])).collect::<Vec<_>>(), "in": l.in_fn})).collect();
    let clos: Vec<Value> = t.clos.iter().map(|l| json!({"id": l.id, "method": l.method, "params": l.params})).collect();
    let none = HashMap::new();
    let found = std::mem::take(&mut t.found);
    (json!({"qual": f.qual, "file": f.file, "errors": errors, "self": selfk, "params": params, "ret": ret,
        "generics": generics_text(&f.sig.generics, &t.gen), "impl_generics": f.impl_generics.as_ref().map(|g| generics_text(g, &none)).unwrap_or_default(),
        "self_ty": f.self_ty.as_ref().map(|x| emit(ix, x, &rn).unwrap_or_default()), "name": f.sig.ident.to_string(),
        "body": format!("{pro}{body}"), "loops": loops, "clos": clos, "skeleton": skel, "inlined": t.inlined, "lits": t.lits,
        "shadow": t.shadow.len()}), found)
}
fn main() {
    let root = std::env::args().nth(1).expect("source root");
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let q: Value = serde_json::from_str(&s).unwrap();
    let (ix, perr) = SrcIndex::build(Path::new(&root));
    let req = Req {
        known: q["known"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
        rename_m: smap(&q["rename_m"]), rename_p: smap(&q["rename_p"]), rename_t: smap(&q["rename_t"]), unroll: 8,
    };
    let mut fns = Map::new();
    for r in q["fns"].as_array().unwrap_or(&vec![]) {
        let key = r["key"].as_str().unwrap().to_string();
        let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| do_fn(&ix, &req, r))).unwrap_or_else(|_| json!({"errors": ["internal error of the translator"]}));
        fns.insert(key, v);
    }
    let mut tys = Map::new();
    for r in q["types"].as_array().unwrap_or(&vec![]) {
        let n = r["name"].as_str().unwrap();
        let d = match ix.types.get(n) { None => json!({"error": "no such type"}), Some(v) => {
            let f = r["file"].as_str().unwrap_or("");
            let d = v.iter().find(|x| x.0 == f).or(v.first()).unwrap();
            match do_type(&ix, &d.1, &req, r) { Ok(v) => v, Err(e) => json!({"error": e}) } } };
        tys.insert(n.into(), d);
    }
    // enum variants and impl list, for the evidence
    let all: Vec<String> = ix.fns.iter().map(|f| format!("{}:{}", f.file, f.qual)).collect();
    println!("{}", json!({"fns": fns, "types": tys, "parse_errors": perr, "all_fns": all}));
}
