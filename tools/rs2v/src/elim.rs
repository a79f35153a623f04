//! Removal of early returns from a body that is inlined (helper functions, closures).
use syn::visit::Visit;
use syn::*;

struct HasRet { ret: bool, q: bool, in_loop: bool, depth: usize }
impl<'a> Visit<'a> for HasRet {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Closure(_) => {}
            Expr::Return(_) => { self.ret = true; if self.depth > 0 { self.in_loop = true } }
            Expr::Try(t) => { self.q = true; self.visit_expr(&t.expr) }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                self.depth += 1; syn::visit::visit_expr(self, e); self.depth -= 1;
            }
            _ => syn::visit::visit_expr(self, e),
        }
    }
    fn visit_item(&mut self, _: &'a Item) {}
}
fn scan_e(e: &Expr) -> HasRet { let mut h = HasRet { ret: false, q: false, in_loop: false, depth: 0 }; h.visit_expr(e); h }
fn scan_s(s: &Stmt) -> HasRet { let mut h = HasRet { ret: false, q: false, in_loop: false, depth: 0 }; h.visit_stmt(s); h }
pub fn has_question(b: &Block) -> bool { b.stmts.iter().any(|s| scan_s(s).q) }
pub fn has_question_e(e: &Expr) -> bool { scan_e(e).q }
pub fn has_return_e(e: &Expr) -> bool { scan_e(e).ret }

fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => diverges(&i.then_branch) && i.else_branch.as_ref().map_or(false, |e| match &*e.1 { Expr::Block(b) => diverges(&b.block), _ => false }),
        _ => false,
    }
}
fn blk(stmts: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts } }
fn eblk(b: Block) -> Expr { Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }) }

fn as_block(e: &Expr) -> Block { match e { Expr::Block(b) if b.label.is_none() => b.block.clone(), _ => blk(vec![Stmt::Expr(e.clone(), None)]) } }

/// Body equivalent to `stmts` with every `return v` turned into the value of the block.
pub fn elim(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    for (i, s) in stmts.iter().enumerate() {
        let h = scan_s(s);
        if !h.ret { continue }
        if h.in_loop { return None }
        let rest = &stmts[i + 1..];
        let mut out: Vec<Stmt> = stmts[..i].to_vec();
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = &r.expr { if scan_e(e).ret { return None } out.push(Stmt::Expr((**e).clone(), None)) }
                return Some(out);
            }
            Stmt::Expr(e @ (Expr::If(_) | Expr::Match(_) | Expr::Block(_)), semi) => {
                let last = rest.is_empty();
                let e2 = push_rest(e, rest, semi.is_some() || !last)?;
                out.push(Stmt::Expr(e2, None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if let Some((_, div)) = &init.diverge {
                    if scan_e(&init.expr).ret { return None }
                    let d = as_block(div);
                    if !diverges(&d) { return None }
                    let dv = blk(elim(&d.stmts)?);
                    let rs = blk(elim(rest)?);
                    let (p, ie) = (&l.pat, &init.expr);
                    let (dv, rs) = (eblk(dv), eblk(rs));
                    out.push(Stmt::Expr(parse_quote!(match #ie { #p => #rs, _ => #dv }), None));
                    return Some(out);
                }
                if let Expr::Match(m) = &*init.expr {
                    if scan_e(&m.expr).ret { return None }
                    let mut m2 = m.clone();
                    for a in &mut m2.arms {
                        if scan_e(&a.body).ret {
                            let b = as_block(&a.body);
                            if !diverges(&b) { return None }
                            *a.body = eblk(blk(elim(&b.stmts)?));
                        } else {
                            let (p, b) = (&l.pat, &a.body);
                            let mut st: Vec<Stmt> = vec![parse_quote!(let #p = #b;)];
                            st.extend(rest.iter().cloned());
                            *a.body = eblk(blk(elim(&st)?));
                        }
                    }
                    out.push(Stmt::Expr(Expr::Match(m2), None));
                    return Some(out);
                }
                return None;
            }
            _ => return None,
        }
    }
    Some(stmts.to_vec())
}
fn cat(b: &Block, rest: &[Stmt], drop_val: bool) -> Option<Block> {
    if diverges(b) { return Some(blk(elim(&b.stmts)?)) }
    let mut st = b.stmts.clone();
    if drop_val {
        if let Some(Stmt::Expr(e, semi @ None)) = st.last_mut() {
            if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_)) { *semi = Some(Default::default()) }
        }
    }
    st.extend(rest.iter().cloned());
    Some(blk(elim(&st)?))
}
fn push_rest(e: &Expr, rest: &[Stmt], drop_val: bool) -> Option<Expr> {
    match e {
        Expr::If(i) => {
            if scan_e(&i.cond).ret { return None }
            let mut i2 = i.clone();
            i2.then_branch = cat(&i.then_branch, rest, drop_val)?;
            let el = match &i.else_branch {
                None => blk(elim(rest)?),
                Some((_, e)) => match &**e {
                    Expr::Block(b) => cat(&b.block, rest, drop_val)?,
                    e @ Expr::If(_) => blk(vec![Stmt::Expr(push_rest(e, rest, drop_val)?, None)]),
                    _ => return None,
                },
            };
            i2.else_branch = Some((Default::default(), Box::new(eblk(el))));
            Some(Expr::If(i2))
        }
        Expr::Match(m) => {
            if scan_e(&m.expr).ret { return None }
            let mut m2 = m.clone();
            for a in &mut m2.arms { let b = as_block(&a.body); *a.body = eblk(cat(&b, rest, drop_val)?); if a.comma.is_none() { a.comma = Some(Default::default()) } }
            Some(Expr::Match(m2))
        }
        Expr::Block(b) if b.label.is_none() => Some(eblk(cat(&b.block, rest, drop_val)?)),
        _ => None,
    }
}
