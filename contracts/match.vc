//@needs group result
pub open spec fn fin_all(es: Seq<DynamicObject>, gs: Seq<DynamicObject>) -> bool { (forall|i: int| 0 <= i < es.len() ==> fin3((#[trigger] es[i]).position@)) && (forall|i: int| 0 <= i < gs.len() ==> fin3((#[trigger] gs[i]).position@)) }
pub open spec fn shape(t: Seq<Vec<Option<F>>>, n: int, m: int) -> bool { t.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] t[i])@.len() == m }
pub open spec fn has_u(s: Seq<usize>, i: int) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == i }
pub open spec fn has_i(s: Seq<int>, i: int) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == i }
pub open spec fn tab_none(t: Seq<Vec<Option<F>>>) -> bool { forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i]@.len() ==> (#[trigger] t[i]@[j]) is None }
/// `pe`: indices of the matched estimates, `pg`: of their ground truths.
pub open spec fn pairs(r: Seq<PerceptionResult>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>) -> bool {
  pe.len() == r.len() && pg.len() == r.len()
  && (forall|k: int| 0 <= k < r.len() ==> 0 <= #[trigger] pe[k] < es.len() && 0 <= pg[k] < gs.len() && r[k].estimated_object == es[pe[k] as int] && r[k].ground_truth_object == Some(gs[pg[k]]) && es[pe[k] as int].label == gs[pg[k]].label)
  && (forall|k: int, l: int| 0 <= k < l < r.len() ==> #[trigger] pe[k] != #[trigger] pe[l] && pg[k] != pg[l])
}
pub open spec fn greedy(es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>) -> bool {
  fin_all(es, gs) ==> forall|k: int, i: int, j: int| #![trigger pe[k], es[i], gs[j]] 0 <= k < pe.len() && 0 <= i < es.len() && 0 <= j < gs.len() && es[i].label == gs[j].label && !has_u(pe.take(k), i) && !has_i(pg.take(k), j) ==> d2(es[pe[k] as int], gs[pg[k]]) <= d2(es[i], gs[j])
}
#[verifier::opaque]
pub open spec fn table(t: Seq<Vec<Option<F>>>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>) -> bool {
  shape(t, es.len() as int, gs.len() as int) && forall|i: int, j: int| 0 <= i < es.len() && 0 <= j < gs.len() ==> ((#[trigger] t[i]@[j]) is Some <==> es[i].label == gs[j].label && !has_u(pe, i) && !has_i(pg, j)) && (t[i]@[j] is Some && fin_all(es, gs) ==> score_ok(t[i]@[j]->0, es[i], gs[j]))
}
#[verifier::opaque]
pub open spec fn st(r: Seq<PerceptionResult>, t: Seq<Vec<Option<F>>>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>) -> bool { pairs(r, es, gs, pe, pg) && greedy(es, gs, pe, pg) && table(t, es, gs, pe, pg) }
pub open spec fn allok(t: Seq<Vec<Option<F>>>) -> bool { forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i]@.len() && (#[trigger] t[i]@[j]) is Some ==> t[i]@[j]->0.ok() }
/// The best candidate among the rows before `r` and the first `c` entries of row `r`.
pub open spec fn near(n: Option<(usize, usize, F)>, t: Seq<Vec<Option<F>>>, r: int, c: int) -> bool {
  (n is None ==> forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i]@.len() && (i < r || (i == r && j < c)) ==> (#[trigger] t[i]@[j]) is None)
  && (n is Some ==> (n->0).0 < t.len() && (n->0).1 < t[(n->0).0 as int]@.len() && t[(n->0).0 as int]@[(n->0).1 as int] == Some((n->0).2)
    && (allok(t) ==> forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i]@.len() && (i < r || (i == r && j < c)) && (#[trigger] t[i]@[j]) is Some ==> (n->0).2.rv() <= t[i]@[j]->0.rv()))
}
pub open spec fn least(t: Seq<Vec<Option<F>>>, a: int, b: int) -> bool { 0 <= a < t.len() && 0 <= b < t[a]@.len() && t[a]@[b] is Some && (allok(t) ==> forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i]@.len() && (#[trigger] t[i]@[j]) is Some ==> t[a]@[b]->0.rv() <= t[i]@[j]->0.rv()) }
/// The first `n` rows of `t0` with row `a` and column `b` cleared.
pub open spec fn cleared(t: Seq<Vec<Option<F>>>, t0: Seq<Vec<Option<F>>>, n: int, a: int, b: int) -> bool { t.len() == t0.len() && (forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@.len() == t0[i]@.len()) && forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t[i]@.len() ==> (#[trigger] t[i]@[j]) == (if i < n && (i == a || j == b) { None::<F> } else { t0[i]@[j] }) }
pub open spec fn cleared_row(t: Seq<Option<F>>, t0: Seq<Option<F>>, n: int, i: int, a: int, b: int) -> bool { t.len() == t0.len() && forall|j: int| 0 <= j < t.len() ==> (#[trigger] t[j]) == (if j < n && (i == a || j == b) { None::<F> } else { t0[j] }) }
pub proof fn lemma_sqle(a: real, b: real) requires 0real <= a <= b ensures sq(a) <= sq(b) { assert(a * a <= b * b) by (nonlinear_arith) requires 0real <= a <= b; }
pub open spec fn grown(pe: Seq<usize>, pe1: Seq<usize>, a: int) -> bool { pe1.len() == pe.len() + 1 && pe1.take(pe.len() as int) =~= pe && pe1[pe.len() as int] == a }
pub proof fn lemma_has(pe: Seq<usize>, pg: Seq<int>, pe1: Seq<usize>, a: int, b: int) requires grown(pe, pe1, a), pe.len() == pg.len()
  ensures forall|k: int| 0 <= k < pe.len() ==> #[trigger] pe1[k] == pe[k], forall|i: int| #[trigger] has_u(pe1, i) == (has_u(pe, i) || i == a), forall|j: int| #[trigger] has_i(pg.push(b), j) == (has_i(pg, j) || j == b)
{
  let pg1 = pg.push(b); let n = pe.len() as int;
  assert forall|k: int| 0 <= k < n implies #[trigger] pe1[k] == pe[k] by { assert(pe1.take(n)[k] == pe[k]); }
  assert forall|i: int| #[trigger] has_u(pe1, i) == (has_u(pe, i) || i == a) by {
    if has_u(pe, i) { let k = choose|k: int| 0 <= k < pe.len() && #[trigger] pe[k] == i; assert(pe1[k] == i); }
    if i == a { assert(pe1[n] == i); }
    if has_u(pe1, i) { let k = choose|k: int| 0 <= k < pe1.len() && #[trigger] pe1[k] == i; if k < n { assert(pe[k] == i); } } }
  assert forall|j: int| #[trigger] has_i(pg1, j) == (has_i(pg, j) || j == b) by {
    if has_i(pg, j) { let k = choose|k: int| 0 <= k < pg.len() && #[trigger] pg[k] == j; assert(pg1[k] == j); }
    if j == b { assert(pg1[n] == j); }
    if has_i(pg1, j) { let k = choose|k: int| 0 <= k < pg1.len() && #[trigger] pg1[k] == j; if k < n { assert(pg[k] == j); } } }
}
pub proof fn lemma_pairs_step(r0: Seq<PerceptionResult>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>, pe1: Seq<usize>, a: int, b: int)
  requires pairs(r0, es, gs, pe, pg), 0 <= a < es.len(), 0 <= b < gs.len(), es[a].label == gs[b].label, !has_u(pe, a), !has_i(pg, b), grown(pe, pe1, a)
  ensures pairs(r0.push(PerceptionResult { estimated_object: es[a], ground_truth_object: Some(gs[b]) }), es, gs, pe1, pg.push(b))
{
  let pg1 = pg.push(b); let n = pe.len() as int;
  lemma_has(pe, pg, pe1, a, b);
  assert forall|k: int| 0 <= k < n implies #[trigger] pe1[k] != a && pg1[k] != b by { if pe1[k] == a { assert(pe[k] == a); assert(has_u(pe, a)); } if pg1[k] == b { assert(pg[k] == b); assert(has_i(pg, b)); } }
  assert forall|k: int, l: int| 0 <= k < l < n + 1 implies #[trigger] pe1[k] != #[trigger] pe1[l] && pg1[k] != pg1[l] by { if l < n { assert(pe[k] != pe[l]); } }
}
pub proof fn lemma_greedy_step(t0: Seq<Vec<Option<F>>>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>, pe1: Seq<usize>, a: int, b: int)
  requires greedy(es, gs, pe, pg), table(t0, es, gs, pe, pg), pe.len() == pg.len(), 0 <= a < es.len(), 0 <= b < gs.len(), least(t0, a, b), grown(pe, pe1, a)
  ensures greedy(es, gs, pe1, pg.push(b))
{
  reveal(table);
  let pg1 = pg.push(b); let n = pe.len() as int;
  lemma_has(pe, pg, pe1, a, b);
  assert(pg1.take(n) =~= pg); assert(pe1.take(n) =~= pe);
  if fin_all(es, gs) {
    assert(allok(t0)) by { assert forall|i: int, j: int| 0 <= i < t0.len() && 0 <= j < t0[i]@.len() && (#[trigger] t0[i]@[j]) is Some implies t0[i]@[j]->0.ok() by { assert(score_ok(t0[i]@[j]->0, es[i], gs[j])); } }
    assert forall|k: int, i: int, j: int| #![trigger pe1[k], es[i], gs[j]] 0 <= k < pe1.len() && 0 <= i < es.len() && 0 <= j < gs.len() && es[i].label == gs[j].label && !has_u(pe1.take(k), i) && !has_i(pg1.take(k), j) implies d2(es[pe1[k] as int], gs[pg1[k]]) <= d2(es[i], gs[j]) by {
      if k < n { assert(pe1.take(k) =~= pe.take(k)); assert(pg1.take(k) =~= pg.take(k)); assert(pe[k] == pe1[k]); assert(pg[k] == pg1[k]); }
      else { assert(t0[i]@[j] is Some); assert(score_ok(t0[i]@[j]->0, es[i], gs[j])); assert(score_ok(t0[a]@[b]->0, es[a], gs[b])); lemma_sqle(t0[a]@[b]->0.rv(), t0[i]@[j]->0.rv()); }
    }
  }
}
pub proof fn lemma_table_step(t0: Seq<Vec<Option<F>>>, t1: Seq<Vec<Option<F>>>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>, pe1: Seq<usize>, a: int, b: int)
  requires table(t0, es, gs, pe, pg), pe.len() == pg.len(), grown(pe, pe1, a), cleared(t1, t0, t0.len() as int, a, b)
  ensures table(t1, es, gs, pe1, pg.push(b))
{
  reveal(table);
  let pg1 = pg.push(b);
  lemma_has(pe, pg, pe1, a, b);
  assert forall|i: int, j: int| 0 <= i < es.len() && 0 <= j < gs.len() implies ((#[trigger] t1[i]@[j]) is Some <==> es[i].label == gs[j].label && !has_u(pe1, i) && !has_i(pg1, j)) && (t1[i]@[j] is Some && fin_all(es, gs) ==> score_ok(t1[i]@[j]->0, es[i], gs[j])) by { assert(t0[i]@[j] is Some <==> es[i].label == gs[j].label && !has_u(pe, i) && !has_i(pg, j)); }
}
pub proof fn lemma_step(r0: Seq<PerceptionResult>, t0: Seq<Vec<Option<F>>>, r1: Seq<PerceptionResult>, t1: Seq<Vec<Option<F>>>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>, pe1: Seq<usize>, a: int, b: int)
  requires st(r0, t0, es, gs, pe, pg), 0 <= a < es.len(), 0 <= b < gs.len(), least(t0, a, b), r1 =~= r0.push(PerceptionResult { estimated_object: es[a], ground_truth_object: Some(gs[b]) }), grown(pe, pe1, a), cleared(t1, t0, t0.len() as int, a, b)
  ensures st(r1, t1, es, gs, pe1, pg.push(b))
{
  reveal(st); reveal(table);
  assert(t0[a]@[b] is Some);
  lemma_pairs_step(r0, es, gs, pe, pg, pe1, a, b); lemma_greedy_step(t0, es, gs, pe, pg, pe1, a, b); lemma_table_step(t0, t1, es, gs, pe, pg, pe1, a, b);
}
pub proof fn lemma_steps(r0: Seq<PerceptionResult>, t0: Seq<Vec<Option<F>>>, r1: Seq<PerceptionResult>, t1: Seq<Vec<Option<F>>>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>, pe1: Seq<usize>)
  requires st(r0, t0, es, gs, pe, pg)
  ensures forall|n: int, a: int, b: int| #![trigger cleared(t1, t0, n, a, b)] cleared(t1, t0, n, a, b) && n >= t0.len() && 0 <= a < es.len() && 0 <= b < gs.len() && least(t0, a, b) && r1 =~= r0.push(PerceptionResult { estimated_object: es[a], ground_truth_object: Some(gs[b]) }) && grown(pe, pe1, a) ==> st(r1, t1, es, gs, pe1, pg.push(b))
{ assert forall|n: int, a: int, b: int| #![trigger cleared(t1, t0, n, a, b)] cleared(t1, t0, n, a, b) && n >= t0.len() && 0 <= a < es.len() && 0 <= b < gs.len() && least(t0, a, b) && r1 =~= r0.push(PerceptionResult { estimated_object: es[a], ground_truth_object: Some(gs[b]) }) && grown(pe, pe1, a) implies st(r1, t1, es, gs, pe1, pg.push(b)) by { assert(cleared(t1, t0, t0.len() as int, a, b)); lemma_step(r0, t0, r1, t1, es, gs, pe, pg, pe1, a, b); } }
/// The unmatched indices below `n`, ascending.
pub open spec fn rest(pe: Seq<usize>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else if has_u(pe, n - 1) { rest(pe, n - 1) } else { rest(pe, n - 1).push(n - 1) } }
pub open spec fn objs(es: Seq<DynamicObject>, q: Seq<int>) -> Seq<DynamicObject> { Seq::new(q.len(), |k: int| es[q[k]]) }
pub open spec fn fps(o: Seq<DynamicObject>) -> Seq<PerceptionResult> { Seq::new(o.len(), |k: int| PerceptionResult { estimated_object: o[k], ground_truth_object: None }) }
pub proof fn lemma_rest(pe: Seq<usize>, n: int) requires 0 <= n ensures forall|k: int| 0 <= k < rest(pe, n).len() ==> 0 <= #[trigger] rest(pe, n)[k] < n && !has_u(pe, rest(pe, n)[k]), forall|k: int, l: int| 0 <= k < l < rest(pe, n).len() ==> #[trigger] rest(pe, n)[k] < #[trigger] rest(pe, n)[l], forall|i: int| 0 <= i < n && !has_u(pe, i) ==> #[trigger] has_i(rest(pe, n), i)
  decreases n
{ if n > 0 { lemma_rest(pe, n - 1); let q = rest(pe, n - 1); let q1 = rest(pe, n);
    assert forall|i: int| 0 <= i < n && !has_u(pe, i) implies #[trigger] has_i(q1, i) by { if i == n - 1 { assert(q1[q.len() as int] == i); } else { assert(has_i(q, i)); let k = choose|k: int| 0 <= k < q.len() && #[trigger] q[k] == i; assert(q1[k] == i); } } } }
/// Indices in `0..n`, without repetition, at most `n` many; if `n` many then all of them.
pub proof fn lemma_pigeon(s: Seq<usize>, n: nat) requires forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] < n, forall|k: int, l: int| 0 <= k < l < s.len() ==> #[trigger] s[k] != #[trigger] s[l] ensures s.len() <= n, s.len() == n ==> forall|i: int| 0 <= i < n ==> has_u(s, i)
{ let t = s.map_values(|x: usize| x as int); assert(t.no_duplicates()); t.unique_seq_to_set(); let u = vstd::set_lib::set_int_range(0, n as int); vstd::set_lib::lemma_int_range(0, n as int);
  assert(t.to_set().subset_of(u)) by { assert forall|x: int| #[trigger] t.to_set().contains(x) implies u.contains(x) by { let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(s[k] == x); } }
  vstd::set_lib::lemma_len_subset(t.to_set(), u);
  if s.len() == n { vstd::set_lib::lemma_subset_equality(t.to_set(), u); assert forall|i: int| 0 <= i < n implies has_u(s, i) by { assert(t.to_set().contains(i)); let k = choose|k: int| 0 <= k < t.len() && t[k] == i; assert(s[k] == i); } } }
/// The outcome: `pe` lists every estimate once, `pg` its ground truth or -1.
pub open spec fn o2o_a(r: Seq<PerceptionResult>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<int>, pg: Seq<int>) -> bool { forall|k: int| 0 <= k < r.len() ==> 0 <= #[trigger] pe[k] < es.len() && -1 <= pg[k] < gs.len() && r[k].estimated_object == es[pe[k]] && r[k].ground_truth_object == (if pg[k] >= 0 { Some(gs[pg[k]]) } else { None }) && (pg[k] >= 0 ==> es[pe[k]].label == gs[pg[k]].label) }
pub open spec fn o2o_b(n: nat, pe: Seq<int>, pg: Seq<int>) -> bool { forall|k: int, l: int| 0 <= k < l < n ==> #[trigger] pe[k] != #[trigger] pe[l] && (pg[k] >= 0 ==> pg[k] != pg[l]) }
pub open spec fn o2o_d(n: nat, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<int>, pg: Seq<int>) -> bool { forall|k: int, j: int| #![trigger pe[k], gs[j]] 0 <= k < n && 0 <= j < gs.len() && pg[k] < 0 && gs[j].label == es[pe[k]].label ==> has_i(pg, j) }
pub open spec fn one_to_one(r: Seq<PerceptionResult>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<int>, pg: Seq<int>) -> bool {
  r.len() == es.len() && pe.len() == es.len() && pg.len() == es.len() && o2o_a(r, es, gs, pe, pg) && o2o_b(r.len(), pe, pg) && (forall|i: int| 0 <= i < es.len() ==> #[trigger] has_i(pe, i)) && o2o_d(r.len(), es, gs, pe, pg)
}
/// Any same-label pair that is not matched has a member matched to something at most as far away.
pub open spec fn nearest_first(es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<int>, pg: Seq<int>) -> bool {
  fin_all(es, gs) ==> forall|k: int, j: int| #![trigger pe[k], gs[j]] 0 <= k < pe.len() && 0 <= j < gs.len() && es[pe[k]].label == gs[j].label && pg[k] != j ==> (pg[k] >= 0 && d2(es[pe[k]], gs[pg[k]]) <= d2(es[pe[k]], gs[j])) || exists|l: int| 0 <= l < pe.len() && #[trigger] pg[l] == j && d2(es[pe[l]], gs[j]) <= d2(es[pe[k]], gs[j])
}
pub proof fn lemma_empty(es: Seq<DynamicObject>, gs: Seq<DynamicObject>) requires es.len() == 0 || gs.len() == 0 ensures forall|r: Seq<PerceptionResult>| #[trigger] r.len() == es.len() && r =~= fps(es) ==> matched(r, es, gs)
{ let pe = Seq::new(es.len(), |k: int| k); let pg = Seq::new(es.len(), |k: int| -1int);
  assert forall|i: int| 0 <= i < es.len() implies #[trigger] has_i(pe, i) by { assert(pe[i] == i); }
  assert forall|r: Seq<PerceptionResult>| #[trigger] r.len() == es.len() && r =~= fps(es) implies matched(r, es, gs) by { assert(one_to_one(r, es, gs, pe, pg)); assert(nearest_first(es, gs, pe, pg)); } }
pub open spec fn matched(r: Seq<PerceptionResult>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>) -> bool { exists|pe: Seq<int>, pg: Seq<int>| one_to_one(r, es, gs, pe, pg) && nearest_first(es, gs, pe, pg) }
pub open spec fn allpe(pe: Seq<usize>, n: int) -> Seq<int> { Seq::new(pe.len(), |k: int| pe[k] as int) + rest(pe, n) }
pub open spec fn allpg(pe: Seq<usize>, pg: Seq<int>, n: int) -> Seq<int> { pg + Seq::new(rest(pe, n).len(), |k: int| -1int) }
/// `allpe` lists every index once.
pub proof fn lemma_allpe(pe: Seq<usize>, n: nat) requires forall|k: int| 0 <= k < pe.len() ==> 0 <= #[trigger] pe[k] < n, forall|k: int, l: int| 0 <= k < l < pe.len() ==> #[trigger] pe[k] != #[trigger] pe[l]
  ensures allpe(pe, n as int).len() == n, forall|k: int| 0 <= k < n ==> 0 <= #[trigger] allpe(pe, n as int)[k] < n, forall|k: int, l: int| 0 <= k < l < n ==> #[trigger] allpe(pe, n as int)[k] != #[trigger] allpe(pe, n as int)[l], forall|i: int| 0 <= i < n ==> #[trigger] has_i(allpe(pe, n as int), i), forall|k: int| pe.len() <= k < n ==> !has_u(pe, #[trigger] allpe(pe, n as int)[k])
{
  let q = rest(pe, n as int); lemma_rest(pe, n as int); let m = pe.len() as int; let pe1 = allpe(pe, n as int);
  assert forall|i: int| 0 <= i < n implies #[trigger] has_i(pe1, i) by { if has_u(pe, i) { let k = choose|k: int| 0 <= k < pe.len() && #[trigger] pe[k] == i; assert(pe1[k] == i); } else { assert(has_i(q, i)); let k = choose|k: int| 0 <= k < q.len() && #[trigger] q[k] == i; assert(pe1[m + k] == i); } }
  assert forall|k: int| 0 <= k < pe1.len() implies 0 <= #[trigger] pe1[k] < n by { if k < m { assert(pe1[k] == pe[k]); } else { assert(pe1[k] == q[k - m]); } }
  assert forall|k: int| m <= k < pe1.len() implies !has_u(pe, #[trigger] pe1[k]) by { assert(pe1[k] == q[k - m]); }
  assert forall|k: int, l: int| 0 <= k < l < pe1.len() implies #[trigger] pe1[k] != #[trigger] pe1[l] by { if l < m { assert(pe[k] != pe[l]); } else if k < m { assert(pe1[k] == pe[k]); assert(has_u(pe, pe[k] as int)); assert(!has_u(pe, pe1[l])); } else { assert(pe1[k] == q[k - m] && pe1[l] == q[l - m]); } }
  assert(pe1.no_duplicates()); pe1.unique_seq_to_set(); let u = vstd::set_lib::set_int_range(0, n as int); vstd::set_lib::lemma_int_range(0, n as int);
  assert(pe1.to_set() =~= u) by { assert forall|x: int| u.contains(x) implies pe1.to_set().contains(x) by { assert(has_i(pe1, x)); let k = choose|k: int| 0 <= k < pe1.len() && #[trigger] pe1[k] == x; assert(pe1[k] == x); }
    assert forall|x: int| pe1.to_set().contains(x) implies u.contains(x) by { let k = choose|k: int| 0 <= k < pe1.len() && pe1[k] == x; assert(pe1[k] == x); } }
}
pub proof fn lemma_o2o(r0: Seq<PerceptionResult>, t: Seq<Vec<Option<F>>>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>)
  requires pairs(r0, es, gs, pe, pg), table(t, es, gs, pe, pg), tab_none(t) || r0.len() == es.len()
  ensures one_to_one(r0 + fps(objs(es, rest(pe, es.len() as int))), es, gs, allpe(pe, es.len() as int), allpg(pe, pg, es.len() as int))
{
  reveal(table);
  let n = es.len() as int; let m = pe.len() as int; let pe1 = allpe(pe, n); let pg1 = allpg(pe, pg, n); let q = rest(pe, n); let r = r0 + fps(objs(es, q));
  lemma_allpe(pe, es.len());
  assert(r.len() == n && pg1.len() == n);
  assert(o2o_a(r, es, gs, pe1, pg1)) by { assert forall|k: int| 0 <= k < r.len() implies 0 <= #[trigger] pe1[k] < es.len() && -1 <= pg1[k] < gs.len() && r[k].estimated_object == es[pe1[k]] && r[k].ground_truth_object == (if pg1[k] >= 0 { Some(gs[pg1[k]]) } else { None }) && (pg1[k] >= 0 ==> es[pe1[k]].label == gs[pg1[k]].label) by { if k < m { assert(pe1[k] == pe[k]); assert(r[k] == r0[k]); assert(pg1[k] == pg[k]); } else { assert(q[k - m] == pe1[k]); assert(r[k] == fps(objs(es, q))[k - m]); assert(pg1[k] == -1); } } }
  assert(o2o_b(r.len(), pe1, pg1)) by { assert forall|k: int, l: int| 0 <= k < l < r.len() implies #[trigger] pe1[k] != #[trigger] pe1[l] && (pg1[k] >= 0 ==> pg1[k] != pg1[l]) by { if l < m { assert(pe1[k] == pe[k] && pe1[l] == pe[l]); assert(pe[k] != pe[l]); } } }
  assert(o2o_d(r.len(), es, gs, pe1, pg1)) by { assert forall|k: int, j: int| #![trigger pe1[k], gs[j]] 0 <= k < r.len() && 0 <= j < gs.len() && pg1[k] < 0 && gs[j].label == es[pe1[k]].label implies has_i(pg1, j) by {
    if k < m { assert(pe[k] == pe1[k]); assert(pg1[k] == pg[k]); assert(false); }
    assert(!has_u(pe, pe1[k])); assert(t[pe1[k]]@[j] is None); assert(has_i(pg, j)); let x = choose|x: int| 0 <= x < pg.len() && #[trigger] pg[x] == j; assert(pg1[x] == j); } }
}
pub proof fn lemma_fresh(pe: Seq<usize>, pg: Seq<int>, k: int) requires 0 <= k < pe.len(), pe.len() == pg.len(), forall|k: int, l: int| 0 <= k < l < pe.len() ==> #[trigger] pe[k] != #[trigger] pe[l] && pg[k] != pg[l]
  ensures !has_u(pe.take(k), pe[k] as int), !has_i(pg.take(k), pg[k]), forall|j: int| !has_i(pg, j) ==> !#[trigger] has_i(pg.take(k), j), forall|i: int| !has_u(pe, i) ==> !#[trigger] has_u(pe.take(k), i), forall|l: int| k <= l < pe.len() ==> !has_u(pe.take(k), #[trigger] pe[l] as int), forall|l: int| k <= l < pe.len() ==> !has_i(pg.take(k), #[trigger] pg[l])
{
  assert forall|l: int| k <= l < pe.len() implies !has_u(pe.take(k), #[trigger] pe[l] as int) by { if has_u(pe.take(k), pe[l] as int) { let m = choose|m: int| 0 <= m < k && #[trigger] pe.take(k)[m] == pe[l]; assert(pe[m] != pe[l]); } }
  assert forall|l: int| k <= l < pe.len() implies !has_i(pg.take(k), #[trigger] pg[l]) by { if has_i(pg.take(k), pg[l]) { let m = choose|m: int| 0 <= m < k && #[trigger] pg.take(k)[m] == pg[l]; assert(pe[m] != pe[l]); } }
  assert forall|j: int| !has_i(pg, j) implies !#[trigger] has_i(pg.take(k), j) by { if has_i(pg.take(k), j) { let m = choose|m: int| 0 <= m < k && #[trigger] pg.take(k)[m] == j; assert(pg[m] == j); } }
  assert forall|i: int| !has_u(pe, i) implies !#[trigger] has_u(pe.take(k), i) by { if has_u(pe.take(k), i) { let m = choose|m: int| 0 <= m < k && #[trigger] pe.take(k)[m] == i; assert(pe[m] == i); } }
}
pub proof fn lemma_nearest(r: Seq<PerceptionResult>, r0: Seq<PerceptionResult>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>)
  requires pairs(r0, es, gs, pe, pg), greedy(es, gs, pe, pg), one_to_one(r, es, gs, allpe(pe, es.len() as int), allpg(pe, pg, es.len() as int))
  ensures nearest_first(es, gs, allpe(pe, es.len() as int), allpg(pe, pg, es.len() as int))
{
  let n = es.len() as int; let m = pe.len() as int; let pe1 = allpe(pe, n); let pg1 = allpg(pe, pg, n); let q = rest(pe, n);
  lemma_allpe(pe, es.len());
  if fin_all(es, gs) {
    assert forall|k: int, j: int| #![trigger pe1[k], gs[j]] 0 <= k < pe1.len() && 0 <= j < gs.len() && es[pe1[k]].label == gs[j].label && pg1[k] != j implies (pg1[k] >= 0 && d2(es[pe1[k]], gs[pg1[k]]) <= d2(es[pe1[k]], gs[j])) || exists|l: int| 0 <= l < pe1.len() && #[trigger] pg1[l] == j && d2(es[pe1[l]], gs[j]) <= d2(es[pe1[k]], gs[j]) by {
      let i = pe1[k];
      if k < m { assert(pe1[k] == pe[k] && pg1[k] == pg[k]); lemma_fresh(pe, pg, k); }
      if has_i(pg, j) {
        let l = choose|x: int| 0 <= x < pg.len() && #[trigger] pg[x] == j;
        lemma_fresh(pe, pg, l);
        assert(pg1[l] == j && pe1[l] == pe[l]);
        if k < m && k <= l { assert(pg[l] == j); assert(!has_i(pg.take(k), j)) by { assert(!has_i(pg.take(k), pg[l])); } assert(!has_u(pe.take(k), i)); assert(d2(es[pe[k] as int], gs[pg[k]]) <= d2(es[i], gs[j])); }
        else { assert(!has_u(pe.take(l), i)); assert(!has_i(pg.take(l), j)); assert(d2(es[pe[l] as int], gs[pg[l]]) <= d2(es[i], gs[j])); }
      } else if k < m {
        assert(!has_i(pg.take(k), j)); assert(!has_u(pe.take(k), i)); assert(d2(es[pe[k] as int], gs[pg[k]]) <= d2(es[i], gs[j]));
      } else {
        assert(pg1[k] == -1); assert(has_i(pg1, j)); let x = choose|x: int| 0 <= x < pg1.len() && #[trigger] pg1[x] == j; assert(x < m); assert(pg[x] == j); assert(false);
      }
    }
  }
}
pub proof fn lemma_final(r0: Seq<PerceptionResult>, t: Seq<Vec<Option<F>>>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>, pg: Seq<int>)
  requires st(r0, t, es, gs, pe, pg), tab_none(t) || r0.len() == es.len()
  ensures matched(r0 + fps(objs(es, rest(pe, es.len() as int))), es, gs), r0.len() == es.len() ==> rest(pe, es.len() as int).len() == 0
{
  reveal(st); reveal(table); lemma_allpe(pe, es.len()); lemma_o2o(r0, t, es, gs, pe, pg); lemma_nearest(r0 + fps(objs(es, rest(pe, es.len() as int))), r0, es, gs, pe, pg);
}
pub proof fn lemma_init(r: Seq<PerceptionResult>, t: Seq<Vec<Option<F>>>, es: Seq<DynamicObject>, gs: Seq<DynamicObject>, pe: Seq<usize>)
  ensures table(t, es, gs, Seq::empty(), Seq::empty()) && r.len() == 0 && pe.len() == 0 ==> st(r, t, es, gs, pe, Seq::empty())
{ reveal(st); reveal(table); if pe.len() == 0 { assert(pe =~= Seq::empty()); } }
pub proof fn lemma_match(es: Seq<DynamicObject>, gs: Seq<DynamicObject>)
  ensures forall|r: Seq<PerceptionResult>, t: Seq<Vec<Option<F>>>, pe: Seq<usize>, pg: Seq<int>| #[trigger] st(r, t, es, gs, pe, pg) ==> shape(t, es.len() as int, gs.len() as int) && pe.len() == r.len() && r.len() <= es.len() && (tab_none(t) || r.len() == es.len() ==> matched(r + fps(objs(es, rest(pe, es.len() as int))), es, gs)) && (r.len() == es.len() ==> matched(r, es, gs)),
    forall|s: Seq<usize>, x: usize| #[trigger] seq_has(s, x) == has_u(s, x as int)
{
  assert forall|r: Seq<PerceptionResult>, t: Seq<Vec<Option<F>>>, pe: Seq<usize>, pg: Seq<int>| #[trigger] st(r, t, es, gs, pe, pg) implies shape(t, es.len() as int, gs.len() as int) && pe.len() == r.len() && r.len() <= es.len() && (tab_none(t) || r.len() == es.len() ==> matched(r + fps(objs(es, rest(pe, es.len() as int))), es, gs)) && (r.len() == es.len() ==> matched(r, es, gs)) by {
    assert(pe.len() == r.len() && r.len() <= es.len() && shape(t, es.len() as int, gs.len() as int)) by { reveal(st); reveal(table); lemma_pigeon(pe, es.len()); }
    if tab_none(t) || r.len() == es.len() { lemma_final(r, t, es, gs, pe, pg); let q = fps(objs(es, rest(pe, es.len() as int))); if r.len() == es.len() { assert(r + q =~= r); } }
  }
  assert forall|s: Seq<usize>, x: usize| #[trigger] seq_has(s, x) == has_u(s, x as int) by { if seq_has(s, x) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].eqs(&x); assert(s[k] == x); } if has_u(s, x as int) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == x; assert(s[k].eqs(&x)); } }
}
//@fn result/object.rs get_fp_perception_results(estimated_objects) -> r {{optional}}
ensures r@ =~= fps(estimated_objects.vs())
inv (A:Vec) $A@ =~= fps(estimated_objects.vs().take($i as int))
//@end
//@fn result/object.rs get_score_table(estimated_objects, ground_truth_objects, matching_method) -> r {{optional; gen=T:CenterDistanceMatching}}
ensures table(r@, estimated_objects@, ground_truth_objects@, Seq::empty(), Seq::empty())
start reveal(table);
inv (A:Vec<Vec) shape($A@, estimated_objects@.len() as int, ground_truth_objects@.len() as int)
inv@0 (A:Vec<Vec) forall|i: int, j: int| $i <= i < estimated_objects@.len() && 0 <= j < ground_truth_objects@.len() ==> (#[trigger] $A@[i]@[j]) is None
inv@1 (A:Vec<Vec) forall|i: int, j: int| $oi <= i < estimated_objects@.len() && 0 <= j < ground_truth_objects@.len() ==> (#[trigger] $A@[i]@[j]) is None
inv@1 (A:Vec<Vec) forall|i: int, j: int| $oi - 1 <= i < estimated_objects@.len() && $i <= j < ground_truth_objects@.len() ==> (#[trigger] $A@[i]@[j]) is None
inv@0 (A:Vec<Vec) forall|i: int, j: int| 0 <= i < $i && 0 <= j < ground_truth_objects@.len() ==> ((#[trigger] $A@[i]@[j]) is Some <==> estimated_objects@[i].label == ground_truth_objects@[j].label) && ($A@[i]@[j] is Some && fin_all(estimated_objects@, ground_truth_objects@) ==> score_ok($A@[i]@[j]->0, estimated_objects@[i], ground_truth_objects@[j]))
inv@1 (A:Vec<Vec) forall|i: int, j: int| 0 <= i < $oi && 0 <= j < ground_truth_objects@.len() && (i < $oi - 1 || j < $i) ==> ((#[trigger] $A@[i]@[j]) is Some <==> estimated_objects@[i].label == ground_truth_objects@[j].label) && ($A@[i]@[j] is Some && fin_all(estimated_objects@, ground_truth_objects@) ==> score_ok($A@[i]@[j]->0, estimated_objects@[i], ground_truth_objects@[j]))
//@end
//@fn result/object.rs get_perception_results(estimated_objects, ground_truth_objects) -> r
ensures matched(r@, estimated_objects@, ground_truth_objects@)
start if estimated_objects@.len() == 0 || ground_truth_objects@.len() == 0 { lemma_empty(estimated_objects@, ground_truth_objects@); } lemma_match(estimated_objects@, ground_truth_objects@);
inv (A:Vec<PerceptionResult>,B:Vec<Vec<,C:Vec<usize>) exists|pg: Seq<int>| #[trigger] st($A@, $B@, estimated_objects@, ground_truth_objects@, $C@, pg)
pre@0 (A:Vec<PerceptionResult>,B:Vec<Vec<,C:Vec<usize>) lemma_init($A@, $B@, estimated_objects@, ground_truth_objects@, $C@);
inv@0 (A:Vec<PerceptionResult>,B:Vec<Vec<) tab_none($B@) || $A@.len() == $i
lens@0 (A:Vec<PerceptionResult>,B:Vec<Vec<) tab_none($B@) || $A@.len() == estimated_objects@.len()
lens@0 (A:Vec<PerceptionResult>,B:Vec<Vec<,C:Vec<usize>) exists|pg: Seq<int>| #[trigger] st($A@, $B@, estimated_objects@, ground_truth_objects@, $C@, pg)
inv (A:bool,U:Vec<Vec<) $A ==> forall|i: int, j: int| 0 <= i < $i && 0 <= j < $U@[i]@.len() ==> (#[trigger] $U@[i]@[j]) is None
inv (A:bool,U:Vec<Vec<) !$A ==> forall|i: int, j: int| 0 <= i < $i && 0 <= j < $U@[i]@.len() ==> (#[trigger] $U@[i]@[j]) is None
inv (A:bool,U:Vec<Option<) $A ==> forall|j: int| 0 <= j < $i ==> (#[trigger] $U@[j]) is None
inv (A:bool,U:Vec<Option<) !$A ==> forall|j: int| 0 <= j < $i ==> (#[trigger] $U@[j]) is None
inv@1 (A:Option,U:Vec<Vec<) near($A, $U@, $i as int, 0)
inv@2 (A:Option,U:Vec<Vec<) near($A, $U@, $oi - 1, $i as int)
pre (A:Vec<Vec<) let ghost vt_$l = $A@;
inv@1 (A:Vec<Vec<,U:usize,V:usize) cleared($A@, vt_$l, $i as int, $U as int, $V as int)
inv@2 (U:Vec<Option<,V:usize,W:usize) cleared_row($U@, vt_$ol[$oi - 1]@, $i as int, $oi - 1, $V as int, $W as int)
begin@0 (A:Vec<Vec<) let ghost vt0 = $A@;
begin@0 (A:Vec<PerceptionResult>) let ghost vr0 = $A@;
begin@0 (A:Vec<usize>) let ghost vp0 = $A@;
begin@0 let ghost vg0 = choose|pg: Seq<int>| #[trigger] st(vr0, vt0, estimated_objects@, ground_truth_objects@, vp0, pg);
end@0 (A:Vec<PerceptionResult>,B:Vec<Vec<,C:Vec<usize>) lemma_steps(vr0, vt0, $A@, $B@, estimated_objects@, ground_truth_objects@, vp0, vg0, $C@);
inv (A:Vec<usize>) $A@.len() == $i && forall|k: int| 0 <= k < $i ==> $A@[k] == k
inv (A:Vec<DynamicObject>,U:Vec<usize>) $A@ =~= objs(estimated_objects@, rest($U@, $i as int))
//@end
