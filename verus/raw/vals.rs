// (connections and names of the copies are the business of unit expander)
pub open spec fn copy_src(n: Circuit, ckts: Seq<Circuit>, e: Element, f: Fl) -> bool { true }
pub open spec fn tied(n: Circuit, ckts: Seq<Circuit>, c: int, path: Seq<Nm>, id: usize, t: usize) -> bool { true }
pub open spec fn id_is(a: Nm, b: Nm) -> bool { true }
pub open spec fn diode_is(r: Diode) -> bool { true }
pub open spec fn wired(o: Circuit, n: Circuit, al: Seq<(Nm, Nm)>) -> bool { true }
pub proof fn lemma_tied(o: Circuit, n: Circuit, ckts: Seq<Circuit>, c: int, path: Seq<Nm>, id: usize, t: usize) ensures tied(n, ckts, c, path, id, t) {}
pub proof fn lemma_wired_tr(o: Circuit, m: Circuit, n: Circuit, a: Seq<(Nm, Nm)>, b: Seq<(Nm, Nm)>) ensures wired(o, n, a + b) {}
pub proof fn lemma_wired_same(o: Circuit, n: Circuit) ensures wired(o, n, Seq::empty()) {}
pub proof fn lemma_wired_node(o: Circuit, n: Circuit, x: Nm) ensures wired(o, n, Seq::empty()) {}
pub proof fn lemma_wired_alias(o: Circuit, n: Circuit, a: Nm, h: Nm, nid: usize) ensures wired(o, n, seq![(a, h)]) {}
pub open spec fn val_is(f: Fl, v: f64) -> bool { f.val == Some(v) }
pub open spec fn dev_val(inst: Instance, env: Env) -> Option<f64> { dev_env(inst, env)("/param0"@) }
// ---- parameters: the first of a name counts
pub open spec fn pval(ps: Seq<Parameter>, s: Nm) -> Option<f64> { match first_param(ps, s, 0) { Some(i) => ps[i].value, None => None } }
pub open spec fn set_all(ps: Seq<Parameter>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).value is Some }
pub open spec fn prefix(a: Seq<Parameter>, b: Seq<Parameter>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub proof fn lemma_first(ps: Seq<Parameter>, s: Nm, i: int)
    requires 0 <= i <= ps.len()
    ensures match first_param(ps, s, i) { Some(j) => i <= j < ps.len() && ps[j].name@ == s && forall|l: int| i <= l < j ==> (#[trigger] ps[l]).name@ != s,
        None => forall|l: int| i <= l < ps.len() ==> (#[trigger] ps[l]).name@ != s }
    decreases ps.len() - i
{ if i < ps.len() && ps[i].name@ != s { lemma_first(ps, s, i + 1); } }
// adding parameters of other names changes nothing for s
pub proof fn lemma_pval_keep(a: Seq<Parameter>, b: Seq<Parameter>, s: Nm)
    requires prefix(a, b), forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]).name@ != s
    ensures pval(b, s) == pval(a, s)
{
    lemma_first(a, s, 0);
    lemma_first(b, s, 0);
    match first_param(a, s, 0) { Some(j) => { assert(b[j] == a[j]); match first_param(b, s, 0) { Some(l) => { if l < j { assert(b[l] == a[l]); } } None => {} } }, None => { match first_param(b, s, 0) { Some(l) => { if l < a.len() { assert(b[l] == a[l]); } } None => {} } } }
}
// a parameter that is set stays as it is
pub proof fn lemma_pval_set(a: Seq<Parameter>, b: Seq<Parameter>, s: Nm)
    requires prefix(a, b), pval(a, s) is Some
    ensures pval(b, s) == pval(a, s)
{
    lemma_first(a, s, 0);
    lemma_first(b, s, 0);
    let j = first_param(a, s, 0).unwrap();
    assert(b[j] == a[j]);
    match first_param(b, s, 0) { Some(l) => { if l < j { assert(b[l] == a[l]); } else if j < l { } } None => {} }
}
pub proof fn lemma_pval_push(a: Seq<Parameter>, p: Parameter, s: Nm)
    requires set_all(a)
    ensures pval(a.push(p), s) == (if pval(a, s) is Some { pval(a, s) } else if p.name@ == s { p.value } else { None })
{
    let b = a.push(p);
    lemma_first(a, s, 0);
    lemma_first(b, s, 0);
    if p.name@ != s { lemma_pval_keep(a, b, s); }
    else {
        assert(b[a.len() as int] == p);
        if pval(a, s) is Some { lemma_pval_set(a, b, s); }
        else {
            match first_param(a, s, 0) { Some(j) => { assert(a[j].value is Some); } None => {} }
            match first_param(b, s, 0) { Some(l) => { if l < a.len() { assert(b[l] == a[l]); } } None => {} }
        }
    }
}
pub proof fn lemma_pval_none(a: Seq<Parameter>, s: Nm)
    requires set_all(a)
    ensures pval(a, s) is None <==> forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).name@ != s
{ lemma_first(a, s, 0); match first_param(a, s, 0) { Some(j) => { assert(a[j].value is Some); } None => {} } }

// the parameters of a scope: what its names stand for
pub type Env = spec_fn(Nm) -> Option<f64>;
pub open spec fn env_at(ps: Seq<Parameter>, p: Seq<Nm>) -> Env { |x: Nm| if dotfree(x) { pval(ps, full(p.push(x))) } else { None } }
pub open spec fn expr_val(e: Option<Expression>, env: Env) -> Option<f64> {
    match e { Some(Expression::Literal(v)) => Some(v), Some(Expression::Identifier(s)) => env(s@), None => None }
}
pub open spec fn is_ident(e: Option<Expression>) -> bool { match e { Some(Expression::Identifier(s)) => true, _ => false } }
pub open spec fn ident_of(e: Option<Expression>) -> Nm { match e { Some(Expression::Identifier(s)) => s@, _ => Seq::empty() } }
// the value that the first n parameters of an instance line give x
pub open spec fn ov_val(ps: Seq<Parameter>, n: int, x: Nm, env: Env) -> Option<f64> decreases n
{
    if n <= 0 { None } else {
        match ov_val(ps, n - 1, x, env) { Some(v) => Some(v), None => if ps[n - 1].name@ == x { expr_val(ps[n - 1].expr, env) } else { None } }
    }
}
// the value that the first n parameters of a subcircuit definition give x by default
pub open spec fn def_val(ps: Seq<Parameter>, n: int, x: Nm, env: Env) -> Option<f64> decreases n
{
    if n <= 0 { None } else {
        match def_val(ps, n - 1, x, env) { Some(v) => Some(v), None => if ps[n - 1].name@ == x { expr_val(ps[n - 1].defval, env) } else { None } }
    }
}
// C11: the override, else the default
pub open spec fn or_else(a: Option<f64>, b: Option<f64>) -> Option<f64> { match a { Some(v) => Some(v), None => b } }
pub open spec fn dev_env(inst: Instance, env: Env) -> Env { |x: Nm| ov_val(inst.params@, inst.params.len() as int, x, env) }
// (a name has no dot)
pub open spec fn sub_env(inst: Instance, sub: Circuit, env: Env) -> Env {
    |x: Nm| if dotfree(x) { or_else(ov_val(inst.params@, inst.params.len() as int, x, env), def_val(sub.params@, sub.params.len() as int, x, env)) } else { None }
}

// ---- the parameters while an instance is expanded
pub open spec fn direct(s: Nm, q: Seq<Nm>) -> bool { exists|x: Nm| dotfree(x) && s == full(#[trigger] q.push(x)) }
pub open spec fn none_below(ps: Seq<Parameter>, from: int, q: Seq<Nm>, n: int) -> bool { forall|i: int| from <= i < ps.len() ==> !below((#[trigger] ps[i]).name@, q, n) }
pub open spec fn all_below(ps: Seq<Parameter>, from: int, q: Seq<Nm>, n: int) -> bool { forall|i: int| from <= i < ps.len() ==> below((#[trigger] ps[i]).name@, q, n) }
pub open spec fn all_direct(ps: Seq<Parameter>, from: int, q: Seq<Nm>) -> bool { forall|i: int| from <= i < ps.len() ==> direct((#[trigger] ps[i]).name@, q) }
// below one of the first k instances of c
pub open spec fn under(ckts: Seq<Circuit>, c: int, p: Seq<Nm>, k: int, s: Nm) -> bool { exists|j: int| 0 <= j < k && below(s, p.push((#[trigger] ckts[c].instances[j]).name@), 1) }
pub open spec fn all_under(ckts: Seq<Circuit>, c: int, p: Seq<Nm>, k: int, ps: Seq<Parameter>, from: int) -> bool { forall|i: int| from <= i < ps.len() ==> under(ckts, c, p, k, (#[trigger] ps[i]).name@) }
pub proof fn lemma_name_inj(q: Seq<Nm>, x: Nm, y: Nm)
    requires all_dotfree(q), dotfree(x), dotfree(y)
    ensures full(q.push(x)) == full(q.push(y)) <==> x == y
{
    lemma_push_dotfree(q, x); lemma_push_dotfree(q, y);
    if full(q.push(x)) == full(q.push(y)) { lemma_full_inj(q.push(x), q.push(y)); assert(q.push(x).last() == x && q.push(y).last() == y); }
}
// before its own parameters are resolved, an instance has none
pub proof fn lemma_fresh(ckts: Seq<Circuit>, c: int, p: Seq<Nm>, k: int, ps: Seq<Parameter>, from: int)
    requires wf(ckts), 0 <= c < ckts.len(), 0 <= k < ckts[c].instances.len(), all_dotfree(p), 0 <= from <= ps.len(),
      forall|i: int| 0 <= i < from ==> !below((#[trigger] ps[i]).name@, p, 2), all_under(ckts, c, p, k, ps, from)
    ensures none_below(ps, 0, p.push(ckts[c].instances[k].name@), 1)
{
    let q = p.push(ckts[c].instances[k].name@);
    assert(inst_wf(ckts[c].instances[k]));
    lemma_push_dotfree(p, ckts[c].instances[k].name@);
    assert forall|i: int| 0 <= i < ps.len() implies !below((#[trigger] ps[i]).name@, q, 1) by {
        let s = ps[i].name@;
        if i < from { if below(s, q, 1) { lemma_below_up(s, p, ckts[c].instances[k].name@, 1); } }
        else {
            assert(under(ckts, c, p, k, s));
            let j = choose|j: int| 0 <= j < k && below(s, p.push((#[trigger] ckts[c].instances[j]).name@), 1);
            assert(inst_wf(ckts[c].instances[j]));
            lemma_push_dotfree(p, ckts[c].instances[j].name@);
            assert(p.push(ckts[c].instances[j].name@).last() == ckts[c].instances[j].name@ && q.last() == ckts[c].instances[k].name@);
            assert(ckts[c].instances[j].name@ != ckts[c].instances[k].name@);
            lemma_below_apart(s, p.push(ckts[c].instances[j].name@), q);
        }
    }
}
pub proof fn lemma_fresh_val(ps: Seq<Parameter>, q: Seq<Nm>, x: Nm)
    requires none_below(ps, 0, q, 1), dotfree(x), set_all(ps)
    ensures pval(ps, full(q.push(x))) is None
{ lemma_pval_none(ps, full(q.push(x))); lemma_below_name(q, x); }
// parameters further down leave a scope as it is
pub proof fn lemma_scope(a: Seq<Parameter>, b: Seq<Parameter>, p: Seq<Nm>, x: Nm)
    requires prefix(a, b), all_dotfree(p), dotfree(x), all_below(b, a.len() as int, p, 2)
    ensures pval(b, full(p.push(x))) == pval(a, full(p.push(x)))
{ lemma_below_2(p, x); lemma_pval_keep(a, b, full(p.push(x))); }
pub proof fn lemma_under_2(ckts: Seq<Circuit>, c: int, p: Seq<Nm>, k: int, ps: Seq<Parameter>, from: int)
    requires wf(ckts), 0 <= c < ckts.len(), 0 <= k <= ckts[c].instances.len(), all_under(ckts, c, p, k, ps, from)
    ensures all_below(ps, from, p, 2)
{
    assert forall|i: int| from <= i < ps.len() implies below((#[trigger] ps[i]).name@, p, 2) by {
        let s = ps[i].name@;
        assert(under(ckts, c, p, k, s));
        let j = choose|j: int| 0 <= j < k && below(s, p.push((#[trigger] ckts[c].instances[j]).name@), 1);
        assert(inst_wf(ckts[c].instances[j]));
        lemma_below_up(s, p, ckts[c].instances[j].name@, 1);
    }
}
pub proof fn lemma_direct(s: Nm, q: Seq<Nm>)
    requires direct(s, q), all_dotfree(q)
    ensures below(s, q, 1), !below(s, q, 2)
{ let x = choose|x: Nm| dotfree(x) && s == full(#[trigger] q.push(x)); lemma_below_name(q, x); lemma_below_2(q, x); }
// the scope of p while the parameters of one of its instances (q, below it) are added
pub proof fn lemma_scope_in(ckts: Seq<Circuit>, c: int, p: Seq<Nm>, k: int, old: Seq<Parameter>, pb: Seq<Parameter>, ps: Seq<Parameter>, x: Nm)
    requires wf(ckts), 0 <= c < ckts.len(), 0 <= k < ckts[c].instances.len(), all_dotfree(p), dotfree(x), prefix(old, pb), prefix(pb, ps),
      all_under(ckts, c, p, k, pb, old.len() as int), all_direct(ps, pb.len() as int, p.push(ckts[c].instances[k].name@))
    ensures pval(ps, full(p.push(x))) == pval(old, full(p.push(x)))
{
    lemma_under_2(ckts, c, p, k, pb, old.len() as int);
    let i0 = ckts[c].instances[k].name@;
    assert(inst_wf(ckts[c].instances[k]));
    lemma_push_dotfree(p, i0);
    assert forall|i: int| old.len() <= i < ps.len() implies below((#[trigger] ps[i]).name@, p, 2) by {
        if i < pb.len() { assert(ps[i] == pb[i]); } else { lemma_direct(ps[i].name@, p.push(i0)); lemma_below_up(ps[i].name@, p, i0, 1); }
    }
    assert(prefix(old, ps)) by { assert forall|i: int| 0 <= i < old.len() implies #[trigger] ps[i] == old[i] by { assert(pb[i] == old[i]); } }
    lemma_scope(old, ps, p, x);
}
