// ---- the flattened circuit
// one element of it: the k-th element (or, for dev, the k-th instance) of circuit c, in the scope path
pub struct Fl { pub path: Seq<Nm>, pub c: int, pub dev: bool, pub k: int, pub val: Option<f64> }
pub struct Flat { pub els: Seq<Fl>, pub al: Seq<(Nm, Nm)> }
pub open spec fn nil() -> Flat { Flat { els: Seq::empty(), al: Seq::empty() } }
pub open spec fn cat(a: Flat, b: Flat) -> Flat { Flat { els: a.els + b.els, al: a.al + b.al } }
pub open spec fn just(f: Fl) -> Flat { Flat { els: seq![f], al: Seq::empty() } }
// an impossible element: the circuit it would be in does not exist
pub open spec fn undefined() -> Flat { just(Fl { path: Seq::empty(), c: -1, dev: false, k: 0, val: None }) }
pub open spec fn is_dev(inst: Instance) -> bool { inst.subckt@ == "/device"@ }
pub open spec fn sub_of(ckts: Seq<Circuit>, name: Nm, i: int) -> Option<int> decreases ckts.len() - i
{ if i < 0 || i >= ckts.len() { None } else if ckts[i].name@ == name { Some(i) } else { sub_of(ckts, name, i + 1) } }
pub open spec fn shown(c: Circuit, id: usize) -> Nm { imap(c.node_id_lut)[id]@ }
pub open spec fn net(ckts: Seq<Circuit>, c: int, path: Seq<Nm>, id: usize) -> Nm { full(path.push(shown(ckts[c], id))) }
// some order of the subcircuits in which none contains itself
pub uninterp spec fn rk(ckts: Seq<Circuit>, c: int) -> nat;
// the ports of an instance of s in c, each with the net it is connected to
pub open spec fn port_al(ckts: Seq<Circuit>, c: int, s: int, path: Seq<Nm>, inst: Instance, n: int) -> Seq<(Nm, Nm)> {
    Seq::new(n as nat, |j: int| (net(ckts, s, path.push(inst.name@), (j + 1) as usize), net(ckts, c, path, inst.conns[j])))
}
pub open spec fn is_src(e: Element) -> bool { e is I || e is V || e is Isin || e is Vsin || e is Vpwl }
// the sources among the first n elements of c
pub open spec fn flat_srcs(ckts: Seq<Circuit>, c: int, path: Seq<Nm>, n: int) -> Flat decreases n
{
    if n <= 0 { nil() }
    else if is_src(ckts[c].elements[n - 1]) { cat(flat_srcs(ckts, c, path, n - 1), just(Fl { path, c, dev: false, k: n - 1, val: None })) }
    else { flat_srcs(ckts, c, path, n - 1) }
}
// the first n instances of c, flattened
pub open spec fn flat(ckts: Seq<Circuit>, c: int, path: Seq<Nm>, env: Env, n: int) -> Flat decreases rk(ckts, c), 2 * n
{ if n <= 0 { nil() } else { cat(flat(ckts, c, path, env, n - 1), flat_inst(ckts, c, path, env, n - 1)) } }
pub open spec fn flat_inst(ckts: Seq<Circuit>, c: int, path: Seq<Nm>, env: Env, k: int) -> Flat decreases rk(ckts, c), 2 * k + 1
{
    let inst = ckts[c].instances[k];
    if k < 0 { undefined() }
    else if is_dev(inst) { just(Fl { path, c, dev: true, k, val: dev_val(inst, env) }) }
    else {
        match sub_of(ckts, inst.subckt@, 0) {
            None => undefined(),
            Some(s) => flat_sub(ckts, c, s, path, inst, sub_env(inst, ckts[s], env)),
        }
    }
}
// an instance of s in c
pub open spec fn flat_sub(ckts: Seq<Circuit>, c: int, s: int, path: Seq<Nm>, inst: Instance, env: Env) -> Flat decreases rk(ckts, c), 0int
{
    let q = path.push(inst.name@);
    if rk(ckts, s) < rk(ckts, c) {
        cat(cat(Flat { els: Seq::empty(), al: port_al(ckts, c, s, path, inst, inst.conns.len() as int) }, flat_srcs(ckts, s, q, ckts[s].elements.len() as int)),
            flat(ckts, s, q, env, ckts[s].instances.len() as int))
    } else { undefined() }
}
pub open spec fn at(n: Circuit, ckts: Seq<Circuit>, c: int, path: Seq<Nm>, id: usize, t: usize) -> bool { node_of(n, net(ckts, c, path, id)) == Some(t) }
// e is the copy that f stands for, in the circuit n
pub open spec fn copy_dev(n: Circuit, ckts: Seq<Circuit>, e: Element, f: Fl) -> bool {
    let inst = ckts[f.c].instances[f.k];
    let id = full(f.path.push(inst.name@));
    match e {
        Element::R(r) => starts(inst.name@, 'R') && id_is(r.ident@, id) && val_is(f, r.value) && tied(n, ckts, f.c, f.path, inst.conns[0], r.a) && tied(n, ckts, f.c, f.path, inst.conns[1], r.b),
        Element::C(r) => starts(inst.name@, 'C') && id_is(r.ident@, id) && val_is(f, r.value) && tied(n, ckts, f.c, f.path, inst.conns[0], r.a) && tied(n, ckts, f.c, f.path, inst.conns[1], r.b),
        Element::D(r) => starts(inst.name@, 'D') && id_is(r.ident@, id) && diode_is(r) && tied(n, ckts, f.c, f.path, inst.conns[0], r.p) && tied(n, ckts, f.c, f.path, inst.conns[1], r.n),
        Element::Vcvs(r) => starts(inst.name@, 'E') && id_is(r.ident@, id) && val_is(f, r.k) && tied(n, ckts, f.c, f.path, inst.conns[0], r.p) && tied(n, ckts, f.c, f.path, inst.conns[1], r.n)
            && tied(n, ckts, f.c, f.path, inst.conns[2], r.cp) && tied(n, ckts, f.c, f.path, inst.conns[3], r.cn),
        Element::Vccs(r) => starts(inst.name@, 'G') && id_is(r.ident@, id) && val_is(f, r.k) && tied(n, ckts, f.c, f.path, inst.conns[0], r.p) && tied(n, ckts, f.c, f.path, inst.conns[1], r.n)
            && tied(n, ckts, f.c, f.path, inst.conns[2], r.cp) && tied(n, ckts, f.c, f.path, inst.conns[3], r.cn),
        _ => false,
    }
}
pub open spec fn copy_ok(n: Circuit, ckts: Seq<Circuit>, e: Element, f: Fl) -> bool {
    0 <= f.c < ckts.len() && if f.dev { 0 <= f.k < ckts[f.c].instances.len() && copy_dev(n, ckts, e, f) } else { 0 <= f.k < ckts[f.c].elements.len() && copy_src(n, ckts, e, f) }
}
// n is o plus the elements and aliases of f, and nothing else
#[verifier::opaque]
pub open spec fn expands(ckts: Seq<Circuit>, o: Circuit, n: Circuit, f: Flat) -> bool {
    &&& ext(o, n) && wired(o, n, f.al)
    &&& n.elements.len() == o.elements.len() + f.els.len()
    &&& forall|i: int| 0 <= i < o.elements.len() ==> #[trigger] n.elements[i] == o.elements[i]
    &&& forall|i: int| 0 <= i < f.els.len() ==> copy_ok(n, ckts, n.elements[o.elements.len() + i], #[trigger] f.els[i])
    &&& n.name == o.name && n.instances == o.instances && n.num_ports == o.num_ports && n.node_id_lut == o.node_id_lut
    &&& nodes_ok(n) && idx_ok(n)
}
pub proof fn lemma_ext_node(o: Circuit, n: Circuit, s: Nm)
    requires ext(o, n) ensures node_of(o, s) is Some ==> node_of(n, s) == node_of(o, s) {}
pub proof fn lemma_copy_ext(o: Circuit, n: Circuit, ckts: Seq<Circuit>, e: Element, f: Fl)
    requires ext(o, n), copy_ok(o, ckts, e, f)
    ensures copy_ok(n, ckts, e, f)
{
    assert forall|id: usize, t: usize| #[trigger] tied(o, ckts, f.c, f.path, id, t) implies tied(n, ckts, f.c, f.path, id, t) by { lemma_tied(o, n, ckts, f.c, f.path, id, t); }
}
pub proof fn lemma_expands_tr(ckts: Seq<Circuit>, o: Circuit, m: Circuit, n: Circuit, f: Flat, g: Flat)
    requires expands(ckts, o, m, f), expands(ckts, m, n, g)
    ensures expands(ckts, o, n, cat(f, g))
{
    reveal(expands);
    let h = cat(f, g);
    lemma_wired_tr(o, m, n, f.al, g.al);
    assert forall|i: int| 0 <= i < h.els.len() implies copy_ok(n, ckts, n.elements[o.elements.len() + i], #[trigger] h.els[i]) by {
        if i < f.els.len() { assert(h.els[i] == f.els[i]); assert(n.elements[o.elements.len() + i] == m.elements[o.elements.len() + i]); lemma_copy_ext(m, n, ckts, n.elements[o.elements.len() + i], f.els[i]); }
        else { assert(h.els[i] == g.els[i - f.els.len()]); }
    }
    assert forall|i: int| 0 <= i < o.elements.len() implies #[trigger] n.elements[i] == o.elements[i] by { assert(m.elements[i] == o.elements[i]); }
}
pub proof fn lemma_nodes_same(o: Circuit, n: Circuit)
    requires nodes_ok(o), o.nodes == n.nodes, o.nid_next == n.nid_next
    ensures nodes_ok(n)
{ assert forall|i: usize| 1 <= i < n.nid_next implies #[trigger] has_name(n, i) by { assert(has_name(o, i)); let s = choose|s: Nm| smap(o.nodes).dom().contains(s) && #[trigger] smap(o.nodes)[s] == i; assert(smap(n.nodes)[s] == i); } }
pub proof fn lemma_expands_nil(ckts: Seq<Circuit>, o: Circuit, n: Circuit)
    requires nodes_ok(o), idx_ok(o), o.nodes == n.nodes, o.nid_next == n.nid_next, o.elements == n.elements, o.v_idx_next == n.v_idx_next,
      n.name == o.name && n.instances == o.instances && n.num_ports == o.num_ports && n.node_id_lut == o.node_id_lut
    ensures expands(ckts, o, n, nil())
{
    reveal(expands);
    lemma_wired_same(o, n);
    lemma_nodes_same(o, n);
}
pub proof fn lemma_cat_nil(f: Flat) ensures cat(f, nil()) == f, cat(nil(), f) == f
{ assert(f.els + Seq::<Fl>::empty() =~= f.els); assert(f.al + Seq::<(Nm, Nm)>::empty() =~= f.al); assert(Seq::<Fl>::empty() + f.els =~= f.els); assert(Seq::<(Nm, Nm)>::empty() + f.al =~= f.al); }
pub proof fn lemma_cat_cat(a: Flat, b: Flat, c: Flat) ensures cat(cat(a, b), c) == cat(a, cat(b, c))
{ assert((a.els + b.els) + c.els =~= a.els + (b.els + c.els)); assert((a.al + b.al) + c.al =~= a.al + (b.al + c.al)); }
pub proof fn lemma_expands_el(ckts: Seq<Circuit>, o: Circuit, n: Circuit, e: Element, f: Fl)
    requires nodes_ok(o), o.nodes == n.nodes, o.nid_next == n.nid_next, n.elements@ == o.elements@.push(e), idx_ok(n), copy_ok(n, ckts, e, f),
      n.name == o.name && n.instances == o.instances && n.num_ports == o.num_ports && n.node_id_lut == o.node_id_lut
    ensures expands(ckts, o, n, just(f))
{
    reveal(expands);
    lemma_wired_same(o, n);
    lemma_nodes_same(o, n);
    assert(n.elements[o.elements.len() as int] == e);
}
pub proof fn lemma_expands_node(ckts: Seq<Circuit>, o: Circuit, n: Circuit, x: Nm, r: usize)
    requires nodes_ok(o), idx_ok(o), nodes_ok(n), same_but_nodes(o, n), node_of(n, x) == Some(r),
      node_of(o, x) is Some ==> n == o,
      node_of(o, x) is None ==> n.nid_next == o.nid_next + 1 && smap(n.nodes) == smap(o.nodes).insert(x, o.nid_next)
    ensures expands(ckts, o, n, nil())
{
    reveal(expands);
    lemma_wired_node(o, n, x);
}
pub proof fn lemma_expands_alias(ckts: Seq<Circuit>, o: Circuit, n: Circuit, a: Nm, h: Nm, nid: usize)
    requires nodes_ok(o), idx_ok(o), nodes_ok(n), same_but_nodes(o, n), n.nid_next == o.nid_next, node_of(o, h) == Some(nid), node_of(o, a) is Some ==> node_of(o, a) == Some(nid),
      smap(n.nodes) == smap(o.nodes).insert(a, nid), node_of(n, a) == Some(nid)
    ensures expands(ckts, o, n, Flat { els: Seq::empty(), al: seq![(a, h)] })
{
    reveal(expands);
    assert(ext(o, n));
    lemma_wired_alias(o, n, a, h, nid);
}
// what a well-formed set of circuit descriptions is
pub open spec fn expr_wf(e: Option<Expression>) -> bool { match e { Some(Expression::Identifier(s)) => dotfree(s@), _ => true } }
pub open spec fn params_wf(ps: Seq<Parameter>) -> bool { forall|i: int| 0 <= i < ps.len() ==> dotfree((#[trigger] ps[i]).name@) && expr_wf(ps[i].expr) && expr_wf(ps[i].defval) }
pub open spec fn inst_wf(inst: Instance) -> bool {
    &&& dotfree(inst.name@) && params_wf(inst.params@)
    &&& dev_conns(inst)
}
pub open spec fn wf(ckts: Seq<Circuit>) -> bool {
    &&& forall|c: int| 0 <= c < ckts.len() ==> params_wf((#[trigger] ckts[c]).params@)
    &&& forall|c: int, i: int| 0 <= c < ckts.len() && 0 <= i < ckts[c].instances.len() ==> inst_wf(#[trigger] ckts[c].instances[i])
    // instance names differ
    &&& forall|c: int, i: int, j: int| 0 <= c < ckts.len() && 0 <= i < j < ckts[c].instances.len() ==> (#[trigger] ckts[c].instances[i]).name@ != (#[trigger] ckts[c].instances[j]).name@
    // no subcircuit contains itself
    &&& forall|c: int, i: int| 0 <= c < ckts.len() && 0 <= i < ckts[c].instances.len() && !is_dev(#[trigger] ckts[c].instances[i]) ==>
        match sub_of(ckts, ckts[c].instances[i].subckt@, 0) { Some(s) => rk(ckts, s) < rk(ckts, c), None => true }
}
pub proof fn lemma_sub_of(ckts: Seq<Circuit>, name: Nm, i: int)
    requires 0 <= i <= ckts.len()
    ensures match sub_of(ckts, name, i) { Some(s) => i <= s < ckts.len() && ckts[s].name@ == name, None => true }
    decreases ckts.len() - i
{ if i < ckts.len() && ckts[i].name@ != name { lemma_sub_of(ckts, name, i + 1); } }
// steps that add nothing compose; one that adds an element adds what it is a copy of
pub broadcast proof fn bl_nil(ckts: Seq<Circuit>, o: Circuit, m: Circuit, n: Circuit)
    requires #[trigger] expands(ckts, o, m, nil()), #[trigger] expands(ckts, m, n, nil())
    ensures expands(ckts, o, n, nil())
{ lemma_expands_tr(ckts, o, m, n, nil(), nil()); lemma_cat_nil(nil()); }
pub broadcast proof fn bl_el(ckts: Seq<Circuit>, o: Circuit, m: Circuit, n: Circuit, e: Element, f: Fl)
    requires #[trigger] expands(ckts, o, m, nil()), #[trigger] same_rest(m, n), n.elements@ == m.elements@.push(e), idx_ok(n), #[trigger] copy_ok(n, ckts, e, f)
    ensures expands(ckts, o, n, just(f))
{
    reveal(expands);
    lemma_expands_el(ckts, m, n, e, f);
    lemma_expands_tr(ckts, o, m, n, nil(), just(f));
    lemma_cat_nil(just(f));
}
pub broadcast proof fn bl_same(m: Circuit, n: Circuit)
    requires nodes_ok(m), #[trigger] same_rest(m, n)
    ensures #[trigger] nodes_ok(n)
{ lemma_nodes_same(m, n); }
pub broadcast proof fn bl_same_at(m: Circuit, n: Circuit, s: Nm)
    requires #[trigger] same_rest(m, n)
    ensures #[trigger] node_of(n, s) == node_of(m, s)
{}
pub broadcast proof fn bl_ext_at(o: Circuit, n: Circuit, s: Nm)
    requires #[trigger] ext(o, n), #[trigger] node_of(o, s) is Some
    ensures node_of(n, s) == node_of(o, s)
{}
pub broadcast group group_flat { bl_nil, bl_el, bl_same, bl_same_at, bl_ext_at }
pub open spec fn same_but_params(a: Circuit, b: Circuit) -> bool {
    a.name == b.name && a.nid_next == b.nid_next && a.nodes == b.nodes && a.node_id_lut == b.node_id_lut && a.instances == b.instances && a.num_ports == b.num_ports && a.elements == b.elements && a.v_idx_next == b.v_idx_next
}
pub proof fn lemma_push_dotfree(q: Seq<Nm>, x: Nm) requires all_dotfree(q), dotfree(x) ensures all_dotfree(q.push(x))
{ assert forall|i: int| 0 <= i < q.push(x).len() implies dotfree(#[trigger] q.push(x)[i]) by { if i < q.len() { assert(dotfree(q[i])); } } }
