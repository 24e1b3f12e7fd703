// ---- C10: how the copies are connected and named
pub open spec fn copy_src(n: Circuit, ckts: Seq<Circuit>, e: Element, f: Fl) -> bool {
    match (ckts[f.c].elements[f.k], e) {
        (Element::I(a), Element::I(b)) => b.value == a.value && tied(n, ckts, f.c, f.path, a.p, b.p) && tied(n, ckts, f.c, f.path, a.n, b.n),
        (Element::V(a), Element::V(b)) => b.value == a.value && tied(n, ckts, f.c, f.path, a.p, b.p) && tied(n, ckts, f.c, f.path, a.n, b.n),
        (Element::Isin(a), Element::Isin(b)) => b.vo == a.vo && b.va == a.va && b.freq == a.freq && tied(n, ckts, f.c, f.path, a.p, b.p) && tied(n, ckts, f.c, f.path, a.n, b.n),
        (Element::Vsin(a), Element::Vsin(b)) => b.vo == a.vo && b.va == a.va && b.freq == a.freq && tied(n, ckts, f.c, f.path, a.p, b.p) && tied(n, ckts, f.c, f.path, a.n, b.n),
        (Element::Vpwl(a), Element::Vpwl(b)) => b.pat == a.pat && b.repeat == a.repeat && b.t_delay == a.t_delay && tied(n, ckts, f.c, f.path, a.p, b.p) && tied(n, ckts, f.c, f.path, a.n, b.n),
        _ => false,
    }
}
pub open spec fn tied(n: Circuit, ckts: Seq<Circuit>, c: int, path: Seq<Nm>, id: usize, t: usize) -> bool { at(n, ckts, c, path, id, t) }
pub open spec fn id_is(a: Nm, b: Nm) -> bool { a == b }
pub open spec fn diode_is(r: Diode) -> bool { diode_ok(r) && r.i_sat == num(1real / 1000000000real) && r.tdegc == num(27real) }
pub open spec fn wired(o: Circuit, n: Circuit, al: Seq<(Nm, Nm)>) -> bool { grows(o, n, al) && link(n, al) }
pub proof fn lemma_tied(o: Circuit, n: Circuit, ckts: Seq<Circuit>, c: int, path: Seq<Nm>, id: usize, t: usize)
    requires ext(o, n), tied(o, ckts, c, path, id, t) ensures tied(n, ckts, c, path, id, t)
{ lemma_ext_node(o, n, net(ckts, c, path, id)); }
pub proof fn lemma_wired_tr(o: Circuit, m: Circuit, n: Circuit, a: Seq<(Nm, Nm)>, b: Seq<(Nm, Nm)>)
    requires ext(o, m), ext(m, n), wired(o, m, a), wired(m, n, b)
    ensures wired(o, n, a + b)
{
    lemma_grows_tr(o, m, n, a, b);
    let h = a + b;
    assert forall|i: int| 0 <= i < h.len() implies node_of(n, (#[trigger] h[i]).0) is Some && node_of(n, h[i].0) == node_of(n, h[i].1) by {
        if i < a.len() { assert(h[i] == a[i]); lemma_ext_node(m, n, a[i].0); lemma_ext_node(m, n, a[i].1); }
        else { assert(h[i] == b[i - a.len()]); }
    }
}
pub proof fn lemma_wired_same(o: Circuit, n: Circuit)
    requires o.nodes == n.nodes ensures wired(o, n, Seq::empty())
{ lemma_grows_same(o, n); }
pub proof fn lemma_wired_node(o: Circuit, n: Circuit, x: Nm)
    requires nodes_ok(o), node_of(o, x) is Some ==> n == o, node_of(o, x) is None ==> smap(n.nodes) == smap(o.nodes).insert(x, o.nid_next)
    ensures wired(o, n, Seq::empty())
{ if node_of(o, x) is Some { lemma_grows_same(o, n); } else { lemma_grows_node(o, n, x); } }
pub proof fn lemma_wired_alias(o: Circuit, n: Circuit, a: Nm, h: Nm, nid: usize)
    requires nodes_ok(o), node_of(o, h) == Some(nid), node_of(o, a) is Some ==> node_of(o, a) == Some(nid), smap(n.nodes) == smap(o.nodes).insert(a, nid), node_of(n, a) == Some(nid), ext(o, n)
    ensures wired(o, n, seq![(a, h)])
{ lemma_grows_alias(o, n, a, h, nid); lemma_ext_node(o, n, h); assert(link(n, seq![(a, h)])); }
// (values of the parameters are the business of unit params)
pub type Env = spec_fn(Nm) -> Option<f64>;
pub open spec fn no_env() -> Env { |x: Nm| None }
pub open spec fn val_is(f: Fl, v: f64) -> bool { true }
pub open spec fn dev_val(inst: Instance, env: Env) -> Option<f64> { None }
pub open spec fn sub_env(inst: Instance, sub: Circuit, env: Env) -> Env { no_env() }
// no two names of a circuit that was read share a node
pub proof fn lemma_top_sep(c: Circuit)
    requires shape(c)
    ensures sep(c, Seq::empty())
{
    reveal(sep);
    lemma_shape(c);
    let al = Seq::<(Nm, Nm)>::empty();
    assert forall|s: Nm, t: Nm| #![trigger node_of(c, s), node_of(c, t)] node_of(c, s) is Some && node_of(c, s) == node_of(c, t) implies conn(al, s, t) by {
        assert(one_step(al, s, t));
        lemma_conn_refl(al, t);
        lemma_conn_first(al, s, t, t);
    }
}
// every terminal of a copy is a node of the circuit
pub proof fn lemma_copies_in(ckts: Seq<Circuit>, o: Circuit, n: Circuit, f: Flat)
    requires els_in(o.elements@, o.nid_next), ext(o, n), nodes_ok(n), n.elements.len() == o.elements.len() + f.els.len(),
      forall|i: int| 0 <= i < o.elements.len() ==> #[trigger] n.elements[i] == o.elements[i],
      forall|i: int| 0 <= i < f.els.len() ==> copy_ok(n, ckts, n.elements[o.elements.len() + i], #[trigger] f.els[i])
    ensures els_in(n.elements@, n.nid_next)
{
    assert forall|k: int, t: usize| 0 <= k < n.elements.len() && #[trigger] touches(n.elements[k], t) implies t < n.nid_next by {
        if k < o.elements.len() { assert(touches(o.elements[k], t)); }
        else {
            let g = f.els[k - o.elements.len()];
            assert(copy_ok(n, ckts, n.elements[o.elements.len() + (k - o.elements.len())], g));
        }
    }
}
// every node has a name, and so one to show
pub proof fn lemma_all_named(c: Circuit)
    requires nodes_ok(c), lut_best(c), els_in(c.elements@, c.nid_next), smap(c.nodes).dom().contains("gnd"@), smap(c.nodes)["gnd"@] == 0
    ensures all_named(&c)
{
    assert forall|nc: int, i: usize| #[trigger] node_count(c.elements@, nc) && i < nc implies #[trigger] imap(c.node_id_lut).dom().contains(i) by {
        assert(nc <= c.nid_next) by {
            if nc != 1 { let k = choose|k: int| 0 <= k < c.elements.len() && #[trigger] touches(c.elements[k], (nc - 1) as usize); }
        }
        if i == 0 { assert(smap(c.nodes)["gnd"@] == i); }
        else { assert(has_name(c, i)); let s = choose|s: Nm| smap(c.nodes).dom().contains(s) && #[trigger] smap(c.nodes)[s] == i; }
    }
}
