// a circuit as a reader builds it: every terminal is a node of the circuit, every branch has its own number, devices have the terminals they need
pub open spec fn inst_in(inst: Instance, next: usize) -> bool { dev_conns(inst) && forall|j: int| 0 <= j < inst.conns.len() ==> #[trigger] inst.conns[j] < next }
pub open spec fn els_in(els: Seq<Element>, next: usize) -> bool { forall|k: int, t: usize| 0 <= k < els.len() && #[trigger] touches(els[k], t) ==> t < next }
pub open spec fn insts_in(insts: Seq<Instance>, next: usize) -> bool { forall|i: int| 0 <= i < insts.len() ==> inst_in(#[trigger] insts[i], next) }
// two names of one node are the same name, ground apart, and only ground's names are node 0
pub open spec fn own_names(m: Map<Seq<char>, usize>) -> bool {
    &&& forall|s: Seq<char>, t: Seq<char>| #[trigger] m.dom().contains(s) && #[trigger] m.dom().contains(t) && m[s] == m[t] ==> s == t || m[s] == 0
    &&& forall|s: Seq<char>| #[trigger] m.dom().contains(s) && m[s] == 0 ==> is_gnd(s)
    &&& m.dom().contains("gnd"@) && m["gnd"@] == 0
}
pub open spec fn shape_(c: Circuit) -> bool {
    &&& nodes_ok(c) && idx_ok(c) && lut_own(c)
    &&& els_in(c.elements@, c.nid_next) && insts_in(c.instances@, c.nid_next) && own_names(smap(c.nodes))
}
// (its name, its parameters and its number of ports do not matter)
#[verifier::opaque] pub open spec fn shp(nodes: HashMap<String, usize>, next: usize, els: Vec<Element>, vi: usize, insts: Vec<Instance>, lut: HashMap<usize, String>) -> bool {
    exists|c: Circuit| #[trigger] shape_(c) && c.nodes == nodes && c.nid_next == next && c.elements == els && c.v_idx_next == vi && c.instances == insts && c.node_id_lut == lut
}
pub open spec fn shape(c: Circuit) -> bool { shp(c.nodes, c.nid_next, c.elements, c.v_idx_next, c.instances, c.node_id_lut) }
pub proof fn lemma_shape(c: Circuit) ensures shape(c) == shape_(c)
{
    reveal(shp);
    if shape(c) {
        let d = choose|d: Circuit| #[trigger] shape_(d) && d.nodes == c.nodes && d.nid_next == c.nid_next && d.elements == c.elements && d.v_idx_next == c.v_idx_next && d.instances == c.instances && d.node_id_lut == c.node_id_lut;
        assert forall|i: usize| 1 <= i < c.nid_next implies #[trigger] has_name(c, i) by { assert(has_name(d, i)); let s = choose|s: Seq<char>| smap(d.nodes).dom().contains(s) && #[trigger] smap(d.nodes)[s] == i; assert(smap(c.nodes)[s] == i); }
    }
}
pub open spec fn rd_shape(r: Reader) -> bool { r.c < r.ckts.len() && r.ckts[0].params.len() == 0 && forall|i: int| 0 <= i < r.ckts.len() ==> shape(#[trigger] r.ckts[i]) }
pub open spec fn nxt(r: Reader) -> usize { r.ckts[r.c as int].nid_next }
// more nodes and elements, of the same circuits
pub open spec fn goes_on(a: Reader, b: Reader) -> bool { rd_shape(b) && b.c == a.c && b.ckts.len() == a.ckts.len() && nxt(a) <= nxt(b) }
pub proof fn lemma_shape_el(o: Circuit, n: Circuit, e: Element)
    requires shape(o), same_rest(o, n), idx_ok(n), n.elements@ == o.elements@.push(e), forall|t: usize| #[trigger] touches(e, t) ==> t < o.nid_next
    ensures shape(n)
{
    lemma_shape(o); lemma_shape(n);
    assert forall|i: usize| 1 <= i < n.nid_next implies #[trigger] has_name(n, i) by { assert(has_name(o, i)); let s = choose|s: Seq<char>| smap(o.nodes).dom().contains(s) && #[trigger] smap(o.nodes)[s] == i; assert(smap(n.nodes)[s] == i); }
    assert forall|k: int, t: usize| 0 <= k < n.elements.len() && #[trigger] touches(n.elements[k], t) implies t < n.nid_next by { if k < o.elements.len() { assert(n.elements[k] == o.elements[k]); assert(touches(o.elements[k], t)); } }
}
pub proof fn lemma_shape_inst(o: Circuit, n: Circuit, inst: Instance)
    requires shape(o), o.nodes == n.nodes, o.nid_next == n.nid_next, o.elements == n.elements, o.v_idx_next == n.v_idx_next, o.node_id_lut == n.node_id_lut,
      n.instances@ == o.instances@.push(inst), inst_in(inst, o.nid_next)
    ensures shape(n)
{
    lemma_shape(o); lemma_shape(n);
    assert forall|i: usize| 1 <= i < n.nid_next implies #[trigger] has_name(n, i) by { assert(has_name(o, i)); let s = choose|s: Seq<char>| smap(o.nodes).dom().contains(s) && #[trigger] smap(o.nodes)[s] == i; assert(smap(n.nodes)[s] == i); }
    assert forall|i: int| 0 <= i < n.instances.len() implies inst_in(#[trigger] n.instances[i], n.nid_next) by { if i < o.instances.len() { assert(n.instances[i] == o.instances[i]); } }
}
pub proof fn lemma_shape_node(o: Circuit, n: Circuit, s: Seq<char>)
    requires shape(o), same_but_nodes(o, n), nodes_ok(n), node_of(o, s) is None, n.nid_next == o.nid_next + 1, smap(n.nodes) == smap(o.nodes).insert(s, o.nid_next)
    ensures shape(n)
{
    lemma_shape(o); lemma_shape(n);
    assert forall|k: int, t: usize| 0 <= k < n.elements.len() && #[trigger] touches(n.elements[k], t) implies t < n.nid_next by { assert(touches(o.elements[k], t)); }
    assert forall|i: int| 0 <= i < n.instances.len() implies inst_in(#[trigger] n.instances[i], n.nid_next) by { assert(inst_in(o.instances[i], o.nid_next)); }
}
pub open spec fn is_new(c: Circuit) -> bool {
    &&& c.nid_next == 1 && c.v_idx_next == 0 && c.elements.len() == 0 && c.instances.len() == 0
    &&& smap(c.nodes) == Map::<Seq<char>, usize>::empty().insert("gnd"@, 0usize) && imap(c.node_id_lut) == Map::<usize, String>::empty()
}
pub proof fn bl_new(c: Circuit)
    requires is_new(c)
    ensures shape(c)
{ lemma_shape(c); assert(is_gnd("gnd"@)) by { reveal_strlit("gnd"); lemma_last_part_none("gnd"@); } }
