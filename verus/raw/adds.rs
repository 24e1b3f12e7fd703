// nothing but the elements and the next branch number changes
pub open spec fn same_rest(a: Circuit, b: Circuit) -> bool {
    &&& a.name == b.name && a.nid_next == b.nid_next && a.nodes == b.nodes && a.node_id_lut == b.node_id_lut
    &&& a.instances == b.instances && a.num_ports == b.num_ports && a.params == b.params
}
// no vector outgrows the address space
pub axiom fn ax_vec_len(v: Vec<Element>) ensures v.len() < usize::MAX / 2;
pub proof fn lemma_vroom(c: Circuit)
    requires idx_ok(c)
    ensures c.v_idx_next < usize::MAX
{ lemma_nbr_mono(c.elements@, 0, c.elements.len() as int); ax_vec_len(c.elements); }
