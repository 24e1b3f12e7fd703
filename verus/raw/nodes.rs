// the highest node index any terminal uses, plus one
pub open spec fn node_count(els: Seq<Element>, nc: int) -> bool {
    &&& 1 <= nc <= usize::MAX
    &&& forall|k: int, t: usize| 0 <= k < els.len() && #[trigger] touches(els[k], t) ==> t < nc
    &&& nc == 1 || exists|k: int| 0 <= k < els.len() && #[trigger] touches(els[k], (nc - 1) as usize)
}
// every node of the circuit has a name to show
pub open spec fn all_named(c: &Circuit) -> bool {
    forall|nc: int, i: usize| #[trigger] node_count(c.elements@, nc) && i < nc ==> #[trigger] imap(c.node_id_lut).dom().contains(i)
}
