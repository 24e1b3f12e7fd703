pub open spec fn is_ind(e: Element) -> bool { e is Isin || e is Vsin || e is Vpwl }
pub open spec fn is_dep(e: Element) -> bool { e is Vcvs || e is Vccs }
pub open spec fn ind_ok(s: Seq<Element>, nc: int, nb: int) -> bool { forall|k: int| 0 <= k < s.len() ==> is_ind(#[trigger] s[k]) && el_ok(s[k], nc, nb) }
pub open spec fn dep_ok(s: Seq<Element>, nc: int, nb: int) -> bool { forall|k: int| 0 <= k < s.len() ==> is_dep(#[trigger] s[k]) && el_ok(s[k], nc, nb) }
pub open spec fn sto_ok(s: Seq<Element>, nc: int, nb: int) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] is C && el_ok(s[k], nc, nb) }
pub open spec fn non_ok(s: Seq<Element>, nc: int, nb: int) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] is D && el_ok(s[k], nc, nb) }

// a circuit whose elements have usable values and whose sizes do not overflow the machine's integers
pub open spec fn ckt_ok(c: &Circuit) -> bool {
    let els = c.elements@;
    &&& branches_ok(els)
    &&& els.len() + 3 < usize::MAX
    &&& forall|k: int| 0 <= k < els.len() ==> val_ok(#[trigger] els[k])
    &&& forall|k: int, t: usize| 0 <= k < els.len() && #[trigger] touches(els[k], t) ==> t + els.len() + 2 < usize::MAX
}
pub open spec fn engine_ok(e: &Engine) -> bool {
    &&& e.c_nodes >= 1 && dim(e) < usize::MAX
    &&& ind_ok(e.independent_sources@, e.c_nodes as int, e.c_vsrcs as int)
    &&& dep_ok(e.v_dependent_sources@, e.c_nodes as int, e.c_vsrcs as int)
    &&& sto_ok(e.storage_elements@, e.c_nodes as int, e.c_vsrcs as int)
    &&& non_ok(e.nonlinear_elements@, e.c_nodes as int, e.c_vsrcs as int)
}
// the matrix m together with the engine's lists of elements amounts to the elements els
pub open spec fn covers(e: &Engine, m: Seq<Vec<f64>>, els: Seq<Element>, k: int) -> bool {
    &&& nd(e.nonlinear_elements@, e.nonlinear_elements.len() as int) == nd(els, k)
    &&& forall|ps: Ps, x: Seq<real>, i: int| #![trigger tot(els, ps, x, e.c_nodes as int, i, k)] x.len() == dim(e) && 1 <= i < dim(e) ==>
        tot(els, ps, x, e.c_nodes as int, i, k) == rrow(m, x, dim(e), i)
          + total(e.independent_sources@, ps, x, e.c_nodes as int, i)
          + total(e.v_dependent_sources@, ps, x, e.c_nodes as int, i)
          + total(e.storage_elements@, ps, x, e.c_nodes as int, i)
          + total(e.nonlinear_elements@, ps, x, e.c_nodes as int, i)
}
// the engine has been set up for this circuit
pub open spec fn elaborated(e: &Engine, els: Seq<Element>) -> bool {
    &&& engine_ok(e)
    &&& node_count(els, e.c_nodes as int)
    &&& e.c_vsrcs == nbr(els, els.len() as int)
    &&& fin_mat(e.base_matrix@, dim(e)) && row0(e.base_matrix@, dim(e))
    &&& covers(e, e.base_matrix@, els, els.len() as int)
}
// what the diodes of the list are, and only what they are, is the diodes among els
pub open spec fn same_diodes(l: Seq<Element>, els: Seq<Element>, k: int) -> bool {
    &&& l.len() == nd(els, k)
    &&& forall|j: int| 0 <= j < k && els[j] is D ==> 0 <= nd(els, j) < l.len() && #[trigger] els[j] == l[nd(els, j)]
}
