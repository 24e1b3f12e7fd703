// the node t is a terminal of e, controlling terminals included
pub open spec fn touches(e: Element, t: usize) -> bool {
    match e {
        Element::R(x) => t == x.a || t == x.b,
        Element::C(x) => t == x.a || t == x.b,
        Element::I(x) => t == x.p || t == x.n,
        Element::V(x) => t == x.p || t == x.n,
        Element::D(x) => t == x.p || t == x.n,
        Element::Isin(x) => t == x.p || t == x.n,
        Element::Vsin(x) => t == x.p || t == x.n,
        Element::Vpwl(x) => t == x.p || t == x.n,
        Element::Vcvs(x) => t == x.p || t == x.n || t == x.cp || t == x.cn,
        Element::Vccs(x) => t == x.p || t == x.n || t == x.cp || t == x.cn,
    }
}
pub open spec fn is_branch(e: Element) -> bool { e is V || e is Vsin || e is Vpwl || e is Vcvs }
pub open spec fn branch_idx(e: Element) -> usize {
    match e { Element::V(x) => x.idx, Element::Vsin(x) => x.idx, Element::Vpwl(x) => x.idx, Element::Vcvs(x) => x.idx, _ => 0 }
}
// branches among the first k elements
pub open spec fn nbr(els: Seq<Element>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { nbr(els, k - 1) + if is_branch(els[k - 1]) { 1int } else { 0int } } }
// every branch element has its own number, in order
pub open spec fn branches_ok(els: Seq<Element>) -> bool {
    forall|k: int| 0 <= k < els.len() && is_branch(#[trigger] els[k]) ==> branch_idx(els[k]) == nbr(els, k)
}
pub open spec fn idx_ok(c: Circuit) -> bool { branches_ok(c.elements@) && c.v_idx_next == nbr(c.elements@, c.elements.len() as int) }
pub proof fn lemma_touch(e: Element)
    ensures match e {
        Element::R(x) => touches(e, x.a) && touches(e, x.b),
        Element::C(x) => touches(e, x.a) && touches(e, x.b),
        Element::I(x) => touches(e, x.p) && touches(e, x.n),
        Element::V(x) => touches(e, x.p) && touches(e, x.n),
        Element::D(x) => touches(e, x.p) && touches(e, x.n),
        Element::Isin(x) => touches(e, x.p) && touches(e, x.n),
        Element::Vsin(x) => touches(e, x.p) && touches(e, x.n),
        Element::Vpwl(x) => touches(e, x.p) && touches(e, x.n),
        Element::Vcvs(x) => touches(e, x.p) && touches(e, x.n) && touches(e, x.cp) && touches(e, x.cn),
        Element::Vccs(x) => touches(e, x.p) && touches(e, x.n) && touches(e, x.cp) && touches(e, x.cn),
    }
{}
