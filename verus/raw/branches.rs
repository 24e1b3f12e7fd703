pub proof fn lemma_nbr_mono(els: Seq<Element>, a: int, b: int)
    requires 0 <= a <= b <= els.len()
    ensures nbr(els, a) <= nbr(els, b), nbr(els, b) - nbr(els, a) <= b - a, a < b && is_branch(els[a]) ==> nbr(els, a) < nbr(els, b)
    decreases b - a
{ if a < b { lemma_nbr_mono(els, a, b - 1); } }
pub proof fn lemma_nbr_ext(x: Seq<Element>, y: Seq<Element>, k: int)
    requires k <= x.len(), k <= y.len(), forall|i: int| 0 <= i < k ==> x[i] == y[i]
    ensures nbr(x, k) == nbr(y, k)
    decreases k
{ if k > 0 { lemma_nbr_ext(x, y, k - 1); } }
pub open spec fn uses_idx(els: Seq<Element>, n: int, j: int) -> bool { exists|k: int| 0 <= k < n && is_branch(#[trigger] els[k]) && branch_idx(els[k]) == j }
// C09: the branch indices are exactly 0 .. number of branches, each used once
pub proof fn lemma_branches(els: Seq<Element>)
    requires branches_ok(els)
    ensures
        forall|k: int| 0 <= k < els.len() && is_branch(#[trigger] els[k]) ==> branch_idx(els[k]) < nbr(els, els.len() as int),
        forall|k: int, l: int| 0 <= k < l < els.len() && is_branch(#[trigger] els[k]) && is_branch(#[trigger] els[l]) ==> branch_idx(els[k]) != branch_idx(els[l]),
        forall|j: int| 0 <= j < nbr(els, els.len() as int) ==> #[trigger] uses_idx(els, els.len() as int, j)
{
    assert forall|k: int| 0 <= k < els.len() && is_branch(#[trigger] els[k]) implies branch_idx(els[k]) < nbr(els, els.len() as int) by { lemma_nbr_mono(els, k, els.len() as int); }
    assert forall|k: int, l: int| 0 <= k < l < els.len() && is_branch(#[trigger] els[k]) && is_branch(#[trigger] els[l]) implies branch_idx(els[k]) != branch_idx(els[l]) by { lemma_nbr_mono(els, k, l); }
    assert forall|j: int| 0 <= j < nbr(els, els.len() as int) implies #[trigger] uses_idx(els, els.len() as int, j) by {
        lemma_nbr_hit(els, els.len() as int, j);
    }
}
pub proof fn lemma_nbr_hit(els: Seq<Element>, n: int, j: int)
    requires branches_ok(els), 0 <= n <= els.len(), 0 <= j < nbr(els, n)
    ensures uses_idx(els, n, j)
    decreases n
{
    if j < nbr(els, n - 1) { lemma_nbr_hit(els, n - 1, j); }
    else { assert(is_branch(els[n - 1]) && branch_idx(els[n - 1]) == j); }
}
pub proof fn lemma_push(els: Seq<Element>, e: Element)
    requires branches_ok(els), is_branch(e) ==> branch_idx(e) == nbr(els, els.len() as int)
    ensures branches_ok(els.push(e)),
        nbr(els.push(e), els.len() as int + 1) == nbr(els, els.len() as int) + if is_branch(e) { 1int } else { 0int }
{
    let w = els.push(e);
    lemma_nbr_ext(w, els, els.len() as int);
    assert forall|k: int| 0 <= k < w.len() && is_branch(#[trigger] w[k]) implies branch_idx(w[k]) == nbr(w, k) by {
        lemma_nbr_ext(w, els, k);
        if k < els.len() { assert(w[k] == els[k]); }
    }
}
