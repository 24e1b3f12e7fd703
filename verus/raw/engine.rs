// ------------------------------------------------------------ circuit equations --
// what an element adds to equation i depends on the candidate solution x and on these:
pub struct Ps {
    pub t: real,              // the time at which sources are evaluated
    pub h: real,              // 1/(time step); 0 for a DC analysis
    pub xp: Seq<real>,        // the previously accepted solution (of use to capacitors only)
    pub comp: Seq<(real, real)>, // conductance and current of each diode
}
// the value of every element is usable, and its nodes and branch exist
pub open spec fn val_ok(e: Element) -> bool {
    match e {
        Element::R(r) => fin(r.value) && nm(r.value) != 0real,
        Element::C(c) => fin(c.value),
        Element::I(s) => fin(s.value),
        Element::V(s) => fin(s.value),
        Element::D(d) => dio_wf(d),
        Element::Isin(s) => fin(s.vo) && fin(s.va) && fin(s.freq),
        Element::Vsin(s) => fin(s.vo) && fin(s.va) && fin(s.freq),
        Element::Vpwl(s) => fin(s.t_delay) && fin(s.repeat) && points_ok(s.pat@),
        Element::Vcvs(s) => fin(s.k),
        Element::Vccs(s) => fin(s.k),
    }
}
pub open spec fn el_ok(e: Element, nc: int, nb: int) -> bool {
    &&& val_ok(e)
    &&& is_branch(e) ==> branch_idx(e) < nb
    &&& forall|t: usize| #[trigger] touches(e, t) ==> t < nc
}
pub open spec fn all_ok(els: Seq<Element>, nc: int, nb: int) -> bool { forall|k: int| 0 <= k < els.len() ==> el_ok(#[trigger] els[k], nc, nb) }
// diodes among the first k
pub open spec fn nd(els: Seq<Element>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { nd(els, k - 1) + if els[k - 1] is D { 1int } else { 0int } } }
// The contribution of one element to equation i: the current it takes out of node i, or, in the row of its branch,
// the amount by which the branch equation is missed.
#[verifier::opaque]
pub open spec fn el_res(e: Element, ps: Ps, x: Seq<real>, nc: int, i: int, j: int) -> real {
    match e {
        Element::R(r) => res_cond(x, i, r.a as int, r.b as int, 1real / nm(r.value)),
        Element::C(c) => res_isrc(i, c.a as int, c.b as int, cap_current(nm(c.value), ps.h, vx(x, c.a as int) - vx(x, c.b as int), vx(ps.xp, c.a as int) - vx(ps.xp, c.b as int))),
        Element::I(s) => res_isrc(i, s.p as int, s.n as int, nm(s.value)),
        Element::V(s) => res_vsrc(x, i, s.p as int, s.n as int, nc + s.idx, nm(s.value)),
        Element::D(d) => res_cond(x, i, d.p as int, d.n as int, ps.comp[j].0) + res_isrc(i, d.p as int, d.n as int, ps.comp[j].1),
        Element::Isin(s) => res_isrc(i, s.p as int, s.n as int, sine_val(nm(s.vo), nm(s.va), nm(s.freq), ps.t)),
        Element::Vsin(s) => res_vsrc(x, i, s.p as int, s.n as int, nc + s.idx, sine_val(nm(s.vo), nm(s.va), nm(s.freq), ps.t)),
        Element::Vpwl(s) => res_vsrc(x, i, s.p as int, s.n as int, nc + s.idx, pwl_val(s.pat@, nm(s.t_delay), nm(s.repeat), ps.t)),
        Element::Vcvs(s) => res_vcvs(x, i, s.p as int, s.n as int, s.cp as int, s.cn as int, nc + s.idx, nm(s.k)),
        Element::Vccs(s) => res_vccs(x, i, s.p as int, s.n as int, s.cp as int, s.cn as int, nm(s.k)),
    }
}
// C * dv / dt
pub open spec fn cap_current(c: real, h: real, v: real, vp: real) -> real { c * h * (v - vp) }
// all of the first k elements together
pub open spec fn tot(els: Seq<Element>, ps: Ps, x: Seq<real>, nc: int, i: int, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { tot(els, ps, x, nc, i, k - 1) + el_res(els[k - 1], ps, x, nc, i, nd(els, k - 1)) } }
pub open spec fn total(els: Seq<Element>, ps: Ps, x: Seq<real>, nc: int, i: int) -> real { tot(els, ps, x, nc, i, els.len() as int) }
// x satisfies Kirchhoff's current law at every node but ground and every branch equation
pub open spec fn kcl(els: Seq<Element>, ps: Ps, x: Seq<real>, nc: int, n: int) -> bool {
    forall|i: int| 1 <= i < n ==> #[trigger] total(els, ps, x, nc, i) == 0real
}
// the conductance and current of every diode come from its companion model at the voltages y
pub open spec fn comps_ok(els: Seq<Element>, comp: Seq<(real, real)>, y: Seq<real>) -> bool {
    forall|k: int| 0 <= k < els.len() && els[k] is D ==> {
        let d = (#[trigger] els[k])->D_0;
        let j = nd(els, k);
        0 <= j < comp.len() && comp_ok(d, vx(y, d.p as int) - vx(y, d.n as int), comp[j].0, comp[j].1)
    }
}
pub proof fn lemma_nd_ext(a: Seq<Element>, b: Seq<Element>, k: int)
    requires k <= a.len(), k <= b.len(), forall|l: int| 0 <= l < k ==> a[l] == b[l]
    ensures nd(a, k) == nd(b, k), nd(a, k) >= 0
    decreases k
{ if k > 0 { lemma_nd_ext(a, b, k - 1); } }
pub proof fn lemma_tot_ext(a: Seq<Element>, b: Seq<Element>, ps: Ps, x: Seq<real>, nc: int, i: int, k: int)
    requires k <= a.len(), k <= b.len(), forall|l: int| 0 <= l < k ==> a[l] == b[l]
    ensures tot(a, ps, x, nc, i, k) == tot(b, ps, x, nc, i, k)
    decreases k
{ if k > 0 { lemma_tot_ext(a, b, ps, x, nc, i, k - 1); lemma_nd_ext(a, b, k - 1); } }
// the last element pushed
pub proof fn lemma_tot_push(a: Seq<Element>, e: Element, ps: Ps, x: Seq<real>, nc: int, i: int)
    ensures total(a.push(e), ps, x, nc, i) == total(a, ps, x, nc, i) + el_res(e, ps, x, nc, i, nd(a, a.len() as int)),
        nd(a.push(e), a.len() as int + 1) == nd(a, a.len() as int) + if e is D { 1int } else { 0int }
{
    lemma_tot_ext(a, a.push(e), ps, x, nc, i, a.len() as int);
    lemma_nd_ext(a, a.push(e), a.len() as int);
}
// without a time step capacitors carry nothing
pub proof fn lemma_dc_caps(els: Seq<Element>, ps: Ps, x: Seq<real>, nc: int, i: int, k: int)
    requires ps.h == 0real, 0 <= k <= els.len(), forall|l: int| 0 <= l < els.len() ==> #[trigger] els[l] is C
    ensures tot(els, ps, x, nc, i, k) == 0real
    decreases k
{
    if k > 0 {
        lemma_dc_caps(els, ps, x, nc, i, k - 1);
        assert(els[k - 1] is C);
        reveal(el_res);
        let c = els[k - 1]->C_0;
        let v = vx(x, c.a as int) - vx(x, c.b as int) - (vx(ps.xp, c.a as int) - vx(ps.xp, c.b as int));
        let cv = nm(c.value);
        assert(cv * 0real * v == 0real) by (nonlinear_arith);
    }
}
// the matrix m1 is m0 and the first k diodes, with companions comp
pub open spec fn adds_comp(m0: Seq<Vec<f64>>, m1: Seq<Vec<f64>>, n: int, els: Seq<Element>, comp: Seq<(real, real)>, nc: int, k: int) -> bool {
    forall|ps: Ps, x: Seq<real>, i: int| #![trigger rrow(m1, x, n, i), tot(els, ps, x, nc, i, k)]
      x.len() == n && 1 <= i < n && ps.comp == comp ==>
      rrow(m1, x, n, i) == rrow(m0, x, n, i) + tot(els, ps, x, nc, i, k)
}
pub open spec fn adds_one(m0: Seq<Vec<f64>>, m1: Seq<Vec<f64>>, n: int, d: Diode, c: (real, real)) -> bool {
    forall|x: Seq<real>, i: int| #![trigger rrow(m1, x, n, i)] x.len() == n && 1 <= i < n ==>
      rrow(m1, x, n, i) == rrow(m0, x, n, i) + res_cond(x, i, d.p as int, d.n as int, c.0) + res_isrc(i, d.p as int, d.n as int, c.1)
}
pub open spec fn comp_of(e: Element, y: Seq<real>, c: (real, real)) -> bool {
    let d = e->D_0;
    comp_ok(d, vx(y, d.p as int) - vx(y, d.n as int), c.0, c.1)
}
pub proof fn lemma_nd_all(els: Seq<Element>, k: int)
    requires 0 <= k <= els.len(), forall|l: int| 0 <= l < els.len() ==> #[trigger] els[l] is D
    ensures nd(els, k) == k
    decreases k
{ if k > 0 { lemma_nd_all(els, k - 1); assert(els[k - 1] is D); } }
pub proof fn lemma_inv_inv(g: real)
    ensures fvdiv(FV::Num(1real), fvdiv(FV::Num(1real), FV::Num(g))) == FV::Num(g)
{
    if g != 0real { assert(1real / g != 0real && 1real / (1real / g) == g) by (nonlinear_arith) requires g != 0real; }
}
pub proof fn lemma_cap(c: real, dt: real, h: real, v: real, vp: real)
    requires dt > 0real, h == 1real / dt
    ensures cap_current(c, h, v, vp) == (c / dt) * v - c / dt * vp
{
    assert(c * h == c / dt) by (nonlinear_arith) requires h == 1real / dt, dt > 0real;
    let g = c / dt;
    assert(c * h * (v - vp) == g * v - g * vp) by (nonlinear_arith) requires c * h == g;
}
pub proof fn lemma_dist(g: real, a: real, b: real)
    ensures g * (a - b) == g * a - g * b, g * 0real == 0real
{ assert(g * (a - b) == g * a - g * b) by (nonlinear_arith); assert(g * 0real == 0real) by (nonlinear_arith); }
pub proof fn lemma_tot_comp(els: Seq<Element>, p: Ps, q: Ps, x: Seq<real>, nc: int, i: int, k: int)
    requires 0 <= k <= els.len(), forall|l: int| 0 <= l < els.len() ==> #[trigger] els[l] is D, forall|j: int| 0 <= j < k ==> p.comp[j] == q.comp[j]
    ensures tot(els, p, x, nc, i, k) == tot(els, q, x, nc, i, k)
    decreases k
{ reveal(el_res); if k > 0 { lemma_tot_comp(els, p, q, x, nc, i, k - 1); lemma_nd_all(els, k - 1); assert(els[k - 1] is D); } }
pub proof fn lemma_comp_push(m0: Seq<Vec<f64>>, mb: Seq<Vec<f64>>, m: Seq<Vec<f64>>, n: int, els: Seq<Element>, cb: Seq<(real, real)>, c: (real, real), nc: int, k: int)
    requires adds_comp(m0, mb, n, els, cb, nc, k), cb.len() == k, 0 <= k < els.len(), forall|l: int| 0 <= l < els.len() ==> #[trigger] els[l] is D,
        adds_one(mb, m, n, els[k]->D_0, c)
    ensures adds_comp(m0, m, n, els, cb.push(c), nc, k + 1)
{
    assert forall|ps: Ps, x: Seq<real>, i: int| #![trigger rrow(m, x, n, i), tot(els, ps, x, nc, i, k + 1)]
      x.len() == n && 1 <= i < n && ps.comp == cb.push(c) implies
      rrow(m, x, n, i) == rrow(m0, x, n, i) + tot(els, ps, x, nc, i, k + 1) by {
        reveal(el_res);
        let pb = Ps { comp: cb, ..ps };
        assert(rrow(mb, x, n, i) == rrow(m0, x, n, i) + tot(els, pb, x, nc, i, k));
        lemma_tot_comp(els, ps, pb, x, nc, i, k);
        lemma_nd_all(els, k);
        assert(els[k] is D);
    }
}
