// ------------------------------------------------------------ transient analysis --
pub open spec fn tran_cfg(c: &Configuration) -> bool {
    &&& cfg_ok(c)
    &&& fin(c.TSTEP) && nm(c.TSTEP) > 0real && fin(c.TSTOP) && nm(c.TSTOP) > 0real && fin(c.TSTART)
    &&& fin(c.FS) && nm(c.FS) > 0real && fin(c.FT) && 0real < nm(c.FT) < 1real
    &&& fin(c.RMAX) && nm(c.RMAX) > 0real && fin(c.RMIN) && nm(c.RMIN) > 0real
}
// the longest step allowed
pub open spec fn step_max(c: &Configuration) -> real { rmax(nm(c.TSTEP) * nm(c.RMAX), nm(c.TSTEP) * nm(c.FS)) }
// what x1 at time t1 has to satisfy, given the accepted solution x0 at t0 before it
#[verifier::opaque]
pub open spec fn solves_at(els: Seq<Element>, nc: int, c: &Configuration, t0: real, x0: Seq<f64>, t1: real, x1: Seq<f64>, y: Seq<f64>, comp: Seq<(real, real)>) -> bool {
    let n = nc + nbr(els, els.len() as int);
    &&& xvec(x1, n) && all_fin(x1) && xvec(y, n) && all_fin(y)
    &&& comps_ok(els, comp, reals(y))
    &&& kcl(els, Ps { t: t1, h: 1real / (t1 - t0), xp: reals(x0), comp }, reals(x1), nc, n)
    &&& settled(x1, y, nc, c, n)
}
#[verifier::opaque]
pub open spec fn step_ok(els: Seq<Element>, nc: int, c: &Configuration, a: (f64, Seq<f64>), b: (f64, Seq<f64>)) -> bool {
    let (t0, t1) = (nm(a.0), nm(b.0));
    &&& fin(b.0) && t0 < t1 <= nm(c.TSTOP) && t1 - t0 <= step_max(c)
    &&& exists|y: Seq<f64>, comp: Seq<(real, real)>| #[trigger] solves_at(els, nc, c, t0, a.1, t1, b.1, y, comp)
}
// the points accepted so far: the DC operating point and then one solution after the other
#[verifier::opaque]
pub open spec fn steps_ok(els: Seq<Element>, nc: int, c: &Configuration, s: Seq<(f64, Seq<f64>)>, dc: Seq<f64>) -> bool {
    &&& s.len() >= 1 && s[0] == (num(0real), dc)
    &&& forall|k: int| 1 <= k < s.len() ==> #[trigger] step_ok(els, nc, c, s[k - 1], s[k])
}
// what is recorded of the first k of them: the first, and those not before tstart
#[verifier::opaque]
pub open spec fn recorded(s: Seq<(f64, Seq<f64>)>, k: int, tstart: real) -> Seq<(f64, Seq<f64>)>
    decreases k
{
    if k <= 1 { s.subrange(0, 1) }
    else if nm(s[k - 1].0) >= tstart { recorded(s, k - 1, tstart).push(s[k - 1]) }
    else { recorded(s, k - 1, tstart) }
}
pub proof fn lemma_recorded_ext(a: Seq<(f64, Seq<f64>)>, b: (f64, Seq<f64>), k: int, tstart: real)
    requires 1 <= a.len(), k <= a.len()
    ensures recorded(a.push(b), k, tstart) == recorded(a, k, tstart)
    decreases k
{
    reveal_with_fuel(recorded, 2);
    if k <= 1 { assert(a.push(b).subrange(0, 1) =~= a.subrange(0, 1)); } else { lemma_recorded_ext(a, b, k - 1, tstart); }
}
// times increase along the accepted points, hence along the recorded ones
pub proof fn lemma_times(els: Seq<Element>, nc: int, c: &Configuration, s: Seq<(f64, Seq<f64>)>, dc: Seq<f64>, i: int, j: int)
    requires steps_ok(els, nc, c, s, dc), 0 <= i <= j < s.len()
    ensures nm(s[i].0) <= nm(s[j].0), i < j ==> nm(s[i].0) < nm(s[j].0)
    decreases j - i
{
    reveal(steps_ok); 
    reveal(step_ok);
    if i < j { lemma_times(els, nc, c, s, dc, i, j - 1); assert(step_ok(els, nc, c, s[j - 1], s[j])); }
}
pub proof fn lemma_recorded(els: Seq<Element>, nc: int, c: &Configuration, s: Seq<(f64, Seq<f64>)>, dc: Seq<f64>, k: int)
    requires steps_ok(els, nc, c, s, dc), 0 <= k <= s.len()
    ensures ({
        let r = recorded(s, k, nm(c.TSTART));
        &&& r.len() >= 1 && r[0] == s[0]
        &&& nm(r.last().0) <= nm(s[if k <= 1 { 0 } else { k - 1 }].0)
        &&& forall|i: int| 1 <= i < r.len() ==> nm(c.TSTART) <= nm((#[trigger] r[i]).0) <= nm(c.TSTOP)
        &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> nm((#[trigger] r[i]).0) < nm((#[trigger] r[j]).0)
    })
    decreases k
{
    reveal(steps_ok); 
    reveal(step_ok); 
    reveal_with_fuel(recorded, 2);
    if k > 1 {
        lemma_recorded(els, nc, c, s, dc, k - 1);
        lemma_times(els, nc, c, s, dc, 0, k - 1);
        lemma_times(els, nc, c, s, dc, k - 2, k - 1);
        assert(step_ok(els, nc, c, s[k - 2], s[k - 1]));
        let q = recorded(s, k - 1, nm(c.TSTART));
        let r = recorded(s, k, nm(c.TSTART));
        assert forall|i: int| 0 <= i < q.len() implies nm((#[trigger] q[i]).0) <= nm(q.last().0) by { if i < q.len() - 1 { assert(nm(q[i].0) < nm(q[q.len() - 1].0)); } }
    }
}
// C04, C05: what a transient run leaves behind
#[verifier::opaque]
pub open spec fn tran_run(els: Seq<Element>, nc: int, c: &Configuration, dc: Seq<f64>, s: Seq<(f64, Seq<f64>)>, log: Seq<(f64, Seq<f64>)>, end: f64) -> bool {
    &&& node_count(els, nc)
    &&& steps_ok(els, nc, c, s, dc)
    &&& log == recorded(s, s.len() as int, nm(c.TSTART))
    &&& end == s.last().0
    &&& nm(log[0].0) == 0real && log[0].1 == dc
    &&& forall|i: int| 1 <= i < log.len() ==> nm(c.TSTART) <= nm((#[trigger] log[i]).0) <= nm(c.TSTOP)
    &&& forall|i: int, j: int| 0 <= i < j < log.len() ==> nm((#[trigger] log[i]).0) < nm((#[trigger] log[j]).0)
}
pub open spec fn tran_result(els: Seq<Element>, nc: int, c: &Configuration, dc: Seq<f64>, end: f64) -> bool {
    exists|s: Seq<(f64, Seq<f64>)>, log: Seq<(f64, Seq<f64>)>| #[trigger] tran_run(els, nc, c, dc, s, log, end)
}
// the equations of one solve, over the engine's own lists
#[verifier::opaque]
pub open spec fn tran_eqs(e: &Engine, t: real, h: real, xp: Seq<real>, x: Seq<real>, comp: Seq<(real, real)>) -> bool {
    forall|ps: Ps, i: int| #![trigger total(e.nonlinear_elements@, ps, x, e.c_nodes as int, i)] 1 <= i < dim(e) && ps.t == t && ps.h == h && ps.xp == xp && ps.comp == comp ==>
        rrow(e.base_matrix@, x, dim(e), i) + total(e.independent_sources@, ps, x, e.c_nodes as int, i)
          + total(e.v_dependent_sources@, ps, x, e.c_nodes as int, i)
          + total(e.storage_elements@, ps, x, e.c_nodes as int, i)
          + total(e.nonlinear_elements@, ps, x, e.c_nodes as int, i) == 0real
}
pub proof fn lemma_tran(e: &Engine, els: Seq<Element>, c: &Configuration, t0: real, x0: Seq<f64>, t1: real, x1: Seq<f64>, y: Seq<f64>, comp: Seq<(real, real)>)
    requires dim(e) == e.c_nodes + nbr(els, els.len() as int), elaborated(e, els), same_diodes(e.nonlinear_elements@, els, els.len() as int), xvec(x1, dim(e)), all_fin(x1), xvec(y, dim(e)), all_fin(y),
        comps_ok(e.nonlinear_elements@, comp, reals(y)), settled(x1, y, e.c_nodes as int, c, dim(e)),
        tran_eqs(e, t1, 1real / (t1 - t0), reals(x0), reals(x1), comp)
    ensures solves_at(els, e.c_nodes as int, c, t0, x0, t1, x1, y, comp)
{
    reveal(solves_at); 
    reveal(tran_eqs);
    let nc = e.c_nodes as int;
    let l = e.nonlinear_elements@;
    lemma_comps_all(l, els, comp, reals(y));
    let ps = Ps { t: t1, h: 1real / (t1 - t0), xp: reals(x0), comp };
    assert forall|i: int| 1 <= i < dim(e) implies #[trigger] total(els, ps, reals(x1), nc, i) == 0real by {
        assert(total(l, ps, reals(x1), nc, i) == total(l, ps, reals(x1), nc, i));
    }
}
pub proof fn lemma_cfg_steps(c: &Configuration)
    requires tran_cfg(c)
    ensures nm(c.TSTEP) * nm(c.FS) > 0real, nm(c.TSTEP) * nm(c.RMAX) > 0real,
        0real < step_min(c), step_min(c) <= nm(c.TSTEP) * nm(c.FS), step_min(c) <= nm(c.TSTEP) * nm(c.RMAX), step_min(c) <= nm(c.TSTEP) * nm(c.RMIN)
{
    reveal(step_min);
    let (a, f, r) = (nm(c.TSTEP), nm(c.FS), nm(c.RMAX));
    let q = nm(c.RMIN);
    assert(a * q > 0real) by (nonlinear_arith) requires a > 0real, q > 0real;
    assert(a * f > 0real) by (nonlinear_arith) requires a > 0real, f > 0real;
    assert(a * r > 0real) by (nonlinear_arith) requires a > 0real, r > 0real;
}
pub proof fn lemma_shrink(d: real, f: real)
    requires d > 0real, 0real < f < 1real
    ensures 0real < d * f < d
{ assert(0real < d * f && d * f < d) by (nonlinear_arith) requires d > 0real, 0real < f < 1real; }

pub proof fn lemma_first(els: Seq<Element>, nc: int, c: &Configuration, dc: Seq<f64>)
    ensures ({ let s = seq![(num(0real), dc)]; steps_ok(els, nc, c, s, dc) && recorded(s, 0, nm(c.TSTART)) == Seq::<(f64, Seq<f64>)>::empty().push(s[0]) })
{
    reveal(steps_ok);
    reveal_with_fuel(recorded, 2);
    let s = seq![(num(0real), dc)];
    assert(s.subrange(0, 1) =~= Seq::<(f64, Seq<f64>)>::empty().push(s[0]));
}
// one more accepted point
pub proof fn lemma_step(els: Seq<Element>, nc: int, c: &Configuration, s: Seq<(f64, Seq<f64>)>, dc: Seq<f64>, b: (f64, Seq<f64>), y: Seq<f64>, comp: Seq<(real, real)>)
    requires steps_ok(els, nc, c, s, dc), s.len() >= 1, fin(b.0), nm(s.last().0) < nm(b.0) <= nm(c.TSTOP), nm(b.0) - nm(s.last().0) <= step_max(c),
        solves_at(els, nc, c, nm(s.last().0), s.last().1, nm(b.0), b.1, y, comp)
    ensures steps_ok(els, nc, c, s.push(b), dc), recorded(s.push(b), s.len() as int, nm(c.TSTART)) == recorded(s, s.len() as int, nm(c.TSTART))
{
    reveal(steps_ok);
    reveal(step_ok);
    lemma_recorded_ext(s, b, s.len() as int, nm(c.TSTART));
    assert(step_ok(els, nc, c, s.last(), b));
    let q = s.push(b);
    assert forall|k: int| 1 <= k < q.len() implies #[trigger] step_ok(els, nc, c, q[k - 1], q[k]) by {
        if k < s.len() { assert(step_ok(els, nc, c, s[k - 1], s[k])); }
    }
}
// what recording or leaving out the last point does
pub proof fn lemma_record(s: Seq<(f64, Seq<f64>)>, tstart: real)
    requires s.len() >= 1
    ensures s.len() == 1 ==> recorded(s, 1, tstart) == recorded(s, 0, tstart),
        s.len() > 1 ==> recorded(s, s.len() as int, tstart) ==
            if nm(s.last().0) >= tstart { recorded(s, s.len() - 1, tstart).push(s.last()) } else { recorded(s, s.len() - 1, tstart) }
{ reveal_with_fuel(recorded, 2); }
pub proof fn lemma_run(els: Seq<Element>, nc: int, c: &Configuration, dc: Seq<f64>, s: Seq<(f64, Seq<f64>)>, log: Seq<(f64, Seq<f64>)>, end: f64)
    requires node_count(els, nc), steps_ok(els, nc, c, s, dc), s.len() >= 1, log == recorded(s, s.len() as int, nm(c.TSTART)), end == s.last().0
    ensures tran_run(els, nc, c, dc, s, log, end), tran_result(els, nc, c, dc, end)
{
    reveal(steps_ok);
    reveal(tran_run);
    lemma_recorded(els, nc, c, s, dc, s.len() as int);
    assert(tran_run(els, nc, c, dc, s, log, end));
    assert(exists|s: Seq<(f64, Seq<f64>)>, log: Seq<(f64, Seq<f64>)>| #[trigger] tran_run(els, nc, c, dc, s, log, end));
}
// ---- a run ends: how many steps there can still be, and how many times one can still be shortened
// no step but the last is shorter
#[verifier::opaque]
pub open spec fn step_min(c: &Configuration) -> real {
    let (a, b, d) = (nm(c.TSTEP) * nm(c.FS), nm(c.TSTEP) * nm(c.RMAX), nm(c.TSTEP) * nm(c.RMIN));
    let m = if a <= b { a } else { b };
    if m <= d { m } else { d }
}
#[verifier::opaque]
pub open spec fn parts(x: real, d: real) -> nat { if x <= 0real || d <= 0real { 0 } else { ((x / d).floor() + 1) as nat } }
pub proof fn lemma_parts(x: real, y: real, d: real)
    requires 0real < d, x - y >= d, x > 0real
    ensures parts(y, d) < parts(x, d)
{
    reveal(parts);
    let (a, b) = (x / d, y / d);
    assert(x == a * d && a > 0real) by (nonlinear_arith) requires a == x / d, d > 0real, x > 0real;
    assert(y == b * d) by (nonlinear_arith) requires b == y / d, d > 0real;
    assert(a - b >= 1real) by (nonlinear_arith) requires a * d - b * d >= d, d > 0real;
    if y > 0real { assert(b > 0real) by (nonlinear_arith) requires b == y / d, d > 0real, y > 0real; }
}
pub open spec fn steps_left(c: &Configuration, t: real, last: bool) -> nat { if last { 0 } else { 1 + parts(nm(c.TSTOP) - t, step_min(c)) } }
pub proof fn lemma_steps_left(c: &Configuration, t0: real, t1: real)
    requires tran_cfg(c), t0 < nm(c.TSTOP)
    ensures t1 - t0 >= step_min(c) ==> parts(nm(c.TSTOP) - t1, step_min(c)) < parts(nm(c.TSTOP) - t0, step_min(c))
{
    lemma_cfg_steps(c);
    if t1 - t0 >= step_min(c) { lemma_parts(nm(c.TSTOP) - t0, nm(c.TSTOP) - t1, step_min(c)); }
}
#[verifier::opaque]
pub open spec fn gears_left(c: &Configuration, d: real) -> nat { let f = nm(c.FT); parts(d, nm(c.TSTEP) * nm(c.RMIN) * (1real - f)) }
pub proof fn lemma_gears_left(c: &Configuration, d: real)
    requires tran_cfg(c), d > 0real
    ensures d * nm(c.FT) >= nm(c.TSTEP) * nm(c.RMIN) ==> gears_left(c, d * nm(c.FT)) < gears_left(c, d)
{
    reveal(gears_left);
    let (f, m) = (nm(c.FT), nm(c.TSTEP) * nm(c.RMIN));
    lemma_cfg_steps(c);
    assert(m * (1real - f) > 0real) by (nonlinear_arith) requires m > 0real, 0real < f < 1real;
    if d * f >= m {
        assert(d - d * f >= m * (1real - f)) by (nonlinear_arith) requires d * f >= m, 0real < f < 1real, d > 0real, m > 0real;
        lemma_parts(d, d * f, m * (1real - f));
    }
}
// a step tried first with length d and then gears times with a step f times as long as before
pub open spec fn geared_to(d: real, f: real, gears: nat) -> real
    decreases gears
{ if gears == 0 { d } else { geared_to(d, f, (gears - 1) as nat) * f } }
