// ---- what a reader holds, by content ----
pub type Tx = Seq<char>;
pub enum XV { Lit(f64), Id(Tx) }
pub struct PV { pub name: Tx, pub defval: Option<XV>, pub expr: Option<XV>, pub value: Option<f64> }
pub struct IV { pub name: Tx, pub subckt: Tx, pub conns: Seq<usize>, pub params: Seq<PV> }
pub enum EV {
    I { p: usize, n: usize, v: f64 },
    Isin { p: usize, n: usize, vo: f64, va: f64, f: f64 },
    V { p: usize, n: usize, v: f64, idx: usize },
    Vsin { p: usize, n: usize, vo: f64, va: f64, f: f64, idx: usize },
    Vpwl { p: usize, n: usize, pat: Seq<(f64, f64)>, repeat: f64, td: f64, idx: usize },
    Other(Element),
}
pub struct CV { pub name: Tx, pub elements: Seq<EV>, pub next: usize, pub vidx: usize, pub nodes: Map<Tx, usize>, pub instances: Seq<IV>, pub ports: usize, pub params: Seq<PV> }
pub struct GV { pub kind: Option<Kind>, pub GMIN: f64, pub TDEGC: f64, pub RELTOL: f64, pub VNTOL: f64, pub ABSTOL: f64, pub ITL1: usize, pub TSTART: f64, pub TSTOP: f64, pub TSTEP: f64,
    pub FS: f64, pub FT: f64, pub RMIN: f64, pub RMAX: f64, pub ITL3: usize, pub ITL4: usize, pub ckt_name: Tx, pub wavefile: Tx }
pub open spec fn xv(e: Expression) -> XV { match e { Expression::Literal(v) => XV::Lit(v), Expression::Identifier(s) => XV::Id(s@) } }
pub open spec fn oxv(e: Option<Expression>) -> Option<XV> { match e { Some(x) => Some(xv(x)), None => None } }
pub open spec fn pv(p: Parameter) -> PV { PV { name: p.name@, defval: oxv(p.defval), expr: oxv(p.expr), value: p.value } }
pub open spec fn pvs(v: Seq<Parameter>) -> Seq<PV> { v.map_values(|p: Parameter| pv(p)) }
pub open spec fn iv(i: Instance) -> IV { IV { name: i.name@, subckt: i.subckt@, conns: i.conns@, params: pvs(i.params@) } }
pub open spec fn ivs(v: Seq<Instance>) -> Seq<IV> { v.map_values(|p: Instance| iv(p)) }
pub open spec fn ev(e: Element) -> EV {
    match e {
        Element::I(s) => EV::I { p: s.p, n: s.n, v: s.value },
        Element::Isin(s) => ev_isin(s),
        Element::V(s) => EV::V { p: s.p, n: s.n, v: s.value, idx: s.idx },
        Element::Vsin(s) => ev_vsin(s),
        Element::Vpwl(s) => ev_vpwl(s),
        e => EV::Other(e),
    }
}
pub open spec fn ev_isin(s: CurrentSourceSine) -> EV { EV::Isin { p: s.p, n: s.n, vo: s.vo, va: s.va, f: s.freq } }
pub open spec fn ev_vsin(s: VoltageSourceSine) -> EV { EV::Vsin { p: s.p, n: s.n, vo: s.vo, va: s.va, f: s.freq, idx: s.idx } }
pub open spec fn ev_vpwl(s: VoltageSourcePwl) -> EV { EV::Vpwl { p: s.p, n: s.n, pat: s.pat@, repeat: s.repeat, td: s.t_delay, idx: s.idx } }
pub open spec fn evs(v: Seq<Element>) -> Seq<EV> { v.map_values(|p: Element| ev(p)) }
pub open spec fn cv(c: Circuit) -> CV {
    CV { name: c.name@, elements: evs(c.elements@), next: c.nid_next, vidx: c.v_idx_next, nodes: smap(c.nodes), instances: ivs(c.instances@), ports: c.num_ports, params: pvs(c.params@) }
}
pub open spec fn cvs(v: Seq<Circuit>) -> Seq<CV> { v.map_values(|p: Circuit| cv(p)) }
pub open spec fn gv(g: Configuration) -> GV {
    GV { kind: g.kind, GMIN: g.GMIN, TDEGC: g.TDEGC, RELTOL: g.RELTOL, VNTOL: g.VNTOL, ABSTOL: g.ABSTOL, ITL1: g.ITL1, TSTART: g.TSTART, TSTOP: g.TSTOP, TSTEP: g.TSTEP,
        FS: g.FS, FT: g.FT, RMIN: g.RMIN, RMAX: g.RMAX, ITL3: g.ITL3, ITL4: g.ITL4, ckt_name: g.ckt_name@, wavefile: g.wavefile@ }
}
// a reader between two lines: what it holds; inside .control, inside .subckt, inside the library section asked for, that section seen to its end
pub struct St { pub cs: Seq<CV>, pub c: int, pub cfg: GV, pub err: bool, pub ctl: bool, pub sub: bool, pub inl: bool, pub done: bool }
pub open spec fn st_of(r: Reader, ctl: bool, sub: bool, inl: bool, done: bool) -> St { St { cs: cvs(r.ckts@), c: r.c as int, cfg: gv(r.cfg), err: r.there_are_errors, ctl, sub, inl, done } }
// the circuits are sound: node names without gaps, shown names their own, branch numbers fewer than elements
pub open spec fn ck_ok(c: Circuit) -> bool { nodes_ok(c) && lut_own(c) && c.v_idx_next <= c.elements.len() }
pub open spec fn rd_ok(r: Reader) -> bool { r.c < r.ckts.len() && forall|i: int| 0 <= i < r.ckts.len() ==> ck_ok(#[trigger] r.ckts[i]) }

pub axiom fn ax_vec_len(v: Vec<Element>) ensures v.len() < usize::MAX / 2;

// ---- nodes
pub open spec fn known(c: CV, s: Tx) -> bool { is_gnd(s) || c.nodes.dom().contains(s) }
#[verifier::opaque] pub open spec fn nid(c: CV, s: Tx) -> usize { if is_gnd(s) { 0 } else if c.nodes.dom().contains(s) { c.nodes[s] } else { c.next } }
#[verifier::opaque] pub open spec fn with_node(c: CV, s: Tx) -> CV { if known(c, s) { c } else { CV { nodes: c.nodes.insert(s, c.next), next: (c.next + 1) as usize, ..c } } }
pub open spec fn with_nodes(c: CV, l: Seq<Tx>) -> CV decreases l.len()
{ if l.len() == 0 { c } else { with_node(with_nodes(c, l.drop_last()), l.last()) } }
pub open spec fn nids(c: CV, l: Seq<Tx>) -> Seq<usize> decreases l.len()
{ if l.len() == 0 { Seq::empty() } else { nids(c, l.drop_last()).push(nid(with_nodes(c, l.drop_last()), l.last())) } }
pub open spec fn nc(c: char) -> bool { c == '_' || '0' <= c <= '9' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub open spec fn name_ok(s: Tx) -> bool { forall|i: int| 0 <= i < s.len() ==> nc(#[trigger] s[i]) }

// ---- values and parameters
pub open spec fn val(s: Tx) -> f64 { number(s)->0 }
pub open spec fn expr_ok(s: Tx) -> bool { if at(s, 0, '{') { braced(s) && nend(s) > nbeg(s) } else { proper(s) } }
pub open spec fn expr_of(s: Tx) -> XV { if at(s, 0, '{') { XV::Id(name_in(s)) } else { XV::Lit(val(s)) } }
pub open spec fn has_eq(s: Tx) -> bool { is_in(s, seq!['=']) }
pub open spec fn nv_ok(s: Tx) -> bool { pieces(s, '=').len() == 2 && expr_ok(pieces(s, '=')[1]) }
pub open spec fn ov(s: Tx) -> PV { PV { name: pieces(s, '=')[0], defval: None, expr: Some(expr_of(pieces(s, '=')[1])), value: None } }
pub open spec fn dflt(s: Tx) -> PV { PV { name: pieces(s, '=')[0], defval: Some(expr_of(pieces(s, '=')[1])), expr: None, value: None } }

// ---- devices: nodes, then parameters numbered from 0
pub open spec fn dev_ok(b: Seq<Tx>, np: int, mp: int) -> bool {
    b.len() >= 1 + np + mp && (forall|i: int| 1 <= i < 1 + np ==> name_ok(#[trigger] b[i])) && (forall|i: int| 1 + np <= i < b.len() ==> expr_ok(#[trigger] b[i]))
}
pub open spec fn dev_par(s: Tx, k: int) -> PV { PV { name: "/param"@ + dec_text(k), defval: None, expr: Some(expr_of(s)), value: None } }
pub open spec fn dev_pars(b: Seq<Tx>, np: int, k: int) -> Seq<PV> { Seq::new(k as nat, |i: int| dev_par(b[1 + np + i], i)) }
pub open spec fn dev(c: CV, b: Seq<Tx>, np: int) -> IV { IV { name: b[0], subckt: "/device"@, conns: nids(c, b.subrange(1, 1 + np)), params: dev_pars(b, np, b.len() - 1 - np) } }

// ---- subcircuit instances: nodes, the subcircuit's name, overrides
pub open spec fn sub_at(b: Seq<Tx>, n: int) -> int decreases n { if n <= 0 { 0 } else if has_eq(b[n - 1]) { sub_at(b, n - 1) } else { n - 1 } }
pub open spec fn inst_ok(b: Seq<Tx>) -> bool { let k = sub_at(b, b.len() as int); k >= 1 && forall|i: int| k < i < b.len() ==> nv_ok(#[trigger] b[i]) }
pub open spec fn ovs(b: Seq<Tx>, k: int) -> Seq<PV> decreases b.len() - k { if k >= b.len() { Seq::empty() } else { ovs(b, k + 1).push(ov(b[k])) } }
pub open spec fn inst(c: CV, b: Seq<Tx>) -> IV {
    let k = sub_at(b, b.len() as int);
    IV { name: b[0], subckt: b[k], conns: nids(c, b.subrange(1, k)), params: ovs(b, k + 1) }
}

// ---- SIN and PWL
pub open spec fn spaced(l: Seq<Tx>) -> Tx decreases l.len() { if l.len() == 0 { Seq::empty() } else { spaced(l.drop_last()) + l.last() + seq![' '] } }
pub open spec fn without(s: Tx, w: Tx) -> Tx { replaced(replaced(replaced(s, w, Seq::empty()), seq!['('], Seq::empty()), seq![')'], Seq::empty()) }
pub open spec fn sargs(b: Seq<Tx>) -> Seq<Tx> { words(without(spaced(b.subrange(3, b.len() as int)), "SIN"@)) }
pub open spec fn sin_ok(b: Seq<Tx>) -> bool { b.len() > 3 && name_ok(b[1]) && name_ok(b[2]) && sargs(b).len() == 3 && proper(sargs(b)[0]) && proper(sargs(b)[1]) && proper(sargs(b)[2]) }
pub open spec fn opts_at(b: Seq<Tx>, n: int) -> int decreases n { if n <= 0 { 0 } else if has_eq(b[n - 1]) { opts_at(b, n - 1) } else { n } }
pub open spec fn pargs(b: Seq<Tx>) -> Seq<Tx> { pieces(without(spaced(b.subrange(3, opts_at(b, b.len() as int))), "PWL"@), ',') }
pub open spec fn opt_ok(s: Tx) -> bool { nv_ok(s) && (pieces(s, '=')[0] == "r"@ || pieces(s, '=')[0] == "td"@) && !at(pieces(s, '=')[1], 0, '{') }
pub open spec fn opt(b: Seq<Tx>, k: int, name: Tx, d: f64) -> f64 decreases b.len() - k
{ if k >= b.len() { d } else if pieces(b[k], '=')[0] == name { val(pieces(b[k], '=')[1]) } else { opt(b, k + 1, name, d) } }
pub open spec fn pwl_ok(b: Seq<Tx>) -> bool {
    let k = opts_at(b, b.len() as int);
    &&& k > 3 && name_ok(b[1]) && name_ok(b[2])
    &&& forall|i: int| k <= i < b.len() ==> opt_ok(#[trigger] b[i])
    &&& pargs(b).len() % 2 == 0
    &&& forall|i: int| 0 <= i < pargs(b).len() ==> proper(trim(#[trigger] pargs(b)[i]))
}
pub open spec fn points(a: Seq<Tx>, n: int) -> Seq<(f64, f64)> { Seq::new(n as nat, |i: int| (val(trim(a[2 * i])), val(trim(a[2 * i + 1])))) }
pub open spec fn pwl(c: CV, b: Seq<Tx>) -> EV {
    let k = opts_at(b, b.len() as int);
    EV::Vpwl { p: nid(c, b[1]), n: nid(with_node(c, b[1]), b[2]), pat: points(pargs(b), pargs(b).len() as int / 2), repeat: opt(b, k, "r"@, num(-1real)), td: opt(b, k, "td"@, num(0real)), idx: 0 }
}

// ---- lines
pub open spec fn bits(line: Tx) -> Seq<Tx> { words(pieces(line, ';')[0]) }
pub open spec fn pre(s: Tx, c: char) -> bool { is_pre(s, seq![c]) }
pub open spec fn cur(s: St) -> CV { s.cs[s.c] }
#[verifier::opaque] pub open spec fn upd(s: St, c: CV) -> St { St { cs: s.cs.update(s.c, c), ..s } }
pub open spec fn el_added(c: CV, e: EV) -> CV { CV { elements: c.elements.push(e), ..c } }
pub open spec fn v_added(c: CV, e: EV) -> CV {
    let e2 = match e {
        EV::V { p, n, v, idx } => EV::V { p, n, v, idx: c.vidx },
        EV::Vsin { p, n, vo, va, f, idx } => EV::Vsin { p, n, vo, va, f, idx: c.vidx },
        EV::Vpwl { p, n, pat, repeat, td, idx } => EV::Vpwl { p, n, pat, repeat, td, idx: c.vidx },
        e => e,
    };
    CV { elements: c.elements.push(e2), vidx: (c.vidx + 1) as usize, ..c }
}
pub open spec fn in_added(c: CV, i: IV) -> CV { CV { instances: c.instances.push(i), ..c } }
// comment and blank lines, and lines outside of the section asked for, mean nothing
pub open spec fn void(b: Seq<Tx>) -> bool { b.len() == 0 || pre(b[0], '*') }
pub open spec fn outside(s: St, lib: Option<Tx>) -> bool { lib is Some && !s.inl }
pub open spec fn opens(b: Seq<Tx>, name: Tx) -> bool { b.len() == 2 && b[0] == ".lib"@ && b[1] == name }
// control commands
// below the directory waves: an absolute name of the deck is taken from the root on
pub open spec fn wave(g: GV, f: Tx) -> Tx { pjoin(pjoin("waves"@, strip_pre(g.ckt_name, seq!['/'])), f) }
pub open spec fn opt_name(s: Tx) -> bool { s == "ABSTOL"@ || s == "RELTOL"@ || s == "RMAX"@ }
pub open spec fn option_ok(b: Seq<Tx>) -> bool { b.len() >= 4 && b[2] == "="@ && opt_name(b[1]) && proper(b[3]) }
// values that can be read, well-formed or not
pub open spec fn opt_fits(b: Seq<Tx>) -> bool { b.len() >= 4 && b[2] == "="@ && opt_name(b[1]) && number(b[3]) is Some }
pub open spec fn ctl_fits(b: Seq<Tx>) -> bool {
    if b[0] == "tran"@ { b.len() >= 3 && number(b[1]) is Some && number(b[2]) is Some && (b.len() > 3 ==> number(b[3]) is Some) }
    else if b[0] == "option"@ { opt_fits(b) }
    else { b[0] == "op"@ || b[0] == ".endc"@ }
}
pub open spec fn ctl_ok(g: GV, b: Seq<Tx>) -> bool {
    if b[0] == "op"@ { utf8(wave(g, "dc.dat"@)) }
    else if b[0] == "tran"@ { utf8(wave(g, "tran.dat"@)) && b.len() >= 3 && proper(b[1]) && proper(b[2]) && (b.len() > 3 ==> proper(b[3])) }
    else if b[0] == "option"@ { option_ok(b) }
    else { b[0] == ".endc"@ }
}
pub open spec fn ctl_act(g: GV, b: Seq<Tx>) -> GV {
    if b[0] == "op"@ { GV { kind: Some(Kind::DcOperatingPoint), wavefile: wave(g, "dc.dat"@), ..g } }
    else if b[0] == "tran"@ { GV { kind: Some(Kind::Transient), wavefile: wave(g, "tran.dat"@), TSTEP: val(b[1]), TSTOP: val(b[2]), TSTART: if b.len() > 3 { val(b[3]) } else { g.TSTART }, ..g } }
    else if b[0] == "option"@ { opt_act(g, b) }
    else { g }
}
pub open spec fn opt_act(g: GV, b: Seq<Tx>) -> GV {
    if b[1] == "ABSTOL"@ { GV { ABSTOL: val(b[3]), ..g } } else if b[1] == "RELTOL"@ { GV { RELTOL: val(b[3]), ..g } } else { GV { RMAX: val(b[3]), ..g } }
}
// element lines: kind by first letter
pub open spec fn src_ok(b: Seq<Tx>) -> bool {
    b.len() >= 4 && name_ok(b[1]) && name_ok(b[2]) &&
    if b.len() == 4 { proper(b[3]) } else if pre(b[0], 'I') { is_pre(b[3], "SIN"@) && sin_ok(b) }
    else if is_pre(b[3], "SIN("@) { sin_ok(b) } else { is_pre(b[3], "PWL("@) && pwl_ok(b) }
}
pub open spec fn two(c: CV, b: Seq<Tx>) -> CV { with_node(with_node(c, b[1]), b[2]) }
pub open spec fn i_src(c: CV, b: Seq<Tx>) -> EV {
    let p = nid(c, b[1]);
    let n = nid(with_node(c, b[1]), b[2]);
    if b.len() == 4 { EV::I { p, n, v: val(b[3]) } }
    else { EV::Isin { p, n, vo: val(sargs(b)[0]), va: val(sargs(b)[1]), f: val(sargs(b)[2]) } }
}
pub open spec fn v_src(c: CV, b: Seq<Tx>) -> EV {
    let p = nid(c, b[1]);
    let n = nid(with_node(c, b[1]), b[2]);
    if b.len() == 4 { EV::V { p, n, v: val(b[3]), idx: 0 } }
    else if is_pre(b[3], "SIN("@) { EV::Vsin { p, n, vo: val(sargs(b)[0]), va: val(sargs(b)[1]), f: val(sargs(b)[2]), idx: 0 } }
    else { pwl(c, b) }
}
pub open spec fn n_ports(b: Seq<Tx>) -> int { if pre(b[0], 'E') || pre(b[0], 'G') { 4 } else { 2 } }
pub open spec fn n_vals(b: Seq<Tx>) -> int { if pre(b[0], 'D') { 0 } else { 1 } }
pub open spec fn is_dev(b: Seq<Tx>) -> bool { pre(b[0], 'R') || pre(b[0], 'C') || pre(b[0], 'D') || pre(b[0], 'E') || pre(b[0], 'G') }
pub open spec fn is_el(b: Seq<Tx>) -> bool { pre(b[0], 'I') || pre(b[0], 'V') || is_dev(b) || pre(b[0], 'X') }
#[verifier::opaque] pub open spec fn el_ok(b: Seq<Tx>) -> bool {
    if pre(b[0], 'I') || pre(b[0], 'V') { src_ok(b) } else if pre(b[0], 'X') { inst_ok(b) } else { is_dev(b) && dev_ok(b, n_ports(b), n_vals(b)) }
}
#[verifier::opaque] pub open spec fn el_act(c: CV, b: Seq<Tx>) -> CV {
    if pre(b[0], 'I') { el_added(two(c, b), i_src(c, b)) }
    else if pre(b[0], 'V') { v_added(two(c, b), v_src(c, b)) }
    else if pre(b[0], 'X') { in_added(with_nodes(c, b.subrange(1, sub_at(b, b.len() as int))), inst(c, b)) }
    else { in_added(with_nodes(c, b.subrange(1, 1 + n_ports(b))), dev(c, b, n_ports(b))) }
}
// subcircuits
pub open spec fn new_cv(name: Tx) -> CV { CV { name, elements: Seq::empty(), next: 1, vidx: 0, nodes: Map::<Tx, usize>::empty().insert("gnd"@, 0usize), instances: Seq::empty(), ports: 0, params: Seq::empty() } }
pub open spec fn sub_ok(b: Seq<Tx>) -> bool { b.len() >= 2 && forall|i: int| 2 <= i < b.len() && has_eq(#[trigger] b[i]) ==> nv_ok(b[i]) }
pub open spec fn n_conn(b: Seq<Tx>, k: int) -> int decreases k { if k <= 2 { 0 } else { n_conn(b, k - 1) + if has_eq(b[k - 1]) { 0int } else { 1int } } }
pub open spec fn sub_cv(b: Seq<Tx>, k: int) -> CV decreases k {
    if k <= 2 { new_cv(b[1]) }
    else if has_eq(b[k - 1]) { let c = sub_cv(b, k - 1); CV { params: c.params.push(dflt(b[k - 1])), ..c } }
    else { with_node(sub_cv(b, k - 1), b[k - 1]) }
}
pub proof fn lemma_sub_cv(cs: Seq<CV>, b: Seq<Tx>, k: int)
    requires 2 < k <= b.len()
    ensures ({ let c = sub_cv(b, k - 1); sub_cv(b, k) == if has_eq(b[k - 1]) { CV { params: c.params.push(dflt(b[k - 1])), ..c } } else if known(c, b[k - 1]) { c } else { CV { nodes: c.nodes.insert(b[k - 1], c.next), next: (c.next + 1) as usize, ..c } } }),
      n_conn(b, k) == n_conn(b, k - 1) + if has_eq(b[k - 1]) { 0int } else { 1int },
      forall|x: CV| cs.push(sub_cv(b, k - 1)).update(cs.len() as int, x) == #[trigger] cs.push(x),
{
    reveal(with_node);
    assert forall|x: CV| cs.push(sub_cv(b, k - 1)).update(cs.len() as int, x) == #[trigger] cs.push(x) by { assert(cs.push(sub_cv(b, k - 1)).update(cs.len() as int, x) =~= cs.push(x)); }
}
pub open spec fn sub_done(b: Seq<Tx>) -> CV { CV { ports: n_conn(b, b.len() as int) as usize, ..sub_cv(b, b.len() as int) } }
// dot lines (.lib apart)
pub open spec fn dot_ok(s: St, b: Seq<Tx>) -> bool {
    if b[0] == ".ends"@ { s.sub } else if b[0] == ".subckt"@ { s.c == 0 && sub_ok(b) } else if b[0] == ".endl"@ { s.inl } else { b[0] == ".control"@ }
}
pub open spec fn dot_act(s: St, b: Seq<Tx>) -> St {
    if b[0] == ".ends"@ { St { sub: false, c: 0, ..s } }
    else if b[0] == ".subckt"@ { St { cs: s.cs.push(sub_done(b)), c: s.cs.len() as int, sub: true, ..s } }
    else if b[0] == ".endl"@ { St { inl: false, done: true, ..s } }
    else { St { ctl: true, ..s } }
}
pub open spec fn ctl_done(s: St, b: Seq<Tx>) -> St { St { cfg: ctl_act(s.cfg, b), ctl: b[0] != ".endc"@, ..s } }
// one line, .lib imports apart
pub open spec fn ok0(s: St, lib: Option<Tx>, b: Seq<Tx>) -> bool {
    if void(b) || outside(s, lib) { true } else if s.ctl { ctl_ok(s.cfg, b) } else if pre(b[0], '.') { dot_ok(s, b) } else { el_ok(b) }
}
pub open spec fn act0(s: St, lib: Option<Tx>, b: Seq<Tx>) -> St {
    if void(b) { s } else if outside(s, lib) { if opens(b, lib->0) { St { inl: true, ..s } } else { s } }
    else if s.ctl { ctl_done(s, b) }
    else if pre(b[0], '.') { dot_act(s, b) } else { upd(s, el_act(cur(s), b)) }
}
// a section of a library: every line after the first
#[verifier::opaque] pub open spec fn runl(s: St, ls: Seq<Option<Tx>>, i: int, name: Tx) -> Option<St> decreases ls.len() - i
{
    if i >= ls.len() || i < 0 { Some(s) }
    else if ls[i] is None { None }
    else { let b = bits(ls[i]->0); if !imports(s, Some(name), b) && ok0(s, Some(name), b) { runl(act0(s, Some(name), b), ls, i + 1, name) } else { None } }
}
pub open spec fn entering(s: St) -> St { St { ctl: false, sub: false, inl: false, done: false, ..s } }
pub open spec fn leaving(t: St, s: St) -> St { St { ctl: s.ctl, sub: s.sub, inl: s.inl, done: s.done, ..t } }
#[verifier::opaque] pub open spec fn libres(s: St, path: Tx, name: Tx) -> Option<St> {
    match file_lines(path) {
        None => None,
        Some(ls) => match runl(entering(s), ls, 1, name) { Some(t) => if t.done && !t.inl && t.c == s.c { Some(leaving(t, s)) } else { None }, None => None },
    }
}
pub open spec fn imports(s: St, lib: Option<Tx>, b: Seq<Tx>) -> bool { !void(b) && !outside(s, lib) && !s.ctl && b[0] == ".lib"@ }
pub open spec fn lib_path(path: Tx, b: Seq<Tx>) -> Tx { pjoin(pdir(path)->0, b[1]) }
pub open spec fn ok(s: St, path: Tx, lib: Option<Tx>, b: Seq<Tx>) -> bool {
    if imports(s, lib, b) { lib is None && b.len() == 3 && pdir(path) is Some && libres(s, lib_path(path, b), b[2]) is Some } else { ok0(s, lib, b) }
}
pub open spec fn act(s: St, path: Tx, lib: Option<Tx>, b: Seq<Tx>) -> St { if imports(s, lib, b) { libres(s, lib_path(path, b), b[2])->0 } else { act0(s, lib, b) } }
// a deck: the lines from i on
#[verifier::opaque] pub open spec fn run_deck(s: St, ls: Seq<Option<Tx>>, i: int, path: Tx, lib: Option<Tx>) -> Option<St> decreases ls.len() - i
{
    if i >= ls.len() || i < 0 { Some(s) }
    else if ls[i] is None { None }
    else if ok(s, path, lib, bits(ls[i]->0)) { run_deck(act(s, path, lib, bits(ls[i]->0)), ls, i + 1, path, lib) } else { None }
}
// a line that is not well-formed: an error, or an element all the same; commands are ignored or an error
pub open spec fn loose(s: St, b: Seq<Tx>, t: St) -> bool {
    if s.ctl { t == s || ctl_fits(b) && t == ctl_done(s, b) }
    else if b[0] == ".subckt"@ { t == dot_act(s, b) }
    else { !void(b) && is_el(b) && t == upd(s, cur(t)) && one_more(cur(s), cur(t)) }
}
pub open spec fn one_more(c: CV, d: CV) -> bool {
    d.name == c.name && d.ports == c.ports && d.params == c.params
    && (d.elements.len() == c.elements.len() + 1 && d.elements.drop_last() == c.elements && d.instances == c.instances
        || d.instances.len() == c.instances.len() + 1 && d.instances.drop_last() == c.instances && d.elements == c.elements)
}
#[verifier::opaque] pub open spec fn rel0(s: St, lib: Option<Tx>, b: Seq<Tx>, t: St) -> bool { if !imports(s, lib, b) && ok0(s, lib, b) { t == act0(s, lib, b) } else { t.err || loose(s, b, t) } }
// any library, line by line
#[verifier::opaque] pub open spec fn tracel(tr: Seq<St>, ls: Seq<Option<Tx>>, name: Tx) -> bool {
    &&& tr.len() > 0
    &&& forall|k: int| 0 <= k < tr.len() - 1 ==> #[trigger] link0(tr, k, ls, name)
}
pub open spec fn link0(tr: Seq<St>, k: int, ls: Seq<Option<Tx>>, name: Tx) -> bool { k + 1 < ls.len() && ls[k + 1] is Some && rel0(tr[k], Some(name), bits(ls[k + 1]->0), tr[k + 1]) }
pub open spec fn n_states(ls: Seq<Option<Tx>>) -> int { if ls.len() == 0 { 1 } else { ls.len() as int } }
#[verifier::opaque] pub open spec fn library(s: St, path: Tx, name: Tx, t: St) -> bool {
    file_lines(path) is Some && exists|tr: Seq<St>| #[trigger] tracel(tr, file_lines(path)->0, name) && tr.len() == n_states(file_lines(path)->0) && tr[0] == entering(s) && tr.last().done && !tr.last().inl && t == leaving(tr.last(), s)
}
#[verifier::opaque] pub open spec fn rel(s: St, path: Tx, lib: Option<Tx>, b: Seq<Tx>, t: St) -> bool {
    (s.err ==> t.err) && if ok(s, path, lib, b) { t == act(s, path, lib, b) }
    else { t.err || loose(s, b, t) || (imports(s, lib, b) && lib is None && b.len() == 3 && library(s, lib_path(path, b), b[2], t)) }
}
#[verifier::opaque] pub open spec fn trace(tr: Seq<St>, ls: Seq<Option<Tx>>, path: Tx, lib: Option<Tx>) -> bool {
    forall|k: int| 0 <= k < tr.len() - 1 ==> #[trigger] link(tr, k, ls, path, lib)
}
pub open spec fn link(tr: Seq<St>, k: int, ls: Seq<Option<Tx>>, path: Tx, lib: Option<Tx>) -> bool { k + 1 < ls.len() && ls[k + 1] is Some && rel(tr[k], path, lib, bits(ls[k + 1]->0), tr[k + 1]) }
// each line of the file does what it says, or sets the error flag, or is one of the tolerated ones: none is lost
#[verifier::opaque] pub open spec fn read_as(s: St, path: Tx, m: ReadMode, t: St) -> bool {
    file_lines(path) is Some && exists|tr: Seq<St>| #[trigger] trace(tr, file_lines(path)->0, path, lib_of(m)) && tr.len() == n_states(file_lines(path)->0) && tr[0] == begun(entering(s), path, m)
        && (m is Library ==> tr.last().done && !tr.last().inl) && t == leaving(tr.last(), s)
}
pub open spec fn lib_of(m: ReadMode) -> Option<Tx> { match m { ReadMode::Library(s) => Some(s@), _ => None } }
// how a file is begun
pub open spec fn begun(s: St, path: Tx, m: ReadMode) -> St {
    if m is TopLevel { St { cfg: GV { ckt_name: path, ..s.cfg }, cs: s.cs.update(0, CV { name: path, ..s.cs[0] }), ..s } } else { s }
}
// how all of it is read, if every line of it is well-formed
#[verifier::opaque] pub open spec fn whole(s: St, path: Tx, m: ReadMode) -> Option<St> {
    match file_lines(path) {
        None => None,
        Some(ls) => match run_deck(begun(entering(s), path, m), ls, 1, path, lib_of(m)) {
            Some(t) => if (m is Library && !(t.done && !t.inl)) || (m is TopLevel && !utf8(path)) { None } else { Some(t) },
            None => None },
    }
}
pub open spec fn rst(r: Reader) -> St { st_of(r, false, false, false, false) }
// only node names of the current circuit (and the error flag) differ
#[verifier::opaque] pub open spec fn nodes_only(s: St, t: St) -> bool {
    t == (St { err: t.err, ..upd(s, cur(t)) }) && (s.err ==> t.err) && cur(t) == (CV { nodes: cur(t).nodes, next: cur(t).next, ..cur(s) })
}
pub proof fn lemma_upd(v: Seq<Circuit>, i: int, c: Circuit)
    requires 0 <= i < v.len()
    ensures cvs(v.update(i, c)) == cvs(v).update(i, cv(c))
{ assert(cvs(v.update(i, c)) =~= cvs(v).update(i, cv(c))); }
pub proof fn lemma_same(s: St) requires 0 <= s.c < s.cs.len() ensures upd(s, cur(s)) == s
{ reveal(upd); assert(s.cs.update(s.c, s.cs[s.c]) =~= s.cs); }
pub proof fn lemma_upd2(s: St, a: CV, b: CV) requires 0 <= s.c < s.cs.len() ensures upd(upd(s, a), b) == upd(s, b), cur(upd(s, a)) == a
{ reveal(upd); assert(s.cs.update(s.c, a).update(s.c, b) =~= s.cs.update(s.c, b)); }
pub proof fn lemma_lut(a: Circuit, b: Circuit)
    requires lut_own(a), b.node_id_lut == a.node_id_lut, forall|s: Tx| #[trigger] smap(a.nodes).dom().contains(s) ==> smap(b.nodes).dom().contains(s) && smap(b.nodes)[s] == smap(a.nodes)[s]
    ensures lut_own(b)
{}
// a node that is there
pub proof fn lemma_twice(c: CV, a: Tx, b: Tx)
    ensures with_node(with_node(with_node(with_node(c, a), b), a), b) == with_node(with_node(c, a), b),
      nid(with_node(with_node(c, a), b), a) == nid(c, a), nid(with_node(with_node(with_node(c, a), b), a), b) == nid(with_node(c, a), b),
{ reveal(with_node); reveal(nid); }
pub broadcast proof fn bl_evs(v: Seq<Element>, x: Element) ensures #[trigger] evs(v.push(x)) == evs(v).push(ev(x)) { assert(evs(v.push(x)) =~= evs(v).push(ev(x))); }
pub broadcast proof fn bl_ivs(v: Seq<Instance>, x: Instance) ensures #[trigger] ivs(v.push(x)) == ivs(v).push(iv(x)) { assert(ivs(v.push(x)) =~= ivs(v).push(iv(x))); }
pub broadcast proof fn bl_pvs(v: Seq<Parameter>, x: Parameter) ensures #[trigger] pvs(v.push(x)) == pvs(v).push(pv(x)) { assert(pvs(v.push(x)) =~= pvs(v).push(pv(x))); }
pub broadcast proof fn bl_cvs(v: Seq<Circuit>, x: Circuit) ensures #[trigger] cvs(v.push(x)) == cvs(v).push(cv(x)) { assert(cvs(v.push(x)) =~= cvs(v).push(cv(x))); }
pub broadcast proof fn bl_cvu(v: Seq<Circuit>, i: int, x: Circuit) requires 0 <= i < v.len() ensures #[trigger] cvs(v.update(i, x)) == cvs(v).update(i, cv(x)) { assert(cvs(v.update(i, x)) =~= cvs(v).update(i, cv(x))); }
pub broadcast proof fn bl_pv0() ensures #[trigger] pvs(Seq::<Parameter>::empty()) == Seq::<PV>::empty() { assert(pvs(Seq::<Parameter>::empty()) =~= Seq::<PV>::empty()); }
pub broadcast proof fn bl_nok(a: Circuit, b: Circuit)
    requires nodes_ok(a), a.nodes == b.nodes, a.nid_next == b.nid_next
    ensures #![trigger nodes_ok(a), nodes_ok(b)] nodes_ok(b)
{ assert forall|i: usize| 1 <= i < b.nid_next implies #[trigger] has_name(b, i) by { assert(has_name(a, i)); } }
pub broadcast proof fn bl_upd2(s: St, a: CV, b: CV) requires 0 <= s.c < s.cs.len() ensures #[trigger] upd(upd(s, a), b) == upd(s, b) { lemma_upd2(s, a, b); }
pub broadcast proof fn bl_cur(s: St, a: CV) requires 0 <= s.c < s.cs.len() ensures #[trigger] cur(upd(s, a)) == a { reveal(upd); }
pub broadcast proof fn bl_only(a: St, b: St, c: St)
    requires 0 <= a.c < a.cs.len(), #[trigger] nodes_only(a, b), #[trigger] nodes_only(b, c)
    ensures nodes_only(a, c)
{ reveal(upd); reveal(nodes_only); assert(c.cs =~= upd(a, cur(c)).cs); }
pub broadcast proof fn bl_self(a: St)
    requires 0 <= a.c < a.cs.len()
    ensures #[trigger] nodes_only(a, a)
{ reveal(upd); reveal(nodes_only); assert(a.cs =~= upd(a, cur(a)).cs); }
pub broadcast proof fn bl_err(a: St, b: St, c: St)
    requires 0 <= a.c < a.cs.len(), nodes_only(a, b), c == (St { err: true, ..b })
    ensures #![trigger nodes_only(a, b), nodes_only(a, c)] nodes_only(a, c)
{ reveal(upd); reveal(nodes_only); assert(c.cs =~= upd(a, cur(c)).cs); }
pub proof fn lemma_only(a: St, b: St)
    requires 0 <= a.c < a.cs.len(), b.cs == a.cs || b.cs == a.cs.update(a.c, b.cs[a.c]) && cur(b) == (CV { nodes: cur(b).nodes, next: cur(b).next, ..cur(a) }), b == (St { err: b.err, cs: b.cs, ..a }), a.err ==> b.err
    ensures nodes_only(a, b)
{ reveal(upd); reveal(nodes_only); assert(b.cs =~= upd(a, cur(b)).cs); }
pub proof fn lemma_err(a: St, b: St)
    requires 0 <= a.c < a.cs.len(), b == (St { err: true, ..a }) || b == a
    ensures nodes_only(a, b)
{ lemma_only(a, b); }
pub broadcast group group_deck { bl_upd2, bl_cur, bl_only, bl_self, bl_err,  bl_evs, bl_ivs, bl_pvs, bl_cvs, bl_cvu, bl_pv0, bl_nok }
pub proof fn lemma_spaced(b: Seq<Tx>, i: int, j: int)
    requires 0 <= i < j <= b.len()
    ensures spaced(b.subrange(i, j)) == spaced(b.subrange(i, j - 1)) + b[j - 1] + seq![' '], b.subrange(i, i) == Seq::<Tx>::empty()
{ assert(b.subrange(i, j).drop_last() =~= b.subrange(i, j - 1)); assert(b.subrange(i, i) =~= Seq::<Tx>::empty()); }
pub open spec fn option_aborts(b: Seq<Tx>) -> bool { b.len() >= 4 && b[2] == "="@ && !proper(b[3]) }

pub proof fn lemma_sr(v: Seq<&str>)
    ensures sr(v).len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] sr(v)[i] == v[i]@
{}

pub proof fn lemma_opts(b: Seq<Tx>, n: int)
    requires 0 <= n <= b.len()
    ensures 0 <= opts_at(b, n) <= n, forall|i: int| opts_at(b, n) <= i < n ==> has_eq(#[trigger] b[i]), opts_at(b, n) > 0 ==> !has_eq(b[opts_at(b, n) - 1])
    decreases n
{ if n > 0 && has_eq(b[n - 1]) { lemma_opts(b, n - 1); } }

pub proof fn lemma_sub(b: Seq<Tx>, n: int)
    requires 0 <= n <= b.len()
    ensures 0 <= sub_at(b, n), n > 0 ==> sub_at(b, n) < n, forall|i: int| sub_at(b, n) < i < n ==> has_eq(#[trigger] b[i])
    decreases n
{ if n > 0 && has_eq(b[n - 1]) { lemma_sub(b, n - 1); } }

// a library section, read by the same rules
pub proof fn lemma_lib(s: St, ls: Seq<Option<Tx>>, i: int, path: Tx, name: Tx)
    ensures run_deck(s, ls, i, path, Some(name)) == runl(s, ls, i, name)
    decreases ls.len() - i
{
    reveal(run_deck); reveal(runl); reveal_with_fuel(run_deck, 2); reveal_with_fuel(runl, 2);
    if 0 <= i < ls.len() && ls[i] is Some { let b = bits(ls[i]->0); if !imports(s, Some(name), b) && ok0(s, Some(name), b) { lemma_lib(act0(s, Some(name), b), ls, i + 1, path, name); } }
}
pub proof fn lemma_rel0(s: St, path: Tx, name: Tx, b: Seq<Tx>, t: St)
    requires rel(s, path, Some(name), b, t)
    ensures rel0(s, Some(name), b, t)
{ reveal(rel); reveal(rel0); }
pub proof fn lemma_tracel(tr: Seq<St>, ls: Seq<Option<Tx>>, path: Tx, name: Tx)
    requires trace(tr, ls, path, Some(name)), tr.len() > 0
    ensures tracel(tr, ls, name)
{
    reveal(trace); reveal(tracel);
    assert forall|k: int| 0 <= k < tr.len() - 1 implies #[trigger] link0(tr, k, ls, name) by { assert(link(tr, k, ls, path, Some(name))); lemma_rel0(tr[k], path, name, bits(ls[k + 1]->0), tr[k + 1]); }
}
pub proof fn lemma_library(s: St, path: Tx, m: ReadMode, t: St)
    requires m is Library, read_as(entering(s), path, m, t)
    ensures library(s, path, m->Library_0@, leaving(t, s))
{
    reveal(library); reveal(read_as);
    let ls = file_lines(path)->0;
    let tr = choose|tr: Seq<St>| #[trigger] trace(tr, ls, path, lib_of(m)) && tr.len() == n_states(ls) && tr[0] == begun(entering(entering(s)), path, m) && (m is Library ==> tr.last().done && !tr.last().inl) && t == leaving(tr.last(), entering(s));
    lemma_tracel(tr, ls, path, m->Library_0@);
}
pub proof fn lemma_push(tr: Seq<St>, ls: Seq<Option<Tx>>, path: Tx, lib: Option<Tx>, s: St)
    requires trace(tr, ls, path, lib), tr.len() > 0 ==> tr.len() < ls.len() && ls[tr.len() as int] is Some && rel(tr.last(), path, lib, bits(ls[tr.len() as int]->0), s)
    ensures trace(tr.push(s), ls, path, lib)
{
    reveal(trace);
    let t2 = tr.push(s);
    assert forall|k: int| 0 <= k < t2.len() - 1 implies #[trigger] link(t2, k, ls, path, lib) by { if k < tr.len() - 1 { assert(link(tr, k, ls, path, lib)); } }
}
pub proof fn lemma_step(s: St, ls: Seq<Option<Tx>>, i: int, path: Tx, lib: Option<Tx>)
    requires run_deck(s, ls, i, path, lib) is Some, 0 <= i < ls.len()
    ensures ls[i] is Some, ok(s, path, lib, bits(ls[i]->0)), run_deck(act(s, path, lib, bits(ls[i]->0)), ls, i + 1, path, lib) == run_deck(s, ls, i, path, lib)
{ reveal(run_deck); }
pub proof fn lemma_follow(s: St, path: Tx, lib: Option<Tx>, b: Seq<Tx>, t: St)
    requires rel(s, path, lib, b, t), ok(s, path, lib, b)
    ensures t == act(s, path, lib, b)
{ reveal(rel); }
#[verifier::opaque] pub open spec fn el_nodes(c: CV, b: Seq<Tx>) -> CV {
    if pre(b[0], 'I') || pre(b[0], 'V') { two(c, b) } else if pre(b[0], 'X') { with_nodes(c, b.subrange(1, sub_at(b, b.len() as int))) } else { with_nodes(c, b.subrange(1, 1 + n_ports(b))) }
}
// what the lines of each kind say
pub proof fn lemma_el_kinds(c: CV, b: Seq<Tx>)
    ensures
      ({ let w = b[0]; let g = w.len() > 0; let p = nid(c, b[1]); let n = nid(with_node(c, b[1]), b[2]); let ok = el_ok(b); let d = el_act(c, b); let m = el_nodes(c, b);
        &&& pre(w, 'I') == (g && w[0] == 'I') && pre(w, 'V') == (g && w[0] == 'V') && pre(w, 'R') == (g && w[0] == 'R') && pre(w, 'C') == (g && w[0] == 'C') && pre(w, 'D') == (g && w[0] == 'D')
        &&& pre(w, 'E') == (g && w[0] == 'E') && pre(w, 'G') == (g && w[0] == 'G') && pre(w, 'X') == (g && w[0] == 'X')
        &&& pre(w, 'I') || pre(w, 'V') ==> m == two(c, b) && (ok ==> b.len() >= 4 && name_ok(b[1]) && name_ok(b[2]) && (b.len() == 4 ==> proper(b[3])))
        &&& pre(w, 'I') && b.len() == 4 ==> d == el_added(m, EV::I { p, n, v: val(b[3]) })
        &&& pre(w, 'I') && b.len() != 4 ==> (ok ==> is_pre(b[3], "SIN"@) && sin_ok(b)) && d == el_added(m, EV::Isin { p, n, vo: val(sargs(b)[0]), va: val(sargs(b)[1]), f: val(sargs(b)[2]) })
        &&& pre(w, 'V') && b.len() == 4 ==> d == v_added(m, EV::V { p, n, v: val(b[3]), idx: 0 })
        &&& pre(w, 'V') && b.len() != 4 && is_pre(b[3], "SIN("@) ==> (ok ==> sin_ok(b)) && d == v_added(m, EV::Vsin { p, n, vo: val(sargs(b)[0]), va: val(sargs(b)[1]), f: val(sargs(b)[2]), idx: 0 })
        &&& pre(w, 'V') && b.len() != 4 && !is_pre(b[3], "SIN("@) ==> (ok ==> is_pre(b[3], "PWL("@) && pwl_ok(b)) && d == v_added(m, pwl(c, b))
        &&& pre(w, 'R') || pre(w, 'C') ==> (ok ==> dev_ok(b, 2, 1)) && m == with_nodes(c, b.subrange(1, 3)) && d == in_added(m, dev(c, b, 2))
        &&& pre(w, 'D') ==> (ok ==> dev_ok(b, 2, 0)) && m == with_nodes(c, b.subrange(1, 3)) && d == in_added(m, dev(c, b, 2))
        &&& pre(w, 'E') || pre(w, 'G') ==> (ok ==> dev_ok(b, 4, 1)) && m == with_nodes(c, b.subrange(1, 5)) && d == in_added(m, dev(c, b, 4))
        &&& pre(w, 'X') ==> (ok ==> inst_ok(b)) && m == with_nodes(c, b.subrange(1, sub_at(b, b.len() as int))) && d == in_added(m, inst(c, b))
        &&& ok ==> is_el(b)
      })
{
    reveal(el_ok); reveal(el_act); reveal(el_nodes);
    let w = b[0];
    lemma_pre(w, 'I'); lemma_pre(w, 'V'); lemma_pre(w, 'R'); lemma_pre(w, 'C'); lemma_pre(w, 'D'); lemma_pre(w, 'E'); lemma_pre(w, 'G'); lemma_pre(w, 'X');
}
// an element line: nodes first, then one element more
pub proof fn lemma_el(r0: Reader, ra: Reader, rb: Reader, s0: St, path: Tx, lib: Option<Tx>, b: Seq<Tx>)
    requires rd_ok(r0), nodes_only(rst(r0), rst(ra)), s0 == st_of(r0, s0.ctl, s0.sub, s0.inl, s0.done),
      rb == (Reader { ckts: rb.ckts, ..ra }), ra.c < ra.ckts.len(), rb.ckts@ == ra.ckts@.update(ra.c as int, rb.ckts@[ra.c as int]), one_more(cv(ra.ckts@[ra.c as int]), cv(rb.ckts@[ra.c as int])),
      !void(b), !outside(s0, lib), !s0.ctl, is_el(b), !pre(b[0], '.'),
      el_ok(b) ==> rst(ra) == upd(rst(r0), el_nodes(cur(s0), b)),
      el_ok(b) && cv(ra.ckts@[ra.c as int]) == el_nodes(cur(s0), b) ==> cv(rb.ckts@[ra.c as int]) == el_act(cur(s0), b)
    ensures rel(s0, path, lib, b, st_of(rb, s0.ctl, s0.sub, s0.inl, s0.done))
{
    reveal(rel); reveal(upd); reveal(nodes_only);
    let k = ra.c as int;
    assert(ra.c == r0.c && cvs(ra.ckts@) == rst(ra).cs && cvs(r0.ckts@) == s0.cs);
    assert(cvs(ra.ckts@)[k] == cv(ra.ckts@[k]));
    if el_ok(b) { assert(cvs(ra.ckts@)[k] == el_nodes(cur(s0), b)); }
    let t = st_of(rb, s0.ctl, s0.sub, s0.inl, s0.done);
    lemma_upd(ra.ckts@, k, rb.ckts@[k]);
    assert(t.cs =~= s0.cs.update(k, cv(rb.ckts@[k])));
    assert(cur(t) == cv(rb.ckts@[k]));
    assert(one_more(cur(s0), cur(t)));
    assert(t.c == s0.c && t.cfg == s0.cfg);
    assert(s0.err ==> t.err);
    reveal_strlit(".lib"); reveal_strlit(".subckt"); lemma_pre(b[0], '.');
    assert(b[0] != ".lib"@ && b[0] != ".subckt"@);
    if !t.err { assert(t == upd(s0, cur(t))); }
    if el_ok(b) { assert(t.err == s0.err); assert(t == act(s0, path, lib, b)); }
}
pub proof fn lemma_libres(s: St, path: Tx, m: ReadMode)
    requires m is Library, libres(s, path, m->Library_0@) is Some
    ensures whole(entering(s), path, m) is Some, leaving(whole(entering(s), path, m)->0, s) == libres(s, path, m->Library_0@)->0
{ reveal(libres); reveal(whole); lemma_lib(entering(s), file_lines(path)->0, 1, path, m->Library_0@); }
pub proof fn lemma_pre(s: Tx, c: char) ensures pre(s, c) == (s.len() > 0 && s[0] == c)
{ if s.len() > 0 && s[0] == c { assert(s.subrange(0, 1) =~= seq![c]); } if pre(s, c) { assert(s.subrange(0, 1)[0] == seq![c][0]); } }
pub proof fn lemma_kinds(s: Tx)
    ensures forall|c: char| #[trigger] pre(s, c) == (s.len() > 0 && s[0] == c),
      pre(s, '*') == (s.len() > 0 && s[0] == '*'), pre(s, '.') == (s.len() > 0 && s[0] == '.'),
      ".ends"@.len() == 5, ".ends"@[0] == '.', ".ends"@[4] == 's', ".endl"@.len() == 5, ".endl"@[0] == '.', ".endl"@[4] == 'l', ".endc"@.len() == 5, ".endc"@[0] == '.', ".endc"@[4] == 'c',
      ".subckt"@.len() == 7, ".subckt"@[0] == '.', ".control"@.len() == 8, ".control"@[0] == '.', ".lib"@.len() == 4, ".lib"@[0] == '.',
      "op"@.len() == 2, "tran"@.len() == 4, "tran"@[0] == 't', "option"@.len() == 6,
{
    assert forall|c: char| #[trigger] pre(s, c) == (s.len() > 0 && s[0] == c) by { lemma_pre(s, c); }
    reveal_strlit(".ends"); reveal_strlit(".endl"); reveal_strlit(".endc"); reveal_strlit(".subckt"); reveal_strlit(".control"); reveal_strlit(".lib"); reveal_strlit("op"); reveal_strlit("tran"); reveal_strlit("option");
}
pub proof fn lemma_pieces(s: Tx, c: char) ensures pieces(s, c).len() >= 1 decreases s.len() { if s.len() > 0 { lemma_pieces(s.drop_last(), c); } }
pub proof fn lemma_n_conn(b: Seq<Tx>, k: int) ensures 0 <= n_conn(b, k), k > 2 ==> n_conn(b, k) <= k - 2, k <= 2 ==> n_conn(b, k) == 0 decreases k { if k > 2 { lemma_n_conn(b, k - 1); } }
// an element more
pub broadcast proof fn bl_more(s: St, s1: St, c: CV)
    requires 0 <= s.c < s.cs.len(), nodes_only(s, s1), one_more(cur(s1), c)
    ensures #![trigger nodes_only(s, s1), one_more(cur(s1), c)] (s.err ==> s1.err), s1.err || upd(s1, c) == upd(s, c) && one_more(cur(s), c)
{ reveal(upd); reveal(nodes_only); assert(upd(s1, c).cs =~= upd(s, c).cs); }
pub broadcast proof fn bl_mono(s: St, t: St)
    requires 0 <= s.c < s.cs.len(), #[trigger] nodes_only(s, t)
    ensures s.err ==> t.err, t.c == s.c, t.cs.len() == s.cs.len(), t == (St { cs: t.cs, err: t.err, ..s })
{ reveal(upd); reveal(nodes_only); }
pub broadcast proof fn bl_more1(c: CV, e: EV) ensures one_more(c, #[trigger] el_added(c, e)) { assert(el_added(c, e).elements.drop_last() =~= c.elements); }
pub broadcast proof fn bl_more2(c: CV, e: EV) ensures one_more(c, #[trigger] v_added(c, e)) { assert(v_added(c, e).elements.drop_last() =~= c.elements); }
pub broadcast proof fn bl_more3(c: CV, e: IV) ensures one_more(c, #[trigger] in_added(c, e)) { assert(in_added(c, e).instances.drop_last() =~= c.instances); }
pub broadcast group group_lines { bl_new, bl_more, bl_mono, bl_more1, bl_more2, bl_more3 }
// a node added to the current circuit
pub proof fn lemma_add(r: Reader, t: Reader, s: Tx)
    requires rd_ok(r), rd_ok(t), t == (Reader { ckts: t.ckts, ..r }), t.ckts@ == r.ckts@.update(r.c as int, t.ckts@[r.c as int]), cv(t.ckts@[r.c as int]) == with_node(cv(r.ckts@[r.c as int]), s)
    ensures rst(t) == upd(rst(r), with_node(cur(rst(r)), s)), nodes_only(rst(r), rst(t))
{
    reveal(upd); reveal(with_node);
    lemma_upd(r.ckts@, r.c as int, t.ckts@[r.c as int]);
    lemma_only(rst(r), rst(t));
}
pub proof fn lemma_node(c: CV, s: Tx)
    ensures with_node(c, s) == (if known(c, s) { c } else { CV { nodes: c.nodes.insert(s, c.next), next: (c.next + 1) as usize, ..c } }),
      nid(c, s) == (if is_gnd(s) { 0 } else if c.nodes.dom().contains(s) { c.nodes[s] } else { c.next })
{ reveal(with_node); reveal(nid); }
pub proof fn lemma_begin(s: St, path: Tx, m: ReadMode)
    ensures trace(Seq::empty(), file_lines(path)->0, path, lib_of(m)),
      whole(s, path, m) is Some ==> file_lines(path) is Some && run_deck(begun(entering(s), path, m), file_lines(path)->0, 1, path, lib_of(m)) == whole(s, path, m) && (m is TopLevel ==> utf8(path))
        && (m is Library ==> whole(s, path, m)->0.done && !whole(s, path, m)->0.inl)
{ reveal(trace); reveal(whole); }
pub proof fn lemma_end(s: St, path: Tx, m: ReadMode, tr: Seq<St>, t: St)
    requires file_lines(path) is Some, tr.len() == n_states(file_lines(path)->0), tr[0] == begun(entering(s), path, m), trace(tr, file_lines(path)->0, path, lib_of(m)),
      m is Library ==> tr.last().done && !tr.last().inl, t == leaving(tr.last(), s)
    ensures read_as(s, path, m, t)
{ reveal(read_as); }
pub proof fn lemma_over(s: St, ls: Seq<Option<Tx>>, i: int, path: Tx, lib: Option<Tx>)
    requires i >= ls.len()
    ensures run_deck(s, ls, i, path, lib) == Some(s)
{ reveal(run_deck); }
pub proof fn lemma_lib_facts(s: St)
    ensures forall|p: Tx, m: ReadMode| m is Library && libres(s, p, m->Library_0@) is Some ==> #[trigger] whole(entering(s), p, m) is Some && leaving(whole(entering(s), p, m)->0, s) == libres(s, p, m->Library_0@)->0,
      forall|p: Tx, m: ReadMode, t: St| m is Library && #[trigger] read_as(entering(s), p, m, t) ==> library(s, p, m->Library_0@, leaving(t, s))
{
    assert forall|p: Tx, m: ReadMode| m is Library && libres(s, p, m->Library_0@) is Some implies #[trigger] whole(entering(s), p, m) is Some && leaving(whole(entering(s), p, m)->0, s) == libres(s, p, m->Library_0@)->0 by { lemma_libres(s, p, m); }
    assert forall|p: Tx, m: ReadMode, t: St| m is Library && #[trigger] read_as(entering(s), p, m, t) implies library(s, p, m->Library_0@, leaving(t, s)) by { lemma_library(s, p, m, t); }
}
pub broadcast proof fn bl_new(c: Circuit)
    requires #[trigger] nodes_ok(c), c.nid_next == 1, c.v_idx_next == 0, c.elements.len() == 0, c.instances.len() == 0, c.params.len() == 0, c.num_ports == 0, smap(c.nodes) == Map::<Seq<char>, usize>::empty().insert("gnd"@, 0usize)
    ensures cv(c) == new_cv(c.name@)
{ assert(evs(c.elements@) =~= Seq::<EV>::empty()); assert(ivs(c.instances@) =~= Seq::<IV>::empty()); assert(pvs(c.params@) =~= Seq::<PV>::empty()); }

// ---- a new reader: one circuit, nothing in it, the documented defaults
pub open spec fn defaults() -> GV {
    GV { kind: None, GMIN: num(1real / 1000000000000real), TDEGC: num(27real), RELTOL: num(1real / 10000real), VNTOL: num(1real / 1000000real), ABSTOL: num(1real / 1000000000real), ITL1: 50,
        TSTART: num(0real), TSTOP: num(1real / 1000real), TSTEP: num(1real / 1000000real), FS: num(1real / 4real), FT: num(1real / 4real), RMIN: num(1real / 1000real), RMAX: num(5real), ITL3: 6, ITL4: 50,
        ckt_name: "Default_Circuit_Name"@, wavefile: "waves/default.dat"@ }
}
pub open spec fn fresh() -> St { St { cs: seq![new_cv("<toplevel>"@)], c: 0, cfg: defaults(), err: false, ctl: false, sub: false, inl: false, done: false } }

// ---- an import is its section, read in place
// lines i up to j, read at this point
pub open spec fn seg(s: St, ls: Seq<Option<Tx>>, i: int, j: int) -> Option<St> decreases j - i
{
    if i >= j { Some(s) }
    else { let b = bits(ls[i]->0); if !imports(s, None, b) && ok0(s, None, b) { seg(act0(s, None, b), ls, i + 1, j) } else { None } }
}
pub open spec fn is_endl(l: Option<Tx>) -> bool { let b = bits(l->0); b.len() > 0 && b[0] == ".endl"@ }
pub open spec fn opens_at(l: Option<Tx>, name: Tx) -> bool { let b = bits(l->0); !void(b) && opens(b, name) }
pub proof fn lemma_outside(s: St, ls: Seq<Option<Tx>>, i: int, a: int, name: Tx)
    requires !s.inl, 0 <= i <= a <= ls.len(), forall|k: int| i <= k < a ==> (#[trigger] ls[k]) is Some && !opens_at(ls[k], name)
    ensures runl(s, ls, i, name) == runl(s, ls, a, name)
    decreases a - i
{
    if i < a {
        reveal(runl);
        assert(ls[i] is Some && !opens_at(ls[i], name));
        lemma_outside(s, ls, i + 1, a, name);
        reveal_strlit(".lib");
    }
}
pub proof fn lemma_inside(s: St, ls: Seq<Option<Tx>>, i: int, j: int, name: Tx)
    requires !s.inl, 0 <= i <= j <= ls.len(), forall|k: int| i <= k < j ==> (#[trigger] ls[k]) is Some && !is_endl(ls[k])
    ensures runl(St { inl: true, ..s }, ls, i, name) == (match seg(s, ls, i, j) { Some(t) => runl(St { inl: true, ..t }, ls, j, name), None => None }),
      seg(s, ls, i, j) is Some ==> !seg(s, ls, i, j)->0.inl,
    decreases j - i
{
    if i < j {
        reveal(runl);
        let b = bits(ls[i]->0);
        assert(ls[i] is Some && !is_endl(ls[i]));
        if b.len() > 0 { lemma_pre(b[0], '*'); lemma_pre(b[0], '.'); reveal_strlit(".endl"); reveal_strlit(".lib"); }
        let s1 = St { inl: true, ..s };
        reveal(upd);
        assert(imports(s, None, b) == imports(s1, Some(name), b));
        assert(ok0(s, None, b) == ok0(s1, Some(name), b));
        let t = act0(s, None, b);
        assert(cur(s1) == cur(s));
        if ok0(s, None, b) && !imports(s, None, b) {
            assert(!t.inl);
            assert(act0(s1, Some(name), b) == (St { inl: true, ..t }));
            lemma_inside(t, ls, i + 1, j, name);
        }
    }
}
// section name at lines a..b of the file, and nowhere else
pub proof fn lemma_section(s: St, path: Tx, name: Tx, a: int, b: int)
    requires file_lines(path) is Some, ({ let ls = file_lines(path)->0;
        &&& 1 <= a < b < ls.len() && (forall|k: int| 1 <= k < ls.len() ==> (#[trigger] ls[k]) is Some)
        &&& (forall|k: int| 1 <= k < ls.len() && k != a ==> !opens_at(#[trigger] ls[k], name)) && opens_at(ls[a], name)
        &&& (forall|k: int| a < k < b ==> !is_endl(#[trigger] ls[k])) && is_endl(ls[b]) })
    ensures libres(s, path, name) == (match seg(entering(s), file_lines(path)->0, a + 1, b) { Some(t) => if !t.ctl && t.c == s.c { Some(leaving(t, s)) } else { None }, None => None })
{
    let ls = file_lines(path)->0;
    let e = entering(s);
    reveal(libres); reveal(runl);
    lemma_outside(e, ls, 1, a, name);
    reveal_strlit(".lib"); reveal_strlit(".endl"); reveal_strlit(".endc"); reveal_strlit("op"); reveal_strlit("tran"); reveal_strlit("option");
    reveal_strlit(".ends"); reveal_strlit(".subckt");
    let x = bits(ls[a]->0);
    let y = bits(ls[b]->0);
    lemma_pre(y[0], '*'); lemma_pre(y[0], '.');
    assert(".ends"@[4] != ".endl"@[4] && ".endc"@[4] != ".endl"@[4]);
    lemma_inside(e, ls, a + 1, b, name);
    match seg(e, ls, a + 1, b) {
        Some(t) => {
            let t1 = St { inl: true, ..t };
            if !t.ctl {
                let t2 = St { inl: false, done: true, ..t };
                assert(act0(t1, Some(name), y) == t2);
                lemma_outside(t2, ls, b + 1, ls.len() as int, name);
                assert(runl(t2, ls, ls.len() as int, name) == Some(t2));
            }
        }
        None => {}
    }
}
// ---- control commands touch settings only, and only those they name
pub proof fn lemma_control(s: St, lib: Option<Tx>, b: Seq<Tx>)
    requires s.ctl, !outside(s, lib)
    ensures ({ let t = act0(s, lib, b); t.cs == s.cs && t.c == s.c && t.err == s.err && t.sub == s.sub && t.inl == s.inl && t.done == s.done })
{}
pub proof fn lemma_not_control(s: St, lib: Option<Tx>, b: Seq<Tx>)
    requires !s.ctl
    ensures act0(s, lib, b).cfg == s.cfg
{ reveal(upd); }
pub broadcast proof fn bl_one(v: Seq<Circuit>) requires v.len() == 1 ensures #[trigger] cvs(v) == seq![cv(v[0])] { assert(cvs(v) =~= seq![cv(v[0])]); }
