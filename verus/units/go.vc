@prelude f64s cellinv linalg strs mna dio srcs maps io
@broadcast super::f64s::group_f64
@type NodeId Element Diode Capacitor Circuit Engine Configuration Kind WaveWriter
@const GMIN
@rawfile dim elements branches companion engine nodes lists conv tran wave wavefile
@raw
// what a run of the selected analysis leaves behind
pub open spec fn ran(k: Kind, els: Seq<Element>, e: Engine, c: &Configuration, r: Statistics) -> bool {
    match k {
        Kind::DcOperatingPoint => r.kind is DcOperatingPoint && r.end == num(0real) && elaborated(&e, els) && dc_result(els, e.c_nodes as int, c, e.dc_op@, r.iterations),
        Kind::Transient => r.kind is Transient && elaborated(&e, els) && tran_result(els, e.c_nodes as int, c, e.dc_op@, r.end),
        Kind::DcSweep => false,
    }
}
pub open spec fn runs(k: Option<Kind>) -> bool { k is Some && !(k->0 is DcSweep) }
@assume_from dc Engine::dc_operating_point
@assume_from transient Engine::transient_analysis
@fn engine.rs Engine::go
@ret r
@spec
  requires ckt_ok(ckt), tran_cfg(cfg), all_named(ckt)
  ensures match r {
      Some(st) => runs(cfg.kind) && ran(cfg.kind->0, ckt.elements@, *final(self), cfg, st),
      None => !runs(cfg.kind) && *final(self) == *old(self),
    }
@endfn
@fn engine.rs Engine::dc
@ret r
@spec
  ensures match r { Some(x) => self.dc_op.len() > 0 && x@ == self.dc_op@, None => self.dc_op.len() == 0 }
@endfn
