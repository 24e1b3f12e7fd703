// the file the settings name, with nothing in it but the heading and the samples log
pub open spec fn wave_ok(w: WaveWriter, c: &Circuit, cfg: &Configuration, nc: int, nv: int, log: Seq<(f64, Seq<f64>)>) -> bool {
    &&& *w.lut == c.node_id_lut
    &&& writable(cfg.wavefile@) ==> w.file is Some
    &&& w.file is Some ==> w.file->0.at() == cfg.wavefile@ && wtext(w) == head_text(imap(c.node_id_lut), nc, nv) + rows(log)
}
