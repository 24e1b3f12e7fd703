@prelude strs maps io
@broadcast super::strs::group_strs
@type NodeId WaveWriter
@rawfile wave
@use group_cat
@fn wavewriter.rs WaveWriter::new
@panics
@ret r
@spec
  ensures r is Some, r->0.lut == lut, wtext(r->0) == Seq::<char>::empty(),
    r->0.file is Some ==> r->0.file->0.at() == filename@,
    // a file there is, wherever one can be
    writable(filename@) ==> r->0.file is Some
@endfn
@fn wavewriter.rs WaveWriter::header
@spec
  requires forall|i: usize| i < c_nodes ==> #[trigger] imap(*old(self).lut).dom().contains(i)
  ensures wsame(*old(self), *final(self)), final(self).file is Some ==> wtext(*final(self)) == wtext(*old(self)) + head_text(imap(*old(self).lut), c_nodes as int, c_vsrcs as int)
@loop 0
    invariant forall|i: usize| i < c_nodes ==> #[trigger] imap(*self.lut).dom().contains(i),
      *self == *old(self), names@ == "Time"@ + node_cols(imap(*self.lut), it0 as int)
@loop 1
    invariant *self == *old(self), names@ == "Time"@ + node_cols(imap(*self.lut), c_nodes as int) + branch_cols(it1 as int)
@loop 2
    invariant *self == *old(self), names@ == "Time"@ + node_cols(imap(*self.lut), c_nodes as int) + branch_cols(c_vsrcs as int) + "\n"@, units@ == "s"@ + times("\tV"@, it2 as int)
@loop 3
    invariant *self == *old(self), names@ == "Time"@ + node_cols(imap(*self.lut), c_nodes as int) + branch_cols(c_vsrcs as int) + "\n"@, units@ == "s"@ + times("\tV"@, c_nodes as int) + times("\tA"@, it3 as int)
@endfn
@fn wavewriter.rs WaveWriter::dump_vector
@spec
  ensures wsame(*old(self), *final(self)), final(self).file is Some ==> wtext(*final(self)) == wtext(*old(self)) + row(time, vars@)
@loop 0
    invariant line@ == row_to(time, vars@, it0 as int)
@endfn
