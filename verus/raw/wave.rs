// ---------------------------------------------------------------- the waveform file --
// concatenation, from the left
pub broadcast proof fn bl_cat(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] (a + (b + c)) == a + b + c
{ assert(a + (b + c) =~= a + b + c); }
pub broadcast proof fn bl_cat0(a: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + a) == a
{ assert(Seq::<char>::empty() + a =~= a); }
pub broadcast proof fn bl_cat1(a: Seq<char>)
    ensures #[trigger] (a + Seq::<char>::empty()) == a
{ assert(a + Seq::<char>::empty() =~= a); }
pub broadcast group group_cat { bl_cat, bl_cat0, bl_cat1 }
// the columns of the first k nodes, of the first k branches, and their units
pub open spec fn node_cols(lut: Map<usize, String>, k: int) -> Seq<char> decreases k
{ if k <= 0 { Seq::empty() } else { node_cols(lut, k - 1) + "\tv("@ + lut[(k - 1) as usize]@ + ")"@ } }
pub open spec fn branch_cols(k: int) -> Seq<char> decreases k
{ if k <= 0 { Seq::empty() } else { branch_cols(k - 1) + "\ti("@ + dec_text(k - 1) + ")"@ } }
pub open spec fn times(t: Seq<char>, k: int) -> Seq<char> decreases k
{ if k <= 0 { Seq::empty() } else { times(t, k - 1) + t } }
pub open spec fn head_text(lut: Map<usize, String>, nc: int, nv: int) -> Seq<char> {
    "Time"@ + node_cols(lut, nc) + branch_cols(nv) + "\n"@ + "s"@ + times("\tV"@, nc) + times("\tA"@, nv) + "\n"@
}
// one sample: its time and its first k values
pub open spec fn row_to(t: f64, x: Seq<f64>, k: int) -> Seq<char> decreases k
{ if k <= 0 { nine(t) } else { row_to(t, x, k - 1) + "\t"@ + nine(x[k - 1]) } }
pub open spec fn row(t: f64, x: Seq<f64>) -> Seq<char> { row_to(t, x, x.len() as int) + "\n"@ }
pub open spec fn rows(s: Seq<(f64, Seq<f64>)>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { rows(s.drop_last()) + row(s.last().0, s.last().1) } }
pub broadcast proof fn bl_rows(s: Seq<(f64, Seq<f64>)>, p: (f64, Seq<f64>))
    ensures #[trigger] rows(s.push(p)) == rows(s) + row(p.0, p.1)
{ assert(s.push(p).drop_last() =~= s); }
// what the writer has put into its file
pub open spec fn wtext(w: WaveWriter) -> Seq<char> { match w.file { Some(f) => f.content(), None => Seq::empty() } }
pub open spec fn wsame(a: WaveWriter, b: WaveWriter) -> bool {
    (a.file is Some) == (b.file is Some) && *a.lut == *b.lut && (a.file is Some ==> a.file->0.at() == b.file->0.at())
}
