// ---- numbers as text ----
pub open spec fn dg(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn sg(c: char) -> bool { c == '+' || c == '-' }
// the character at i, if there is one
pub open spec fn at(t: Seq<char>, i: int, c: char) -> bool { 0 <= i < t.len() && t[i] == c }
// where the digits from i on end
pub open spec fn run(t: Seq<char>, i: int) -> int decreases t.len() - i
{ if 0 <= i < t.len() && dg(t[i]) { run(t, i + 1) } else { i } }
// the position after an optional sign at i
pub open spec fn aft(t: Seq<char>, i: int) -> int { if 0 <= i < t.len() && sg(t[i]) { i + 1 } else { i } }
// [sign] digits [. digits]: ends of the digits and of the fraction
pub open spec fn iend(t: Seq<char>) -> int { run(t, aft(t, 0)) }
pub open spec fn mend(t: Seq<char>) -> int { if at(t, iend(t), '.') { run(t, iend(t) + 1) } else { iend(t) } }
pub open spec fn ndig(t: Seq<char>) -> int { iend(t) - aft(t, 0) + if at(t, iend(t), '.') { mend(t) - iend(t) - 1 } else { 0 } }
// ... e [sign] digits
pub open spec fn ebeg(t: Seq<char>) -> int { aft(t, mend(t) + 1) }
pub open spec fn eend(t: Seq<char>) -> int { run(t, ebeg(t)) }
// what it spells
pub open spec fn dec(t: Seq<char>, a: int, b: int) -> int decreases b - a
{ if b <= a { 0 } else { 10 * dec(t, a, b - 1) + (t[b - 1] as int - '0' as int) } }
pub open spec fn p10(n: int) -> real decreases if n < 0 { -n } else { n }
{ if n == 0 { 1real } else if n > 0 { 10real * p10(n - 1) } else { p10(n + 1) / 10real } }
pub open spec fn neg(t: Seq<char>, i: int, x: real) -> real { if at(t, i, '-') { -x } else { x } }
pub open spec fn mant(t: Seq<char>) -> real {
    neg(t, 0, dec(t, aft(t, 0), iend(t)) as real + if at(t, iend(t), '.') { dec(t, iend(t) + 1, mend(t)) as real * p10(iend(t) + 1 - mend(t)) } else { 0real })
}
pub open spec fn expo(t: Seq<char>) -> int { if at(t, mend(t), 'e') { if at(t, mend(t) + 1, '-') { -dec(t, ebeg(t), eend(t)) } else { dec(t, ebeg(t), eend(t)) } } else { 0 } }
pub open spec fn spelt(t: Seq<char>) -> real { mant(t) * p10(expo(t)) }
// the whole text is a number
pub open spec fn is_num(t: Seq<char>) -> bool {
    ndig(t) > 0 && if at(t, mend(t), 'e') { eend(t) > ebeg(t) && eend(t) == t.len() } else { mend(t) == t.len() }
}
pub open spec fn scale(c: char) -> real {
    if c == 'k' { 1000real } else if c == 'm' { 1real / 1000real } else if c == 'u' { 1real / 1000000real }
    else if c == 'n' { 1real / 1000000000real } else if c == 'p' { 1real / 1000000000000real } else { 1real }
}
pub open spec fn letter(c: char) -> bool { c == 'k' || c == 'm' || c == 'u' || c == 'n' || c == 'p' }
// the number a text starts with
pub open spec fn number(t: Seq<char>) -> Option<f64> {
    if ndig(t) == 0 { None }
    else if at(t, mend(t), 'e') { if eend(t) == ebeg(t) { None } else { Some(num(spelt(t.subrange(0, eend(t))))) } }
    else { Some(num(spelt(t.subrange(0, mend(t))) * if mend(t) < t.len() { scale(t[mend(t)]) } else { 1real })) }
}
// a text that must be read
pub open spec fn proper(t: Seq<char>) -> bool {
    iend(t) > aft(t, 0) && (at(t, iend(t), '.') ==> mend(t) > iend(t) + 1)
    && if at(t, mend(t), 'e') { eend(t) > ebeg(t) && eend(t) == t.len() } else { mend(t) == t.len() || letter(t[mend(t)]) }
}
// str::parse::<f64>, on the characters the reader hands to it (decimal digits, signs, point, lower-case e)
pub open spec fn plain(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> dg(#[trigger] t[i]) || sg(t[i]) || t[i] == '.' || t[i] == 'e' }
pub broadcast axiom fn ax_parse(t: Seq<char>) requires plain(t)
    ensures #[trigger] parsed_f64(t) == if is_num(t) { Some(num(spelt(t))) } else { None };
pub proof fn lemma_run(t: Seq<char>, i: int) requires 0 <= i <= t.len()
    ensures i <= run(t, i) <= t.len(), forall|j: int| i <= j < run(t, i) ==> dg(#[trigger] t[j]), run(t, i) < t.len() ==> !dg(t[run(t, i)])
    decreases t.len() - i
{ if i < t.len() && dg(t[i]) { lemma_run(t, i + 1); } }
// the digits end where they end
pub proof fn lemma_run_to(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= t.len(), forall|k: int| i <= k < j ==> dg(#[trigger] t[k]), j < t.len() ==> !dg(t[j])
    ensures run(t, i) == j
    decreases j - i
{ if i < j { lemma_run_to(t, i + 1, j); } }
pub open spec fn digs(t: Seq<char>, i: int, j: int) -> bool { 0 <= i <= j <= t.len() && forall|k: int| i <= k < j ==> dg(#[trigger] t[k]) }

// where the reader stands after the first p characters
pub open spec fn at_int(t: Seq<char>, p: int) -> bool { 1 <= p && digs(t, aft(t, 0), p) }
pub open spec fn at_frac(t: Seq<char>, p: int) -> bool { at(t, iend(t), '.') && digs(t, aft(t, 0), iend(t)) && digs(t, iend(t) + 1, p) }
pub open spec fn at_es(t: Seq<char>, p: int) -> bool { p >= 2 && at(t, p - 1, 'e') && mend(t) == p - 1 }
pub open spec fn at_exp(t: Seq<char>, p: int) -> bool { at(t, mend(t), 'e') && mend(t) >= 0 && mend(t) + 1 < p && digs(t, ebeg(t), p) }
pub proof fn lemma_ends(t: Seq<char>)
    ensures 0 <= aft(t, 0) <= iend(t) <= mend(t) <= t.len(), digs(t, aft(t, 0), iend(t)), iend(t) < t.len() ==> !dg(t[iend(t)]),
      at(t, iend(t), '.') ==> digs(t, iend(t) + 1, mend(t)), mend(t) < t.len() ==> !dg(t[mend(t)]),
      at(t, mend(t), 'e') ==> digs(t, ebeg(t), eend(t)) && (eend(t) < t.len() ==> !dg(t[eend(t)])) && mend(t) + 1 <= ebeg(t) <= eend(t) <= t.len()
{
    lemma_run(t, aft(t, 0));
    if at(t, iend(t), '.') { lemma_run(t, iend(t) + 1); }
    if at(t, mend(t), 'e') { lemma_run(t, ebeg(t)); }
}
// the text up to the end of the mantissa, and up to the end of the exponent
pub proof fn lemma_mant(t: Seq<char>)
    ensures is_num(t.subrange(0, mend(t))) == (ndig(t) > 0)
{
    let s = t.subrange(0, mend(t));
    lemma_ends(t);
    lemma_run_to(s, aft(s, 0), iend(t));
    if at(t, iend(t), '.') { lemma_run_to(s, iend(t) + 1, mend(t)); }
}
pub proof fn lemma_exp(t: Seq<char>)
    requires at(t, mend(t), 'e')
    ensures is_num(t.subrange(0, eend(t))) == (ndig(t) > 0 && eend(t) > ebeg(t))
{
    let s = t.subrange(0, eend(t));
    lemma_ends(t);
    lemma_run_to(s, aft(s, 0), iend(t));
    if at(t, iend(t), '.') { lemma_run_to(s, iend(t) + 1, mend(t)); }
    if eend(t) > ebeg(t) || ebeg(t) > mend(t) + 1 { }
    lemma_run_to(s, ebeg(s), eend(t));
}
// ---- {name} ----
pub open spec fn an(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
// where the blanks, and where the letters and digits from i on end
pub open spec fn wrun(t: Seq<char>, i: int) -> int decreases t.len() - i
{ if 0 <= i < t.len() && is_ws(t[i]) { wrun(t, i + 1) } else { i } }
pub open spec fn arun(t: Seq<char>, i: int) -> int decreases t.len() - i
{ if 0 <= i < t.len() && an(t[i]) { arun(t, i + 1) } else { i } }
pub open spec fn nbeg(t: Seq<char>) -> int { wrun(t, 1) }
pub open spec fn nend(t: Seq<char>) -> int { arun(t, nbeg(t)) }
pub open spec fn braced(t: Seq<char>) -> bool { at(t, 0, '{') && at(t, wrun(t, nend(t)), '}') }
pub open spec fn name_in(t: Seq<char>) -> Seq<char> { t.subrange(nbeg(t), nend(t)) }
pub open spec fn lit_of(e: Option<Expression>) -> Option<f64> { match e { Some(Expression::Literal(v)) => Some(v), _ => None } }
pub open spec fn id_of(e: Option<Expression>) -> Option<Seq<char>> { match e { Some(Expression::Identifier(v)) => Some(v@), _ => None } }
