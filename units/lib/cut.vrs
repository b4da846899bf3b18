// ---- lib/cut.vrs: cutting byte strings; what the segments of a path are
/// position of the first c in s, or its length
pub open spec fn first(s: Seq<u8>, c: u8) -> nat decreases s.len() {
    if s.len() == 0 || s[0] == c { 0 } else { 1 + first(s.skip(1), c) }
}
pub proof fn lemma_first(s: Seq<u8>, c: u8)
    ensures first(s, c) <= s.len(), first(s, c) < s.len() ==> s[first(s, c) as int] == c, forall|j: int| 0 <= j < first(s, c) ==> s[j] != c
    decreases s.len()
{
    if s.len() > 0 && s[0] != c { lemma_first(s.skip(1), c); assert forall|j: int| 0 <= j < first(s, c) implies s[j] != c by { if j > 0 { assert(s[j] == s.skip(1)[j - 1]); } } }
}
/// the parts of s between the c
pub open spec fn cut(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases s.len() via cut_ends {
    let n = first(s, c) as int;
    if n < s.len() { seq![s.take(n)] + cut(s.skip(n + 1), c) } else { seq![s] }
}
#[verifier::decreases_by] proof fn cut_ends(s: Seq<u8>, c: u8) { lemma_first(s, c); }
/// SPEC: a path without its first '/' and without one final '/'
pub open spec fn bare(b: Seq<u8>) -> Seq<u8> {
    let b = if b.len() > 0 && b[0] == 0x2f { b.skip(1) } else { b };
    if b.len() > 0 && b.last() == 0x2f { b.drop_last() } else { b }
}
/// SPEC: the segments of a path
pub open spec fn segments_of(b: Seq<u8>) -> Seq<Seq<u8>> { if bare(b).len() == 0 { Seq::empty() } else { cut(bare(b), 0x2f) } }
pub open spec fn views(s: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
