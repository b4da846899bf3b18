// ---- lib/bytes.vrs: cutting text, and percent-encoding
/// the percent-decoded form of s
pub uninterp spec fn pct(s: Seq<u8>) -> Seq<u8>;
/// url: percent_decode
#[verifier::external_body] pub fn percent_decode(s: &[u8]) -> (r: VIter<u8>) ensures r@ == pct(s@) { unimplemented!() }
impl<T> VIter<T> {
    /// std: collect
    #[verifier::external_body] pub fn vx_collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
/// at most n pieces; the last one is what is left
pub open spec fn cutn(s: Seq<u8>, c: u8, n: nat) -> Seq<Seq<u8>> decreases n {
    if n == 0 { Seq::empty() } else if n == 1 || first(s, c) >= s.len() { seq![s] } else { seq![s.take(first(s, c) as int)] + cutn(s.skip(first(s, c) as int + 1), c, (n - 1) as nat) }
}
/// all but the last of the n pieces are those of cut (the contracts of splitn say this as well)
pub open spec fn cutn_ok(s: Seq<u8>, c: u8, n: nat) -> bool {
    let (a, b) = (cutn(s, c, n), cut(s, c));
    a.len() == (if n < b.len() { n } else { b.len() }) && forall|i: int| 0 <= i < a.len() && i + 1 < n ==> a[i] == #[trigger] b[i]
}
pub proof fn lemma_cutn(s: Seq<u8>, c: u8, n: nat) ensures cutn_ok(s, c, n) decreases n {
    lemma_first(s, c);
    let k = first(s, c) as int;
    if n > 1 && k < s.len() {
        let t = s.skip(k + 1);
        lemma_cutn(t, c, (n - 1) as nat);
        assert forall|i: int| 0 <= i < cutn(s, c, n).len() && i + 1 < n implies cutn(s, c, n)[i] == #[trigger] cut(s, c)[i] by { if i > 0 { assert(cut(s, c)[i] == cut(t, c)[i - 1]); } }
    } else { lemma_one(s, c); }
}
pub proof fn lemma_one(s: Seq<u8>, c: u8) ensures cut(s, c).len() >= 1, decreases s.len() { lemma_first(s, c); }
pub trait VxBytes {
    spec fn b(&self) -> Seq<u8>;
    /// std: split at the bytes equal to c
    fn vx_split<'a>(&'a self, c: u8) -> (r: VIter<&'a [u8]>) ensures r@.len() == cut(self.b(), c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == cut(self.b(), c)[i];
    /// std: splitn at the bytes equal to c
    fn vx_splitn<'a>(&'a self, n: usize, c: u8) -> (r: VIter<&'a [u8]>) ensures r@.len() == cutn(self.b(), c, n as nat).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == cutn(self.b(), c, n as nat)[i], cutn_ok(self.b(), c, n as nat),
        n == 2 ==> cutn(self.b(), c, 2) == (if first(self.b(), c) < self.b().len() { seq![self.b().take(first(self.b(), c) as int), self.b().skip(first(self.b(), c) as int + 1)] } else { seq![self.b()] });
}
/// std: split at the bytes equal to c
impl VxBytes for [u8] { open spec fn b(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_splitn<'a>(&'a self, n: usize, c: u8) -> (r: VIter<&'a [u8]>) { unimplemented!() } #[verifier::external_body] fn vx_split<'a>(&'a self, c: u8) -> (r: VIter<&'a [u8]>) { unimplemented!() } }
/// std: split at the bytes equal to c
impl VxBytes for Vec<u8> { open spec fn b(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_splitn<'a>(&'a self, n: usize, c: u8) -> (r: VIter<&'a [u8]>) { unimplemented!() } #[verifier::external_body] fn vx_split<'a>(&'a self, c: u8) -> (r: VIter<&'a [u8]>) { unimplemented!() } }
pub trait VxExtend<T> { fn vx_extend(&mut self, i: VIter<T>); }
impl<T> VxExtend<T> for Vec<T> {
    /// std: extend
    #[verifier::external_body] fn vx_extend(&mut self, i: VIter<T>) ensures final(self)@ == old(self)@ + i@ { unimplemented!() }
}
pub uninterp spec fn text(s: &str) -> Seq<u8>;
impl Bytes for str { open spec fn bytes(&self) -> Seq<u8> { text(self) } }
#[verifier::external_body] pub broadcast proof fn axiom_str(s: &str) ensures utf8_ok(#[trigger] text(s)), text(s).len() <= isize::MAX {}
/// a place where text may be cut
pub open spec fn boundary(s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && (i == 0 || i == s.len() || !cont(s[i])) }
pub trait VxStr {
    spec fn t(&self) -> Seq<u8>;
    /// std: str::find, for an ASCII character
    fn vx_find(&self, c: char) -> (r: Option<usize>) requires (c as u32) < 0x80 ensures match r { Some(i) => i == first(self.t(), c as u8) && i < self.t().len(), None => first(self.t(), c as u8) == self.t().len() };
    /// std: str::rfind, for an ASCII character
    fn vx_rfind(&self, c: char) -> (r: Option<usize>) requires (c as u32) < 0x80 ensures match r { Some(i) => i < self.t().len() && self.t()[i as int] == c as u8 && (forall|j: int| i < j < self.t().len() ==> self.t()[j] != c as u8), None => first(self.t(), c as u8) == self.t().len() };
    /// std: str::splitn, for an ASCII character
    fn vx_splitn(&self, n: usize, c: char) -> (r: VIter<&str>) requires (c as u32) < 0x80 ensures r@.len() == cutn(self.t(), c as u8, n as nat).len(), forall|i: int| 0 <= i < r@.len() ==> text(#[trigger] r@[i]) == cutn(self.t(), c as u8, n as nat)[i], cutn_ok(self.t(), c as u8, n as nat),
        n == 2 ==> cutn(self.t(), c as u8, 2) == (if first(self.t(), c as u8) < self.t().len() { seq![self.t().take(first(self.t(), c as u8) as int), self.t().skip(first(self.t(), c as u8) as int + 1)] } else { seq![self.t()] });
    /// std: str::split_once, for an ASCII character
    fn vx_split_once(&self, c: char) -> (r: Option<(&str, &str)>) requires (c as u32) < 0x80 ensures match r { Some(p) => first(self.t(), c as u8) < self.t().len() && text(p.0) == self.t().take(first(self.t(), c as u8) as int) && text(p.1) == self.t().skip(first(self.t(), c as u8) as int + 1), None => first(self.t(), c as u8) == self.t().len() };
    /// std: str::as_bytes
    fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self.t();
    /// std: s[..n] panics elsewhere than at a boundary
    fn vx_to(&self, n: usize) -> (r: &str) requires boundary(self.t(), n as int) ensures text(r) == self.t().take(n as int);
    /// std: s[n..] panics elsewhere than at a boundary
    fn vx_from(&self, n: usize) -> (r: &str) requires boundary(self.t(), n as int) ensures text(r) == self.t().skip(n as int);
    /// std: s[m..n] panics elsewhere than at boundaries
    fn vx_range(&self, m: usize, n: usize) -> (r: &str) requires m <= n, boundary(self.t(), m as int), boundary(self.t(), n as int) ensures text(r) == self.t().subrange(m as int, n as int);
    /// std: s[..]
    fn vx_all(&self) -> (r: &str) ensures text(r) == self.t();
    /// std: is_empty
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.t().len() == 0);
}
/// std: str
impl VxStr for str {
    open spec fn t(&self) -> Seq<u8> { text(self) }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_splitn(&self, n: usize, c: char) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, n: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, n: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_range(&self, m: usize, n: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_all(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
/// after an ASCII byte comes no continuation byte
pub proof fn lemma_after_ascii(s: Seq<u8>, i: int)
    requires utf8_ok(s), 0 <= i < s.len(), s[i] < 0x80
    ensures boundary(s, i), boundary(s, i + 1)
    decreases s.len()
{
    reveal_with_fuel(utf8_ok, 2);
    let n = first_len(s) as int;
    if i < n { assert(i == 0); assert(n == 1); if s.len() > 1 { assert(first_len(s.skip(1)) > 0); assert(s.skip(1)[0] == s[1]); } }
    else { assert(s.skip(n)[i - n] == s[i]); lemma_after_ascii(s.skip(n), i - n); if i + 1 < s.len() { assert(s.skip(n)[i + 1 - n] == s[i + 1]); } }
}
