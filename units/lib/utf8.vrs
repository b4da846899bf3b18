// ---- lib/utf8.vrs: well-formed UTF-8 (Unicode 3.9, table 3-7), byte order, the std string types as byte strings
pub open spec fn cont(x: u8) -> bool { 0x80 <= x <= 0xBF }
/// length of the well-formed sequence at the start of b, or 0
pub open spec fn first_len(b: Seq<u8>) -> nat {
    if b.len() >= 1 && b[0] <= 0x7F { 1 }
    else if b.len() >= 2 && 0xC2 <= b[0] <= 0xDF && cont(b[1]) { 2 }
    else if b.len() >= 3 && 0xE0 <= b[0] <= 0xEF && cont(b[1]) && cont(b[2]) && (b[0] == 0xE0 ==> b[1] >= 0xA0) && (b[0] == 0xED ==> b[1] <= 0x9F) { 3 }
    else if b.len() >= 4 && 0xF0 <= b[0] <= 0xF4 && cont(b[1]) && cont(b[2]) && cont(b[3]) && (b[0] == 0xF0 ==> b[1] >= 0x90) && (b[0] == 0xF4 ==> b[1] <= 0x8F) { 4 }
    else { 0 }
}
pub open spec fn utf8_ok(b: Seq<u8>) -> bool decreases b.len() {
    b.len() == 0 || (first_len(b) > 0 && utf8_ok(b.skip(first_len(b) as int)))
}
/// the bytes of a char
pub open spec fn encode(c: char) -> Seq<u8> {
    let n = c as u32;
    if n < 0x80 { seq![n as u8] }
    else if n < 0x800 { seq![(0xC0 + n / 0x40) as u8, (0x80 + n % 0x40) as u8] }
    else if n < 0x10000 { seq![(0xE0 + n / 0x1000) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8] }
    else { seq![(0xF0 + n / 0x40000) as u8, (0x80 + n / 0x1000 % 0x40) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8] }
}
pub proof fn lemma_encode(c: char) ensures utf8_ok(encode(c)), encode(c).len() > 0 {
    let n = c as u32;
    assert(n <= 0xD7FF || 0xE000 <= n <= 0x10FFFF);
    let e = encode(c);
    assert(first_len(e) == e.len()) by {
        if n < 0x80 {} else if n < 0x800 { assert(0xC2 <= 0xC0 + n / 0x40 <= 0xDF); }
        else if n < 0x10000 { assert(0xE0 <= 0xE0 + n / 0x1000 <= 0xEF); assert(n < 0x1000 ==> n / 0x40 >= 0x20); assert(n / 0x1000 == 0xD ==> n <= 0xD7FF); }
        else { assert(0xF0 <= 0xF0 + n / 0x40000 <= 0xF4); }
    }
    reveal_with_fuel(utf8_ok, 2);
    assert(e.skip(e.len() as int).len() == 0);
}
pub proof fn lemma_concat(a: Seq<u8>, b: Seq<u8>) requires utf8_ok(a), utf8_ok(b) ensures utf8_ok(a + b) decreases a.len() {
    if a.len() == 0 { assert(a + b =~= b); } else {
        let n = first_len(a) as int;
        lemma_concat(a.skip(n), b);
        assert(first_len(a + b) == n);
        assert((a + b).skip(n) =~= a.skip(n) + b);
    }
}
/// what follows an incomplete sequence can't be a whole string
pub proof fn lemma_prefix(a: Seq<u8>, b: Seq<u8>) requires utf8_ok(b), utf8_ok(a + b) ensures utf8_ok(a) decreases a.len() {
    if a.len() > 0 {
        let n = first_len(a + b) as int;
        let s = a + b;
        if n <= a.len() {
            assert(first_len(a) == n) by { assert(forall|i: int| 0 <= i < a.len() ==> s[i] == a[i]); }
            assert(s.skip(n) =~= a.skip(n) + b);
            lemma_prefix(a.skip(n), b);
        } else {
            assert(s[a.len() as int] == b[0]);
            assert(cont(b[0]));
            assert(first_len(b) > 0);
        }
    }
}
pub proof fn lemma_ascii(a: Seq<u8>) requires forall|i: int| 0 <= i < a.len() ==> a[i] < 0x80 ensures utf8_ok(a) decreases a.len() {
    if a.len() > 0 { lemma_ascii(a.skip(1)); }
}
/// order of byte strings
pub open spec fn lex_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len() {
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { lex_cmp(a.skip(1), b.skip(1)) }
}
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub proof fn lemma_rev(a: Seq<u8>, b: Seq<u8>) ensures lex_cmp(a, b) == rev(lex_cmp(b, a)) decreases a.len() {
    if a.len() > 0 && b.len() > 0 { lemma_rev(a.skip(1), b.skip(1)); }
}
pub proof fn lemma_equal(a: Seq<u8>, b: Seq<u8>) ensures lex_cmp(a, b) == Ordering::Equal <==> a == b decreases a.len() {
    if a.len() > 0 && b.len() > 0 {
        lemma_equal(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) { assert(a =~= b) by { assert forall|i: int| 0 <= i < a.len() implies a.len() == b.len() && a[i] == b[i] by { assert(a.skip(1).len() == b.skip(1).len()); if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); } } } }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires lex_cmp(a, b) != Ordering::Greater, lex_cmp(b, c) != Ordering::Greater
    ensures lex_cmp(a, c) != Ordering::Greater, (lex_cmp(a, b) == Ordering::Less || lex_cmp(b, c) == Ordering::Less) ==> lex_cmp(a, c) == Ordering::Less
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
