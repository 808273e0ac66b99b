// RFC 6962 trees: hashing, split point, audit path and consistency ranges.
pub open spec fn leaf_hash(b: Seq<u8>) -> Seq<u8> { sha(seq![0u8] + b) }
pub open spec fn node_hash(l: Seq<u8>, r: Seq<u8>) -> Seq<u8> { sha(seq![1u8] + l + r) }
pub open spec fn dflt(d: int) -> Seq<u8> decreases 256 - d
{ if d >= 256 { leaf_hash(Seq::empty()) } else { node_hash(dflt(d + 1), dflt(d + 1)) } }
// bit i (most significant first) of a byte string
pub open spec fn byte_bit(b: u8, j: int) -> bool { (b as int / p2(7 - j)) % 2 == 1 }
pub open spec fn kbit(h: Seq<u8>, i: int) -> bool { byte_bit(h[i / 8], i % 8) }

pub open spec fn is_p2(n: int) -> bool decreases n { if n <= 0 { false } else if n == 1 { true } else { n % 2 == 0 && is_p2(n / 2) } }
// the largest power of two strictly below n (1 for n <= 2)
pub open spec fn split(n: int) -> int decreases n { if n <= 2 { 1 } else { 2 * split((n + 1) / 2) } }

pub proof fn is_p2_dbl(k: int) requires is_p2(k) ensures is_p2(2 * k), k >= 1 { assert((2 * k) / 2 == k); }

pub proof fn split_props(n: int)
    ensures is_p2(split(n)), split(n) >= 1, n >= 2 ==> split(n) < n && n <= 2 * split(n), n > 2 ==> split(n) % 2 == 0
    decreases n
{
    if n > 2 { split_props((n + 1) / 2); is_p2_dbl(split((n + 1) / 2)); }
}
pub proof fn split_uniq(k: int, n: int)
    requires is_p2(k), n >= 2, k < n, n <= 2 * k
    ensures k == split(n)
    decreases n
{
    if n > 2 {
        assert(k % 2 == 0);
        split_uniq(k / 2, (n + 1) / 2);
    }
}
// is_p2 is the usual notion
pub proof fn is_p2_is_power(n: int)
    ensures is_p2(n) <==> exists|j: int| j >= 0 && n == p2(j)
    decreases n
{
    if n > 1 && n % 2 == 0 { is_p2_is_power(n / 2);
        if is_p2(n / 2) { let j = choose|j: int| j >= 0 && n / 2 == p2(j); assert(n == p2(j + 1)); }
        if exists|j: int| j >= 0 && n == p2(j) { let j = choose|j: int| j >= 0 && n == p2(j); assert(j > 0) by { reveal_with_fuel(p2, 2); } assert(n / 2 == p2(j - 1)); }
    } else if n == 1 { assert(p2(0) == 1); } else {
        assert forall|j: int| j >= 0 implies n != p2(j) by { p2_shape(j); }
    }
}
pub proof fn p2_shape(j: int) ensures p2(j) >= 1, j > 0 ==> p2(j) % 2 == 0 && p2(j) >= 2, j <= 0 ==> p2(j) == 1 decreases j { if j > 0 { p2_shape(j - 1); } }
// no power of two lies strictly between split(n) and n
pub proof fn split_largest(n: int, q: int) requires n >= 2, is_p2(q), q < n ensures q <= split(n) decreases n
{ split_props(n); if n > 2 && q > 1 { split_largest((n + 1) / 2, q / 2); } }

// RFC 6962 2.1.1: PATH(m, D[s:e]) as ranges
pub open spec fn rpath(m: int, s: int, e: int) -> Seq<(int, int)> decreases e - s
{
    let n = e - s;
    if n <= 1 { Seq::empty() } else {
        let k = split(n);
        if k >= n || k < 1 { Seq::empty() }
        else if m < k { rpath(m, s, s + k).push((s + k, e)) }
        else { rpath(m - k, s + k, e).push((s, s + k)) }
    }
}
// RFC 6962 2.1.2: SUBPROOF(m, D[s:e], b) as ranges
pub open spec fn rsub(m: int, s: int, e: int, b: bool) -> Seq<(int, int)> decreases e - s
{
    let n = e - s;
    if m == n { if b { Seq::empty() } else { seq![(s, e)] } }
    else {
        let k = split(n);
        if n <= 1 || k >= n || k < 1 { Seq::empty() }
        else if m <= k { rsub(m, s, s + k, b).push((s + k, e)) }
        else { rsub(m - k, s + k, e, false).push((s, s + k)) }
    }
}
pub open spec fn dflts() -> Seq<Seq<u8>> { Seq::new(257, |d: int| dflt(d)) }
pub proof fn p2_gap(a: int, b: int) requires is_p2(a), is_p2(b), a < b ensures 2 * a <= b decreases b
{ if a > 1 { p2_gap(a / 2, b / 2); } }
pub proof fn p2_62(k: int) ensures is_p2(k) && k < 0x4000_0000_0000_0000 ==> 2 * k <= 0x4000_0000_0000_0000
{ assert(is_p2(0x4000_0000_0000_0000)) by (compute); if is_p2(k) && k < 0x4000_0000_0000_0000 { p2_gap(k, 0x4000_0000_0000_0000); } }
