// uses: merkle
// A binary path: a byte holding its length (0 for 256), then the bits, most significant first.
pub open spec fn bp_len(b: Seq<u8>) -> int { if b.len() == 0 { 0 } else if b[0] == 0 { 256 } else { b[0] as int } }
pub open spec fn bp_at(b: Seq<u8>, i: int) -> bool { byte_bit(b[1 + i / 8], i % 8) }
// canonical form: exactly the bytes needed, spare bits zero
pub open spec fn bp_wf(b: Seq<u8>) -> bool {
    b.len() == 0 || (b.len() == 2 + (bp_len(b) - 1) / 8 && forall|i: int| bp_len(b) <= i && i < 8 * (b.len() - 1) ==> !#[trigger] bp_at(b, i))
}
pub open spec fn bp_bits(b: Seq<u8>) -> Seq<bool> { Seq::new(bp_len(b) as nat, |i: int| bp_at(b, i)) }
pub open spec fn bit8(b: u8, m: int) -> bool {
    if m == 0 { b & 1u8 == 1u8 } else if m == 1 { b & 2u8 == 2u8 } else if m == 2 { b & 4u8 == 4u8 } else if m == 3 { b & 8u8 == 8u8 }
    else if m == 4 { b & 16u8 == 16u8 } else if m == 5 { b & 32u8 == 32u8 } else if m == 6 { b & 64u8 == 64u8 } else { b & 128u8 == 128u8 }
}
pub proof fn p2_8() ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128
{ reveal_with_fuel(p2, 9); }
pub proof fn byte_bit_is(b: u8, j: int) requires 0 <= j < 8 ensures byte_bit(b, j) == bit8(b, 7 - j)
{
    p2_8();
    assert((b / 1u8) % 2u8 == 1u8 <==> b & 1u8 == 1u8) by (bit_vector);
    assert((b / 2u8) % 2u8 == 1u8 <==> b & 2u8 == 2u8) by (bit_vector);
    assert((b / 4u8) % 2u8 == 1u8 <==> b & 4u8 == 4u8) by (bit_vector);
    assert((b / 8u8) % 2u8 == 1u8 <==> b & 8u8 == 8u8) by (bit_vector);
    assert((b / 16u8) % 2u8 == 1u8 <==> b & 16u8 == 16u8) by (bit_vector);
    assert((b / 32u8) % 2u8 == 1u8 <==> b & 32u8 == 32u8) by (bit_vector);
    assert((b / 64u8) % 2u8 == 1u8 <==> b & 64u8 == 64u8) by (bit_vector);
    assert((b / 128u8) % 2u8 == 1u8 <==> b & 128u8 == 128u8) by (bit_vector);
}
pub proof fn or_bits(x: u8, m: int, q: int) requires 0 <= m < 8, 0 <= q < 8 ensures bit8(x | (p2(m) as u8), q) == (bit8(x, q) || q == m)
{
    p2_8();
    let y = p2(m) as u8;
    assert(forall|x: u8, y: u8| (y == 1u8 || y == 2u8 || y == 4u8 || y == 8u8 || y == 16u8 || y == 32u8 || y == 64u8 || y == 128u8) ==> {
        &&& ((#[trigger] (x | y)) & 1u8 == 1u8 <==> (x & 1u8 == 1u8 || y == 1u8)) && ((x | y) & 2u8 == 2u8 <==> (x & 2u8 == 2u8 || y == 2u8))
        &&& ((x | y) & 4u8 == 4u8 <==> (x & 4u8 == 4u8 || y == 4u8)) && ((x | y) & 8u8 == 8u8 <==> (x & 8u8 == 8u8 || y == 8u8))
        &&& ((x | y) & 16u8 == 16u8 <==> (x & 16u8 == 16u8 || y == 16u8)) && ((x | y) & 32u8 == 32u8 <==> (x & 32u8 == 32u8 || y == 32u8))
        &&& ((x | y) & 64u8 == 64u8 <==> (x & 64u8 == 64u8 || y == 64u8)) && ((x | y) & 128u8 == 128u8 <==> (x & 128u8 == 128u8 || y == 128u8)) }) by (bit_vector);
}
// setting bit j of a byte by or-ing 1 << (7 - j)
pub broadcast proof fn or_bit(x: int, k: int, q: int)
    requires 0 <= x <= 255, 0 <= k < 8, 0 <= q < 8
    ensures #[trigger] byte_bit(or_u8(x, wu8(shl_i(1, k))) as u8, q) == (byte_bit(x as u8, q) || q == 7 - k)
{
    p2_8();
    byte_bit_is(x as u8, q); byte_bit_is(or_u8(x, wu8(shl_i(1, k))) as u8, q);
    or_bits(x as u8, k, 7 - q);
}
// writing byte idx of a path changes exactly the eight bits it holds
pub broadcast proof fn bp_upd(s: Seq<u8>, idx: int, v: u8, q: int)
    requires 1 <= idx < s.len(), 0 <= q < 8 * (s.len() - 1)
    ensures #[trigger] bp_at(s.update(idx, v), q) == (if q / 8 == idx - 1 { byte_bit(v, q % 8) } else { bp_at(s, q) }),
        bp_at(s, q) == byte_bit(s[1 + q / 8], q % 8)
{ }
pub proof fn bp_zero_bit(q: int) requires 0 <= q < 8 ensures !byte_bit(0u8, q) { p2_8(); byte_bit_is(0, q); assert(0u8 & 1u8 != 1u8 && 0u8 & 2u8 != 2u8 && 0u8 & 4u8 != 4u8 && 0u8 & 8u8 != 8u8 && 0u8 & 16u8 != 16u8 && 0u8 & 32u8 != 32u8 && 0u8 & 64u8 != 64u8 && 0u8 & 128u8 != 128u8) by (bit_vector); }
// a byte string whose bytes after the first are zero has no bit set
pub proof fn bp_zero_bits(s: Seq<u8>)
    ensures (forall|j: int| 1 <= j && j < s.len() ==> s[j] == 0u8) ==> forall|i: int| 0 <= i && i < 8 * (s.len() - 1) ==> !#[trigger] bp_at(s, i)
{ if forall|j: int| 1 <= j && j < s.len() ==> s[j] == 0u8 { assert forall|i: int| 0 <= i && i < 8 * (s.len() - 1) implies !#[trigger] bp_at(s, i) by { assert(s[1 + i / 8] == 0u8); bp_zero_bit(i % 8); } } }
// canonical representations of the same bit sequence are the same bytes, so distinct sequences have distinct representations
pub proof fn byte_ext(x: u8, y: u8) requires forall|j: int| 0 <= j && j < 8 ==> #[trigger] byte_bit(x, j) == byte_bit(y, j) ensures x == y
{
    assert forall|j: int| 0 <= j && j < 8 implies #[trigger] bit8(x, j) == bit8(y, j) by { byte_bit_is(x, 7 - j); byte_bit_is(y, 7 - j); assert(byte_bit(x, 7 - j) == byte_bit(y, 7 - j)); }
    assert(bit8(x, 0) == bit8(y, 0) && bit8(x, 1) == bit8(y, 1) && bit8(x, 2) == bit8(y, 2) && bit8(x, 3) == bit8(y, 3) && bit8(x, 4) == bit8(y, 4) && bit8(x, 5) == bit8(y, 5) && bit8(x, 6) == bit8(y, 6) && bit8(x, 7) == bit8(y, 7));
    assert(((x & 1u8 == 1u8 <==> y & 1u8 == 1u8) && (x & 2u8 == 2u8 <==> y & 2u8 == 2u8) && (x & 4u8 == 4u8 <==> y & 4u8 == 4u8) && (x & 8u8 == 8u8 <==> y & 8u8 == 8u8)
        && (x & 16u8 == 16u8 <==> y & 16u8 == 16u8) && (x & 32u8 == 32u8 <==> y & 32u8 == 32u8) && (x & 64u8 == 64u8 <==> y & 64u8 == 64u8) && (x & 128u8 == 128u8 <==> y & 128u8 == 128u8)) ==> x == y) by (bit_vector);
}
pub proof fn bp_unique(a: Seq<u8>, b: Seq<u8>)
    requires bp_wf(a), bp_wf(b), bp_bits(a) == bp_bits(b)
    ensures a == b
{
    assert(bp_bits(a).len() == bp_len(a) && bp_bits(b).len() == bp_len(b));
    if a.len() == 0 { assert(b.len() == 0); } else { assert(b.len() > 0); }
    if a.len() > 0 && b.len() > 0 {
        assert(bp_len(a) == bp_len(b));
        assert(a[0] == b[0]);
        assert forall|k: int| 0 <= k && k < a.len() implies a[k] == b[k] by {
            if k > 0 {
                assert forall|j: int| 0 <= j && j < 8 implies #[trigger] byte_bit(a[k], j) == byte_bit(b[k], j) by {
                    let i = 8 * (k - 1) + j;
                    assert(i / 8 == k - 1 && i % 8 == j);
                    assert(bp_at(a, i) == byte_bit(a[k], j) && bp_at(b, i) == byte_bit(b[k], j));
                    if i < bp_len(a) { assert(bp_bits(a)[i] == bp_at(a, i)); assert(bp_bits(b)[i] == bp_at(b, i)); }
                }
                byte_ext(a[k], b[k]);
            }
        }
    }
    assert(a =~= b);
}
