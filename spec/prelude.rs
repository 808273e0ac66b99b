// Model of the Go values and primitives the obligations speak about.
// GoErr: an error value; Named: a package-level error variable; Status: a gRPC status error with its code.
#[verifier::ext_equal]
pub ghost enum GoErr { Nil, Named(int), Status(int), Opaque(int) }
#[verifier::external_body]
pub ghost struct GAny { x: int }

// the length of a Go string or slice: the runtime allocates at most 2^48 bytes
pub open spec fn is_len(n: int) -> bool { 0 <= n <= 0x1_0000_0000_0000 }

// ---- machine integers
pub open spec fn wrap_s(x: int, m: int, h: int) -> int { let r = x % m; if r >= h { r - m } else { r } }
pub open spec fn wi64(x: int) -> int { if -0x8000_0000_0000_0000 <= x <= 0x7fff_ffff_ffff_ffff { x } else { wrap_s(x, 0x1_0000_0000_0000_0000, 0x8000_0000_0000_0000) } }
pub open spec fn wi32(x: int) -> int { if -0x8000_0000 <= x <= 0x7fff_ffff { x } else { wrap_s(x, 0x1_0000_0000, 0x8000_0000) } }
pub open spec fn wi16(x: int) -> int { if -0x8000 <= x <= 0x7fff { x } else { wrap_s(x, 0x1_0000, 0x8000) } }
pub open spec fn wi8(x: int) -> int { if -0x80 <= x <= 0x7f { x } else { wrap_s(x, 0x100, 0x80) } }
pub open spec fn wu64(x: int) -> int { if 0 <= x <= 0xffff_ffff_ffff_ffff { x } else { x % 0x1_0000_0000_0000_0000 } }
pub open spec fn wu32(x: int) -> int { if 0 <= x <= 0xffff_ffff { x } else { x % 0x1_0000_0000 } }
pub open spec fn wu16(x: int) -> int { if 0 <= x <= 0xffff { x } else { x % 0x1_0000 } }
pub open spec fn wu8(x: int) -> int { if 0 <= x <= 0xff { x } else { x % 0x100 } }
// Go division truncates toward zero
pub open spec fn godiv(a: int, b: int) -> int
{ if b == 0 { 0 } else if a >= 0 && b > 0 { a / b } else if a < 0 && b > 0 { -((-a) / b) } else if a >= 0 { -(a / (-b)) } else { (-a) / (-b) } }
pub open spec fn gomod(a: int, b: int) -> int { a - b * godiv(a, b) }
pub open spec fn p2(k: int) -> int decreases k { if k <= 0 { 1 } else { 2 * p2(k - 1) } }
pub open spec fn shl_i(a: int, k: int) -> int { if k >= 64 { 0 } else { a * p2(k) } }
pub open spec fn shr_i(a: int, k: int) -> int { if k >= 64 { if a < 0 { -1 } else { 0 } } else { a / p2(k) } }
pub open spec fn and_i64(a: int, b: int) -> int { ((a as i64) & (b as i64)) as int }
pub open spec fn or_i64(a: int, b: int) -> int { ((a as i64) | (b as i64)) as int }
pub open spec fn xor_i64(a: int, b: int) -> int { ((a as i64) ^ (b as i64)) as int }
pub open spec fn andnot_i64(a: int, b: int) -> int { ((a as i64) & !(b as i64)) as int }
pub open spec fn and_u64(a: int, b: int) -> int { ((a as u64) & (b as u64)) as int }
pub open spec fn or_u64(a: int, b: int) -> int { ((a as u64) | (b as u64)) as int }
pub open spec fn xor_u64(a: int, b: int) -> int { ((a as u64) ^ (b as u64)) as int }
pub open spec fn andnot_u64(a: int, b: int) -> int { ((a as u64) & !(b as u64)) as int }
pub open spec fn and_i32(a: int, b: int) -> int { ((a as i32) & (b as i32)) as int }
pub open spec fn or_i32(a: int, b: int) -> int { ((a as i32) | (b as i32)) as int }
pub open spec fn xor_i32(a: int, b: int) -> int { ((a as i32) ^ (b as i32)) as int }
pub open spec fn andnot_i32(a: int, b: int) -> int { ((a as i32) & !(b as i32)) as int }
pub open spec fn and_u32(a: int, b: int) -> int { ((a as u32) & (b as u32)) as int }
pub open spec fn or_u32(a: int, b: int) -> int { ((a as u32) | (b as u32)) as int }
pub open spec fn xor_u32(a: int, b: int) -> int { ((a as u32) ^ (b as u32)) as int }
pub open spec fn andnot_u32(a: int, b: int) -> int { ((a as u32) & !(b as u32)) as int }
pub open spec fn and_u8(a: int, b: int) -> int { ((a as u8) & (b as u8)) as int }
pub open spec fn or_u8(a: int, b: int) -> int { ((a as u8) | (b as u8)) as int }
pub open spec fn xor_u8(a: int, b: int) -> int { ((a as u8) ^ (b as u8)) as int }
pub open spec fn andnot_u8(a: int, b: int) -> int { ((a as u8) & !(b as u8)) as int }
// number of bits set
pub open spec fn popcount(n: int) -> int decreases n { if n <= 0 { 0 } else { n % 2 + popcount(n / 2) } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }

// a & 1 on non-negative machine integers
pub broadcast proof fn ax_and1_i64(a: int)
    requires 0 <= a <= 0x7fff_ffff_ffff_ffff
    ensures #[trigger] and_i64(a, 1) == a % 2
{ let b = a as i64; assert((b & 1i64) == b % 2) by (bit_vector) requires b >= 0; }
pub broadcast proof fn ax_and1_u64(a: int)
    requires 0 <= a <= 0xffff_ffff_ffff_ffff
    ensures #[trigger] and_u64(a, 1) == a % 2
{ let b = a as u64; assert((b & 1u64) == b % 2) by (bit_vector); }
pub broadcast proof fn ax_shr1(a: int)
    ensures #[trigger] shr_i(a, 1) == a / 2
{ assert(p2(1) == 2) by { reveal_with_fuel(p2, 3); } }
pub broadcast proof fn ax_shl1(a: int)
    ensures #[trigger] shl_i(a, 1) == a * 2
{ assert(p2(1) == 2) by { reveal_with_fuel(p2, 3); } }

// ---- bytes
// SHA-256, uninterpreted
pub uninterp spec fn sha(b: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn ax_sha_len(b: Seq<u8>) ensures #[trigger] sha(b).len() == 32;
pub open spec fn cpy(d: Seq<u8>, off: int, s: Seq<u8>) -> Seq<u8> { d.subrange(0, off) + s + d.subrange(off + s.len(), d.len() as int) }
pub open spec fn cpyn<A>(d: Seq<A>, off: int, s: Seq<A>, n: int) -> Seq<A> { d.subrange(0, off) + s.subrange(0, n) + d.subrange(off + n, d.len() as int) }
// big-endian 8-byte encoding of an unsigned 64-bit number
pub open spec fn be64(n: int) -> Seq<u8> {
    seq![(n / 0x100_0000_0000_0000 % 256) as u8, (n / 0x1_0000_0000_0000 % 256) as u8, (n / 0x100_0000_0000 % 256) as u8, (n / 0x1_0000_0000 % 256) as u8,
         (n / 0x100_0000 % 256) as u8, (n / 0x1_0000 % 256) as u8, (n / 0x100 % 256) as u8, (n % 256) as u8]
}
pub broadcast group grp { ax_and1_i64, ax_and1_u64, ax_shr1, ax_shl1, ax_sha_len }

// ---- maps of byte strings hold a nil or a value
pub open spec fn bval(o: Option<Seq<u8>>) -> Seq<u8> { match o { Some(b) => b, None => Seq::empty() } }

// ---- hexadecimal text
pub open spec fn hex_digit(d: int) -> u8 { if d < 10 { (48 + d) as u8 } else { (87 + d) as u8 } }
pub open spec fn hex_enc(s: Seq<u8>) -> Seq<u8> { Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { hex_digit(s[i / 2] as int / 16) } else { hex_digit(s[i / 2] as int % 16) }) }
pub proof fn hex_inj(a: Seq<u8>, b: Seq<u8>)
    ensures hex_enc(a) == hex_enc(b) ==> a == b
{
    if hex_enc(a) == hex_enc(b) {
        assert(hex_enc(a).len() == 2 * a.len() && hex_enc(b).len() == 2 * b.len());
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            assert(hex_enc(a)[2 * i] == hex_enc(b)[2 * i]);
            assert(hex_enc(a)[2 * i + 1] == hex_enc(b)[2 * i + 1]);
            assert(hex_enc(a)[2 * i] == hex_digit(a[i] as int / 16));
            assert(hex_enc(b)[2 * i] == hex_digit(b[i] as int / 16));
            assert((2 * i + 1) / 2 == i && (2 * i) / 2 == i);
        }
        assert(a =~= b);
    }
}
pub proof fn hex_inj_all()
    ensures forall|a: Seq<u8>, b: Seq<u8>| #[trigger] hex_enc(a) == #[trigger] hex_enc(b) ==> a == b
{ assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] hex_enc(a) == #[trigger] hex_enc(b) implies a == b by { hex_inj(a, b); } }
