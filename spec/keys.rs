// uses: merkle
// Storage keys: which record a byte-string key names. lt: 0 user log, 1 mutation log, 2 tree-head log.
#[verifier::ext_equal]
pub ghost enum K { Data(int, Seq<u8>), Leaf(int, int), Node(int, int, int), Root(int, int), Index(int, Seq<u8>), Size, MapNode(int, Seq<u8>) }
pub open spec fn valid_lt(lt: int) -> bool { 0 <= lt <= 2 }
pub open spec fn u64v(n: int) -> int { if n >= 0 { n } else { n + 0x1_0000_0000_0000_0000 } }
pub open spec fn i64r(n: int) -> bool { -0x8000_0000_0000_0000 <= n <= 0x7fff_ffff_ffff_ffff }
pub open spec fn kvalid(k: K) -> bool {
    match k {
        K::Data(lt, _) => valid_lt(lt), K::Index(lt, _) => valid_lt(lt),
        K::Leaf(lt, i) => valid_lt(lt) && i64r(i), K::Root(lt, i) => valid_lt(lt) && i64r(i),
        K::Node(lt, a, b) => valid_lt(lt) && i64r(a) && i64r(b),
        K::Size => true, K::MapNode(n, _) => i64r(n),
    }
}
// "user_data/" and so on: kind is the first letter of data, leaf, node, tree, index
pub open spec fn bkt(kind: int, lt: int) -> Seq<u8> {
    if kind == 100 && lt == 0 { seq![117u8, 115u8, 101u8, 114u8, 95u8, 100u8, 97u8, 116u8, 97u8, 47u8] }
    else if kind == 100 && lt == 1 { seq![109u8, 117u8, 116u8, 97u8, 116u8, 105u8, 111u8, 110u8, 95u8, 100u8, 97u8, 116u8, 97u8, 47u8] }
    else if kind == 100 && lt == 2 { seq![116u8, 114u8, 101u8, 101u8, 104u8, 101u8, 97u8, 100u8, 95u8, 100u8, 97u8, 116u8, 97u8, 47u8] }
    else if kind == 108 && lt == 0 { seq![117u8, 115u8, 101u8, 114u8, 95u8, 108u8, 101u8, 97u8, 102u8, 47u8] }
    else if kind == 108 && lt == 1 { seq![109u8, 117u8, 116u8, 97u8, 116u8, 105u8, 111u8, 110u8, 95u8, 108u8, 101u8, 97u8, 102u8, 47u8] }
    else if kind == 108 && lt == 2 { seq![116u8, 114u8, 101u8, 101u8, 104u8, 101u8, 97u8, 100u8, 95u8, 108u8, 101u8, 97u8, 102u8, 47u8] }
    else if kind == 110 && lt == 0 { seq![117u8, 115u8, 101u8, 114u8, 95u8, 110u8, 111u8, 100u8, 101u8, 47u8] }
    else if kind == 110 && lt == 1 { seq![109u8, 117u8, 116u8, 97u8, 116u8, 105u8, 111u8, 110u8, 95u8, 110u8, 111u8, 100u8, 101u8, 47u8] }
    else if kind == 110 && lt == 2 { seq![116u8, 114u8, 101u8, 101u8, 104u8, 101u8, 97u8, 100u8, 95u8, 110u8, 111u8, 100u8, 101u8, 47u8] }
    else if kind == 116 && lt == 0 { seq![117u8, 115u8, 101u8, 114u8, 95u8, 116u8, 114u8, 101u8, 101u8, 47u8] }
    else if kind == 116 && lt == 1 { seq![109u8, 117u8, 116u8, 97u8, 116u8, 105u8, 111u8, 110u8, 95u8, 116u8, 114u8, 101u8, 101u8, 47u8] }
    else if kind == 116 && lt == 2 { seq![116u8, 114u8, 101u8, 101u8, 104u8, 101u8, 97u8, 100u8, 95u8, 116u8, 114u8, 101u8, 101u8, 47u8] }
    else if kind == 105 && lt == 0 { seq![117u8, 115u8, 101u8, 114u8, 95u8, 105u8, 110u8, 100u8, 101u8, 120u8, 47u8] }
    else if kind == 105 && lt == 1 { seq![109u8, 117u8, 116u8, 97u8, 116u8, 105u8, 111u8, 110u8, 95u8, 105u8, 110u8, 100u8, 101u8, 120u8, 47u8] }
    else if kind == 105 && lt == 2 { seq![116u8, 114u8, 101u8, 101u8, 104u8, 101u8, 97u8, 100u8, 95u8, 105u8, 110u8, 100u8, 101u8, 120u8, 47u8] }
    else { Seq::empty() }
}
pub open spec fn size_key() -> Seq<u8> { seq![109u8, 101u8, 116u8, 97u8, 100u8, 97u8, 116u8, 97u8, 47u8, 115u8, 105u8, 122u8, 101u8] }
pub open spec fn map_bkt() -> Seq<u8> { seq![109u8, 97u8, 112u8, 95u8, 110u8, 111u8, 100u8, 101u8, 47u8] }
#[verifier::opaque]
pub open spec fn enc(k: K) -> Seq<u8> {
    match k {
        K::Data(lt, h) => bkt(100, lt) + h,
        K::Leaf(lt, i) => bkt(108, lt) + be64(u64v(i)),
        K::Node(lt, a, b) => bkt(110, lt) + (be64(u64v(a)) + be64(u64v(b))),
        K::Root(lt, i) => bkt(116, lt) + be64(u64v(i)),
        K::Index(lt, h) => bkt(105, lt) + h,
        K::Size => size_key(),
        K::MapNode(n, p) => map_bkt() + (be64(u64v(n)) + p),
    }
}
// the low k bytes of n, big-endian recomposed
pub open spec fn unbe(b: Seq<u8>) -> int { ((((((b[0] as int * 256 + b[1] as int) * 256 + b[2] as int) * 256 + b[3] as int) * 256 + b[4] as int) * 256 + b[5] as int) * 256 + b[6] as int) * 256 + b[7] as int }
pub proof fn be64_un(a: int)
    requires 0 <= a <= 0xffff_ffff_ffff_ffff
    ensures unbe(be64(a)) == a, be64(a).len() == 8
{
    let a1 = a / 256; let a2 = a1 / 256; let a3 = a2 / 256; let a4 = a3 / 256; let a5 = a4 / 256; let a6 = a5 / 256; let a7 = a6 / 256;
    assert(a2 == a / 0x1_0000) by (nonlinear_arith) requires a1 == a / 256, a2 == a1 / 256, a >= 0;
    assert(a3 == a / 0x100_0000) by (nonlinear_arith) requires a2 == a / 0x1_0000, a3 == a2 / 256, a >= 0;
    assert(a4 == a / 0x1_0000_0000) by (nonlinear_arith) requires a3 == a / 0x100_0000, a4 == a3 / 256, a >= 0;
    assert(a5 == a / 0x100_0000_0000) by (nonlinear_arith) requires a4 == a / 0x1_0000_0000, a5 == a4 / 256, a >= 0;
    assert(a6 == a / 0x1_0000_0000_0000) by (nonlinear_arith) requires a5 == a / 0x100_0000_0000, a6 == a5 / 256, a >= 0;
    assert(a7 == a / 0x100_0000_0000_0000) by (nonlinear_arith) requires a6 == a / 0x1_0000_0000_0000, a7 == a6 / 256, a >= 0;
    let b = be64(a);
    assert(b[7] as int == a % 256 && b[6] as int == a1 % 256 && b[5] as int == a2 % 256 && b[4] as int == a3 % 256);
    assert(b[3] as int == a4 % 256 && b[2] as int == a5 % 256 && b[1] as int == a6 % 256 && b[0] as int == a7 % 256);
    assert(a7 < 256);
}
pub proof fn be64_inj(a: int, b: int)
    requires 0 <= a <= 0xffff_ffff_ffff_ffff, 0 <= b <= 0xffff_ffff_ffff_ffff, be64(a) == be64(b)
    ensures a == b
{ be64_un(a); be64_un(b); }
pub proof fn cat_inj<A>(p: Seq<A>, a: Seq<A>, b: Seq<A>) requires p + a == p + b ensures a == b
{ let x = p + a; let y = p + b; assert(x.len() == p.len() + a.len() && y.len() == p.len() + b.len()); assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(x[p.len() + i] == a[i] && y[p.len() + i] == b[i]); } assert(a =~= b); }
pub proof fn cat_inj2<A>(p: Seq<A>, a: Seq<A>, q: Seq<A>, b: Seq<A>) requires p.len() == q.len(), p + a == q + b ensures p == q, a == b
{ let x = p + a; let y = q + b; assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { assert(x[i] == p[i] && y[i] == q[i]); } assert(p =~= q); cat_inj(p, a, b); }
// which kind of record a key is for, read off its first bytes
pub open spec fn ktag(s: Seq<u8>) -> (int, int) {
    if s[0] == 117 { (0, s[5] as int) } else if s[0] == 116 { (2, s[9] as int) } else if s[1] == 117 { (1, s[9] as int) } else { (3, s[1] as int) }
}
pub open spec fn ktagof(k: K) -> (int, int) {
    match k { K::Data(lt, h) => (lt, 100), K::Leaf(lt, i) => (lt, 108), K::Node(lt, a, b) => (lt, 110), K::Root(lt, i) => (lt, 116), K::Index(lt, h) => (lt, 105), K::Size => (3, 101), K::MapNode(n, p) => (3, 97) }
}
pub proof fn bkt_tag(t: int, lt: int)
    requires valid_lt(lt), t == 100 || t == 108 || t == 110 || t == 116 || t == 105
    ensures ktag(bkt(t, lt)) == (lt, t), bkt(t, lt).len() >= 10
{
    if lt == 0 && t == 100 { assert(ktag(bkt(100, 0)) == (0int, 100int) && bkt(100, 0).len() >= 10) by (compute); }
    if lt == 0 && t == 108 { assert(ktag(bkt(108, 0)) == (0int, 108int) && bkt(108, 0).len() >= 10) by (compute); }
    if lt == 0 && t == 110 { assert(ktag(bkt(110, 0)) == (0int, 110int) && bkt(110, 0).len() >= 10) by (compute); }
    if lt == 0 && t == 116 { assert(ktag(bkt(116, 0)) == (0int, 116int) && bkt(116, 0).len() >= 10) by (compute); }
    if lt == 0 && t == 105 { assert(ktag(bkt(105, 0)) == (0int, 105int) && bkt(105, 0).len() >= 10) by (compute); }
    if lt == 1 && t == 100 { assert(ktag(bkt(100, 1)) == (1int, 100int) && bkt(100, 1).len() >= 10) by (compute); }
    if lt == 1 && t == 108 { assert(ktag(bkt(108, 1)) == (1int, 108int) && bkt(108, 1).len() >= 10) by (compute); }
    if lt == 1 && t == 110 { assert(ktag(bkt(110, 1)) == (1int, 110int) && bkt(110, 1).len() >= 10) by (compute); }
    if lt == 1 && t == 116 { assert(ktag(bkt(116, 1)) == (1int, 116int) && bkt(116, 1).len() >= 10) by (compute); }
    if lt == 1 && t == 105 { assert(ktag(bkt(105, 1)) == (1int, 105int) && bkt(105, 1).len() >= 10) by (compute); }
    if lt == 2 && t == 100 { assert(ktag(bkt(100, 2)) == (2int, 100int) && bkt(100, 2).len() >= 10) by (compute); }
    if lt == 2 && t == 108 { assert(ktag(bkt(108, 2)) == (2int, 108int) && bkt(108, 2).len() >= 10) by (compute); }
    if lt == 2 && t == 110 { assert(ktag(bkt(110, 2)) == (2int, 110int) && bkt(110, 2).len() >= 10) by (compute); }
    if lt == 2 && t == 116 { assert(ktag(bkt(116, 2)) == (2int, 116int) && bkt(116, 2).len() >= 10) by (compute); }
    if lt == 2 && t == 105 { assert(ktag(bkt(105, 2)) == (2int, 105int) && bkt(105, 2).len() >= 10) by (compute); }
}
pub proof fn tag_cat(p: Seq<u8>, x: Seq<u8>) requires p.len() >= 10 || (p.len() >= 2 && p[0] == 109 && p[1] != 117) ensures ktag(p + x) == ktag(p)
{ let s = p + x; assert(s[0] == p[0] && s[1] == p[1]); if p.len() >= 10 { assert(s[5] == p[5] && s[9] == p[9]); } }
pub proof fn enc_tag(k: K) requires kvalid(k) ensures ktag(enc(k)) == ktagof(k)
{
    reveal(enc);
    match k {
        K::Data(lt, h) => { bkt_tag(100, lt); tag_cat(bkt(100, lt), h); }
        K::Leaf(lt, i) => { bkt_tag(108, lt); tag_cat(bkt(108, lt), be64(u64v(i))); }
        K::Node(lt, a, b) => { bkt_tag(110, lt); tag_cat(bkt(110, lt), be64(u64v(a)) + be64(u64v(b))); }
        K::Root(lt, i) => { bkt_tag(116, lt); tag_cat(bkt(116, lt), be64(u64v(i))); }
        K::Index(lt, h) => { bkt_tag(105, lt); tag_cat(bkt(105, lt), h); }
        K::Size => { }
        K::MapNode(n, p) => { tag_cat(map_bkt(), be64(u64v(n)) + p); }
    }
}
pub proof fn bn_inj(p: Seq<u8>, i: int, j: int) requires i64r(i), i64r(j), p + be64(u64v(i)) == p + be64(u64v(j)) ensures i == j
{ cat_inj(p, be64(u64v(i)), be64(u64v(j))); be64_inj(u64v(i), u64v(j)); }
pub proof fn bnx_inj(p: Seq<u8>, i: int, x: Seq<u8>, j: int, y: Seq<u8>) requires i64r(i), i64r(j), p + (be64(u64v(i)) + x) == p + (be64(u64v(j)) + y) ensures i == j, x == y
{ let a = be64(u64v(i)); let b = be64(u64v(j)); cat_inj(p, a + x, b + y); be64_un(u64v(i)); be64_un(u64v(j)); cat_inj2(a, x, b, y); }
pub proof fn enc_is(k: K) ensures
    k matches K::Data(lt, h) ==> enc(k) == bkt(100, lt) + h, k matches K::Leaf(lt, i) ==> enc(k) == bkt(108, lt) + be64(u64v(i)),
    k matches K::Node(lt, a, b) ==> enc(k) == bkt(110, lt) + (be64(u64v(a)) + be64(u64v(b))), k matches K::Root(lt, i) ==> enc(k) == bkt(116, lt) + be64(u64v(i)),
    k matches K::Index(lt, h) ==> enc(k) == bkt(105, lt) + h, k is Size ==> enc(k) == size_key(), k matches K::MapNode(n, p) ==> enc(k) == map_bkt() + (be64(u64v(n)) + p)
{ reveal(enc); }
// different records of an object are stored under different keys
#[verifier::spinoff_prover]
pub proof fn enc_injective(a: K, b: K)
    requires kvalid(a), kvalid(b), enc(a) == enc(b)
    ensures a == b
{
    enc_tag(a); enc_tag(b); enc_is(a); enc_is(b);
    assert(ktagof(a) == ktagof(b));
    match a {
        K::Data(lt, h) => { assert(b is Data); if let K::Data(lt2, h2) = b { assert(lt == lt2); cat_inj(bkt(100, lt), h, h2); } }
        K::Index(lt, h) => { assert(b is Index); if let K::Index(lt2, h2) = b { assert(lt == lt2); cat_inj(bkt(105, lt), h, h2); } }
        K::Leaf(lt, i) => { assert(b is Leaf); if let K::Leaf(lt2, j) = b { assert(lt == lt2); bn_inj(bkt(108, lt), i, j); } }
        K::Root(lt, i) => { assert(b is Root); if let K::Root(lt2, j) = b { assert(lt == lt2); bn_inj(bkt(116, lt), i, j); } }
        K::Node(lt, i, x) => { assert(b is Node); if let K::Node(lt2, j, y) = b { assert(lt == lt2); bnx_inj(bkt(110, lt), i, be64(u64v(x)), j, be64(u64v(y))); be64_inj(u64v(x), u64v(y)); } }
        K::MapNode(n, p) => { assert(b is MapNode); if let K::MapNode(n2, p2) = b { bnx_inj(map_bkt(), n, p, n2, p2); } }
        K::Size => { assert(b is Size); }
    }
}
pub open spec fn dec(s: Seq<u8>) -> K { choose|k: K| kvalid(k) && #[trigger] enc(k) == s }
pub broadcast proof fn dec_enc(k: K) requires kvalid(k) ensures dec(#[trigger] enc(k)) == k
{ let d = dec(enc(k)); assert(kvalid(d) && enc(d) == enc(k)); enc_injective(k, d); }
pub open spec fn stored(db: Db, k: K) -> bool { db.dom().contains(enc(k)) }
pub open spec fn rec(db: Db, k: K) -> PVal { db[enc(k)] }
pub open spec fn kind_ok(k: K, v: PVal) -> bool {
    match k { K::Data(_, _) => v is LeafData, K::Leaf(_, _) => v is LeafNode, K::Node(_, _, _) => v is TreeNode, K::Root(_, _) => v is LogTreeHash, K::Index(_, _) => v is EntryIndex, K::Size => v is ObjectSize, K::MapNode(_, _) => v is MapNode }
}
// every record is of the kind its key says
pub open spec fn typed(db: Db) -> bool { forall|k: K| kvalid(k) && #[trigger] stored(db, k) ==> kind_ok(k, rec(db, k)) }
// storing a record of its kind keeps the store typed, is read back under its own key, and leaves every other record as it was
pub proof fn store_one(db: Db, k: K, v: PVal)
    requires kvalid(k), kind_ok(k, v), typed(db)
    ensures typed(db.insert(enc(k), v)), stored(db.insert(enc(k), v), k), rec(db.insert(enc(k), v), k) == v,
        forall|j: K| kvalid(j) && j != k ==> (#[trigger] stored(db.insert(enc(k), v), j) == stored(db, j)) && (stored(db, j) ==> rec(db.insert(enc(k), v), j) == rec(db, j))
{
    broadcast use dec_enc;
    let n = db.insert(enc(k), v);
    assert forall|j: K| kvalid(j) && #[trigger] stored(n, j) implies kind_ok(j, rec(n, j)) by {
        assert(dec(enc(j)) == j && dec(enc(k)) == k);
        if j != k { assert(enc(j) != enc(k)); assert(stored(db, j)); assert(kind_ok(j, rec(db, j))); }
    }
    assert forall|j: K| kvalid(j) && j != k implies (#[trigger] stored(n, j) == stored(db, j)) && (stored(db, j) ==> rec(n, j) == rec(db, j)) by {
        assert(dec(enc(j)) == j && dec(enc(k)) == k); assert(enc(j) != enc(k)); }
}
// the recorded size
pub open spec fn size_of(db: Db) -> int { if stored(db, K::Size) { rec(db, K::Size)->ObjectSize_0.Size } else { 0 } }
