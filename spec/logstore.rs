// uses: merkle, logtree, stack, keys
// How a log is stored: leaf hashes by index, tree nodes by range, heads by size, indexes and data by leaf hash.
pub open spec fn leaf_at(db: Db, lt: int, i: int) -> Seq<u8> { rec(db, K::Leaf(lt, i))->LeafNode_0.Mth }
// the leaf hashes of the first n entries
pub open spec fn log_of(db: Db, lt: int, n: int) -> Seq<Seq<u8>> { Seq::new(n as nat, |i: int| leaf_at(db, lt, i)) }
#[verifier::opaque]
pub open spec fn leaves_ok(db: Db, lt: int, d: Seq<Seq<u8>>) -> bool
{ forall|i: int| 0 <= i < d.len() ==> #[trigger] stored(db, K::Leaf(lt, i)) && leaf_at(db, lt, i) == d[i] }
#[verifier::opaque]
pub open spec fn nodes_ok(db: Db, lt: int, d: Seq<Seq<u8>>) -> bool
{ (forall|a: int, b: int| complete(a, b) && b <= d.len() && b - a >= 2 ==> #[trigger] stored(db, K::Node(lt, a, b)) && rec(db, K::Node(lt, a, b))->TreeNode_0.Mth == mth(d.subrange(a, b)))
  && nodes_complete(db, lt) }
// only complete subtrees are ever stored
pub open spec fn nodes_complete(db: Db, lt: int) -> bool { forall|a: int, b: int| i64r(a) && i64r(b) && #[trigger] stored(db, K::Node(lt, a, b)) ==> complete(a, b) }
#[verifier::opaque]
pub open spec fn roots_ok(db: Db, lt: int, d: Seq<Seq<u8>>) -> bool
{ forall|m: int| 1 <= m <= d.len() ==> #[trigger] stored(db, K::Root(lt, m)) && rec(db, K::Root(lt, m))->LogTreeHash_0.Mth == mth(d.subrange(0, m)) }
pub open spec fn index_at(db: Db, lt: int, h: Seq<u8>) -> int { rec(db, K::Index(lt, h))->EntryIndex_0.Index }
#[verifier::opaque]
pub open spec fn index_ok(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>) -> bool
{
    (forall|i: int| 0 <= i < d.len() ==> stored(db, K::Index(lt, #[trigger] d[i])) && index_at(db, lt, d[i]) == i)
    && (forall|h: Seq<u8>| #[trigger] stored(db, K::Index(lt, h)) ==> (0 <= index_at(db, lt, h) < d.len() && d[index_at(db, lt, h)] == h) || (index_at(db, lt, h) == d.len() && pend == Some(h)))
}
#[verifier::opaque]
pub open spec fn data_ok(db: Db, lt: int, d: Seq<Seq<u8>>) -> bool
{ forall|i: int| 0 <= i < d.len() ==> stored(db, K::Data(lt, #[trigger] d[i])) && leaf_hash(rec(db, K::Data(lt, d[i]))->LeafData_0.LeafInput) == d[i] }
pub open spec fn log_root(d: Seq<Seq<u8>>) -> Seq<u8> { if d.len() == 0 { Seq::empty() } else { mth(d) } }
pub open spec fn max_log() -> int { 0x1000_0000_0000_0000 }
// the log holds exactly the entries with the leaf hashes d; pend is an entry whose addition was begun and not finished
pub open spec fn log_inv(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>) -> bool
{ valid_lt(lt) && typed(db) && d.len() <= max_log() && hashes(d) && leaves_ok(db, lt, d) && nodes_ok(db, lt, d) && roots_ok(db, lt, d) && index_ok(db, lt, d, pend) && data_ok(db, lt, d) }
pub open spec fn log_ok(db: Db, lt: int, n: int) -> bool { 0 <= n && log_inv(db, lt, log_of(db, lt, n), None) }
// the records of log lt that describe its first n entries
pub open spec fn log_key(k: K, lt: int, n: int) -> bool {
    match k { K::Leaf(l, i) => l == lt && 0 <= i < n, K::Node(l, a, b) => l == lt, K::Root(l, m) => l == lt && 1 <= m <= n, K::Index(l, h) => l == lt, K::Data(l, h) => l == lt, _ => false }
}
pub open spec fn same(db: Db, db2: Db, k: K) -> bool { stored(db, k) == stored(db2, k) && (stored(db, k) ==> rec(db, k) == rec(db2, k)) }
pub open spec fn is_leaf(k: K, lt: int, n: int) -> bool { k matches K::Leaf(l, i) && l == lt && 0 <= i < n }
pub open spec fn is_node(k: K, lt: int) -> bool { k matches K::Node(l, a, b) && l == lt }
pub open spec fn is_root(k: K, lt: int, n: int) -> bool { k matches K::Root(l, m) && l == lt && 1 <= m <= n }
pub open spec fn is_index(k: K, lt: int) -> bool { k matches K::Index(l, h) && l == lt }
pub open spec fn is_data(k: K, lt: int) -> bool { k matches K::Data(l, h) && l == lt }
pub proof fn leaves_frame(db: Db, db2: Db, lt: int, d: Seq<Seq<u8>>)
    requires leaves_ok(db, lt, d), valid_lt(lt), d.len() <= max_log(), forall|k: K| kvalid(k) && is_leaf(k, lt, d.len() as int) ==> #[trigger] same(db, db2, k)
    ensures leaves_ok(db2, lt, d)
{ reveal(leaves_ok);
  assert forall|i: int| 0 <= i < d.len() implies #[trigger] stored(db2, K::Leaf(lt, i)) && leaf_at(db2, lt, i) == d[i] by { assert(stored(db, K::Leaf(lt, i))); assert(same(db, db2, K::Leaf(lt, i))); } }
pub proof fn nodes_frame(db: Db, db2: Db, lt: int, d: Seq<Seq<u8>>)
    requires nodes_ok(db, lt, d), valid_lt(lt), d.len() <= max_log(), forall|k: K| kvalid(k) && is_node(k, lt) ==> #[trigger] same(db, db2, k)
    ensures nodes_ok(db2, lt, d)
{ reveal(nodes_ok);
  assert forall|a: int, b: int| complete(a, b) && b <= d.len() && b - a >= 2 implies #[trigger] stored(db2, K::Node(lt, a, b)) && rec(db2, K::Node(lt, a, b))->TreeNode_0.Mth == mth(d.subrange(a, b)) by { assert(stored(db, K::Node(lt, a, b))); assert(same(db, db2, K::Node(lt, a, b))); }
  assert forall|a: int, b: int| i64r(a) && i64r(b) && #[trigger] stored(db2, K::Node(lt, a, b)) implies complete(a, b) by { assert(same(db, db2, K::Node(lt, a, b))); assert(stored(db, K::Node(lt, a, b))); } }
pub proof fn roots_frame(db: Db, db2: Db, lt: int, d: Seq<Seq<u8>>)
    requires roots_ok(db, lt, d), valid_lt(lt), d.len() <= max_log(), forall|k: K| kvalid(k) && is_root(k, lt, d.len() as int) ==> #[trigger] same(db, db2, k)
    ensures roots_ok(db2, lt, d)
{ reveal(roots_ok);
  assert forall|m: int| 1 <= m <= d.len() implies #[trigger] stored(db2, K::Root(lt, m)) && rec(db2, K::Root(lt, m))->LogTreeHash_0.Mth == mth(d.subrange(0, m)) by { assert(stored(db, K::Root(lt, m))); assert(same(db, db2, K::Root(lt, m))); } }
pub proof fn index_frame(db: Db, db2: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>)
    requires index_ok(db, lt, d, pend), valid_lt(lt), forall|k: K| kvalid(k) && is_index(k, lt) ==> #[trigger] same(db, db2, k)
    ensures index_ok(db2, lt, d, pend)
{ reveal(index_ok); let n = d.len() as int;
  assert forall|i: int| 0 <= i < n implies stored(db2, K::Index(lt, #[trigger] d[i])) && index_at(db2, lt, d[i]) == i by { assert(same(db, db2, K::Index(lt, d[i]))); }
  assert forall|h: Seq<u8>| #[trigger] stored(db2, K::Index(lt, h)) implies (0 <= index_at(db2, lt, h) < n && d[index_at(db2, lt, h)] == h) || (index_at(db2, lt, h) == n && pend == Some(h)) by { assert(same(db, db2, K::Index(lt, h))); assert(stored(db, K::Index(lt, h))); } }
pub proof fn data_frame(db: Db, db2: Db, lt: int, d: Seq<Seq<u8>>)
    requires data_ok(db, lt, d), valid_lt(lt), forall|k: K| kvalid(k) && is_data(k, lt) ==> #[trigger] same(db, db2, k)
    ensures data_ok(db2, lt, d)
{ reveal(data_ok);
  assert forall|i: int| 0 <= i < d.len() implies stored(db2, K::Data(lt, #[trigger] d[i])) && leaf_hash(rec(db2, K::Data(lt, d[i]))->LeafData_0.LeafInput) == d[i] by { assert(same(db, db2, K::Data(lt, d[i]))); } }
pub proof fn log_frame(db: Db, db2: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>)
    requires log_inv(db, lt, d, pend), typed(db2), forall|k: K| kvalid(k) && log_key(k, lt, d.len() as int) ==> #[trigger] same(db, db2, k)
    ensures log_inv(db2, lt, d, pend)
{ leaves_frame(db, db2, lt, d); nodes_frame(db, db2, lt, d); roots_frame(db, db2, lt, d); index_frame(db, db2, lt, d, pend); data_frame(db, db2, lt, d); }
pub proof fn store_same(db: Db, k: K, v: PVal)
    requires kvalid(k), kind_ok(k, v), typed(db)
    ensures typed(db.insert(enc(k), v)), stored(db.insert(enc(k), v), k), rec(db.insert(enc(k), v), k) == v, forall|j: K| kvalid(j) && j != k ==> #[trigger] same(db, db.insert(enc(k), v), j)
{ store_one(db, k, v); 
  assert forall|j: K| kvalid(j) && j != k implies #[trigger] same(db, db.insert(enc(k), v), j) by { assert(stored(db.insert(enc(k), v), j) == stored(db, j)); } }
// ---- one write at a time
// the data of an entry may be written again: the leaf hash pins its leaf input
pub proof fn put_data(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, h: Seq<u8>, v: pb_LeafData)
    requires log_inv(db, lt, d, pend), leaf_hash(v.LeafInput) == h
    ensures log_inv(db.insert(enc(K::Data(lt, h)), PVal::LeafData(v)), lt, d, pend)
{
    let k = K::Data(lt, h);
    let db2 = db.insert(enc(k), PVal::LeafData(v));
    store_same(db, k, PVal::LeafData(v));
    leaves_frame(db, db2, lt, d); nodes_frame(db, db2, lt, d); roots_frame(db, db2, lt, d); index_frame(db, db2, lt, d, pend);
    assert(data_ok(db2, lt, d)) by { reveal(data_ok);
        assert forall|i: int| 0 <= i < d.len() implies stored(db2, K::Data(lt, #[trigger] d[i])) && leaf_hash(rec(db2, K::Data(lt, d[i]))->LeafData_0.LeafInput) == d[i] by { if d[i] != h { assert(K::Data(lt, d[i]) != k); assert(same(db, db2, K::Data(lt, d[i]))); } } }
}
// a record at or after the log's end describes no entry yet
pub open spec fn beyond(k: K, lt: int, n: int) -> bool {
    match k { K::Leaf(l, i) => l != lt || i >= n, K::Node(l, a, b) => l != lt || (b > n && complete(a, b)), K::Root(l, m) => l != lt || m > n, K::Index(l, h) => l != lt, K::Data(l, h) => l != lt, K::Size => true, K::MapNode(_, _) => true }
}
pub proof fn put_beyond(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, k: K, v: PVal)
    requires log_inv(db, lt, d, pend), kvalid(k), kind_ok(k, v), beyond(k, lt, d.len() as int)
    ensures log_inv(db.insert(enc(k), v), lt, d, pend)
{
    let db2 = db.insert(enc(k), v);
    store_same(db, k, v);
    if is_node(k, lt) {
        leaves_frame(db, db2, lt, d); roots_frame(db, db2, lt, d); index_frame(db, db2, lt, d, pend); data_frame(db, db2, lt, d);
        reveal(nodes_ok);
        assert forall|a: int, b: int| complete(a, b) && b <= d.len() && b - a >= 2 implies #[trigger] stored(db2, K::Node(lt, a, b)) && rec(db2, K::Node(lt, a, b))->TreeNode_0.Mth == mth(d.subrange(a, b)) by { assert(stored(db, K::Node(lt, a, b))); assert(same(db, db2, K::Node(lt, a, b))); }
        assert forall|a: int, b: int| i64r(a) && i64r(b) && #[trigger] stored(db2, K::Node(lt, a, b)) implies complete(a, b) by { if K::Node(lt, a, b) != k { assert(same(db, db2, K::Node(lt, a, b))); assert(stored(db, K::Node(lt, a, b))); } }
    } else { log_frame(db, db2, lt, d, pend); }
}
pub proof fn put_new(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, k: K, v: PVal)
    ensures log_inv(db, lt, d, pend) && kvalid(k) && kind_ok(k, v) && beyond(k, lt, d.len() as int) ==> log_inv(db.insert(enc(k), v), lt, d, pend) && stored(db.insert(enc(k), v), k) && rec(db.insert(enc(k), v), k) == v && forall|j: K| kvalid(j) && j != k ==> #[trigger] same(db, db.insert(enc(k), v), j)
{ if log_inv(db, lt, d, pend) && kvalid(k) && kind_ok(k, v) && beyond(k, lt, d.len() as int) { put_beyond(db, lt, d, pend, k, v); store_same(db, k, v); } }
// the index of a new entry
pub proof fn put_index(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, h: Seq<u8>, v: pb_EntryIndex)
    requires log_inv(db, lt, d, pend), pend is None || pend == Some(h), v.Index == d.len(), !stored(db, K::Index(lt, h)) || index_at(db, lt, h) >= d.len()
    ensures log_inv(db.insert(enc(K::Index(lt, h)), PVal::EntryIndex(v)), lt, d, Some(h))
{
    let k = K::Index(lt, h);
    let db2 = db.insert(enc(k), PVal::EntryIndex(v));
    store_same(db, k, PVal::EntryIndex(v));
    leaves_frame(db, db2, lt, d); nodes_frame(db, db2, lt, d); roots_frame(db, db2, lt, d); data_frame(db, db2, lt, d);
    let n = d.len() as int;
    assert(index_ok(db2, lt, d, Some(h))) by { reveal(index_ok);
        assert forall|i: int| 0 <= i < n implies stored(db2, K::Index(lt, #[trigger] d[i])) && index_at(db2, lt, d[i]) == i by { assert(stored(db, K::Index(lt, d[i]))); assert(d[i] != h); assert(K::Index(lt, d[i]) != k); assert(same(db, db2, K::Index(lt, d[i]))); }
        assert forall|x: Seq<u8>| #[trigger] stored(db2, K::Index(lt, x)) implies (0 <= index_at(db2, lt, x) < n && d[index_at(db2, lt, x)] == x) || (index_at(db2, lt, x) == n && Some(h) == Some(x)) by { if x != h { assert(K::Index(lt, x) != k); assert(same(db, db2, K::Index(lt, x))); assert(stored(db, K::Index(lt, x))); } }
    }
}
pub proof fn leaves_ext(db: Db, lt: int, d: Seq<Seq<u8>>, h: Seq<u8>)
    requires leaves_ok(db, lt, d), stored(db, K::Leaf(lt, d.len() as int)), leaf_at(db, lt, d.len() as int) == h
    ensures leaves_ok(db, lt, d.push(h))
{ reveal(leaves_ok); let e = d.push(h);
  assert forall|i: int| 0 <= i < e.len() implies #[trigger] stored(db, K::Leaf(lt, i)) && leaf_at(db, lt, i) == e[i] by { if i < d.len() { assert(stored(db, K::Leaf(lt, i))); assert(e[i] == d[i]); } else { assert(i == d.len()); } } }
// the records of one more entry are all there: every complete subtree that ends with it, its root, index and data
pub proof fn log_extend(db: Db, lt: int, d: Seq<Seq<u8>>, h: Seq<u8>)
    requires log_inv(db, lt, d, Some(h)), d.len() < max_log(), h.len() == 32,
        stored(db, K::Leaf(lt, d.len() as int)), leaf_at(db, lt, d.len() as int) == h,
        forall|a: int| complete(a, d.len() as int + 1) && d.len() as int + 1 - a >= 2 ==> #[trigger] stored(db, K::Node(lt, a, d.len() as int + 1)) && rec(db, K::Node(lt, a, d.len() as int + 1))->TreeNode_0.Mth == mth(d.push(h).subrange(a, d.len() as int + 1)),
        stored(db, K::Root(lt, d.len() as int + 1)), rec(db, K::Root(lt, d.len() as int + 1))->LogTreeHash_0.Mth == mth(d.push(h)),
        stored(db, K::Index(lt, h)), index_at(db, lt, h) == d.len(),
        stored(db, K::Data(lt, h)), leaf_hash(rec(db, K::Data(lt, h))->LeafData_0.LeafInput) == h,
    ensures log_inv(db, lt, d.push(h), None)
{
    let n = d.len() as int; let e = d.push(h);
    leaves_ext(db, lt, d, h);
    assert(nodes_ok(db, lt, e)) by { reveal(nodes_ok);
    assert forall|a: int, b: int| complete(a, b) && b <= e.len() && b - a >= 2 implies #[trigger] stored(db, K::Node(lt, a, b)) && rec(db, K::Node(lt, a, b))->TreeNode_0.Mth == mth(e.subrange(a, b)) by { if b <= n { assert(e.subrange(a, b) =~= d.subrange(a, b)); } else { assert(stored(db, K::Node(lt, a, n + 1))); } } }
    assert(roots_ok(db, lt, e)) by { reveal(roots_ok);
    assert forall|m: int| 1 <= m <= e.len() implies #[trigger] stored(db, K::Root(lt, m)) && rec(db, K::Root(lt, m))->LogTreeHash_0.Mth == mth(e.subrange(0, m)) by { if m <= n { assert(e.subrange(0, m) =~= d.subrange(0, m)); } else { assert(e.subrange(0, m) =~= e); } } }
    assert(index_ok(db, lt, e, None)) by { reveal(index_ok);
    assert forall|i: int| 0 <= i < e.len() implies stored(db, K::Index(lt, #[trigger] e[i])) && index_at(db, lt, e[i]) == i by { if i < n { assert(e[i] == d[i]); } }
    assert forall|x: Seq<u8>| #[trigger] stored(db, K::Index(lt, x)) implies (0 <= index_at(db, lt, x) < n + 1 && e[index_at(db, lt, x)] == x) by { } }
    assert(data_ok(db, lt, e)) by { reveal(data_ok);
    assert forall|i: int| 0 <= i < e.len() implies stored(db, K::Data(lt, #[trigger] e[i])) && leaf_hash(rec(db, K::Data(lt, e[i]))->LeafData_0.LeafInput) == e[i] by { if i < n { assert(e[i] == d[i]); } } }
}
// reading the stored pieces back
pub proof fn leaf_stored(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, i: int)
    requires log_inv(db, lt, d, pend), 0 <= i < d.len()
    ensures stored(db, K::Leaf(lt, i)), rec(db, K::Leaf(lt, i)) is LeafNode, leaf_at(db, lt, i) == d[i], d[i].len() == 32, mth(d.subrange(i, i + 1)) == d[i],
        stored(db, K::Index(lt, d[i])), rec(db, K::Index(lt, d[i])) is EntryIndex, index_at(db, lt, d[i]) == i,
        stored(db, K::Data(lt, d[i])), rec(db, K::Data(lt, d[i])) is LeafData, leaf_hash(rec(db, K::Data(lt, d[i]))->LeafData_0.LeafInput) == d[i]
{ reveal(leaves_ok); reveal(index_ok); reveal(data_ok); assert(stored(db, K::Leaf(lt, i)) && stored(db, K::Index(lt, d[i])) && stored(db, K::Data(lt, d[i]))); assert(d.subrange(i, i + 1).len() == 1 && d.subrange(i, i + 1)[0] == d[i]); }
pub proof fn root_stored(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, m: int)
    requires log_inv(db, lt, d, pend), 1 <= m <= d.len()
    ensures stored(db, K::Root(lt, m)), rec(db, K::Root(lt, m)) is LogTreeHash, rec(db, K::Root(lt, m))->LogTreeHash_0.Mth == mth(d.subrange(0, m))
{ reveal(roots_ok); assert(stored(db, K::Root(lt, m))); }
pub proof fn index_found(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, h: Seq<u8>)
    requires log_inv(db, lt, d, pend)
    ensures stored(db, K::Index(lt, h)) ==> rec(db, K::Index(lt, h)) is EntryIndex && ((0 <= index_at(db, lt, h) < d.len() && d[index_at(db, lt, h)] == h) || (index_at(db, lt, h) == d.len() && pend == Some(h))),
        d.contains(h) ==> stored(db, K::Index(lt, h)) && 0 <= index_at(db, lt, h) < d.len() && d[index_at(db, lt, h)] == h
{ reveal(index_ok); if d.contains(h) { let i = choose|i: int| 0 <= i < d.len() && d[i] == h; assert(stored(db, K::Index(lt, d[i]))); } }
// the record of a range: a leaf or a tree node
pub open spec fn range_key(lt: int, a: int, b: int) -> K { if b - a == 1 { K::Leaf(lt, a) } else { K::Node(lt, a, b) } }
pub open spec fn range_val(db: Db, lt: int, a: int, b: int) -> Seq<u8> { if b - a == 1 { rec(db, K::Leaf(lt, a))->LeafNode_0.Mth } else { rec(db, K::Node(lt, a, b))->TreeNode_0.Mth } }
pub proof fn range_stored(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, a: int, b: int)
    requires log_inv(db, lt, d, pend), complete(a, b), b <= d.len()
    ensures stored(db, range_key(lt, a, b)), range_val(db, lt, a, b) == mth(d.subrange(a, b)), mth(d.subrange(a, b)).len() == 32
{ hashes_sub(d, a, b); mth_len(d.subrange(a, b)); if b - a == 1 { leaf_stored(db, lt, d, pend, a); } else { reveal(nodes_ok); assert(stored(db, K::Node(lt, a, b))); } }
pub proof fn range_kind(db: Db, lt: int, a: int, b: int)
    ensures typed(db) && valid_lt(lt) && i64r(a) && i64r(b) && stored(db, range_key(lt, a, b)) ==> kind_ok(range_key(lt, a, b), rec(db, range_key(lt, a, b)))
{ if valid_lt(lt) && i64r(a) && i64r(b) { assert(kvalid(range_key(lt, a, b))); } }
// what a lookup of a range may give
pub open spec fn got(db: Db, lt: int, r: (int, int), v: Seq<u8>, lax: bool, fault: bool) -> bool
{ (stored(db, range_key(lt, r.0, r.1)) && v == range_val(db, lt, r.0, r.1)) || (lax && v.len() == 0 && (fault || !stored(db, range_key(lt, r.0, r.1)))) }
// a decomposition is made of stored ranges
pub proof fn decomp_stored(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, s: int, e: int)
    requires log_inv(db, lt, d, pend), 0 <= s <= e <= d.len(), s < e ==> aligned(s, e)
    ensures s < e ==> decomp(s, e).len() > 0,
        forall|q: int| 0 <= q < decomp(s, e).len() ==> 0 <= (#[trigger] decomp(s, e)[q]).0 < decomp(s, e)[q].1 <= e && stored(db, range_key(lt, decomp(s, e)[q].0, decomp(s, e)[q].1)) && range_val(db, lt, decomp(s, e)[q].0, decomp(s, e)[q].1) == mths(d, decomp(s, e))[q]
{
    decomp_complete(s, e);
    let r = decomp(s, e);
    assert forall|q: int| 0 <= q < r.len() implies 0 <= (#[trigger] r[q]).0 < r[q].1 <= e && stored(db, range_key(lt, r[q].0, r[q].1)) && range_val(db, lt, r[q].0, r[q].1) == mths(d, r)[q] by { assert(complete(r[q].0, r[q].1)); range_stored(db, lt, d, pend, r[q].0, r[q].1); }
}
// what is fetched for a decomposition is its hashes, and they fold to the range's hash
pub proof fn decomp_fetched(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, s: int, e: int, h: Seq<Seq<u8>>, fault: bool)
    requires log_inv(db, lt, d, pend), 0 <= s <= e <= d.len(), s < e ==> aligned(s, e)
    ensures h.len() == decomp(s, e).len() && (forall|q: int| 0 <= q < h.len() ==> got(db, lt, decomp(s, e)[q], #[trigger] h[q], false, fault)) ==> h =~= mths(d, decomp(s, e)) && (s < e ==> foldstack(h) == mth(d.subrange(s, e)) && h.len() > 0)
{
    decomp_stored(db, lt, d, pend, s, e);
    if h.len() == decomp(s, e).len() && (forall|q: int| 0 <= q < h.len() ==> got(db, lt, decomp(s, e)[q], #[trigger] h[q], false, fault)) {
    assert forall|q: int| 0 <= q < h.len() implies h[q] == mths(d, decomp(s, e))[q] by { assert(got(db, lt, decomp(s, e)[q], h[q], false, fault)); }
    assert(h =~= mths(d, decomp(s, e)));
    if s < e { fold_decomp(d, s, e); }
    }
}
// only the subtrees that end at m differ
pub open spec fn node_frame(db: Db, db2: Db, lt: int, m: int) -> bool { forall|k: K| kvalid(k) && !(k matches K::Node(l, a, b) && l == lt && b == m) ==> #[trigger] same(db, db2, k) }
// the complete subtrees ending with the last entry of e, up to width w, are stored
pub open spec fn nodes_done(db: Db, lt: int, e: Seq<Seq<u8>>, w: int) -> bool
{ forall|a: int| complete(a, e.len() as int) && 2 <= e.len() - a <= w ==> #[trigger] stored(db, K::Node(lt, a, e.len() as int)) && rec(db, K::Node(lt, a, e.len() as int))->TreeNode_0.Mth == mth(e.subrange(a, e.len() as int)) }
pub proof fn part_put(db0: Db, db: Db, lt: int, d: Seq<Seq<u8>>, h: Seq<u8>, w: int, v: pb_TreeNode)
    ensures ({ let e = d.push(h); let m = d.len() as int + 1; let db2 = db.insert(enc(K::Node(lt, m - w, m)), PVal::TreeNode(v));
        log_inv(db, lt, d, Some(h)) && w % 2 == 0 && is_p2(w) && 0 <= m - w && m % w == 0 && 2 <= w && d.len() < max_log() && node_frame(db0, db, lt, m) && nodes_done(db, lt, e, w / 2) && v.Mth == mth(e.subrange(m - w, m))
        ==> log_inv(db2, lt, d, Some(h)) && node_frame(db0, db2, lt, m) && nodes_done(db2, lt, e, w) })
{
    let e = d.push(h); let m = d.len() as int + 1; let k0 = K::Node(lt, m - w, m); let db2 = db.insert(enc(k0), PVal::TreeNode(v));
    if log_inv(db, lt, d, Some(h)) && w % 2 == 0 && is_p2(w) && 0 <= m - w && m % w == 0 && 2 <= w && d.len() < max_log() && node_frame(db0, db, lt, m) && nodes_done(db, lt, e, w / 2) && v.Mth == mth(e.subrange(m - w, m)) {
        assert((m - w) % w == 0) by { vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(m, w); }
        put_beyond(db, lt, d, Some(h), k0, PVal::TreeNode(v)); store_same(db, k0, PVal::TreeNode(v));
        assert forall|k: K| kvalid(k) && !(k matches K::Node(l, a, b) && l == lt && b == m) implies #[trigger] same(db0, db2, k) by { assert(same(db0, db, k)); assert(same(db, db2, k)); }
        assert forall|a: int| complete(a, e.len() as int) && 2 <= e.len() - a <= w implies #[trigger] stored(db2, K::Node(lt, a, e.len() as int)) && rec(db2, K::Node(lt, a, e.len() as int))->TreeNode_0.Mth == mth(e.subrange(a, e.len() as int)) by {
            if a != m - w { assert(m - a <= w / 2) by { if m - a > w / 2 { assert(is_p2(w / 2)); p2_gap(w / 2, m - a); } } assert(stored(db, K::Node(lt, a, m))); assert(same(db, db2, K::Node(lt, a, m))); }
        }
    }
}
pub proof fn aligned0(n: int) ensures n > 0 ==> aligned(0, n) { if n > 0 { cover_props(n); is_p2_dbl(cover(n)); assert(0int % cover(n) == 0) by { vstd::arithmetic::div_mod::lemma_small_mod(0, cover(n) as nat); } } }
// the records an addition of h at index n may write
pub open spec fn add_key(k: K, lt: int, h: Seq<u8>, n: int) -> bool {
    match k { K::Data(l, x) => l == lt && x == h, K::Leaf(l, i) => l == lt && i == n, K::Index(l, x) => l == lt && x == h, K::Root(l, m) => l == lt && m == n + 1, K::Node(l, a, b) => l == lt && b == n + 1, _ => false }
}
pub open spec fn add_frame(db: Db, db2: Db, lt: int, h: Seq<u8>, n: int) -> bool { forall|k: K| kvalid(k) && !add_key(k, lt, h, n) ==> #[trigger] same(db, db2, k) }
pub proof fn log_of_same(db: Db, db2: Db, lt: int, n: int)
    requires valid_lt(lt), 0 <= n <= max_log(), forall|k: K| kvalid(k) && is_leaf(k, lt, n) ==> #[trigger] same(db, db2, k), forall|i: int| 0 <= i < n ==> stored(db, K::Leaf(lt, i))
    ensures log_of(db2, lt, n) =~= log_of(db, lt, n)
{ assert forall|i: int| 0 <= i < n implies leaf_at(db2, lt, i) == leaf_at(db, lt, i) by { assert(stored(db, K::Leaf(lt, i))); assert(same(db, db2, K::Leaf(lt, i))); } }
pub proof fn log_of_inv(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>)
    requires log_inv(db, lt, d, pend)
    ensures log_of(db, lt, d.len() as int) =~= d
{ assert forall|i: int| 0 <= i < d.len() implies leaf_at(db, lt, i) == d[i] by { leaf_stored(db, lt, d, pend, i); } }
pub open spec fn begun1(db: Db, lt: int, h: Seq<u8>, v: pb_LeafData) -> Db { db.insert(enc(K::Data(lt, h)), PVal::LeafData(v)) }
pub open spec fn begun2(db: Db, lt: int, h: Seq<u8>, v: pb_LeafData, n: int) -> Db { begun1(db, lt, h, v).insert(enc(K::Leaf(lt, n)), PVal::LeafNode(pb_LeafNode { Mth: h })) }
pub open spec fn begun3(db: Db, lt: int, h: Seq<u8>, v: pb_LeafData, n: int) -> Db { begun2(db, lt, h, v, n).insert(enc(K::Index(lt, h)), PVal::EntryIndex(pb_EntryIndex { Index: n })) }
pub open spec fn can_add(db: Db, lt: int, d: Seq<Seq<u8>>, h: Seq<u8>) -> bool { d.len() < max_log() && (log_inv(db, lt, d, None) || log_inv(db, lt, d, Some(h))) }
pub open spec fn begun(db0: Db, db: Db, lt: int, d: Seq<Seq<u8>>, h: Seq<u8>) -> bool { (log_inv(db, lt, d, None) || log_inv(db, lt, d, Some(h))) && log_of(db, lt, d.len() as int) == d && add_frame(db0, db, lt, h, d.len() as int) }
#[verifier::spinoff_prover]
pub proof fn add_steps(db: Db, lt: int, d: Seq<Seq<u8>>, h: Seq<u8>, v: pb_LeafData)
    ensures can_add(db, lt, d, h) ==> begun(db, db, lt, d, h) && (stored(db, K::Index(lt, h)) ==> rec(db, K::Index(lt, h)) is EntryIndex && 0 <= index_at(db, lt, h) && (index_at(db, lt, h) < d.len() ==> d.contains(h))),
      can_add(db, lt, d, h) && leaf_hash(v.LeafInput) == h && (!stored(db, K::Index(lt, h)) || index_at(db, lt, h) >= d.len()) ==> {
        let n = d.len() as int;
        &&& begun(db, begun1(db, lt, h, v), lt, d, h) &&& begun(db, begun2(db, lt, h, v, n), lt, d, h) &&& begun(db, begun3(db, lt, h, v, n), lt, d, h)
        &&& log_inv(begun3(db, lt, h, v, n), lt, d, Some(h)) &&& !d.contains(h)
        &&& stored(begun3(db, lt, h, v, n), K::Leaf(lt, n)) &&& leaf_at(begun3(db, lt, h, v, n), lt, n) == h
        &&& stored(begun3(db, lt, h, v, n), K::Index(lt, h)) &&& index_at(begun3(db, lt, h, v, n), lt, h) == n
        &&& stored(begun3(db, lt, h, v, n), K::Data(lt, h)) &&& rec(begun3(db, lt, h, v, n), K::Data(lt, h)) == PVal::LeafData(v)
      }
{
    if can_add(db, lt, d, h) {
        let n = d.len() as int;
        let pend: Option<Seq<u8>> = if log_inv(db, lt, d, None) { None } else { Some(h) };
        log_of_inv(db, lt, d, pend);
        index_found(db, lt, d, pend, h);
        if leaf_hash(v.LeafInput) == h && (!stored(db, K::Index(lt, h)) || index_at(db, lt, h) >= n) {
            let d1 = begun1(db, lt, h, v); let d2 = begun2(db, lt, h, v, n); let d3 = begun3(db, lt, h, v, n);
            let k1 = K::Data(lt, h); let k2 = K::Leaf(lt, n); let k3 = K::Index(lt, h);
            put_data(db, lt, d, pend, h, v); store_same(db, k1, PVal::LeafData(v)); log_of_inv(d1, lt, d, pend);
            put_beyond(d1, lt, d, pend, k2, PVal::LeafNode(pb_LeafNode { Mth: h })); store_same(d1, k2, PVal::LeafNode(pb_LeafNode { Mth: h })); log_of_inv(d2, lt, d, pend);
            assert(same(db, d1, k3)); assert(same(d1, d2, k3));
            put_index(d2, lt, d, pend, h, pb_EntryIndex { Index: n }); store_same(d2, k3, PVal::EntryIndex(pb_EntryIndex { Index: n })); log_of_inv(d3, lt, d, Some(h));
            assert(add_frame(db, d1, lt, h, n)) by { assert forall|k: K| kvalid(k) && !add_key(k, lt, h, n) implies #[trigger] same(db, d1, k) by { assert(k != k1); } }
            assert(add_frame(db, d2, lt, h, n)) by { assert forall|k: K| kvalid(k) && !add_key(k, lt, h, n) implies #[trigger] same(db, d2, k) by { assert(k != k2); assert(same(db, d1, k)); assert(same(d1, d2, k)); } }
            assert(add_frame(db, d3, lt, h, n)) by { assert forall|k: K| kvalid(k) && !add_key(k, lt, h, n) implies #[trigger] same(db, d3, k) by { assert(k != k3); assert(same(db, d2, k)); assert(same(d2, d3, k)); } }
            assert(same(d1, d2, k1)); assert(same(d2, d3, k1)); assert(same(d2, d3, k2));
        }
    }
}
pub open spec fn added(db0: Db, db: Db, lt: int, d: Seq<Seq<u8>>, h: Seq<u8>, v: pb_LeafData) -> bool
{ log_inv(db, lt, d.push(h), None) && log_of(db, lt, d.len() as int + 1) == d.push(h) && add_frame(db0, db, lt, h, d.len() as int) && rec(db, K::Data(lt, h)) == PVal::LeafData(v) }
pub open spec fn rooted(db: Db, lt: int, e: Seq<Seq<u8>>) -> Db { db.insert(enc(K::Root(lt, e.len() as int)), PVal::LogTreeHash(pb_LogTreeHash { Mth: mth(e) })) }
#[verifier::spinoff_prover]
pub proof fn add_end(db: Db, d4: Db, lt: int, d: Seq<Seq<u8>>, h: Seq<u8>, v: pb_LeafData)
    requires can_add(db, lt, d, h), leaf_hash(v.LeafInput) == h, !stored(db, K::Index(lt, h)) || index_at(db, lt, h) >= d.len(),
        node_frame(begun3(db, lt, h, v, d.len() as int), d4, lt, d.len() as int + 1), log_inv(d4, lt, d, Some(h)),
    ensures begun(db, d4, lt, d, h), nodes_done(d4, lt, d.push(h), d.len() as int + 1) ==> added(db, rooted(d4, lt, d.push(h)), lt, d, h, v)
{
    let n = d.len() as int; let e = d.push(h); let d3 = begun3(db, lt, h, v, n); let d5 = rooted(d4, lt, e);
    add_steps(db, lt, d, h, v);
    log_of_inv(d4, lt, d, Some(h));
    assert(add_frame(db, d4, lt, h, n)) by { assert forall|k: K| kvalid(k) && !add_key(k, lt, h, n) implies #[trigger] same(db, d4, k) by { assert(same(db, d3, k)); assert(same(d3, d4, k)); } }
    if nodes_done(d4, lt, e, n + 1) {
        let k5 = K::Root(lt, n + 1); let v5 = PVal::LogTreeHash(pb_LogTreeHash { Mth: mth(e) });
        put_beyond(d4, lt, d, Some(h), k5, v5); store_same(d4, k5, v5);
        assert(same(d3, d4, K::Leaf(lt, n))); assert(same(d4, d5, K::Leaf(lt, n)));
        assert(same(d3, d4, K::Index(lt, h))); assert(same(d4, d5, K::Index(lt, h)));
        assert(same(d3, d4, K::Data(lt, h))); assert(same(d4, d5, K::Data(lt, h)));
        assert forall|a: int| complete(a, n + 1) && n + 1 - a >= 2 implies #[trigger] stored(d5, K::Node(lt, a, n + 1)) && rec(d5, K::Node(lt, a, n + 1))->TreeNode_0.Mth == mth(e.subrange(a, n + 1)) by { assert(stored(d4, K::Node(lt, a, n + 1))); assert(same(d4, d5, K::Node(lt, a, n + 1))); }
        log_extend(d5, lt, d, h);
        log_of_inv(d5, lt, e, None);
        assert(add_frame(db, d5, lt, h, n)) by { assert forall|k: K| kvalid(k) && !add_key(k, lt, h, n) implies #[trigger] same(db, d5, k) by { assert(k != k5); assert(same(db, d4, k)); assert(same(d4, d5, k)); } }
    }
}
pub proof fn add_end_all(db: Db, lt: int, d: Seq<Seq<u8>>, h: Seq<u8>, v: pb_LeafData)
    ensures can_add(db, lt, d, h) && leaf_hash(v.LeafInput) == h && (!stored(db, K::Index(lt, h)) || index_at(db, lt, h) >= d.len()) ==>
        forall|d4: Db| #[trigger] node_frame(begun3(db, lt, h, v, d.len() as int), d4, lt, d.len() as int + 1) && log_inv(d4, lt, d, Some(h)) ==> begun(db, d4, lt, d, h) && (nodes_done(d4, lt, d.push(h), d.len() as int + 1) ==> added(db, rooted(d4, lt, d.push(h)), lt, d, h, v))
{
    if can_add(db, lt, d, h) && leaf_hash(v.LeafInput) == h && (!stored(db, K::Index(lt, h)) || index_at(db, lt, h) >= d.len()) {
        assert forall|d4: Db| #[trigger] node_frame(begun3(db, lt, h, v, d.len() as int), d4, lt, d.len() as int + 1) && log_inv(d4, lt, d, Some(h)) implies begun(db, d4, lt, d, h) && (nodes_done(d4, lt, d.push(h), d.len() as int + 1) ==> added(db, rooted(d4, lt, d.push(h)), lt, d, h, v)) by { add_end(db, d4, lt, d, h, v); }
    }
}
pub proof fn decomp_stored0(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, e: int)
    ensures log_inv(db, lt, d, pend) && 0 <= e <= d.len() ==> forall|q: int| 0 <= q < decomp(0, e).len() ==> 0 <= (#[trigger] decomp(0, e)[q]).0 < decomp(0, e)[q].1 <= e && stored(db, range_key(lt, decomp(0, e)[q].0, decomp(0, e)[q].1))
{ if log_inv(db, lt, d, pend) && 0 <= e <= d.len() { aligned0(e); decomp_stored(db, lt, d, pend, 0, e); } }
pub proof fn decomp_fetched0(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, e: int, h: Seq<Seq<u8>>, fault: bool)
    ensures log_inv(db, lt, d, pend) && 0 <= e <= d.len() && h.len() == decomp(0, e).len() && (forall|q: int| 0 <= q < h.len() ==> got(db, lt, decomp(0, e)[q], #[trigger] h[q], false, fault)) ==> h =~= mths(d, decomp(0, e))
{ if log_inv(db, lt, d, pend) && 0 <= e <= d.len() { aligned0(e); decomp_fetched(db, lt, d, pend, 0, e, h, fault); } }
// a range that is not a complete subtree is never stored; one that is, always
pub proof fn range_lax(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, a: int, b: int, v: Seq<u8>, fault: bool)
    ensures log_inv(db, lt, d, pend) && aligned(a, b) && b <= d.len() && got(db, lt, (a, b), v, true, fault) ==> (v.len() == 0 || v == mth(d.subrange(a, b))) && (is_p2(b - a) && v.len() == 0 ==> fault)
{
    if log_inv(db, lt, d, pend) && aligned(a, b) && b <= d.len() && got(db, lt, (a, b), v, true, fault) {
        if is_p2(b - a) { cover_props(b - a); range_stored(db, lt, d, pend, a, b); }
        else { reveal(nodes_ok); assert(b - a != 1); assert(!complete(a, b)); assert(!stored(db, K::Node(lt, a, b))); }
    }
}
pub proof fn mths_sub(d: Seq<Seq<u8>>, n: int, r: Seq<(int, int)>)
    requires 0 <= n <= d.len(), forall|q: int| 0 <= q < r.len() ==> 0 <= (#[trigger] r[q]).0 <= r[q].1 <= n
    ensures mths(d.subrange(0, n), r) =~= mths(d, r)
{ assert forall|q: int| 0 <= q < r.len() implies mths(d.subrange(0, n), r)[q] == mths(d, r)[q] by { let x = r[q]; assert(d.subrange(0, n).subrange(x.0, x.1) =~= d.subrange(x.0, x.1)); } }
// the ranges of an inclusion proof can all be served, and their hashes verify against the head of that size
pub proof fn inclusion_ready(d: Seq<Seq<u8>>, m: int, n: int)
    ensures 0 <= m < n <= d.len() ==> {
        let r = rpath(m, 0, n);
        &&& (forall|q: int| 0 <= q < r.len() ==> aligned((#[trigger] r[q]).0, r[q].1) && r[q].1 <= n)
        &&& inc_fold(m, n, mths(d, r), d[m]) == Some(mth(d.subrange(0, n)))
        &&& (hashes(d) ==> hashes(mths(d, r)))
    }
{
    if 0 <= m < n <= d.len() {
        let r = rpath(m, 0, n); let e = d.subrange(0, n);
        aligned0(n); rpath_aligned(m, 0, n);
        assert forall|q: int| 0 <= q < r.len() implies aligned((#[trigger] r[q]).0, r[q].1) && r[q].1 <= n by { assert(all_aligned(r, 0, n)); let x = r[q].0; assert(aligned(x, r[q].1)); }
        mths_sub(d, n, r); inclusion_complete(e, m); assert(e[m] == d[m]);
        if hashes(d) { assert forall|q: int| 0 <= q < r.len() implies (#[trigger] mths(d, r)[q]).len() == 32 by { assert(aligned(r[q].0, r[q].1)); hashes_sub(d, r[q].0, r[q].1); mth_len(d.subrange(r[q].0, r[q].1)); } }
    }
}
pub proof fn consistency_ready(d: Seq<Seq<u8>>, m: int, n: int)
    ensures 0 < m < n <= d.len() ==> {
        let r = rsub(m, 0, n, true);
        &&& (forall|q: int| 0 <= q < r.len() ==> aligned((#[trigger] r[q]).0, r[q].1) && r[q].1 <= n)
        &&& cons_fold(m, n, mths(d, r), true, mth(d.subrange(0, m))) == Some((mth(d.subrange(0, m)), mth(d.subrange(0, n))))
        &&& (hashes(d) ==> hashes(mths(d, r)))
    }
{
    if 0 < m < n <= d.len() {
        let r = rsub(m, 0, n, true); let e = d.subrange(0, n);
        aligned0(n); rsub_aligned(m, 0, n, true);
        assert forall|q: int| 0 <= q < r.len() implies aligned((#[trigger] r[q]).0, r[q].1) && r[q].1 <= n by { assert(all_aligned(r, 0, n)); let x = r[q].0; assert(aligned(x, r[q].1)); }
        mths_sub(d, n, r); consistency_complete(e, m, true); assert(e.subrange(0, m) =~= d.subrange(0, m));
        if hashes(d) { assert forall|q: int| 0 <= q < r.len() implies (#[trigger] mths(d, r)[q]).len() == 32 by { assert(aligned(r[q].0, r[q].1)); hashes_sub(d, r[q].0, r[q].1); mth_len(d.subrange(r[q].0, r[q].1)); } }
    }
}
pub proof fn path_is(d: Seq<Seq<u8>>, r: Seq<(int, int)>, p: Seq<Seq<u8>>)
    ensures p.len() == r.len() && (forall|q: int| 0 <= q < p.len() ==> #[trigger] p[q] == mth(d.subrange(r[q].0, r[q].1))) ==> p == mths(d, r)
{ if p.len() == r.len() && (forall|q: int| 0 <= q < p.len() ==> #[trigger] p[q] == mth(d.subrange(r[q].0, r[q].1))) { assert(p =~= mths(d, r)); } }
pub open spec fn data_of(db: Db, lt: int, h: Seq<u8>) -> pb_LeafData { rec(db, K::Data(lt, h))->LeafData_0 }
// data stored under a leaf hash has that leaf hash
pub open spec fn data_at(db: Db, lt: int, h: Seq<u8>) -> bool { stored(db, K::Data(lt, h)) && rec(db, K::Data(lt, h)) is LeafData && leaf_hash(data_of(db, lt, h).LeafInput) == h }
pub proof fn leaf_has_data(db: Db, lt: int, d: Seq<Seq<u8>>, pend: Option<Seq<u8>>, i: int)
    ensures log_inv(db, lt, d, pend) && 0 <= i < d.len() ==> data_at(db, lt, d[i])
{ if log_inv(db, lt, d, pend) && 0 <= i < d.len() { leaf_stored(db, lt, d, pend, i); } }
