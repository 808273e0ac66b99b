// uses: merkle, logtree, stack, keys, bpath, smt, logstore, maptree, mapset, maplook, names, handlers, filter, jsonleaf
//@type pb.MapTreeHashResponse
//@fn json_dec_pb_MapMutation (x: Seq<u8>) -> pb_MapMutation
//@fn json_valid_pb_MapMutation (x: Seq<u8>) -> bool
//@fn box_Option_pb_MapTreeHashResponse_ (x: Option<pb_MapTreeHashResponse>) -> Option<GAny>
// The entry the tree head log holds for a size: the map root with the mutation log head.
pub open spec fn head_msg(mr: Seq<u8>, lr: Seq<u8>, m: int) -> Option<GAny> { box_Option_pb_MapTreeHashResponse_(Some(pb_MapTreeHashResponse { RootHash: mr, MutationLog: Some(pb_LogTreeHashResponse { TreeSize: m, RootHash: lr }) })) }
pub open spec fn head_json(mr: Seq<u8>, lr: Seq<u8>, m: int) -> Seq<u8> { json_enc_Option_GAny_(head_msg(mr, lr, m)) }
pub open spec fn head_data(mr: Seq<u8>, lr: Seq<u8>, m: int) -> pb_LeafData { json_leaf(head_json(mr, lr, m)) }
pub open spec fn head_hash(mr: Seq<u8>, lr: Seq<u8>, m: int) -> Seq<u8> { leaf_hash(head_data(mr, lr, m).LeafInput) }
// assumed of the object hash and SHA-256: heads of different sizes are different entries, and every head can be hashed
pub open spec fn heads_distinct() -> bool { forall|a: Seq<u8>, b: Seq<u8>, i: int, c: Seq<u8>, d: Seq<u8>, j: int| i != j ==> #[trigger] head_hash(a, b, i) != #[trigger] head_hash(c, d, j) }
pub open spec fn heads_hash() -> bool { forall|a: Seq<u8>, b: Seq<u8>, i: int| #[trigger] head_hashes(a, b, i) }
pub open spec fn head_hashes(mr: Seq<u8>, lr: Seq<u8>, m: int) -> bool { json_can_Option_GAny_(head_msg(mr, lr, m)) && jhash_ok(head_json(mr, lr, m)) }
pub open spec fn head_at(db: Db, m: int) -> Seq<u8> { head_hash(smt(contents(db, m), Seq::empty()), mth(log_of(db, 1, m)), m) }
// the map, its mutation log and its tree head log all have size n, and the i-th tree head entry is the head of size i + 1
pub open spec fn lock_ok(db: Db, n: int) -> bool { n <= max_log() && maps_ok(db, n) && forall|i: int| 0 <= i < n ==> #[trigger] leaf_at(db, 2, i) == head_at(db, i + 1) }
// a mutation that can be applied
pub open spec fn appliable(m: pb_MapMutation) -> bool { m.Action == lit!("delete") || ((m.Action == lit!("set") || m.Action == lit!("update")) && m.Value is Some) }
pub open spec fn formed(m: pb_MapMutation) -> bool { (m.Action == lit!("set") || m.Action == lit!("update")) ==> m.Value is Some }
// a map size whose nodes and data are kept stays as it was
pub proof fn map_keep(db: Db, db2: Db, s: int)
    requires map_ok(db, s, contents(db, s)), keeps_data(db, db2), upto_nodes(db, db2, s)
    ensures map_ok(db2, s, contents(db2, s)), map_ok(db2, s, contents(db, s)), agree(contents(db, s), contents(db2, s), Seq::empty()), smt(contents(db, s), Seq::empty()) == smt(contents(db2, s), Seq::empty())
{
    let e = Seq::<bool>::empty();
    bpk_empty();
    if s > 0 { assert(same(db, db2, mkey(s, e))); }
    assert(same_below(db, db2, s, e)) by { assert forall|k: int, q: Seq<bool>| 1 <= k <= s && below(e, q) && q.len() > e.len() && q.len() <= 255 implies #[trigger] same(db, db2, mkey(k, q)) by { } }
    tree_frame(db, db2, s, s, root_rec(db, s), e, contents(db, s));
    contents_is(db2, s, contents(db, s));
    smt_cong(contents(db, s), contents(db2, s), e);
}
// adding to a log of a map leaves the other log and the map alone
pub proof fn add_keeps(db: Db, db2: Db, lt: int, d: Seq<Seq<u8>>, h: Seq<u8>, v: pb_LeafData, n: int)
    requires 0 <= n <= max_log(), typed(db), typed(db2), add_frame(db, db2, lt, h, d.len() as int), leaf_hash(v.LeafInput) == h, valid_lt(lt), stored(db2, K::Data(lt, h)), rec(db2, K::Data(lt, h)) == PVal::LeafData(v)
    ensures keeps_data(db, db2), upto_nodes(db, db2, n)
{
    assert forall|x: Seq<u8>| data_at(db, 1, x) implies #[trigger] data_at(db2, 1, x) by { if !(lt == 1 && x == h) { assert(!add_key(K::Data(1, x), lt, h, d.len() as int)); assert(same(db, db2, K::Data(1, x))); } }
    assert forall|k: int, q: Seq<bool>| 1 <= k <= n && q.len() <= 256 implies #[trigger] same(db, db2, mkey(k, q)) by { assert(kvalid(mkey(k, q))); assert(!add_key(mkey(k, q), lt, h, d.len() as int)); }
}

// every size up to n keeps its root
pub open spec fn kept(db: Db, d: Db, n: int) -> bool { forall|s: int| 0 <= s <= n ==> map_ok(d, s, #[trigger] contents(d, s)) && smt(contents(d, s), Seq::empty()) == smt(contents(db, s), Seq::empty()) }
pub proof fn kept_step(db: Db, d1: Db, d2: Db, n: int)
    requires kept(db, d1, n), keeps_data(d1, d2), upto_nodes(d1, d2, n)
    ensures kept(db, d2, n)
{ assert forall|s: int| 0 <= s <= n implies map_ok(d2, s, #[trigger] contents(d2, s)) && smt(contents(d2, s), Seq::empty()) == smt(contents(db, s), Seq::empty()) by { assert(map_ok(d1, s, contents(d1, s))); assert(upto_nodes(d1, d2, s)); map_keep(d1, d2, s); } }
// applying the mutation leaves both logs alone
pub proof fn set_keeps(db: Db, db2: Db, n: int, m: pb_MapMutation, lt: int, d: Seq<Seq<u8>>)
    requires 0 <= n < max_log(), typed(db), typed(db2), set_frame(db, db2, n + 1, m), log_inv(db, lt, d, None)
    ensures log_inv(db2, lt, d, None), keeps_data(db, db2), upto_nodes(db, db2, n)
{
    let x = leaf_hash(m.Value->0.LeafInput);
    assert forall|k: K| kvalid(k) && not_map(k, n + 1) && !(k matches K::Data(l, _)) implies #[trigger] same(db, db2, k) by { }
    leaves_frame(db, db2, lt, d); nodes_frame(db, db2, lt, d); roots_frame(db, db2, lt, d); index_frame(db, db2, lt, d, None);
    assert(data_ok(db2, lt, d)) by { reveal(data_ok);
        assert forall|i: int| 0 <= i < d.len() implies stored(db2, K::Data(lt, #[trigger] d[i])) && leaf_hash(rec(db2, K::Data(lt, d[i]))->LeafData_0.LeafInput) == d[i] by { let k = K::Data(lt, d[i]); assert(stored(db, k)); assert(kvalid(k) && not_map(k, n + 1)); if !same(db, db2, k) { assert(k == K::Data(1, x)); } } }
    assert forall|h: Seq<u8>| data_at(db, 1, h) implies #[trigger] data_at(db2, 1, h) by { let k = K::Data(1, h); assert(kvalid(k) && not_map(k, n + 1)); if !same(db, db2, k) { assert(k == K::Data(1, x)); } }
    assert forall|k: int, q: Seq<bool>| 1 <= k <= n && q.len() <= 256 implies #[trigger] same(db, db2, mkey(k, q)) by { assert(kvalid(mkey(k, q)) && not_map(mkey(k, q), n + 1)); }
}
pub open spec fn lock_pre(db: Db, n: int, m: pb_MapMutation) -> bool { 0 <= n < max_log() && lock_ok(db, n) && keys_spread() && heads_distinct() && formed(m) }
// 1: the mutation is in its log, the map and the tree head log are as they were
pub proof fn lock_one(db: Db, d1: Db, n: int, h: Seq<u8>, v: pb_LeafData, m: pb_MapMutation)
    requires lock_pre(db, n, m), leaf_hash(v.LeafInput) == h, added(db, d1, 1, log_of(db, 1, n), h, v)
    ensures set_pre(d1, n, m), kept(db, d1, n), log_inv(d1, 1, log_of(db, 1, n).push(h), None), log_inv(d1, 2, log_of(db, 2, n), None)
{
    let d = log_of(db, 1, n); let t = log_of(db, 2, n); let e = d.push(h);
    assert(e[n] == h); leaf_stored(d1, 1, e, None, n); 
    assert(stored(d1, K::Data(1, h))) by { reveal(data_ok); assert(stored(d1, K::Data(1, e[n]))); }
    add_keeps(db, d1, 1, d, h, v, n);
    assert forall|k: K| kvalid(k) && log_key(k, 2, t.len() as int) implies #[trigger] same(db, d1, k) by { assert(!add_key(k, 1, h, n)); }
    log_frame(db, d1, 2, t, None);
    assert(kept(db, db, n));
    kept_step(db, db, d1, n);
    assert(map_ok(d1, n, contents(d1, n)));
}
// 2: the map of the new size is there
pub proof fn lock_two(db: Db, d1: Db, d2: Db, n: int, h: Seq<u8>, m: pb_MapMutation)
    requires lock_pre(db, n, m), kept(db, d1, n), log_inv(d1, 1, log_of(db, 1, n).push(h), None), log_inv(d1, 2, log_of(db, 2, n), None),
        typed(d2), set_frame(d1, d2, n + 1, m), map_ok(d2, n + 1, mutated(contents(d1, n), m))
    ensures kept(db, d2, n), map_ok(d2, n + 1, contents(d2, n + 1)), smt(contents(d2, n + 1), Seq::empty()) == smt(mutated(contents(d1, n), m), Seq::empty()),
        log_inv(d2, 1, log_of(db, 1, n).push(h), None), log_inv(d2, 2, log_of(db, 2, n), None), log_of(d2, 2, n) == log_of(db, 2, n)
{
    let e = log_of(db, 1, n).push(h); let t = log_of(db, 2, n);
    set_keeps(d1, d2, n, m, 1, e); set_keeps(d1, d2, n, m, 2, t);
    log_of_inv(d2, 2, t, None);
    kept_step(db, d1, d2, n);
    contents_is(d2, n + 1, mutated(contents(d1, n), m));
    smt_cong(mutated(contents(d1, n), m), contents(d2, n + 1), Seq::empty());
}
// the next head is not in the tree head log yet
pub proof fn lock_fresh(db: Db, n: int, m: pb_MapMutation, a: Seq<u8>, b: Seq<u8>)
    requires lock_pre(db, n, m)
    ensures !log_of(db, 2, n).contains(head_hash(a, b, n + 1))
{
    let t = log_of(db, 2, n); let hh = head_hash(a, b, n + 1);
    if t.contains(hh) { let i = choose|i: int| 0 <= i < n && t[i] == hh; assert(leaf_at(db, 2, i) == head_at(db, i + 1)); let x = smt(contents(db, i + 1), Seq::empty()); let y = mth(log_of(db, 1, i + 1)); assert(head_hash(x, y, i + 1) == hh); }
}
// 3: and the tree head log holds it
pub proof fn lock_three(db: Db, d2: Db, d3: Db, n: int, h: Seq<u8>, m: pb_MapMutation, mr: Seq<u8>)
    requires lock_pre(db, n, m), kept(db, d2, n), map_ok(d2, n + 1, contents(d2, n + 1)), smt(contents(d2, n + 1), Seq::empty()) == mr,
        log_inv(d2, 1, log_of(db, 1, n).push(h), None), log_inv(d2, 2, log_of(db, 2, n), None),
        ({ let hd = head_data(mr, mth(log_of(db, 1, n).push(h)), n + 1); added(d2, d3, 2, log_of(db, 2, n), leaf_hash(hd.LeafInput), hd) }),
    ensures lock_ok(d3, n + 1), kept(db, d3, n), log_of(d3, 1, n + 1) == log_of(db, 1, n).push(h), log_of(d3, 2, n + 1) == log_of(db, 2, n).push(head_hash(mr, mth(log_of(db, 1, n).push(h)), n + 1)),
        smt(contents(d3, n + 1), Seq::empty()) == mr
{
    let d = log_of(db, 1, n); let t = log_of(db, 2, n); let e = d.push(h); let hd = head_data(mr, mth(e), n + 1); let hh = leaf_hash(hd.LeafInput); let u = t.push(hh);
    assert(u[n] == hh); leaf_stored(d3, 2, u, None, n);
    assert(stored(d3, K::Data(2, hh))) by { reveal(data_ok); assert(stored(d3, K::Data(2, u[n]))); }
    add_keeps(d2, d3, 2, t, hh, hd, n + 1);
    assert forall|k: K| kvalid(k) && log_key(k, 1, e.len() as int) implies #[trigger] same(d2, d3, k) by { assert(!add_key(k, 2, hh, n)); }
    log_frame(d2, d3, 1, e, None);
    log_of_inv(d3, 1, e, None);
    assert(kept(d2, d2, n + 1)) by { assert forall|s: int| 0 <= s <= n + 1 implies map_ok(d2, s, #[trigger] contents(d2, s)) by { if s <= n { } } }
    kept_step(d2, d2, d3, n + 1);
    assert forall|s: int| 0 <= s <= n implies map_ok(d3, s, #[trigger] contents(d3, s)) && smt(contents(d3, s), Seq::empty()) == smt(contents(db, s), Seq::empty()) by { assert(map_ok(d2, s, contents(d2, s))); }
    assert(smt(contents(d3, n + 1), Seq::empty()) == mr) by { assert(map_ok(d3, n + 1, contents(d3, n + 1))); }
    assert forall|s: int| 0 <= s <= n + 1 implies #[trigger] map_ok(d3, s, contents(d3, s)) by { let c = contents(d3, s); }
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] leaf_at(d3, 2, i) == head_at(d3, i + 1) by {
        assert(leaf_at(d3, 2, i) == log_of(d3, 2, n + 1)[i]);
        assert(log_of(d3, 1, i + 1) =~= e.subrange(0, i + 1)) by { assert forall|j: int| 0 <= j < i + 1 implies leaf_at(d3, 1, j) == e[j] by { assert(log_of(d3, 1, n + 1)[j] == e[j]); } }
        if i < n {
            assert(log_of(db, 1, i + 1) =~= e.subrange(0, i + 1));
            assert(leaf_at(db, 2, i) == head_at(db, i + 1)); assert(u[i] == t[i]); assert(t[i] == leaf_at(db, 2, i));
            assert(map_ok(d3, i + 1, contents(d3, i + 1)));
        } else { assert(e.subrange(0, n + 1) =~= e); }
    }
}
// the three steps together, for whatever the steps made of the store
pub proof fn lock_steps(db: Db, n: int, h: Seq<u8>, v: pb_LeafData, m: pb_MapMutation)
    ensures lock_pre(db, n, m) && leaf_hash(v.LeafInput) == h ==> {
        let d = log_of(db, 1, n); let t = log_of(db, 2, n); let lr = mth(d.push(h));
        &&& can_add(db, 1, d, h)
        &&& forall|d1: Db| #[trigger] added(db, d1, 1, d, h, v) ==> set_pre(d1, n, m) && agree(contents(db, n), contents(d1, n), Seq::empty())
        &&& forall|d1: Db, d2: Db, c: Cn| added(db, d1, 1, d, h, v) && #[trigger] set_frame(d1, d2, n + 1, m) && typed(d2) && #[trigger] map_ok(d2, n + 1, c) && c == mutated(contents(d1, n), m) ==> 
            (forall|hh: Seq<u8>| #[trigger] can_add(d2, 2, log_of(d2, 2, n), hh)) && !log_of(d2, 2, n).contains(head_hash(smt(c, Seq::empty()), lr, n + 1)) && log_of(d2, 2, n) == t
        &&& forall|d1: Db, d2: Db, c: Cn, d3: Db, u: Seq<Seq<u8>>, hh: Seq<u8>, w: pb_LeafData| added(db, d1, 1, d, h, v) && #[trigger] set_frame(d1, d2, n + 1, m) && typed(d2) && #[trigger] map_ok(d2, n + 1, c) && c == mutated(contents(d1, n), m)
            && #[trigger] added(d2, d3, 2, u, hh, w) && u == t && w == head_data(smt(c, Seq::empty()), lr, n + 1) && hh == leaf_hash(w.LeafInput)
            ==> lock_done(db, d3, n, h, m)
    }
{
    if lock_pre(db, n, m) && leaf_hash(v.LeafInput) == h {
        let d = log_of(db, 1, n); let t = log_of(db, 2, n); let lr = mth(d.push(h));
        assert forall|d1: Db| #[trigger] added(db, d1, 1, d, h, v) implies set_pre(d1, n, m) && agree(contents(db, n), contents(d1, n), Seq::empty()) by { lock_one(db, d1, n, h, v, m); same_map(db, d1, n, h, v); }
        assert forall|d1: Db, d2: Db, c: Cn| added(db, d1, 1, d, h, v) && #[trigger] set_frame(d1, d2, n + 1, m) && typed(d2) && #[trigger] map_ok(d2, n + 1, c) && c == mutated(contents(d1, n), m) implies
            (forall|hh: Seq<u8>| #[trigger] can_add(d2, 2, log_of(d2, 2, n), hh)) && !log_of(d2, 2, n).contains(head_hash(smt(c, Seq::empty()), lr, n + 1)) && log_of(d2, 2, n) == t by {
            lock_one(db, d1, n, h, v, m); lock_two(db, d1, d2, n, h, m); lock_fresh(db, n, m, smt(c, Seq::empty()), lr); }
        assert forall|d1: Db, d2: Db, c: Cn, d3: Db, u: Seq<Seq<u8>>, hh: Seq<u8>, w: pb_LeafData| added(db, d1, 1, d, h, v) && #[trigger] set_frame(d1, d2, n + 1, m) && typed(d2) && #[trigger] map_ok(d2, n + 1, c) && c == mutated(contents(d1, n), m)
            && #[trigger] added(d2, d3, 2, u, hh, w) && u == t && w == head_data(smt(c, Seq::empty()), lr, n + 1) && hh == leaf_hash(w.LeafInput)
            implies lock_done(db, d3, n, h, m) by {
            lock_one(db, d1, n, h, v, m); lock_two(db, d1, d2, n, h, m); lock_three(db, d2, d3, n, h, m, smt(c, Seq::empty())); same_map(db, d1, n, h, v); 
            mutated_cong(contents(db, n), contents(d1, n), m); }
    }
}
pub proof fn same_map(db: Db, d1: Db, n: int, h: Seq<u8>, v: pb_LeafData)
    requires lock_ok(db, n), 0 <= n < max_log(), leaf_hash(v.LeafInput) == h, added(db, d1, 1, log_of(db, 1, n), h, v)
    ensures agree(contents(db, n), contents(d1, n), Seq::empty())
{
    let d = log_of(db, 1, n); let e = d.push(h);
    assert(e[n] == h); 
    assert(stored(d1, K::Data(1, h))) by { reveal(data_ok); assert(stored(d1, K::Data(1, e[n]))); }
    add_keeps(db, d1, 1, d, h, v, n); assert(map_ok(db, n, contents(db, n))); map_keep(db, d1, n);
}
pub proof fn mutated_cong(c: Cn, c2: Cn, m: pb_MapMutation)
    requires agree(c, c2, Seq::empty())
    ensures smt(mutated(c, m), Seq::empty()) == smt(mutated(c2, m), Seq::empty()), next_leaf(m, c(key_bits(m.Key))) == next_leaf(m, c2(key_bits(m.Key)))
{
    key_path_len(m.Key); ext_root(key_bits(m.Key));
    assert(c(key_bits(m.Key)) == c2(key_bits(m.Key)));
    assert forall|x: Seq<bool>| #[trigger] ext(Seq::empty(), x) implies mutated(c, m)(x) == mutated(c2, m)(x) by { }
    smt_cong(mutated(c, m), mutated(c2, m), Seq::empty());
}
// what one applied mutation leaves: one more of everything, in step, and everything earlier as it was
pub open spec fn lock_done(db: Db, d3: Db, n: int, h: Seq<u8>, m: pb_MapMutation) -> bool {
    lock_ok(d3, n + 1) && log_of(d3, 1, n + 1) == log_of(db, 1, n).push(h) && kept(db, d3, n) && smt(contents(d3, n + 1), Seq::empty()) == smt(mutated(contents(db, n), m), Seq::empty())
    && log_of(d3, 2, n + 1) == log_of(db, 2, n).push(head_hash(smt(contents(d3, n + 1), Seq::empty()), mth(log_of(d3, 1, n + 1)), n + 1))
}
