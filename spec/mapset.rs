// uses: merkle, logtree, stack, keys, bpath, smt, logstore, maptree
//@type pb.MapMutation
// ---- what a mutation does to the value of its key
pub open spec fn next_leaf(m: pb_MapMutation, prev: Seq<u8>) -> Option<Seq<u8>> {
    if m.Action == lit!("set") { Some(leaf_hash(m.Value->0.LeafInput)) }
    else if m.Action == lit!("delete") { Some(null_leaf()) }
    else if m.Action == lit!("update") { Some(if prev == m.PreviousLeafHash { leaf_hash(m.Value->0.LeafInput) } else { prev }) }
    else { None }
}
pub open spec fn upd(c: Cn, b: Seq<bool>, v: Seq<u8>) -> Cn { |x: Seq<bool>| if x == b { v } else { c(x) } }
// the map after a mutation
pub open spec fn mutated(c: Cn, m: pb_MapMutation) -> Cn { upd(c, key_bits(m.Key), next_leaf(m, c(key_bits(m.Key)))->0) }
pub open spec fn new_leaf(m: pb_MapMutation, h: Seq<u8>) -> pb_MapNode { pb_MapNode { LeafHash: h, Path: key_path(m.Key), LeftNumber: 0, LeftHash: Seq::empty(), RightNumber: 0, RightHash: Seq::empty() } }
// the writes of one mutation
pub open spec fn sm_data(db: Db, m: pb_MapMutation, h: Seq<u8>) -> Db { if h != null_leaf() { db.insert(enc(K::Data(1, h)), PVal::LeafData(m.Value->0)) } else { db } }
pub open spec fn sm_one(db: Db, n: int, m: pb_MapMutation, h: Seq<u8>, l: int) -> Db { put_mn(sm_data(db, m, h), n + 1, pre_(key_bits(m.Key), l), new_leaf(m, h)) }
pub open spec fn sm_sib(db: Db, n: int, m: pb_MapMutation, h: Seq<u8>, l: int, head: pb_MapNode) -> Db { put_mn(sm_data(db, m, h), n + 1, pre_(key_bits(m.Key), l).push(!key_bits(m.Key)[l]), head) }
pub open spec fn sm_two(db: Db, n: int, m: pb_MapMutation, h: Seq<u8>, l: int, head: pb_MapNode) -> Db { put_mn(sm_sib(db, n, m, h, l, head), n + 1, pre_(key_bits(m.Key), l + 1), new_leaf(m, h)) }
// everything but the nodes of size n + 1 and the data of the new value stays as it was
pub open spec fn set_frame(db: Db, db2: Db, n1: int, m: pb_MapMutation) -> bool {
    forall|k: K| kvalid(k) && not_map(k, n1) ==> #[trigger] same(db, db2, k) || (m.Value is Some && k == K::Data(1, leaf_hash(m.Value->0.LeafInput)) && stored(db2, k) && rec(db2, k) == PVal::LeafData(m.Value->0)) }
pub open spec fn set_pre(db: Db, n: int, m: pb_MapMutation) -> bool {
    typed(db) && 0 <= n < max_log() && map_ok(db, n, contents(db, n)) && keys_spread() && ((m.Action == lit!("set") || m.Action == lit!("update")) ==> m.Value is Some)
}
pub open spec fn sm_prev(m: pb_MapMutation, head: pb_MapNode) -> Seq<u8> { if head.Path == key_path(m.Key) { head.LeafHash } else { null_leaf() } }
// the records of earlier sizes and the data are kept
pub open spec fn grew(db: Db, db2: Db, n: int) -> bool { typed(db2) && keeps_data(db, db2) && upto_nodes(db, db2, n) }
pub proof fn grew_data(db: Db, n: int, m: pb_MapMutation, h: Seq<u8>)
    requires typed(db), 0 <= n < max_log(), h != null_leaf() ==> m.Value is Some && h == leaf_hash(m.Value->0.LeafInput)
    ensures grew(db, sm_data(db, m, h), n), h != null_leaf() ==> data_at(sm_data(db, m, h), 1, h), set_frame(db, sm_data(db, m, h), n + 1, m)
{
    let k = K::Data(1, h); let v = PVal::LeafData(m.Value->0); let d = sm_data(db, m, h);
    if h != null_leaf() {
        store_same(db, k, v);
        assert forall|x: Seq<u8>| data_at(db, 1, x) implies #[trigger] data_at(d, 1, x) by { if x != h { assert(K::Data(1, x) != k); assert(same(db, d, K::Data(1, x))); } }
        assert forall|i: int, q: Seq<bool>| 1 <= i <= n && q.len() <= 256 implies #[trigger] same(db, d, mkey(i, q)) by { assert(kvalid(mkey(i, q)) && mkey(i, q) != k); }
    }
}
pub proof fn grew_node(db: Db, db1: Db, n: int, m: pb_MapMutation, p: Seq<bool>, mn: pb_MapNode)
    requires grew(db, db1, n), 0 <= n < max_log(), p.len() <= 256, set_frame(db, db1, n + 1, m)
    ensures grew(db, put_mn(db1, n + 1, p, mn), n), set_frame(db, put_mn(db1, n + 1, p, mn), n + 1, m)
{
    let d = put_mn(db1, n + 1, p, mn);
    put_node(db1, n + 1, p, mn);
    assert forall|i: int, q: Seq<bool>| 1 <= i <= n && q.len() <= 256 implies #[trigger] same(db, d, mkey(i, q)) by { assert(same(db, db1, mkey(i, q))); assert(same(db1, d, mkey(i, q))); }
    assert forall|k: K| kvalid(k) && not_map(k, n + 1) implies #[trigger] same(db, d, k) || (m.Value is Some && k == K::Data(1, leaf_hash(m.Value->0.LeafInput)) && stored(d, k) && rec(d, k) == PVal::LeafData(m.Value->0)) by { assert(same(db1, d, k)); if same(db, db1, k) { assert(same(db, d, k)); } else { assert(stored(db1, k)); } }
}
pub proof fn set_frame_then(db: Db, db1: Db, db2: Db, n1: int, m: pb_MapMutation) ensures set_frame(db, db1, n1, m) && map_frame(db1, db2, n1) ==> set_frame(db, db2, n1, m)
{ if set_frame(db, db1, n1, m) && map_frame(db1, db2, n1) { assert forall|k: K| kvalid(k) && not_map(k, n1) implies #[trigger] same(db, db2, k) || (m.Value is Some && k == K::Data(1, leaf_hash(m.Value->0.LeafInput)) && stored(db2, k) && rec(db2, k) == PVal::LeafData(m.Value->0)) by { assert(same(db1, db2, k)); if same(db, db1, k) { assert(same(db, db2, k)); } else { assert(stored(db1, k)); } } } }
// the value the walk down finds is the value the map holds
pub open spec fn walked(db: Db, n: int, m: pb_MapMutation, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>) -> bool {
    set_pre(db, n, m) && chain(db, key_bits(m.Key), root_rec(db, n), anc, head) && anc.len() <= 255 && num(head->0, key_bits(m.Key)[anc.len() as int]) == 0
}
pub proof fn walk_prev(db: Db, n: int, m: pb_MapMutation, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>)
    ensures walked(db, n, m, anc, head) ==> sm_prev(m, head->0) == contents(db, n)(key_bits(m.Key))
{
    if walked(db, n, m, anc, head) {
        let b = key_bits(m.Key); let d = anc.len() as int; let c = contents(db, n); let h = head->0;
        key_path_len(m.Key);
        chain_ok(db, n, b, root_rec(db, n), anc, head, c, d);
        assert(ext(pre_(b, d), b));
        if mn_leaf(h) { assert(leaf_ok(db, h, pre_(b, d), c)); let kk = choose|kk: Seq<u8>| h.Path == #[trigger] key_path(kk); key_path_len(kk); if b == bp_bits(h.Path) { bp_unique(h.Path, key_path(m.Key)); } }
        else { assert(side_ok(db, n, h, pre_(b, d), c, false) && side_ok(db, n, h, pre_(b, d), c, true)); ext_push(pre_(b, d), b[d], b); assert(ext(pre_(b, d).push(b[d]), b)); }
    }
}
// a no-op: the root is written again under the new size
pub proof fn sm_same(db: Db, n: int, m: pb_MapMutation)
    ensures set_pre(db, n, m) && next_leaf(m, contents(db, n)(key_bits(m.Key))) == Some(contents(db, n)(key_bits(m.Key))) ==> {
        let d = put_mn(db, n + 1, Seq::empty(), root_rec(db, n));
        map_ok(d, n + 1, mutated(contents(db, n), m)) && nval(root_rec(db, n), 0) == smt(mutated(contents(db, n), m), Seq::empty()) && typed(d) && set_frame(db, d, n + 1, m) }
{
    if set_pre(db, n, m) && next_leaf(m, contents(db, n)(key_bits(m.Key))) == Some(contents(db, n)(key_bits(m.Key))) {
        let e = Seq::<bool>::empty(); let r = root_rec(db, n); let c = contents(db, n); let c2 = mutated(c, m);
        let d = put_mn(db, n + 1, e, r);
        bpk_empty(); put_node(db, n + 1, e, r);
        assert forall|k: int, q: Seq<bool>| 1 <= k <= n && below(e, q) && q.len() > e.len() && q.len() <= 255 implies #[trigger] same(db, d, mkey(k, q)) by { }
        tree_frame(db, d, n, n + 1, r, e, c);
        assert(agree(c, c2, e));
        tree_cong(d, n + 1, r, e, c, c2);
        nval_is(d, n + 1, r, e, c2);
    }
}
// the sides off the way down keep standing for the contents there
pub proof fn off_way(db: Db, db2: Db, n: int, m: pb_MapMutation, mn: pb_MapNode, i: int, h: Seq<u8>)
    requires set_pre(db, n, m), grew(db, db2, n), 0 <= i <= 254, side_ok(db, n, mn, pre_(key_bits(m.Key), i), contents(db, n), !key_bits(m.Key)[i])
    ensures side_ok(db2, n + 1, mn, pre_(key_bits(m.Key), i), upd(contents(db, n), key_bits(m.Key), h), !key_bits(m.Key)[i])
{
    let b = key_bits(m.Key); let p = pre_(b, i); let c = contents(db, n); let c2 = upd(c, b, h);
    key_path_len(m.Key);
    side_frame(db, db2, n, n + 1, mn, p, c, !b[i]);
    let nb = !b[i]; let s = p.push(nb);
    assert forall|x: Seq<bool>| #[trigger] ext(s, x) implies c(x) == c2(x) by { ext_push(p, nb, x); assert(x[i] != b[i]); }
    side_cong(db2, n + 1, mn, p, c, c2, !b[i]);
}
pub open spec fn put_ok(db: Db, n: int, m: pb_MapMutation, h: Seq<u8>) -> bool { h.len() == 32 && (h != null_leaf() ==> m.Value is Some && h == leaf_hash(m.Value->0.LeafInput)) }
// the head is the key's own leaf, or empty: it is replaced
pub proof fn sm_leaf(db: Db, n: int, m: pb_MapMutation, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, h: Seq<u8>)
    requires walked(db, n, m, anc, head), put_ok(db, n, m, h),
        head->0.Path == key_path(m.Key) || ((head->0.LeafHash.len() == 0 || head->0.LeafHash == null_leaf()) && head->0.LeftNumber == 0 && head->0.RightNumber == 0)
    ensures wa_pre(sm_one(db, n, m, h, anc.len() as int), n + 1, new_leaf(m, h), anc, key_bits(m.Key), upd(contents(db, n), key_bits(m.Key), h)), set_frame(db, sm_one(db, n, m, h, anc.len() as int), n + 1, m)
{
    let b = key_bits(m.Key); let d = anc.len() as int; let c = contents(db, n); let hd = head->0; let c2 = upd(c, b, h); let p = pre_(b, d);
    let d1 = sm_data(db, m, h); let d2 = sm_one(db, n, m, h, d);
    key_path_len(m.Key);
    grew_data(db, n, m, h); grew_node(db, d1, n, m, p, new_leaf(m, h)); put_node(d1, n + 1, p, new_leaf(m, h));
    chain_ok(db, n, b, root_rec(db, n), anc, head, c, d);
    assert forall|x: Seq<bool>| #[trigger] ext(p, x) implies c2(x) == (if x == b { h } else { null_leaf() }) by {
        if mn_leaf(hd) { assert(leaf_ok(db, hd, p, c)); assert(c(x) == (if x == bp_bits(hd.Path) { hd.LeafHash } else { null_leaf() })); if hd.Path != key_path(m.Key) { assert(hd.LeafHash == null_leaf()); } }
        else { if hd.Path == key_path(m.Key) { assert(hd.Path.len() == 0); } ext_push(p, x[d], x); assert(side_ok(db, n, hd, p, c, x[d])); }
    }
    assert(ext(p, b));
    if h != null_leaf() { assert(data_at(d1, 1, h)); assert(data_at(d2, 1, h)); }
    assert(is_path(key_path(m.Key)));
    assert(leaf_ok(d2, new_leaf(m, h), p, c2));
    assert forall|i: int| 0 <= i < anc.len() implies (#[trigger] anc[i]) is Some && side_ok(d2, n + 1, anc[i]->0, pre_(b, i), c2, !b[i]) by {
        chain_ok(db, n, b, root_rec(db, n), anc, head, c, i); off_way(db, d2, n, m, anc[i]->0, i, h); }
}
// the head is an inner node with nothing on the key's side: the key's leaf goes there
pub proof fn sm_node(db: Db, n: int, m: pb_MapMutation, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, h: Seq<u8>)
    requires walked(db, n, m, anc, head), put_ok(db, n, m, h), head->0.LeafHash.len() == 0
    ensures wa_pre(sm_one(db, n, m, h, anc.len() as int + 1), n + 1, new_leaf(m, h), anc.push(head), key_bits(m.Key), upd(contents(db, n), key_bits(m.Key), h)), set_frame(db, sm_one(db, n, m, h, anc.len() as int + 1), n + 1, m)
{
    let b = key_bits(m.Key); let d = anc.len() as int; let c = contents(db, n); let hd = head->0; let c2 = upd(c, b, h); let p = pre_(b, d); let p1 = pre_(b, d + 1);
    let d1 = sm_data(db, m, h); let d2 = sm_one(db, n, m, h, d + 1);
    key_path_len(m.Key);
    chain_ok(db, n, b, root_rec(db, n), anc, head, c, d);
    assert(side_ok(db, n, hd, p, c, b[d]) && side_ok(db, n, hd, p, c, !b[d])) by { assert(side_ok(db, n, hd, p, c, false) && side_ok(db, n, hd, p, c, true)); }
    assert(p1 =~= p.push(b[d]));
    grew_data(db, n, m, h); grew_node(db, d1, n, m, p1, new_leaf(m, h)); put_node(d1, n + 1, p1, new_leaf(m, h));
    assert forall|x: Seq<bool>| #[trigger] ext(p1, x) implies c2(x) == (if x == b { h } else { null_leaf() }) by { assert(ext(p.push(b[d]), x)); }
    assert(ext(p1, b));
    if h != null_leaf() { assert(data_at(d1, 1, h)); assert(data_at(d2, 1, h)); }
    assert(is_path(key_path(m.Key)));
    assert(leaf_ok(d2, new_leaf(m, h), p1, c2));
    let a2 = anc.push(head);
    assert forall|i: int| 0 <= i < a2.len() implies (#[trigger] a2[i]) is Some && side_ok(d2, n + 1, a2[i]->0, pre_(b, i), c2, !b[i]) by {
        if i < d { chain_ok(db, n, b, root_rec(db, n), anc, head, c, i); assert(a2[i] == anc[i]); off_way(db, d2, n, m, anc[i]->0, i, h); } else { off_way(db, d2, n, m, hd, d, h); } }
}
// the head is another key's leaf: both go below the point where the paths part
pub open spec fn parting(b: Seq<bool>, o: Seq<bool>, d: int, l: int) -> bool { d <= l <= 254 && pre_(b, l) == pre_(o, l) }
pub open spec fn stubs(anc: Seq<Option<pb_MapNode>>, a2: Seq<Option<pb_MapNode>>) -> bool { anc.len() <= a2.len() && forall|i: int| 0 <= i < a2.len() ==> #[trigger] a2[i] == (if i < anc.len() { anc[i] } else { Some(no_node()) }) }
pub open spec fn par_node(n: int, b: bool, h: Seq<u8>) -> pb_MapNode {
    if b { pb_MapNode { LeafHash: Seq::empty(), Path: Seq::empty(), LeftNumber: n, LeftHash: h, RightNumber: 0, RightHash: Seq::empty() } }
    else { pb_MapNode { LeafHash: Seq::empty(), Path: Seq::empty(), LeftNumber: 0, LeftHash: Seq::empty(), RightNumber: n, RightHash: h } } }
pub open spec fn other_leaf(m: pb_MapMutation, hd: pb_MapNode) -> bool { mn_leaf(hd) && hd.Path != key_path(m.Key) && hd.LeafHash != null_leaf() }
pub proof fn part_next(db: Db, n: int, m: pb_MapMutation, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, l: int)
    ensures walked(db, n, m, anc, head) && other_leaf(m, head->0) ==> {
        let b = key_bits(m.Key); let o = bp_bits(head->0.Path); let d = anc.len() as int;
        &&& head->0.Path.len() == 33 &&& bp_len(head->0.Path) == 256 &&& bp_wf(head->0.Path) &&& o.len() == 256 &&& b.len() == 256
        &&& parting(b, o, d, d)
        &&& (parting(b, o, d, l) && bp_at(key_path(m.Key), l) == bp_at(head->0.Path, l) ==> parting(b, o, d, l + 1)) }
{
    if walked(db, n, m, anc, head) && other_leaf(m, head->0) {
        let b = key_bits(m.Key); let o = bp_bits(head->0.Path); let d = anc.len() as int; let c = contents(db, n); let hd = head->0;
        key_path_len(m.Key);
        chain_ok(db, n, b, root_rec(db, n), anc, head, c, d);
        assert(leaf_ok(db, hd, pre_(b, d), c));
        let kk = choose|kk: Seq<u8>| hd.Path == #[trigger] key_path(kk); key_path_len(kk);
        assert(key_path(m.Key) != key_path(kk));
        let q = choose|q: int| 0 <= q < 255 && #[trigger] key_bits(m.Key)[q] != key_bits(kk)[q];
        assert(pre_(b, d) == pre_(o, d));
        if d > q { assert(pre_(b, d)[q] == pre_(o, d)[q]); }
        if parting(b, o, d, l) && bp_at(key_path(m.Key), l) == bp_at(hd.Path, l) {
            assert(b[l] == o[l]);
            assert(pre_(b, l + 1) =~= pre_(b, l).push(b[l])); assert(pre_(o, l + 1) =~= pre_(o, l).push(o[l]));
            if l + 1 > q { assert(pre_(b, l + 1)[q] == pre_(o, l + 1)[q]); }
        }
    }
}
pub proof fn sm_fork(db: Db, n: int, m: pb_MapMutation, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, h: Seq<u8>, a2: Seq<Option<pb_MapNode>>)
    requires walked(db, n, m, anc, head), put_ok(db, n, m, h), other_leaf(m, head->0), stubs(anc, a2), parting(key_bits(m.Key), bp_bits(head->0.Path), anc.len() as int, a2.len() as int), key_bits(m.Key)[a2.len() as int] != bp_bits(head->0.Path)[a2.len() as int]
    ensures ({ let l = a2.len() as int; let b = key_bits(m.Key);
        wa_pre(sm_two(db, n, m, h, l, head->0), n + 1, new_leaf(m, h), a2.push(Some(par_node(n + 1, b[l], nval(head->0, l + 1)))), b, upd(contents(db, n), b, h)) && set_frame(db, sm_two(db, n, m, h, l, head->0), n + 1, m) && set_frame(db, sm_sib(db, n, m, h, l, head->0), n + 1, m) && typed(sm_sib(db, n, m, h, l, head->0)) })
{
    let b = key_bits(m.Key); let d = anc.len() as int; let c = contents(db, n); let hd = head->0; let c2 = upd(c, b, h); let l = a2.len() as int; let o = bp_bits(hd.Path);
    let p = pre_(b, l); let p1 = pre_(b, l + 1); let s = p.push(!b[l]);
    let d1 = sm_data(db, m, h); let d2 = sm_sib(db, n, m, h, l, hd); let d3 = sm_two(db, n, m, h, l, hd);
    key_path_len(m.Key);
    chain_ok(db, n, b, root_rec(db, n), anc, head, c, d);
    assert(leaf_ok(db, hd, pre_(b, d), c));
    let kk = choose|kk: Seq<u8>| hd.Path == #[trigger] key_path(kk); key_path_len(kk);
    assert(p1 =~= p.push(b[l])); assert(p1[l] != s[l]);
    grew_data(db, n, m, h); grew_node(db, d1, n, m, s, hd); put_node(d1, n + 1, s, hd);
    grew_node(db, d2, n, m, p1, new_leaf(m, h)); put_node(d2, n + 1, p1, new_leaf(m, h));
    assert(same(d2, d3, mkey(n + 1, s)));
    // what lies below the fork lies below the old head
    assert forall|x: Seq<bool>, i: int| d <= i <= l && #[trigger] ext(pre_(b, i), x) implies ext(pre_(b, d), x) by { assert(x.subrange(0, d) =~= x.subrange(0, i).subrange(0, d)); assert(pre_(b, i).subrange(0, d) =~= pre_(b, d)); }
    // the new leaf
    assert forall|x: Seq<bool>| #[trigger] ext(p1, x) implies c2(x) == (if x == b { h } else { null_leaf() }) by { ext_push(p, b[l], x); assert(ext(pre_(b, l), x)); assert(ext(pre_(b, d), x)); assert(x[l] == b[l]); }
    assert(ext(p1, b));
    if h != null_leaf() { assert(data_at(d1, 1, h)); assert(data_at(d2, 1, h)); assert(data_at(d3, 1, h)); }
    assert(is_path(key_path(m.Key)));
    assert(leaf_ok(d3, new_leaf(m, h), p1, c2));
    // the old one
    assert(o[l] == !b[l]);
    assert(s =~= pre_(o, l + 1)) by { assert(pre_(o, l + 1) =~= pre_(o, l).push(o[l])); }
    assert(ext(s, o));
    assert forall|x: Seq<bool>| #[trigger] ext(s, x) implies c2(x) == (if x == o { hd.LeafHash } else { null_leaf() }) by { ext_push(p, !b[l], x); assert(ext(pre_(b, l), x)); assert(ext(pre_(b, d), x)); assert(x[l] != b[l]); }
    if hd.LeafHash != null_leaf() { assert(data_at(d1, 1, hd.LeafHash)); assert(data_at(d2, 1, hd.LeafHash)); assert(data_at(d3, 1, hd.LeafHash)); }
    assert(leaf_ok(d3, hd, s, c2));
    nval_is(d3, n + 1, hd, s, c2);
    let par = par_node(n + 1, b[l], nval(hd, l + 1));
    assert(side_ok(d3, n + 1, par, p, c2, !b[l]));
    let a3 = a2.push(Some(par));
    assert forall|i: int| 0 <= i < a3.len() implies (#[trigger] a3[i]) is Some && side_ok(d3, n + 1, a3[i]->0, pre_(b, i), c2, !b[i]) by {
        if i < d { chain_ok(db, n, b, root_rec(db, n), anc, head, c, i); assert(a2[i] == anc[i]); off_way(db, d3, n, m, anc[i]->0, i, h); }
        else if i < l {
            assert(a2[i] == Some(no_node()));
            let nb = !b[i]; let si = pre_(b, i).push(nb);
            assert forall|x: Seq<bool>| #[trigger] ext(si, x) implies c2(x) == null_leaf() by { ext_push(pre_(b, i), nb, x); assert(ext(pre_(b, i), x)); assert(ext(pre_(b, d), x)); assert(x[i] != b[i]); assert(pre_(b, l)[i] == pre_(o, l)[i]); assert(o[i] == b[i]); }
        }
    }
}
pub open spec fn blank(hd: pb_MapNode) -> bool { (hd.LeafHash.len() == 0 || hd.LeafHash == null_leaf()) && hd.LeftNumber == 0 && hd.RightNumber == 0 }
pub proof fn sm_all(db: Db, n: int, m: pb_MapMutation, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, h: Seq<u8>)
    ensures
        walked(db, n, m, anc, head) ==> sm_prev(m, head->0) == contents(db, n)(key_bits(m.Key)) && head is Some && anc.len() <= 255 && (mn_leaf(head->0) ==> head->0.LeafHash.len() == 32 && head->0.Path.len() == 33 && head->0.LeftNumber == 0 && head->0.RightNumber == 0) && (!mn_leaf(head->0) ==> anc.len() <= 254),
        walked(db, n, m, anc, head) && put_ok(db, n, m, h) ==> typed(sm_data(db, m, h)) && set_frame(db, sm_data(db, m, h), n + 1, m) && ({
            let b = key_bits(m.Key); let c2 = upd(contents(db, n), b, h); let d = anc.len() as int; let nl = new_leaf(m, h);
            &&& (head->0.Path == key_path(m.Key) || blank(head->0)) ==> wa_pre(sm_one(db, n, m, h, d), n + 1, nl, anc, b, c2) && wa_any(sm_one(db, n, m, h, d), n + 1, nl, anc, b) && set_frame(db, sm_one(db, n, m, h, d), n + 1, m) && typed(sm_one(db, n, m, h, d))
            &&& !mn_leaf(head->0) ==> wa_pre(sm_one(db, n, m, h, d + 1), n + 1, nl, anc.push(head), b, c2) && wa_any(sm_one(db, n, m, h, d + 1), n + 1, nl, anc.push(head), b) && set_frame(db, sm_one(db, n, m, h, d + 1), n + 1, m) && typed(sm_one(db, n, m, h, d + 1))
        }),
        walked(db, n, m, anc, head) && other_leaf(m, head->0) ==> forking(db, n, m, head, anc)
{
    if walked(db, n, m, anc, head) {
        walk_prev(db, n, m, anc, head);
        let c = contents(db, n); let b = key_bits(m.Key); let hd = head->0; let d = anc.len() as int;
        key_path_len(m.Key);
        chain_ok(db, n, b, root_rec(db, n), anc, head, c, d);
        if mn_leaf(hd) { assert(leaf_ok(db, hd, pre_(b, d), c)); let kk = choose|kk: Seq<u8>| hd.Path == #[trigger] key_path(kk); key_path_len(kk); }
        if other_leaf(m, hd) { part_next(db, n, m, anc, head, d); assert(stubs(anc, anc)); assert(fork_from(db, n, m, anc, head, anc)); }
        if put_ok(db, n, m, h) {
            grew_data(db, n, m, h);
            if hd.Path == key_path(m.Key) || blank(hd) { sm_leaf(db, n, m, anc, head, h); }
            if !mn_leaf(hd) { sm_node(db, n, m, anc, head, h); }
        }
    }
}
// on the way to the fork: a2 is the way down and stubs for the bits both paths share
pub open spec fn fork_from(db: Db, n: int, m: pb_MapMutation, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, a2: Seq<Option<pb_MapNode>>) -> bool {
    walked(db, n, m, anc, head) && other_leaf(m, head->0) && stubs(anc, a2) && parting(key_bits(m.Key), bp_bits(head->0.Path), anc.len() as int, a2.len() as int) }
pub open spec fn forking(db: Db, n: int, m: pb_MapMutation, head: Option<pb_MapNode>, a2: Seq<Option<pb_MapNode>>) -> bool { exists|anc: Seq<Option<pb_MapNode>>| #[trigger] fork_from(db, n, m, anc, head, a2) }
pub proof fn fork_round(db: Db, n: int, m: pb_MapMutation, head: Option<pb_MapNode>, h: Seq<u8>, a2: Seq<Option<pb_MapNode>>)
    ensures forking(db, n, m, head, a2) ==> {
        let l = a2.len() as int; let b = key_bits(m.Key);
        &&& l <= 254 && head is Some && head->0.Path.len() == 33 && mn_leaf(head->0) && contents(db, n)(b) == null_leaf()
        &&& bp_at(key_path(m.Key), l) == bp_at(head->0.Path, l) ==> forking(db, n, m, head, a2.push(Some(no_node())))
        &&& bp_at(key_path(m.Key), l) != bp_at(head->0.Path, l) && put_ok(db, n, m, h) ==> ({
            let par = par_node(n + 1, b[l], nval(head->0, l + 1)); let d = sm_two(db, n, m, h, l, head->0);
            &&& wa_pre(d, n + 1, new_leaf(m, h), a2.push(Some(par)), b, upd(contents(db, n), b, h)) &&& wa_any(d, n + 1, new_leaf(m, h), a2.push(Some(par)), b)
            &&& set_frame(db, sm_data(db, m, h), n + 1, m) &&& typed(sm_data(db, m, h)) &&& set_frame(db, d, n + 1, m) &&& typed(d) &&& set_frame(db, sm_sib(db, n, m, h, l, head->0), n + 1, m) &&& typed(sm_sib(db, n, m, h, l, head->0)) &&& b[l] == bp_at(key_path(m.Key), l) })
      }
{
    if forking(db, n, m, head, a2) {
        let anc = choose|anc: Seq<Option<pb_MapNode>>| #[trigger] fork_from(db, n, m, anc, head, a2);
        let l = a2.len() as int;
        key_path_len(m.Key);
        part_next(db, n, m, anc, head, l); walk_prev(db, n, m, anc, head);
        if bp_at(key_path(m.Key), l) == bp_at(head->0.Path, l) { assert(fork_from(db, n, m, anc, head, a2.push(Some(no_node())))); }
        else if put_ok(db, n, m, h) { grew_data(db, n, m, h); sm_fork(db, n, m, anc, head, h, a2); }
    }
}
pub proof fn bp_one() ensures bp_wf(seq![1u8, 0u8]), bp_len(seq![1u8, 0u8]) == 1, !bp_at(seq![1u8, 0u8], 0), bp_wf(seq![1u8, 128u8]), bp_len(seq![1u8, 128u8]) == 1, bp_at(seq![1u8, 128u8], 0)
{
    let f = seq![1u8, 0u8]; let t = seq![1u8, 128u8]; p2_8();
    assert forall|i: int| 0 <= i < 8 implies !#[trigger] bp_at(f, i) by { assert(f[1 + i / 8] == 0u8); bp_zero_bit(i); }
    assert forall|i: int| 0 <= i < 8 implies #[trigger] bp_at(t, i) == (i == 0) by { assert(t[1 + i / 8] == 128u8); bp_zero_bit(i); or_bits(0u8, 7, 7 - i); byte_bit_is(128u8, i); byte_bit_is(0u8, i); assert(0u8 | 128u8 == 128u8) by (bit_vector); }
}
pub open spec fn joined(path: Seq<u8>, l: int, a: Seq<u8>, e: Seq<u8>, r: Seq<u8>) -> bool {
    bp_len(a) == l && (forall|q: int| 0 <= q && q < l ==> #[trigger] bp_at(a, q) == bp_at(path, 0 + q)) && bp_len(r) == l + 1 && (forall|q: int| 0 <= q && q < l ==> #[trigger] bp_at(r, q) == bp_at(a, q)) && bp_at(r, l) == bp_at(e, 0) }
pub proof fn join_at(path: Seq<u8>, l: int, e: Seq<u8>)
    ensures 0 <= l < bp_len(path) <= 256 && bp_len(e) == 1 ==> forall|a: Seq<u8>, r: Seq<u8>| #[trigger] bp_wf(r) && #[trigger] bp_wf(a) && joined(path, l, a, e, r) ==> r == bpk(pre_(bp_bits(path), l).push(bp_at(e, 0)))
{
    if 0 <= l < bp_len(path) <= 256 && bp_len(e) == 1 {
        assert forall|a: Seq<u8>, r: Seq<u8>| #[trigger] bp_wf(r) && #[trigger] bp_wf(a) && joined(path, l, a, e, r) implies r == bpk(pre_(bp_bits(path), l).push(bp_at(e, 0))) by {
            assert forall|q: int| 0 <= q < l implies bp_at(r, q) == bp_at(path, q) by { assert(bp_at(a, q) == bp_at(path, 0 + q)); }
            assert(bp_bits(r) =~= pre_(bp_bits(path), l).push(bp_at(e, 0))); bpk_is(r); }
    }
}
pub proof fn push_pop<A>(a: Seq<A>, e: A) ensures forall|p: Seq<A>| a == #[trigger] p.push(e) ==> a.len() > 0 && a.drop_last() == p
{ assert forall|p: Seq<A>| a == #[trigger] p.push(e) implies a.len() > 0 && a.drop_last() == p by { assert(a.drop_last() =~= p); } }
pub proof fn frame_then(db: Db, db2: Db, n1: int, m: pb_MapMutation) ensures forall|d: Db| #[trigger] set_frame(db, d, n1, m) && #[trigger] map_frame(d, db2, n1) ==> set_frame(db, db2, n1, m)
{ assert forall|d: Db| #[trigger] set_frame(db, d, n1, m) && #[trigger] map_frame(d, db2, n1) implies set_frame(db, db2, n1, m) by { set_frame_then(db, d, db2, n1, m); } }
