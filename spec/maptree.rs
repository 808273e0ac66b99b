// uses: merkle, logtree, stack, keys, bpath, smt, logstore
// How a map is stored: one root per size, nodes named by the size that wrote them and their path.
pub type Cn = spec_fn(Seq<bool>) -> Seq<u8>;
pub open spec fn null_leaf() -> Seq<u8> { leaf_hash(Seq::empty()) }
// the storage form of a path
pub open spec fn bpk(p: Seq<bool>) -> Seq<u8> { choose|b: Seq<u8>| bp_wf(b) && #[trigger] bp_bits(b) == p }
pub proof fn bpk_is(b: Seq<u8>) ensures bp_wf(b) ==> bpk(bp_bits(b)) == b
{ if bp_wf(b) { let c = bpk(bp_bits(b)); assert(bp_wf(c) && bp_bits(c) == bp_bits(b)); bp_unique(b, c); } }
pub proof fn bpk_empty() ensures bpk(Seq::empty()) == Seq::<u8>::empty(), bp_len(Seq::empty()) == 0
{ let e = Seq::<u8>::empty(); assert(bp_wf(e)); assert(bp_bits(e) =~= Seq::<bool>::empty()); bpk_is(e); }
// the path of a key: a zero byte, then its hash
pub open spec fn key_path(key: Seq<u8>) -> Seq<u8> { seq![0u8] + sha(key) }
pub open spec fn key_bits(key: Seq<u8>) -> Seq<bool> { bp_bits(key_path(key)) }
pub open spec fn is_path(b: Seq<u8>) -> bool { exists|k: Seq<u8>| b == #[trigger] key_path(k) }
// assumed of SHA-256: no two hashes of keys agree in their first 255 bits
pub open spec fn keys_spread() -> bool { forall|a: Seq<u8>, b: Seq<u8>| #[trigger] key_path(a) != #[trigger] key_path(b) ==> exists|q: int| 0 <= q < 255 && #[trigger] key_bits(a)[q] != key_bits(b)[q] }
pub proof fn key_path_len(k: Seq<u8>) ensures key_path(k).len() == 33, bp_len(key_path(k)) == 256, key_bits(k).len() == 256, bp_wf(key_path(k)), forall|i: int| 0 <= i < 256 ==> #[trigger] key_bits(k)[i] == bp_at(key_path(k), i) && key_bits(k)[i] == kbit(sha(k), i), key_bits(k) =~= pbits(sha(k))
{ let b = key_path(k); assert(b[0] == 0u8);
  assert forall|i: int| 0 <= i < 256 implies #[trigger] key_bits(k)[i] == kbit(sha(k), i) by { assert(b[1 + i / 8] == sha(k)[i / 8]); } }
pub open spec fn mn_leaf(mn: pb_MapNode) -> bool { mn.LeafHash.len() > 0 }
pub open spec fn num(mn: pb_MapNode, b: bool) -> int { if b { mn.RightNumber } else { mn.LeftNumber } }
pub open spec fn hsh(mn: pb_MapNode, b: bool) -> Seq<u8> { if b { mn.RightHash } else { mn.LeftHash } }
pub open spec fn mkey(n: int, p: Seq<bool>) -> K { K::MapNode(n, bpk(p)) }
pub open spec fn node_at(db: Db, n: int, p: Seq<bool>) -> pb_MapNode { rec(db, mkey(n, p))->MapNode_0 }
pub open spec fn leaf_ok(db: Db, mn: pb_MapNode, p: Seq<bool>, c: Cn) -> bool {
    mn.LeafHash.len() == 32 && mn.LeftNumber == 0 && mn.RightNumber == 0 && is_path(mn.Path) && ext(p, bp_bits(mn.Path))
    && (forall|x: Seq<bool>| #[trigger] ext(p, x) ==> c(x) == (if x == bp_bits(mn.Path) { mn.LeafHash } else { null_leaf() }))
    && (mn.LeafHash == null_leaf() || data_at(db, 1, mn.LeafHash))
}
pub open spec fn all_null(p: Seq<bool>, c: Cn) -> bool { forall|x: Seq<bool>| #[trigger] ext(p, x) ==> c(x) == null_leaf() }
// the node mn at path p stands for the part of the contents c below p; only sizes up to n are referred to
pub open spec fn tree_ok(db: Db, n: int, mn: pb_MapNode, p: Seq<bool>, c: Cn) -> bool decreases 256 - p.len(), 1int
{ if p.len() > 255 { false } else if mn_leaf(mn) { leaf_ok(db, mn, p, c) } else { p.len() <= 254 && mn.Path.len() == 0 && side_ok(db, n, mn, p, c, false) && side_ok(db, n, mn, p, c, true) } }
pub open spec fn side_ok(db: Db, n: int, mn: pb_MapNode, p: Seq<bool>, c: Cn, b: bool) -> bool decreases 256 - p.len(), 0int
{
    p.len() <= 254 && if num(mn, b) == 0 { hsh(mn, b).len() == 0 && all_null(p.push(b), c) }
    else { 1 <= num(mn, b) <= n && stored(db, mkey(num(mn, b), p.push(b))) && rec(db, mkey(num(mn, b), p.push(b))) is MapNode && hsh(mn, b) == smt(c, p.push(b)) && tree_ok(db, n, node_at(db, num(mn, b), p.push(b)), p.push(b), c) }
}
pub open spec fn no_node() -> pb_MapNode { pb_MapNode { LeafHash: Seq::empty(), Path: Seq::empty(), LeftNumber: 0, LeftHash: Seq::empty(), RightNumber: 0, RightHash: Seq::empty() } }
pub open spec fn root_rec(db: Db, n: int) -> pb_MapNode { if n == 0 { no_node() } else { rec(db, K::MapNode(n, Seq::empty()))->MapNode_0 } }
// the map of size n holds c
pub open spec fn map_ok(db: Db, n: int, c: Cn) -> bool
{ 0 <= n && (n > 0 ==> stored(db, K::MapNode(n, Seq::empty())) && rec(db, K::MapNode(n, Seq::empty())) is MapNode) && tree_ok(db, n, root_rec(db, n), Seq::empty(), c) }
// the contents as found in the store
pub open spec fn look(db: Db, mn: pb_MapNode, p: Seq<bool>, x: Seq<bool>) -> Seq<u8> decreases 256 - p.len()
{
    if mn_leaf(mn) { if x == bp_bits(mn.Path) { mn.LeafHash } else { null_leaf() } }
    else if p.len() > 254 || num(mn, x[p.len() as int]) == 0 { null_leaf() }
    else { look(db, node_at(db, num(mn, x[p.len() as int]), p.push(x[p.len() as int])), p.push(x[p.len() as int]), x) }
}
pub open spec fn contents(db: Db, n: int) -> Cn { |x: Seq<bool>| look(db, root_rec(db, n), Seq::empty(), x) }
pub open spec fn agree(c: Cn, c2: Cn, p: Seq<bool>) -> bool { forall|x: Seq<bool>| #[trigger] ext(p, x) ==> c(x) == c2(x) }
pub proof fn ext_push(p: Seq<bool>, b: bool, x: Seq<bool>)
    ensures ext(p.push(b), x) <==> (ext(p, x) && p.len() < 256 && x[p.len() as int] == b)
{
    if ext(p.push(b), x) { assert(x.subrange(0, p.len() as int) =~= x.subrange(0, p.len() as int + 1).drop_last()); assert(p.push(b).drop_last() =~= p); assert(x.subrange(0, p.len() as int + 1)[p.len() as int] == p.push(b)[p.len() as int]); }
    if ext(p, x) && p.len() < 256 && x[p.len() as int] == b { assert(x.subrange(0, p.len() as int + 1) =~= p.push(b)); }
}
pub proof fn smt_cong(c: Cn, c2: Cn, p: Seq<bool>)
    requires p.len() <= 256, agree(c, c2, p)
    ensures smt(c, p) == smt(c2, p)
    decreases 256 - p.len()
{
    if p.len() == 256 { assert(p.subrange(0, 256) =~= p); assert(ext(p, p)); }
    else { assert forall|b: bool, x: Seq<bool>| #[trigger] ext(p.push(b), x) implies c(x) == c2(x) by { ext_push(p, b, x); assert(ext(p, x)); } smt_cong(c, c2, p.push(false)); smt_cong(c, c2, p.push(true)); }
}
pub proof fn tree_cong(db: Db, n: int, mn: pb_MapNode, p: Seq<bool>, c: Cn, c2: Cn)
    requires tree_ok(db, n, mn, p, c), agree(c, c2, p)
    ensures tree_ok(db, n, mn, p, c2)
    decreases 256 - p.len(), 1int
{ if !mn_leaf(mn) { 
    assert forall|b: bool| agree(c, c2, #[trigger] p.push(b)) by { assert forall|x: Seq<bool>| #[trigger] ext(p.push(b), x) implies c(x) == c2(x) by { ext_push(p, b, x); assert(ext(p, x)); } }
    assert(agree(c, c2, p.push(false)) && agree(c, c2, p.push(true)));
    side_cong(db, n, mn, p, c, c2, false); side_cong(db, n, mn, p, c, c2, true); } }
pub proof fn side_cong(db: Db, n: int, mn: pb_MapNode, p: Seq<bool>, c: Cn, c2: Cn, b: bool)
    requires side_ok(db, n, mn, p, c, b), agree(c, c2, p.push(b))
    ensures side_ok(db, n, mn, p, c2, b)
    decreases 256 - p.len(), 0int
{ if num(mn, b) != 0 { smt_cong(c, c2, p.push(b)); tree_cong(db, n, node_at(db, num(mn, b), p.push(b)), p.push(b), c, c2); } }
// paths at or below p
pub open spec fn below(p: Seq<bool>, q: Seq<bool>) -> bool { q.len() >= p.len() && q.subrange(0, p.len() as int) == p }
pub proof fn below_push(p: Seq<bool>, b: bool, q: Seq<bool>)
    ensures below(p.push(b), q) ==> below(p, q) && q.len() > p.len() && q[p.len() as int] == b
{ if below(p.push(b), q) { assert(q.subrange(0, p.len() as int) =~= q.subrange(0, p.len() as int + 1).drop_last()); assert(p.push(b).drop_last() =~= p); assert(q.subrange(0, p.len() as int + 1)[p.len() as int] == p.push(b)[p.len() as int]); } }
pub open spec fn keeps_data(db: Db, db2: Db) -> bool { forall|h: Seq<u8>| data_at(db, 1, h) ==> #[trigger] data_at(db2, 1, h) }
// records of nodes strictly below p written by sizes 1..n are the same
pub open spec fn same_below(db: Db, db2: Db, n: int, p: Seq<bool>) -> bool { forall|k: int, q: Seq<bool>| 1 <= k <= n && below(p, q) && q.len() > p.len() && q.len() <= 255 ==> #[trigger] same(db, db2, mkey(k, q)) }
pub proof fn tree_frame(db: Db, db2: Db, n: int, n2: int, mn: pb_MapNode, p: Seq<bool>, c: Cn)
    requires tree_ok(db, n, mn, p, c), n <= n2, keeps_data(db, db2), same_below(db, db2, n, p)
    ensures tree_ok(db2, n2, mn, p, c)
    decreases 256 - p.len(), 1int
{ if mn_leaf(mn) { if mn.LeafHash != null_leaf() { assert(data_at(db2, 1, mn.LeafHash)); } }
  else {
    assert forall|b: bool, k: int, q: Seq<bool>| 1 <= k <= n && below(p.push(b), q) && q.len() <= 255 implies #[trigger] same(db, db2, mkey(k, q)) && #[trigger] p.push(b).len() > 0 by { below_push(p, b, q); }
    side_frame(db, db2, n, n2, mn, p, c, false); side_frame(db, db2, n, n2, mn, p, c, true); } }
// records of nodes at or below p written by sizes 1..n are the same
pub open spec fn same_at(db: Db, db2: Db, n: int, p: Seq<bool>) -> bool { forall|k: int, q: Seq<bool>| 1 <= k <= n && below(p, q) && q.len() <= 255 ==> #[trigger] same(db, db2, mkey(k, q)) }
pub proof fn side_frame(db: Db, db2: Db, n: int, n2: int, mn: pb_MapNode, p: Seq<bool>, c: Cn, b: bool)
    requires side_ok(db, n, mn, p, c, b), n <= n2, keeps_data(db, db2), same_at(db, db2, n, p.push(b))
    ensures side_ok(db2, n2, mn, p, c, b)
    decreases 256 - p.len(), 0int
{ if num(mn, b) != 0 { let q = p.push(b); assert(q.subrange(0, q.len() as int) =~= q); assert(same(db, db2, mkey(num(mn, b), q))); tree_frame(db, db2, n, n2, node_at(db, num(mn, b), q), q, c); } }
pub proof fn look_is(db: Db, n: int, mn: pb_MapNode, p: Seq<bool>, c: Cn, x: Seq<bool>)
    requires tree_ok(db, n, mn, p, c), ext(p, x)
    ensures look(db, mn, p, x) == c(x)
    decreases 256 - p.len()
{
    if !mn_leaf(mn) { let b = x[p.len() as int]; ext_push(p, b, x); assert(side_ok(db, n, mn, p, c, b)); if num(mn, b) != 0 { look_is(db, n, node_at(db, num(mn, b), p.push(b)), p.push(b), c, x); } }
}
pub proof fn ext_root(x: Seq<bool>) ensures ext(Seq::empty(), x) == (x.len() == 256) { assert(x.len() >= 0 && x.subrange(0, 0) =~= Seq::<bool>::empty()); }
pub proof fn contents_is(db: Db, n: int, c: Cn)
    ensures map_ok(db, n, c) ==> map_ok(db, n, contents(db, n)) && agree(c, contents(db, n), Seq::empty()) && forall|x: Seq<bool>| x.len() == 256 ==> #[trigger] contents(db, n)(x) == c(x)
{
    if map_ok(db, n, c) {
        assert forall|x: Seq<bool>| #[trigger] ext(Seq::empty(), x) implies c(x) == contents(db, n)(x) by { look_is(db, n, root_rec(db, n), Seq::empty(), c, x); }
        assert forall|x: Seq<bool>| x.len() == 256 implies #[trigger] contents(db, n)(x) == c(x) by { ext_root(x); }
        tree_cong(db, n, root_rec(db, n), Seq::empty(), c, contents(db, n));
    }
}
// ---- the hash of a node
pub open spec fn lup(path: Seq<u8>, lh: Seq<u8>, d: int) -> Seq<u8> decreases 256 - d
{ if d >= 256 { lh } else { let t = lup(path, lh, d + 1); if bp_at(path, d) { node_hash(dflt(d + 1), t) } else { node_hash(t, dflt(d + 1)) } } }
pub open spec fn nval(mn: pb_MapNode, d: int) -> Seq<u8>
{ if mn_leaf(mn) { lup(mn.Path, mn.LeafHash, d) } else { node_hash(if mn.LeftNumber == 0 { dflt(d + 1) } else { mn.LeftHash }, if mn.RightNumber == 0 { dflt(d + 1) } else { mn.RightHash }) } }
pub proof fn lup_is(path: Seq<u8>, lh: Seq<u8>, p: Seq<bool>, c: Cn, d: int)
    requires is_path(path), ext(p, bp_bits(path)), forall|x: Seq<bool>| #[trigger] ext(p, x) ==> c(x) == (if x == bp_bits(path) { lh } else { null_leaf() }), p.len() <= d <= 256
    ensures lup(path, lh, d) == smt(c, bp_bits(path).subrange(0, d))
    decreases 256 - d
{
    let k = choose|k: Seq<u8>| path == #[trigger] key_path(k); key_path_len(k);
    let b = bp_bits(path); let q = b.subrange(0, d);
    if d == 256 { assert(q =~= b); }
    else {
        lup_is(path, lh, p, c, d + 1);
        assert(b.subrange(0, d + 1) =~= q.push(b[d]));
        let o = q.push(!b[d]);
        assert forall|x: Seq<bool>| #[trigger] ext(o, x) implies c(x) == null_leaf() by {
            ext_push(q, !b[d], x); assert(x[d] != b[d]);
            assert(x.subrange(0, p.len() as int) =~= x.subrange(0, d).subrange(0, p.len() as int)); assert(q.subrange(0, p.len() as int) =~= b.subrange(0, p.len() as int)); assert(ext(p, x)); }
        smt_default(c, o);
        assert(b[d] == bp_at(path, d));
    }
}
pub proof fn nval_is(db: Db, n: int, mn: pb_MapNode, p: Seq<bool>, c: Cn)
    ensures tree_ok(db, n, mn, p, c) ==> nval(mn, p.len() as int) == smt(c, p)
{
    if tree_ok(db, n, mn, p, c) {
        if mn_leaf(mn) { lup_is(mn.Path, mn.LeafHash, p, c, p.len() as int); }
        else {
            assert(side_ok(db, n, mn, p, c, false) && side_ok(db, n, mn, p, c, true));
            if mn.LeftNumber == 0 { smt_default(c, p.push(false)); }
            if mn.RightNumber == 0 { smt_default(c, p.push(true)); }
        }
    }
}
// ---- the way down to a key
pub open spec fn pre_(b: Seq<bool>, d: int) -> Seq<bool> { b.subrange(0, d) }
pub open spec fn hop(anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, i: int) -> Option<pb_MapNode> { if i < anc.len() { anc[i] } else { head } }
pub open spec fn chain(db: Db, b: Seq<bool>, root: pb_MapNode, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>) -> bool {
    hop(anc, head, 0) == Some(root) && head is Some
    && forall|i: int| 0 <= i < anc.len() ==> (#[trigger] anc[i]) is Some && num(anc[i]->0, b[i]) != 0 && hop(anc, head, i + 1) == Some(node_at(db, num(anc[i]->0, b[i]), pre_(b, i + 1)))
}
pub proof fn chain_ok(db: Db, n: int, b: Seq<bool>, root: pb_MapNode, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, c: Cn, i: int)
    requires chain(db, b, root, anc, head), tree_ok(db, n, root, Seq::empty(), c), 0 <= i <= anc.len(), b.len() == 256
    ensures i <= 255, hop(anc, head, i) is Some, tree_ok(db, n, hop(anc, head, i)->0, pre_(b, i), c), i < anc.len() ==> !mn_leaf(anc[i]->0) && side_ok(db, n, anc[i]->0, pre_(b, i), c, !b[i]) && side_ok(db, n, anc[i]->0, pre_(b, i), c, b[i])
    decreases i
{
    if i == 0 { assert(pre_(b, 0) =~= Seq::<bool>::empty()); assert(hop(anc, head, 0) is Some); }
    else {
        chain_ok(db, n, b, root, anc, head, c, i - 1);
        assert(anc[i - 1] is Some);
        assert(pre_(b, i) =~= pre_(b, i - 1).push(b[i - 1]));
        assert(tree_ok(db, n, anc[i - 1]->0, pre_(b, i - 1), c));
        assert(hop(anc, head, i - 1 + 1) == Some(node_at(db, num(anc[i - 1]->0, b[i - 1]), pre_(b, i))));
    }
    if i < anc.len() { assert(anc[i] is Some && num(anc[i]->0, b[i]) != 0); let m = anc[i]->0; if mn_leaf(m) { assert(leaf_ok(db, m, pre_(b, i), c)); } else { assert(side_ok(db, n, m, pre_(b, i), c, false) && side_ok(db, n, m, pre_(b, i), c, true)); } }
}
// one more step down
pub proof fn chain_step(db: Db, n: int, b: Seq<bool>, root: pb_MapNode, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, c: Cn)
    ensures chain(db, b, root, anc, head) && tree_ok(db, n, root, Seq::empty(), c) && b.len() == 256 ==> {
        let d = anc.len() as int; let k = num(head->0, b[d]);
        &&& d <= 255 &&& tree_ok(db, n, head->0, pre_(b, d), c) &&& (n >= 0 ==> 0 <= head->0.LeftNumber <= n && 0 <= head->0.RightNumber <= n)
        &&& (mn_leaf(head->0) ==> head->0.LeftNumber == 0 && head->0.RightNumber == 0 && head->0.LeafHash.len() == 32 && is_path(head->0.Path) && head->0.Path.len() == 33)
        &&& (k != 0 ==> d <= 254 && stored(db, mkey(k, pre_(b, d + 1))) && rec(db, mkey(k, pre_(b, d + 1))) is MapNode && chain(db, b, root, anc.push(head), Some(node_at(db, k, pre_(b, d + 1)))))
      }
{
    if chain(db, b, root, anc, head) && tree_ok(db, n, root, Seq::empty(), c) && b.len() == 256 {
        let d = anc.len() as int; let k = num(head->0, b[d]);
        chain_ok(db, n, b, root, anc, head, c, d);
        let m = head->0;
        if mn_leaf(m) { assert(leaf_ok(db, m, pre_(b, d), c)); let kk = choose|kk: Seq<u8>| m.Path == #[trigger] key_path(kk); key_path_len(kk); } else { assert(side_ok(db, n, m, pre_(b, d), c, false) && side_ok(db, n, m, pre_(b, d), c, true)); }
        if k != 0 {
            assert(pre_(b, d + 1) =~= pre_(b, d).push(b[d]));
            let a2 = anc.push(head); let h2: Option<pb_MapNode> = Some(node_at(db, k, pre_(b, d + 1)));
            assert forall|i: int| 0 <= i < a2.len() implies (#[trigger] a2[i]) is Some && num(a2[i]->0, b[i]) != 0 && hop(a2, h2, i + 1) == Some(node_at(db, num(a2[i]->0, b[i]), pre_(b, i + 1))) by {
                if i < d { assert(anc[i] is Some); assert(hop(anc, head, i + 1) == hop(a2, h2, i + 1)); } }
            assert(hop(anc, head, 0) == hop(a2, h2, 0));
        }
    }
}
// a stored tree: its root refers, all the way down, only to nodes that are there
pub open spec fn cn(db: Db, root: pb_MapNode) -> Cn { |x: Seq<bool>| look(db, root, Seq::empty(), x) }
pub open spec fn tree_at(db: Db, n: int, root: pb_MapNode) -> bool { 0 <= n && tree_ok(db, n, root, Seq::empty(), cn(db, root)) }
pub open spec fn tree_any(db: Db, root: pb_MapNode) -> bool { exists|n: int| #[trigger] tree_at(db, n, root) }
pub proof fn tree_any_is(db: Db, n: int, root: pb_MapNode, c: Cn)
    ensures 0 <= n && tree_ok(db, n, root, Seq::empty(), c) ==> tree_at(db, n, root) && agree(c, cn(db, root), Seq::empty())
{
    if 0 <= n && tree_ok(db, n, root, Seq::empty(), c) {
        assert forall|x: Seq<bool>| #[trigger] ext(Seq::empty(), x) implies c(x) == cn(db, root)(x) by { look_is(db, n, root, Seq::empty(), c, x); }
        tree_cong(db, n, root, Seq::empty(), c, cn(db, root));
    }
}
pub proof fn step_any(db: Db, b: Seq<bool>, root: pb_MapNode, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>)
    ensures chain(db, b, root, anc, head) && tree_any(db, root) && b.len() == 256 ==> {
        let d = anc.len() as int; let k = num(head->0, b[d]);
        &&& d <= 255 &&& 0 <= head->0.LeftNumber &&& 0 <= head->0.RightNumber
        &&& (k != 0 ==> d <= 254 && stored(db, mkey(k, pre_(b, d + 1))) && rec(db, mkey(k, pre_(b, d + 1))) is MapNode && chain(db, b, root, anc.push(head), Some(node_at(db, k, pre_(b, d + 1)))))
      }
{ if chain(db, b, root, anc, head) && tree_any(db, root) { let n = choose|n: int| #[trigger] tree_at(db, n, root); chain_step(db, n, b, root, anc, head, cn(db, root)); } }
// the storage form of the first d bits of a path
pub proof fn slice_is(path: Seq<u8>, d: int, r: Seq<u8>)
    ensures 0 <= d <= bp_len(path) && bp_wf(r) && bp_len(r) == d && (forall|q: int| 0 <= q && q < d ==> #[trigger] bp_at(r, q) == bp_at(path, 0 + q)) ==> r == bpk(pre_(bp_bits(path), d))
{ if 0 <= d <= bp_len(path) && bp_wf(r) && bp_len(r) == d && (forall|q: int| 0 <= q && q < d ==> #[trigger] bp_at(r, q) == bp_at(path, 0 + q)) { assert(bp_bits(r) =~= pre_(bp_bits(path), d)); bpk_is(r); } }
pub proof fn slice_at(path: Seq<u8>, d: int)
    ensures forall|r: Seq<u8>| 0 <= d <= bp_len(path) && #[trigger] bp_wf(r) && bp_len(r) == d && (forall|q: int| 0 <= q && q < d ==> #[trigger] bp_at(r, q) == bp_at(path, 0 + q)) ==> r == bpk(pre_(bp_bits(path), d))
{ assert forall|r: Seq<u8>| 0 <= d <= bp_len(path) && #[trigger] bp_wf(r) && bp_len(r) == d && (forall|q: int| 0 <= q && q < d ==> #[trigger] bp_at(r, q) == bp_at(path, 0 + q)) implies r == bpk(pre_(bp_bits(path), d)) by { slice_is(path, d, r); } }
// ---- every path has a storage form, so distinct paths are stored under distinct keys
pub open spec fn pk8(f: spec_fn(int) -> bool, k: int) -> u8 decreases k { if k <= 0 { 0u8 } else if f(k - 1) { pk8(f, k - 1) | (p2(8 - k) as u8) } else { pk8(f, k - 1) } }
pub proof fn pk8_is(f: spec_fn(int) -> bool, k: int, j: int)
    requires 0 <= k <= 8, 0 <= j < 8
    ensures byte_bit(pk8(f, k), j) == (j < k && f(j))
    decreases k
{
    if k == 0 { bp_zero_bit(j); }
    else { pk8_is(f, k - 1, j); if f(k - 1) { or_bits(pk8(f, k - 1), 8 - k, 7 - j); byte_bit_is(pk8(f, k), j); byte_bit_is(pk8(f, k - 1), j); } }
}
pub open spec fn pbyte(p: Seq<bool>, k: int) -> u8 { pk8(|j: int| 8 * k + j < p.len() && p[8 * k + j], 8) }
pub open spec fn penc(p: Seq<bool>) -> Seq<u8> { if p.len() == 0 { Seq::empty() } else { Seq::new((2 + (p.len() - 1) / 8) as nat, |k: int| if k == 0 { (if p.len() == 256 { 0u8 } else { p.len() as u8 }) } else { pbyte(p, k - 1) }) } }
pub proof fn bpk_bits(p: Seq<bool>) ensures p.len() <= 256 ==> bp_wf(bpk(p)) && bp_bits(bpk(p)) == p
{
    if p.len() <= 256 {
        let b = penc(p); let n = p.len() as int;
        if n == 0 { bpk_empty(); assert(bp_bits(Seq::<u8>::empty()) =~= p); }
        else {
            assert(bp_len(b) == n);
            assert forall|i: int| 0 <= i && i < 8 * (b.len() - 1) implies #[trigger] bp_at(b, i) == (i < n && p[i]) by {
                let k = i / 8; assert(b[1 + k] == pbyte(p, k)); pk8_is(|j: int| 8 * k + j < p.len() && p[8 * k + j], 8, i % 8); assert(8 * k + i % 8 == i); }
            assert(bp_wf(b)); assert(bp_bits(b) =~= p); bpk_is(b);
        }
    }
}
pub proof fn mkey_inj(n: int, p: Seq<bool>, m: int, q: Seq<bool>) ensures p.len() <= 256 && q.len() <= 256 && mkey(n, p) == mkey(m, q) ==> n == m && p == q
{ bpk_bits(p); bpk_bits(q); }
pub open spec fn same_nodes(db: Db, db2: Db, n: int, p: Seq<bool>) -> bool { forall|k: int, q: Seq<bool>| 1 <= k && i64r(k) && q.len() <= 256 && !(k == n && q == p) ==> #[trigger] same(db, db2, mkey(k, q)) }
pub open spec fn upto_nodes(db: Db, db2: Db, n: int) -> bool { forall|k: int, q: Seq<bool>| 1 <= k <= n && q.len() <= 256 ==> #[trigger] same(db, db2, mkey(k, q)) }
pub open spec fn put_mn(db: Db, n: int, p: Seq<bool>, mn: pb_MapNode) -> Db { db.insert(enc(mkey(n, p)), PVal::MapNode(mn)) }
pub open spec fn not_map(k: K, n: int) -> bool { !(k matches K::MapNode(m, q) && m == n) }
// only nodes of size n were written
pub open spec fn map_frame(db: Db, db2: Db, n: int) -> bool { forall|k: K| kvalid(k) && not_map(k, n) ==> #[trigger] same(db, db2, k) }
pub proof fn put_node(db: Db, n: int, p: Seq<bool>, mn: pb_MapNode)
    ensures i64r(n) && p.len() <= 256 && typed(db) ==> {
        let db2 = put_mn(db, n, p, mn);
        typed(db2) && stored(db2, mkey(n, p)) && rec(db2, mkey(n, p)) == PVal::MapNode(mn) && same_nodes(db, db2, n, p) && keeps_data(db, db2) && map_frame(db, db2, n) }
{
    if i64r(n) && p.len() <= 256 && typed(db) {
        let k = mkey(n, p); let db2 = put_mn(db, n, p, mn);
        store_same(db, k, PVal::MapNode(mn));
        assert forall|m: int, q: Seq<bool>| 1 <= m && i64r(m) && q.len() <= 256 && !(m == n && q == p) implies #[trigger] same(db, db2, mkey(m, q)) by { mkey_inj(m, q, n, p); assert(kvalid(mkey(m, q)) && mkey(m, q) != k); }
        assert forall|h: Seq<u8>| data_at(db, 1, h) implies #[trigger] data_at(db2, 1, h) by { assert(K::Data(1, h) != k); assert(same(db, db2, K::Data(1, h))); }
    }
}
// ---- writing the nodes above a changed one
pub open spec fn wa_pre(db: Db, n: int, last: pb_MapNode, anc: Seq<Option<pb_MapNode>>, b: Seq<bool>, c: Cn) -> bool {
    anc.len() <= 255 && b.len() == 256 && 1 <= n <= max_log() && typed(db) && tree_ok(db, n, last, pre_(b, anc.len() as int), c)
    && stored(db, mkey(n, pre_(b, anc.len() as int))) && rec(db, mkey(n, pre_(b, anc.len() as int))) == PVal::MapNode(last)
    && forall|i: int| 0 <= i < anc.len() ==> (#[trigger] anc[i]) is Some && side_ok(db, n, anc[i]->0, pre_(b, i), c, !b[i])
}
pub open spec fn wa_any(db: Db, n: int, last: pb_MapNode, anc: Seq<Option<pb_MapNode>>, b: Seq<bool>) -> bool { exists|c: Cn| #[trigger] wa_pre(db, n, last, anc, b, c) }
pub open spec fn wa_node(a: pb_MapNode, b: bool, n: int, h: Seq<u8>) -> pb_MapNode {
    if b { pb_MapNode { LeafHash: Seq::empty(), Path: Seq::empty(), LeftNumber: a.LeftNumber, LeftHash: a.LeftHash, RightNumber: n, RightHash: h } }
    else { pb_MapNode { LeafHash: Seq::empty(), Path: Seq::empty(), LeftNumber: n, LeftHash: h, RightNumber: a.RightNumber, RightHash: a.RightHash } }
}
pub proof fn wa_step(db: Db, n: int, last: pb_MapNode, anc: Seq<Option<pb_MapNode>>, b: Seq<bool>, c: Cn, i: int)
    requires wa_pre(db, n, last, anc, b, c), i == anc.len() - 1, i >= 0
    ensures ({ let m = wa_node(anc[i]->0, b[i], n, nval(last, i + 1)); wa_pre(put_mn(db, n, pre_(b, i), m), n, m, anc.subrange(0, i), b, c) })
{
    let m = wa_node(anc[i]->0, b[i], n, nval(last, i + 1)); let p = pre_(b, i); let p1 = pre_(b, i + 1);
    let db2 = put_mn(db, n, p, m);
    put_node(db, n, p, m);
    assert(p1 =~= p.push(b[i]));
    nval_is(db, n, last, p1, c);
    assert(same_below(db, db2, n, p1)); 
    tree_frame(db, db2, n, n, last, p1, c);
    assert(same(db, db2, mkey(n, p1)));
    assert(side_ok(db2, n, m, p, c, b[i]));
    assert(anc[i] is Some && side_ok(db, n, anc[i]->0, p, c, !b[i]));
    assert(side_ok(db, n, m, p, c, !b[i]));
    assert forall|k: int, q: Seq<bool>| 1 <= k <= n && below(p.push(!b[i]), q) && q.len() <= 255 implies #[trigger] same(db, db2, mkey(k, q)) by { below_push(p, !b[i], q); }
    side_frame(db, db2, n, n, m, p, c, !b[i]);
    let a2 = anc.subrange(0, i);
    assert forall|j: int| 0 <= j < a2.len() implies (#[trigger] a2[j]) is Some && side_ok(db2, n, a2[j]->0, pre_(b, j), c, !b[j]) by {
        assert(a2[j] == anc[j]);
        assert forall|k: int, q: Seq<bool>| 1 <= k <= n && below(pre_(b, j).push(!b[j]), q) && q.len() <= 255 implies #[trigger] same(db, db2, mkey(k, q)) by { below_push(pre_(b, j), !b[j], q); assert(p[j] == b[j]); }
        side_frame(db, db2, n, n, anc[j]->0, pre_(b, j), c, !b[j]);
    }
}
pub proof fn wa_round(db: Db, n: int, last: pb_MapNode, anc: Seq<Option<pb_MapNode>>, b: Seq<bool>, i: int)
    ensures 0 <= i == anc.len() - 1 ==> {
        let m = wa_node(anc[i]->0, b[i], n, nval(last, i + 1)); let db2 = put_mn(db, n, pre_(b, i), m);
        (forall|c: Cn| #[trigger] wa_pre(db, n, last, anc, b, c) ==> wa_pre(db2, n, m, anc.subrange(0, i), b, c))
        && (wa_any(db, n, last, anc, b) ==> wa_any(db2, n, m, anc.subrange(0, i), b) && anc[i] is Some && map_frame(db, db2, n) && typed(db2)) }
{
    if 0 <= i == anc.len() - 1 {
        let m = wa_node(anc[i]->0, b[i], n, nval(last, i + 1)); let db2 = put_mn(db, n, pre_(b, i), m);
        assert forall|c: Cn| #[trigger] wa_pre(db, n, last, anc, b, c) implies wa_pre(db2, n, m, anc.subrange(0, i), b, c) by { wa_step(db, n, last, anc, b, c, i); }
        if wa_any(db, n, last, anc, b) { let c = choose|c: Cn| #[trigger] wa_pre(db, n, last, anc, b, c); assert(wa_pre(db2, n, m, anc.subrange(0, i), b, c)); put_node(db, n, pre_(b, i), m); assert(anc[i] is Some); }
    }
}
pub proof fn frame_trans(db: Db, db1: Db, db2: Db, n: int) ensures map_frame(db, db1, n) && map_frame(db1, db2, n) ==> map_frame(db, db2, n)
{ if map_frame(db, db1, n) && map_frame(db1, db2, n) { assert forall|k: K| kvalid(k) && not_map(k, n) implies #[trigger] same(db, db2, k) by { assert(same(db, db1, k) && same(db1, db2, k)); } } }
pub proof fn wa_done(db: Db, n: int, last: pb_MapNode, anc: Seq<Option<pb_MapNode>>, b: Seq<bool>)
    ensures anc.len() == 0 ==> forall|c: Cn| #[trigger] wa_pre(db, n, last, anc, b, c) ==> map_ok(db, n, c) && nval(last, 0) == smt(c, Seq::empty())
{ if anc.len() == 0 { assert forall|c: Cn| #[trigger] wa_pre(db, n, last, anc, b, c) implies map_ok(db, n, c) && nval(last, 0) == smt(c, Seq::empty()) by { bpk_empty(); assert(pre_(b, 0) =~= Seq::<bool>::empty()); nval_is(db, n, last, pre_(b, 0), c); } } }
pub proof fn wa_last(db: Db, n: int, last: pb_MapNode, anc: Seq<Option<pb_MapNode>>, b: Seq<bool>)
    ensures wa_any(db, n, last, anc, b) ==> anc.len() <= 255 && 1 <= n <= max_log() && typed(db) && b.len() == 256 && (mn_leaf(last) ==> last.Path.len() == 33)
{ if wa_any(db, n, last, anc, b) { let c = choose|c: Cn| #[trigger] wa_pre(db, n, last, anc, b, c); if mn_leaf(last) { assert(leaf_ok(db, last, pre_(b, anc.len() as int), c)); let kk = choose|kk: Seq<u8>| last.Path == #[trigger] key_path(kk); key_path_len(kk); } } }
