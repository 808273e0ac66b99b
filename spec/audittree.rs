// uses: merkle, logtree, stack, keys, bpath, smt, logstore, maptree, mapset
//@type verifiable.mapAuditNode
// The auditor's copy of a map: nodes on a heap, each at one place of the sparse tree.
pub type Mem = Map<int, verifiable_mapAuditNode>;
pub type At = Map<Seq<bool>, int>;
pub open spec fn kid(n: verifiable_mapAuditNode, b: bool) -> int { if b { n.Right } else { n.Left } }
pub open spec fn is_kp(k: Seq<bool>) -> bool { exists|key: Seq<u8>| k == #[trigger] key_bits(key) }
pub open spec fn kid_ok(at: At, c: Cn, q: Seq<bool>, b: bool, k: int) -> bool {
    if k == 0 { !at.dom().contains(q.push(b)) && all_null(q.push(b), c) } else { at.dom().contains(q.push(b)) && at[q.push(b)] == k } }
pub open spec fn leaf_at(c: Cn, q: Seq<bool>, k: Seq<bool>, h: Seq<u8>) -> bool { forall|x: Seq<bool>| #[trigger] ext(q, x) ==> c(x) == (if x == k { h } else { null_leaf() }) }
// the node at place q stands for the contents below q
pub open spec fn node_ok(m: Mem, at: At, c: Cn, q: Seq<bool>) -> bool {
    let p = at[q]; let n = m[p];
    &&& q.len() <= 255 &&& p > 0 &&& m.dom().contains(p) &&& n.Depth == q.len()
    &&& (q.len() > 0 ==> at.dom().contains(q.drop_last()))
    &&& if n.Leaf { q.len() >= 1 && n.Left == 0 && n.Right == 0 && is_kp(n.KeyPath) && ext(q, n.KeyPath) && n.LeafHash.len() == 32
            && !at.dom().contains(q.push(false)) && !at.dom().contains(q.push(true)) && leaf_at(c, q, n.KeyPath, n.LeafHash) }
        else { q.len() <= 254 && kid_ok(at, c, q, false, n.Left) && kid_ok(at, c, q, true, n.Right) }
}
// no object is at two places
pub open spec fn apart(at: At, q: Seq<bool>, r: Seq<bool>) -> bool { at.dom().contains(q) && at.dom().contains(r) && at[q] == at[r] ==> q == r }
pub open spec fn placed(at: At) -> bool { at.dom().contains(Seq::empty()) && forall|q: Seq<bool>, r: Seq<bool>| #[trigger] apart(at, q, r) }
pub open spec fn shape(m: Mem, at: At, c: Cn) -> bool { placed(at) && forall|q: Seq<bool>| at.dom().contains(q) ==> #[trigger] node_ok(m, at, c, q) }
// a node's remembered hash is the hash of what it stands for
pub open spec fn hash_ok(m: Mem, at: At, c: Cn, q: Seq<bool>) -> bool { m[at[q]].Hash.len() > 0 ==> m[at[q]].Hash == smt(c, q) }
pub open spec fn wf(m: Mem, at: At, c: Cn) -> bool { shape(m, at, c) && forall|q: Seq<bool>| at.dom().contains(q) ==> #[trigger] hash_ok(m, at, c, q) }
pub open spec fn at_node(m: Mem, at: At, c: Cn, q: Seq<bool>, p: int) -> bool { wf(m, at, c) && at.dom().contains(q) && at[q] == p }
// the tree below root holds the contents c
pub open spec fn tree(m: Mem, root: int, c: Cn) -> bool { exists|at: At| #[trigger] at_node(m, at, c, Seq::empty(), root) }
pub open spec fn only_hashes(m: Mem, m2: Mem) -> bool {
    m2.dom() =~= m.dom() && forall|p: int| #[trigger] m2[p] == (verifiable_mapAuditNode { Hash: m2[p].Hash, ..m[p] }) }
// ---- the hash of a leaf, folded up its path
pub open spec fn kup(k: Seq<bool>, lh: Seq<u8>, d: int) -> Seq<u8> decreases 256 - d
{ if d >= 256 { lh } else { let t = kup(k, lh, d + 1); if k[d] { node_hash(dflt(d + 1), t) } else { node_hash(t, dflt(d + 1)) } } }
pub proof fn kup_is(c: Cn, q: Seq<bool>, k: Seq<bool>, lh: Seq<u8>, d: int)
    requires ext(q, k), leaf_at(c, q, k, lh), q.len() <= d <= 256
    ensures kup(k, lh, d) == smt(c, k.subrange(0, d))
    decreases 256 - d
{
    let p = k.subrange(0, d);
    if d == 256 { assert(p =~= k); }
    else {
        kup_is(c, q, k, lh, d + 1);
        assert(k.subrange(0, d + 1) =~= p.push(k[d]));
        let o = p.push(!k[d]);
        assert forall|x: Seq<bool>| #[trigger] ext(o, x) implies c(x) == null_leaf() by {
            ext_push(p, !k[d], x); assert(x[d] != k[d]);
            assert(x.subrange(0, q.len() as int) =~= x.subrange(0, d).subrange(0, q.len() as int)); assert(p.subrange(0, q.len() as int) =~= k.subrange(0, q.len() as int)); assert(ext(q, x)); }
        smt_default(c, o);
    }
}
pub proof fn leaf_value(m: Mem, at: At, c: Cn, q: Seq<bool>, p: int)
    ensures at_node(m, at, c, q, p) && m[p].Leaf ==> m[p].KeyPath.len() == 256 && m[p].LeafHash.len() == 32 && kup(m[p].KeyPath, m[p].LeafHash, q.len() as int) == smt(c, q)
{
    if at_node(m, at, c, q, p) && m[p].Leaf {
        assert(node_ok(m, at, c, q));
        kup_is(c, q, m[p].KeyPath, m[p].LeafHash, q.len() as int);
    }
}
pub proof fn kid_value(m: Mem, at: At, c: Cn, q: Seq<bool>, p: int, b: bool)
    ensures at_node(m, at, c, q, p) && !m[p].Leaf ==> q.len() <= 254 && (kid(m[p], b) == 0 ==> smt(c, q.push(b)) == dflt(q.len() as int + 1)) && (kid(m[p], b) != 0 ==> at_node(m, at, c, q.push(b), kid(m[p], b)) && m[kid(m[p], b)].Depth == q.len() + 1)
{
    if at_node(m, at, c, q, p) && !m[p].Leaf {
        assert(node_ok(m, at, c, q));
        assert(kid_ok(at, c, q, b, kid(m[p], b)));
        if kid(m[p], b) == 0 { smt_default(c, q.push(b)); } else { assert(node_ok(m, at, c, q.push(b))); }
    }
}
// only hashes changed, and every changed one is right
pub proof fn rehashed(m: Mem, m2: Mem, at: At, c: Cn, q: Seq<bool>, p: int)
    ensures at_node(m, at, c, q, p) && m2 =~= m.insert(p, verifiable_mapAuditNode { Hash: smt(c, q), ..m[p] }) ==> at_node(m2, at, c, q, p) && only_hashes(m, m2)
{
    if at_node(m, at, c, q, p) && m2 =~= m.insert(p, verifiable_mapAuditNode { Hash: smt(c, q), ..m[p] }) {
        assert(node_ok(m, at, c, q));
        assert forall|r: Seq<bool>| at.dom().contains(r) implies #[trigger] node_ok(m2, at, c, r) by { assert(node_ok(m, at, c, r)); assert(apart(at, q, r)); }
        assert forall|r: Seq<bool>| at.dom().contains(r) implies #[trigger] hash_ok(m2, at, c, r) by { assert(hash_ok(m, at, c, r)); assert(apart(at, q, r)); }
    }
}
pub proof fn cached(m: Mem, at: At, c: Cn, q: Seq<bool>, p: int)
    ensures at_node(m, at, c, q, p) ==> q.len() <= 255 && (m[p].Hash.len() > 0 ==> m[p].Hash == smt(c, q))
{ if at_node(m, at, c, q, p) { assert(hash_ok(m, at, c, q)); assert(node_ok(m, at, c, q)); } }
pub proof fn rehashed_any(m2: Mem, at: At, c: Cn, q: Seq<bool>, p: int)
    ensures forall|m: Mem| #[trigger] wf(m, at, c) && at.dom().contains(q) && at[q] == p && m2 == m.insert(p, verifiable_mapAuditNode { Hash: smt(c, q), ..m[p] }) ==> at_node(m2, at, c, q, p) && only_hashes(m, m2)
{
    assert forall|m: Mem| #[trigger] wf(m, at, c) && at.dom().contains(q) && at[q] == p && m2 == m.insert(p, verifiable_mapAuditNode { Hash: smt(c, q), ..m[p] }) implies at_node(m2, at, c, q, p) && only_hashes(m, m2) by { rehashed(m, m2, at, c, q, p); }
}
pub proof fn only_hashes_refl(m: Mem) ensures only_hashes(m, m) { }
// only hashes changed, twice
pub proof fn only_hashes_then(m: Mem, m3: Mem) ensures forall|m2: Mem| #[trigger] only_hashes(m, m2) && only_hashes(m2, m3) ==> only_hashes(m, m3)
{ assert forall|m2: Mem| #[trigger] only_hashes(m, m2) && only_hashes(m2, m3) implies only_hashes(m, m3) by { assert forall|p: int| #[trigger] m3[p] == (verifiable_mapAuditNode { Hash: m3[p].Hash, ..m[p] }) by { assert(m2[p] == (verifiable_mapAuditNode { Hash: m2[p].Hash, ..m[p] })); } } }
pub open spec fn facts(m: Mem, at: At, c: Cn, q: Seq<bool>, p: int) -> bool {
    &&& at_node(m, at, c, q, p) && q.len() <= 255 && p > 0 && m.dom().contains(p) && m[p].Depth == q.len()
    &&& (m[p].Hash.len() > 0 ==> m[p].Hash == smt(c, q))
    &&& (m[p].Leaf ==> m[p].KeyPath.len() == 256 && m[p].LeafHash.len() == 32 && kup(m[p].KeyPath, m[p].LeafHash, q.len() as int) == smt(c, q))
    &&& (!m[p].Leaf ==> q.len() <= 254 && kid_fact(m, at, c, q, false, m[p].Left) && kid_fact(m, at, c, q, true, m[p].Right))
}
pub open spec fn kid_fact(m: Mem, at: At, c: Cn, q: Seq<bool>, b: bool, k: int) -> bool {
    (k == 0 ==> smt(c, q.push(b)) == dflt(q.len() as int + 1)) && (k != 0 ==> at_node(m, at, c, q.push(b), k) && m[k].Depth == q.len() + 1)
}
pub proof fn node_facts(at: At, c: Cn, q: Seq<bool>, p: int)
    ensures forall|m: Mem| #[trigger] wf(m, at, c) && at.dom().contains(q) && at[q] == p ==> facts(m, at, c, q, p)
{
    assert forall|m: Mem| #[trigger] wf(m, at, c) && at.dom().contains(q) && at[q] == p implies facts(m, at, c, q, p) by {
        cached(m, at, c, q, p); leaf_value(m, at, c, q, p); kid_value(m, at, c, q, p, false); kid_value(m, at, c, q, p, true); assert(node_ok(m, at, c, q)); }
}
// ---- applying a mutation
pub open spec fn no_hash(n: verifiable_mapAuditNode) -> verifiable_mapAuditNode { verifiable_mapAuditNode { Hash: Seq::empty(), ..n } }
pub open spec fn cut(at: At, b: Seq<bool>, d: int) -> bool { 0 <= d <= b.len() && at.dom().contains(pre_(b, d)) }
// the nodes above depth d on the path b have no remembered hash
pub open spec fn cleared(m: Mem, at: At, b: Seq<bool>, d: int) -> bool { forall|i: int| 0 <= i < d && #[trigger] cut(at, b, i) ==> m[at[pre_(b, i)]].Hash.len() == 0 }
// h is the node of the path b at its depth
pub open spec fn on_path(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int) -> bool {
    wf(m, at, c) && at[Seq::<bool>::empty()] == root && is_kp(b) && b.len() == 256 && 0 <= m[h].Depth <= 255 && cut(at, b, m[h].Depth) && at[pre_(b, m[h].Depth)] == h && h > 0 && m.dom().contains(h) && cleared(m, at, b, m[h].Depth)
}
// next is the node to go to: the root at first, then the child on the path
pub open spec fn going(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int, next: int) -> bool {
    on_path(m, at, c, b, root, h) && ((next == h && h == root && m[h].Depth == 0) || next == kid(m[h], b[m[h].Depth]))
}
pub open spec fn left_to_go(m: Mem, next: int) -> int { if next == 0 { 0 } else { 257 - m[next].Depth } }
pub proof fn path_kid(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int)
    ensures on_path(m, at, c, b, root, h) ==> {
        let d = m[h].Depth; let k = kid(m[h], b[d]);
        node_ok(m, at, c, pre_(b, d)) && pre_(b, d).len() == d && ext(pre_(b, d), b) && pre_(b, d).push(b[d]) == pre_(b, d + 1)
        && (k != 0 ==> !m[h].Leaf && d <= 254 && cut(at, b, d + 1) && at[pre_(b, d + 1)] == k && m[k].Depth == d + 1 && k > 0 && m.dom().contains(k)) && (k == 0 ==> !at.dom().contains(pre_(b, d + 1))) }
{
    if on_path(m, at, c, b, root, h) {
        let d = m[h].Depth; let k = kid(m[h], b[d]);
        assert(node_ok(m, at, c, pre_(b, d)));
        assert(pre_(b, d).push(b[d]) =~= pre_(b, d + 1));
        if k != 0 { assert(kid_ok(at, c, pre_(b, d), b[d], k)); assert(node_ok(m, at, c, pre_(b, d + 1))); }
    }
}
// forgetting the hash of a node
pub proof fn forget(m: Mem, at: At, c: Cn, q: Seq<bool>)
    ensures wf(m, at, c) && at.dom().contains(q) ==> wf(m.insert(at[q], no_hash(m[at[q]])), at, c)
{
    if wf(m, at, c) && at.dom().contains(q) {
        let p = at[q]; let m2 = m.insert(p, no_hash(m[p]));
        assert(node_ok(m, at, c, q));
        assert forall|r: Seq<bool>| at.dom().contains(r) implies #[trigger] node_ok(m2, at, c, r) by { assert(node_ok(m, at, c, r)); assert(apart(at, q, r)); }
        assert forall|r: Seq<bool>| at.dom().contains(r) implies #[trigger] hash_ok(m2, at, c, r) by { assert(hash_ok(m, at, c, r)); assert(apart(at, q, r)); }
    }
}
pub proof fn forget_head(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int)
    ensures on_path(m, at, c, b, root, h) ==> { let m2 = m.insert(h, no_hash(m[h])); on_path(m2, at, c, b, root, h) && cleared(m2, at, b, m[h].Depth + 1) && forall|p: int| kid(#[trigger] m2[p], true) == kid(m[p], true) && kid(m2[p], false) == kid(m[p], false) && m2[p].Depth == m[p].Depth }
{
    if on_path(m, at, c, b, root, h) {
        let m2 = m.insert(h, no_hash(m[h])); let d = m[h].Depth;
        forget(m, at, c, pre_(b, d));
        assert forall|i: int| 0 <= i < d + 1 && #[trigger] cut(at, b, i) implies m2[at[pre_(b, i)]].Hash.len() == 0 by { if i < d { assert(m[at[pre_(b, i)]].Hash.len() == 0); } }
    }
}
// one step down
pub proof fn step_down(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int, next: int)
    ensures going(m, at, c, b, root, h, next) && next != 0 ==> { let m2 = m.insert(h, no_hash(m[h])); going(m2, at, c, b, root, next, kid(m2[next], b[m2[next].Depth])) && 0 <= m[next].Depth <= 255 && left_to_go(m2, kid(m2[next], b[m2[next].Depth])) < left_to_go(m, next) }
{
    if going(m, at, c, b, root, h, next) && next != 0 {
        let m2 = m.insert(h, no_hash(m[h]));
        path_kid(m, at, c, b, root, h); forget_head(m, at, c, b, root, h);
        if next == kid(m[h], b[m[h].Depth]) { path_kid(m2, at, c, b, root, h); assert(on_path(m2, at, c, b, root, next)); }
        path_kid(m2, at, c, b, root, next);
    }
}
pub proof fn start_down(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int)
    ensures at_node(m, at, c, Seq::empty(), root) && is_kp(b) && b.len() == 256 ==> going(m, at, c, b, root, root, root)
{ if at_node(m, at, c, Seq::empty(), root) { assert(node_ok(m, at, c, Seq::empty())); assert(pre_(b, 0) =~= Seq::<bool>::empty()); } }
// ---- splitting a leaf until the paths part
pub open spec fn mk_leaf(d: int, k: Seq<bool>, lh: Seq<u8>) -> verifiable_mapAuditNode {
    verifiable_mapAuditNode { Hash: Seq::empty(), Depth: d, Leaf: true, KeyPath: k, LeafHash: lh, Left: 0, Right: 0 }
}
pub open spec fn with_kid(n: verifiable_mapAuditNode, b: bool, k: int) -> verifiable_mapAuditNode { if b { verifiable_mapAuditNode { Right: k, ..n } } else { verifiable_mapAuditNode { Left: k, ..n } } }
pub open spec fn split_mem(m: Mem, h: int, ch: int) -> Mem {
    let n = m[h];
    m.insert(ch, mk_leaf(n.Depth + 1, n.KeyPath, n.LeafHash)).insert(h, with_kid(verifiable_mapAuditNode { Hash: Seq::empty(), Depth: n.Depth, Leaf: false, KeyPath: Seq::empty(), LeafHash: Seq::empty(), Left: 0, Right: 0 }, n.KeyPath[n.Depth], ch))
}
pub open spec fn lone(m: Mem, b: Seq<bool>, h: int, next: int) -> bool { next == h && (m[h].Leaf ==> m[h].KeyPath != b) && (!m[h].Leaf ==> kid(m[h], b[m[h].Depth]) == 0) }
pub open spec fn with_leaf(m: Mem, b: Seq<bool>, h: int, next: int) -> bool {
    let d = m[h].Depth; let k = m[next].KeyPath;
    !m[h].Leaf && m[h].Hash.len() == 0 && m[next].Leaf && k != b && m[next].Depth == d + 1 && k.len() == 256 && next > 0 && kid(m[h], k[d]) == next && kid(m[h], !k[d]) == 0
}
pub open spec fn splitting_at(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int, next: int) -> bool { on_path(m, at, c, b, root, h) && (lone(m, b, h, next) || with_leaf(m, b, h, next)) }
pub open spec fn splitting(m: Mem, c: Cn, b: Seq<bool>, root: int, h: int, next: int) -> bool { exists|at: At| #[trigger] splitting_at(m, at, c, b, root, h, next) }
// the leaf next still shares the path
pub open spec fn shares(m: Mem, b: Seq<bool>, next: int) -> bool { m[next].Leaf && b[m[next].Depth - 1] == m[next].KeyPath[m[next].Depth - 1] }
pub proof fn start_split(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int)
    ensures forall|next: int| #[trigger] going(m, at, c, b, root, h, next) && next == 0 && !(m[h].Leaf && m[h].KeyPath == b) ==> splitting(m, c, b, root, h, h)
{ assert forall|next: int| #[trigger] going(m, at, c, b, root, h, next) && next == 0 && !(m[h].Leaf && m[h].KeyPath == b) implies splitting(m, c, b, root, h, h) by { assert(splitting_at(m, at, c, b, root, h, h)); } }
pub proof fn apart_keys(k: Seq<bool>, b: Seq<bool>)
    ensures is_kp(k) && is_kp(b) && k != b && keys_spread() ==> exists|q: int| 0 <= q < 255 && #[trigger] k[q] != b[q]
{
    if is_kp(k) && is_kp(b) && k != b && keys_spread() {
        let x = choose|x: Seq<u8>| k == #[trigger] key_bits(x); let y = choose|y: Seq<u8>| b == #[trigger] key_bits(y);
        assert(key_path(x) != key_path(y));
        let q = choose|q: int| 0 <= q < 255 && #[trigger] key_bits(x)[q] != key_bits(y)[q];
        assert(k[q] != b[q]);
    }
}
// the leaf to split is the node of the path
pub proof fn shared_leaf(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int, next: int)
    ensures splitting_at(m, at, c, b, root, h, next) ==> {
        &&& m[next].Depth <= 255 && m[next].Depth >= 0 && next > 0 && m.dom().contains(next)
        &&& (m[next].Leaf ==> m[next].Depth >= 1 && m[next].KeyPath.len() == 256 && is_kp(m[next].KeyPath) && m[next].KeyPath != b)
        &&& (shares(m, b, next) ==> on_path(m, at, c, b, root, next) && (keys_spread() ==> m[next].Depth <= 254))
        &&& (!shares(m, b, next) ==> !m[h].Leaf && kid(m[h], b[m[h].Depth]) == 0) }
{
    if splitting_at(m, at, c, b, root, h, next) {
        let d = m[h].Depth; let q = pre_(b, d);
        assert(node_ok(m, at, c, q));
        if lone(m, b, h, next) {
            if m[h].Leaf { let kp = m[h].KeyPath; let x = choose|x: Seq<u8>| kp == #[trigger] key_bits(x); key_path_len(x); assert(pre_(b, d)[d - 1] == kp.subrange(0, d)[d - 1]); }
        } else {
            let k = m[next].KeyPath; let r = q.push(k[d]);
            assert(kid_ok(at, c, q, k[d], next)); assert(node_ok(m, at, c, r));
            if shares(m, b, next) {
                assert(r =~= pre_(b, d + 1)); assert(cut(at, b, d + 1));
                assert forall|i: int| 0 <= i < d + 1 && #[trigger] cut(at, b, i) implies m[at[pre_(b, i)]].Hash.len() == 0 by { }
            }
        }
        if shares(m, b, next) && keys_spread() {
            let k = m[next].KeyPath; apart_keys(k, b);
            let e = choose|e: int| 0 <= e < 255 && #[trigger] k[e] != b[e];
            let dn = m[next].Depth;
            assert(node_ok(m, at, c, pre_(b, dn)));
            if e < dn { assert(pre_(b, dn)[e] == k.subrange(0, dn)[e]); }
        }
    }
}
pub proof fn split_one(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int, ch: int)
    requires on_path(m, at, c, b, root, h), m[h].Leaf, m[h].KeyPath != b, m[h].Depth <= 254, ch > 0, !m.dom().contains(ch), keys_spread()
    ensures splitting(split_mem(m, h, ch), c, b, root, h, ch)
{
    let m2 = split_mem(m, h, ch); let d = m[h].Depth; let q = pre_(b, d); let kp = m[h].KeyPath; let r = q.push(kp[d]); let o = q.push(!kp[d]);
    let at2 = at.insert(r, ch);
    assert(node_ok(m, at, c, q));
    { let x = choose|x: Seq<u8>| kp == #[trigger] key_bits(x); key_path_len(x); }
    assert(ch != h);
    assert(r == q.push(true) || r == q.push(false)); assert(!at.dom().contains(r)); assert(!at.dom().contains(o));
    assert(r.drop_last() =~= q); assert(r.len() == d + 1 && o.len() == d + 1); assert(o != r) by { assert(o[d] != r[d]); }
    assert(ext(q, kp)); ext_push(q, kp[d], kp);
    assert forall|p: Seq<bool>| at.dom().contains(p) implies at[p] != ch && (p != q ==> at[p] != h) && at2[p] == at[p] by { assert(node_ok(m, at, c, p)); assert(apart(at, p, q)); }
    assert(placed(at2)) by { assert forall|p: Seq<bool>, p2: Seq<bool>| #[trigger] apart(at2, p, p2) by { assert(apart(at, p, p2)); } }
    assert(all_null(o, c)) by { assert forall|x: Seq<bool>| #[trigger] ext(o, x) implies c(x) == null_leaf() by { ext_push(q, !kp[d], x); assert(x != kp); } }
    assert(leaf_at(c, r, kp, m[h].LeafHash)) by { assert forall|x: Seq<bool>| #[trigger] ext(r, x) implies c(x) == (if x == kp { m[h].LeafHash } else { null_leaf() }) by { ext_push(q, kp[d], x); } }
    assert forall|p: Seq<bool>| at2.dom().contains(p) implies #[trigger] node_ok(m2, at2, c, p) by {
        if p == r {
            assert forall|x: bool| !at2.dom().contains(#[trigger] r.push(x)) by { assert(r.push(x).len() != r.len()); assert(r.push(x).drop_last() =~= r); if at.dom().contains(r.push(x)) { assert(node_ok(m, at, c, r.push(x))); } }
            assert(!at2.dom().contains(r.push(true)) && !at2.dom().contains(r.push(false)));
        } else {
            assert(node_ok(m, at, c, p));
            if p == q { assert(kid_ok(at2, c, q, kp[d], ch)); assert(kid_ok(at2, c, q, !kp[d], 0)); assert(kid(m2[h], kp[d]) == ch && kid(m2[h], !kp[d]) == 0); assert(kid_ok(at2, c, q, false, m2[h].Left) && kid_ok(at2, c, q, true, m2[h].Right)); }
            else {
                assert forall|x: bool| #[trigger] p.push(x) != r by { assert(p.push(x).drop_last() =~= p); }
                assert(p.push(true) != r && p.push(false) != r);
                if p.len() > 0 { assert(at2.dom().contains(p.drop_last())); }
            }
        }
    }
    assert forall|p: Seq<bool>| at2.dom().contains(p) implies #[trigger] hash_ok(m2, at2, c, p) by { if p != r { assert(hash_ok(m, at, c, p)); } }
    assert(Seq::<bool>::empty() != r) by { assert(r.len() > 0); }
    assert(cleared(m2, at2, b, d)) by { assert forall|i: int| 0 <= i < d && #[trigger] cut(at2, b, i) implies m2[at2[pre_(b, i)]].Hash.len() == 0 by { assert(pre_(b, i).len() == i); assert(pre_(b, i) != r); assert(cut(at, b, i)); } }
    assert(q != r);
    assert(on_path(m2, at2, c, b, root, h));
    assert(splitting_at(m2, at2, c, b, root, h, ch));
}
pub proof fn split_step(m: Mem, m2: Mem, c: Cn, b: Seq<bool>, root: int, h: int, next: int, ch: int)
    ensures splitting(m, c, b, root, h, next) && shares(m, b, next) && keys_spread() ==> m[next].Depth <= 254 && (ch > 0 && !m.dom().contains(ch) && m2 =~= split_mem(m, next, ch) ==> splitting(m2, c, b, root, next, ch) && m2[ch].Depth == m[next].Depth + 1)
{
    if splitting(m, c, b, root, h, next) && shares(m, b, next) && keys_spread() {
        let at = choose|at: At| #[trigger] splitting_at(m, at, c, b, root, h, next);
        shared_leaf(m, at, c, b, root, h, next);
        if ch > 0 && !m.dom().contains(ch) && m2 =~= split_mem(m, next, ch) { split_one(m, at, c, b, root, next, ch); }
    }
}
pub open spec fn split_fact(m: Mem, b: Seq<bool>, h: int, next: int) -> bool {
    &&& 0 <= m[next].Depth <= 255 && next > 0 && m.dom().contains(next) && 0 <= m[h].Depth <= 255 && h > 0
    &&& (m[next].Leaf ==> m[next].Depth >= 1 && m[next].KeyPath.len() == 256)
    &&& (!shares(m, b, next) ==> !m[h].Leaf && kid(m[h], b[m[h].Depth]) == 0)
}
pub proof fn split_facts(c: Cn, b: Seq<bool>, root: int)
    ensures forall|m: Mem, h: int, next: int| #[trigger] splitting(m, c, b, root, h, next) ==> split_fact(m, b, h, next)
{ assert forall|m: Mem, h: int, next: int| #[trigger] splitting(m, c, b, root, h, next) implies split_fact(m, b, h, next) by { let at = choose|at: At| #[trigger] splitting_at(m, at, c, b, root, h, next); shared_leaf(m, at, c, b, root, h, next); } }
// ---- hanging a new leaf below h
pub open spec fn attach_mem(m: Mem, h: int, ch: int, b: Seq<bool>) -> Mem {
    m.insert(ch, mk_leaf(m[h].Depth + 1, b, null_leaf())).insert(h, verifiable_mapAuditNode { Hash: Seq::empty(), ..with_kid(m[h], b[m[h].Depth], ch) })
}
pub proof fn attach(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int, ch: int)
    requires on_path(m, at, c, b, root, h), !m[h].Leaf, kid(m[h], b[m[h].Depth]) == 0, ch > 0, !m.dom().contains(ch)
    ensures exists|at2: At| #[trigger] on_path(attach_mem(m, h, ch, b), at2, c, b, root, ch)
{
    let m2 = attach_mem(m, h, ch, b); let d = m[h].Depth; let q = pre_(b, d); let r = q.push(b[d]); let o = q.push(!b[d]);
    let at2 = at.insert(r, ch);
    assert(node_ok(m, at, c, q));
    { let x = choose|x: Seq<u8>| b == #[trigger] key_bits(x); key_path_len(x); }
    assert(ch != h);
    assert(kid_ok(at, c, q, b[d], 0)); assert(!at.dom().contains(r));
    assert(r.drop_last() =~= q); assert(r.len() == d + 1 && o.len() == d + 1); assert(o != r) by { assert(o[d] != r[d]); }
    assert(r =~= pre_(b, d + 1)); assert(ext(r, b));
    assert forall|p: Seq<bool>| at.dom().contains(p) implies at[p] != ch && (p != q ==> at[p] != h) && at2[p] == at[p] by { assert(node_ok(m, at, c, p)); assert(apart(at, p, q)); }
    assert(placed(at2)) by { assert forall|p: Seq<bool>, p2: Seq<bool>| #[trigger] apart(at2, p, p2) by { assert(apart(at, p, p2)); } }
    broadcast use ax_sha_len;
    assert(leaf_at(c, r, b, null_leaf()));
    assert forall|p: Seq<bool>| at2.dom().contains(p) implies #[trigger] node_ok(m2, at2, c, p) by {
        if p == r {
            assert forall|x: bool| !at2.dom().contains(#[trigger] r.push(x)) by { assert(r.push(x).len() != r.len()); assert(r.push(x).drop_last() =~= r); if at.dom().contains(r.push(x)) { assert(node_ok(m, at, c, r.push(x))); } }
            assert(!at2.dom().contains(r.push(true)) && !at2.dom().contains(r.push(false)));
        } else {
            assert(node_ok(m, at, c, p));
            if p == q { let k = kid(m[h], !b[d]); assert(kid_ok(at, c, q, !b[d], k)); assert(kid_ok(at2, c, q, b[d], ch)); assert(kid_ok(at2, c, q, !b[d], k)); assert(kid(m2[h], b[d]) == ch && kid(m2[h], !b[d]) == k); assert(kid_ok(at2, c, q, false, m2[h].Left) && kid_ok(at2, c, q, true, m2[h].Right)); }
            else {
                assert forall|x: bool| #[trigger] p.push(x) != r by { assert(p.push(x).drop_last() =~= p); }
                assert(p.push(true) != r && p.push(false) != r);
                if p.len() > 0 { assert(at2.dom().contains(p.drop_last())); }
            }
        }
    }
    assert forall|p: Seq<bool>| at2.dom().contains(p) implies #[trigger] hash_ok(m2, at2, c, p) by { if p != r { assert(hash_ok(m, at, c, p)); } }
    assert(Seq::<bool>::empty() != r) by { assert(r.len() > 0); }
    assert(cleared(m2, at2, b, d + 1)) by { assert forall|i: int| 0 <= i < d + 1 && #[trigger] cut(at2, b, i) implies m2[at2[pre_(b, i)]].Hash.len() == 0 by { assert(pre_(b, i).len() == i); assert(pre_(b, i) != r); assert(cut(at, b, i)); } }
    assert(q != r);
    assert(on_path(m2, at2, c, b, root, ch));
}
// ---- giving the leaf its new value
pub open spec fn set_mem(m: Mem, h: int, v: Seq<u8>) -> Mem { m.insert(h, verifiable_mapAuditNode { Hash: Seq::empty(), LeafHash: v, ..m[h] }) }
pub proof fn set_leaf(m: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int, v: Seq<u8>)
    requires on_path(m, at, c, b, root, h), m[h].Leaf, m[h].KeyPath == b, v.len() == 32
    ensures at_node(set_mem(m, h, v), at, upd(c, b, v), Seq::empty(), root), m[h].LeafHash == c(b)
{
    let m2 = set_mem(m, h, v); let c2 = upd(c, b, v); let d = m[h].Depth; let q = pre_(b, d);
    assert(node_ok(m, at, c, q)); assert(ext(q, b));
    assert forall|p: Seq<bool>| at.dom().contains(p) && p != q implies at[p] != h by { assert(apart(at, p, q)); }
    // below another place, or beside a path to b, nothing changed
    assert forall|p: Seq<bool>| !ext(p, b) implies #[trigger] agree(c, c2, p) by { }
    assert forall|p: Seq<bool>| at.dom().contains(p) && #[trigger] ext(p, b) implies p.len() <= d && p == pre_(b, p.len() as int) by {
        if p.len() > d { no_below(m, at, c, q, p); }
    }
    assert forall|p: Seq<bool>| at.dom().contains(p) implies #[trigger] node_ok(m2, at, c2, p) by {
        assert(node_ok(m, at, c, p));
        if p == q { assert(leaf_at(c2, q, b, v)) by { assert forall|x: Seq<bool>| #[trigger] ext(q, x) implies c2(x) == (if x == b { v } else { null_leaf() }) by { } } }
        else if m[at[p]].Leaf {
            assert(!ext(p, b)) by { if ext(p, b) { assert(p.len() < d) by { if p.len() == d { assert(p =~= q); } } leaf_above(m, at, c, p, q); } }
            assert(leaf_at(c2, p, m[at[p]].KeyPath, m[at[p]].LeafHash)) by { assert forall|x: Seq<bool>| #[trigger] ext(p, x) implies c2(x) == (if x == m[at[p]].KeyPath { m[at[p]].LeafHash } else { null_leaf() }) by { } }
        } else {
            assert forall|x: bool, k: int| #[trigger] kid_ok(at, c, p, x, k) implies kid_ok(at, c2, p, x, k) by {
                if k == 0 && ext(p.push(x), b) { 
                    // the place of the leaf lies below p.push(x)
                    ext_push(p, x, b);
                    assert(p == pre_(b, p.len() as int)); assert(p.len() < d) by { if p.len() == d { assert(p =~= q); } }
                    assert(p.push(x) =~= pre_(b, p.len() as int + 1));
                    up_closed(m, at, c, q, p.len() as int + 1); assert(q.subrange(0, p.len() as int + 1) =~= p.push(x));
                }
                if k == 0 { assert forall|y: Seq<bool>| #[trigger] ext(p.push(x), y) implies c2(y) == null_leaf() by { if y == b { assert(ext(p.push(x), b)); } } }
            }
            assert(kid_ok(at, c2, p, false, m[at[p]].Left) && kid_ok(at, c2, p, true, m[at[p]].Right));
        }
    }
    assert forall|p: Seq<bool>| at.dom().contains(p) implies #[trigger] hash_ok(m2, at, c2, p) by {
        assert(hash_ok(m, at, c, p)); assert(node_ok(m, at, c, p));
        if !ext(p, b) { assert(agree(c, c2, p)); smt_cong(c, c2, p); }
        else if p != q { assert(p.len() < d) by { if p.len() == d { assert(p =~= q); } } assert(cut(at, b, p.len() as int)); assert(m[at[p]].Hash.len() == 0); }
    }
}
// every prefix of a place is a place
pub proof fn up_closed(m: Mem, at: At, c: Cn, q: Seq<bool>, i: int)
    requires shape(m, at, c), at.dom().contains(q), 0 <= i <= q.len()
    ensures at.dom().contains(q.subrange(0, i))
    decreases q.len()
{
    if i == q.len() { assert(q.subrange(0, i) =~= q); }
    else { assert(node_ok(m, at, c, q)); up_closed(m, at, c, q.drop_last(), i); assert(q.drop_last().subrange(0, i) =~= q.subrange(0, i)); }
}
// no place lies below a leaf
pub proof fn leaf_above(m: Mem, at: At, c: Cn, p: Seq<bool>, q: Seq<bool>)
    requires shape(m, at, c), at.dom().contains(p), at.dom().contains(q), p.len() < q.len(), q.subrange(0, p.len() as int) =~= p, m[at[p]].Leaf
    ensures false
{
    let i = p.len() as int;
    up_closed(m, at, c, q, i + 1);
    assert(q.subrange(0, i + 1) =~= p.push(q[i]));
    assert(node_ok(m, at, c, p));
    if q[i] { assert(at.dom().contains(p.push(true))); } else { assert(at.dom().contains(p.push(false))); }
}
pub proof fn no_below(m: Mem, at: At, c: Cn, q: Seq<bool>, p: Seq<bool>)
    requires shape(m, at, c), at.dom().contains(q), at.dom().contains(p), m[at[q]].Leaf, q.len() < p.len(), exists|b: Seq<bool>| ext(q, b) && ext(p, b)
    ensures false
{ let b = choose|b: Seq<bool>| ext(q, b) && ext(p, b); assert(p.subrange(0, q.len() as int) =~= q) by { assert(p == b.subrange(0, p.len() as int)); } leaf_above(m, at, c, q, p); }
// the tree after the mutation: the leaf was there, or was hung in
pub proof fn done_there(m3: Mem, at: At, c: Cn, b: Seq<bool>, root: int, h: int)
    ensures forall|m: Mem, next: int| #[trigger] going(m, at, c, b, root, h, next) && m[h].Leaf && m[h].KeyPath == b && (m3[h].LeafHash.len() == 32 || m3[h].LeafHash == m[h].LeafHash) && m3 =~= set_mem(m, h, m3[h].LeafHash) ==> tree(m3, root, upd(c, b, m3[h].LeafHash)) && m[h].LeafHash == c(b)
{ assert forall|m: Mem, next: int| #[trigger] going(m, at, c, b, root, h, next) && m[h].Leaf && m[h].KeyPath == b && (m3[h].LeafHash.len() == 32 || m3[h].LeafHash == m[h].LeafHash) && m3 =~= set_mem(m, h, m3[h].LeafHash) implies tree(m3, root, upd(c, b, m3[h].LeafHash)) && m[h].LeafHash == c(b) by { assert(node_ok(m, at, c, pre_(b, m[h].Depth))); set_leaf(m, at, c, b, root, h, m3[h].LeafHash); } }
pub proof fn done_hung(m3: Mem, c: Cn, b: Seq<bool>, root: int, ch: int)
    ensures forall|m: Mem, h: int, next: int| #[trigger] splitting(m, c, b, root, h, next) && !shares(m, b, next) && ch > 0 && !m.dom().contains(ch) && m3[ch].LeafHash.len() == 32 && m3 =~= set_mem(attach_mem(m, h, ch, b), ch, m3[ch].LeafHash) ==> tree(m3, root, upd(c, b, m3[ch].LeafHash)) && null_leaf() == c(b)
{ assert forall|m: Mem, h: int, next: int| #[trigger] splitting(m, c, b, root, h, next) && !shares(m, b, next) && ch > 0 && !m.dom().contains(ch) && m3[ch].LeafHash.len() == 32 && m3 =~= set_mem(attach_mem(m, h, ch, b), ch, m3[ch].LeafHash) implies tree(m3, root, upd(c, b, m3[ch].LeafHash)) && null_leaf() == c(b) by {
    let at = choose|at: At| #[trigger] splitting_at(m, at, c, b, root, h, next);
    shared_leaf(m, at, c, b, root, h, next);
    assert(ch != h);
    attach(m, at, c, b, root, h, ch);
    let ma = attach_mem(m, h, ch, b);
    let at2 = choose|at2: At| #[trigger] on_path(ma, at2, c, b, root, ch);
    set_leaf(ma, at2, c, b, root, ch, m3[ch].LeafHash);
} }
// the mutation is one that applies to the map
pub open spec fn applicable(c: Cn, m: pb_MapMutation) -> bool { next_leaf(m, c(key_bits(m.Key))) is Some }
