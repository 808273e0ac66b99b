// uses: merkle, logtree, stack, keys, bpath, smt, logstore, maptree, names, handlers, filter
// Looking a key up in a stored map.
// the two logs of a map and every size of the map are there
pub open spec fn maps_ok(db: Db, n: int) -> bool { log_ok(db, 1, n) && log_ok(db, 2, n) && forall|s: int| 0 <= s <= n ==> #[trigger] map_ok(db, s, contents(db, s)) }
// the siblings handed out for the nodes passed on the way down
pub open spec fn passed(anc: Seq<Option<pb_MapNode>>, b: Seq<bool>, proof: Seq<Seq<u8>>, n: int) -> bool { forall|q: int| 0 <= q < n ==> #[trigger] proof[q] == hsh(anc[q]->0, !b[q]) }
pub open spec fn empties(proof: Seq<Seq<u8>>, from: int) -> bool { forall|q: int| from <= q < proof.len() ==> (#[trigger] proof[q]).len() == 0 }
// the rest of the proof, from the node where the way ends
pub open spec fn ends(head: pb_MapNode, b: Seq<bool>, d: int, proof: Seq<Seq<u8>>, lh: Seq<u8>) -> bool {
    if !mn_leaf(head) { proof[d] == hsh(head, !b[d]) && empties(proof, d + 1) && lh == null_leaf() }
    else if bp_bits(head.Path) == b { empties(proof, d) && lh == head.LeafHash }
    else { lh == null_leaf() && exists|q: int| #[trigger] parts(head, b, d, q) && proof[q] == lup(head.Path, head.LeafHash, q + 1) && empties(proof, q + 1) && forall|i: int| d <= i < q ==> (#[trigger] proof[i]).len() == 0 }
}
// two paths part at bit q and not before, from d on
pub open spec fn parts(head: pb_MapNode, b: Seq<bool>, d: int, q: int) -> bool { d <= q < 256 && bp_at(head.Path, q) != b[q] && forall|i: int| d <= i < q ==> #[trigger] bp_at(head.Path, i) == b[i] }
// below a leaf, every path but its own is empty
pub proof fn leaf_side(db: Db, mn: pb_MapNode, p: Seq<bool>, c: Cn, q: Seq<bool>, j: int)
    requires leaf_ok(db, mn, p, c), p.len() <= q.len() <= 256, q.subrange(0, p.len() as int) == p, 0 <= j < q.len(), q[j] != bp_bits(mn.Path)[j]
    ensures smt(c, q) == dflt(q.len() as int)
{
    assert forall|x: Seq<bool>| #[trigger] ext(q, x) implies c(x) == leaf_hash(Seq::empty()) by {
        assert(x.subrange(0, p.len() as int) =~= x.subrange(0, q.len() as int).subrange(0, p.len() as int)); assert(ext(p, x));
        assert(x[j] == x.subrange(0, q.len() as int)[j]); }
    smt_default(c, q);
}
pub proof fn null_side(p: Seq<bool>, c: Cn, q: Seq<bool>)
    requires all_null(p, c), p.len() <= q.len() <= 256, q.subrange(0, p.len() as int) == p
    ensures smt(c, q) == dflt(q.len() as int)
{
    assert forall|x: Seq<bool>| #[trigger] ext(q, x) implies c(x) == leaf_hash(Seq::empty()) by { assert(x.subrange(0, p.len() as int) =~= x.subrange(0, q.len() as int).subrange(0, p.len() as int)); assert(ext(p, x)); }
    smt_default(c, q);
}
pub open spec fn other(b: Seq<bool>, i: int) -> Seq<bool> { b.subrange(0, i).push(!b[i]) }
pub proof fn side_sib(db: Db, n: int, mn: pb_MapNode, p: Seq<bool>, c: Cn, b: bool, s: Seq<Seq<u8>>, i: int)
    requires side_ok(db, n, mn, p, c, b), p.len() == i, 0 <= i < s.len(), s[i] == hsh(mn, b)
    ensures sib(s, i) == smt(c, p.push(b))
{ if num(mn, b) == 0 { smt_default(c, p.push(b)); } else { let q = p.push(b); assert(q.len() <= 255); assert(smt(c, q).len() == 32); } }
pub proof fn look_side(db: Db, n: int, b: Seq<bool>, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, c: Cn, proof: Seq<Seq<u8>>, lh: Seq<u8>, i: int)
    requires map_ok(db, n, c), b.len() == 256, chain(db, b, root_rec(db, n), anc, head), num(head->0, b[anc.len() as int]) == 0,
        proof.len() == 256, passed(anc, b, proof, anc.len() as int), ends(head->0, b, anc.len() as int, proof, lh), 0 <= i < 256
    ensures sib(proof, i) == smt(c, other(b, i))
{
    let d = anc.len() as int; let m = head->0; let root = root_rec(db, n);
    if i < d { chain_ok(db, n, b, root, anc, head, c, i); side_sib(db, n, anc[i]->0, pre_(b, i), c, !b[i], proof, i); }
    else {
        chain_ok(db, n, b, root, anc, head, c, d);
        let p = pre_(b, d); let q = other(b, i);
        assert(q.subrange(0, d) =~= p);
        if !mn_leaf(m) {
            assert(side_ok(db, n, m, p, c, false) && side_ok(db, n, m, p, c, true));
            if i == d { side_sib(db, n, m, p, c, !b[d], proof, d); }
            else { assert(q.subrange(0, d + 1) =~= p.push(b[d])); null_side(p.push(b[d]), c, q); }
        } else {
            let kk = choose|kk: Seq<u8>| m.Path == #[trigger] key_path(kk); key_path_len(kk);
            assert(leaf_ok(db, m, p, c));
            if bp_bits(m.Path) == b { assert(q[i] == !b[i]); leaf_side(db, m, p, c, q, i); }
            else {
                let w = choose|w: int| #[trigger] parts(m, b, d, w) && proof[w] == lup(m.Path, m.LeafHash, w + 1) && empties(proof, w + 1) && forall|z: int| d <= z < w ==> (#[trigger] proof[z]).len() == 0;
                let mb = bp_bits(m.Path);
                assert(mb[w] == bp_at(m.Path, w));
                if i < w { assert(bp_at(m.Path, i) == b[i]); assert(mb[i] == b[i]); leaf_side(db, m, p, c, q, i); }
                else if i > w { assert(q[w] == b[w]); leaf_side(db, m, p, c, q, w); }
                else {
                    lup_is(m.Path, m.LeafHash, p, c, w + 1);
                    assert forall|z: int| 0 <= z < w implies mb[z] == b[z] by { if z < d { assert(mb.subrange(0, d)[z] == p[z]); } else { assert(bp_at(m.Path, z) == b[z]); } }
                    assert(mb.subrange(0, w + 1) =~= q);
                    if w + 1 == 256 { assert(lup(m.Path, m.LeafHash, 256) == m.LeafHash); } else { assert(lup(m.Path, m.LeafHash, w + 1).len() == 32); }
                }
            }
        }
    }
}
// the leaf a lookup answers for is the one the contents hold, and the proof folds to the root
pub proof fn look_done(db: Db, n: int, key: Seq<u8>, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, c: Cn, proof: Seq<Seq<u8>>, lh: Seq<u8>)
    ensures ({ let b = key_bits(key);
        map_ok(db, n, c) && chain(db, b, root_rec(db, n), anc, head) && num(head->0, b[anc.len() as int]) == 0 && proof.len() == 256 && passed(anc, b, proof, anc.len() as int) && ends(head->0, b, anc.len() as int, proof, lh)
        ==> lh == c(b) && map_up(pbits(sha(key)), proof, 256, lh) == smt(c, Seq::empty()) })
{
    let b = key_bits(key); key_path_len(key); let d = anc.len() as int;
    if map_ok(db, n, c) && chain(db, b, root_rec(db, n), anc, head) && num(head->0, b[d]) == 0 && proof.len() == 256 && passed(anc, b, proof, d) && ends(head->0, b, d, proof, lh) {
        let m = head->0;
        assert forall|i: int| 0 <= i < 256 implies #[trigger] sib(proof, i) == smt(c, b.subrange(0, i).push(!b[i])) by { look_side(db, n, b, anc, head, c, proof, lh, i); }
        lookup_complete(c, b, proof, 256);
        assert(b.subrange(0, 256) =~= b);
        assert(smt(c, b) == c(b));
        chain_ok(db, n, b, root_rec(db, n), anc, head, c, d);
        assert(ext(pre_(b, d), b));
        if !mn_leaf(m) { assert(side_ok(db, n, m, pre_(b, d), c, false) && side_ok(db, n, m, pre_(b, d), c, true)); ext_push(pre_(b, d), b[d], b); }
        else { assert(leaf_ok(db, m, pre_(b, d), c)); }
        assert(b =~= pbits(sha(key)));
    }
}
// what is known of the node where the way ends
pub proof fn look_head(db: Db, n: int, key: Seq<u8>, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, c: Cn)
    ensures ({ let b = key_bits(key); let m = head->0;
        map_ok(db, n, c) && chain(db, b, root_rec(db, n), anc, head) ==> anc.len() <= 255 && head is Some && (forall|i: int| 0 <= i < anc.len() ==> (#[trigger] anc[i]) is Some)
            && (mn_leaf(m) ==> m.Path.len() == 33 && bp_len(m.Path) == 256 && m.LeafHash.len() == 32 && (m.LeafHash == null_leaf() || data_at(db, 1, m.LeafHash)) && is_path(m.Path)
                && (m.Path != key_path(key) ==> exists|q: int| anc.len() <= q < 256 && #[trigger] bp_at(m.Path, q) != b[q]) && (m.Path == key_path(key)) == (bp_bits(m.Path) == b)) })
{
    let b = key_bits(key); let m = head->0; key_path_len(key); let d = anc.len() as int;
    if map_ok(db, n, c) && chain(db, b, root_rec(db, n), anc, head) {
        chain_ok(db, n, b, root_rec(db, n), anc, head, c, d);
        if mn_leaf(m) {
            assert(leaf_ok(db, m, pre_(b, d), c)); let kk = choose|kk: Seq<u8>| m.Path == #[trigger] key_path(kk); key_path_len(kk);
            let mb = bp_bits(m.Path);
            if mb == b { bp_unique(m.Path, key_path(key)); }
            else {
                if forall|q: int| d <= q < 256 ==> mb[q] == b[q] { assert(mb =~= b) by { assert forall|z: int| 0 <= z < 256 implies mb[z] == b[z] by { if z < d { assert(mb.subrange(0, d)[z] == b.subrange(0, d)[z]); } } } }
                let q = choose|q: int| d <= q < 256 && mb[q] != b[q]; assert(bp_at(m.Path, q) != b[q]);
            }
        }
    }
}
// every size of the map up to the current one is there
pub proof fn map_at_size(db: Db, n: int, m: int)
    ensures maps_ok(db, n) && 0 <= m <= n ==> map_ok(db, m, contents(db, m)) && nval(root_rec(db, m), 0) == smt(contents(db, m), Seq::empty())
        && (m > 0 ==> stored(db, K::MapNode(m, Seq::empty())) && rec(db, K::MapNode(m, Seq::empty())) is MapNode) && (mn_leaf(root_rec(db, m)) ==> root_rec(db, m).Path.len() == 33)
{
    if maps_ok(db, n) && 0 <= m <= n {
        let r = root_rec(db, m); let c = contents(db, m);
        assert(map_ok(db, m, c)); nval_is(db, m, r, Seq::empty(), c);
        if mn_leaf(r) { assert(leaf_ok(db, r, Seq::empty(), c)); let kk = choose|kk: Seq<u8>| r.Path == #[trigger] key_path(kk); key_path_len(kk); }
    }
}
// the value shown for a key whose leaf hash is lh
pub open spec fn in_force(db: Db, lh: Seq<u8>, v: Option<pb_LeafData>, f: Seq<u8>) -> bool
{ if lh == null_leaf() { shown(Some(pb_LeafData { LeafInput: Seq::empty(), ExtraData: Seq::empty(), Format: 0 }), v, f) } else { data_at(db, 1, lh) && shown(Some(data_of(db, 1, lh)), v, f) } }
// an operation on a map goes to the policy first
pub open spec fn map_gate(ev: Seq<Ev>, m: Option<pb_MapRef>, perm: int, err: GoErr) -> bool {
    if !map_known(m) { ev.len() == 0 && err == GoErr::Status(7) }
    else { asked(ev, m->0.Account->0.Id, m->0.Account->0.ApiKey, m->0.Name, perm) && (!granted(ev) ==> err == GoErr::Status(7)) && only_reads(ev, map_ns(m->0.Account->0.Id, m->0.Name)) }
}
pub proof fn look_all(db: Db, n: int, key: Seq<u8>, anc: Seq<Option<pb_MapNode>>, head: Option<pb_MapNode>, c: Cn, proof: Seq<Seq<u8>>)
    ensures ({ let b = key_bits(key);
        map_ok(db, n, c) && chain(db, b, root_rec(db, n), anc, head) && num(head->0, b[anc.len() as int]) == 0 && proof.len() == 256 && passed(anc, b, proof, anc.len() as int)
        && (ends(head->0, b, anc.len() as int, proof, null_leaf()) || ends(head->0, b, anc.len() as int, proof, head->0.LeafHash))
        ==> map_up(pbits(sha(key)), proof, 256, c(b)) == smt(c, Seq::empty()) && c(b) == (if mn_leaf(head->0) && head->0.Path == key_path(key) { head->0.LeafHash } else { null_leaf() }) })
{
    let b = key_bits(key);
    look_done(db, n, key, anc, head, c, proof, null_leaf()); look_done(db, n, key, anc, head, c, proof, head->0.LeafHash);
    look_head(db, n, key, anc, head, c);
}
pub proof fn part_found(m: pb_MapNode, b: Seq<bool>, d: int, q: int)
    ensures d <= q < 256 && bp_at(m.Path, q) != b[q] && (forall|i: int| d <= i < q ==> #[trigger] bp_at(m.Path, i) == b[i]) ==> parts(m, b, d, q)
{ }
