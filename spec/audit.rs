// uses: merkle, logtree, stack, smt, rpc
//@type pb.LeafData
pub proof fn pop_step(n: int) ensures n > 0 ==> popcount(n) == n % 2 + popcount(n / 2), n >= 0 ==> popcount(n) >= 0, n > 0 ==> popcount(n) >= 1 decreases n
{ if n > 0 { pop_step(n / 2); if n / 2 > 0 { pop_step(n / 2); } } }
// one round of completing subtrees keeps the depth of the stack
pub proof fn pop_round(z: int) ensures z > 0 && z % 2 == 1 ==> popcount(z / 2) == popcount(z) - 1 && popcount(z + 1) == popcount(z / 2 + 1) && popcount(z) >= 1,
    z >= 0 && z % 2 == 0 ==> popcount(z + 1) == popcount(z) + 1
{ if z >= 0 { pop_step(z); pop_step(z + 1); pop_step(z / 2); if z % 2 == 1 { assert((z + 1) / 2 == z / 2 + 1); } else { assert((z + 1) / 2 == z / 2); if z > 0 { } } } }
pub proof fn top2_half(m: int) requires m >= 1 ensures top2(2 * m) == 2 * top2(m), top2(2 * m + 1) == 2 * top2(m)
{ top2_props(m); is_p2_dbl(top2(m)); top2_uniq(2 * top2(m), 2 * m); top2_uniq(2 * top2(m), 2 * m + 1); }
pub proof fn pop_top(n: int) requires n >= 1 ensures popcount(n) == 1 + popcount(n - top2(n)) decreases n
{
    top2_props(n); pop_step(n);
    if n == 1 { assert(top2(1) == 1); assert(popcount(0) == 0); }
    else {
        let m = n / 2; pop_top(m); top2_half(m); top2_props(m);
        let r = n - top2(n);
        assert(r == n % 2 + 2 * (m - top2(m)));
        assert(r / 2 == m - top2(m) && r % 2 == n % 2);
        pop_step(r);
        if r <= 0 { assert(m - top2(m) == 0); assert(popcount(0) == 0); }
    }
}
// one subtree for every bit
pub proof fn decomp_len(s: int, e: int) requires s <= e ensures decomp(s, e).len() == popcount(e - s) decreases e - s
{ if s < e { top2_props(e - s); pop_top(e - s); decomp_len(s + top2(e - s), e); } }
// two stacks that fold to the same hash are the same
pub proof fn foldr_inj(h: Seq<Seq<u8>>, g: Seq<Seq<u8>>, i: int, x: Seq<u8>, y: Seq<u8>)
    requires no_collision(), hashes(h), hashes(g), 0 <= i <= h.len(), h.len() == g.len(), x.len() == 32, y.len() == 32, foldr(h, i, x) == foldr(g, i, y)
    ensures x == y, forall|q: int| 0 <= q < i ==> h[q] == g[q]
    decreases i
{
    if i > 0 {
        foldr_inj(h, g, i - 1, node_hash(h[i - 1], x), node_hash(g[i - 1], y));
        node_inj32(h[i - 1], x, g[i - 1], y);
    }
}
pub proof fn fold_inj(h: Seq<Seq<u8>>, g: Seq<Seq<u8>>)
    ensures no_collision() && hashes(h) && hashes(g) && h.len() == g.len() && h.len() >= 1 && foldstack(h) == foldstack(g) ==> h == g
{
    if no_collision() && hashes(h) && hashes(g) && h.len() == g.len() && h.len() >= 1 && foldstack(h) == foldstack(g) {
        foldr_inj(h, g, h.len() - 1, h.last(), g.last()); assert(h =~= g);
    }
}
// The leaf hashes before the audited ones: any sequence at all
pub uninterp spec fn earlier() -> Seq<Seq<u8>>;
pub open spec fn leaf_of(x: Option<pb_LeafData>) -> Seq<u8> { leaf_hash(if x is Some { x->0.LeafInput } else { Seq::<u8>::empty() }) }
pub open spec fn leaves_of(e: Seq<Option<pb_LeafData>>) -> Seq<Seq<u8>> { Seq::new(e.len(), |i: int| leaf_of(e[i])) }
// a starting point is good when the earlier leaf hashes make up the earlier head
pub open spec fn start_ok(n: int, root: Seq<u8>) -> bool { no_collision() && hashes(earlier()) && earlier().len() == n && (n > 0 ==> mth(earlier()) == root) }
pub open spec fn so_far(e: Seq<Option<pb_LeafData>>) -> Seq<Seq<u8>> { earlier() + leaves_of(e) }
pub proof fn so_far_push(e: Seq<Option<pb_LeafData>>, x: Option<pb_LeafData>) ensures so_far(e.push(x)) =~= so_far(e).push(leaf_of(x)), so_far(e).len() == earlier().len() + e.len(), so_far(Seq::empty()) =~= earlier()
{ assert(leaves_of(e.push(x)) =~= leaves_of(e).push(leaf_of(x))); }
pub proof fn mths_hashes(d: Seq<Seq<u8>>, r: Seq<(int, int)>, s: int, e: int) requires hashes(d), all_complete(r, s, e), 0 <= s, e <= d.len() ensures hashes(mths(d, r))
{ assert forall|i: int| 0 <= i < r.len() implies (#[trigger] mths(d, r)[i]).len() == 32 by { let x = r[i]; assert(complete(x.0, x.1)); hashes_sub(d, x.0, x.1); mth_len(d.subrange(x.0, x.1)); } }
// an honest server's answer: the subtrees of the earlier tree, smallest first
pub open spec fn given_path(r: Seq<Rpc>) -> Seq<Seq<u8>> { if r.len() > 0 && r.last() is Inclusion && r.last()->Inclusion_1 is Some { r.last()->Inclusion_1->0.AuditPath } else { Seq::empty() } }
pub open spec fn answered(r: Seq<Rpc>) -> bool { r.len() > 0 && r.last() is Inclusion && r.last()->Inclusion_2 == GoErr::Nil && r.last()->Inclusion_1 is Some }
pub open spec fn honest_start(n: int, root: Seq<u8>, r: Seq<Rpc>) -> bool { hashes(earlier()) && earlier().len() == n && (n > 0 ==> mth(earlier()) == root && answered(r) && given_path(r) == rev(mths(earlier(), decomp(0, n)))) }
pub open spec fn good_start(n: int, root: Seq<u8>, r: Seq<Rpc>) -> bool { start_ok(n, root) || honest_start(n, root, r) }
pub proof fn honest_stack(n: int, root: Seq<u8>, r: Seq<Rpc>)
    ensures n >= 1 && honest_start(n, root, r) ==> hashes(given_path(r)) && given_path(r).len() == popcount(n) && rev(given_path(r)) == mths(earlier(), decomp(0, n)) && foldstack(rev(given_path(r))) == root && root.len() == 32,
        honest_start(n, root, r) ==> mths(earlier(), decomp(0, n)).len() == popcount(n)
{
    if honest_start(n, root, r) {
        decomp_len(0, n); 
        if n >= 1 {
            decomp_complete_0(n); mths_hashes(earlier(), decomp(0, n), 0, n); fold_decomp(earlier(), 0, n);
            assert(earlier().subrange(0, n) =~= earlier()); mth_len(earlier());
            assert(rev(given_path(r)) =~= mths(earlier(), decomp(0, n)));
            assert forall|i: int| 0 <= i < given_path(r).len() implies (#[trigger] given_path(r)[i]).len() == 32 by { assert(given_path(r)[i] == mths(earlier(), decomp(0, n))[given_path(r).len() - 1 - i]); }
        }
    }
}
// the audit path of the next leaf is the stack of the earlier tree
pub proof fn start_stack(p: Seq<Seq<u8>>, n: int, root: Seq<u8>)
    ensures n >= 1 && start_ok(n, root) && hashes(p) && p.len() == popcount(n) && foldstack(rev(p)) == root ==> rev(p) == mths(earlier(), decomp(0, n))
{
    if n >= 1 && start_ok(n, root) && hashes(p) && p.len() == popcount(n) && foldstack(rev(p)) == root {
        pop_step(n); decomp_len(0, n); decomp_complete_0(n); mths_hashes(earlier(), decomp(0, n), 0, n); fold_decomp(earlier(), 0, n);
        assert(earlier().subrange(0, n) =~= earlier());
        fold_inj(rev(p), mths(earlier(), decomp(0, n)));
    }
}
pub proof fn decomp_complete_0(n: int) requires n >= 0 ensures all_complete(decomp(0, n), 0, n)
{ if n > 0 { cover_props(n); assert(0int % cover(n) == 0) by { vstd::arithmetic::div_mod::lemma_small_mod(0nat, cover(n) as nat); } } decomp_complete(0, n); }
// completing subtrees at the top of the stack while z is odd
pub open spec fn climb(st: Seq<Seq<u8>>, z: int) -> Seq<Seq<u8>> decreases z
{ if z <= 0 || z % 2 == 0 || st.len() < 2 { st } else { climb(st.subrange(0, st.len() - 2).push(node_hash(st[st.len() - 2], st.last())), z / 2) } }
pub proof fn climb_part(e: Seq<Seq<u8>>, w: int, zz: int, n: int)
    requires part_at(e, w, zz, n), hashes(e)
    ensures climb(part_stack(e, w / 2), zz) == mths(e, decomp(0, n + 1))
    decreases zz
{
    part_round(e, w, zz, n);
    if zz % 2 == 1 { assert(zz > 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, w / 2); } assert(2 * w / 2 == w); climb_part(e, 2 * w, zz / 2, n); }
    else {
        let h = w / 2; let m = n + 1;
        assert(m % (2 * h) == h) by {
            let q = m / h;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, h);
            assert(m == h * q);
            assert(n / h == q - 1) by { assert(n == h * (q - 1) + (h - 1)) by (nonlinear_arith) requires m == h * q, m == n + 1; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, h, q - 1, h - 1); }
            let z = q / 2; assert(q == 2 * z + 1);
            assert(m == (2 * h) * z + h) by (nonlinear_arith) requires m == h * q, q == 2 * z + 1;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m, 2 * h, z, h);
        }
        decomp_last(0, m, h);
        mths_push(e, decomp(0, m - h), (m - h, m));
    }
}
// the stack after one more entry
pub proof fn climb_done(d: Seq<Seq<u8>>, x: Seq<u8>)
    ensures hashes(d) && x.len() == 32 ==> climb(mths(d, decomp(0, d.len() as int)).push(x), d.len() as int) == mths(d.push(x), decomp(0, d.len() as int + 1))
{
    if hashes(d) && x.len() == 32 {
        let n = d.len() as int; let e = d.push(x);
        part_start(d, x);
        assert(part_at(e, 2, n, n)) by { assert(is_p2(1)); assert((n + 1) % 1 == 0); assert(n / 1 == n); }
        climb_part(e, 2, n, n);
    }
}
pub proof fn so_far_hashes(e: Seq<Option<pb_LeafData>>) ensures hashes(earlier()) ==> hashes(so_far(e))
{ if hashes(earlier()) { assert forall|i: int| 0 <= i < so_far(e).len() implies (#[trigger] so_far(e)[i]).len() == 32 by { if i >= earlier().len() { assert(so_far(e)[i] == leaves_of(e)[i - earlier().len()]); } } } }
// the final fold
pub proof fn audit_end(d: Seq<Seq<u8>>)
    ensures d.len() >= 1 ==> foldstack(mths(d, decomp(0, d.len() as int))) == mth(d)
{ if d.len() >= 1 { fold_decomp(d, 0, d.len() as int); assert(d.subrange(0, d.len() as int) =~= d); } }
pub proof fn mth_inj(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires no_collision(), hashes(a), hashes(b), a.len() == b.len(), a.len() >= 1, mth(a) == mth(b)
    ensures a == b
    decreases a.len()
{
    let n = a.len() as int;
    if n == 1 { assert(a =~= b); }
    else {
        let k = split(n); split_props(n);
        let (al, ar, bl, br) = (a.subrange(0, k), a.subrange(k, n), b.subrange(0, k), b.subrange(k, n));
        hashes_sub(a, 0, k); hashes_sub(a, k, n); hashes_sub(b, 0, k); hashes_sub(b, k, n);
        mth_len(al); mth_len(ar); mth_len(bl); mth_len(br);
        node_inj32(mth(al), mth(ar), mth(bl), mth(br));
        mth_inj(al, bl); mth_inj(ar, br);
        assert(a =~= al + ar); assert(b =~= bl + br);
    }
}
// Theorem: an audited stream is the one the head commits to, entry by entry, and no other has the same head
pub proof fn audit_exact(e: Seq<Option<pb_LeafData>>, true_leaves: Seq<Seq<u8>>, n: int, root0: Seq<u8>, root: Seq<u8>)
    requires start_ok(n, root0), root == mth(so_far(e)), hashes(true_leaves), true_leaves.len() == n + e.len(), root == mth(true_leaves), true_leaves.len() >= 1
    ensures so_far(e) == true_leaves, forall|i: int| 0 <= i < e.len() ==> leaf_of(#[trigger] e[i]) == true_leaves[n + i]
{
    so_far_hashes(e);
    mth_inj(so_far(e), true_leaves);
    assert forall|i: int| 0 <= i < e.len() implies leaf_of(#[trigger] e[i]) == true_leaves[n + i] by { assert(so_far(e)[n + i] == leaves_of(e)[i]); }
}
// the entries handed to a function
pub open spec fn ents(c: Seq<(int, Option<pb_LeafData>, GoErr)>) -> Seq<Option<pb_LeafData>> { Seq::new(c.len(), |i: int| c[i].1) }
pub proof fn ents_are(c: Seq<(int, Option<pb_LeafData>, GoErr)>, r: Seq<Option<pb_LeafData>>) ensures c.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] c[i]).1 == r[i]) ==> ents(c) == r
{ if c.len() == r.len() && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] c[i]).1 == r[i]) { assert(ents(c) =~= r); } }
pub proof fn ents_push(c: Seq<(int, Option<pb_LeafData>, GoErr)>) ensures c.len() > 0 ==> ents(c) =~= ents(c.drop_last()).push(c.last().1), ents(Seq::empty()) =~= Seq::empty() { }
