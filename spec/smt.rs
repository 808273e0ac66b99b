// uses: merkle, logtree
// Sparse Merkle tree over 256-bit paths. A map's contents give the leaf hash of every path.
pub open spec fn pbits(h: Seq<u8>) -> Seq<bool> { Seq::new(256, |i: int| kbit(h, i)) }
pub open spec fn smt(c: spec_fn(Seq<bool>) -> Seq<u8>, p: Seq<bool>) -> Seq<u8> decreases 256 - p.len()
{ if p.len() >= 256 { c(p) } else { node_hash(smt(c, p.push(false)), smt(c, p.push(true))) } }
// sibling i of a lookup: an empty one stands for the default of its depth
pub open spec fn sib(p: Seq<Seq<u8>>, i: int) -> Seq<u8> { if p[i].len() == 0 { dflt(i + 1) } else { p[i] } }
// folding from depth i up to the root, along the bits b
pub open spec fn map_up(b: Seq<bool>, p: Seq<Seq<u8>>, i: int, t: Seq<u8>) -> Seq<u8> decreases i
{ if i <= 0 { t } else { map_up(b, p, i - 1, if b[i - 1] { node_hash(sib(p, i - 1), t) } else { node_hash(t, sib(p, i - 1)) }) } }
pub open spec fn leaf_contents(c: spec_fn(Seq<bool>) -> Seq<u8>) -> bool { forall|p: Seq<bool>| #[trigger] c(p).len() == 32 }
pub proof fn node_inj32(l: Seq<u8>, r: Seq<u8>, l2: Seq<u8>, r2: Seq<u8>)
    requires no_collision(), node_hash(l, r) == node_hash(l2, r2), l2.len() == 32, r2.len() == 32, l.len() == 32 || r.len() == 32
    ensures l == l2, r == r2
{
    let a = seq![1u8] + l + r; let b = seq![1u8] + l2 + r2;
    assert(sha(a) == sha(b));
    assert(a.len() == 1 + l.len() + r.len() && b.len() == 65);
    node_inj(l, r, l2, r2);
}
pub proof fn smt_len(c: spec_fn(Seq<bool>) -> Seq<u8>, p: Seq<bool>) requires leaf_contents(c) ensures smt(c, p).len() == 32 {}
// the value the fold reaches at depth j
pub open spec fn map_at(b: Seq<bool>, p: Seq<Seq<u8>>, i: int, t: Seq<u8>, j: int) -> Seq<u8> decreases i - j
{ if i <= j { t } else { map_at(b, p, i - 1, if b[i - 1] { node_hash(sib(p, i - 1), t) } else { node_hash(t, sib(p, i - 1)) }, j) } }
pub proof fn map_at_step(b: Seq<bool>, p: Seq<Seq<u8>>, i: int, t: Seq<u8>, j: int)
    requires 0 <= j < i
    ensures map_at(b, p, i, t, j) == (if b[j] { node_hash(sib(p, j), map_at(b, p, i, t, j + 1)) } else { node_hash(map_at(b, p, i, t, j + 1), sib(p, j)) }),
        map_at(b, p, i, t, 0) == map_up(b, p, i, t)
    decreases i
{
    map_at_up(b, p, i, t);
    reveal_with_fuel(map_at, 3);
    if i > j + 1 { map_at_step(b, p, i - 1, if b[i - 1] { node_hash(sib(p, i - 1), t) } else { node_hash(t, sib(p, i - 1)) }, j); }
}
pub proof fn map_at_up(b: Seq<bool>, p: Seq<Seq<u8>>, i: int, t: Seq<u8>) ensures map_at(b, p, i, t, 0) == map_up(b, p, i, t) decreases i
{ if i > 0 { map_at_up(b, p, i - 1, if b[i - 1] { node_hash(sib(p, i - 1), t) } else { node_hash(t, sib(p, i - 1)) }); } }
pub proof fn map_at_len(b: Seq<bool>, p: Seq<Seq<u8>>, i: int, t: Seq<u8>, j: int) requires t.len() == 32 ensures map_at(b, p, i, t, j).len() == 32 decreases i - j
{ if i > j { map_at_len(b, p, i - 1, if b[i - 1] { node_hash(sib(p, i - 1), t) } else { node_hash(t, sib(p, i - 1)) }, j); } }
// Soundness: a lookup that folds to the true root carries the leaf the contents hold at that path.
pub proof fn lookup_sound_at(c: spec_fn(Seq<bool>) -> Seq<u8>, b: Seq<bool>, p: Seq<Seq<u8>>, t: Seq<u8>, j: int)
    requires no_collision(), leaf_contents(c), b.len() == 256, t.len() == 32, 0 <= j <= 256, map_at(b, p, 256, t, 0) == smt(c, Seq::empty())
    ensures map_at(b, p, 256, t, j) == smt(c, b.subrange(0, j))
    decreases j
{
    if j == 0 { assert(b.subrange(0, 0) =~= Seq::<bool>::empty()); }
    else {
        lookup_sound_at(c, b, p, t, j - 1);
        map_at_step(b, p, 256, t, j - 1);
        map_at_len(b, p, 256, t, j);
        let q = b.subrange(0, j - 1);
        assert(b.subrange(0, j) =~= q.push(b[j - 1]));
        smt_len(c, q.push(false)); smt_len(c, q.push(true));
        let v = map_at(b, p, 256, t, j);
        if b[j - 1] { node_inj32(sib(p, j - 1), v, smt(c, q.push(false)), smt(c, q.push(true))); }
        else { node_inj32(v, sib(p, j - 1), smt(c, q.push(false)), smt(c, q.push(true))); }
    }
}
pub proof fn lookup_sound(c: spec_fn(Seq<bool>) -> Seq<u8>, h: Seq<u8>, p: Seq<Seq<u8>>, v: Seq<u8>, want: Seq<u8>)
    requires no_collision(), leaf_contents(c), map_up(pbits(h), p, 256, leaf_hash(v)) == smt(c, Seq::empty()), c(pbits(h)) == leaf_hash(want)
    ensures v == want
{
    map_at_up(pbits(h), p, 256, leaf_hash(v));
    lookup_sound_at(c, pbits(h), p, leaf_hash(v), 256);
    assert(pbits(h).subrange(0, 256) =~= pbits(h));
    assert(sha(seq![0u8] + v) == sha(seq![0u8] + want));
    assert(seq![0u8] + v == seq![0u8] + want);
    assert((seq![0u8] + v).len() == 1 + v.len() && (seq![0u8] + want).len() == 1 + want.len());
    assert forall|i: int| 0 <= i < v.len() implies v[i] == want[i] by { assert((seq![0u8] + v)[i + 1] == v[i]); assert((seq![0u8] + want)[i + 1] == want[i]); }
    assert((seq![0u8] + v).len() == 1 + v.len() && (seq![0u8] + want).len() == 1 + want.len());
    assert(v =~= want);
}
pub proof fn map_up_len(b: Seq<bool>, p: Seq<Seq<u8>>, i: int, t: Seq<u8>) requires t.len() == 32 ensures map_up(b, p, i, t).len() == 32 { map_at_up(b, p, i, t); map_at_len(b, p, i, t, 0); }
// Completeness: the siblings taken from the tree fold to the root.
pub proof fn lookup_complete(c: spec_fn(Seq<bool>) -> Seq<u8>, b: Seq<bool>, p: Seq<Seq<u8>>, j: int)
    requires b.len() == 256, 0 <= j <= 256, forall|i: int| 0 <= i < 256 ==> #[trigger] sib(p, i) == smt(c, b.subrange(0, i).push(!b[i]))
    ensures map_up(b, p, j, smt(c, b.subrange(0, j))) == smt(c, Seq::empty())
    decreases j
{
    if j == 0 { assert(b.subrange(0, 0) =~= Seq::<bool>::empty()); }
    else {
        let q = b.subrange(0, j - 1);
        assert(b.subrange(0, j) =~= q.push(b[j - 1]));
        assert(sib(p, j - 1) == smt(c, q.push(!b[j - 1])));
        lookup_complete(c, b, p, j - 1);
    }
}
// a subtree whose leaves are all empty has the default value of its depth
pub open spec fn ext(p: Seq<bool>, x: Seq<bool>) -> bool { x.len() == 256 && p.len() <= 256 && x.subrange(0, p.len() as int) == p }
pub proof fn smt_default(c: spec_fn(Seq<bool>) -> Seq<u8>, p: Seq<bool>)
    requires p.len() <= 256, forall|x: Seq<bool>| #[trigger] ext(p, x) ==> c(x) == leaf_hash(Seq::empty())
    ensures smt(c, p) == dflt(p.len() as int)
    decreases 256 - p.len()
{
    if p.len() == 256 { assert(p.subrange(0, 256) =~= p); assert(ext(p, p)); }
    else {
        assert forall|b: bool, x: Seq<bool>| #[trigger] ext(p.push(b), x) implies c(x) == leaf_hash(Seq::empty()) by {
            assert(x.subrange(0, p.len() as int) =~= x.subrange(0, p.len() as int + 1).drop_last()); assert(p.push(b).drop_last() =~= p); assert(ext(p, x)); }
        smt_default(c, p.push(false)); smt_default(c, p.push(true));
    }
}
