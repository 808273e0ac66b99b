// uses: merkle
// leaf and node inputs never coincide, and node inputs of 32-byte children determine the children
pub proof fn hash_domain_separated(b: Seq<u8>, l: Seq<u8>, r: Seq<u8>)
    ensures seq![0u8] + b != seq![1u8] + l + r
{ assert((seq![0u8] + b)[0] == 0u8); assert((seq![1u8] + l + r)[0] == 1u8); }
pub proof fn node_input_injective(l: Seq<u8>, r: Seq<u8>, l2: Seq<u8>, r2: Seq<u8>)
    requires l.len() == l2.len(), seq![1u8] + l + r == seq![1u8] + l2 + r2
    ensures l == l2, r == r2
{
    let a = seq![1u8] + l + r; let b = seq![1u8] + l2 + r2;
    assert(l =~= a.subrange(1, 1 + l.len() as int)); assert(l2 =~= b.subrange(1, 1 + l.len() as int));
    assert(r =~= a.subrange(1 + l.len() as int, a.len() as int)); assert(r2 =~= b.subrange(1 + l.len() as int, b.len() as int));
}
pub proof fn leaf_input_injective(b: Seq<u8>, b2: Seq<u8>)
    requires seq![0u8] + b == seq![0u8] + b2
    ensures b == b2
{ let x = seq![0u8] + b; let y = seq![0u8] + b2; assert(b =~= x.subrange(1, x.len() as int)); assert(b2 =~= y.subrange(1, y.len() as int)); }
