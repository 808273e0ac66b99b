// uses: merkle
//@type pb.LeafData
//@type pb.MapMutation
//@fn json_enc_Option_GAny_ (x: Option<GAny>) -> Seq<u8>
//@fn json_can_Option_GAny_ (x: Option<GAny>) -> bool
//@fn json_dec_Option_GAny_ (x: Seq<u8>) -> Option<GAny>
//@fn json_valid_Option_GAny_ (x: Seq<u8>) -> bool
//@fn json_enc_pb_MapMutation (x: pb_MapMutation) -> Seq<u8>
//@fn json_dec_Option_pb_MapMutation_ (x: Seq<u8>) -> Option<pb_MapMutation>
//@fn json_valid_Option_pb_MapMutation_ (x: Seq<u8>) -> bool
//@fn oh_std (x0: Option<GAny>) -> Seq<u8>
//@fn oh_std_ok (x0: Option<GAny>) -> bool
// Leaf data whose leaf input is the standard-redaction object hash of its extra data
pub open spec fn jhash(b: Seq<u8>) -> Seq<u8> { oh_std(json_dec_Option_GAny_(b)) }
pub open spec fn jhash_ok(b: Seq<u8>) -> bool { json_valid_Option_GAny_(b) && oh_std_ok(json_dec_Option_GAny_(b)) }
pub open spec fn json_leaf(b: Seq<u8>) -> pb_LeafData { pb_LeafData { LeafInput: jhash(b), ExtraData: b, Format: 1 } }
// a mutation without its value's extra data and format
pub open spec fn bare(m: pb_MapMutation) -> pb_MapMutation
{ if m.Value is Some { pb_MapMutation { Value: Some(pb_LeafData { LeafInput: m.Value->0.LeafInput, ExtraData: Seq::empty(), Format: 0 }), ..m } } else { m } }
pub open spec fn mutation_leaf(m: pb_MapMutation) -> pb_LeafData { pb_LeafData { LeafInput: jhash(json_enc_pb_MapMutation(bare(m))), ExtraData: json_enc_pb_MapMutation(m), Format: 1 } }
pub open spec fn leaf_valid(ld: Option<pb_LeafData>) -> bool { let x = if ld is Some { ld->0.ExtraData } else { Seq::empty() }; let i = if ld is Some { ld->0.LeafInput } else { Seq::empty() }; jhash_ok(x) && i == jhash(x) }
pub open spec fn mutation_leaf_valid(ld: Option<pb_LeafData>) -> bool {
    let x = if ld is Some { ld->0.ExtraData } else { Seq::empty() }; let i = if ld is Some { ld->0.LeafInput } else { Seq::empty() };
    let m = json_dec_Option_pb_MapMutation_(x);
    json_valid_Option_pb_MapMutation_(x) && m is Some && jhash_ok(json_enc_pb_MapMutation(bare(m->0))) && i == jhash(json_enc_pb_MapMutation(bare(m->0)))
}
// assumed of encoding/json: a mutation survives being written and read
pub open spec fn json_exact() -> bool { forall|m: pb_MapMutation| #[trigger] json_valid_Option_pb_MapMutation_(json_enc_pb_MapMutation(m)) && json_dec_Option_pb_MapMutation_(json_enc_pb_MapMutation(m)) == Some(m) }
// what is created validates
pub proof fn created_valid(b: Seq<u8>) ensures jhash_ok(b) ==> leaf_valid(Some(json_leaf(b))) { }
pub proof fn created_mutation_valid(m: pb_MapMutation) ensures json_exact() && jhash_ok(json_enc_pb_MapMutation(bare(m))) ==> mutation_leaf_valid(Some(mutation_leaf(m))) { }
