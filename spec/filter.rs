// uses: merkle
//@type pb.LeafData
//@type pb.MapMutation
//@fn json_enc_Option_GAny_ (x: Option<GAny>) -> Seq<u8>
//@fn json_dec_Option_GAny_ (x: Seq<u8>) -> Option<GAny>
//@fn json_valid_Option_GAny_ (x: Seq<u8>) -> bool
//@fn json_enc_pb_MapMutation (x: pb_MapMutation) -> Seq<u8>
//@fn json_dec_pb_MapMutation (x: Seq<u8>) -> pb_MapMutation
//@fn json_valid_pb_MapMutation (x: Seq<u8>) -> bool
//@fn oh_filtered (x0: Option<GAny>, x1: Seq<u8>) -> Option<GAny>
// leaf data with the fields outside the filter redacted
pub open spec fn is_redacted(ld: pb_LeafData, out: pb_LeafData, f: Seq<u8>) -> bool
{ ld.Format == 1 && out.LeafInput == ld.LeafInput && out.ExtraData == json_enc_Option_GAny_(oh_filtered(json_dec_Option_GAny_(ld.ExtraData), f)) }
pub open spec fn all_fields(f: Seq<u8>) -> bool { f == lit!("*") }
// what a caller who sees only the fields in f gets for stored leaf data
pub open spec fn shown(ld: Option<pb_LeafData>, out: Option<pb_LeafData>, f: Seq<u8>) -> bool
{ if all_fields(f) || ld is None { out == ld } else { out is Some && is_redacted(ld->0, out->0, f) } }
// the same for an entry of a mutation log, whose extra data is the mutation
pub open spec fn shown_mutation(ld: pb_LeafData, out: Option<pb_LeafData>, f: Seq<u8>) -> bool
{
    out is Some && out->0.LeafInput == ld.LeafInput && out->0.Format == ld.Format
    && exists|m: pb_MapMutation| out->0.ExtraData == #[trigger] json_enc_pb_MapMutation(m)
        && ({ let s = json_dec_pb_MapMutation(ld.ExtraData); shown(s.Value, m.Value, f) && m == (pb_MapMutation { Value: m.Value, ..s }) })
}
pub open spec fn shown_entry(lt: int, ld: pb_LeafData, out: Option<pb_LeafData>, f: Seq<u8>) -> bool
{ if lt == 0 { shown(Some(ld), out, f) } else if lt == 1 { shown_mutation(ld, out, f) } else { out == Some(ld) } }
// what is returned to a caller who sees only the fields in f: nothing, or some leaf data as shown to that caller
pub open spec fn redacted_data(out: Option<pb_LeafData>, f: Seq<u8>) -> bool { exists|ld: Option<pb_LeafData>| #[trigger] shown(ld, out, f) }
pub open spec fn redacted_of(lt: int, out: Option<pb_LeafData>, f: Seq<u8>) -> bool {
    if lt == 0 { redacted_data(out, f) }
    else if lt == 1 { out is Some && exists|m: pb_MapMutation| out->0.ExtraData == #[trigger] json_enc_pb_MapMutation(m) && redacted_data(m.Value, f) }
    else { true }
}
