//@type pb.LogAddEntryRequest
//@type pb.LogAddEntryResponse
//@type pb.LogFetchEntriesRequest
//@type pb.LogFetchEntriesResponse
//@type pb.LogTreeHashRequest
//@type pb.LogTreeHashResponse
//@type pb.LogInclusionProofRequest
//@type pb.LogInclusionProofResponse
//@type pb.LogConsistencyProofRequest
//@type pb.LogConsistencyProofResponse
//@type pb.MapSetValueRequest
//@type pb.MapSetValueResponse
//@type pb.MapGetValueRequest
//@type pb.MapGetValueResponse
//@type pb.MapTreeHashRequest
//@type pb.MapTreeHashResponse
// A call of an operation of the service: what was asked, and what came back.
#[verifier::ext_equal]
pub ghost enum Rpc {
    AddEntry(Option<pb_LogAddEntryRequest>, Option<pb_LogAddEntryResponse>, GoErr),
    Fetch(Option<pb_LogFetchEntriesRequest>, Option<pb_LogFetchEntriesResponse>, GoErr),
    TreeHash(Option<pb_LogTreeHashRequest>, Option<pb_LogTreeHashResponse>, GoErr),
    Inclusion(Option<pb_LogInclusionProofRequest>, Option<pb_LogInclusionProofResponse>, GoErr),
    Consistency(Option<pb_LogConsistencyProofRequest>, Option<pb_LogConsistencyProofResponse>, GoErr),
    SetValue(Option<pb_MapSetValueRequest>, Option<pb_MapSetValueResponse>, GoErr),
    GetValue(Option<pb_MapGetValueRequest>, Option<pb_MapGetValueResponse>, GoErr),
    MapHash(Option<pb_MapTreeHashRequest>, Option<pb_MapTreeHashResponse>, GoErr),
}
