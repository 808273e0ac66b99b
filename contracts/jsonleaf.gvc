package verifiable
uses merkle, jsonleaf

func CreateJSONLeafData(data) (r, err)
  ensures [created] err == GoErr::Nil ==> r == Some(json_leaf(data))
  ensures [when] (err == GoErr::Nil) == jhash_ok(data)
  ensures [refused] err != GoErr::Nil ==> r is None

func ValidateJSONLeafData(ctx, entry) (err)
  ensures [exact] (err == GoErr::Nil) == leaf_valid(entry)
  ensures [some] err == GoErr::Nil ==> entry is Some && entry->0.ExtraData.len() > 0

func CreateJSONLeafDataFromMutation(mm) (r, err)
  requires mm is Some
  ensures [created] err == GoErr::Nil ==> r == Some(mutation_leaf(mm->0)) && jhash_ok(json_enc_pb_MapMutation(bare(mm->0)))
  ensures [refused] err != GoErr::Nil ==> r is None

func ValidateJSONLeafDataFromMutation(entry) (err)
  ensures [exact] err == GoErr::Nil ==> mutation_leaf_valid(entry)
  ensures [some] err == GoErr::Nil ==> entry is Some && entry->0.ExtraData.len() > 0

func CreateJSONLeafDataFromObject(o) (r, err)
  ensures [created] err == GoErr::Nil ==> r == Some(json_leaf(json_enc_Option_GAny_(o)))
  ensures [refused] err != GoErr::Nil ==> r is None

func CreateJSONLeafDataFromProto(m) (r, err)
  ensures [created] err == GoErr::Nil ==> r is Some && r == Some(json_leaf(r->0.ExtraData)) && leaf_valid(r)
  ensures [encoded] err == GoErr::Nil ==> r == Some(json_leaf(json_enc_Option_GAny_(m)))
  ensures [when] (err == GoErr::Nil) == (json_can_Option_GAny_(m) && jhash_ok(json_enc_Option_GAny_(m)))
  ensures [refused] err != GoErr::Nil ==> r is None
