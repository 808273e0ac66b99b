package verifiable
uses merkle, filter

func filterLeafData(ld, am) (r, err)
  requires am is Some
  ensures [shown] err == GoErr::Nil ==> shown(ld, r, am->0.FieldFilter)
  ensures [all] all_fields(am->0.FieldFilter) ==> err == GoErr::Nil
  ensures [refused] err != GoErr::Nil ==> r is None
