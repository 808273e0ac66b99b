//@type pb.LeafData
//@type pb.LeafNode
//@type pb.TreeNode
//@type pb.LogTreeHash
//@type pb.EntryIndex
//@type pb.ObjectSize
//@type pb.MapNode
//@type pb.Mutation
// What a storage namespace holds: typed records under byte-string keys.
#[verifier::ext_equal]
pub ghost enum PVal { LeafData(pb_LeafData), LeafNode(pb_LeafNode), TreeNode(pb_TreeNode), LogTreeHash(pb_LogTreeHash), EntryIndex(pb_EntryIndex), ObjectSize(pb_ObjectSize), MapNode(pb_MapNode) }
pub type Db = Map<Seq<u8>, PVal>;
// The externally visible acts of a service operation, in order.
#[verifier::ext_equal]
pub ghost struct AuthEv { pub acct: Seq<u8>, pub apikey: Seq<u8>, pub name: Seq<u8>, pub perm: int, pub ok: bool, pub filter: Seq<u8> }
#[verifier::ext_equal]
pub ghost enum Ev { Auth(AuthEv), Read(Seq<u8>), Update(Seq<u8>), Queue(Seq<u8>, Option<pb_Mutation>) }
