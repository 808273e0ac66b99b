// uses: merkle
//@fn oh_plain (x0: Option<GAny>) -> Seq<u8>
//@fn oh_plain_ok (x0: Option<GAny>) -> bool
//@fn box_Seq_u8_ (x: Seq<u8>) -> Option<GAny>
//@fn box_Map_Seq_u8__Option_GAny__ (x: Map<Seq<u8>,Option<GAny>>) -> Option<GAny>
// Namespaces: the object hash of a dictionary naming the object
pub open spec fn ns_dict(acct: Seq<u8>, name: Seq<u8>, kind: Seq<u8>) -> Map<Seq<u8>, Option<GAny>>
{ Map::<Seq<u8>,Option<GAny>>::empty().insert(lit!("account"), box_Seq_u8_(acct)).insert(lit!("name"), box_Seq_u8_(name)).insert(lit!("type"), box_Seq_u8_(kind)) }
pub open spec fn log_ns(acct: Seq<u8>, name: Seq<u8>) -> Seq<u8> { oh_plain(box_Map_Seq_u8__Option_GAny__(ns_dict(acct, name, lit!("log")))) }
pub open spec fn map_ns(acct: Seq<u8>, name: Seq<u8>) -> Seq<u8> { oh_plain(box_Map_Seq_u8__Option_GAny__(ns_dict(acct, name, lit!("map")))) }
// the namespace of a log of type lt: a map and its two logs share one
pub open spec fn ref_ns(acct: Seq<u8>, name: Seq<u8>, lt: int) -> Seq<u8> { if lt == 0 { log_ns(acct, name) } else { map_ns(acct, name) } }
// the object hash does not collide on dictionaries of strings
pub open spec fn oh_no_collision() -> bool {
    (forall|a: Option<GAny>, b: Option<GAny>| #[trigger] oh_plain(a) == #[trigger] oh_plain(b) ==> a == b)
    && (forall|a: Seq<u8>, b: Seq<u8>| #[trigger] box_Seq_u8_(a) == #[trigger] box_Seq_u8_(b) ==> a == b)
    && (forall|a: Map<Seq<u8>,Option<GAny>>, b: Map<Seq<u8>,Option<GAny>>| #[trigger] box_Map_Seq_u8__Option_GAny__(a) == #[trigger] box_Map_Seq_u8__Option_GAny__(b) ==> a == b)
}
pub proof fn ns_dict_inj(a: Seq<u8>, n: Seq<u8>, k: Seq<u8>, a2: Seq<u8>, n2: Seq<u8>, k2: Seq<u8>)
    requires oh_no_collision(), ns_dict(a, n, k) == ns_dict(a2, n2, k2)
    ensures a == a2, n == n2, k == k2
{
    let x = ns_dict(a, n, k); let y = ns_dict(a2, n2, k2);
    lit_lemma!("account"); lit_lemma!("name"); lit_lemma!("type");
    assert(lit!("account").len() == 7 && lit!("name").len() == 4 && lit!("type").len() == 4);
    assert(lit!("name")[0] != lit!("type")[0]);
    assert(x[lit!("account")] == box_Seq_u8_(a) && y[lit!("account")] == box_Seq_u8_(a2));
    assert(x[lit!("name")] == box_Seq_u8_(n) && y[lit!("name")] == box_Seq_u8_(n2));
    assert(x[lit!("type")] == box_Seq_u8_(k) && y[lit!("type")] == box_Seq_u8_(k2));
}
// different objects have different namespaces, unless the hash collides
pub proof fn namespaces_distinct(a: Seq<u8>, n: Seq<u8>, m: bool, a2: Seq<u8>, n2: Seq<u8>, m2: bool)
    requires oh_no_collision(), (if m { map_ns(a, n) } else { log_ns(a, n) }) == (if m2 { map_ns(a2, n2) } else { log_ns(a2, n2) })
    ensures a == a2, n == n2, m == m2
{
    lit_lemma!("log"); lit_lemma!("map");
    assert(lit!("log")[0] != lit!("map")[0]);
    ns_dict_inj(a, n, if m { lit!("map") } else { lit!("log") }, a2, n2, if m2 { lit!("map") } else { lit!("log") });
}
// the names can be hashed at all
pub open spec fn log_ns_ok(acct: Seq<u8>, name: Seq<u8>) -> bool { oh_plain_ok(box_Map_Seq_u8__Option_GAny__(ns_dict(acct, name, lit!("log")))) }
pub open spec fn map_ns_ok(acct: Seq<u8>, name: Seq<u8>) -> bool { oh_plain_ok(box_Map_Seq_u8__Option_GAny__(ns_dict(acct, name, lit!("map")))) }
pub open spec fn ref_ns_ok(acct: Seq<u8>, name: Seq<u8>, lt: int) -> bool { if lt == 0 { log_ns_ok(acct, name) } else { map_ns_ok(acct, name) } }
