// What a context means, and when it is intact.
pub open spec fn ti_name(t: TypeInfo) -> Seq<char> { match t { TypeInfo::Message(m) => m.name@, TypeInfo::Enum(e) => e.name@ } }
pub open spec fn ti_full(t: TypeInfo) -> Seq<char> { match t { TypeInfo::Message(m) => m.full_name@, TypeInfo::Enum(e) => e.full_name@ } }
pub open spec fn ti_parent(t: TypeInfo) -> TypeParent { match t { TypeInfo::Message(m) => m.parent, TypeInfo::Enum(e) => e.parent } }
pub open spec fn ti_self(t: TypeInfo) -> nat { match t { TypeInfo::Message(m) => m.self_ref.0.0 as nat, TypeInfo::Enum(e) => e.self_ref.0.0 as nat } }
/// The reference that names the type stored at `i`.
pub open spec fn ti_ref(t: TypeInfo, i: int) -> TypeRef {
    match t { TypeInfo::Message(_) => TypeRef::Message(MessageRef(InternalRef(i as usize))), TypeInfo::Enum(_) => TypeRef::Enum(EnumRef(InternalRef(i as usize))) }
}
pub open spec fn join(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + seq!['.'] + b }
pub open spec fn is_msg(c: Context, r: MessageRef) -> bool { r.0.0 < c.types@.len() && c.types@[r.0.0 as int] is Message }
pub open spec fn is_enum(c: Context, r: EnumRef) -> bool { r.0.0 < c.types@.len() && c.types@[r.0.0 as int] is Enum }
pub open spec fn is_type(c: Context, r: TypeRef) -> bool { match r { TypeRef::Message(m) => is_msg(c, m), TypeRef::Enum(e) => is_enum(c, e) } }
pub open spec fn is_pkg(c: Context, r: PackageRef) -> bool { r.0.0 < c.packages@.len() }
pub open spec fn ctx_msg(c: Context, r: MessageRef) -> MessageInfo { c.types@[r.0.0 as int]->Message_0 }
pub open spec fn ctx_enum(c: Context, r: EnumRef) -> EnumInfo { c.types@[r.0.0 as int]->Enum_0 }
pub open spec fn ctx_pkg(c: Context, r: PackageRef) -> Package { c.packages@[r.0.0 as int] }
pub open spec fn ref_idx(r: TypeRef) -> int { match r { TypeRef::Message(m) => m.0.0 as int, TypeRef::Enum(e) => e.0.0 as int } }
pub open spec fn is_parent(c: Context, p: TypeParent) -> bool { match p { TypeParent::Package(p) => is_pkg(c, p), TypeParent::Message(m) => is_msg(c, m) } }
pub open spec fn opt_str(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
/// The name of something in a package.
pub open spec fn in_pkg(p: Package, name: Seq<char>) -> Seq<char> { match p.name { Some(n) => join(n@, name), None => name } }
/// The full name: the parent's full name joined with the own name.
pub open spec fn full_of(c: Context, p: TypeParent, name: Seq<char>) -> Seq<char> {
    match p { TypeParent::Package(p) => in_pkg(ctx_pkg(c, p), name), TypeParent::Message(m) => join(ctx_msg(c, m).full_name@, name) }
}
/// The types a parent lists.
pub open spec fn children(c: Context, p: TypeParent) -> Seq<TypeRef> {
    match p { TypeParent::Package(p) => ctx_pkg(c, p).types@, TypeParent::Message(m) => ctx_msg(c, m).inner_types@ }
}

// ---- messages and enums on their own
pub open spec fn is_oneof(m: MessageInfo, o: OneofRef) -> bool { o.0.0 < m.oneofs@.len() }
/// Every field is found under its number, and a name leads to a field of that name.
pub open spec fn msg_index(m: MessageInfo) -> bool {
    &&& forall|n: u64| #[trigger] m.fields@.dom().contains(n) ==> m.fields@[n].number == n && m.fields_by_name@.dom().contains(m.fields@[n].name@)
    &&& forall|s: Seq<char>| #[trigger] m.fields_by_name@.dom().contains(s) ==> m.fields@.dom().contains(m.fields_by_name@[s]) && m.fields@[m.fields_by_name@[s]].name@ == s
}
/// Oneofs and their fields refer to each other.
pub open spec fn msg_oneofs(m: MessageInfo) -> bool {
    &&& forall|n: u64| #[trigger] m.fields@.dom().contains(n) ==> (m.fields@[n].oneof matches Some(o) ==> is_oneof(m, o) && m.oneofs@[o.0.0 as int].fields@.contains(n))
    &&& forall|i: int, n: u64| 0 <= i < m.oneofs@.len() && #[trigger] m.oneofs@[i].fields@.contains(n) ==> m.fields@.dom().contains(n) && m.fields@[n].oneof == Some(OneofRef(InternalRef(i as usize)))
    &&& forall|i: int| 0 <= i < m.oneofs@.len() ==> (#[trigger] m.oneofs@[i]).self_ref == OneofRef(InternalRef(i as usize))
}
/// No two fields share a name, and no two oneofs do.
pub open spec fn msg_unique(m: MessageInfo) -> bool {
    &&& forall|a: u64, b: u64| #[trigger] m.fields@.dom().contains(a) && #[trigger] m.fields@.dom().contains(b) && m.fields@[a].name@ == m.fields@[b].name@ ==> a == b
    &&& forall|i: int, j: int| 0 <= i < j < m.oneofs@.len() ==> (#[trigger] m.oneofs@[i]).name@ != (#[trigger] m.oneofs@[j]).name@
}
pub open spec fn msg_wf(m: MessageInfo) -> bool { msg_index(m) && msg_oneofs(m) }
pub open spec fn enum_wf(e: EnumInfo) -> bool {
    &&& forall|v: i64| #[trigger] e.fields_by_value@.dom().contains(v) ==> e.fields_by_value@[v].value == v && e.fields_by_name@.dom().contains(e.fields_by_value@[v].name@)
    &&& forall|s: Seq<char>| #[trigger] e.fields_by_name@.dom().contains(s) ==> e.fields_by_value@.dom().contains(e.fields_by_name@[s])
}
/// No two fields of an enum share a name.
pub open spec fn enum_unique(e: EnumInfo) -> bool {
    &&& forall|a: i64, b: i64| #[trigger] e.fields_by_value@.dom().contains(a) && #[trigger] e.fields_by_value@.dom().contains(b) && e.fields_by_value@[a].name@ == e.fields_by_value@[b].name@ ==> a == b
    &&& forall|s: Seq<char>| #[trigger] e.fields_by_name@.dom().contains(s) ==> e.fields_by_value@[e.fields_by_name@[s]].name@ == s
}

// ---- contexts
pub open spec fn vt_in(vt: ValueType, c: Context) -> bool {
    match vt { ValueType::Message(r) => is_msg(c, r), ValueType::Enum(r) => is_enum(c, r), _ => true }
}
/// The types of a message's fields exist.
pub open spec fn refs_in(m: MessageInfo, c: Context) -> bool {
    forall|n: u64| #[trigger] m.fields@.dom().contains(n) ==> vt_in(m.fields@[n].field_type, c)
}
/// The contents of a type, as far as they do not concern other types' names and lists.
pub open spec fn body_ok(t: TypeInfo, c: Context) -> bool {
    match t { TypeInfo::Message(m) => msg_wf(m) && refs_in(m, c), TypeInfo::Enum(e) => enum_wf(e) }
}
pub open spec fn type_ok(c: Context, i: int) -> bool {
    let t = c.types@[i];
    &&& ti_self(t) == i
    &&& c.types_by_name@.dom().contains(ti_full(t))
    &&& c.types_by_name@[ti_full(t)] == i
    &&& is_parent(c, ti_parent(t))
    &&& ti_full(t) == full_of(c, ti_parent(t), ti_name(t))
    &&& children(c, ti_parent(t)).contains(ti_ref(t, i))
    &&& body_ok(t, c)
}
/// Everything a parent lists is its child, once.
pub open spec fn lists_ok(c: Context, p: TypeParent) -> bool {
    &&& forall|k: int| 0 <= k < children(c, p).len() ==> is_type(c, #[trigger] children(c, p)[k]) && ti_parent(c.types@[ref_idx(children(c, p)[k])]) == p
    &&& forall|k: int, l: int| 0 <= k < l < children(c, p).len() ==> #[trigger] children(c, p)[k] != #[trigger] children(c, p)[l]
}
pub open spec fn rpc_ok(c: Context, r: Rpc) -> bool { is_msg(c, r.input.message) && is_msg(c, r.output.message) }
pub open spec fn service_wf(s: Service) -> bool {
    &&& forall|i: int| 0 <= i < s.rpcs@.len() ==> s.rpcs_by_name@.dom().contains((#[trigger] s.rpcs@[i]).name@)
    &&& forall|n: Seq<char>| #[trigger] s.rpcs_by_name@.dom().contains(n) ==> s.rpcs_by_name@[n] < s.rpcs@.len() && s.rpcs@[s.rpcs_by_name@[n] as int].name@ == n
}
pub open spec fn service_ok(c: Context, i: int) -> bool {
    let s = c.services@[i];
    &&& s.self_ref == ServiceRef(InternalRef(i as usize))
    &&& c.services_by_name@.dom().contains(s.full_name@)
    &&& c.services_by_name@[s.full_name@] == i
    &&& is_pkg(c, s.parent)
    &&& s.full_name@ == in_pkg(ctx_pkg(c, s.parent), s.name@)
    &&& ctx_pkg(c, s.parent).services@.contains(i as usize)
    &&& service_wf(s)
    &&& forall|k: int| 0 <= k < s.rpcs@.len() ==> rpc_ok(c, #[trigger] s.rpcs@[k])
}
pub open spec fn pkg_ok(c: Context, i: int) -> bool {
    let p = c.packages@[i];
    &&& p.self_ref == PackageRef(InternalRef(i as usize))
    &&& lists_ok(c, TypeParent::Package(p.self_ref))
    &&& forall|k: int| 0 <= k < p.services@.len() ==> (#[trigger] p.services@[k]) < c.services@.len() && c.services@[p.services@[k] as int].parent == p.self_ref
    &&& forall|k: int, l: int| 0 <= k < l < p.services@.len() ==> #[trigger] p.services@[k] != #[trigger] p.services@[l]
}
/// Referential integrity.
pub open spec fn ctx_inv(c: Context) -> bool {
    &&& forall|i: int| 0 <= i < c.types@.len() ==> type_ok(c, i) && (#[trigger] c.types@[i] is Message ==> lists_ok(c, TypeParent::Message(MessageRef(InternalRef(i as usize)))))
    &&& forall|n: Seq<char>| #[trigger] c.types_by_name@.dom().contains(n) ==> c.types_by_name@[n] < c.types@.len() && ti_full(c.types@[c.types_by_name@[n] as int]) == n
    &&& forall|i: int| 0 <= i < c.services@.len() ==> (#[trigger] c.services@[i]).self_ref.0.0 == i && service_ok(c, i)
    &&& forall|n: Seq<char>| #[trigger] c.services_by_name@.dom().contains(n) ==> c.services_by_name@[n] < c.services@.len() && c.services@[c.services_by_name@[n] as int].full_name@ == n
    &&& forall|i: int| 0 <= i < c.packages@.len() ==> (#[trigger] c.packages@[i]).self_ref.0.0 == i && pkg_ok(c, i)
}
/// Nothing found yet.
pub open spec fn none_yet<T>(o: Option<&T>) -> bool { o is None }
