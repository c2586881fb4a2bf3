
/// `ty` with its full name and its own reference filled in.
pub open spec fn placed(ty: TypeInfo, t: TypeInfo, full: Seq<char>, i: nat) -> bool {
    match (ty, t) {
        (TypeInfo::Message(a), TypeInfo::Message(b)) => b.full_name@ == full && b.self_ref.0.0 == i && same_msg(a, MessageInfo { full_name: a.full_name, self_ref: a.self_ref, ..b }),
        (TypeInfo::Enum(a), TypeInfo::Enum(b)) => b.full_name@ == full && b.self_ref.0.0 == i && same_enum(a, EnumInfo { full_name: a.full_name, self_ref: a.self_ref, ..b }),
        _ => false,
    }
}
pub open spec fn pkg_plus(a: Package, b: Package, r: TypeRef) -> bool {
    b.types@ == a.types@.push(r) && same_pkg(a, Package { types: a.types, ..b })
}
pub open spec fn msg_plus(a: TypeInfo, b: TypeInfo, r: TypeRef) -> bool {
    match (a, b) {
        (TypeInfo::Message(a), TypeInfo::Message(b)) => b.inner_types@ == a.inner_types@.push(r) && same_msg(a, MessageInfo { inner_types: a.inner_types, ..b }),
        _ => false,
    }
}
/// `c2` is `c` with exactly `ty` added.
pub open spec fn inserted(c: Context, ty: TypeInfo, c2: Context) -> bool {
    let n = c.types@.len();
    let p = ti_parent(ty);
    let full = full_of(c, p, ti_name(ty));
    let r = ti_ref(ty, n as int);
    &&& n <= usize::MAX
    &&& c2.types@.len() == n + 1
    &&& placed(ty, c2.types@[n as int], full, n)
    &&& c2.types_by_name@ == c.types_by_name@.insert(full, n as usize)
    &&& c2.services@ == c.services@
    &&& c2.services_by_name@ == c.services_by_name@
    &&& c2.packages@.len() == c.packages@.len()
    &&& forall|i: int| 0 <= i < c.packages@.len() ==> if p == TypeParent::Package(PackageRef(InternalRef(i as usize))) { pkg_plus(c.packages@[i], #[trigger] c2.packages@[i], r) } else { c2.packages@[i] == c.packages@[i] }
    &&& forall|i: int| 0 <= i < n ==> if p == TypeParent::Message(MessageRef(InternalRef(i as usize))) { msg_plus(c.types@[i], #[trigger] c2.types@[i], r) } else { c2.types@[i] == c.types@[i] }
}
/// The part of `ctx_inv` that the functions themselves rest on.
pub open spec fn names_in(c: Context) -> bool {
    &&& forall|n: Seq<char>| #[trigger] c.types_by_name@.dom().contains(n) ==> c.types_by_name@[n] < c.types@.len() && ti_full(c.types@[c.types_by_name@[n] as int]) == n
    &&& forall|i: int| 0 <= i < c.types@.len() ==> ti_self(#[trigger] c.types@[i]) == i
    &&& forall|i: int| 0 <= i < c.packages@.len() ==> (#[trigger] c.packages@[i]).self_ref.0.0 == i
}
pub open spec fn type_taken(c: Context, ty: TypeInfo) -> bool { c.types_by_name@.dom().contains(full_of(c, ti_parent(ty), ti_name(ty))) }
pub open spec fn taken_ref(c: Context, ty: TypeInfo) -> TypeRef {
    let i = c.types_by_name@[full_of(c, ti_parent(ty), ti_name(ty))];
    ti_ref(c.types@[i as int], i as int)
}
/// What inserting a type does.
pub open spec fn insert_spec(c: Context, ty: TypeInfo, c2: Context, r: Result<InternalRef, InsertError>) -> bool {
    if type_taken(c, ty) {
        r == Err::<InternalRef, InsertError>(InsertError::TypeExists { original: taken_ref(c, ty) }) && same_ctx(c2, c)
    } else {
        r == Ok::<InternalRef, InsertError>(InternalRef(c.types@.len() as usize)) && inserted(c, ty, c2)
    }
}

pub open spec fn named_type(c: Context, n: Seq<char>) -> Option<TypeInfo> {
    if c.types_by_name@.dom().contains(n) { Some(c.types@[c.types_by_name@[n] as int]) } else { None }
}
pub open spec fn field_named(m: MessageInfo, n: Seq<char>) -> Option<MessageField> {
    if m.fields_by_name@.dom().contains(n) && m.fields@.dom().contains(m.fields_by_name@[n]) { Some(m.fields@[m.fields_by_name@[n]]) } else { None }
}
pub open spec fn oneof_plus(a: Oneof, b: Oneof, n: u64) -> bool { b.fields@ == a.fields@.push(n) && a.name@ == b.name@ && a.options@ == b.options@ && a.self_ref == b.self_ref }
pub open spec fn same_oneof(a: Oneof, b: Oneof, r: OneofRef) -> bool { a.name@ == b.name@ && a.fields@ == b.fields@ && a.options@ == b.options@ && a.self_ref == r }
/// `g` is `f` with the first `k` of the fields `ns` put into the oneof.
pub open spec fn joined(f: Map<u64, MessageField>, g: Map<u64, MessageField>, ns: Seq<u64>, k: int, o: OneofRef) -> bool {
    &&& g.dom() =~= f.dom()
    &&& forall|n: u64| #[trigger] f.dom().contains(n) ==> g[n] == (if ns.take(k).contains(n) { MessageField { oneof: Some(o), ..f[n] } } else { f[n] })
}

/// `r` is a oneof with this reference; nothing if there is none among the first `k`.
pub open spec fn oneof_found(s: Seq<Oneof>, k: int, o: OneofRef, r: Option<&Oneof>) -> bool {
    match r { Some(x) => x.self_ref == o && s.contains(*x), None => forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).self_ref != o }
}

pub open spec fn same_msg(a: MessageInfo, b: MessageInfo) -> bool {
    a.name@ == b.name@ && a.full_name@ == b.full_name@ && a.parent == b.parent && a.self_ref == b.self_ref && a.oneofs@ == b.oneofs@ && a.inner_types@ == b.inner_types@ && a.fields@ == b.fields@ && a.fields_by_name@ == b.fields_by_name@
}
pub open spec fn same_enum(a: EnumInfo, b: EnumInfo) -> bool {
    a.name@ == b.name@ && a.full_name@ == b.full_name@ && a.parent == b.parent && a.self_ref == b.self_ref && a.fields_by_value@ == b.fields_by_value@ && a.fields_by_name@ == b.fields_by_name@
}
pub open spec fn same_pkg(a: Package, b: Package) -> bool {
    opt_str(a.name) == opt_str(b.name) && a.self_ref == b.self_ref && a.types@ == b.types@ && a.services@ == b.services@
}
pub open spec fn same_ctx(a: Context, b: Context) -> bool {
    a.packages@ == b.packages@ && a.types@ == b.types@ && a.types_by_name@ == b.types_by_name@ && a.services@ == b.services@ && a.services_by_name@ == b.services_by_name@
}

pub proof fn lemma_push_contains<T>()
    ensures forall|s: Seq<T>, x: T, y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y,
{
    assert forall|s: Seq<T>, x: T, y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
        if x == y { assert(s.push(x)[s.len() as int] == y); }
        if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } }
    }
}

pub proof fn lemma_take_contains<T>(s: Seq<T>)
    ensures
        s.take(s.len() as int) == s,
        forall|k: int, y: T| 0 <= k < s.len() ==> (#[trigger] s.take(k + 1).contains(y) <==> s.take(k).contains(y) || s[k] == y),
        forall|y: T| !(#[trigger] s.take(0).contains(y)),
        forall|k: int, y: T| 0 <= k <= s.len() && #[trigger] s.take(k).contains(y) ==> s.contains(y),
{
    assert(s.take(s.len() as int) =~= s);
    lemma_push_contains::<T>();
    assert forall|k: int, y: T| 0 <= k < s.len() implies (#[trigger] s.take(k + 1).contains(y) <==> s.take(k).contains(y) || s[k] == y) by {
        assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    }
    assert forall|k: int, y: T| 0 <= k <= s.len() && #[trigger] s.take(k).contains(y) implies s.contains(y) by {
        let i = choose|i: int| 0 <= i < s.take(k).len() && s.take(k)[i] == y;
        assert(s[i] == y);
    }
}

// ---- inserting keeps a context intact
pub proof fn lemma_insert_types(c: Context, ty: TypeInfo, c2: Context)
    requires
        ctx_inv(c),
        inserted(c, ty, c2),
        is_parent(c, ti_parent(ty)),
    ensures
        forall|r: TypeRef| #[trigger] is_type(c, r) ==> is_type(c2, r),
        forall|r: MessageRef| #[trigger] is_msg(c, r) ==> is_msg(c2, r),
        forall|r: EnumRef| #[trigger] is_enum(c, r) ==> is_enum(c2, r),
        forall|p: TypeParent| #[trigger] is_parent(c, p) ==> is_parent(c2, p),
        forall|i: int| 0 <= i < c.types@.len() ==> ti_name(#[trigger] c2.types@[i]) == ti_name(c.types@[i]) && ti_full(c2.types@[i]) == ti_full(c.types@[i]) && ti_parent(c2.types@[i]) == ti_parent(c.types@[i]) && ti_self(c2.types@[i]) == ti_self(c.types@[i]) && ti_ref(c2.types@[i], i) == ti_ref(c.types@[i], i),
        forall|p: TypeParent, n: Seq<char>| is_parent(c, p) ==> #[trigger] full_of(c2, p, n) == full_of(c, p, n),
        forall|p: TypeParent| is_parent(c, p) ==> #[trigger] children(c2, p) == (if p == ti_parent(ty) { children(c, p).push(ti_ref(ty, c.types@.len() as int)) } else { children(c, p) }),
        forall|i: int| 0 <= i < c.packages@.len() ==> opt_str(#[trigger] c2.packages@[i].name) == opt_str(c.packages@[i].name) && c2.packages@[i].services@ == c.packages@[i].services@ && c2.packages@[i].self_ref == c.packages@[i].self_ref,
        forall|i: int| 0 <= i < c.types@.len() && body_ok(c.types@[i], c) ==> body_ok(#[trigger] c2.types@[i], c2),
        body_ok(ty, c) ==> body_ok(c2.types@[c.types@.len() as int], c2),
{
    let n = c.types@.len() as int;
    assert forall|i: int| 0 <= i < n implies ti_name(#[trigger] c2.types@[i]) == ti_name(c.types@[i]) && ti_full(c2.types@[i]) == ti_full(c.types@[i]) && ti_parent(c2.types@[i]) == ti_parent(c.types@[i]) && ti_self(c2.types@[i]) == ti_self(c.types@[i]) && ti_ref(c2.types@[i], i) == ti_ref(c.types@[i], i) by {}
    assert forall|r: MessageRef| #[trigger] is_msg(c, r) implies is_msg(c2, r) by { let i = r.0.0 as int; assert(ti_ref(c2.types@[i], i) == ti_ref(c.types@[i], i)); }
    assert forall|r: EnumRef| #[trigger] is_enum(c, r) implies is_enum(c2, r) by { let i = r.0.0 as int; assert(ti_ref(c2.types@[i], i) == ti_ref(c.types@[i], i)); }
    assert forall|p: TypeParent, s: Seq<char>| is_parent(c, p) implies #[trigger] full_of(c2, p, s) == full_of(c, p, s) by {
        match p {
            TypeParent::Package(q) => { let i = q.0.0 as int; assert(c2.packages@[i] == c2.packages@[i]); assert(opt_str(c2.packages@[i].name) == opt_str(c.packages@[i].name)); }
            TypeParent::Message(q) => { let i = q.0.0 as int; assert(ti_full(c2.types@[i]) == ti_full(c.types@[i])); assert(is_msg(c2, q)); }
        }
    }
    assert forall|p: TypeParent| is_parent(c, p) implies #[trigger] children(c2, p) == (if p == ti_parent(ty) { children(c, p).push(ti_ref(ty, n)) } else { children(c, p) }) by {
        match p {
            TypeParent::Package(q) => { let i = q.0.0 as int; assert(c2.packages@[i] == c2.packages@[i]); }
            TypeParent::Message(q) => { let i = q.0.0 as int; assert(c2.types@[i] == c2.types@[i]); }
        }
    }
    assert forall|i: int| 0 <= i < n && body_ok(c.types@[i], c) implies body_ok(#[trigger] c2.types@[i], c2) by {}
}
pub proof fn lemma_insert_keeps_types(c: Context, ty: TypeInfo, c2: Context)
    requires
        ctx_inv(c),
        inserted(c, ty, c2),
        is_parent(c, ti_parent(ty)),
        !type_taken(c, ty),
        body_ok(ty, c),
        ty matches TypeInfo::Message(m) ==> m.inner_types@.len() == 0,
    ensures
        forall|i: int| 0 <= i < c2.types@.len() ==> #[trigger] type_ok(c2, i),
{
    hide(body_ok); hide(lists_ok); hide(service_ok); hide(pkg_ok);
    lemma_insert_types(c, ty, c2);
    lemma_push_contains::<TypeRef>();
    let n = c.types@.len() as int;
    let full = full_of(c, ti_parent(ty), ti_name(ty));
    assert forall|i: int| 0 <= i < c2.types@.len() implies #[trigger] type_ok(c2, i) by {
        if i < n {
            assert(c.types@[i] == c.types@[i]);
            assert(type_ok(c, i));
            assert(ti_full(c.types@[i]) != full) by { assert(c.types_by_name@.dom().contains(ti_full(c.types@[i]))); }
        }
    }
}
pub proof fn lemma_insert_keeps_lists(c: Context, ty: TypeInfo, c2: Context)
    requires
        ctx_inv(c),
        inserted(c, ty, c2),
        is_parent(c, ti_parent(ty)),
        !type_taken(c, ty),
        body_ok(ty, c),
        ty matches TypeInfo::Message(m) ==> m.inner_types@.len() == 0,
    ensures
        forall|q: TypeParent| is_parent(c, q) && lists_ok(c, q) ==> #[trigger] lists_ok(c2, q),
{
    lemma_insert_types(c, ty, c2);
    let n = c.types@.len() as int;
    assert forall|q: TypeParent| is_parent(c, q) && lists_ok(c, q) implies #[trigger] lists_ok(c2, q) by {
        let k0 = children(c, q);
        assert forall|k: int| 0 <= k < children(c2, q).len() implies is_type(c2, #[trigger] children(c2, q)[k]) && ti_parent(c2.types@[ref_idx(children(c2, q)[k])]) == q by {
            if k < k0.len() { assert(children(c2, q)[k] == k0[k]); assert(is_type(c, k0[k])); }
        }
        assert forall|k: int, l: int| 0 <= k < l < children(c2, q).len() implies #[trigger] children(c2, q)[k] != #[trigger] children(c2, q)[l] by {
            assert(children(c2, q)[k] == k0[k]);
            assert(is_type(c, k0[k]));
            if l < k0.len() { assert(children(c2, q)[l] == k0[l]); } else { assert(ref_idx(k0[k]) < n); }
        }
    }
}
pub proof fn lemma_insert_keeps_services(c: Context, ty: TypeInfo, c2: Context)
    requires
        ctx_inv(c),
        inserted(c, ty, c2),
        is_parent(c, ti_parent(ty)),
        !type_taken(c, ty),
        body_ok(ty, c),
        ty matches TypeInfo::Message(m) ==> m.inner_types@.len() == 0,
    ensures
        forall|i: int| 0 <= i < c2.services@.len() ==> (#[trigger] c2.services@[i]).self_ref.0.0 == i && service_ok(c2, i),
{
    lemma_insert_types(c, ty, c2);
    assert forall|i: int| 0 <= i < c2.services@.len() implies (#[trigger] c2.services@[i]).self_ref.0.0 == i && service_ok(c2, i) by {
        assert(c.services@[i] == c2.services@[i]);
        assert(service_ok(c, i));
        let s = c.services@[i];
        assert(is_parent(c, TypeParent::Package(s.parent)));
        assert(full_of(c2, TypeParent::Package(s.parent), s.name@) == full_of(c, TypeParent::Package(s.parent), s.name@));
        assert(c2.packages@[s.parent.0.0 as int].services@ == c.packages@[s.parent.0.0 as int].services@);
        assert forall|k: int| 0 <= k < s.rpcs@.len() implies rpc_ok(c2, #[trigger] s.rpcs@[k]) by { assert(rpc_ok(c, s.rpcs@[k])); }
    }
}
pub proof fn lemma_insert_keeps(c: Context, ty: TypeInfo, c2: Context)
    requires
        ctx_inv(c),
        inserted(c, ty, c2),
        is_parent(c, ti_parent(ty)),
        !type_taken(c, ty),
        body_ok(ty, c),
        ty matches TypeInfo::Message(m) ==> m.inner_types@.len() == 0,
    ensures
        ctx_inv(c2),
{
    hide(body_ok); hide(service_ok); hide(type_ok);
    lemma_insert_keeps_types(c, ty, c2);
    lemma_insert_keeps_lists(c, ty, c2);
    lemma_insert_keeps_services(c, ty, c2);
    lemma_insert_types(c, ty, c2);
    let n = c.types@.len() as int;
    assert forall|i: int| 0 <= i < c2.types@.len() && #[trigger] c2.types@[i] is Message implies lists_ok(c2, TypeParent::Message(MessageRef(InternalRef(i as usize)))) by {
        let q = TypeParent::Message(MessageRef(InternalRef(i as usize)));
        if i < n { assert(c.types@[i] is Message); assert(is_parent(c, q)); assert(lists_ok(c, q)); } else { assert(children(c2, q).len() == 0); }
    }
    assert forall|i: int| 0 <= i < c2.packages@.len() implies (#[trigger] c2.packages@[i]).self_ref.0.0 == i && pkg_ok(c2, i) by {
        assert(c2.packages@[i].self_ref == c.packages@[i].self_ref);
        assert(pkg_ok(c, i));
        assert(is_parent(c, TypeParent::Package(c.packages@[i].self_ref)));
    }
}
/// What was inserted is found by its full name and by the returned reference; other names lead where they did.
pub proof fn lemma_insert_found(c: Context, ty: TypeInfo, c2: Context)
    requires
        ctx_inv(c),
        inserted(c, ty, c2),
        is_parent(c, ti_parent(ty)),
        !type_taken(c, ty),
    ensures
        named_type(c2, full_of(c, ti_parent(ty), ti_name(ty))) == Some(c2.types@[c.types@.len() as int]),
        is_type(c2, ti_ref(ty, c.types@.len() as int)),
        children(c2, ti_parent(ty)).contains(ti_ref(ty, c.types@.len() as int)),
        forall|s: Seq<char>| s != full_of(c, ti_parent(ty), ti_name(ty)) ==> (match (#[trigger] named_type(c2, s), named_type(c, s)) {
            (Some(a), Some(b)) => ti_full(a) == s && ti_name(a) == ti_name(b) && ti_self(a) == ti_self(b) && ti_parent(a) == ti_parent(b),
            (None, None) => true,
            _ => false,
        }),
{
    lemma_insert_types(c, ty, c2);
    lemma_push_contains::<TypeRef>();
    assert forall|s: Seq<char>| s != full_of(c, ti_parent(ty), ti_name(ty)) implies (match (#[trigger] named_type(c2, s), named_type(c, s)) {
            (Some(a), Some(b)) => ti_full(a) == s && ti_name(a) == ti_name(b) && ti_self(a) == ti_self(b) && ti_parent(a) == ti_parent(b),
            (None, None) => true,
            _ => false,
        }) by {
        if c.types_by_name@.dom().contains(s) { assert(ti_name(c2.types@[c.types_by_name@[s] as int]) == ti_name(c.types@[c.types_by_name@[s] as int])); }
    }
}
pub open spec fn pkg_inserted(c: Context, pkg: Package, c2: Context) -> bool {
    &&& c.packages@.len() <= usize::MAX
    &&& c2.packages@.len() == c.packages@.len() + 1
    &&& forall|i: int| 0 <= i < c.packages@.len() ==> #[trigger] c2.packages@[i] == c.packages@[i]
    &&& same_pkg(c2.packages@[c.packages@.len() as int], Package { self_ref: PackageRef(InternalRef(c.packages@.len() as usize)), ..pkg })
    &&& same_ctx(c, Context { packages: c.packages, ..c2 })
}
pub proof fn lemma_insert_package_keeps(c: Context, pkg: Package, c2: Context)
    requires
        ctx_inv(c),
        pkg_inserted(c, pkg, c2),
        pkg.types@.len() == 0,
        pkg.services@.len() == 0,
    ensures ctx_inv(c2),
{
    let n = c.packages@.len() as int;
    assert forall|q: TypeParent| is_parent(c, q) implies is_parent(c2, q) && children(c2, q) == children(c, q) by {}
    assert forall|q: TypeParent, s: Seq<char>| is_parent(c, q) implies #[trigger] full_of(c2, q, s) == full_of(c, q, s) by {}
    assert forall|q: TypeParent| is_parent(c, q) && lists_ok(c, q) implies lists_ok(c2, q) by {
        assert forall|k: int| 0 <= k < children(c2, q).len() implies is_type(c2, #[trigger] children(c2, q)[k]) && ti_parent(c2.types@[ref_idx(children(c2, q)[k])]) == q by { assert(is_type(c, children(c, q)[k])); }
    }
    assert forall|i: int| 0 <= i < c2.types@.len() implies type_ok(c2, i) && (#[trigger] c2.types@[i] is Message ==> lists_ok(c2, TypeParent::Message(MessageRef(InternalRef(i as usize))))) by {
        assert(type_ok(c, i));
        let t = c.types@[i];
        assert(t is Message ==> is_parent(c, TypeParent::Message(MessageRef(InternalRef(i as usize)))));
        assert(full_of(c2, ti_parent(t), ti_name(t)) == full_of(c, ti_parent(t), ti_name(t)));
    }
    assert forall|i: int| 0 <= i < c2.packages@.len() implies (#[trigger] c2.packages@[i]).self_ref.0.0 == i && pkg_ok(c2, i) by {
        if i < n {
            assert(c2.packages@[i] == c.packages@[i]);
            assert(pkg_ok(c, i));
            assert(is_parent(c, TypeParent::Package(c.packages@[i].self_ref)));
        }
    }
    assert forall|i: int| 0 <= i < c2.services@.len() implies (#[trigger] c2.services@[i]).self_ref.0.0 == i && service_ok(c2, i) by {
        assert(service_ok(c, i));
        let s = c.services@[i];
        assert(c2.packages@[s.parent.0.0 as int] == c.packages@[s.parent.0.0 as int]);
        assert forall|k: int| 0 <= k < s.rpcs@.len() implies rpc_ok(c2, #[trigger] s.rpcs@[k]) by { assert(rpc_ok(c, s.rpcs@[k])); }
    }
}
/// Lookups by name, reference and number agree with what an intact context stores.
pub proof fn lemma_lookups(c: Context)
    requires ctx_inv(c),
    ensures
        names_in(c),
        forall|i: int| 0 <= i < c.types@.len() ==> named_type(c, ti_full(#[trigger] c.types@[i])) == Some(c.types@[i]),
        forall|s: Seq<char>| #[trigger] named_type(c, s) matches Some(t) ==> ti_full(t) == s && c.types@.contains(t),
        forall|i: int, j: int| 0 <= i < j < c.types@.len() ==> ti_full(#[trigger] c.types@[i]) != ti_full(#[trigger] c.types@[j]),
        forall|i: int| 0 <= i < c.services@.len() ==> c.services_by_name@.dom().contains((#[trigger] c.services@[i]).full_name@) && c.services_by_name@[c.services@[i].full_name@] == i,
        forall|n: Seq<char>| #[trigger] c.services_by_name@.dom().contains(n) ==> c.services@[c.services_by_name@[n] as int].full_name@ == n,
{
    assert forall|i: int| 0 <= i < c.types@.len() implies named_type(c, ti_full(#[trigger] c.types@[i])) == Some(c.types@[i]) && ti_self(c.types@[i]) == i by { assert(type_ok(c, i)); }
    assert forall|i: int| 0 <= i < c.services@.len() implies c.services_by_name@.dom().contains((#[trigger] c.services@[i]).full_name@) && c.services_by_name@[c.services@[i].full_name@] == i by { assert(service_ok(c, i)); }
    assert forall|i: int, j: int| 0 <= i < j < c.types@.len() implies ti_full(#[trigger] c.types@[i]) != ti_full(#[trigger] c.types@[j]) by { assert(type_ok(c, i)); assert(type_ok(c, j)); }
}
/// In a sound message, a name leads to a field of that name, and a oneof reference to the oneof at that place.
pub proof fn lemma_message_lookups(m: MessageInfo)
    requires msg_wf(m), m.oneofs@.len() <= usize::MAX,
    ensures
        forall|s: Seq<char>| #[trigger] field_named(m, s) matches Some(f) ==> f.name@ == s && m.fields@.dom().contains(f.number) && m.fields@[f.number] == f,
        forall|s: Seq<char>| #[trigger] field_named(m, s) is None ==> forall|n: u64| m.fields@.dom().contains(n) ==> m.fields@[n].name@ != s,
        msg_unique(m) ==> forall|n: u64| #[trigger] m.fields@.dom().contains(n) ==> field_named(m, m.fields@[n].name@) == Some(m.fields@[n]),
        forall|o: OneofRef, r: Option<&Oneof>| #[trigger] oneof_found(m.oneofs@, m.oneofs@.len() as int, o, r) ==> (match r { Some(x) => is_oneof(m, o) && *x == m.oneofs@[o.0.0 as int], None => !is_oneof(m, o) }),
{
    assert forall|o: OneofRef, r: Option<&Oneof>| #[trigger] oneof_found(m.oneofs@, m.oneofs@.len() as int, o, r) implies (match r { Some(x) => is_oneof(m, o) && *x == m.oneofs@[o.0.0 as int], None => !is_oneof(m, o) }) by {
        match r {
            Some(x) => { let i = choose|i: int| 0 <= i < m.oneofs@.len() && m.oneofs@[i] == *x; assert(m.oneofs@[i].self_ref == OneofRef(InternalRef(i as usize))); }
            None => { if is_oneof(m, o) { let i = o.0.0 as int; assert(m.oneofs@[i].self_ref == OneofRef(InternalRef(i as usize))); } }
        }
    }
}
