// ---- the declarations of parsed files
/// A declared type or service: its kind, its full name, and where it is (package, item, inner types).
pub struct Decl { pub kind: ItemType, pub full: Seq<char>, pub idx: Seq<usize> }
pub open spec fn in_scope(scope: Option<Seq<char>>, name: Seq<char>) -> Seq<char> { match scope { Some(s) => join(s, name), None => name } }
/// The scope some name parts make up.
pub open spec fn scope_of(parts: Seq<Seq<char>>) -> Option<Seq<char>> { if parts.len() == 0 { None } else { Some(joined_by(parts, seq!['.'])) } }
pub open spec fn inner_name(t: InnerTypeBuilder) -> Seq<char> { match t { InnerTypeBuilder::Message(m) => m.name@, InnerTypeBuilder::Enum(e) => e.name@ } }
pub open spec fn inner_kind(t: InnerTypeBuilder) -> ItemType { match t { InnerTypeBuilder::Message(_) => ItemType::Message, InnerTypeBuilder::Enum(_) => ItemType::Enum } }

/// A type and the types inside it, outermost first.
pub open spec fn tree(t: InnerTypeBuilder, scope: Option<Seq<char>>, idx: Seq<usize>) -> Seq<Decl>
    decreases t, 0nat,
{
    let full = in_scope(scope, inner_name(t));
    let d = seq![Decl { kind: inner_kind(t), full, idx }];
    match t { InnerTypeBuilder::Message(m) => d + trees(m.inner_types, full, idx, m.inner_types@.len()), InnerTypeBuilder::Enum(_) => d }
}
/// The first `n` of the types inside a type.
pub open spec fn trees(v: Vec<InnerTypeBuilder>, full: Seq<char>, idx: Seq<usize>, n: nat) -> Seq<Decl>
    decreases v, n,
{
    if n == 0 || n > v@.len() { Seq::empty() } else { trees(v, full, idx, (n - 1) as nat) + tree(v@[n - 1], Some(full), idx.push((n - 1) as usize)) }
}
pub open spec fn pkg_scope(p: PackageBuilder) -> Option<Seq<char>> { opt_str(p.name) }
pub open spec fn service_decl(s: ServiceBuilder, scope: Option<Seq<char>>, idx: Seq<usize>) -> Decl { Decl { kind: ItemType::Service, full: in_scope(scope, s.name@), idx } }
/// The types among the first `n` items of a package.
pub open spec fn pkg_types(p: PackageBuilder, i: int, n: nat) -> Seq<Decl>
    decreases n,
{
    if n == 0 || n > p.types@.len() { Seq::empty() } else {
        pkg_types(p, i, (n - 1) as nat) + match p.types@[n - 1] {
            ProtobufItemBuilder::Type(t) => tree(as_inner(t), pkg_scope(p), seq![i as usize, (n - 1) as usize]),
            ProtobufItemBuilder::Service(_) => Seq::empty(),
        }
    }
}
/// The services among the first `n` items of a package.
pub open spec fn pkg_services(p: PackageBuilder, i: int, n: nat) -> Seq<Decl>
    decreases n,
{
    if n == 0 || n > p.types@.len() { Seq::empty() } else {
        pkg_services(p, i, (n - 1) as nat) + match p.types@[n - 1] {
            ProtobufItemBuilder::Type(t) => Seq::empty(),
            ProtobufItemBuilder::Service(s) => seq![service_decl(s, pkg_scope(p), seq![i as usize, (n - 1) as usize])],
        }
    }
}
/// The types of the first `n` packages.
pub open spec fn all_types(ps: Seq<PackageBuilder>, n: nat) -> Seq<Decl>
    decreases n,
{
    if n == 0 || n > ps.len() { Seq::empty() } else { all_types(ps, (n - 1) as nat) + pkg_types(ps[n - 1], n - 1, ps[n - 1].types@.len()) }
}
pub open spec fn all_services(ps: Seq<PackageBuilder>, n: nat) -> Seq<Decl>
    decreases n,
{
    if n == 0 || n > ps.len() { Seq::empty() } else { all_services(ps, (n - 1) as nat) + pkg_services(ps[n - 1], n - 1, ps[n - 1].types@.len()) }
}
pub open spec fn types_in(ps: Seq<PackageBuilder>) -> Seq<Decl> { all_types(ps, ps.len()) }
pub open spec fn services_in(ps: Seq<PackageBuilder>) -> Seq<Decl> { all_services(ps, ps.len()) }
pub open spec fn declared(ds: Seq<Decl>, n: Seq<char>) -> bool { exists|k: int| 0 <= k < ds.len() && (#[trigger] ds[k]).full == n }
/// Two declarations have this full name.
pub open spec fn declared_twice(ds: Seq<Decl>, n: Seq<char>) -> bool { exists|i: int, j: int| 0 <= i < j < ds.len() && #[trigger] ds[i].full == n && #[trigger] ds[j].full == n }

// ---- names and what they refer to
pub type Env = Map<Seq<char>, (ItemType, usize)>;
/// The environment of some declarations with distinct names: each name leads to its declaration.
pub open spec fn is_env(env: Env, ts: Seq<Decl>, ss: Seq<Decl>) -> bool {
    &&& forall|k: int| 0 <= k < ts.len() ==> env.dom().contains((#[trigger] ts[k]).full) && env[ts[k].full] == (ts[k].kind, k as usize) && k <= usize::MAX && !(ts[k].kind is Service)
    &&& forall|k: int| 0 <= k < ss.len() ==> env.dom().contains((#[trigger] ss[k]).full) && env[ss[k].full] == (ItemType::Service, k as usize) && k <= usize::MAX
    &&& forall|n: Seq<char>| #[trigger] env.dom().contains(n) ==> if env[n].0 is Service { env[n].1 < ss.len() && ss[env[n].1 as int].full == n } else { env[n].1 < ts.len() && ts[env[n].1 as int].full == n && ts[env[n].1 as int].kind == env[n].0 }
}
/// The scope around a scope: everything before the last dot.
pub open spec fn outer(cur: Seq<char>) -> Seq<char> { match last_pos(cur, '.') { Some(k) => cur.take(k), None => Seq::empty() } }
/// The full name a relative name stands for in the scope `cur`: the first that is declared, from the scope itself outwards to the root.
pub open spec fn walk(names: Set<Seq<char>>, rel: Seq<char>, cur: Seq<char>) -> Option<Seq<char>>
    decreases cur.len(),
{
    let n = if cur.len() == 0 { rel } else { join(cur, rel) };
    if names.contains(n) { Some(n) } else if cur.len() == 0 || outer(cur).len() >= cur.len() { None } else { walk(names, rel, outer(cur)) }
}
pub open spec fn scope_find(names: Set<Seq<char>>, rel: Seq<char>, cur: Seq<char>) -> Option<Seq<char>> {
    if rel.len() > 0 && rel[0] == '.' { if names.contains(rel.skip(1)) { Some(rel.skip(1)) } else { None } } else { walk(names, rel, cur) }
}
pub open spec fn resolve(env: Env, rel: Seq<char>, cur: Seq<char>) -> Option<(ItemType, usize)> {
    match scope_find(env.dom(), rel, cur) { Some(n) => Some(env[n]), None => None }
}

// ---- the cache the builder works with
pub open spec fn decls_of(v: Seq<CacheData>) -> Seq<Decl> { Seq::new(v.len(), |k: int| Decl { kind: v[k].item_type, full: v[k].full_name@, idx: v[k].idx_path@ }) }
pub open spec fn cts(c: BuildCache) -> Seq<Decl> { decls_of(c.types@) }
pub open spec fn css(c: BuildCache) -> Seq<Decl> { decls_of(c.services@) }
pub open spec fn cache_ok(c: BuildCache) -> bool {
    &&& is_env(c.items@, cts(c), css(c))
    &&& forall|k: int| 0 <= k < css(c).len() ==> (#[trigger] css(c)[k]).kind is Service
    &&& forall|k: int| 0 <= k < c.types@.len() ==> (#[trigger] c.types@[k]).final_idx == k
    &&& forall|k: int| 0 <= k < c.services@.len() ==> (#[trigger] c.services@[k]).final_idx == k
    &&& forall|k: int| 0 <= k < c.types@.len() && #[trigger] c.types@[k].item_type is Message ==> c.items_by_idx@.dom().contains(c.types@[k].idx_path@) && c.items_by_idx@[c.types@[k].idx_path@] == (ItemType::Message, k as usize)
    &&& forall|q: Seq<usize>| #[trigger] c.items_by_idx@.dom().contains(q) ==> c.items_by_idx@[q].0 is Message && c.items_by_idx@[q].1 < c.types@.len() && c.types@[c.items_by_idx@[q].1 as int].idx_path@ == q && c.types@[c.items_by_idx@[q].1 as int].item_type is Message
}
/// `p` is a prefix of `q`.
pub open spec fn pre(p: Seq<usize>, q: Seq<usize>) -> bool { p.len() <= q.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == q[i] }
/// Nothing below `p` is in the cache.
pub open spec fn none_below(c: BuildCache, p: Seq<usize>) -> bool { forall|q: Seq<usize>| #[trigger] c.items_by_idx@.dom().contains(q) ==> !pre(p, q) }
/// What is in `c2` and not in `c` is below `p`.
pub open spec fn only_below(c: BuildCache, c2: BuildCache, p: Seq<usize>) -> bool { forall|q: Seq<usize>| #[trigger] c2.items_by_idx@.dom().contains(q) ==> c.items_by_idx@.dom().contains(q) || pre(p, q) }
/// `n` is declared twice, counting what the cache has.
pub open spec fn clash(c: BuildCache, ds: Seq<Decl>, n: Seq<char>) -> bool { (c.items@.dom().contains(n) && declared(ds, n)) || declared_twice(ds, n) }
/// What entering the declarations `ds` of types and `es` of services does.
pub open spec fn entered(c: BuildCache, c2: BuildCache, ds: Seq<Decl>, es: Seq<Decl>) -> bool {
    cache_ok(c2) && cts(c2) == cts(c) + ds && css(c2) == css(c) + es
}
pub open spec fn dup_err(c: BuildCache, ds: Seq<Decl>, e: ParseError) -> bool { e matches ParseError::DuplicateType { name } && clash(c, ds, name@) }

pub proof fn lemma_join_parts(parts: Seq<Seq<char>>, n: Seq<char>)
    ensures joined_by(parts.push(n), seq!['.']) == in_scope(scope_of(parts), n),
{
    assert(parts.push(n).drop_last() =~= parts);
    assert(parts.push(n).last() == n);
    if parts.len() == 0 { assert(parts.push(n)[0] == n); }
    assert(parts.push(n) =~= seq![n] || parts.len() > 0);
}
pub proof fn lemma_texts_push(v: Seq<&str>, s: &str)
    ensures texts(v.push(s)) == texts(v).push(s@),
{ assert(texts(v.push(s)) =~= texts(v).push(s@)); }
pub proof fn lemma_texts_to(v: Seq<&str>, s: Seq<char>)
    ensures forall|x: &str| x@ == s ==> #[trigger] texts(v.push(x)) == texts(v).push(s), forall|x: &str| #[trigger] v.push(x).drop_last() == v,
{
    assert forall|x: &str| x@ == s implies #[trigger] texts(v.push(x)) == texts(v).push(s) by { lemma_texts_push(v, x); }
    assert forall|x: &str| #[trigger] v.push(x).drop_last() == v by { assert(v.push(x).drop_last() =~= v); }
}
/// Entering one declaration with a new name.
pub proof fn lemma_enter_type(c: BuildCache, c2: BuildCache, d: Decl, cd: CacheData)
    requires
        cache_ok(c),
        !c.items@.dom().contains(d.full),
        !(d.kind is Service),
        c.types@.len() < usize::MAX,
        cd.item_type == d.kind, cd.full_name@ == d.full, cd.idx_path@ == d.idx, cd.final_idx == c.types@.len(),
        c2.types@ == c.types@.push(cd),
        c2.services@ == c.services@,
        c2.items@ == c.items@.insert(d.full, (d.kind, c.types@.len() as usize)),
        d.kind is Message ==> !c.items_by_idx@.dom().contains(d.idx),
        c2.items_by_idx@ == (if d.kind is Message { c.items_by_idx@.insert(d.idx, (ItemType::Message, c.types@.len() as usize)) } else { c.items_by_idx@ }),
    ensures
        entered(c, c2, seq![d], Seq::empty()),
{
    assert(cts(c2) =~= cts(c) + seq![d]);
    assert(css(c2) =~= css(c) + Seq::<Decl>::empty());
    let n = c.types@.len() as int;
    assert forall|k: int| 0 <= k < cts(c2).len() implies c2.items@.dom().contains((#[trigger] cts(c2)[k]).full) && c2.items@[cts(c2)[k].full] == (cts(c2)[k].kind, k as usize) && k <= usize::MAX && !(cts(c2)[k].kind is Service) by {
        if k < n { assert(cts(c2)[k] == cts(c)[k]); }
    }
    assert forall|k: int| 0 <= k < css(c2).len() implies c2.items@.dom().contains((#[trigger] css(c2)[k]).full) && c2.items@[css(c2)[k].full] == (ItemType::Service, k as usize) && k <= usize::MAX by { assert(css(c2)[k] == css(c)[k]); }
    assert forall|s: Seq<char>| #[trigger] c2.items@.dom().contains(s) implies if c2.items@[s].0 is Service { c2.items@[s].1 < css(c2).len() && css(c2)[c2.items@[s].1 as int].full == s } else { c2.items@[s].1 < cts(c2).len() && cts(c2)[c2.items@[s].1 as int].full == s && cts(c2)[c2.items@[s].1 as int].kind == c2.items@[s].0 } by {
        if s != d.full { assert(c.items@.dom().contains(s)); }
    }
    assert forall|k: int| 0 <= k < c2.types@.len() && #[trigger] c2.types@[k].item_type is Message implies c2.items_by_idx@.dom().contains(c2.types@[k].idx_path@) && c2.items_by_idx@[c2.types@[k].idx_path@] == (ItemType::Message, k as usize) by {
        if k < n { assert(c2.types@[k] == c.types@[k]); assert(c.types@[k].item_type is Message); }
    }
    assert forall|q: Seq<usize>| #[trigger] c2.items_by_idx@.dom().contains(q) implies c2.items_by_idx@[q].0 is Message && c2.items_by_idx@[q].1 < c2.types@.len() && c2.types@[c2.items_by_idx@[q].1 as int].idx_path@ == q && c2.types@[c2.items_by_idx@[q].1 as int].item_type is Message by {
        if !(d.kind is Message) || q != d.idx { assert(c.items_by_idx@.dom().contains(q)); }
    }
}
pub proof fn lemma_enter_service(c: BuildCache, c2: BuildCache, d: Decl, cd: CacheData)
    requires
        cache_ok(c),
        !c.items@.dom().contains(d.full),
        d.kind is Service,
        c.services@.len() < usize::MAX,
        cd.item_type == d.kind, cd.full_name@ == d.full, cd.idx_path@ == d.idx, cd.final_idx == c.services@.len(),
        c2.services@ == c.services@.push(cd),
        c2.types@ == c.types@,
        c2.items@ == c.items@.insert(d.full, (d.kind, c.services@.len() as usize)),
        c2.items_by_idx@ == c.items_by_idx@,
    ensures
        entered(c, c2, Seq::empty(), seq![d]),
{
    assert(css(c2) =~= css(c) + seq![d]);
    assert(cts(c2) =~= cts(c) + Seq::<Decl>::empty());
    let n = c.services@.len() as int;
    assert forall|k: int| 0 <= k < css(c2).len() implies c2.items@.dom().contains((#[trigger] css(c2)[k]).full) && c2.items@[css(c2)[k].full] == (ItemType::Service, k as usize) && k <= usize::MAX by {
        if k < n { assert(css(c2)[k] == css(c)[k]); }
    }
    assert forall|k: int| 0 <= k < cts(c2).len() implies c2.items@.dom().contains((#[trigger] cts(c2)[k]).full) && c2.items@[cts(c2)[k].full] == (cts(c2)[k].kind, k as usize) && k <= usize::MAX && !(cts(c2)[k].kind is Service) by { assert(cts(c2)[k] == cts(c)[k]); }
    assert forall|s: Seq<char>| #[trigger] c2.items@.dom().contains(s) implies if c2.items@[s].0 is Service { c2.items@[s].1 < css(c2).len() && css(c2)[c2.items@[s].1 as int].full == s } else { c2.items@[s].1 < cts(c2).len() && cts(c2)[c2.items@[s].1 as int].full == s && cts(c2)[c2.items@[s].1 as int].kind == c2.items@[s].0 } by {
        if s != d.full { assert(c.items@.dom().contains(s)); }
    }
}
/// Entering one list after another.
pub proof fn lemma_enter_both(c: BuildCache, c1: BuildCache, c2: BuildCache, a: Seq<Decl>, b: Seq<Decl>, s: Seq<Decl>, t: Seq<Decl>)
    requires entered(c, c1, a, s), entered(c1, c2, b, t),
    ensures entered(c, c2, a + b, s + t),
{
    assert(cts(c) + a + b =~= cts(c) + (a + b));
    assert(css(c) + s + t =~= css(c) + (s + t));
}
pub proof fn lemma_declared(a: Seq<Decl>, b: Seq<Decl>)
    ensures
        forall|n: Seq<char>| #[trigger] declared(a + b, n) <==> declared(a, n) || declared(b, n),
        forall|n: Seq<char>| #[trigger] declared_twice(a + b, n) <==> declared_twice(a, n) || declared_twice(b, n) || declared(a, n) && declared(b, n),
{
    let ds = a + b;
    assert forall|n: Seq<char>| #[trigger] declared(ds, n) <==> declared(a, n) || declared(b, n) by {
        if declared(a, n) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).full == n; assert(ds[k] == a[k]); }
        if declared(b, n) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).full == n; assert(ds[a.len() + k] == b[k]); }
    }
    assert forall|n: Seq<char>| #[trigger] declared_twice(ds, n) <==> declared_twice(a, n) || declared_twice(b, n) || declared(a, n) && declared(b, n) by {
        if declared_twice(ds, n) {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < ds.len() && #[trigger] ds[i].full == n && #[trigger] ds[j].full == n;
            if i < a.len() { assert(a[i].full == n); } else { assert(b[i - a.len()].full == n); }
            if j < a.len() { assert(a[j].full == n); } else { assert(b[j - a.len()].full == n); }
        }
        if declared_twice(a, n) { let (i, j) = choose|i: int, j: int| 0 <= i < j < a.len() && #[trigger] a[i].full == n && #[trigger] a[j].full == n; assert(ds[i].full == n && ds[j].full == n); }
        if declared_twice(b, n) { let (i, j) = choose|i: int, j: int| 0 <= i < j < b.len() && #[trigger] b[i].full == n && #[trigger] b[j].full == n; assert(ds[a.len() + i].full == n && ds[a.len() + j].full == n); }
        if declared(a, n) && declared(b, n) {
            let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).full == n; assert(ds[k] == a[k]);
            let l = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).full == n; assert(ds[a.len() + l] == b[l]);
        }
    }
}
/// The names in the cache are those declared.
pub proof fn lemma_names(c: BuildCache)
    requires cache_ok(c),
    ensures forall|n: Seq<char>| #[trigger] c.items@.dom().contains(n) <==> declared(cts(c), n) || declared(css(c), n),
{
    assert forall|n: Seq<char>| #[trigger] c.items@.dom().contains(n) <==> declared(cts(c), n) || declared(css(c), n) by {
        if c.items@.dom().contains(n) { let k = c.items@[n].1 as int; if c.items@[n].0 is Service { assert(css(c)[k].full == n); } else { assert(cts(c)[k].full == n); } }
    }
}
/// A clash in a part is a clash in the whole.
pub proof fn lemma_clash_grow(c: BuildCache, c1: BuildCache, a: Seq<Decl>, s: Seq<Decl>, b: Seq<Decl>, n: Seq<char>)
    requires cache_ok(c), entered(c, c1, a, s), clash(c1, b, n),
    ensures clash(c, (a + s) + b, n), clash(c, (a + b) + s, n),
{
    lemma_names(c);
    lemma_names(c1);
    lemma_declared(cts(c), a);
    lemma_declared(css(c), s);
    lemma_declared(a, s);
    lemma_declared(a + s, b);
    lemma_declared(a, b);
    lemma_declared(a + b, s);
}
pub proof fn lemma_clash_first(c: BuildCache, ds: Seq<Decl>)
    requires ds.len() > 0,
    ensures c.items@.dom().contains(ds[0].full) ==> clash(c, ds, ds[0].full),
{ assert(declared(ds, ds[0].full)); }
/// `c2` is `c` with the one declaration `d` more.
pub open spec fn one_more(c: BuildCache, c2: BuildCache, d: Decl) -> bool {
    let v = if d.kind is Service { c.services@ } else { c.types@ };
    let w = if d.kind is Service { c2.services@ } else { c2.types@ };
    &&& !c.items@.dom().contains(d.full)
    &&& w.len() == v.len() + 1
    &&& w == v.push(w.last())
    &&& w.last().item_type == d.kind && w.last().full_name@ == d.full && w.last().idx_path@ == d.idx && w.last().final_idx == v.len()
    &&& c2.items@ == c.items@.insert(d.full, (d.kind, v.len() as usize))
    &&& d.kind is Service ==> c2.types@ == c.types@
    &&& !(d.kind is Service) ==> c2.services@ == c.services@
    &&& d.kind is Message ==> !c.items_by_idx@.dom().contains(d.idx)
    &&& c2.items_by_idx@ == (if d.kind is Message { c.items_by_idx@.insert(d.idx, (ItemType::Message, c.types@.len() as usize)) } else { c.items_by_idx@ })
}
pub proof fn lemma_one_more(c: BuildCache, ds: Seq<Decl>)
    requires cache_ok(c), ds.len() == 1,
    ensures
        forall|c2: BuildCache| !(ds[0].kind is Service) && one_more(c, c2, ds[0]) ==> #[trigger] entered(c, c2, ds, Seq::empty()),
        forall|c2: BuildCache| ds[0].kind is Service && one_more(c, c2, ds[0]) ==> #[trigger] entered(c, c2, Seq::empty(), ds),
{
    let d = ds[0];
    assert(ds =~= seq![d]);
    assert forall|c2: BuildCache| !(d.kind is Service) && one_more(c, c2, d) implies #[trigger] entered(c, c2, ds, Seq::empty()) by { assert(c2.types.len() == c2.types@.len()); lemma_enter_type(c, c2, d, c2.types@.last()); }
    assert forall|c2: BuildCache| d.kind is Service && one_more(c, c2, d) implies #[trigger] entered(c, c2, Seq::empty(), ds) by { assert(c2.services.len() == c2.services@.len()); lemma_enter_service(c, c2, d, c2.services@.last()); }
}
/// The first `n` trees inside a type are the beginning of all of them.
pub proof fn lemma_trees_prefix(v: Vec<InnerTypeBuilder>, full: Seq<char>, idx: Seq<usize>, n: nat)
    requires n <= v@.len(),
    ensures exists|rest: Seq<Decl>| trees(v, full, idx, v@.len()) == #[trigger] (trees(v, full, idx, n) + rest),
    decreases v@.len() - n,
{
    if n < v@.len() {
        lemma_trees_prefix(v, full, idx, n + 1);
        let rest = choose|rest: Seq<Decl>| trees(v, full, idx, v@.len()) == #[trigger] (trees(v, full, idx, n + 1) + rest);
        let t = tree(v@[n as int], Some(full), idx.push(n as usize));
        assert(trees(v, full, idx, n) + t + rest =~= trees(v, full, idx, n) + (t + rest));
    } else {
        assert(trees(v, full, idx, n) + Seq::<Decl>::empty() =~= trees(v, full, idx, n));
    }
}
pub proof fn lemma_pre_push(p: Seq<usize>, q: Seq<usize>, a: usize, b: usize)
    requires pre(p.push(a), q),
    ensures pre(p, q), a != b ==> !pre(p.push(b), q),
{
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == q[i] by { assert(p.push(a)[i] == p[i]); }
    if a != b { assert(p.push(a)[p.len() as int] == a); assert(p.push(b)[p.len() as int] == b); }
}
/// What is known while the types inside a message are entered.
pub open spec fn entering(c0: BuildCache, c: BuildCache, m: MessageBuilder, scope: Option<Seq<char>>, idx: Seq<usize>, n: nat) -> bool {
    let full = in_scope(scope, m.name@);
    &&& entered(c0, c, seq![Decl { kind: ItemType::Message, full, idx }] + trees(m.inner_types, full, idx, n), Seq::empty())
    &&& only_below(c0, c, idx)
    &&& forall|q: Seq<usize>, j: usize| #[trigger] c.items_by_idx@.dom().contains(q) && n <= j ==> !#[trigger] pre(idx.push(j), q)
}
pub proof fn lemma_entering_first(c0: BuildCache, m: MessageBuilder, scope: Option<Seq<char>>, idx: Seq<usize>)
    requires cache_ok(c0), none_below(c0, idx),
    ensures
        !c0.items_by_idx@.dom().contains(idx),
        forall|c2: BuildCache| one_more(c0, c2, tree(InnerTypeBuilder::Message(m), scope, idx)[0]) ==> #[trigger] entering(c0, c2, m, scope, idx, 0),
{
    let d = tree(InnerTypeBuilder::Message(m), scope, idx)[0];
    assert(pre(idx, idx));
    lemma_one_more(c0, seq![d]);
    assert forall|c2: BuildCache| one_more(c0, c2, d) implies #[trigger] entering(c0, c2, m, scope, idx, 0) by {
        assert(entered(c0, c2, seq![d], Seq::empty()));
        assert(seq![d] + trees(m.inner_types, d.full, idx, 0) =~= seq![d]);
        assert forall|q: Seq<usize>, j: usize| #[trigger] c2.items_by_idx@.dom().contains(q) && 0 <= j implies !#[trigger] pre(idx.push(j), q) by {
            if pre(idx.push(j), q) { lemma_pre_push(idx, q, j, j); }
        }
    }
}
pub proof fn lemma_entering_step(c0: BuildCache, c: BuildCache, m: MessageBuilder, scope: Option<Seq<char>>, idx: Seq<usize>, n: nat)
    requires
        cache_ok(c0), entering(c0, c, m, scope, idx, n), n < m.inner_types@.len(), n < usize::MAX,
    ensures
        none_below(c, idx.push(n as usize)),
        forall|c2: BuildCache, n1: nat| n1 == n + 1 && entered(c, c2, tree(m.inner_types@[n as int], Some(in_scope(scope, m.name@)), idx.push(n as usize)), Seq::empty()) && only_below(c, c2, idx.push(n as usize)) ==> #[trigger] entering(c0, c2, m, scope, idx, n1),
        forall|e: ParseError| #[trigger] dup_err(c, tree(m.inner_types@[n as int], Some(in_scope(scope, m.name@)), idx.push(n as usize)), e) ==> dup_err(c0, tree(InnerTypeBuilder::Message(m), scope, idx), e),
{
    let full = in_scope(scope, m.name@);
    let d = seq![Decl { kind: ItemType::Message, full, idx }];
    let t = tree(m.inner_types@[n as int], Some(full), idx.push(n as usize));
    let ts = trees(m.inner_types, full, idx, n);
    assert(trees(m.inner_types, full, idx, n + 1) == ts + t);
    assert(d + ts + t =~= d + (ts + t));
    assert forall|c2: BuildCache, n1: nat| n1 == n + 1 && entered(c, c2, t, Seq::empty()) && only_below(c, c2, idx.push(n as usize)) implies #[trigger] entering(c0, c2, m, scope, idx, n1) by {
        lemma_enter_both(c0, c, c2, d + ts, t, Seq::empty(), Seq::empty()); assert(Seq::<Decl>::empty() + Seq::<Decl>::empty() =~= Seq::empty());
        assert forall|q: Seq<usize>| #[trigger] c2.items_by_idx@.dom().contains(q) implies c0.items_by_idx@.dom().contains(q) || pre(idx, q) by {
            if !c.items_by_idx@.dom().contains(q) { lemma_pre_push(idx, q, n as usize, n as usize); }
        }
        assert forall|q: Seq<usize>, j: usize| #[trigger] c2.items_by_idx@.dom().contains(q) && n + 1 <= j implies !#[trigger] pre(idx.push(j), q) by {
            if !c.items_by_idx@.dom().contains(q) { lemma_pre_push(idx, q, n as usize, j); }
        }
    }
    lemma_trees_prefix(m.inner_types, full, idx, n + 1);
    let rest = choose|rest: Seq<Decl>| trees(m.inner_types, full, idx, m.inner_types@.len()) == #[trigger] (trees(m.inner_types, full, idx, n + 1) + rest);
    assert(d + (ts + t + rest) =~= d + ts + t + rest);
    assert forall|e: ParseError| #[trigger] dup_err(c, t, e) implies dup_err(c0, tree(InnerTypeBuilder::Message(m), scope, idx), e) by {
        lemma_clash_grow(c0, c, d + ts, Seq::empty(), t, e->DuplicateType_name@); assert((d + ts + Seq::<Decl>::empty()) + t =~= d + ts + t); lemma_declared(d + ts + t, rest);
    }
}
// ---- entering packages
pub open spec fn entering_pkg(c0: BuildCache, c: BuildCache, p: PackageBuilder, i: int, n: nat) -> bool {
    &&& entered(c0, c, pkg_types(p, i, n), pkg_services(p, i, n))
    &&& only_below(c0, c, seq![i as usize])
    &&& forall|q: Seq<usize>, j: usize| #[trigger] c.items_by_idx@.dom().contains(q) && n <= j ==> !#[trigger] pre(seq![i as usize].push(j), q)
}
pub open spec fn pkg_names(p: PackageBuilder, i: int, n: nat) -> Seq<Decl> { pkg_types(p, i, n) + pkg_services(p, i, n) }
pub proof fn lemma_pkg_clash(c: BuildCache, p: PackageBuilder, i: int, n: nat)
    requires n <= p.types@.len(),
    ensures forall|x: Seq<char>| #[trigger] clash(c, pkg_names(p, i, n), x) ==> clash(c, pkg_names(p, i, p.types@.len()), x),
    decreases p.types@.len() - n,
{
    if n < p.types@.len() {
        lemma_pkg_clash(c, p, i, n + 1);
        lemma_declared(pkg_types(p, i, n), pkg_services(p, i, n));
        lemma_declared(pkg_types(p, i, n + 1), pkg_services(p, i, n + 1));
        match p.types@[n as int] {
            ProtobufItemBuilder::Type(t) => { lemma_declared(pkg_types(p, i, n), tree(as_inner(t), pkg_scope(p), seq![i as usize, n as usize])); assert(pkg_services(p, i, n) + Seq::<Decl>::empty() =~= pkg_services(p, i, n)); }
            ProtobufItemBuilder::Service(s) => { lemma_declared(pkg_services(p, i, n), seq![service_decl(s, pkg_scope(p), seq![i as usize, n as usize])]); assert(pkg_types(p, i, n) + Seq::<Decl>::empty() =~= pkg_types(p, i, n)); }
        }
        assert forall|x: Seq<char>| #[trigger] clash(c, pkg_names(p, i, n), x) implies clash(c, pkg_names(p, i, p.types@.len()), x) by { assert(clash(c, pkg_names(p, i, n + 1), x)); }
    }
}
pub proof fn lemma_entering_pkg_first(c0: BuildCache, p: PackageBuilder, i: int)
    requires cache_ok(c0), none_below(c0, seq![i as usize]),
    ensures entering_pkg(c0, c0, p, i, 0),
{
    assert(cts(c0) + pkg_types(p, i, 0) =~= cts(c0));
    assert(css(c0) + pkg_services(p, i, 0) =~= css(c0));
    assert forall|q: Seq<usize>, j: usize| #[trigger] c0.items_by_idx@.dom().contains(q) && 0 <= j implies !#[trigger] pre(seq![i as usize].push(j), q) by {
        if pre(seq![i as usize].push(j), q) { lemma_pre_push(seq![i as usize], q, j, j); }
    }
}
/// What entering the `n`th item of a package does.
pub open spec fn item_entered(c: BuildCache, c2: BuildCache, p: PackageBuilder, i: int, n: nat) -> bool {
    let idx = seq![i as usize, n as usize];
    &&& only_below(c, c2, idx)
    &&& match p.types@[n as int] {
        ProtobufItemBuilder::Type(t) => entered(c, c2, tree(as_inner(t), pkg_scope(p), idx), Seq::empty()),
        ProtobufItemBuilder::Service(s) => entered(c, c2, Seq::empty(), seq![service_decl(s, pkg_scope(p), idx)]),
    }
}
pub open spec fn item_names(p: PackageBuilder, i: int, n: nat) -> Seq<Decl> {
    let idx = seq![i as usize, n as usize];
    match p.types@[n as int] {
        ProtobufItemBuilder::Type(t) => tree(as_inner(t), pkg_scope(p), idx),
        ProtobufItemBuilder::Service(s) => seq![service_decl(s, pkg_scope(p), idx)],
    }
}
pub proof fn lemma_entering_pkg_step(c0: BuildCache, c: BuildCache, p: PackageBuilder, i: int, n: nat)
    requires cache_ok(c0), entering_pkg(c0, c, p, i, n), n < p.types@.len(), n < usize::MAX,
    ensures
        none_below(c, seq![i as usize, n as usize]),
        p.types@[n as int] matches ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(m)) ==> item_names(p, i, n) == tree(InnerTypeBuilder::Message(m), pkg_scope(p), seq![i as usize, n as usize]),
        p.types@[n as int] matches ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(m)) ==> item_names(p, i, n) == tree(InnerTypeBuilder::Enum(m), pkg_scope(p), seq![i as usize, n as usize]),
        p.types@[n as int] matches ProtobufItemBuilder::Service(s) ==> item_names(p, i, n) == seq![service_decl(s, pkg_scope(p), seq![i as usize, n as usize])],
        forall|c2: BuildCache, n1: nat| n1 == n + 1 && item_entered(c, c2, p, i, n) ==> #[trigger] entering_pkg(c0, c2, p, i, n1),
        forall|e: ParseError| #[trigger] dup_err(c, item_names(p, i, n), e) ==> dup_err(c0, pkg_names(p, i, p.types@.len()), e),
{
    let idx = seq![i as usize, n as usize];
    assert(seq![i as usize].push(n as usize) =~= idx);
    assert forall|c2: BuildCache, n1: nat| n1 == n + 1 && item_entered(c, c2, p, i, n) implies #[trigger] entering_pkg(c0, c2, p, i, n1) by {
        match p.types@[n as int] {
            ProtobufItemBuilder::Type(t) => { lemma_enter_both(c0, c, c2, pkg_types(p, i, n), tree(as_inner(t), pkg_scope(p), idx), pkg_services(p, i, n), Seq::empty()); }
            ProtobufItemBuilder::Service(s) => { lemma_enter_both(c0, c, c2, pkg_types(p, i, n), Seq::empty(), pkg_services(p, i, n), seq![service_decl(s, pkg_scope(p), idx)]); }
        }
        assert forall|q: Seq<usize>| #[trigger] c2.items_by_idx@.dom().contains(q) implies c0.items_by_idx@.dom().contains(q) || pre(seq![i as usize], q) by {
            if !c.items_by_idx@.dom().contains(q) { lemma_pre_push(seq![i as usize], q, n as usize, n as usize); }
        }
        assert forall|q: Seq<usize>, j: usize| #[trigger] c2.items_by_idx@.dom().contains(q) && n + 1 <= j implies !#[trigger] pre(seq![i as usize].push(j), q) by {
            if !c.items_by_idx@.dom().contains(q) { lemma_pre_push(seq![i as usize], q, n as usize, j); }
        }
    }
    assert forall|e: ParseError| #[trigger] dup_err(c, item_names(p, i, n), e) implies dup_err(c0, pkg_names(p, i, p.types@.len()), e) by {
        let x = e->DuplicateType_name@;
        lemma_clash_grow(c0, c, pkg_types(p, i, n), pkg_services(p, i, n), item_names(p, i, n), x);
        match p.types@[n as int] {
            ProtobufItemBuilder::Type(t) => { assert(pkg_services(p, i, n) + Seq::<Decl>::empty() =~= pkg_services(p, i, n)); assert(pkg_names(p, i, n + 1) == pkg_types(p, i, n) + item_names(p, i, n) + pkg_services(p, i, n)); }
            ProtobufItemBuilder::Service(s) => { assert(pkg_types(p, i, n) + Seq::<Decl>::empty() =~= pkg_types(p, i, n)); assert(pkg_names(p, i, n + 1) =~= pkg_types(p, i, n) + pkg_services(p, i, n) + item_names(p, i, n)); }
        }
        lemma_pkg_clash(c0, p, i, n + 1);
    }
}
pub proof fn lemma_scope_of_name(n: String)
    ensures forall|v: Seq<&str>| v.len() > 0 && #[trigger] joined_by(texts(v), seq!['.']) == n@ ==> scope_of(texts(v)) == Some(n@),
{}
pub open spec fn strs(v: Vec<&str>) -> Seq<&str> { v@ }

// ---- finding things in the cache
pub open spec fn data_at(c: BuildCache, e: (ItemType, usize)) -> CacheData { if e.0 is Service { c.services@[e.1 as int] } else { c.types@[e.1 as int] } }
pub open spec fn found(c: BuildCache, e: Option<(ItemType, usize)>, r: Option<&CacheData>) -> bool {
    match e { Some(e) => r is Some && *r->0 == data_at(c, e) && data_at(c, e).item_type == e.0 && data_at(c, e).final_idx == e.1, None => r is None }
}
pub open spec fn at<K>(m: Map<K, (ItemType, usize)>, k: K) -> Option<(ItemType, usize)> { if m.dom().contains(k) { Some(m[k]) } else { None } }
pub proof fn lemma_data_at(c: BuildCache)
    requires cache_ok(c),
    ensures
        forall|n: Seq<char>| #[trigger] c.items@.dom().contains(n) ==> data_at(c, c.items@[n]).item_type == c.items@[n].0 && data_at(c, c.items@[n]).final_idx == c.items@[n].1 && data_at(c, c.items@[n]).full_name@ == n,
{
    assert forall|n: Seq<char>| #[trigger] c.items@.dom().contains(n) implies data_at(c, c.items@[n]).item_type == c.items@[n].0 && data_at(c, c.items@[n]).final_idx == c.items@[n].1 && data_at(c, c.items@[n]).full_name@ == n by {
        let k = c.items@[n].1 as int;
        if c.items@[n].0 is Service { assert(css(c)[k].full == n); assert(c.items@[css(c)[k].full] == (ItemType::Service, k as usize)); assert(css(c)[k].kind == c.services@[k].item_type); }
        else { assert(cts(c)[k].full == n); }
    }
}
pub proof fn lemma_last_pos(s: Seq<char>, c: char)
    ensures match last_pos(s, c) { Some(k) => 0 <= k < s.len(), None => true },
    decreases s.len(),
{
    if s.len() > 0 { lemma_last_pos(s.drop_last(), c); }
}

// ---- fields
pub open spec fn packed_opt(s: Seq<ProtoOption>) -> Option<Constant>
    decreases s.len(),
{
    if s.len() == 0 { None } else if s[0].name@ == "packed"@ { Some(s[0].value) } else { packed_opt(s.drop_first()) }
}
pub open spec fn numeric_or_bool(t: FieldTypeBuilder) -> bool {
    match t { FieldTypeBuilder::Builtin(ValueType::String) | FieldTypeBuilder::Builtin(ValueType::Bytes) | FieldTypeBuilder::Builtin(ValueType::Message(_)) | FieldTypeBuilder::Builtin(ValueType::Enum(_)) => false, FieldTypeBuilder::Builtin(_) => true, FieldTypeBuilder::Unknown(_) => false }
}
/// The multiplicity of a field.
pub open spec fn mult(m: Multiplicity, t: FieldTypeBuilder, options: Seq<ProtoOption>) -> Multiplicity {
    if m != Multiplicity::Repeated { m }
    else if !numeric_or_bool(t) { Multiplicity::Repeated }
    else { match packed_opt(options) { None => Multiplicity::RepeatedPacked, Some(Constant::Bool(true)) => Multiplicity::RepeatedPacked, Some(_) => Multiplicity::Repeated } }
}
/// The parser names messages and enums by name only.
pub open spec fn ft_is(t: FieldTypeBuilder, env: Env, full: Seq<char>, v: ValueType) -> bool {
    match t {
        FieldTypeBuilder::Builtin(b) => v == b,
        FieldTypeBuilder::Unknown(s) => match resolve(env, s@, full) {
            Some((ItemType::Message, i)) => v == ValueType::Message(MessageRef(InternalRef(i))),
            Some((ItemType::Enum, i)) => v == ValueType::Enum(EnumRef(InternalRef(i))),
            _ => false,
        },
    }
}
pub open spec fn ft_err(t: FieldTypeBuilder, env: Env, full: Seq<char>, e: ParseError) -> bool {
    t matches FieldTypeBuilder::Unknown(s) && match resolve(env, s@, full) {
        None => e matches ParseError::TypeNotFound { name, context } && name@ == s@ && context@ == full,
        Some((ItemType::Service, _)) => e matches ParseError::InvalidTypeKind { type_name, context, expected, actual } && type_name@ == s@ && actual == ItemType::Service,
        _ => false,
    }
}
pub open spec fn field_is(b: FieldBuilder, env: Env, full: Seq<char>, oneof: Option<OneofRef>, f: MessageField) -> bool {
    &&& f.name@ == b.name@
    &&& f.number == b.number
    &&& f.multiplicity == mult(b.multiplicity, b.field_type, b.options@)
    &&& ft_is(b.field_type, env, full, f.field_type)
    &&& f.oneof == oneof
    &&& f.options@ == b.options@
}
pub open spec fn tagged(v: Seq<FieldBuilder>, o: Option<OneofRef>) -> Seq<(FieldBuilder, Option<OneofRef>)> { Seq::new(v.len(), |i: int| (v[i], o)) }
pub open spec fn the_oneof(i: int) -> OneofRef { OneofRef(InternalRef(i as usize)) }
/// The fields of the first `n` oneofs.
pub open spec fn oneof_fields(v: Seq<OneofBuilder>, n: nat) -> Seq<(FieldBuilder, Option<OneofRef>)>
    decreases n,
{
    if n == 0 || n > v.len() { Seq::empty() } else { oneof_fields(v, (n - 1) as nat) + tagged(v[n - 1].fields@, Some(the_oneof(n - 1))) }
}
/// All fields of a message, with the oneofs they are in.
pub open spec fn all_fields(m: MessageBuilder) -> Seq<(FieldBuilder, Option<OneofRef>)> { tagged(m.fields@, None) + oneof_fields(m.oneofs@, m.oneofs@.len()) }
pub open spec fn fields_are(all: Seq<(FieldBuilder, Option<OneofRef>)>, env: Env, full: Seq<char>, fs: Seq<MessageField>) -> bool {
    fs.len() == all.len() && forall|i: int| 0 <= i < fs.len() ==> field_is(all[i].0, env, full, all[i].1, #[trigger] fs[i])
}
pub open spec fn fields_err(all: Seq<(FieldBuilder, Option<OneofRef>)>, env: Env, full: Seq<char>, e: ParseError) -> bool {
    exists|i: int| 0 <= i < all.len() && ft_err((#[trigger] all[i]).0.field_type, env, full, e)
}
/// The fields by number; of those with the same number the last.
pub open spec fn by_number(fs: Seq<MessageField>) -> Map<u64, MessageField>
    decreases fs.len(),
{
    if fs.len() == 0 { Map::empty() } else { by_number(fs.drop_last()).insert(fs.last().number, fs.last()) }
}

// ---- types
pub open spec fn parent_known(c: BuildCache, idx: Seq<usize>) -> bool { idx.len() >= 2 && (idx.len() > 2 ==> c.items_by_idx@.dom().contains(idx.drop_last())) }
pub open spec fn parent_at(c: BuildCache, idx: Seq<usize>) -> TypeParent {
    if idx.len() == 2 { TypeParent::Package(PackageRef(InternalRef(idx[0]))) } else { TypeParent::Message(MessageRef(InternalRef(c.items_by_idx@[idx.drop_last()].1))) }
}
pub open spec fn entry_ref(e: (ItemType, usize)) -> TypeRef { match e.0 { ItemType::Enum => TypeRef::Enum(EnumRef(InternalRef(e.1))), _ => TypeRef::Message(MessageRef(InternalRef(e.1))) } }
/// The types inside a message are in the cache.
pub open spec fn inner_known(c: BuildCache, m: MessageBuilder, full: Seq<char>) -> bool {
    forall|i: int| 0 <= i < m.inner_types@.len() ==> #[trigger] c.items@.dom().contains(join(full, inner_name(m.inner_types@[i]))) && c.items@[join(full, inner_name(m.inner_types@[i]))].0 == inner_kind(m.inner_types@[i])
}
pub open spec fn msg_scalar(m: MessageBuilder) -> bool { forall|i: int| 0 <= i < all_fields(m).len() ==> ft_scalar((#[trigger] all_fields(m)[i]).0.field_type) }
/// Everything about a built message but its place and its inner types.
pub open spec fn msg_body(b: MessageBuilder, env: Env, full: Seq<char>, m: MessageInfo) -> bool {
    &&& m.name@ == b.name@
    &&& m.full_name@ == full
    &&& exists|fs: Seq<MessageField>| fields_are(all_fields(b), env, full, fs) && m.fields@ == #[trigger] by_number(fs)
    &&& m.oneofs@.len() == b.oneofs@.len()
    &&& forall|i: int| 0 <= i < b.oneofs@.len() ==> (#[trigger] m.oneofs@[i]).name@ == b.oneofs@[i].name@ && m.oneofs@[i].options@ == b.oneofs@[i].options@ && m.oneofs@[i].self_ref == the_oneof(i)
    &&& forall|i: int, n: u64| 0 <= i < m.oneofs@.len() ==> (#[trigger] m.oneofs@[i].fields@.contains(n) <==> m.fields@.dom().contains(n) && m.fields@[n].oneof == Some(the_oneof(i)))
    &&& msg_index(m)
}
pub open spec fn msg_is(b: MessageBuilder, d: CacheData, c: BuildCache, m: MessageInfo) -> bool {
    let full = d.full_name@;
    &&& msg_body(b, c.items@, full, m)
    &&& m.parent == parent_at(c, d.idx_path@)
    &&& m.self_ref == MessageRef(InternalRef(d.final_idx))
    &&& m.inner_types@.len() == b.inner_types@.len()
    &&& forall|i: int| 0 <= i < b.inner_types@.len() ==> #[trigger] m.inner_types@[i] == entry_ref(c.items@[join(full, inner_name(b.inner_types@[i]))])
}
pub open spec fn mfs(v: Vec<MessageField>) -> Seq<MessageField> { v@ }
pub open spec fn nums(v: Vec<u64>) -> Seq<u64> { v@ }
pub open spec fn name_map(m: BTreeMap<String, u64>) -> Map<Seq<char>, u64> { m@ }
pub open spec fn no_err(e: Option<ParseError>) -> bool { e is None }
pub proof fn lemma_oneof_fields(v: Seq<OneofBuilder>, n: nat, k: int)
    requires 0 <= k < n <= v.len(),
    ensures
        oneof_fields(v, k as nat).len() + v[k].fields@.len() <= oneof_fields(v, n).len(),
        forall|i: int| 0 <= i < v[k].fields@.len() ==> oneof_fields(v, n)[oneof_fields(v, k as nat).len() + i] == (#[trigger] v[k].fields@[i], Some(the_oneof(k))),
    decreases n,
{
    if k < n - 1 { lemma_oneof_fields(v, (n - 1) as nat, k); }
}
pub proof fn lemma_all_fields(m: MessageBuilder, env: Env, full: Seq<char>)
    ensures
        msg_scalar(m) ==> forall|i: int| 0 <= i < m.fields@.len() ==> ft_scalar((#[trigger] m.fields@[i]).field_type),
        msg_scalar(m) ==> forall|k: int, i: int| 0 <= k < m.oneofs@.len() && 0 <= i < m.oneofs@[k].fields@.len() ==> ft_scalar((#[trigger] m.oneofs@[k].fields@[i]).field_type),
        forall|i: int, e: ParseError| 0 <= i < m.fields@.len() && #[trigger] ft_err(m.fields@[i].field_type, env, full, e) ==> fields_err(all_fields(m), env, full, e),
        forall|k: int, i: int, e: ParseError| 0 <= k < m.oneofs@.len() && 0 <= i < m.oneofs@[k].fields@.len() && #[trigger] ft_err(m.oneofs@[k].fields@[i].field_type, env, full, e) ==> fields_err(all_fields(m), env, full, e),
{
    let all = all_fields(m);
    let n = m.oneofs@.len();
    assert forall|i: int| 0 <= i < m.fields@.len() implies all[i].0 == #[trigger] m.fields@[i] by { assert(tagged(m.fields@, None)[i].0 == m.fields@[i]); }
    assert forall|k: int, i: int| 0 <= k < n && 0 <= i < m.oneofs@[k].fields@.len() implies exists|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0 == #[trigger] m.oneofs@[k].fields@[i] by {
        lemma_oneof_fields(m.oneofs@, n, k);
        let j = m.fields@.len() + oneof_fields(m.oneofs@, k as nat).len() + i;
        assert(all[j] == oneof_fields(m.oneofs@, n)[oneof_fields(m.oneofs@, k as nat).len() + i]);
    }
    assert forall|k: int, i: int, e: ParseError| 0 <= k < n && 0 <= i < m.oneofs@[k].fields@.len() && #[trigger] ft_err(m.oneofs@[k].fields@[i].field_type, env, full, e) implies fields_err(all, env, full, e) by {
        let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0 == m.oneofs@[k].fields@[i];
        assert(ft_err(all[j].0.field_type, env, full, e));
    }
    if msg_scalar(m) {
        assert forall|k: int, i: int| 0 <= k < n && 0 <= i < m.oneofs@[k].fields@.len() implies ft_scalar((#[trigger] m.oneofs@[k].fields@[i]).field_type) by {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0 == m.oneofs@[k].fields@[i];
            assert(ft_scalar(all[j].0.field_type));
        }
        assert forall|i: int| 0 <= i < m.fields@.len() implies ft_scalar((#[trigger] m.fields@[i]).field_type) by { assert(ft_scalar(all[i].0.field_type)); }
    }
    assert forall|i: int, e: ParseError| 0 <= i < m.fields@.len() && #[trigger] ft_err(m.fields@[i].field_type, env, full, e) implies fields_err(all, env, full, e) by { assert(ft_err(all[i].0.field_type, env, full, e)); }
}
pub proof fn lemma_by_number(fs: Seq<MessageField>)
    ensures forall|n: u64| #[trigger] by_number(fs).dom().contains(n) ==> by_number(fs)[n].number == n,
    decreases fs.len(),
{
    if fs.len() > 0 { lemma_by_number(fs.drop_last()); }
}
/// The names among the first `k` entries, each with a number that has it.
pub open spec fn names_of(m: Map<Seq<char>, u64>, s: Seq<(&u64, &MessageField)>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> m.dom().contains((#[trigger] s[i]).1.name@)
    &&& forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> exists|i: int| 0 <= i < k && (#[trigger] s[i]).1.name@ == n && *s[i].0 == m[n]
}
/// The numbers among the first `k` entries whose fields are in the oneof.
pub open spec fn nums_of(v: Seq<u64>, s: Seq<(&u64, &MessageField)>, k: int, o: OneofRef) -> bool {
    forall|n: u64| #[trigger] v.contains(n) <==> exists|i: int| 0 <= i < k && *(#[trigger] s[i]).0 == n && s[i].1.oneof == Some(o)
}
pub open spec fn oneofs_of(v: Vec<Oneof>) -> Seq<Oneof> { v@ }
/// The built oneofs mirror the parsed ones, but for the lists of fields.
pub open spec fn heads_are(v: Seq<Oneof>, b: Seq<OneofBuilder>) -> bool {
    v.len() <= b.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).name@ == b[i].name@ && v[i].options@ == b[i].options@ && v[i].self_ref == the_oneof(i)
}
pub proof fn lemma_fmt_join()
    ensures forall|a: Seq<char>, b: Seq<char>| (#[trigger] (Seq::<char>::empty() + a + "."@ + b)) == join(a, b),
{
    reveal_strlit(".");
    assert("."@ =~= seq!['.']);
    assert forall|a: Seq<char>, b: Seq<char>| (#[trigger] (Seq::<char>::empty() + a + "."@ + b)) == join(a, b) by { assert(Seq::<char>::empty() + a =~= a); }
}
pub proof fn lemma_nums_step(s: Seq<(&u64, &MessageField)>, k: int, o: OneofRef)
    requires 0 <= k < s.len(),
    ensures forall|v: Seq<u64>, v2: Seq<u64>, k2: int| #[trigger] nums_of(v, s, k, o) && k2 == k + 1 && (if s[k].1.oneof == Some(o) { v2 == v.push(*s[k].0) } else { v2 == v }) ==> #[trigger] nums_of(v2, s, k2, o),
{
    assert forall|v: Seq<u64>, v2: Seq<u64>, k2: int| #[trigger] nums_of(v, s, k, o) && k2 == k + 1 && (if s[k].1.oneof == Some(o) { v2 == v.push(*s[k].0) } else { v2 == v }) implies #[trigger] nums_of(v2, s, k2, o) by {
        assert forall|n: u64| #[trigger] v2.contains(n) <==> exists|i: int| 0 <= i < k2 && *(#[trigger] s[i]).0 == n && s[i].1.oneof == Some(o) by {
            if v2.contains(n) {
                let i = choose|i: int| 0 <= i < v2.len() && v2[i] == n;
                if i < v.len() { assert(v[i] == n); assert(v.contains(n)); } else { assert(*s[k].0 == n); }
            }
            if exists|i: int| 0 <= i < k2 && *(#[trigger] s[i]).0 == n && s[i].1.oneof == Some(o) {
                let i = choose|i: int| 0 <= i < k2 && *(#[trigger] s[i]).0 == n && s[i].1.oneof == Some(o);
                if i < k { assert(v.contains(n)); let j = choose|j: int| 0 <= j < v.len() && v[j] == n; assert(v2[j] == n); } else { assert(v2[v.len() as int] == n); }
            }
        }
    }
}
pub open spec fn by_value(fs: Seq<EnumField>) -> Map<i64, EnumField>
    decreases fs.len(),
{
    if fs.len() == 0 { Map::empty() } else { by_value(fs.drop_last()).insert(fs.last().value, fs.last()) }
}
pub proof fn lemma_by_value(fs: Seq<EnumField>)
    ensures
        forall|n: i64| #[trigger] by_value(fs).dom().contains(n) ==> by_value(fs)[n].value == n && fs.contains(by_value(fs)[n]),
        forall|i: int| 0 <= i < fs.len() ==> by_value(fs).dom().contains((#[trigger] fs[i]).value),
    decreases fs.len(),
{
    if fs.len() > 0 {
        lemma_by_value(fs.drop_last());
        assert forall|n: i64| #[trigger] by_value(fs).dom().contains(n) implies by_value(fs)[n].value == n && fs.contains(by_value(fs)[n]) by {
            if n == fs.last().value { assert(fs[fs.len() - 1] == by_value(fs)[n]); }
            else {
                assert(by_value(fs.drop_last()).dom().contains(n));
                let i = choose|i: int| 0 <= i < fs.drop_last().len() && fs.drop_last()[i] == by_value(fs)[n];
                assert(fs[i] == by_value(fs)[n]);
            }
        }
        assert forall|i: int| 0 <= i < fs.len() implies by_value(fs).dom().contains((#[trigger] fs[i]).value) by {
            if i < fs.len() - 1 { assert(fs.drop_last()[i] == fs[i]); }
        }
    }
}
pub open spec fn enum_is(b: EnumBuilder, d: CacheData, c: BuildCache, e: EnumInfo) -> bool {
    &&& e.name@ == b.name@
    &&& e.full_name@ == d.full_name@
    &&& e.self_ref == EnumRef(InternalRef(d.final_idx))
    &&& e.parent == parent_at(c, d.idx_path@)
    &&& e.fields_by_value@ == by_value(b.fields@)
    &&& enum_wf(e)
}
/// The names of the first `k` fields, each with a value that it has.
pub open spec fn values_of(m: Map<Seq<char>, i64>, s: Seq<EnumField>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> m.dom().contains((#[trigger] s[i]).name@)
    &&& forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> exists|i: int| 0 <= i < k && (#[trigger] s[i]).name@ == n && s[i].value == m[n]
}
pub open spec fn value_map(m: BTreeMap<String, i64>) -> Map<Seq<char>, i64> { m@ }
pub open spec fn value_fields(m: BTreeMap<i64, EnumField>) -> Map<i64, EnumField> { m@ }

// ---- services
pub open spec fn arg_is(b: RpcArgBuilder, env: Env, full: Seq<char>, a: RpcArg) -> bool {
    a.stream == b.stream && (resolve(env, b.message@, full) matches Some((k, i)) && k is Message && a.message == MessageRef(InternalRef(i)))
}
pub open spec fn arg_err(b: RpcArgBuilder, env: Env, full: Seq<char>, e: ParseError) -> bool {
    match resolve(env, b.message@, full) {
        None => e matches ParseError::TypeNotFound { name, context } && name@ == b.message@ && context@ == full,
        Some((ItemType::Message, _)) => false,
        Some((k, _)) => e matches ParseError::InvalidTypeKind { type_name, context, expected, actual } && type_name@ == b.message@ && actual == k,
    }
}
pub open spec fn rpc_is(b: RpcBuilder, env: Env, full: Seq<char>, r: Rpc) -> bool {
    r.name@ == b.name@ && arg_is(b.input, env, full, r.input) && arg_is(b.output, env, full, r.output) && r.options@ == b.options@
}
pub open spec fn rpc_err(b: RpcBuilder, env: Env, full: Seq<char>, e: ParseError) -> bool { arg_err(b.input, env, full, e) || arg_err(b.output, env, full, e) }
pub open spec fn rpcs_err(b: Seq<RpcBuilder>, env: Env, full: Seq<char>, e: ParseError) -> bool { exists|i: int| 0 <= i < b.len() && rpc_err(#[trigger] b[i], env, full, e) }
pub open spec fn service_is(b: ServiceBuilder, d: CacheData, env: Env, s: Service) -> bool {
    &&& s.name@ == b.name@
    &&& s.full_name@ == d.full_name@
    &&& s.self_ref == ServiceRef(InternalRef(d.final_idx))
    &&& s.parent == PackageRef(InternalRef(d.idx_path@[0]))
    &&& s.rpcs@.len() == b.rpcs@.len()
    &&& forall|i: int| 0 <= i < b.rpcs@.len() ==> rpc_is(b.rpcs@[i], env, d.full_name@, #[trigger] s.rpcs@[i])
    &&& s.options@ == b.options@
    &&& service_wf(s)
}
pub open spec fn rpc_map(m: HashMap<String, usize>) -> Map<Seq<char>, usize> { m@ }
/// The names of the first `k` rpcs, each with the place of one that has it.
pub open spec fn rpcs_of(m: Map<Seq<char>, usize>, s: Seq<Rpc>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> m.dom().contains((#[trigger] s[i]).name@)
    &&& forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> m[n] < k && s[m[n] as int].name@ == n
}
pub open spec fn ti_is(b: ProtobufTypeBuilder, d: CacheData, c: BuildCache, t: TypeInfo) -> bool {
    match b {
        ProtobufTypeBuilder::Message(b) => t matches TypeInfo::Message(m) && msg_is(b, d, c, m),
        ProtobufTypeBuilder::Enum(b) => t matches TypeInfo::Enum(e) && enum_is(b, d, c, e),
    }
}
pub open spec fn ti_pre(b: ProtobufTypeBuilder, d: CacheData, c: BuildCache) -> bool {
    parent_known(c, d.idx_path@) && (b matches ProtobufTypeBuilder::Message(m) ==> msg_scalar(m) && inner_known(c, m, d.full_name@))
}
pub open spec fn ti_err(b: ProtobufTypeBuilder, env: Env, full: Seq<char>, e: ParseError) -> bool { b matches ProtobufTypeBuilder::Message(m) && fields_err(all_fields(m), env, full, e) }

// ---- taking the parsed definitions out
/// The type at a path inside a type.
pub open spec fn inner_node(t: InnerTypeBuilder, q: Seq<usize>) -> Option<InnerTypeBuilder>
    decreases q.len(),
{
    if q.len() == 0 { Some(t) } else { match t { InnerTypeBuilder::Message(m) => if q[0] < m.inner_types@.len() { inner_node(m.inner_types@[q[0] as int], q.drop_first()) } else { None }, InnerTypeBuilder::Enum(_) => None } }
}
pub open spec fn pkg_type_node(p: PackageBuilder, q: Seq<usize>) -> Option<InnerTypeBuilder> {
    if q.len() > 0 && q[0] < p.types@.len() { match p.types@[q[0] as int] { ProtobufItemBuilder::Type(t) => inner_node(as_inner(t), q.drop_first()), ProtobufItemBuilder::Service(_) => None } } else { None }
}
pub open spec fn pkg_service_node(p: PackageBuilder, q: Seq<usize>) -> Option<ServiceBuilder> {
    if q.len() == 1 && q[0] < p.types@.len() { match p.types@[q[0] as int] { ProtobufItemBuilder::Service(s) => Some(s), ProtobufItemBuilder::Type(_) => None } } else { None }
}
pub open spec fn type_node(ps: Seq<PackageBuilder>, q: Seq<usize>) -> Option<InnerTypeBuilder> { if q.len() > 0 && q[0] < ps.len() { pkg_type_node(ps[q[0] as int], q.drop_first()) } else { None } }
pub open spec fn service_node(ps: Seq<PackageBuilder>, q: Seq<usize>) -> Option<ServiceBuilder> { if q.len() > 0 && q[0] < ps.len() { pkg_service_node(ps[q[0] as int], q.drop_first()) } else { None } }
/// The same definition, as far as building needs it.
pub open spec fn same_msg_def(a: MessageBuilder, b: MessageBuilder) -> bool {
    &&& a.name@ == b.name@ && a.fields@ == b.fields@ && a.oneofs@ == b.oneofs@ && a.options@ == b.options@
    &&& a.inner_types@.len() == b.inner_types@.len()
    &&& forall|i: int| 0 <= i < a.inner_types@.len() ==> inner_name(#[trigger] a.inner_types@[i]) == inner_name(b.inner_types@[i]) && inner_kind(a.inner_types@[i]) == inner_kind(b.inner_types@[i])
}
pub open spec fn taken(t: InnerTypeBuilder, r: ProtobufTypeBuilder) -> bool {
    match t {
        InnerTypeBuilder::Message(a) => r matches ProtobufTypeBuilder::Message(b) && same_msg_def(a, b),
        InnerTypeBuilder::Enum(a) => r matches ProtobufTypeBuilder::Enum(b) && a.name@ == b.name@ && a.fields@ == b.fields@ && a.options@ == b.options@,
    }
}
pub open spec fn kept_inner(a: InnerTypeBuilder, b: InnerTypeBuilder, p: Seq<usize>) -> bool { forall|q: Seq<usize>| !#[trigger] pre(q, p) ==> inner_node(b, q) == inner_node(a, q) }
pub open spec fn kept_pkg(a: PackageBuilder, b: PackageBuilder, p: Seq<usize>) -> bool {
    &&& a.name == b.name
    &&& forall|q: Seq<usize>| !#[trigger] pre(q, p) ==> pkg_type_node(b, q) == pkg_type_node(a, q)
    &&& forall|q: Seq<usize>| !#[trigger] pre(q, p) || pkg_type_node(a, p) is Some ==> pkg_service_node(b, q) == pkg_service_node(a, q)
}
pub open spec fn kept(a: Seq<PackageBuilder>, b: Seq<PackageBuilder>, p: Seq<usize>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).name == b[i].name
    &&& forall|q: Seq<usize>| !#[trigger] pre(q, p) ==> type_node(b, q) == type_node(a, q)
    &&& forall|q: Seq<usize>| !#[trigger] pre(q, p) || type_node(a, p) is Some ==> service_node(b, q) == service_node(a, q)
}
pub proof fn lemma_pre_drop(q: Seq<usize>, p: Seq<usize>)
    requires q.len() > 0, p.len() > 0,
    ensures pre(q, p) <==> q[0] == p[0] && pre(q.drop_first(), p.drop_first()),
{
    if q[0] == p[0] && pre(q.drop_first(), p.drop_first()) {
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == p[i] by { if i > 0 { assert(q.drop_first()[i - 1] == p.drop_first()[i - 1]); } }
    }
    if pre(q, p) {
        assert(q[0] == p[0]);
        assert forall|i: int| 0 <= i < q.drop_first().len() implies #[trigger] q.drop_first()[i] == p.drop_first()[i] by { assert(q[i + 1] == p[i + 1]); }
    }
}
pub proof fn lemma_kept_msg_here(a: MessageBuilder)
    ensures forall|b: MessageBuilder| b.inner_types == a.inner_types ==> #[trigger] kept_inner(InnerTypeBuilder::Message(a), InnerTypeBuilder::Message(b), Seq::empty()),
{
    assert forall|b: MessageBuilder| b.inner_types == a.inner_types implies #[trigger] kept_inner(InnerTypeBuilder::Message(a), InnerTypeBuilder::Message(b), Seq::empty()) by {
        assert forall|q: Seq<usize>| !#[trigger] pre(q, Seq::empty()) implies inner_node(InnerTypeBuilder::Message(b), q) == inner_node(InnerTypeBuilder::Message(a), q) by { assert(q.len() > 0); }
    }
}
pub proof fn lemma_kept_msg(a: MessageBuilder, p: Seq<usize>)
    requires p.len() > 0, p[0] < a.inner_types@.len(),
    ensures forall|b: MessageBuilder, t: InnerTypeBuilder| #[trigger] kept_inner(a.inner_types@[p[0] as int], t, p.drop_first()) && b.inner_types@ == a.inner_types@.update(p[0] as int, t) ==> #[trigger] kept_inner(InnerTypeBuilder::Message(a), InnerTypeBuilder::Message(b), p),
{
    assert forall|b: MessageBuilder, t: InnerTypeBuilder| #[trigger] kept_inner(a.inner_types@[p[0] as int], t, p.drop_first()) && b.inner_types@ == a.inner_types@.update(p[0] as int, t) implies #[trigger] kept_inner(InnerTypeBuilder::Message(a), InnerTypeBuilder::Message(b), p) by {
        assert forall|q: Seq<usize>| !#[trigger] pre(q, p) implies inner_node(InnerTypeBuilder::Message(b), q) == inner_node(InnerTypeBuilder::Message(a), q) by {
            assert(q.len() > 0);
            lemma_pre_drop(q, p);
        }
    }
}
pub open spec fn inner_types_of(v: Vec<InnerTypeBuilder>) -> Seq<InnerTypeBuilder> { v@ }
pub proof fn lemma_kept_pkg_type(a: PackageBuilder, p: Seq<usize>)
    requires pkg_type_node(a, p) is Some,
    ensures
        p.len() > 0, p[0] < a.types@.len(), a.types@[p[0] as int] is Type,
        pkg_type_node(a, p) == inner_node(as_inner(a.types@[p[0] as int]->Type_0), p.drop_first()),
        forall|b: PackageBuilder| type_changed(a, b, p) ==> #[trigger] kept_pkg(a, b, p),
{
    assert forall|b: PackageBuilder| type_changed(a, b, p) implies #[trigger] kept_pkg(a, b, p) by {
        assert forall|q: Seq<usize>| !#[trigger] pre(q, p) implies pkg_type_node(b, q) == pkg_type_node(a, q) by { if q.len() > 0 { lemma_pre_drop(q, p); } }
    }
}
/// `b` is `a` with the type its path `p` begins with changed.
pub open spec fn type_changed(a: PackageBuilder, b: PackageBuilder, p: Seq<usize>) -> bool {
    &&& b.name == a.name
    &&& a.types@.len() == b.types@.len()
    &&& forall|i: int| 0 <= i < a.types@.len() && i != p[0] ==> b.types@[i] == #[trigger] a.types@[i]
    &&& a.types@[p[0] as int] is Type && b.types@[p[0] as int] is Type
    &&& kept_inner(as_inner(a.types@[p[0] as int]->Type_0), as_inner(b.types@[p[0] as int]->Type_0), p.drop_first())
}
pub open spec fn service_changed(a: PackageBuilder, b: PackageBuilder, p: Seq<usize>) -> bool {
    &&& b.name == a.name
    &&& a.types@.len() == b.types@.len()
    &&& forall|i: int| 0 <= i < a.types@.len() && i != p[0] ==> b.types@[i] == #[trigger] a.types@[i]
    &&& a.types@[p[0] as int] is Service && b.types@[p[0] as int] is Service
}
pub proof fn lemma_kept_pkg_service(a: PackageBuilder, p: Seq<usize>)
    requires pkg_service_node(a, p) is Some,
    ensures
        p.len() == 1, p[0] < a.types@.len(), a.types@[p[0] as int] is Service, a.types@[p[0] as int]->Service_0 == pkg_service_node(a, p)->0,
        forall|b: PackageBuilder| service_changed(a, b, p) ==> #[trigger] kept_pkg(a, b, p),
{
    assert forall|b: PackageBuilder| service_changed(a, b, p) implies #[trigger] kept_pkg(a, b, p) by {
        assert forall|q: Seq<usize>| !#[trigger] pre(q, p) implies pkg_service_node(b, q) == pkg_service_node(a, q) by { if q.len() == 1 { assert(q[0] != p[0]); } }
    }
}
/// `b` is `a` with the package its path `p` begins with changed.
pub open spec fn pkg_changed(a: Seq<PackageBuilder>, b: Seq<PackageBuilder>, p: Seq<usize>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() && i != p[0] ==> b[i] == #[trigger] a[i]
    &&& kept_pkg(a[p[0] as int], b[p[0] as int], p.drop_first())
}
pub proof fn lemma_kept(a: Seq<PackageBuilder>, p: Seq<usize>)
    requires p.len() > 0, p[0] < a.len(),
    ensures forall|b: Seq<PackageBuilder>| pkg_changed(a, b, p) ==> #[trigger] kept(a, b, p),
{
    assert forall|b: Seq<PackageBuilder>| pkg_changed(a, b, p) implies #[trigger] kept(a, b, p) by {
        assert forall|q: Seq<usize>| !#[trigger] pre(q, p) implies type_node(b, q) == type_node(a, q) by { if q.len() > 0 { lemma_pre_drop(q, p); } }
        assert forall|q: Seq<usize>| !#[trigger] pre(q, p) || type_node(a, p) is Some implies service_node(b, q) == service_node(a, q) by { if q.len() > 0 { lemma_pre_drop(q, p); } }
    }
}

// ---- where the declarations are
pub open spec fn decl_node(ps: Seq<PackageBuilder>, d: Decl) -> bool { d.idx.len() >= 2 && d.idx[0] < ps.len() && (type_node(ps, d.idx) matches Some(t) && inner_kind(t) == d.kind) }
pub open spec fn node_name(ps: Seq<PackageBuilder>, d: Decl) -> Seq<char> { inner_name(type_node(ps, d.idx)->0) }
/// `ds[j]` is the message `ds[k]` is in.
pub open spec fn holds(ps: Seq<PackageBuilder>, ds: Seq<Decl>, j: int, k: int) -> bool { ds[j].idx == ds[k].idx.drop_last() && ds[j].kind is Message && ds[k].full == join(ds[j].full, node_name(ps, ds[k])) }
pub open spec fn has_idx(ds: Seq<Decl>, q: Seq<usize>) -> bool { exists|l: int| 0 <= l < ds.len() && (#[trigger] ds[l]).idx == q }
pub open spec fn inner_count(t: InnerTypeBuilder) -> int { match t { InnerTypeBuilder::Message(m) => m.inner_types@.len() as int, InnerTypeBuilder::Enum(_) => 0 } }
/// `ds` are the types of the items `lo` to `hi` below the path `pp`, whose scope is `scope`.
pub open spec fn good(ps: Seq<PackageBuilder>, ds: Seq<Decl>, pp: Seq<usize>, scope: Option<Seq<char>>, lo: int, hi: int) -> bool {
    &&& good_nodes(ps, ds, pp, lo, hi)
    &&& good_names(ps, ds, pp, scope)
    &&& good_order(ds)
    &&& good_inner(ps, ds)
    &&& good_roots(ps, ds, pp, lo, hi)
}
pub open spec fn good_nodes(ps: Seq<PackageBuilder>, ds: Seq<Decl>, pp: Seq<usize>, lo: int, hi: int) -> bool {
    forall|k: int| 0 <= k < ds.len() ==> decl_node(ps, #[trigger] ds[k]) && ds[k].idx.len() > pp.len() && pre(pp, ds[k].idx) && lo <= ds[k].idx[pp.len() as int] < hi
}
pub open spec fn good_names(ps: Seq<PackageBuilder>, ds: Seq<Decl>, pp: Seq<usize>, scope: Option<Seq<char>>) -> bool {
    forall|k: int| 0 <= k < ds.len() ==> (#[trigger] ds[k]).idx.drop_last() == pp && ds[k].full == in_scope(scope, node_name(ps, ds[k])) || held(ps, ds, k)
}
pub open spec fn held(ps: Seq<PackageBuilder>, ds: Seq<Decl>, k: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] holds(ps, ds, j, k) }
pub open spec fn good_order(ds: Seq<Decl>) -> bool { forall|j: int, k: int| 0 <= j < k < ds.len() ==> !pre(#[trigger] ds[k].idx, #[trigger] ds[j].idx) }
pub open spec fn good_inner(ps: Seq<PackageBuilder>, ds: Seq<Decl>) -> bool {
    forall|k: int| 0 <= k < ds.len() ==> inner_there(ps, ds, #[trigger] ds[k])
}
pub open spec fn inner_there(ps: Seq<PackageBuilder>, ds: Seq<Decl>, d: Decl) -> bool { forall|i: usize| i < inner_count(type_node(ps, d.idx)->0) ==> has_idx(ds, #[trigger] d.idx.push(i)) }
pub open spec fn good_roots(ps: Seq<PackageBuilder>, ds: Seq<Decl>, pp: Seq<usize>, lo: int, hi: int) -> bool {
    forall|i: usize| lo <= i < hi && type_node(ps, #[trigger] pp.push(i)) is Some ==> has_idx(ds, pp.push(i))
}
/// The type at the path `idx` is `t`.
pub open spec fn sub(ps: Seq<PackageBuilder>, idx: Seq<usize>, t: InnerTypeBuilder) -> bool { forall|q: Seq<usize>| type_node(ps, #[trigger] (idx + q)) == inner_node(t, q) }

pub proof fn lemma_has_cat(a: Seq<Decl>, b: Seq<Decl>)
    ensures
        forall|q: Seq<usize>| has_idx(a, q) ==> #[trigger] has_idx(a + b, q),
        forall|q: Seq<usize>| has_idx(b, q) ==> #[trigger] has_idx(a + b, q),
{
    let ds = a + b;
    assert forall|q: Seq<usize>| has_idx(a, q) implies #[trigger] has_idx(ds, q) by { let l = choose|l: int| 0 <= l < a.len() && (#[trigger] a[l]).idx == q; assert(ds[l] == a[l]); }
    assert forall|q: Seq<usize>| has_idx(b, q) implies #[trigger] has_idx(ds, q) by { let l = choose|l: int| 0 <= l < b.len() && (#[trigger] b[l]).idx == q; assert(ds[a.len() + l] == b[l]); }
}
pub proof fn lemma_nodes_cat(ps: Seq<PackageBuilder>, a: Seq<Decl>, b: Seq<Decl>, pp: Seq<usize>, lo: int, mid: int, hi: int)
    requires good_nodes(ps, a, pp, lo, mid), good_nodes(ps, b, pp, mid, hi), lo <= mid <= hi,
    ensures good_nodes(ps, a + b, pp, lo, hi),
{
    let n = a.len() as int;
    let ds = a + b;
    assert forall|k: int| 0 <= k < ds.len() implies decl_node(ps, #[trigger] ds[k]) && ds[k].idx.len() > pp.len() && pre(pp, ds[k].idx) && lo <= ds[k].idx[pp.len() as int] < hi by {
        if k < n { assert(ds[k] == a[k]); } else { assert(ds[k] == b[k - n]); }
    }
}
pub proof fn lemma_held_cat(ps: Seq<PackageBuilder>, a: Seq<Decl>, b: Seq<Decl>)
    ensures
        forall|k: int| 0 <= k < a.len() && held(ps, a, k) ==> #[trigger] held(ps, a + b, k),
        forall|k: int| a.len() <= k < a.len() + b.len() && held(ps, b, k - a.len()) ==> #[trigger] held(ps, a + b, k),
{
    let n = a.len() as int;
    let ds = a + b;
    assert forall|k: int| 0 <= k < n && held(ps, a, k) implies #[trigger] held(ps, ds, k) by {
        let j = choose|j: int| 0 <= j < k && #[trigger] holds(ps, a, j, k);
        assert(ds[k] == a[k] && ds[j] == a[j]);
        assert(holds(ps, ds, j, k));
    }
    assert forall|k: int| n <= k < n + b.len() && held(ps, b, k - n) implies #[trigger] held(ps, ds, k) by {
        let j = choose|j: int| 0 <= j < k - n && #[trigger] holds(ps, b, j, k - n);
        assert(ds[k] == b[k - n] && ds[n + j] == b[j]);
        assert(holds(ps, ds, n + j, k));
    }
}
pub proof fn lemma_names_cat(ps: Seq<PackageBuilder>, a: Seq<Decl>, b: Seq<Decl>, pp: Seq<usize>, scope: Option<Seq<char>>)
    requires good_names(ps, a, pp, scope), good_names(ps, b, pp, scope),
    ensures good_names(ps, a + b, pp, scope),
{
    let n = a.len() as int;
    let ds = a + b;
    lemma_held_cat(ps, a, b);
    assert forall|k: int| 0 <= k < ds.len() implies (#[trigger] ds[k]).idx.drop_last() == pp && ds[k].full == in_scope(scope, node_name(ps, ds[k])) || held(ps, ds, k) by {
        if k < n { assert(ds[k] == a[k]); } else { assert(ds[k] == b[k - n]); assert(held(ps, b, k - n) ==> held(ps, ds, k)); }
    }
}
pub proof fn lemma_order_cat(ps: Seq<PackageBuilder>, a: Seq<Decl>, b: Seq<Decl>, pp: Seq<usize>, lo: int, mid: int, hi: int)
    requires good_order(a), good_order(b), good_nodes(ps, a, pp, lo, mid), good_nodes(ps, b, pp, mid, hi),
    ensures good_order(a + b),
{
    let n = a.len() as int;
    let ds = a + b;
    assert forall|j: int, k: int| 0 <= j < k < ds.len() implies !pre(#[trigger] ds[k].idx, #[trigger] ds[j].idx) by {
        if k < n { assert(a[k] == ds[k] && a[j] == ds[j]); assert(!pre(a[k].idx, a[j].idx)); }
        else if j >= n { assert(b[k - n] == ds[k] && b[j - n] == ds[j]); assert(!pre(b[k - n].idx, b[j - n].idx)); }
        else {
            let x = a[j]; let y = b[k - n];
            assert(ds[j] == x && ds[k] == y);
            if pre(y.idx, x.idx) { let m = pp.len() as int; assert(y.idx[m] == x.idx[m]); }
        }
    }
}
pub proof fn lemma_inner_cat(ps: Seq<PackageBuilder>, a: Seq<Decl>, b: Seq<Decl>)
    requires good_inner(ps, a), good_inner(ps, b),
    ensures good_inner(ps, a + b),
{
    let n = a.len() as int;
    let ds = a + b;
    lemma_has_cat(a, b);
    assert forall|k: int| 0 <= k < ds.len() implies inner_there(ps, ds, #[trigger] ds[k]) by {
        let d = ds[k];
        if k < n {
            assert(d == a[k]);
            assert(inner_there(ps, a, d));
            assert forall|i: usize| i < inner_count(type_node(ps, d.idx)->0) implies has_idx(ds, #[trigger] d.idx.push(i)) by { assert(has_idx(a, d.idx.push(i))); }
        } else {
            assert(d == b[k - n]);
            assert(inner_there(ps, b, d));
            assert forall|i: usize| i < inner_count(type_node(ps, d.idx)->0) implies has_idx(ds, #[trigger] d.idx.push(i)) by { assert(has_idx(b, d.idx.push(i))); }
        }
    }
}
pub proof fn lemma_good_cat(ps: Seq<PackageBuilder>, a: Seq<Decl>, b: Seq<Decl>, pp: Seq<usize>, scope: Option<Seq<char>>, lo: int, mid: int, hi: int)
    requires good(ps, a, pp, scope, lo, mid), good(ps, b, pp, scope, mid, hi), lo <= mid <= hi,
    ensures good(ps, a + b, pp, scope, lo, hi),
{
    lemma_nodes_cat(ps, a, b, pp, lo, mid, hi);
    lemma_names_cat(ps, a, b, pp, scope);
    lemma_order_cat(ps, a, b, pp, lo, mid, hi);
    lemma_inner_cat(ps, a, b);
    lemma_has_cat(a, b);
    assert forall|i: usize| lo <= i < hi && type_node(ps, #[trigger] pp.push(i)) is Some implies has_idx(a + b, pp.push(i)) by {
        if i < mid { assert(has_idx(a, pp.push(i))); } else { assert(has_idx(b, pp.push(i))); }
    }
}
pub proof fn lemma_sub_child(ps: Seq<PackageBuilder>, idx: Seq<usize>, m: MessageBuilder, i: usize)
    requires sub(ps, idx, InnerTypeBuilder::Message(m)), i < m.inner_types@.len(),
    ensures sub(ps, idx.push(i), m.inner_types@[i as int]),
{
    assert forall|q: Seq<usize>| type_node(ps, #[trigger] (idx.push(i) + q)) == inner_node(m.inner_types@[i as int], q) by {
        let r = seq![i] + q;
        assert(idx.push(i) + q =~= idx + r);
        assert(r.drop_first() =~= q);
    }
}
pub proof fn lemma_good_tree(ps: Seq<PackageBuilder>, t: InnerTypeBuilder, scope: Option<Seq<char>>, idx: Seq<usize>)
    requires sub(ps, idx, t), idx.len() >= 2, idx[0] < ps.len(),
    ensures good(ps, tree(t, scope, idx), idx.drop_last(), scope, idx.last() as int, idx.last() + 1),
    decreases t, 0nat,
{
    let ds = tree(t, scope, idx);
    let pp = idx.drop_last();
    let full = in_scope(scope, inner_name(t));
    assert(idx + Seq::<usize>::empty() =~= idx);
    assert(type_node(ps, idx + Seq::<usize>::empty()) == inner_node(t, Seq::empty()));
    assert(ds[0] == Decl { kind: inner_kind(t), full, idx });
    assert forall|i: usize| idx.last() <= i < idx.last() + 1 && type_node(ps, #[trigger] pp.push(i)) is Some implies has_idx(ds, pp.push(i)) by {
        assert(pp.push(i) =~= idx);
        assert(ds[0].idx == idx);
    }
    match t {
        InnerTypeBuilder::Message(m) => {
            let n = m.inner_types@.len();
            lemma_good_trees(ps, m, full, idx, n);
            let ts = trees(m.inner_types, full, idx, n);
            assert(m.inner_types.len() == n);
            assert forall|k: int| 1 <= k < ds.len() implies #[trigger] ds[k] == ts[k - 1] by {}
            assert forall|k: int| 0 <= k < ds.len() implies decl_node(ps, #[trigger] ds[k]) && ds[k].idx.len() > pp.len() && pre(pp, ds[k].idx) && idx.last() <= ds[k].idx[pp.len() as int] < idx.last() + 1 by {
                if k > 0 { assert(decl_node(ps, ts[k - 1])); assert(pre(idx, ts[k - 1].idx)); }
            }
            assert forall|k: int| 0 <= k < ds.len() implies (#[trigger] ds[k]).idx.drop_last() == pp && ds[k].full == in_scope(scope, node_name(ps, ds[k])) || held(ps, ds, k) by {
                if k > 0 {
                    assert(ds[k] == ts[k - 1]);
                    if held(ps, ts, k - 1) {
                        let j = choose|j: int| 0 <= j < k - 1 && #[trigger] holds(ps, ts, j, k - 1);
                        assert(ds[j + 1] == ts[j]);
                        assert(holds(ps, ds, j + 1, k));
                    } else { assert(holds(ps, ds, 0, k)); }
                }
            }
            assert forall|j: int, k: int| 0 <= j < k < ds.len() implies !pre(#[trigger] ds[k].idx, #[trigger] ds[j].idx) by {
                assert(ds[k] == ts[k - 1]);
                if j > 0 { assert(ds[j] == ts[j - 1]); assert(!pre(ts[k - 1].idx, ts[j - 1].idx)); } else { assert(ts[k - 1].idx.len() > idx.len()); }
            }
            assert forall|q: Seq<usize>| #[trigger] has_idx(ts, q) implies has_idx(ds, q) by { let l = choose|l: int| 0 <= l < ts.len() && (#[trigger] ts[l]).idx == q; assert(ds[l + 1] == ts[l]); }
            assert forall|k: int| 0 <= k < ds.len() implies inner_there(ps, ds, #[trigger] ds[k]) by {
                let d = ds[k];
                if k > 0 { assert(d == ts[k - 1]); assert(inner_there(ps, ts, d)); }
                assert forall|i: usize| i < inner_count(type_node(ps, d.idx)->0) implies has_idx(ds, #[trigger] d.idx.push(i)) by {
                    if k == 0 { lemma_sub_child(ps, idx, m, i); assert(idx.push(i) + Seq::<usize>::empty() =~= idx.push(i)); assert(type_node(ps, idx.push(i) + Seq::<usize>::empty()) is Some); }
                    assert(has_idx(ts, d.idx.push(i)));
                }
            }
        }
        InnerTypeBuilder::Enum(_) => {
            assert forall|k: int| 0 <= k < ds.len() implies inner_there(ps, ds, #[trigger] ds[k]) by { assert(k == 0); }
        }
    }
}
pub proof fn lemma_good_trees(ps: Seq<PackageBuilder>, m: MessageBuilder, full: Seq<char>, idx: Seq<usize>, n: nat)
    requires sub(ps, idx, InnerTypeBuilder::Message(m)), idx.len() >= 2, idx[0] < ps.len(), n <= m.inner_types@.len(),
    ensures good(ps, trees(m.inner_types, full, idx, n), idx, Some(full), 0, n as int),
    decreases m.inner_types, n,
{
    if n > 0 {
        lemma_good_trees(ps, m, full, idx, (n - 1) as nat);
        let i = (n - 1) as usize;
        assert(m.inner_types.len() == m.inner_types@.len());
        lemma_sub_child(ps, idx, m, i);
        lemma_good_tree(ps, m.inner_types@[n - 1], Some(full), idx.push(i));
        assert(idx.push(i).drop_last() =~= idx);
        lemma_good_cat(ps, trees(m.inner_types, full, idx, (n - 1) as nat), tree(m.inner_types@[n - 1], Some(full), idx.push(i)), idx, Some(full), 0, n - 1, n as int);
    }
}

/// `ts` are the types of the packages `lo` to `hi`.
pub open spec fn all_good(ps: Seq<PackageBuilder>, ts: Seq<Decl>, lo: int, hi: int) -> bool {
    &&& good_nodes(ps, ts, Seq::empty(), lo, hi)
    &&& good_places(ps, ts)
    &&& good_order(ts)
    &&& good_inner(ps, ts)
}
/// The declaration stands in a package, not in a message.
pub open spec fn top(ps: Seq<PackageBuilder>, d: Decl) -> bool { d.idx.len() == 2 && d.full == in_scope(pkg_scope(ps[d.idx[0] as int]), node_name(ps, d)) }
pub open spec fn good_places(ps: Seq<PackageBuilder>, ts: Seq<Decl>) -> bool { forall|k: int| 0 <= k < ts.len() ==> top(ps, #[trigger] ts[k]) || held(ps, ts, k) }
pub proof fn lemma_good_pkg(ps: Seq<PackageBuilder>, i: int, n: nat)
    requires 0 <= i < ps.len(), i <= usize::MAX, n <= ps[i].types@.len(),
    ensures good(ps, pkg_types(ps[i], i, n), seq![i as usize], pkg_scope(ps[i]), 0, n as int),
    decreases n,
{
    if n > 0 {
        lemma_good_pkg(ps, i, (n - 1) as nat);
        assert(ps[i].types.len() == ps[i].types@.len());
        let m = (n - 1) as usize;
        let pp = seq![i as usize];
        let idx = seq![i as usize, m];
        assert(pp.push(m) =~= idx);
        let b = match ps[i].types@[n - 1] { ProtobufItemBuilder::Type(t) => tree(as_inner(t), pkg_scope(ps[i]), idx), ProtobufItemBuilder::Service(_) => Seq::empty() };
        match ps[i].types@[n - 1] {
            ProtobufItemBuilder::Type(t) => {
                assert forall|q: Seq<usize>| type_node(ps, #[trigger] (idx + q)) == inner_node(as_inner(t), q) by {
                    assert((idx + q).drop_first() =~= seq![m] + q);
                    assert((seq![m] + q).drop_first() =~= q);
                }
                lemma_good_tree(ps, as_inner(t), pkg_scope(ps[i]), idx);
                assert(idx.drop_last() =~= pp);
            }
            ProtobufItemBuilder::Service(_) => {
                assert forall|j: usize| n - 1 <= j < n && type_node(ps, #[trigger] pp.push(j)) is Some implies has_idx(b, pp.push(j)) by {
                    assert(pp.push(j).drop_first() =~= seq![m]);
                }
            }
        }
        lemma_good_cat(ps, pkg_types(ps[i], i, (n - 1) as nat), b, pp, pkg_scope(ps[i]), 0, n - 1, n as int);
    }
}
pub proof fn lemma_pkg_all(ps: Seq<PackageBuilder>, ds: Seq<Decl>, i: int, n: int)
    requires 0 <= i < ps.len(), i <= usize::MAX, good(ps, ds, seq![i as usize], pkg_scope(ps[i]), 0, n),
    ensures all_good(ps, ds, i, i + 1),
{
    let pp = seq![i as usize];
    assert forall|k: int| 0 <= k < ds.len() implies decl_node(ps, #[trigger] ds[k]) && ds[k].idx.len() > 0 && pre(Seq::empty(), ds[k].idx) && i <= ds[k].idx[0] < i + 1 by {
        assert(pre(pp, ds[k].idx));
        assert(pp[0] == ds[k].idx[0]);
    }
    assert forall|k: int| 0 <= k < ds.len() implies top(ps, #[trigger] ds[k]) || held(ps, ds, k) by {
        assert(pre(pp, ds[k].idx));
        assert(pp[0] == ds[k].idx[0]);
        if ds[k].idx.drop_last() == pp { assert(ds[k].idx.len() == 2); }
    }
}
pub proof fn lemma_places_cat(ps: Seq<PackageBuilder>, a: Seq<Decl>, b: Seq<Decl>)
    requires good_places(ps, a), good_places(ps, b),
    ensures good_places(ps, a + b),
{
    let n = a.len() as int;
    let ds = a + b;
    lemma_held_cat(ps, a, b);
    assert forall|k: int| 0 <= k < ds.len() implies top(ps, #[trigger] ds[k]) || held(ps, ds, k) by {
        if k < n { assert(ds[k] == a[k]); } else { assert(ds[k] == b[k - n]); assert(held(ps, b, k - n) ==> held(ps, ds, k)); }
    }
}
pub proof fn lemma_all_good(ps: Seq<PackageBuilder>, n: nat)
    requires n <= ps.len(), n <= usize::MAX,
    ensures all_good(ps, all_types(ps, n), 0, n as int),
    decreases n,
{
    if n > 0 {
        lemma_all_good(ps, (n - 1) as nat);
        let i = n - 1;
        lemma_good_pkg(ps, i, ps[i].types@.len());
        let (a, b) = (all_types(ps, (n - 1) as nat), pkg_types(ps[i], i, ps[i].types@.len()));
        lemma_pkg_all(ps, b, i, ps[i].types@.len() as int);
        lemma_nodes_cat(ps, a, b, Seq::empty(), 0, i, n as int);
        lemma_places_cat(ps, a, b);
        lemma_order_cat(ps, a, b, Seq::empty(), 0, i, n as int);
        lemma_inner_cat(ps, a, b);
    }
}
/// `ss` are services among the items `lo` to `hi` of a list of packages (by `at`th path part).
pub open spec fn srv_good(ps: Seq<PackageBuilder>, ss: Seq<Decl>, at: int, lo: int, hi: int) -> bool {
    &&& forall|k: int| 0 <= k < ss.len() ==> srv_decl(ps, #[trigger] ss[k]) && lo <= ss[k].idx[at] < hi
    &&& forall|j: int, k: int| 0 <= j < k < ss.len() ==> (#[trigger] ss[j]).idx != (#[trigger] ss[k]).idx
}
pub open spec fn srv_decl(ps: Seq<PackageBuilder>, d: Decl) -> bool {
    d.idx.len() == 2 && d.kind is Service && d.idx[0] < ps.len() && (service_node(ps, d.idx) matches Some(s) && d.full == in_scope(pkg_scope(ps[d.idx[0] as int]), s.name@))
}
pub proof fn lemma_srv_cat(ps: Seq<PackageBuilder>, a: Seq<Decl>, b: Seq<Decl>, at: int, lo: int, mid: int, hi: int)
    requires srv_good(ps, a, at, lo, mid), srv_good(ps, b, at, mid, hi), lo <= mid <= hi,
    ensures srv_good(ps, a + b, at, lo, hi),
{
    let n = a.len() as int;
    let ss = a + b;
    assert forall|k: int| 0 <= k < ss.len() implies srv_decl(ps, #[trigger] ss[k]) && lo <= ss[k].idx[at] < hi by { if k < n { assert(ss[k] == a[k]); } else { assert(ss[k] == b[k - n]); } }
    assert forall|j: int, k: int| 0 <= j < k < ss.len() implies (#[trigger] ss[j]).idx != (#[trigger] ss[k]).idx by {
        if k < n { assert(ss[j] == a[j] && ss[k] == a[k]); } else if j >= n { assert(ss[j] == b[j - n] && ss[k] == b[k - n]); } else { assert(ss[j] == a[j] && ss[k] == b[k - n]); }
    }
}
pub proof fn lemma_srv_pkg(ps: Seq<PackageBuilder>, i: int, n: nat)
    requires 0 <= i < ps.len(), i <= usize::MAX, n <= ps[i].types@.len(),
    ensures srv_good(ps, pkg_services(ps[i], i, n), 1, 0, n as int), forall|k: int| 0 <= k < pkg_services(ps[i], i, n).len() ==> (#[trigger] pkg_services(ps[i], i, n)[k]).idx[0] == i,
    decreases n,
{
    if n > 0 {
        lemma_srv_pkg(ps, i, (n - 1) as nat);
        assert(ps[i].types.len() == ps[i].types@.len());
        let m = (n - 1) as usize;
        let idx = seq![i as usize, m];
        assert(idx.drop_first() =~= seq![m]);
        let a = pkg_services(ps[i], i, (n - 1) as nat);
        let b = match ps[i].types@[n - 1] { ProtobufItemBuilder::Type(t) => Seq::empty(), ProtobufItemBuilder::Service(s) => seq![service_decl(s, pkg_scope(ps[i]), idx)] };
        assert(srv_good(ps, b, 1, n - 1, n as int));
        lemma_srv_cat(ps, a, b, 1, 0, n - 1, n as int);
        assert forall|k: int| 0 <= k < (a + b).len() implies (#[trigger] (a + b)[k]).idx[0] == i by { if k < a.len() { assert((a + b)[k] == a[k]); } }
    }
}
pub proof fn lemma_srv_all(ps: Seq<PackageBuilder>, n: nat)
    requires n <= ps.len(), n <= usize::MAX,
    ensures srv_good(ps, all_services(ps, n), 0, 0, n as int),
    decreases n,
{
    if n > 0 {
        lemma_srv_all(ps, (n - 1) as nat);
        let i = n - 1;
        lemma_srv_pkg(ps, i, ps[i].types@.len());
        let b = pkg_services(ps[i], i, ps[i].types@.len());
        assert(srv_good(ps, b, 0, i, n as int));
        lemma_srv_cat(ps, all_services(ps, (n - 1) as nat), b, 0, 0, i, n as int);
    }
}
pub proof fn lemma_node_push(ps: Seq<PackageBuilder>, q: Seq<usize>, i: usize)
    requires type_node(ps, q) matches Some(InnerTypeBuilder::Message(m)) && i < m.inner_types@.len(), q.len() >= 2,
    ensures type_node(ps, q.push(i)) == Some(type_node(ps, q)->0->Message_0.inner_types@[i as int]),
{
    let p = ps[q[0] as int];
    let r = q.drop_first();
    assert(q.push(i).drop_first() =~= r.push(i));
    assert(r.push(i).drop_first() =~= r.drop_first().push(i));
    lemma_inner_push(as_inner(p.types@[r[0] as int]->Type_0), r.drop_first(), i);
}
pub proof fn lemma_inner_push(t: InnerTypeBuilder, q: Seq<usize>, i: usize)
    requires inner_node(t, q) matches Some(InnerTypeBuilder::Message(m)) && i < m.inner_types@.len(),
    ensures inner_node(t, q.push(i)) == Some(inner_node(t, q)->0->Message_0.inner_types@[i as int]),
    decreases q.len(),
{
    if q.len() == 0 {
        assert(q.push(i)[0] == i);
        assert(q.push(i).drop_first() =~= Seq::empty());
        let x = t->Message_0.inner_types@[i as int];
        assert(inner_node(x, Seq::empty()) == Some(x));
        assert(inner_node(t, q) == Some(t));
    } else {
        assert(q.push(i).drop_first() =~= q.drop_first().push(i));
        assert(q.push(i)[0] == q[0]);
        lemma_inner_push(t->Message_0.inner_types@[q[0] as int], q.drop_first(), i);
    }
}

// ---- building everything
pub open spec fn names_to(ps: Seq<PackageBuilder>, n: nat) -> Seq<Decl> { all_types(ps, n) + all_services(ps, n) }
/// All declarations of the files, types and services.
pub open spec fn names_in(ps: Seq<PackageBuilder>) -> Seq<Decl> { names_to(ps, ps.len()) }
pub open spec fn entering_all(c: BuildCache, ps: Seq<PackageBuilder>, n: nat) -> bool {
    &&& cache_ok(c)
    &&& cts(c) == all_types(ps, n)
    &&& css(c) == all_services(ps, n)
    &&& forall|q: Seq<usize>, j: usize| #[trigger] c.items_by_idx@.dom().contains(q) && n <= j ==> !#[trigger] pre(seq![j], q)
}
pub open spec fn is_dup(ps: Seq<PackageBuilder>, e: ParseError) -> bool { e matches ParseError::DuplicateType { name } && declared_twice(names_in(ps), name@) }
pub proof fn lemma_twice_grow(ps: Seq<PackageBuilder>, n: nat, x: Seq<char>)
    requires n <= ps.len(), declared_twice(names_to(ps, n), x),
    ensures declared_twice(names_in(ps), x),
    decreases ps.len() - n,
{
    if n < ps.len() {
        let (a, s) = (all_types(ps, n), all_services(ps, n));
        let (b, t) = (pkg_types(ps[n as int], n as int, ps[n as int].types@.len()), pkg_services(ps[n as int], n as int, ps[n as int].types@.len()));
        lemma_declared(a, s);
        lemma_declared(a, b);
        lemma_declared(s, t);
        lemma_declared(a + b, s + t);
        lemma_twice_grow(ps, n + 1, x);
    }
}
pub proof fn lemma_entering_all_step(c: BuildCache, ps: Seq<PackageBuilder>, n: nat)
    requires entering_all(c, ps, n), n < ps.len(), n < usize::MAX,
    ensures
        none_below(c, seq![n as usize]),
        forall|c2: BuildCache, n1: nat| n1 == n + 1 && entered(c, c2, pkg_types(ps[n as int], n as int, ps[n as int].types@.len()), pkg_services(ps[n as int], n as int, ps[n as int].types@.len())) && only_below(c, c2, seq![n as usize]) ==> #[trigger] entering_all(c2, ps, n1),
        forall|e: ParseError| #[trigger] dup_err(c, pkg_names(ps[n as int], n as int, ps[n as int].types@.len()), e) ==> is_dup(ps, e),
{
    let p = ps[n as int];
    let (a, s) = (all_types(ps, n), all_services(ps, n));
    let (b, t) = (pkg_types(p, n as int, p.types@.len()), pkg_services(p, n as int, p.types@.len()));
    assert forall|c2: BuildCache, n1: nat| n1 == n + 1 && entered(c, c2, b, t) && only_below(c, c2, seq![n as usize]) implies #[trigger] entering_all(c2, ps, n1) by {
        assert forall|q: Seq<usize>, j: usize| #[trigger] c2.items_by_idx@.dom().contains(q) && n1 <= j implies !#[trigger] pre(seq![j], q) by {
            if !c.items_by_idx@.dom().contains(q) && pre(seq![j], q) { assert(pre(seq![n as usize], q)); assert(seq![n as usize][0] == q[0]); assert(seq![j][0] == q[0]); }
        }
    }
    assert forall|e: ParseError| #[trigger] dup_err(c, b + t, e) implies is_dup(ps, e) by {
        let x = e->DuplicateType_name@;
        lemma_names(c);
        lemma_declared(b, t);
        lemma_declared(a, s);
        lemma_declared(a, b);
        lemma_declared(s, t);
        lemma_declared(a + b, s + t);
        assert(names_to(ps, n + 1) == (a + b) + (s + t));
        lemma_twice_grow(ps, n + 1, x);
    }
}
pub proof fn lemma_entering_all_first(ps: Seq<PackageBuilder>)
    ensures forall|c: BuildCache| c.types@.len() == 0 && c.services@.len() == 0 && c.items@ == Map::<Seq<char>, (ItemType, usize)>::empty() && c.items_by_idx@ == Map::<Seq<usize>, (ItemType, usize)>::empty() ==> #[trigger] entering_all(c, ps, 0),
{
    assert forall|c: BuildCache| c.types@.len() == 0 && c.services@.len() == 0 && c.items@ == Map::<Seq<char>, (ItemType, usize)>::empty() && c.items_by_idx@ == Map::<Seq<usize>, (ItemType, usize)>::empty() implies #[trigger] entering_all(c, ps, 0) by {
        assert(cts(c) =~= all_types(ps, 0));
        assert(css(c) =~= all_services(ps, 0));
    }
}
/// The cache is that of all the packages.
pub open spec fn full_cache(c: BuildCache, ps: Seq<PackageBuilder>) -> bool { cache_ok(c) && cts(c) == types_in(ps) && css(c) == services_in(ps) }
pub open spec fn node_of(ps: Seq<PackageBuilder>, d: Decl) -> InnerTypeBuilder { type_node(ps, d.idx)->0 }
pub open spec fn srv_of(ps: Seq<PackageBuilder>, d: Decl) -> ServiceBuilder { service_node(ps, d.idx)->0 }
/// The parsed type `b` became `t`.
pub open spec fn node_is(b: InnerTypeBuilder, d: CacheData, c: BuildCache, t: TypeInfo) -> bool {
    match b {
        InnerTypeBuilder::Message(b) => t matches TypeInfo::Message(m) && msg_is(b, d, c, m),
        InnerTypeBuilder::Enum(b) => t matches TypeInfo::Enum(e) && enum_is(b, d, c, e),
    }
}
pub open spec fn types_built(ps: Seq<PackageBuilder>, c: BuildCache, v: Seq<TypeInfo>) -> bool {
    v.len() <= c.types@.len() && forall|i: int| 0 <= i < v.len() ==> node_is(node_of(ps, cts(c)[i]), c.types@[i], c, #[trigger] v[i])
}
pub open spec fn services_built(ps: Seq<PackageBuilder>, c: BuildCache, v: Seq<Service>) -> bool {
    v.len() <= c.services@.len() && forall|i: int| 0 <= i < v.len() ==> service_is(srv_of(ps, css(c)[i]), c.services@[i], c.items@, #[trigger] v[i])
}
/// Some reference is bad, and this error tells which.
pub open spec fn bad_ref(ps: Seq<PackageBuilder>, c: BuildCache, e: ParseError) -> bool {
    ||| exists|k: int| 0 <= k < cts(c).len() && (node_of(ps, #[trigger] cts(c)[k]) matches InnerTypeBuilder::Message(m) && fields_err(all_fields(m), c.items@, cts(c)[k].full, e))
    ||| exists|k: int| 0 <= k < css(c).len() && rpcs_err(srv_of(ps, #[trigger] css(c)[k]).rpcs@, c.items@, css(c)[k].full, e)
}
/// From the `k`th type on, and for all services, what is to be built is still there.
pub open spec fn types_left(ps: Seq<PackageBuilder>, cur: Seq<PackageBuilder>, ts: Seq<Decl>, k: int) -> bool {
    &&& cur.len() == ps.len()
    &&& forall|i: int| 0 <= i < ps.len() ==> (#[trigger] cur[i]).name == ps[i].name
    &&& forall|i: int| k <= i < ts.len() ==> type_node(cur, (#[trigger] ts[i]).idx) == type_node(ps, ts[i].idx)
    &&& forall|q: Seq<usize>| #[trigger] service_node(cur, q) == service_node(ps, q)
}
pub open spec fn services_left(ps: Seq<PackageBuilder>, cur: Seq<PackageBuilder>, ss: Seq<Decl>, k: int) -> bool {
    &&& cur.len() == ps.len()
    &&& forall|i: int| 0 <= i < ps.len() ==> (#[trigger] cur[i]).name == ps[i].name
    &&& forall|i: int| k <= i < ss.len() ==> service_node(cur, (#[trigger] ss[i]).idx) == service_node(ps, ss[i].idx)
}
/// The builtin types of all fields are scalar ones.
pub open spec fn all_scalar(ps: Seq<PackageBuilder>) -> bool { forall|q: Seq<usize>| #[trigger] type_node(ps, q) matches Some(InnerTypeBuilder::Message(m)) ==> msg_scalar(m) }
pub proof fn lemma_oneofs_scalar(v: Seq<OneofBuilder>, n: nat)
    requires forall|k: int| 0 <= k < v.len() ==> fields_scalar((#[trigger] v[k]).fields@),
    ensures forall|i: int| 0 <= i < oneof_fields(v, n).len() ==> ft_scalar((#[trigger] oneof_fields(v, n)[i]).0.field_type),
    decreases n,
{
    if n > 0 && n <= v.len() { lemma_oneofs_scalar(v, (n - 1) as nat); assert(fields_scalar(v[n - 1].fields@)); }
}
pub proof fn lemma_msg_scalar(m: MessageBuilder)
    requires deep_scalar(InnerTypeBuilder::Message(m)),
    ensures msg_scalar(m),
{
    lemma_oneofs_scalar(m.oneofs@, m.oneofs@.len());
}
pub proof fn lemma_inner_scalar(t: InnerTypeBuilder, q: Seq<usize>)
    requires deep_scalar(t),
    ensures inner_node(t, q) matches Some(InnerTypeBuilder::Message(m)) ==> msg_scalar(m),
    decreases q.len(),
{
    reveal_with_fuel(inner_node, 2);
    match t {
        InnerTypeBuilder::Message(m) => {
            if q.len() == 0 { lemma_msg_scalar(m); } else if q[0] < m.inner_types@.len() { assert(deep_scalar(m.inner_types@[q[0] as int])); lemma_inner_scalar(m.inner_types@[q[0] as int], q.drop_first()); }
        }
        InnerTypeBuilder::Enum(_) => {}
    }
}
/// What the parser promises is what building needs.
pub proof fn lemma_deep_scalar(ps: Seq<PackageBuilder>)
    requires all_deep(ps),
    ensures all_scalar(ps),
{
    assert forall|q: Seq<usize>| #[trigger] type_node(ps, q) matches Some(InnerTypeBuilder::Message(m)) implies (type_node(ps, q)->0 matches InnerTypeBuilder::Message(m) && msg_scalar(m)) by {
        let p = ps[q[0] as int];
        let q1 = q.drop_first();
        assert(pkg_scalar(p));
        assert(p.types@[q1[0] as int] matches ProtobufItemBuilder::Type(t) && deep_scalar(as_inner(t)));
        let t = p.types@[q1[0] as int]->Type_0;
        lemma_inner_scalar(as_inner(t), q1.drop_first());
    }
}
pub proof fn lemma_take_types(ps: Seq<PackageBuilder>, cur: Seq<PackageBuilder>, ts: Seq<Decl>, k: int)
    requires all_good(ps, ts, 0, ps.len() as int), types_left(ps, cur, ts, k), 0 <= k < ts.len(),
    ensures
        type_node(cur, ts[k].idx) == Some(node_of(ps, ts[k])),
        inner_kind(node_of(ps, ts[k])) == ts[k].kind,
        forall|cur2: Seq<PackageBuilder>, k1: int| k1 == k + 1 && kept(cur, cur2, ts[k].idx) ==> #[trigger] types_left(ps, cur2, ts, k1),
{
    assert(decl_node(ps, ts[k]));
    assert forall|cur2: Seq<PackageBuilder>, k1: int| k1 == k + 1 && kept(cur, cur2, ts[k].idx) implies #[trigger] types_left(ps, cur2, ts, k1) by {
        assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] cur2[i]).name == ps[i].name by { assert(cur[i].name == cur2[i].name); }
        assert forall|i: int| k1 <= i < ts.len() implies type_node(cur2, (#[trigger] ts[i]).idx) == type_node(ps, ts[i].idx) by { assert(!pre(ts[i].idx, ts[k].idx)); }
        assert forall|q: Seq<usize>| #[trigger] service_node(cur2, q) == service_node(ps, q) by { if pre(q, ts[k].idx) { assert(service_node(cur2, q) == service_node(cur, q)); } else { assert(service_node(cur2, q) == service_node(cur, q)); } }
    }
}
pub proof fn lemma_take_services(ps: Seq<PackageBuilder>, c: BuildCache, cur: Seq<PackageBuilder>, k: int)
    requires full_cache(c, ps), srv_good(ps, css(c), 0, 0, ps.len() as int), services_left(ps, cur, css(c), k), 0 <= k < css(c).len(),
    ensures
        service_node(cur, css(c)[k].idx) == Some(srv_of(ps, css(c)[k])),
        css(c)[k].idx.len() == 2,
        forall|cur2: Seq<PackageBuilder>, k1: int| k1 == k + 1 && kept(cur, cur2, css(c)[k].idx) ==> #[trigger] services_left(ps, cur2, css(c), k1),
        forall|e: ParseError| #[trigger] rpcs_err(srv_of(ps, css(c)[k]).rpcs@, c.items@, css(c)[k].full, e) ==> bad_ref(ps, c, e),
{
    let ss = css(c);
    assert(srv_decl(ps, ss[k]));
    assert forall|cur2: Seq<PackageBuilder>, k1: int| k1 == k + 1 && kept(cur, cur2, ss[k].idx) implies #[trigger] services_left(ps, cur2, ss, k1) by {
        assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] cur2[i]).name == ps[i].name by { assert(cur[i].name == cur2[i].name); }
        assert forall|i: int| k1 <= i < ss.len() implies service_node(cur2, (#[trigger] ss[i]).idx) == service_node(ps, ss[i].idx) by {
            assert(srv_decl(ps, ss[i]));
            if pre(ss[i].idx, ss[k].idx) { assert(ss[i].idx =~= ss[k].idx); assert(ss[k].idx != ss[i].idx); }
        }
    }
}
/// The parent of the `k`th type: it is in the cache, and its full name is what the type's begins with.
#[verifier::spinoff_prover]
pub proof fn lemma_place(ps: Seq<PackageBuilder>, c: BuildCache, k: int)
    requires full_cache(c, ps), all_good(ps, cts(c), 0, ps.len() as int), 0 <= k < cts(c).len(),
    ensures
        parent_known(c, c.types@[k].idx_path@),
        match parent_at(c, c.types@[k].idx_path@) {
            TypeParent::Package(p) => p.0.0 < ps.len() && cts(c)[k].full == in_scope(pkg_scope(ps[p.0.0 as int]), node_name(ps, cts(c)[k])) && p.0.0 == cts(c)[k].idx[0] && cts(c)[k].idx.len() == 2,
            TypeParent::Message(m) => m.0.0 < k && holds(ps, cts(c), m.0.0 as int, k) && cts(c)[k].idx.len() > 2,
        },
{
    let ts = cts(c);
    assert(decl_node(ps, ts[k]));
    assert(c.types@[k].idx_path@ == ts[k].idx);
    assert(top(ps, ts[k]) || held(ps, ts, k));
    if held(ps, ts, k) {
        let j = choose|j: int| 0 <= j < k && #[trigger] holds(ps, ts, j, k);
        assert(decl_node(ps, ts[j]));
        assert(c.types@[j].item_type is Message);
        assert(c.types@[j].idx_path@ == ts[j].idx);
        assert(c.types.len() == c.types@.len());
    }
}
/// The types inside the `k`th type are in the cache, under their names, after it.
#[verifier::spinoff_prover]
pub proof fn lemma_inner(ps: Seq<PackageBuilder>, c: BuildCache, k: int, i: int)
    requires full_cache(c, ps), all_good(ps, cts(c), 0, ps.len() as int), 0 <= k < cts(c).len(), 0 <= i < inner_count(node_of(ps, cts(c)[k])),
    ensures ({
        let n = node_of(ps, cts(c)[k])->Message_0.inner_types@[i];
        let f = join(cts(c)[k].full, inner_name(n));
        &&& c.items@.dom().contains(f)
        &&& c.items@[f].0 == inner_kind(n)
        &&& c.items@[f].1 < cts(c).len()
        &&& cts(c)[c.items@[f].1 as int].idx == cts(c)[k].idx.push(i as usize)
        &&& cts(c)[c.items@[f].1 as int].kind == inner_kind(n)
    }),
{
    let ts = cts(c);
    let m = node_of(ps, ts[k])->Message_0;
    assert(decl_node(ps, ts[k]));
    assert(inner_there(ps, ts, ts[k]));
    assert(m.inner_types.len() == m.inner_types@.len());
    let q = ts[k].idx.push(i as usize);
    assert(has_idx(ts, q));
    let l = choose|l: int| 0 <= l < ts.len() && (#[trigger] ts[l]).idx == q;
    lemma_node_push(ps, ts[k].idx, i as usize);
    assert(decl_node(ps, ts[l]));
    assert(top(ps, ts[l]) || held(ps, ts, l));
    let j = choose|j: int| 0 <= j < l && #[trigger] holds(ps, ts, j, l);
    assert(q.drop_last() =~= ts[k].idx);
    assert(ts[j].idx == ts[k].idx);
    assert(pre(ts[k].idx, ts[j].idx) && pre(ts[j].idx, ts[k].idx));
    assert(j == k) by { if j < k { assert(!pre(ts[k].idx, ts[j].idx)); } if k < j { assert(!pre(ts[j].idx, ts[k].idx)); } }
    assert(ts[l].full == join(ts[k].full, inner_name(m.inner_types@[i])));
}
#[verifier::spinoff_prover]
pub proof fn lemma_same_msg(a: MessageBuilder, b: MessageBuilder, d: CacheData, c: BuildCache)
    requires same_msg_def(a, b),
    ensures all_fields(a) == all_fields(b), forall|m: MessageInfo| #[trigger] msg_is(b, d, c, m) ==> msg_is(a, d, c, m),
{
    hide(msg_index); hide(fields_are);
    assert forall|m: MessageInfo| #[trigger] msg_is(b, d, c, m) implies msg_is(a, d, c, m) by {
        assert(msg_body(a, c.items@, d.full_name@, m));
        assert forall|i: int| 0 <= i < a.inner_types@.len() implies #[trigger] m.inner_types@[i] == entry_ref(c.items@[join(d.full_name@, inner_name(a.inner_types@[i]))]) by { assert(inner_name(a.inner_types@[i]) == inner_name(b.inner_types@[i])); }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_taken_pre(ps: Seq<PackageBuilder>, c: BuildCache, k: int)
    requires full_cache(c, ps), all_good(ps, cts(c), 0, ps.len() as int), all_scalar(ps), 0 <= k < cts(c).len(),
    ensures forall|b: ProtobufTypeBuilder| #[trigger] taken(node_of(ps, cts(c)[k]), b) ==> ti_pre(b, c.types@[k], c),
{
    hide(full_cache); hide(all_good); hide(all_fields); hide(cache_ok); hide(msg_is); hide(ft_scalar);
    let n = node_of(ps, cts(c)[k]);
    let d = c.types@[k];
    let full = d.full_name@;
    assert(cts(c)[k].full == full);
    lemma_place(ps, c, k);
    assert(decl_node(ps, cts(c)[k])) by { reveal(all_good); }
    assert forall|b: ProtobufTypeBuilder| #[trigger] taken(n, b) implies ti_pre(b, d, c) by {
        if let ProtobufTypeBuilder::Message(bm) = b {
            let m = n->Message_0;
            assert(type_node(ps, cts(c)[k].idx) == Some(n));
            assert(msg_scalar(m));
            lemma_same_msg(m, bm, d, c);
            assert forall|i: int| 0 <= i < bm.inner_types@.len() implies #[trigger] c.items@.dom().contains(join(full, inner_name(bm.inner_types@[i]))) && c.items@[join(full, inner_name(bm.inner_types@[i]))].0 == inner_kind(bm.inner_types@[i]) by {
                assert(m.inner_types@.len() == bm.inner_types@.len());
                assert(inner_count(n) == m.inner_types@.len());
                lemma_inner(ps, c, k, i);
                assert(inner_name(m.inner_types@[i]) == inner_name(bm.inner_types@[i]));
            }
            assert(inner_known(c, bm, full));
            assert(msg_scalar(bm));
        }
    }
}
/// What was taken out can be built, and what is built from it is what was to be built.
#[verifier::spinoff_prover]
pub proof fn lemma_taken(ps: Seq<PackageBuilder>, c: BuildCache, k: int)
    requires full_cache(c, ps), all_good(ps, cts(c), 0, ps.len() as int), all_scalar(ps), 0 <= k < cts(c).len(),
    ensures
        forall|b: ProtobufTypeBuilder| #[trigger] taken(node_of(ps, cts(c)[k]), b) ==> ti_pre(b, c.types@[k], c),
        forall|b: ProtobufTypeBuilder, t: TypeInfo| taken(node_of(ps, cts(c)[k]), b) && #[trigger] ti_is(b, c.types@[k], c, t) ==> node_is(node_of(ps, cts(c)[k]), c.types@[k], c, t),
        forall|b: ProtobufTypeBuilder, e: ParseError| taken(node_of(ps, cts(c)[k]), b) && #[trigger] ti_err(b, c.items@, c.types@[k].full_name@, e) ==> bad_ref(ps, c, e),
{
    hide(full_cache); hide(all_good); hide(msg_is); hide(fields_err); hide(all_fields);
    let n = node_of(ps, cts(c)[k]);
    let d = c.types@[k];
    let full = d.full_name@;
    assert(full == cts(c)[k].full);
    lemma_taken_pre(ps, c, k);
    assert forall|b: ProtobufTypeBuilder, t: TypeInfo| taken(n, b) && #[trigger] ti_is(b, d, c, t) implies node_is(n, d, c, t) by {
        match b { ProtobufTypeBuilder::Message(bm) => lemma_same_msg(n->Message_0, bm, d, c), ProtobufTypeBuilder::Enum(be) => {} }
    }
    assert forall|b: ProtobufTypeBuilder, e: ParseError| taken(n, b) && #[trigger] ti_err(b, c.items@, full, e) implies bad_ref(ps, c, e) by {
        let bm = b->Message_0;
        lemma_same_msg(n->Message_0, bm, d, c);
        assert(node_of(ps, cts(c)[k]) == n);
    }
}

// ---- the context
/// The types whose parent is the package `i`, among the first `n`.
pub open spec fn pkg_list(v: Seq<TypeInfo>, i: int, n: nat) -> Seq<TypeRef>
    decreases n,
{
    if n == 0 || n > v.len() { Seq::empty() } else if ti_parent(v[n - 1]) == TypeParent::Package(PackageRef(InternalRef(i as usize))) { pkg_list(v, i, (n - 1) as nat).push(ti_ref(v[n - 1], n - 1)) } else { pkg_list(v, i, (n - 1) as nat) }
}
/// The services whose parent is the package `i`, among the first `n`.
pub open spec fn srv_list(v: Seq<Service>, i: int, n: nat) -> Seq<usize>
    decreases n,
{
    if n == 0 || n > v.len() { Seq::empty() } else if v[n - 1].parent.0.0 == i { srv_list(v, i, (n - 1) as nat).push((n - 1) as usize) } else { srv_list(v, i, (n - 1) as nat) }
}
pub open spec fn type_index(v: Seq<TypeInfo>, n: int, m: Map<Seq<char>, usize>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.dom().contains(ti_full(#[trigger] v[i])) && m[ti_full(v[i])] == i
    &&& forall|s: Seq<char>| #[trigger] m.dom().contains(s) ==> m[s] < n && ti_full(v[m[s] as int]) == s
}
pub open spec fn service_index(v: Seq<Service>, n: int, m: Map<Seq<char>, usize>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.dom().contains((#[trigger] v[i]).full_name@) && m[v[i].full_name@] == i
    &&& forall|s: Seq<char>| #[trigger] m.dom().contains(s) ==> m[s] < n && v[m[s] as int].full_name@ == s
}
pub open spec fn pkgs_built(ps: Seq<PackageBuilder>, v: Seq<Package>) -> bool {
    v.len() == ps.len() && forall|i: int| 0 <= i < v.len() ==> opt_str((#[trigger] v[i]).name) == pkg_scope(ps[i]) && v[i].self_ref == PackageRef(InternalRef(i as usize))
}
/// The context is what the packages say.
pub open spec fn built(ps: Seq<PackageBuilder>, c: BuildCache, r: Context) -> bool {
    &&& types_built(ps, c, r.types@) && r.types@.len() == c.types@.len()
    &&& services_built(ps, c, r.services@) && r.services@.len() == c.services@.len()
    &&& type_index(r.types@, r.types@.len() as int, r.types_by_name@)
    &&& service_index(r.services@, r.services@.len() as int, r.services_by_name@)
    &&& pkgs_built(ps, r.packages@)
    &&& forall|i: int| 0 <= i < ps.len() ==> (#[trigger] r.packages@[i]).types@ == pkg_list(r.types@, i, r.types@.len()) && r.packages@[i].services@ == srv_list(r.services@, i, r.services@.len())
}
/// What building does.
pub open spec fn build_does(ps: Seq<PackageBuilder>, r: Result<Context, ParseError>) -> bool {
    match r {
        Ok(x) => good_result(ps, x),
        Err(e) => good_error(ps, e),
    }
}
/// The context is intact, and is what the packages say.
pub open spec fn good_result(ps: Seq<PackageBuilder>, x: Context) -> bool { ctx_inv(x) && exists|c: BuildCache| #[trigger] full_cache(c, ps) && built(ps, c, x) }
/// The error tells of something that is wrong.
pub open spec fn good_error(ps: Seq<PackageBuilder>, e: ParseError) -> bool { is_dup(ps, e) || exists|c: BuildCache| #[trigger] full_cache(c, ps) && bad_ref(ps, c, e) }
pub open spec fn tis(v: Vec<TypeInfo>) -> Seq<TypeInfo> { v@ }
pub open spec fn index_of(m: HashMap<String, usize>) -> Map<Seq<char>, usize> { m@ }
pub open spec fn srvs(v: Vec<Service>) -> Seq<Service> { v@ }
pub open spec fn pkgs(v: Vec<Package>) -> Seq<Package> { v@ }
/// What is known of a built type.
#[verifier::spinoff_prover]
pub proof fn lemma_built_types(ps: Seq<PackageBuilder>, c: BuildCache, v: Seq<TypeInfo>)
    requires full_cache(c, ps), all_good(ps, cts(c), 0, ps.len() as int), types_built(ps, c, v),
    ensures
        forall|i: int| 0 <= i < v.len() ==> ti_full(#[trigger] v[i]) == cts(c)[i].full && ti_name(v[i]) == node_name(ps, cts(c)[i]) && ti_self(v[i]) == i && ti_parent(v[i]) == parent_at(c, cts(c)[i].idx) && (v[i] is Message <==> cts(c)[i].kind is Message) && (v[i] is Enum <==> cts(c)[i].kind is Enum) && i <= usize::MAX,
        forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> ti_full(#[trigger] v[i]) != ti_full(#[trigger] v[j]),
        forall|i: int| 0 <= i < v.len() ==> (ti_parent(#[trigger] v[i]) matches TypeParent::Package(p) ==> p.0.0 < ps.len()),
{
    hide(msg_body); hide(enum_wf);
    assert forall|i: int| 0 <= i < v.len() implies ti_full(#[trigger] v[i]) == cts(c)[i].full && ti_name(v[i]) == node_name(ps, cts(c)[i]) && ti_self(v[i]) == i && ti_parent(v[i]) == parent_at(c, cts(c)[i].idx) && (v[i] is Message <==> cts(c)[i].kind is Message) && (v[i] is Enum <==> cts(c)[i].kind is Enum) && i <= usize::MAX by {
        assert(decl_node(ps, cts(c)[i]));
        assert(c.types@[i].final_idx == i);
        reveal(msg_body);
    }
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies ti_full(#[trigger] v[i]) != ti_full(#[trigger] v[j]) by {
        assert(c.items@[cts(c)[i].full].1 == i as usize);
        assert(c.items@[cts(c)[j].full].1 == j as usize);
    }
    assert forall|i: int| 0 <= i < v.len() implies (ti_parent(#[trigger] v[i]) matches TypeParent::Package(p) ==> p.0.0 < ps.len()) by { lemma_place(ps, c, i); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_built_services(ps: Seq<PackageBuilder>, c: BuildCache, v: Seq<Service>)
    requires full_cache(c, ps), srv_good(ps, css(c), 0, 0, ps.len() as int), services_built(ps, c, v),
    ensures
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).full_name@ == css(c)[i].full && v[i].name@ == srv_of(ps, css(c)[i]).name@ && v[i].self_ref == ServiceRef(InternalRef(i as usize)) && v[i].parent == PackageRef(InternalRef(css(c)[i].idx[0])) && v[i].parent.0.0 < ps.len() && v[i].full_name@ == in_scope(pkg_scope(ps[v[i].parent.0.0 as int]), v[i].name@) && i <= usize::MAX,
        forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> (#[trigger] v[i]).full_name@ != (#[trigger] v[j]).full_name@,
{
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).full_name@ == css(c)[i].full && v[i].name@ == srv_of(ps, css(c)[i]).name@ && v[i].self_ref == ServiceRef(InternalRef(i as usize)) && v[i].parent == PackageRef(InternalRef(css(c)[i].idx[0])) && v[i].parent.0.0 < ps.len() && v[i].full_name@ == in_scope(pkg_scope(ps[v[i].parent.0.0 as int]), v[i].name@) && i <= usize::MAX by {
        assert(srv_decl(ps, css(c)[i]));
        assert(c.services@[i].final_idx == i);
        assert(c.services@[i].idx_path@ == css(c)[i].idx);
    }
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies (#[trigger] v[i]).full_name@ != (#[trigger] v[j]).full_name@ by {
        assert(c.items@[css(c)[i].full].1 == i as usize);
        assert(c.items@[css(c)[j].full].1 == j as usize);
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_pkg_list(v: Seq<TypeInfo>, i: int, n: nat)
    requires n <= v.len(), 0 <= i <= usize::MAX,
    ensures
        forall|k: int| 0 <= k < n && ti_parent(v[k]) == TypeParent::Package(PackageRef(InternalRef(i as usize))) ==> pkg_list(v, i, n).contains(ti_ref(#[trigger] v[k], k)),
        forall|k: int| 0 <= k < pkg_list(v, i, n).len() ==> lists_one(v, i, n as int, #[trigger] pkg_list(v, i, n)[k]),
        n <= usize::MAX ==> forall|k: int, l: int| 0 <= k < l < pkg_list(v, i, n).len() ==> #[trigger] pkg_list(v, i, n)[k] != #[trigger] pkg_list(v, i, n)[l],
    decreases n,
{
    if n > 0 {
        lemma_pkg_list(v, i, (n - 1) as nat);
        let a = pkg_list(v, i, (n - 1) as nat);
        let b = pkg_list(v, i, n);
        assert forall|k: int| 0 <= k < n && ti_parent(v[k]) == TypeParent::Package(PackageRef(InternalRef(i as usize))) implies b.contains(ti_ref(#[trigger] v[k], k)) by {
            if k < n - 1 { let j = choose|j: int| 0 <= j < a.len() && a[j] == ti_ref(v[k], k); assert(b[j] == ti_ref(v[k], k)); } else { assert(b[b.len() - 1] == ti_ref(v[k], k)); }
        }
        assert forall|k: int| 0 <= k < b.len() implies lists_one(v, i, n as int, #[trigger] b[k]) by {
            if k < a.len() { assert(a[k] == b[k]); assert(lists_one(v, i, n - 1, a[k])); }
        }
        if n <= usize::MAX {
            assert forall|k: int, l: int| 0 <= k < l < b.len() implies #[trigger] b[k] != #[trigger] b[l] by {
                assert(a[k] == b[k]);
                assert(lists_one(v, i, n - 1, a[k]));
                if l < a.len() { assert(a[l] == b[l]); }
            }
        }
    }
}
/// `r` is a reference to one of the first `n` types, whose parent is the package `i`.
pub open spec fn lists_one(v: Seq<TypeInfo>, i: int, n: int, r: TypeRef) -> bool {
    n <= usize::MAX ==> 0 <= ref_idx(r) < n && r == ti_ref(v[ref_idx(r)], ref_idx(r)) && ti_parent(v[ref_idx(r)]) == TypeParent::Package(PackageRef(InternalRef(i as usize)))
}
#[verifier::spinoff_prover]
pub proof fn lemma_srv_list(v: Seq<Service>, i: int, n: nat)
    requires n <= v.len(), n <= usize::MAX,
    ensures
        forall|k: int| 0 <= k < n && (#[trigger] v[k]).parent.0.0 == i ==> srv_list(v, i, n).contains(k as usize),
        forall|k: int| 0 <= k < srv_list(v, i, n).len() ==> (#[trigger] srv_list(v, i, n)[k]) < n && v[srv_list(v, i, n)[k] as int].parent.0.0 == i,
        forall|k: int, l: int| 0 <= k < l < srv_list(v, i, n).len() ==> #[trigger] srv_list(v, i, n)[k] != #[trigger] srv_list(v, i, n)[l],
    decreases n,
{
    if n > 0 {
        lemma_srv_list(v, i, (n - 1) as nat);
        let a = srv_list(v, i, (n - 1) as nat);
        let b = srv_list(v, i, n);
        assert forall|k: int| 0 <= k < n && (#[trigger] v[k]).parent.0.0 == i implies b.contains(k as usize) by {
            if k < n - 1 { let j = choose|j: int| 0 <= j < a.len() && a[j] == k as usize; assert(b[j] == k as usize); } else { assert(b[b.len() - 1] == k as usize); }
        }
        assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]) < n && v[b[k] as int].parent.0.0 == i by { if k < a.len() { assert(a[k] == b[k]); } }
        assert forall|k: int, l: int| 0 <= k < l < b.len() implies #[trigger] b[k] != #[trigger] b[l] by { assert(a[k] == b[k]); if l < a.len() { assert(a[l] == b[l]); } }
    }
}

// ---- the loops of `build`, a step at a time
pub open spec fn loop_types(ps: Seq<PackageBuilder>, c: BuildCache, cur: Seq<PackageBuilder>, v: Seq<TypeInfo>, k: int) -> bool {
    &&& full_cache(c, ps)
    &&& all_scalar(ps)
    &&& all_good(ps, cts(c), 0, ps.len() as int)
    &&& srv_good(ps, css(c), 0, 0, ps.len() as int)
    &&& v.len() == k
    &&& types_built(ps, c, v)
    &&& types_left(ps, cur, cts(c), k)
}
pub open spec fn loop_services(ps: Seq<PackageBuilder>, c: BuildCache, cur: Seq<PackageBuilder>, ts: Seq<TypeInfo>, v: Seq<Service>, k: int) -> bool {
    &&& loop_done(ps, c, ts, v, k)
    &&& services_left(ps, cur, css(c), k)
}
pub open spec fn loop_done(ps: Seq<PackageBuilder>, c: BuildCache, ts: Seq<TypeInfo>, v: Seq<Service>, k: int) -> bool {
    &&& full_cache(c, ps)
    &&& all_good(ps, cts(c), 0, ps.len() as int)
    &&& all_scalar(ps)
    &&& srv_good(ps, css(c), 0, 0, ps.len() as int)
    &&& ts.len() == c.types@.len()
    &&& types_built(ps, c, ts)
    &&& v.len() == k
    &&& services_built(ps, c, v)
}
#[verifier::spinoff_prover]
pub proof fn lemma_loop_all_step(c: BuildCache, ps: Seq<PackageBuilder>, n: nat)
    requires entering_all(c, ps, n), n < ps.len(), n < usize::MAX,
    ensures
        cache_ok(c),
        none_below(c, seq![n as usize]),
        forall|c2: BuildCache, n1: nat| n1 == n + 1 && entered(c, c2, pkg_types(ps[n as int], n as int, ps[n as int].types@.len()), pkg_services(ps[n as int], n as int, ps[n as int].types@.len())) && only_below(c, c2, seq![n as usize]) ==> #[trigger] entering_all(c2, ps, n1),
        forall|e: ParseError| #[trigger] dup_err(c, pkg_names(ps[n as int], n as int, ps[n as int].types@.len()), e) ==> good_error(ps, e),
{
    lemma_entering_all_step(c, ps, n);
}
#[verifier::spinoff_prover]
pub proof fn lemma_loop_types_first(ps: Seq<PackageBuilder>, c: BuildCache, v: Seq<TypeInfo>)
    requires entering_all(c, ps, ps.len()), all_scalar(ps), ps.len() <= usize::MAX, v.len() == 0,
    ensures loop_types(ps, c, ps, v, 0),
{
    lemma_all_good(ps, ps.len());
    lemma_srv_all(ps, ps.len());
}
#[verifier::spinoff_prover]
pub proof fn lemma_loop_types_step(ps: Seq<PackageBuilder>, c: BuildCache, cur: Seq<PackageBuilder>, v: Seq<TypeInfo>, k: int)
    requires loop_types(ps, c, cur, v, k), 0 <= k < c.types@.len(),
    ensures
        cache_ok(c),
        !(c.types@[k].item_type is Service),
        type_node(cur, c.types@[k].idx_path@) is Some,
        forall|b: ProtobufTypeBuilder| #[trigger] taken(type_node(cur, c.types@[k].idx_path@)->0, b) ==> ti_pre(b, c.types@[k], c),
        forall|b: ProtobufTypeBuilder, t: TypeInfo| #[trigger] ti_is(b, c.types@[k], c, t) ==> ti_self(t) == k,
        forall|b: ProtobufTypeBuilder, e: ParseError| taken(type_node(cur, c.types@[k].idx_path@)->0, b) && #[trigger] ti_err(b, c.items@, c.types@[k].full_name@, e) ==> good_error(ps, e),
        forall|b: ProtobufTypeBuilder, t: TypeInfo, cur2: Seq<PackageBuilder>, v2: Seq<TypeInfo>, k2: int| taken(type_node(cur, c.types@[k].idx_path@)->0, b) && #[trigger] ti_is(b, c.types@[k], c, t) && kept(cur, cur2, c.types@[k].idx_path@) && v2 == v.push(t) && k2 == k + 1 ==> #[trigger] loop_types(ps, c, cur2, v2, k2),
{
    hide(all_good); hide(srv_good); hide(all_scalar); hide(msg_is); hide(enum_is); hide(bad_ref); hide(types_left); hide(taken); hide(ti_err);
    let d = c.types@[k];
    lemma_take_types(ps, cur, cts(c), k);
    lemma_taken(ps, c, k);
    let n = node_of(ps, cts(c)[k]);
    assert(cts(c)[k].idx == d.idx_path@);
    assert(d.final_idx == k);
    assert forall|b: ProtobufTypeBuilder, t: TypeInfo| #[trigger] ti_is(b, d, c, t) implies ti_self(t) == k by { reveal(msg_is); reveal(enum_is); }
    assert forall|b: ProtobufTypeBuilder, t: TypeInfo, cur2: Seq<PackageBuilder>, v2: Seq<TypeInfo>, k2: int| taken(n, b) && #[trigger] ti_is(b, d, c, t) && kept(cur, cur2, d.idx_path@) && v2 == v.push(t) && k2 == k + 1 implies #[trigger] loop_types(ps, c, cur2, v2, k2) by {
        assert(node_is(n, d, c, t));
        assert(types_left(ps, cur2, cts(c), k2));
        assert forall|i: int| 0 <= i < v2.len() implies node_is(node_of(ps, cts(c)[i]), c.types@[i], c, #[trigger] v2[i]) by { if i < k { assert(v2[i] == v[i]); } }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_loop_services_first(ps: Seq<PackageBuilder>, c: BuildCache, cur: Seq<PackageBuilder>, ts: Seq<TypeInfo>)
    requires loop_types(ps, c, cur, ts, c.types@.len() as int),
    ensures forall|v: Seq<Service>| v.len() == 0 ==> #[trigger] loop_services(ps, c, cur, ts, v, 0),
{
    hide(full_cache); hide(all_good); hide(srv_good); hide(all_scalar); hide(types_built);
}
#[verifier::spinoff_prover]
pub proof fn lemma_loop_services_step(ps: Seq<PackageBuilder>, c: BuildCache, cur: Seq<PackageBuilder>, ts: Seq<TypeInfo>, v: Seq<Service>, k: int)
    requires loop_services(ps, c, cur, ts, v, k), 0 <= k < c.services@.len(),
    ensures
        cache_ok(c),
        service_node(cur, c.services@[k].idx_path@) is Some,
        c.services@[k].idx_path@.len() == 2,
        forall|e: ParseError| #[trigger] rpcs_err(service_node(cur, c.services@[k].idx_path@)->0.rpcs@, c.items@, c.services@[k].full_name@, e) ==> good_error(ps, e),
        forall|s: Service, cur2: Seq<PackageBuilder>, v2: Seq<Service>, k2: int| #[trigger] service_is(service_node(cur, c.services@[k].idx_path@)->0, c.services@[k], c.items@, s) && kept(cur, cur2, c.services@[k].idx_path@) && v2 == v.push(s) && k2 == k + 1 ==> #[trigger] loop_services(ps, c, cur2, ts, v2, k2),
{
    hide(all_good); hide(srv_good); hide(all_scalar); hide(types_built); hide(service_is); hide(bad_ref); hide(services_left); hide(rpcs_err);
    let d = c.services@[k];
    lemma_take_services(ps, c, cur, k);
    assert(css(c)[k].idx == d.idx_path@);
    let n = srv_of(ps, css(c)[k]);
    assert forall|s: Service, cur2: Seq<PackageBuilder>, v2: Seq<Service>, k2: int| #[trigger] service_is(n, d, c.items@, s) && kept(cur, cur2, d.idx_path@) && v2 == v.push(s) && k2 == k + 1 implies #[trigger] loop_services(ps, c, cur2, ts, v2, k2) by {
        assert(services_left(ps, cur2, css(c), k2));
        assert forall|i: int| 0 <= i < v2.len() implies service_is(srv_of(ps, css(c)[i]), c.services@[i], c.items@, #[trigger] v2[i]) by { if i < k { assert(v2[i] == v[i]); } }
    }
}
pub open spec fn apart_types(v: Seq<TypeInfo>) -> bool { forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> ti_full(#[trigger] v[i]) != ti_full(#[trigger] v[j]) }
pub open spec fn apart_services(v: Seq<Service>) -> bool { forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> (#[trigger] v[i]).full_name@ != (#[trigger] v[j]).full_name@ }
/// What the rest of `build` needs to know of the types and the services.
pub open spec fn loops_know(n: int, ts: Seq<TypeInfo>, ss: Seq<Service>) -> bool {
    &&& apart_types(ts)
    &&& apart_services(ss)
    &&& forall|i: int| 0 <= i < ts.len() ==> ti_self(#[trigger] ts[i]) == i && (ti_parent(ts[i]) matches TypeParent::Package(p) ==> p.0.0 < n)
    &&& forall|i: int| 0 <= i < ss.len() ==> (#[trigger] ss[i]).self_ref.0.0 == i && ss[i].parent.0.0 < n
}
#[verifier::spinoff_prover]
pub proof fn lemma_loops_know(ps: Seq<PackageBuilder>, c: BuildCache, ts: Seq<TypeInfo>, ss: Seq<Service>)
    requires loop_done(ps, c, ts, ss, c.services@.len() as int),
    ensures
        loops_know(ps.len() as int, ts, ss),
        apart_types(ts),
        apart_services(ss),
        forall|m: Map<Seq<char>, usize>| m == Map::<Seq<char>, usize>::empty() ==> #[trigger] type_index(ts, 0, m),
        forall|m: Map<Seq<char>, usize>| m == Map::<Seq<char>, usize>::empty() ==> #[trigger] service_index(ss, 0, m),
{
    hide(all_good); hide(srv_good); hide(all_scalar); hide(full_cache); hide(types_built); hide(services_built);
    lemma_built_types(ps, c, ts);
    lemma_built_services(ps, c, ss);
}
#[verifier::spinoff_prover]
pub proof fn lemma_type_index_step(v: Seq<TypeInfo>, n: int, m: Map<Seq<char>, usize>)
    requires apart_types(v), type_index(v, n, m), 0 <= n < v.len(), n <= usize::MAX,
    ensures forall|m2: Map<Seq<char>, usize>, n1: int| n1 == n + 1 && m2 == m.insert(ti_full(v[n]), n as usize) ==> #[trigger] type_index(v, n1, m2),
{
}
#[verifier::spinoff_prover]
pub proof fn lemma_service_index_step(v: Seq<Service>, n: int, m: Map<Seq<char>, usize>)
    requires apart_services(v), service_index(v, n, m), 0 <= n < v.len(), n <= usize::MAX,
    ensures forall|m2: Map<Seq<char>, usize>, n1: int| n1 == n + 1 && m2 == m.insert(v[n].full_name@, n as usize) ==> #[trigger] service_index(v, n1, m2),
{
}
/// The packages have their names, the first `a` services and the first `b` types.
pub open spec fn loop_pkgs(ps: Seq<PackageBuilder>, ts: Seq<TypeInfo>, ss: Seq<Service>, v: Seq<Package>, a: nat, b: nat) -> bool {
    &&& v.len() == ps.len()
    &&& forall|i: int| 0 <= i < ps.len() ==> opt_str((#[trigger] v[i]).name) == pkg_scope(ps[i]) && v[i].self_ref == PackageRef(InternalRef(i as usize)) && v[i].types@ == pkg_list(ts, i, b) && v[i].services@ == srv_list(ss, i, a)
}
/// Like `v`, but with these types and services in the package `i`.
pub open spec fn pkg_now(v: Seq<Package>, w: Seq<Package>, i: int, ts: Seq<TypeRef>, ss: Seq<usize>) -> bool {
    &&& w.len() == v.len()
    &&& 0 <= i < v.len()
    &&& forall|j: int| 0 <= j < v.len() && j != i ==> #[trigger] w[j] == v[j]
    &&& w[i].name == v[i].name && w[i].self_ref == v[i].self_ref && w[i].types@ == ts && w[i].services@ == ss
}
#[verifier::spinoff_prover]
pub proof fn lemma_loop_pkgs_first(ps: Seq<PackageBuilder>, ts: Seq<TypeInfo>, ss: Seq<Service>, v: Seq<Package>)
    requires v.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> opt_str((#[trigger] v[i]).name) == opt_str(ps[i].name) && v[i].self_ref == PackageRef(InternalRef(i as usize)) && v[i].types@.len() == 0 && v[i].services@.len() == 0,
    ensures loop_pkgs(ps, ts, ss, v, 0, 0),
{
    assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] v[i]).types@ == pkg_list(ts, i, 0) && v[i].services@ == srv_list(ss, i, 0) by { assert(v[i].types@ =~= Seq::empty()); assert(v[i].services@ =~= Seq::empty()); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_loop_pkgs_service(ps: Seq<PackageBuilder>, ts: Seq<TypeInfo>, ss: Seq<Service>, v: Seq<Package>, a: nat)
    requires loop_pkgs(ps, ts, ss, v, a, 0), a < ss.len(), ps.len() <= usize::MAX, loops_know(ps.len() as int, ts, ss),
    ensures
        ss[a as int].parent.0.0 < v.len(),
        forall|w: Seq<Package>, a2: nat| a2 == a + 1 && ({ let i = ss[a as int].parent.0.0 as int; pkg_now(v, w, i, v[i].types@, v[i].services@.push(ss[a as int].self_ref.0.0)) }) ==> #[trigger] loop_pkgs(ps, ts, ss, w, a2, 0),
{
    hide(apart_types); hide(apart_services);
    let i = ss[a as int].parent.0.0 as int;
    let x = ss[a as int].self_ref.0.0;
    assert(x == a);
    assert forall|w: Seq<Package>, a2: nat| a2 == a + 1 && pkg_now(v, w, i, v[i].types@, v[i].services@.push(x)) implies #[trigger] loop_pkgs(ps, ts, ss, w, a2, 0) by {
        assert forall|j: int| 0 <= j < ps.len() implies opt_str((#[trigger] w[j]).name) == pkg_scope(ps[j]) && w[j].self_ref == PackageRef(InternalRef(j as usize)) && w[j].types@ == pkg_list(ts, j, 0) && w[j].services@ == srv_list(ss, j, a2) by { assert(v[j].services@ == srv_list(ss, j, a)); if j != i { assert(w[j] == v[j]); } }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_loop_pkgs_type(ps: Seq<PackageBuilder>, ts: Seq<TypeInfo>, ss: Seq<Service>, v: Seq<Package>, a: nat, b: nat)
    requires loop_pkgs(ps, ts, ss, v, a, b), b < ts.len(), ps.len() <= usize::MAX, loops_know(ps.len() as int, ts, ss),
    ensures
        ti_parent(ts[b as int]) matches TypeParent::Package(p) ==> p.0.0 < v.len(),
        ti_ref(ts[b as int], b as int) == (match ts[b as int] { TypeInfo::Message(m) => TypeRef::Message(m.self_ref), TypeInfo::Enum(e) => TypeRef::Enum(e.self_ref) }),
        forall|w: Seq<Package>, b2: nat| b2 == b + 1 && (match ti_parent(ts[b as int]) { TypeParent::Package(p) => pkg_now(v, w, p.0.0 as int, v[p.0.0 as int].types@.push(ti_ref(ts[b as int], b as int)), v[p.0.0 as int].services@), TypeParent::Message(_) => w == v }) ==> #[trigger] loop_pkgs(ps, ts, ss, w, a, b2),
{
    hide(apart_types); hide(apart_services);
    let t = ts[b as int];
    assert(ti_self(t) == b);
    assert forall|w: Seq<Package>, b2: nat| b2 == b + 1 && (match ti_parent(t) { TypeParent::Package(p) => pkg_now(v, w, p.0.0 as int, v[p.0.0 as int].types@.push(ti_ref(t, b as int)), v[p.0.0 as int].services@), TypeParent::Message(_) => w == v }) implies #[trigger] loop_pkgs(ps, ts, ss, w, a, b2) by {
        assert forall|j: int| 0 <= j < ps.len() implies opt_str((#[trigger] w[j]).name) == pkg_scope(ps[j]) && w[j].self_ref == PackageRef(InternalRef(j as usize)) && w[j].types@ == pkg_list(ts, j, b2) && w[j].services@ == srv_list(ss, j, a) by {
            assert(v[j].types@ == pkg_list(ts, j, b));
            if let TypeParent::Package(p) = ti_parent(t) { if j != p.0.0 { assert(w[j] == v[j]); } }
        }
    }
}
/// The parts of the result, put together.
#[verifier::spinoff_prover]
pub proof fn lemma_loops_end(ps: Seq<PackageBuilder>, c: BuildCache, ts: Seq<TypeInfo>, ss: Seq<Service>)
    requires loop_done(ps, c, ts, ss, c.services@.len() as int),
    ensures forall|x: Context| x.types@ == ts && x.services@ == ss && type_index(ts, ts.len() as int, x.types_by_name@) && service_index(ss, ss.len() as int, x.services_by_name@) && loop_pkgs(ps, ts, ss, x.packages@, ss.len(), ts.len()) ==> #[trigger] good_result(ps, x),
{
    hide(all_good); hide(srv_good); hide(all_scalar); hide(full_cache); hide(types_built); hide(services_built); hide(ctx_inv); hide(type_index); hide(service_index);
    assert forall|x: Context| x.types@ == ts && x.services@ == ss && type_index(ts, ts.len() as int, x.types_by_name@) && service_index(ss, ss.len() as int, x.services_by_name@) && loop_pkgs(ps, ts, ss, x.packages@, ss.len(), ts.len()) implies #[trigger] good_result(ps, x) by {
        assert(built(ps, c, x));
        lemma_built_inv(ps, c, x);
    }
}
// ---- the built context is intact
/// A context built from the packages.
pub open spec fn made(ps: Seq<PackageBuilder>, c: BuildCache, x: Context) -> bool {
    &&& full_cache(c, ps)
    &&& all_good(ps, cts(c), 0, ps.len() as int)
    &&& srv_good(ps, css(c), 0, 0, ps.len() as int)
    &&& all_scalar(ps)
    &&& built(ps, c, x)
}
/// `k` is the kind and `i` the place of a type in the cache, if it is not a service.
pub open spec fn place_ok(c: BuildCache, e: Option<(ItemType, usize)>) -> bool {
    e matches Some((k, i)) ==> (k is Service || i < cts(c).len() && cts(c)[i as int].kind == k)
}
#[verifier::spinoff_prover]
pub proof fn lemma_walk_in(names: Set<Seq<char>>, rel: Seq<char>, cur: Seq<char>)
    ensures walk(names, rel, cur) matches Some(n) ==> names.contains(n),
    decreases cur.len(),
{
    if cur.len() > 0 && outer(cur).len() < cur.len() { lemma_walk_in(names, rel, outer(cur)); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_resolve_in(c: BuildCache)
    requires cache_ok(c),
    ensures forall|rel: Seq<char>, cur: Seq<char>| place_ok(c, #[trigger] resolve(c.items@, rel, cur)),
{
    assert forall|rel: Seq<char>, cur: Seq<char>| place_ok(c, #[trigger] resolve(c.items@, rel, cur)) by { lemma_walk_in(c.items@.dom(), rel, cur); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_by_number_from(fs: Seq<MessageField>)
    ensures forall|n: u64| #[trigger] by_number(fs).dom().contains(n) ==> exists|i: int| 0 <= i < fs.len() && #[trigger] fs[i] == by_number(fs)[n],
    decreases fs.len(),
{
    if fs.len() > 0 {
        let a = fs.drop_last();
        lemma_by_number_from(a);
        assert forall|n: u64| #[trigger] by_number(fs).dom().contains(n) implies exists|i: int| 0 <= i < fs.len() && #[trigger] fs[i] == by_number(fs)[n] by {
            if n == fs.last().number { assert(fs[fs.len() - 1] == by_number(fs)[n]); }
            else {
                assert(by_number(a).dom().contains(n));
                let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == by_number(a)[n];
                assert(fs[i] == by_number(fs)[n]);
            }
        }
    }
}
pub open spec fn tag_ok(o: Option<OneofRef>, n: int) -> bool { o matches Some(o) ==> o.0.0 < n }
#[verifier::spinoff_prover]
pub proof fn lemma_tags(v: Seq<OneofBuilder>, n: nat)
    requires n <= v.len(), n <= usize::MAX,
    ensures forall|i: int| 0 <= i < oneof_fields(v, n).len() ==> tag_ok((#[trigger] oneof_fields(v, n)[i]).1, n as int),
    decreases n,
{
    if n > 0 {
        lemma_tags(v, (n - 1) as nat);
        let a = oneof_fields(v, (n - 1) as nat);
        assert forall|i: int| 0 <= i < oneof_fields(v, n).len() implies tag_ok((#[trigger] oneof_fields(v, n)[i]).1, n as int) by { if i < a.len() { assert(oneof_fields(v, n)[i] == a[i]); } }
    }
}
/// What the fields of a built message refer to.
pub open spec fn field_ok(c: BuildCache, m: MessageInfo, n: u64) -> bool {
    &&& match m.fields@[n].field_type {
        ValueType::Message(r) => r.0.0 < cts(c).len() && cts(c)[r.0.0 as int].kind is Message,
        ValueType::Enum(r) => r.0.0 < cts(c).len() && cts(c)[r.0.0 as int].kind is Enum,
        _ => true,
    }
    &&& tag_ok(m.fields@[n].oneof, m.oneofs@.len() as int)
}
#[verifier::spinoff_prover]
pub proof fn lemma_msg_refs(b: MessageBuilder, c: BuildCache, full: Seq<char>, m: MessageInfo)
    requires cache_ok(c), msg_scalar(b), msg_body(b, c.items@, full, m),
    ensures msg_wf(m), forall|n: u64| #[trigger] m.fields@.dom().contains(n) ==> field_ok(c, m, n),
{
    hide(cache_ok); hide(msg_index); hide(resolve);
    lemma_resolve_in(c);
    let all = all_fields(b);
    let fs = choose|fs: Seq<MessageField>| fields_are(all, c.items@, full, fs) && m.fields@ == #[trigger] by_number(fs);
    lemma_by_number_from(fs);
    assert(b.oneofs.len() == b.oneofs@.len());
    assert(m.oneofs.len() == m.oneofs@.len());
    lemma_tags(b.oneofs@, b.oneofs@.len());
    let os = oneof_fields(b.oneofs@, b.oneofs@.len());
    assert forall|n: u64| #[trigger] m.fields@.dom().contains(n) implies field_ok(c, m, n) by {
        let i = choose|i: int| 0 <= i < fs.len() && #[trigger] fs[i] == by_number(fs)[n];
        assert(field_is(all[i].0, c.items@, full, all[i].1, fs[i]));
        assert(ft_scalar(all[i].0.field_type));
        if i < b.fields@.len() { assert(all[i] == tagged(b.fields@, None)[i]); } else { assert(all[i] == os[i - b.fields@.len()]); }
        match all[i].0.field_type { FieldTypeBuilder::Unknown(s) => { assert(place_ok(c, resolve(c.items@, s@, full))); } _ => {} }
    }
    assert(msg_oneofs(m)) by {
        assert forall|n: u64| #[trigger] m.fields@.dom().contains(n) implies (m.fields@[n].oneof matches Some(o) ==> is_oneof(m, o) && m.oneofs@[o.0.0 as int].fields@.contains(n)) by {
            assert(field_ok(c, m, n));
            if let Some(o) = m.fields@[n].oneof { assert(o == the_oneof(o.0.0 as int)); }
        }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_node_below(ps: Seq<PackageBuilder>, q: Seq<usize>, i: usize)
    requires type_node(ps, q) is Some, type_node(ps, q.push(i)) is Some, q.len() >= 2,
    ensures type_node(ps, q) matches Some(InnerTypeBuilder::Message(m)) && i < m.inner_types@.len() && type_node(ps, q.push(i)) == Some(m.inner_types@[i as int]),
{
    let p = ps[q[0] as int];
    let r = q.drop_first();
    assert(q.push(i).drop_first() =~= r.push(i));
    assert(r.push(i).drop_first() =~= r.drop_first().push(i));
    assert(r.push(i)[0] == r[0]);
    assert(q.push(i)[0] == q[0]);
    lemma_inner_below(as_inner(p.types@[r[0] as int]->Type_0), r.drop_first(), i);
}
#[verifier::spinoff_prover]
pub proof fn lemma_inner_below(t: InnerTypeBuilder, q: Seq<usize>, i: usize)
    requires inner_node(t, q) is Some, inner_node(t, q.push(i)) is Some,
    ensures inner_node(t, q) matches Some(InnerTypeBuilder::Message(m)) && i < m.inner_types@.len() && inner_node(t, q.push(i)) == Some(m.inner_types@[i as int]),
    decreases q.len(),
{
    if q.len() == 0 {
        assert(q.push(i)[0] == i);
        assert(q.push(i).drop_first() =~= Seq::empty());
        assert(inner_node(t, q) == Some(t));
        let x = t->Message_0.inner_types@[i as int];
        assert(inner_node(x, Seq::empty()) == Some(x));
    } else {
        assert(q.push(i).drop_first() =~= q.drop_first().push(i));
        assert(q.push(i)[0] == q[0]);
        lemma_inner_below(t->Message_0.inner_types@[q[0] as int], q.drop_first(), i);
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_made_kinds(ps: Seq<PackageBuilder>, c: BuildCache, x: Context)
    requires made(ps, c, x),
    ensures
        forall|i: int| 0 <= i < x.types@.len() ==> ti_full(#[trigger] x.types@[i]) == cts(c)[i].full && ti_name(x.types@[i]) == node_name(ps, cts(c)[i]) && ti_self(x.types@[i]) == i && ti_parent(x.types@[i]) == parent_at(c, cts(c)[i].idx) && (x.types@[i] is Message <==> cts(c)[i].kind is Message) && (x.types@[i] is Enum <==> cts(c)[i].kind is Enum) && i <= usize::MAX,
        x.types@.len() == cts(c).len(),
        x.types@.len() <= usize::MAX,
        x.services@.len() == css(c).len(),
        x.services@.len() <= usize::MAX,
        cache_ok(c),
        x.packages@.len() == ps.len(),
        x.packages@.len() <= usize::MAX,
{
    hide(all_good); hide(srv_good); hide(all_scalar); hide(types_built); hide(services_built); hide(cache_ok);
    lemma_built_types(ps, c, x.types@);
    assert(x.types.len() == x.types@.len());
    assert(x.services.len() == x.services@.len());
    assert(x.packages.len() == x.packages@.len());
}
#[verifier::spinoff_prover]
pub proof fn lemma_made_body(ps: Seq<PackageBuilder>, c: BuildCache, x: Context, i: int)
    requires made(ps, c, x), 0 <= i < x.types@.len(),
    ensures body_ok(x.types@[i], x),
{
    hide(all_good); hide(srv_good); hide(built); hide(full_cache); hide(cache_ok); hide(msg_body); hide(msg_wf); hide(enum_wf);
    lemma_made_kinds(ps, c, x);
    let n = node_of(ps, cts(c)[i]);
    assert(node_is(n, c.types@[i], c, x.types@[i])) by { reveal(built); }
    match x.types@[i] {
        TypeInfo::Message(m) => {
            let b = n->Message_0;
            assert(type_node(ps, cts(c)[i].idx) == Some(n)) by { reveal(all_good); assert(decl_node(ps, cts(c)[i])); }
            assert(msg_scalar(b));
            lemma_msg_refs(b, c, c.types@[i].full_name@, m);
            assert forall|k: u64| #[trigger] m.fields@.dom().contains(k) implies vt_in(m.fields@[k].field_type, x) by { assert(field_ok(c, m, k)); }
        }
        TypeInfo::Enum(e) => {}
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_made_place(ps: Seq<PackageBuilder>, c: BuildCache, x: Context, i: int)
    requires made(ps, c, x), 0 <= i < x.types@.len(),
    ensures
        is_parent(x, ti_parent(x.types@[i])),
        ti_full(x.types@[i]) == full_of(x, ti_parent(x.types@[i]), ti_name(x.types@[i])),
        children(x, ti_parent(x.types@[i])).contains(ti_ref(x.types@[i], i)),
{
    hide(all_good); hide(srv_good); hide(full_cache); hide(cache_ok); hide(msg_body); hide(enum_wf); hide(all_scalar); hide(types_built); hide(services_built); hide(type_index); hide(service_index); hide(type_node); hide(in_scope);
    lemma_made_kinds(ps, c, x);
    let ts = cts(c);
    let t = x.types@[i];
    lemma_place(ps, c, i);
    assert(c.types@[i].idx_path@ == ts[i].idx);
    match ti_parent(t) {
        TypeParent::Package(p) => {
            let j = p.0.0 as int;
            assert(p == PackageRef(InternalRef(j as usize)));
            lemma_pkg_list(x.types@, j, x.types@.len());
            assert(x.packages@[j].types@ == pkg_list(x.types@, j, x.types@.len()));
            reveal(in_scope);
        }
        TypeParent::Message(r) => {
            let j = r.0.0 as int;
            assert(holds(ps, ts, j, i));
            let n = node_of(ps, ts[j]);
            assert(type_node(ps, ts[j].idx) == Some(n) && type_node(ps, ts[i].idx) is Some && ts[j].idx.len() >= 2) by { reveal(all_good); assert(decl_node(ps, ts[j])); assert(decl_node(ps, ts[i])); }
            let l = ts[i].idx.last();
            assert(ts[j].idx.push(l) =~= ts[i].idx);
            lemma_node_below(ps, ts[j].idx, l);
            let b = n->Message_0;
            assert(node_is(n, c.types@[j], c, x.types@[j])) by { reveal(types_built); }
            let m = x.types@[j]->Message_0;
            assert(m.inner_types@[l as int] == entry_ref(c.items@[join(c.types@[j].full_name@, inner_name(b.inner_types@[l as int]))]));
            assert(c.items@[ts[i].full] == (ts[i].kind, i as usize) && !(ts[i].kind is Service)) by { reveal(full_cache); reveal(cache_ok); }
            assert(m.inner_types@[l as int] == ti_ref(t, i));
        }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_made_inner(ps: Seq<PackageBuilder>, c: BuildCache, x: Context, i: int)
    requires made(ps, c, x), 0 <= i < x.types@.len(), x.types@[i] is Message,
    ensures lists_ok(x, TypeParent::Message(MessageRef(InternalRef(i as usize)))),
{
    hide(all_good); hide(srv_good); hide(full_cache); hide(cache_ok); hide(msg_body); hide(enum_wf); hide(all_scalar); hide(types_built); hide(services_built); hide(type_index); hide(service_index); hide(type_node); hide(in_scope);
    lemma_made_kinds(ps, c, x);
    let ts = cts(c);
    let p = TypeParent::Message(MessageRef(InternalRef(i as usize)));
    let n = node_of(ps, ts[i]);
    let m = x.types@[i]->Message_0;
    let b = n->Message_0;
    assert(node_is(n, c.types@[i], c, x.types@[i])) by { reveal(types_built); }
    assert(children(x, p) == m.inner_types@);
    assert(b.inner_types.len() == b.inner_types@.len());
    let q = ts[i].idx;
    assert(c.types@[i].idx_path@ == q);
    assert(c.items_by_idx@[q] == (ItemType::Message, i as usize)) by { reveal(cache_ok); assert(ts[i].kind == c.types@[i].item_type); }
    assert(q.len() >= 2) by { reveal(all_good); assert(decl_node(ps, ts[i])); }
    assert forall|k: int| 0 <= k < children(x, p).len() implies is_type(x, #[trigger] children(x, p)[k]) && ti_parent(x.types@[ref_idx(children(x, p)[k])]) == p && ts[ref_idx(children(x, p)[k])].idx == q.push(k as usize) by {
        lemma_inner(ps, c, i, k);
        let f = join(ts[i].full, inner_name(b.inner_types@[k]));
        let l = c.items@[f].1 as int;
        assert(m.inner_types@[k] == entry_ref(c.items@[f]));
        assert(q.push(k as usize).drop_last() =~= q);
        assert(ts[l].idx.drop_last() == q);
        assert(!(c.items@[f].0 is Service));
        assert(ti_parent(x.types@[l]) == parent_at(c, ts[l].idx));
    }
    assert forall|k: int, l: int| 0 <= k < l < children(x, p).len() implies #[trigger] children(x, p)[k] != #[trigger] children(x, p)[l] by {
        assert(ts[ref_idx(children(x, p)[k])].idx == q.push(k as usize));
        assert(ts[ref_idx(children(x, p)[l])].idx == q.push(l as usize));
        assert(q.push(k as usize).last() == k as usize);
        assert(q.push(l as usize).last() == l as usize);
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_made_pkg(ps: Seq<PackageBuilder>, c: BuildCache, x: Context, i: int)
    requires made(ps, c, x), 0 <= i < x.packages@.len(),
    ensures pkg_ok(x, i),
{
    hide(all_good); hide(srv_good); hide(full_cache); hide(cache_ok); hide(all_scalar); hide(types_built); hide(services_built); hide(type_index); hide(service_index);
    lemma_made_kinds(ps, c, x);
    let p = x.packages@[i];
    lemma_built_services(ps, c, x.services@);
    lemma_pkg_list(x.types@, i, x.types@.len());
    lemma_srv_list(x.services@, i, x.services@.len());
    assert(p.self_ref == PackageRef(InternalRef(i as usize)));
    let tp = TypeParent::Package(p.self_ref);
    assert(children(x, tp) == pkg_list(x.types@, i, x.types@.len()));
    assert forall|k: int| 0 <= k < children(x, tp).len() implies is_type(x, #[trigger] children(x, tp)[k]) && ti_parent(x.types@[ref_idx(children(x, tp)[k])]) == tp by {
        assert(lists_one(x.types@, i, x.types@.len() as int, pkg_list(x.types@, i, x.types@.len())[k]));
    }
    assert(p.services@ == srv_list(x.services@, i, x.services@.len()));
    assert forall|k: int| 0 <= k < p.services@.len() implies (#[trigger] p.services@[k]) < x.services@.len() && x.services@[p.services@[k] as int].parent == p.self_ref by {
        let s = x.services@[p.services@[k] as int];
        assert(s.parent.0.0 == i);
        assert(s.parent == PackageRef(InternalRef(i as usize)));
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_made_service(ps: Seq<PackageBuilder>, c: BuildCache, x: Context, i: int)
    requires made(ps, c, x), 0 <= i < x.services@.len(),
    ensures service_ok(x, i), x.services@[i].self_ref.0.0 == i,
{
    hide(all_good); hide(srv_good); hide(full_cache); hide(cache_ok); hide(all_scalar); hide(types_built); hide(services_built); hide(type_index); hide(resolve); hide(service_wf);
    lemma_made_kinds(ps, c, x);
    let s = x.services@[i];
    lemma_built_services(ps, c, x.services@);
    lemma_resolve_in(c);
    let j = s.parent.0.0 as int;
    lemma_srv_list(x.services@, j, x.services@.len());
    assert(x.packages@[j].services@ == srv_list(x.services@, j, x.services@.len()));
    assert(service_is(srv_of(ps, css(c)[i]), c.services@[i], c.items@, s)) by { reveal(services_built); }
    let b = srv_of(ps, css(c)[i]);
    assert forall|k: int| 0 <= k < s.rpcs@.len() implies rpc_ok(x, #[trigger] s.rpcs@[k]) by {
        assert(rpc_is(b.rpcs@[k], c.items@, c.services@[i].full_name@, s.rpcs@[k]));
        assert(place_ok(c, resolve(c.items@, b.rpcs@[k].input.message@, c.services@[i].full_name@)));
        assert(place_ok(c, resolve(c.items@, b.rpcs@[k].output.message@, c.services@[i].full_name@)));
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_built_inv(ps: Seq<PackageBuilder>, c: BuildCache, x: Context)
    requires full_cache(c, ps), all_good(ps, cts(c), 0, ps.len() as int), srv_good(ps, css(c), 0, 0, ps.len() as int), all_scalar(ps), built(ps, c, x),
    ensures ctx_inv(x),
{
    hide(pkg_ok); hide(service_ok); hide(lists_ok); hide(full_cache); hide(all_good); hide(srv_good); hide(all_scalar); hide(types_built); hide(services_built); hide(body_ok); hide(full_of); hide(children); hide(is_parent);
    assert(made(ps, c, x));
    lemma_made_kinds(ps, c, x);
    assert forall|i: int| 0 <= i < x.types@.len() implies type_ok(x, i) && (#[trigger] x.types@[i] is Message ==> lists_ok(x, TypeParent::Message(MessageRef(InternalRef(i as usize))))) by {
        lemma_made_body(ps, c, x, i);
        lemma_made_place(ps, c, x, i);
        if x.types@[i] is Message { lemma_made_inner(ps, c, x, i); }
    }
    assert forall|i: int| 0 <= i < x.services@.len() implies (#[trigger] x.services@[i]).self_ref.0.0 == i && service_ok(x, i) by { lemma_made_service(ps, c, x, i); }
    assert forall|i: int| 0 <= i < x.packages@.len() implies (#[trigger] x.packages@[i]).self_ref.0.0 == i && pkg_ok(x, i) by { lemma_made_pkg(ps, c, x, i); assert(opt_str(x.packages@[i].name) == pkg_scope(ps[i])); }
}

/// Mentions all that `build` hides: Verus cannot hide what a function does not reach.
pub proof fn lemma_reach(ps: Seq<PackageBuilder>, c: BuildCache, ts: Seq<TypeInfo>, ss: Seq<Service>, x: Context, e: ParseError, d: CacheData, n: InnerTypeBuilder, b: ProtobufTypeBuilder, s: ServiceBuilder, m: Map<Seq<char>, usize>)
    ensures true || entering_all(c, ps, 0) || none_below(c, d.idx_path@) || only_below(c, c, d.idx_path@) || entered(c, c, cts(c), css(c)) || dup_err(c, cts(c), e) || good_error(ps, e) || good_result(ps, x)
        || loop_types(ps, c, ps, ts, 0) || loop_services(ps, c, ps, ts, ss, 0) || loop_done(ps, c, ts, ss, 0) || loops_know(0, ts, ss) || apart_types(ts) || apart_services(ss) || taken(n, b) || ti_pre(b, d, c) || ti_is(b, d, c, ts[0]) || ti_err(b, c.items@, d.full_name@, e)
        || kept(ps, ps, d.idx_path@) || service_is(s, d, c.items@, ss[0]) || rpcs_err(s.rpcs@, c.items@, d.full_name@, e) || all_scalar(ps) || type_index(ts, 0, m) || service_index(ss, 0, m) || loop_pkgs(ps, ts, ss, x.packages@, 0, 0) || type_node(ps, d.idx_path@) is Some || service_node(ps, d.idx_path@) is Some
        || pkg_names(ps[0], 0, 0) == pkg_types(ps[0], 0, 0) + pkg_services(ps[0], 0, 0) || ctx_inv(x) || pkg_list(ts, 0, 0).len() == 0 || srv_list(ss, 0, 0).len() == 0 || pkg_scope(ps[0]) is Some || cache_ok(c),
{
}

// ---- the properties
/// The names the files declare.
pub open spec fn declared_names(ps: Seq<PackageBuilder>) -> Set<Seq<char>> { full_names(names_in(ps)).to_set() }
pub open spec fn full_names(ds: Seq<Decl>) -> Seq<Seq<char>> { Seq::new(ds.len(), |k: int| ds[k].full) }
#[verifier::spinoff_prover]
pub proof fn lemma_full_names(ps: Seq<PackageBuilder>, c: BuildCache)
    requires full_cache(c, ps),
    ensures
        c.items@.dom() =~= declared_names(ps),
        forall|n: Seq<char>| !declared_twice(names_in(ps), n),
{
    let (a, b) = (types_in(ps), services_in(ps));
    let ds = names_in(ps);
    assert forall|n: Seq<char>| #[trigger] declared_names(ps).contains(n) <==> declared(ds, n) by {
        if declared(ds, n) { let k = choose|k: int| 0 <= k < ds.len() && (#[trigger] ds[k]).full == n; assert(full_names(ds)[k] == n); }
        if full_names(ds).contains(n) { let k = choose|k: int| 0 <= k < full_names(ds).len() && full_names(ds)[k] == n; assert(ds[k].full == n); }
    }
    assert forall|n: Seq<char>| c.items@.dom().contains(n) <==> declared(ds, n) by {
        if c.items@.dom().contains(n) {
            let k = c.items@[n].1 as int;
            if c.items@[n].0 is Service { assert(ds[a.len() + k] == b[k]); } else { assert(ds[k] == a[k]); }
        }
        if declared(ds, n) {
            let k = choose|k: int| 0 <= k < ds.len() && (#[trigger] ds[k]).full == n;
            if k < a.len() { assert(a[k] == ds[k]); } else { assert(b[k - a.len()] == ds[k]); }
        }
    }
    assert forall|n: Seq<char>| !declared_twice(ds, n) by {
        if declared_twice(ds, n) {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < ds.len() && #[trigger] ds[i].full == n && #[trigger] ds[j].full == n;
            if j < a.len() { assert(a[i] == ds[i] && a[j] == ds[j]); assert(c.items@[a[i].full].1 == i && c.items@[a[j].full].1 == j); }
            else if i >= a.len() { assert(b[i - a.len()] == ds[i] && b[j - a.len()] == ds[j]); assert(c.items@[b[i - a.len()].full].1 == i - a.len()); assert(c.items@[b[j - a.len()].full].1 == j - a.len()); }
            else { assert(a[i] == ds[i] && b[j - a.len()] == ds[j]); assert(!(c.items@[a[i].full].0 is Service)); }
        }
    }
}
/// The scope `k` levels out from `cur`.
pub open spec fn outwards(cur: Seq<char>, k: nat) -> Seq<char>
    decreases k,
{
    if k == 0 { cur } else { outer(outwards(cur, (k - 1) as nat)) }
}
/// The name `rel` stands for in `scope`; the root is the empty scope.
pub open spec fn within(scope: Seq<char>, rel: Seq<char>) -> Seq<char> { if scope.len() == 0 { rel } else { join(scope, rel) } }
/// Some scope from `cur` outwards to the root declares the name, and `n` is that name in the innermost such scope.
pub open spec fn innermost(names: Set<Seq<char>>, rel: Seq<char>, cur: Seq<char>, n: Seq<char>) -> bool {
    exists|k: nat| n == within(#[trigger] outwards(cur, k), rel) && names.contains(n) && (forall|j: nat| j < k ==> !names.contains(within(#[trigger] outwards(cur, j), rel)))
}
pub proof fn lemma_outer_shorter(cur: Seq<char>)
    requires cur.len() > 0,
    ensures outer(cur).len() < cur.len(),
{
    lemma_last_pos(cur, '.');
}
pub proof fn lemma_outwards(cur: Seq<char>, k: nat)
    ensures outwards(cur, k + 1) == outwards(outer(cur), k),
    decreases k,
{
    assert(outwards(cur, k + 1) == outer(outwards(cur, k)));
    if k > 0 { lemma_outwards(cur, (k - 1) as nat); assert(outwards(outer(cur), k) == outer(outwards(outer(cur), (k - 1) as nat))); } else { assert(outwards(cur, 0) == cur); }
}
pub proof fn lemma_outwards_root(cur: Seq<char>, k: nat)
    requires cur.len() == 0,
    ensures outwards(cur, k).len() == 0,
    decreases k,
{
    if k > 0 { lemma_outwards_root(cur, (k - 1) as nat); lemma_last_pos(outwards(cur, (k - 1) as nat), '.'); }
}
pub proof fn lemma_walk_innermost(names: Set<Seq<char>>, rel: Seq<char>, cur: Seq<char>)
    ensures match walk(names, rel, cur) { Some(n) => innermost(names, rel, cur, n), None => forall|k: nat| !names.contains(within(#[trigger] outwards(cur, k), rel)) },
    decreases cur.len(),
{
    let m = within(cur, rel);
    assert(outwards(cur, 0) == cur);
    if names.contains(m) {
        assert(innermost(names, rel, cur, m));
    } else if cur.len() == 0 {
        assert forall|k: nat| !names.contains(within(#[trigger] outwards(cur, k), rel)) by { lemma_outwards_root(cur, k); }
    } else {
        lemma_outer_shorter(cur);
        lemma_walk_innermost(names, rel, outer(cur));
        match walk(names, rel, outer(cur)) {
            Some(n) => {
                let k = choose|k: nat| n == within(#[trigger] outwards(outer(cur), k), rel) && names.contains(n) && (forall|j: nat| j < k ==> !names.contains(within(#[trigger] outwards(outer(cur), j), rel)));
                lemma_outwards(cur, k);
                assert(n == within(outwards(cur, k + 1), rel));
                assert forall|j: nat| j < k + 1 implies !names.contains(within(#[trigger] outwards(cur, j), rel)) by { if j > 0 { lemma_outwards(cur, (j - 1) as nat); assert(!names.contains(within(outwards(outer(cur), (j - 1) as nat), rel))); } }
            }
            None => {
                assert forall|k: nat| !names.contains(within(#[trigger] outwards(cur, k), rel)) by { if k > 0 { lemma_outwards(cur, (k - 1) as nat); assert(!names.contains(within(outwards(outer(cur), (k - 1) as nat), rel))); } }
            }
        }
    }
}
/// A name refers to its declaration in the innermost scope that has one, or, with a leading dot, in the root.
pub proof fn prop_c11_innermost(names: Set<Seq<char>>, rel: Seq<char>, cur: Seq<char>)
    ensures
        rel.len() > 0 && rel[0] == '.' ==> scope_find(names, rel, cur) == (if names.contains(rel.skip(1)) { Some(rel.skip(1)) } else { None::<Seq<char>> }),
        !(rel.len() > 0 && rel[0] == '.') ==> match scope_find(names, rel, cur) { Some(n) => innermost(names, rel, cur, n), None => forall|k: nat| !names.contains(within(#[trigger] outwards(cur, k), rel)) },
{
    lemma_walk_innermost(names, rel, cur);
}
/// What a name refers to does not depend on the order of declarations or files, only on which names are declared.
pub proof fn prop_c11_order(ps: Seq<PackageBuilder>, c: BuildCache, ps2: Seq<PackageBuilder>, c2: BuildCache, rel: Seq<char>, cur: Seq<char>)
    requires full_cache(c, ps), full_cache(c2, ps2), declared_names(ps) == declared_names(ps2),
    ensures scope_find(c.items@.dom(), rel, cur) == scope_find(c2.items@.dom(), rel, cur),
{
    lemma_full_names(ps, c);
    lemma_full_names(ps2, c2);
    assert(c.items@.dom() == c2.items@.dom());
}
/// The type `r` of the context is the one called `n`, and is of the kind `k`.
pub open spec fn is_named(x: Context, r: usize, n: Option<Seq<char>>, k: ItemType) -> bool {
    r < x.types@.len() && n == Some(ti_full(x.types@[r as int])) && (x.types@[r as int] is Message <==> k is Message) && (x.types@[r as int] is Enum <==> k is Enum)
}
/// The field types and rpc types of a built context are what the names in the files refer to.
#[verifier::spinoff_prover]
pub proof fn prop_c11_references(ps: Seq<PackageBuilder>, c: BuildCache, x: Context, rel: Seq<char>, cur: Seq<char>)
    requires made(ps, c, x),
    ensures
        forall|f: String, v: ValueType| f@ == rel && #[trigger] ft_is(FieldTypeBuilder::Unknown(f), c.items@, cur, v) ==> match v {
            ValueType::Message(r) => is_named(x, r.0.0, scope_find(declared_names(ps), rel, cur), ItemType::Message),
            ValueType::Enum(r) => is_named(x, r.0.0, scope_find(declared_names(ps), rel, cur), ItemType::Enum),
            _ => false,
        },
        forall|b: RpcArgBuilder, a: RpcArg| b.message@ == rel && #[trigger] arg_is(b, c.items@, cur, a) ==> is_named(x, a.message.0.0, scope_find(declared_names(ps), rel, cur), ItemType::Message),
{
    hide(all_good); hide(srv_good); hide(built); hide(full_cache); hide(all_scalar); hide(cache_ok); hide(declared_names); hide(walk);
    lemma_made_kinds(ps, c, x);
    lemma_resolve_in(c);
    lemma_full_names(ps, c);
    assert forall|n: Seq<char>| #[trigger] c.items@.dom().contains(n) && !(c.items@[n].0 is Service) implies cts(c)[c.items@[n].1 as int].full == n by { reveal(cache_ok); }
    assert(place_ok(c, resolve(c.items@, rel, cur)));
    if !(rel.len() > 0 && rel[0] == '.') { lemma_walk_in(c.items@.dom(), rel, cur); }
    assert(scope_find(c.items@.dom(), rel, cur) matches Some(n) ==> c.items@.dom().contains(n));
    lemma_walk_in(c.items@.dom(), rel, cur);
    assert(c.items@.dom() == declared_names(ps));
}
/// Every built context is intact.
pub proof fn prop_c12_intact(ps: Seq<PackageBuilder>, r: Result<Context, ParseError>)
    requires build_does(ps, r),
    ensures r matches Ok(x) ==> ctx_inv(x),
{
}
/// Some field of a message, or some argument of an rpc, has a name that refers to nothing, or to something of the wrong kind.
pub open spec fn wrong_field(ps: Seq<PackageBuilder>, c: BuildCache, k: int, i: int, e: ParseError) -> bool {
    0 <= k < cts(c).len() && (node_of(ps, cts(c)[k]) matches InnerTypeBuilder::Message(m) && 0 <= i < all_fields(m).len() && ft_err(all_fields(m)[i].0.field_type, c.items@, cts(c)[k].full, e))
}
pub open spec fn wrong_rpc(ps: Seq<PackageBuilder>, c: BuildCache, k: int, i: int, e: ParseError) -> bool {
    0 <= k < css(c).len() && 0 <= i < srv_of(ps, css(c)[k]).rpcs@.len() && rpc_err(srv_of(ps, css(c)[k]).rpcs@[i], c.items@, css(c)[k].full, e)
}
pub open spec fn wrong_ref(ps: Seq<PackageBuilder>, c: BuildCache, k: int, i: int, e: ParseError) -> bool { wrong_field(ps, c, k, i, e) || wrong_rpc(ps, c, k, i, e) }
/// Names declared twice are a duplicate-type error naming such a name, and nothing else is; of other files, those with a bad reference are an error telling of one; all others succeed.
#[verifier::spinoff_prover]
pub proof fn prop_c13_errors(ps: Seq<PackageBuilder>, r: Result<Context, ParseError>)
    requires build_does(ps, r),
    ensures
        (exists|n: Seq<char>| declared_twice(names_in(ps), n)) <==> (r matches Err(ParseError::DuplicateType { name })),
        r matches Err(ParseError::DuplicateType { name }) ==> declared_twice(names_in(ps), name@),
        r is Err && !(r->Err_0 is DuplicateType) ==> exists|c: BuildCache, k: int, i: int| full_cache(c, ps) && #[trigger] wrong_ref(ps, c, k, i, r->Err_0),
{
    hide(full_cache); hide(built); hide(ctx_inv); hide(all_fields); hide(declared_twice); hide(type_node); hide(service_node); hide(resolve);
    if let Err(e) = r {
        if exists|c: BuildCache| #[trigger] full_cache(c, ps) && bad_ref(ps, c, e) {
            let c = choose|c: BuildCache| #[trigger] full_cache(c, ps) && bad_ref(ps, c, e);
            lemma_full_names(ps, c);
            if exists|k: int| 0 <= k < cts(c).len() && (node_of(ps, #[trigger] cts(c)[k]) matches InnerTypeBuilder::Message(m) && fields_err(all_fields(m), c.items@, cts(c)[k].full, e)) {
                let k = choose|k: int| 0 <= k < cts(c).len() && (node_of(ps, #[trigger] cts(c)[k]) matches InnerTypeBuilder::Message(m) && fields_err(all_fields(m), c.items@, cts(c)[k].full, e));
                let m = node_of(ps, cts(c)[k])->Message_0;
                let i = choose|i: int| 0 <= i < all_fields(m).len() && ft_err((#[trigger] all_fields(m)[i]).0.field_type, c.items@, cts(c)[k].full, e);
                assert(wrong_ref(ps, c, k, i, e));
                assert(!(e is DuplicateType));
            } else {
                let k = choose|k: int| 0 <= k < css(c).len() && rpcs_err(srv_of(ps, #[trigger] css(c)[k]).rpcs@, c.items@, css(c)[k].full, e);
                let i = choose|i: int| 0 <= i < srv_of(ps, css(c)[k]).rpcs@.len() && rpc_err(#[trigger] srv_of(ps, css(c)[k]).rpcs@[i], c.items@, css(c)[k].full, e);
                assert(wrong_ref(ps, c, k, i, e));
                assert(!(e is DuplicateType));
            }
        }
    } else {
        let c = choose|c: BuildCache| #[trigger] full_cache(c, ps) && built(ps, c, r->Ok_0);
        lemma_full_names(ps, c);
    }
}
/// A context is built only if no reference is bad.
#[verifier::spinoff_prover]
pub proof fn prop_c13_accepted(ps: Seq<PackageBuilder>, r: Result<Context, ParseError>)
    requires build_does(ps, r), r is Ok, ps.len() <= usize::MAX,
    ensures exists|c: BuildCache| #[trigger] full_cache(c, ps) && built(ps, c, r->Ok_0) && forall|k: int, i: int, e: ParseError| !#[trigger] wrong_ref(ps, c, k, i, e),
{
    hide(built); hide(all_good); hide(ctx_inv); hide(wrong_ref); hide(cache_ok);
    let c = choose|c: BuildCache| #[trigger] full_cache(c, ps) && built(ps, c, r->Ok_0);
    lemma_all_good(ps, ps.len());
    assert forall|k: int, i: int, e: ParseError| !#[trigger] wrong_ref(ps, c, k, i, e) by { lemma_accepted(ps, c, r->Ok_0, e); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_accepted(ps: Seq<PackageBuilder>, c: BuildCache, x: Context, e: ParseError)
    requires full_cache(c, ps), all_good(ps, cts(c), 0, ps.len() as int), built(ps, c, x),
    ensures forall|k: int, i: int| !#[trigger] wrong_ref(ps, c, k, i, e),
{
    hide(full_cache); hide(all_good); hide(resolve); hide(types_built); hide(services_built);
    assert forall|k: int, i: int| !#[trigger] wrong_field(ps, c, k, i, e) by {
        if wrong_field(ps, c, k, i, e) {
            let b = node_of(ps, cts(c)[k])->Message_0;
            assert(node_is(node_of(ps, cts(c)[k]), c.types@[k], c, x.types@[k])) by { reveal(types_built); }
            let m = x.types@[k]->Message_0;
            let fs = choose|fs: Seq<MessageField>| fields_are(all_fields(b), c.items@, c.types@[k].full_name@, fs) && m.fields@ == #[trigger] by_number(fs);
            assert(field_is(all_fields(b)[i].0, c.items@, c.types@[k].full_name@, all_fields(b)[i].1, fs[i]));
        }
    }
    assert forall|k: int, i: int| !#[trigger] wrong_rpc(ps, c, k, i, e) by {
        if wrong_rpc(ps, c, k, i, e) {
            let b = srv_of(ps, css(c)[k]);
            assert(service_is(b, c.services@[k], c.items@, x.services@[k])) by { reveal(services_built); }
            assert(rpc_is(b.rpcs@[i], c.items@, c.services@[k].full_name@, x.services@[k].rpcs@[i]));
        }
    }
}
/// The first option of this name.
pub open spec fn first_packed(options: Seq<ProtoOption>, i: int) -> bool { 0 <= i < options.len() && options[i].name@ == "packed"@ && forall|j: int| 0 <= j < i ==> (#[trigger] options[j]).name@ != "packed"@ }
pub proof fn lemma_packed_opt(options: Seq<ProtoOption>)
    ensures
        forall|i: int| #[trigger] first_packed(options, i) ==> packed_opt(options) == Some(options[i].value),
        (forall|j: int| 0 <= j < options.len() ==> (#[trigger] options[j]).name@ != "packed"@) ==> packed_opt(options) is None,
    decreases options.len(),
{
    if options.len() > 0 {
        let r = options.drop_first();
        lemma_packed_opt(r);
        assert forall|i: int| #[trigger] first_packed(options, i) implies packed_opt(options) == Some(options[i].value) by {
            if i > 0 { assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] r[j]).name@ != "packed"@ by { assert(r[j] == options[j + 1]); } assert(r[i - 1] == options[i]); assert(first_packed(r, i - 1)); }
        }
        if forall|j: int| 0 <= j < options.len() ==> (#[trigger] options[j]).name@ != "packed"@ {
            assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]).name@ != "packed"@ by { assert(r[j] == options[j + 1]); }
        }
    }
}
pub proof fn prop_c16_packing(m: Multiplicity, t: FieldTypeBuilder, options: Seq<ProtoOption>)
    ensures
        m != Multiplicity::Repeated ==> mult(m, t, options) == m,
        m == Multiplicity::Repeated && !numeric_or_bool(t) ==> mult(m, t, options) == Multiplicity::Repeated,
        m == Multiplicity::Repeated && numeric_or_bool(t) && (forall|j: int| 0 <= j < options.len() ==> (#[trigger] options[j]).name@ != "packed"@) ==> mult(m, t, options) == Multiplicity::RepeatedPacked,
        forall|i: int| m == Multiplicity::Repeated && numeric_or_bool(t) && #[trigger] first_packed(options, i) ==> mult(m, t, options) == (if options[i].value == Constant::Bool(true) { Multiplicity::RepeatedPacked } else { Multiplicity::Repeated }),
{
    lemma_packed_opt(options);
}
/// Every field of every built message has that multiplicity.
#[verifier::spinoff_prover]
pub proof fn prop_c16_fields(ps: Seq<PackageBuilder>, c: BuildCache, x: Context, k: int)
    requires made(ps, c, x), 0 <= k < x.types@.len(), x.types@[k] is Message,
    ensures forall|n: u64| #[trigger] x.types@[k]->Message_0.fields@.dom().contains(n) ==> exists|b: FieldBuilder| b.number == n && x.types@[k]->Message_0.fields@[n].multiplicity == #[trigger] mult(b.multiplicity, b.field_type, b.options@),
{
    hide(full_cache); hide(all_good); hide(srv_good); hide(all_scalar); hide(mult); hide(resolve); hide(types_built); hide(services_built);
    lemma_made_kinds(ps, c, x);
    assert(node_is(node_of(ps, cts(c)[k]), c.types@[k], c, x.types@[k])) by { reveal(types_built); }
    let b = node_of(ps, cts(c)[k])->Message_0;
    let m = x.types@[k]->Message_0;
    let fs = choose|fs: Seq<MessageField>| fields_are(all_fields(b), c.items@, c.types@[k].full_name@, fs) && m.fields@ == #[trigger] by_number(fs);
    lemma_by_number_from(fs);
    assert forall|n: u64| #[trigger] m.fields@.dom().contains(n) implies exists|b: FieldBuilder| b.number == n && m.fields@[n].multiplicity == #[trigger] mult(b.multiplicity, b.field_type, b.options@) by {
        let i = choose|i: int| 0 <= i < fs.len() && #[trigger] fs[i] == by_number(fs)[n];
        let f = all_fields(b)[i].0;
        assert(field_is(f, c.items@, c.types@[k].full_name@, all_fields(b)[i].1, fs[i]));
        assert(m.fields@[n].multiplicity == mult(f.multiplicity, f.field_type, f.options@));
        assert(m.fields@[n].number == n) by { lemma_by_number(fs); }
    }
}
