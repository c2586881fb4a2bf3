// ---- what building needs of parsed definitions: a builtin type of a field is a scalar one
pub open spec fn as_inner(t: ProtobufTypeBuilder) -> InnerTypeBuilder { match t { ProtobufTypeBuilder::Message(m) => InnerTypeBuilder::Message(m), ProtobufTypeBuilder::Enum(e) => InnerTypeBuilder::Enum(e) } }
pub open spec fn ft_scalar(t: FieldTypeBuilder) -> bool { match t { FieldTypeBuilder::Builtin(ValueType::Message(_)) | FieldTypeBuilder::Builtin(ValueType::Enum(_)) => false, _ => true } }
pub open spec fn fields_scalar(v: Seq<FieldBuilder>) -> bool { forall|i: int| 0 <= i < v.len() ==> ft_scalar((#[trigger] v[i]).field_type) }
pub open spec fn deep_scalar(t: InnerTypeBuilder) -> bool
    decreases t,
{
    match t {
        InnerTypeBuilder::Message(m) => fields_scalar(m.fields@)
            && (forall|k: int| 0 <= k < m.oneofs@.len() ==> fields_scalar((#[trigger] m.oneofs@[k]).fields@))
            && forall|i: int| 0 <= i < m.inner_types@.len() ==> deep_scalar(#[trigger] m.inner_types@[i]),
        InnerTypeBuilder::Enum(_) => true,
    }
}
pub open spec fn pkg_scalar(p: PackageBuilder) -> bool { forall|i: int| 0 <= i < p.types@.len() ==> ((#[trigger] p.types@[i]) matches ProtobufItemBuilder::Type(t) ==> deep_scalar(as_inner(t))) }
pub open spec fn all_deep(ps: Seq<PackageBuilder>) -> bool { forall|i: int| 0 <= i < ps.len() ==> pkg_scalar(#[trigger] ps[i]) }
