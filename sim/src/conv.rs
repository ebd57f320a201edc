//! Between the harness's tree and the real svd-rs objects.

use crate::model::*;
use svd_rs::addressblock::AddressBlockBuilder;
use svd_rs::interrupt::InterruptBuilder;
use svd_rs::*;

type R<T> = Result<T, SvdError>;

macro_rules! enum_map {
    ($from:ident, $tok:ident, $t:ty, $( $s:literal => $v:ident ),* $(,)?) => {
        pub fn $from(s: &str) -> Option<$t> {
            match s { $( $s => Some(<$t>::$v), )* _ => None }
        }
        pub fn $tok(v: $t) -> &'static str {
            match v { $( <$t>::$v => $s, )* }
        }
    };
}
enum_map!(access, access_t, Access, "read-only"=>ReadOnly, "read-write"=>ReadWrite,
    "read-writeOnce"=>ReadWriteOnce, "writeOnce"=>WriteOnce, "write-only"=>WriteOnly);
enum_map!(prot, prot_t, Protection, "s"=>Secure, "n"=>NonSecure, "p"=>Privileged);
enum_map!(endian_, endian_t, Endian, "little"=>Little, "big"=>Big, "selectable"=>Selectable, "other"=>Other);
enum_map!(usage, usage_t, Usage, "read"=>Read, "write"=>Write, "read-write"=>ReadWrite);
enum_map!(abusage, abusage_t, AddressBlockUsage, "registers"=>Registers, "buffer"=>Buffer, "reserved"=>Reserved);
enum_map!(ract, ract_t, ReadAction, "clear"=>Clear, "set"=>Set, "modify"=>Modify, "modifyExternal"=>ModifyExternal);
enum_map!(mwv, mwv_t, ModifiedWriteValues, "oneToClear"=>OneToClear, "oneToSet"=>OneToSet,
    "oneToToggle"=>OneToToggle, "zeroToClear"=>ZeroToClear, "zeroToSet"=>ZeroToSet,
    "zeroToToggle"=>ZeroToToggle, "clear"=>Clear, "set"=>Set, "modify"=>Modify);
enum_map!(dtype, dtype_t, DataType, "uint8_t"=>U8, "uint16_t"=>U16, "uint32_t"=>U32, "uint64_t"=>U64,
    "int8_t"=>I8, "int16_t"=>I16, "int32_t"=>I32, "int64_t"=>I64,
    "uint8_t *"=>U8Ptr, "uint16_t *"=>U16Ptr, "uint32_t *"=>U32Ptr, "uint64_t *"=>U64Ptr,
    "int8_t *"=>I8Ptr, "int16_t *"=>I16Ptr, "int32_t *"=>I32Ptr, "int64_t *"=>I64Ptr);

fn props(e: &El) -> RegisterProperties {
    RegisterProperties::new()
        .size(e.n32("size"))
        .access(e.sr("access").and_then(access))
        .protection(e.sr("protection").and_then(prot))
        .reset_value(e.n("resetValue"))
        .reset_mask(e.n("resetMask"))
}

pub fn wc(e: &El) -> Option<WriteConstraint> {
    e.wc().map(|w| match w {
        Wc::AsRead(b) => WriteConstraint::WriteAsRead(b),
        Wc::UseEnum(b) => WriteConstraint::UseEnumeratedValues(b),
        Wc::Range(min, max) => WriteConstraint::Range(WriteConstraintRange { min, max }),
    })
}

fn bt(t: Bt) -> BitRangeType {
    match t {
        Bt::Range => BitRangeType::BitRange,
        Bt::OffWidth => BitRangeType::OffsetWidth,
        Bt::MsbLsb => BitRangeType::MsbLsb,
    }
}

pub fn bit_range(o: u64, w: u64, t: Bt) -> BitRange {
    BitRange { offset: o as u32, width: w as u32, range_type: bt(t) }
}
pub fn fill_ev(mut b: EnumeratedValueBuilder, e: &El) -> EnumeratedValueBuilder {
    if let Some(n) = e.s("name") {
        b = b.name(n);
    }
    b.description(e.s("description"))
        .value(e.n("value"))
        .is_default(e.b("isDefault"))
}
pub fn build_ev(e: &El, l: ValidateLevel) -> R<EnumeratedValue> {
    fill_ev(EnumeratedValue::builder(), e).build(l)
}
fn many<T>(v: &[El], l: ValidateLevel, f: impl Fn(&El, ValidateLevel) -> R<T>) -> R<Vec<T>> {
    v.iter().map(|e| f(e, l)).collect()
}
pub fn fill_evs(mut b: EnumeratedValuesBuilder, e: &El, l: ValidateLevel) -> R<EnumeratedValuesBuilder> {
    b = b
        .name(e.s("name"))
        .usage(e.sr("usage").and_then(usage))
        .derived_from(e.s("@derivedFrom"));
    if let Some(v) = e.g.get("values") {
        b = b.values(many(v, l, build_ev)?);
    }
    Ok(b)
}
pub fn build_evs(e: &El, l: ValidateLevel) -> R<EnumeratedValues> {
    fill_evs(EnumeratedValues::builder(), e, l)?.build(l)
}
pub fn build_dai(e: &El, l: ValidateLevel) -> R<DimArrayIndex> {
    Ok(DimArrayIndex {
        header_enum_name: e.s("headerEnumName"),
        values: many(e.grp("values"), l, build_ev)?,
    })
}
pub fn fill_dim(mut b: DimElementBuilder, e: &El, l: ValidateLevel) -> R<DimElementBuilder> {
    if let Some(d) = e.n32("dim") {
        b = b.dim(d);
    }
    if let Some(d) = e.n32("dimIncrement") {
        b = b.dim_increment(d);
    }
    b = b.dim_index(e.l("dimIndex")).dim_name(e.s("dimName"));
    if let Some(d) = e.grp("dimArrayIndex").first() {
        b = b.dim_array_index(Some(build_dai(d, l)?));
    }
    Ok(b)
}
pub fn build_dim(e: &El, l: ValidateLevel) -> R<Option<DimElement>> {
    if e.is_array() {
        Ok(Some(fill_dim(DimElement::builder(), e, l)?.build(l)?))
    } else {
        Ok(None)
    }
}

pub fn fill_field(mut b: FieldInfoBuilder, e: &El, l: ValidateLevel) -> R<FieldInfoBuilder> {
    if let Some(n) = e.s("name") {
        b = b.name(n);
    }
    let range = e.bits().map(|(o, w, t)| BitRange {
        offset: o as u32,
        width: w as u32,
        range_type: bt(t),
    });
    if let Some(seq) = e.l("bitSeq") {
        for s in seq {
            b = match s.as_str() {
                "range" => b.bit_range(range.unwrap()),
                "offset" => b.bit_offset(e.n32("bitOffset").unwrap_or(0)),
                "offset2" => b.bit_offset(e.n32("bitOffset2").unwrap_or(0)),
                "width2" => b.bit_width(e.n32("bitWidth2").unwrap_or(1)),
                _ => b.bit_width(e.n32("bitWidth").unwrap_or(1)),
            };
        }
    } else if let Some(r) = range {
        b = b.bit_range(r);
    }
    b = b
        .description(e.s("description"))
        .access(e.sr("access").and_then(access))
        .modified_write_values(e.sr("modifiedWriteValues").and_then(mwv))
        .write_constraint(wc(e))
        .read_action(e.sr("readAction").and_then(ract))
        .derived_from(e.s("@derivedFrom"));
    if let Some(v) = e.g.get("enumeratedValues") {
        b = b.enumerated_values(many(v, l, build_evs)?);
    }
    Ok(b)
}
pub fn build_field_info(e: &El, l: ValidateLevel) -> R<FieldInfo> {
    fill_field(FieldInfo::builder(), e, l)?.build(l)
}
pub fn build_field(e: &El, l: ValidateLevel) -> R<Field> {
    Ok(build_field_info(e, l)?.maybe_array(build_dim(e, l)?))
}

pub fn fill_register(mut b: RegisterInfoBuilder, e: &El, l: ValidateLevel) -> R<RegisterInfoBuilder> {
    if let Some(n) = e.s("name") {
        b = b.name(n);
    }
    if let Some(n) = e.n32("addressOffset") {
        b = b.address_offset(n);
    }
    b = b
        .display_name(e.s("displayName"))
        .description(e.s("description"))
        .alternate_group(e.s("alternateGroup"))
        .alternate_register(e.s("alternateRegister"))
        .datatype(e.sr("dataType").and_then(dtype))
        .modified_write_values(e.sr("modifiedWriteValues").and_then(mwv))
        .write_constraint(wc(e))
        .read_action(e.sr("readAction").and_then(ract))
        .derived_from(e.s("@derivedFrom"));
    let p = props(e);
    if e.b("viaProps") == Some(false) && p.protection.is_none() {
        b = b
            .size(p.size)
            .access(p.access)
            .reset_value(p.reset_value)
            .reset_mask(p.reset_mask);
    } else {
        b = b.properties(p);
    }
    if let Some(v) = e.g.get("fields") {
        b = b.fields(Some(many(v, l, build_field)?));
    }
    Ok(b)
}
pub fn build_register_info(e: &El, l: ValidateLevel) -> R<RegisterInfo> {
    fill_register(RegisterInfo::builder(), e, l)?.build(l)
}
pub fn build_register(e: &El, l: ValidateLevel) -> R<Register> {
    Ok(build_register_info(e, l)?.maybe_array(build_dim(e, l)?))
}
pub fn fill_cluster(mut b: ClusterInfoBuilder, e: &El, l: ValidateLevel) -> R<ClusterInfoBuilder> {
    if let Some(n) = e.s("name") {
        b = b.name(n);
    }
    if let Some(n) = e.n32("addressOffset") {
        b = b.address_offset(n);
    }
    b = b
        .description(e.s("description"))
        .alternate_cluster(e.s("alternateCluster"))
        .header_struct_name(e.s("headerStructName"))
        .default_register_properties(props(e))
        .derived_from(e.s("@derivedFrom"));
    if let Some(v) = e.g.get("children") {
        b = b.children(many(v, l, build_rc)?);
    }
    Ok(b)
}
pub fn build_cluster_info(e: &El, l: ValidateLevel) -> R<ClusterInfo> {
    let mut b = fill_cluster(ClusterInfo::builder(), e, l)?;
    if !e.g.contains_key("children") {
        b = b.children(Vec::new());
    }
    b.build(l)
}
pub fn build_cluster(e: &El, l: ValidateLevel) -> R<Cluster> {
    Ok(build_cluster_info(e, l)?.maybe_array(build_dim(e, l)?))
}
pub fn build_rc(e: &El, l: ValidateLevel) -> R<RegisterCluster> {
    Ok(match e.k {
        K::Cluster => RegisterCluster::Cluster(build_cluster(e, l)?),
        _ => RegisterCluster::Register(build_register(e, l)?),
    })
}
pub fn fill_ab(mut b: AddressBlockBuilder, e: &El) -> AddressBlockBuilder {
    if let Some(n) = e.n32("offset") {
        b = b.offset(n);
    }
    if let Some(n) = e.n32("size") {
        b = b.size(n);
    }
    if let Some(n) = e.sr("usage").and_then(abusage) {
        b = b.usage(n);
    }
    b.protection(e.sr("protection").and_then(prot))
}
pub fn build_ab(e: &El, l: ValidateLevel) -> R<AddressBlock> {
    fill_ab(AddressBlock::builder(), e).build(l)
}
pub fn fill_int(mut b: InterruptBuilder, e: &El) -> InterruptBuilder {
    if let Some(n) = e.s("name") {
        b = b.name(n);
    }
    if let Some(n) = e.n32("value") {
        b = b.value(n);
    }
    b.description(e.s("description"))
}
pub fn build_int(e: &El, l: ValidateLevel) -> R<Interrupt> {
    fill_int(Interrupt::builder(), e).build(l)
}
pub fn fill_peripheral(mut b: PeripheralInfoBuilder, e: &El, l: ValidateLevel) -> R<PeripheralInfoBuilder> {
    if let Some(n) = e.s("name") {
        b = b.name(n);
    }
    if let Some(n) = e.n("baseAddress") {
        b = b.base_address(n);
    }
    b = b
        .display_name(e.s("displayName"))
        .version(e.s("version"))
        .description(e.s("description"))
        .alternate_peripheral(e.s("alternatePeripheral"))
        .group_name(e.s("groupName"))
        .prepend_to_name(e.s("prependToName"))
        .append_to_name(e.s("appendToName"))
        .header_struct_name(e.s("headerStructName"))
        .default_register_properties(props(e))
        .derived_from(e.s("@derivedFrom"));
    if let Some(v) = e.g.get("addressBlock") {
        b = b.address_block(Some(many(v, l, build_ab)?));
    }
    if let Some(v) = e.g.get("interrupt") {
        b = b.interrupt(Some(many(v, l, build_int)?));
    }
    if let Some(v) = e.g.get("registers") {
        b = b.registers(Some(many(v, l, build_rc)?));
    }
    Ok(b)
}
pub fn build_peripheral_info(e: &El, l: ValidateLevel) -> R<PeripheralInfo> {
    fill_peripheral(PeripheralInfo::builder(), e, l)?.build(l)
}
pub fn build_peripheral(e: &El, l: ValidateLevel) -> R<Peripheral> {
    Ok(build_peripheral_info(e, l)?.maybe_array(build_dim(e, l)?))
}
pub fn fill_cpu(mut b: CpuBuilder, e: &El) -> CpuBuilder {
    if let Some(n) = e.s("name") {
        b = b.name(n);
    }
    if let Some(n) = e.s("revision") {
        b = b.revision(n);
    }
    if let Some(n) = e.sr("endian").and_then(endian_) {
        b = b.endian(n);
    }
    if let Some(n) = e.b("mpuPresent") {
        b = b.mpu_present(n);
    }
    if let Some(n) = e.b("fpuPresent") {
        b = b.fpu_present(n);
    }
    if let Some(n) = e.n32("nvicPrioBits") {
        b = b.nvic_priority_bits(n);
    }
    if let Some(n) = e.b("vendorSystickConfig") {
        b = b.has_vendor_systick(n);
    }
    b.fpu_double_precision(e.b("fpuDP"))
        .dsp_present(e.b("dspPresent"))
        .icache_present(e.b("icachePresent"))
        .dcache_present(e.b("dcachePresent"))
        .itcm_present(e.b("itcmPresent"))
        .dtcm_present(e.b("dtcmPresent"))
        .vtor_present(e.b("vtorPresent"))
        .device_num_interrupts(e.n32("deviceNumInterrupts"))
        .sau_num_regions(e.n32("sauNumRegions"))
}
pub fn build_cpu(e: &El, l: ValidateLevel) -> R<Cpu> {
    fill_cpu(Cpu::builder(), e).build(l)
}
pub fn fill_device(mut b: DeviceBuilder, e: &El, l: ValidateLevel) -> R<DeviceBuilder> {
    if let Some(n) = e.s("name") {
        b = b.name(n);
    }
    if let Some(n) = e.s("version") {
        b = b.version(n);
    }
    if let Some(n) = e.s("description") {
        b = b.description(n);
    }
    if let Some(n) = e.n32("addressUnitBits") {
        b = b.address_unit_bits(n);
    }
    if let Some(n) = e.n32("width") {
        b = b.width(n);
    }
    if let Some(n) = e.s("@xs") {
        b = b.xmlns_xs(n);
    }
    if let Some(n) = e.s("@loc") {
        b = b.no_namespace_schema_location(n);
    }
    if let Some(n) = e.s("@schemaVersion") {
        b = b.schema_version(n);
    }
    b = b
        .vendor(e.s("vendor"))
        .vendor_id(e.s("vendorID"))
        .series(e.s("series"))
        .license_text(e.s("licenseText"))
        .header_system_filename(e.s("headerSystemFilename"))
        .header_definitions_prefix(e.s("headerDefinitionsPrefix"))
        .default_register_properties(props(e));
    if let Some(c) = e.grp("cpu").first() {
        b = b.cpu(Some(build_cpu(c, l)?));
    }
    if let Some(v) = e.g.get("peripherals") {
        b = b.peripherals(many(v, l, build_peripheral)?);
    }
    Ok(b)
}
pub fn build_device(e: &El, l: ValidateLevel) -> R<Device> {
    let mut b = fill_device(Device::builder(), e, l)?;
    if !e.g.contains_key("peripherals") {
        b = b.peripherals(Vec::new());
    }
    b.build(l)
}

// ---------------------------------------------------------------- real -> tree

fn os(e: &mut El, n: &'static str, v: &Option<String>) {
    if let Some(v) = v {
        e.set_s(n, v.clone());
    }
}
fn oe<T: Copy>(e: &mut El, n: &'static str, v: Option<T>, t: fn(T) -> &'static str) {
    if let Some(v) = v {
        e.set_s(n, t(v));
    }
}
fn on(e: &mut El, n: &'static str, v: Option<impl Into<u64>>) {
    if let Some(v) = v {
        e.set_n(n, v.into());
    }
}
fn ob(e: &mut El, n: &'static str, v: Option<bool>) {
    if let Some(v) = v {
        e.f.insert(n, V::B(v));
    }
}
fn p_props(e: &mut El, p: &RegisterProperties) {
    on(e, "size", p.size);
    oe(e, "access", p.access, access_t);
    oe(e, "protection", p.protection, prot_t);
    on(e, "resetValue", p.reset_value);
    on(e, "resetMask", p.reset_mask);
}
fn p_wc(e: &mut El, w: &Option<WriteConstraint>) {
    if let Some(w) = w {
        e.f.insert(
            "writeConstraint",
            V::W(match w {
                WriteConstraint::WriteAsRead(b) => Wc::AsRead(*b),
                WriteConstraint::UseEnumeratedValues(b) => Wc::UseEnum(*b),
                WriteConstraint::Range(r) => Wc::Range(r.min, r.max),
            }),
        );
    }
}
pub fn el_ev(v: &EnumeratedValue) -> El {
    let mut e = El::new(K::Ev);
    e.set_s("name", v.name.clone());
    os(&mut e, "description", &v.description);
    on(&mut e, "value", v.value);
    ob(&mut e, "isDefault", v.is_default);
    e
}
pub fn el_evs(v: &EnumeratedValues) -> El {
    let mut e = El::new(K::Evs);
    os(&mut e, "name", &v.name);
    oe(&mut e, "usage", v.usage, usage_t);
    os(&mut e, "@derivedFrom", &v.derived_from);
    e.g.insert("values", v.values.iter().map(el_ev).collect());
    e
}
pub fn put_dim(e: &mut El, d: &DimElement) {
    e.set_n("dim", d.dim as u64);
    e.set_n("dimIncrement", d.dim_increment as u64);
    if let Some(i) = &d.dim_index {
        e.f.insert("dimIndex", V::L(i.clone()));
    }
    os(e, "dimName", &d.dim_name);
    if let Some(x) = &d.dim_array_index {
        let mut a = El::new(K::Dai);
        os(&mut a, "headerEnumName", &x.header_enum_name);
        a.g.insert("values", x.values.iter().map(el_ev).collect());
        e.g.insert("dimArrayIndex", vec![a]);
    }
}
pub fn el_field_info(v: &FieldInfo) -> El {
    let mut e = El::new(K::Field);
    e.set_s("name", v.name.clone());
    os(&mut e, "description", &v.description);
    e.f.insert(
        "bits",
        V::R(
            v.bit_range.offset as u64,
            v.bit_range.width as u64,
            match v.bit_range.range_type {
                BitRangeType::BitRange => Bt::Range,
                BitRangeType::OffsetWidth => Bt::OffWidth,
                BitRangeType::MsbLsb => Bt::MsbLsb,
            },
        ),
    );
    oe(&mut e, "access", v.access, access_t);
    oe(&mut e, "modifiedWriteValues", v.modified_write_values, mwv_t);
    p_wc(&mut e, &v.write_constraint);
    oe(&mut e, "readAction", v.read_action, ract_t);
    e.g.insert(
        "enumeratedValues",
        v.enumerated_values.iter().map(el_evs).collect(),
    );
    os(&mut e, "@derivedFrom", &v.derived_from);
    e
}
pub fn el_field(v: &Field) -> El {
    match v {
        Field::Single(i) => el_field_info(i),
        Field::Array(i, d) => {
            let mut e = el_field_info(i);
            put_dim(&mut e, d);
            e
        }
    }
}
pub fn el_register_info(v: &RegisterInfo) -> El {
    let mut e = El::new(K::Register);
    e.set_s("name", v.name.clone());
    os(&mut e, "displayName", &v.display_name);
    os(&mut e, "description", &v.description);
    os(&mut e, "alternateGroup", &v.alternate_group);
    os(&mut e, "alternateRegister", &v.alternate_register);
    e.set_n("addressOffset", v.address_offset as u64);
    p_props(&mut e, &v.properties);
    oe(&mut e, "dataType", v.datatype, dtype_t);
    oe(&mut e, "modifiedWriteValues", v.modified_write_values, mwv_t);
    p_wc(&mut e, &v.write_constraint);
    oe(&mut e, "readAction", v.read_action, ract_t);
    if let Some(f) = &v.fields {
        e.g.insert("fields", f.iter().map(el_field).collect());
    }
    os(&mut e, "@derivedFrom", &v.derived_from);
    e
}
pub fn el_register(v: &Register) -> El {
    match v {
        Register::Single(i) => el_register_info(i),
        Register::Array(i, d) => {
            let mut e = el_register_info(i);
            put_dim(&mut e, d);
            e
        }
    }
}
pub fn el_cluster_info(v: &ClusterInfo) -> El {
    let mut e = El::new(K::Cluster);
    e.set_s("name", v.name.clone());
    os(&mut e, "description", &v.description);
    os(&mut e, "alternateCluster", &v.alternate_cluster);
    os(&mut e, "headerStructName", &v.header_struct_name);
    e.set_n("addressOffset", v.address_offset as u64);
    p_props(&mut e, &v.default_register_properties);
    e.g.insert("children", v.children.iter().map(el_rc).collect());
    os(&mut e, "@derivedFrom", &v.derived_from);
    e
}
pub fn el_cluster(v: &Cluster) -> El {
    match v {
        Cluster::Single(i) => el_cluster_info(i),
        Cluster::Array(i, d) => {
            let mut e = el_cluster_info(i);
            put_dim(&mut e, d);
            e
        }
    }
}
pub fn el_rc(v: &RegisterCluster) -> El {
    match v {
        RegisterCluster::Register(r) => el_register(r),
        RegisterCluster::Cluster(c) => el_cluster(c),
    }
}
pub fn el_ab(v: &AddressBlock) -> El {
    let mut e = El::new(K::AddressBlock);
    e.set_n("offset", v.offset as u64);
    e.set_n("size", v.size as u64);
    e.set_s("usage", abusage_t(v.usage));
    oe(&mut e, "protection", v.protection, prot_t);
    e
}
pub fn el_int(v: &Interrupt) -> El {
    let mut e = El::new(K::Interrupt);
    e.set_s("name", v.name.clone());
    os(&mut e, "description", &v.description);
    e.set_n("value", v.value as u64);
    e
}
pub fn el_peripheral_info(v: &PeripheralInfo) -> El {
    let mut e = El::new(K::Peripheral);
    e.set_s("name", v.name.clone());
    os(&mut e, "displayName", &v.display_name);
    os(&mut e, "version", &v.version);
    os(&mut e, "description", &v.description);
    os(&mut e, "alternatePeripheral", &v.alternate_peripheral);
    os(&mut e, "groupName", &v.group_name);
    os(&mut e, "prependToName", &v.prepend_to_name);
    os(&mut e, "appendToName", &v.append_to_name);
    os(&mut e, "headerStructName", &v.header_struct_name);
    e.set_n("baseAddress", v.base_address);
    p_props(&mut e, &v.default_register_properties);
    if let Some(a) = &v.address_block {
        e.g.insert("addressBlock", a.iter().map(el_ab).collect());
    }
    e.g.insert("interrupt", v.interrupt.iter().map(el_int).collect());
    if let Some(a) = &v.registers {
        e.g.insert("registers", a.iter().map(el_rc).collect());
    }
    os(&mut e, "@derivedFrom", &v.derived_from);
    e
}
pub fn el_peripheral(v: &Peripheral) -> El {
    match v {
        Peripheral::Single(i) => el_peripheral_info(i),
        Peripheral::Array(i, d) => {
            let mut e = el_peripheral_info(i);
            put_dim(&mut e, d);
            e
        }
    }
}
pub fn el_cpu(v: &Cpu) -> El {
    let mut e = El::new(K::Cpu);
    e.set_s("name", v.name.clone());
    e.set_s("revision", v.revision.clone());
    e.set_s("endian", endian_t(v.endian));
    ob(&mut e, "mpuPresent", Some(v.mpu_present));
    ob(&mut e, "fpuPresent", Some(v.fpu_present));
    ob(&mut e, "fpuDP", v.fpu_double_precision);
    ob(&mut e, "dspPresent", v.dsp_present);
    ob(&mut e, "icachePresent", v.icache_present);
    ob(&mut e, "dcachePresent", v.dcache_present);
    ob(&mut e, "itcmPresent", v.itcm_present);
    ob(&mut e, "dtcmPresent", v.dtcm_present);
    ob(&mut e, "vtorPresent", v.vtor_present);
    e.set_n("nvicPrioBits", v.nvic_priority_bits as u64);
    ob(&mut e, "vendorSystickConfig", Some(v.has_vendor_systick));
    on(&mut e, "deviceNumInterrupts", v.device_num_interrupts);
    on(&mut e, "sauNumRegions", v.sau_num_regions);
    e
}
pub fn el_device(v: &Device) -> El {
    let mut e = El::new(K::Device);
    os(&mut e, "vendor", &v.vendor);
    os(&mut e, "vendorID", &v.vendor_id);
    e.set_s("name", v.name.clone());
    os(&mut e, "series", &v.series);
    e.set_s("version", v.version.clone());
    e.set_s("description", v.description.clone());
    os(&mut e, "licenseText", &v.license_text);
    if let Some(c) = &v.cpu {
        e.g.insert("cpu", vec![el_cpu(c)]);
    }
    os(&mut e, "headerSystemFilename", &v.header_system_filename);
    os(&mut e, "headerDefinitionsPrefix", &v.header_definitions_prefix);
    e.set_n("addressUnitBits", v.address_unit_bits as u64);
    e.set_n("width", v.width as u64);
    p_props(&mut e, &v.default_register_properties);
    e.g.insert(
        "peripherals",
        v.peripherals.iter().map(el_peripheral).collect(),
    );
    e.set_s("@schemaVersion", v.schema_version.clone());
    e.set_s("@xs", v.xmlns_xs.clone());
    e.set_s("@loc", v.no_namespace_schema_location.clone());
    e
}
