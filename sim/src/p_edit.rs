//! C06, C17: histories of builds, in-place edits and rebuilds, accepted and rejected.

use crate::conv;
use crate::disk::{gen_faults, Disk, Image};
use crate::gen::{self, Addr, Gen, G};
use crate::model::*;
use crate::refval::{self, Lv};
use crate::rng::{hash_bytes, mix, Rng};
use crate::scen::*;
use crate::ses::{arr, cut, disk_faults, doc, el, gen_some, num, text};
use crate::sys;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashSet;
use svd_rs::addressblock::AddressBlockBuilder;
use svd_rs::interrupt::InterruptBuilder;
use svd_rs::*;

const OFF: ValidateLevel = ValidateLevel::Disabled;
const DIM_KEYS: [&str; 4] = ["dim", "dimIncrement", "dimIndex", "dimName"];

// ---------------------------------------------------------------- reaching an element

enum T<'a> {
    Dev(&'a mut Device),
    Cpu(&'a mut Cpu),
    Per(&'a mut Peripheral),
    Ab(&'a mut AddressBlock),
    Int(&'a mut Interrupt),
    Clu(&'a mut Cluster),
    Reg(&'a mut Register),
    Fld(&'a mut Field),
    Evs(&'a mut EnumeratedValues),
    Ev(&'a mut EnumeratedValue),
    Dai(&'a mut DimArrayIndex),
}
fn rc(x: &mut RegisterCluster) -> T<'_> {
    match x {
        RegisterCluster::Register(r) => T::Reg(r),
        RegisterCluster::Cluster(c) => T::Clu(c),
    }
}
fn dai<I>(x: &mut MaybeArray<I>) -> Option<T<'_>> {
    match x {
        MaybeArray::Array(_, d) => d.dim_array_index.as_mut().map(T::Dai),
        MaybeArray::Single(_) => None,
    }
}
/// All registers below a block, in document order.
fn below(m: &El) -> Vec<Addr> {
    let mut out = vec![];
    let g = if m.k == K::Peripheral { "registers" } else { "children" };
    for (i, e) in m.grp(g).iter().enumerate() {
        if e.k == K::Register {
            out.push(vec![(g, i)]);
        } else {
            for mut a in below(e) {
                a.insert(0, (g, i));
                out.push(a);
            }
        }
    }
    out
}
fn first_named(m: &El, g: &str, k: K, name: &str) -> Option<usize> {
    m.grp(g).iter().position(|e| e.k == k && e.name() == name)
}
fn rank(m: &El, g: &str, i: usize) -> usize {
    let k = m.grp(g)[i].k;
    m.grp(g)[..i].iter().filter(|e| e.k == k).count()
}
fn by_usage(m: &El, i: usize) -> Option<Usage> {
    let v = m.grp("enumeratedValues");
    let us = |e: &El| e.sr("@derivedFrom").is_none().then(|| e.sr("usage").and_then(conv::usage).unwrap_or_default());
    let u = us(&v[i])?;
    (v.len() <= 2 && v.iter().position(|e| us(e) == Some(u)) == Some(i)).then_some(u)
}
/// One step down, by position (how 0), by name (1) or by traversal (2).
fn down<'a>(t: T<'a>, m: &El, g: &str, i: usize, how: u64) -> Option<T<'a>> {
    let kid = &m.grp(g)[i];
    let nm = kid.name().to_string();
    let by_name = how == 1 && first_named(m, g, kid.k, &nm) == Some(i);
    let walk = how == 2;
    let n = rank(m, g, i);
    let is_reg = kid.k == K::Register;
    Some(match (t, g) {
        (T::Dev(d), "cpu") => T::Cpu(d.cpu.as_mut()?),
        (T::Dev(d), _) => T::Per(if by_name { d.get_mut_peripheral(&nm)? } else { d.peripherals.get_mut(i)? }),
        (T::Per(p), "addressBlock") => T::Ab(p.address_block.as_mut()?.get_mut(i)?),
        (T::Per(p), "interrupt") => T::Int(if by_name { p.get_mut_interrupt(&nm)? } else { p.interrupt.get_mut(i)? }),
        (T::Per(p), "registers") => match (by_name, walk, is_reg) {
            (true, _, true) => T::Reg(p.get_mut_register(&nm)?),
            (true, _, false) => T::Clu(p.get_mut_cluster(&nm)?),
            (_, true, true) => T::Reg(p.registers_mut().nth(n)?),
            (_, true, false) => T::Clu(p.clusters_mut().nth(n)?),
            _ => rc(p.registers.as_mut()?.get_mut(i)?),
        },
        (T::Clu(p), "children") => match (by_name, walk, is_reg) {
            (true, _, true) => T::Reg(p.get_mut_register(&nm)?),
            (true, _, false) => T::Clu(p.get_mut_cluster(&nm)?),
            (_, true, true) => T::Reg(p.registers_mut().nth(n)?),
            (_, true, false) => T::Clu(p.clusters_mut().nth(n)?),
            _ => rc(p.children.get_mut(i)?),
        },
        (T::Reg(r), "fields") => T::Fld(match (by_name, walk) {
            (true, _) => r.get_mut_field(&nm)?,
            (_, true) => r.fields_mut().nth(n)?,
            _ => r.fields.as_mut()?.get_mut(i)?,
        }),
        (T::Fld(f), "enumeratedValues") => T::Evs(match by_usage(m, i) {
            Some(u) if how > 0 => f.get_mut_enumerated_values(u)?,
            _ => f.enumerated_values.get_mut(i)?,
        }),
        (T::Evs(e), _) => T::Ev(if by_name { e.get_mut_value(&nm)? } else { e.values.get_mut(i)? }),
        (T::Dai(d), _) => T::Ev(d.values.get_mut(i)?),
        (T::Per(p), _) => dai(p)?,
        (T::Clu(p), _) => dai(p)?,
        (T::Reg(p), _) => dai(p)?,
        (T::Fld(p), _) => dai(p)?,
        _ => return None,
    })
}
fn reach<'a>(d: &'a mut Device, m: &El, a: &[(&'static str, usize)], by: u64) -> Option<T<'a>> {
    let mut t = T::Dev(d);
    let mut m = m;
    let mut i = 0;
    while i < a.len() {
        let how = mix(by.wrapping_add(i as u64)) % 4;
        // a register at any depth by one traversal
        if how == 3 && matches!(t, T::Per(_) | T::Clu(_)) {
            let l = below(m);
            if let Some((n, x)) = l.iter().enumerate().find(|(_, x)| a[i..].starts_with(x)) {
                t = T::Reg(match t {
                    T::Per(p) => p.all_registers_mut().nth(n)?,
                    T::Clu(p) => p.all_registers_mut().nth(n)?,
                    _ => return None,
                });
                m = gen::at(m, x);
                i += x.len();
                continue;
            }
        }
        t = down(t, m, a[i].0, a[i].1, how)?;
        m = &m.grp(a[i].0)[a[i].1];
        i += 1;
    }
    Some(t)
}

// ---------------------------------------------------------------- builders

fn props_of(e: &El) -> RegisterProperties {
    RegisterProperties::new()
        .size(e.n32("size"))
        .access(e.sr("access").and_then(conv::access))
        .protection(e.sr("protection").and_then(conv::prot))
        .reset_value(e.n("resetValue"))
        .reset_mask(e.n("resetMask"))
}
/// Properties an edit gives, over those the builder already has.
fn over(base: RegisterProperties, e: &El) -> RegisterProperties {
    let p = props_of(e);
    RegisterProperties::new()
        .size(p.size.or(base.size))
        .access(p.access.or(base.access))
        .protection(p.protection.or(base.protection))
        .reset_value(p.reset_value.or(base.reset_value))
        .reset_mask(p.reset_mask.or(base.reset_mask))
}
macro_rules! given {
    ($b:ident, $e:ident, $($k:literal => $set:ident($v:expr)),* $(,)?) => {
        $( if $e.f.contains_key($k) { $b = $b.$set($v); } )*
    };
}
macro_rules! groups {
    ($b:ident, $e:ident, $($k:literal => $set:ident($v:expr)),* $(,)?) => {
        $( if $e.g.contains_key($k) { $b = $b.$set($v); } )*
    };
}
fn kids<X>(e: &El, g: &str, f: fn(&El, ValidateLevel) -> Result<X, SvdError>) -> Vec<X> {
    sys::quiet(|| e.grp(g).iter().filter_map(|x| f(x, OFF).ok()).collect())
}
fn set_ev(mut b: EnumeratedValueBuilder, e: &El) -> EnumeratedValueBuilder {
    given!(b, e, "name" => name(e.s("name").unwrap()), "description" => description(e.s("description")),
        "value" => value(e.n("value")), "isDefault" => is_default(e.b("isDefault")));
    b
}
fn set_evs(mut b: EnumeratedValuesBuilder, e: &El) -> EnumeratedValuesBuilder {
    given!(b, e, "name" => name(e.s("name")), "usage" => usage(e.sr("usage").and_then(conv::usage)),
        "@derivedFrom" => derived_from(e.s("@derivedFrom")));
    groups!(b, e, "values" => values(kids(e, "values", conv::build_ev)));
    b
}
fn set_field(mut b: FieldInfoBuilder, e: &El) -> FieldInfoBuilder {
    let range = e.bits().map(|(o, w, t)| conv::bit_range(o, w, t));
    let seq = e.l("bitSeq").unwrap_or_else(|| vec!["range".into()]);
    for s in seq {
        b = match s.as_str() {
            "range" => match range {
                Some(r) => b.bit_range(r),
                None => b,
            },
            "offset" => b.bit_offset(e.n32("bitOffset").unwrap_or(0)),
            "offset2" => b.bit_offset(e.n32("bitOffset2").unwrap_or(0)),
            "width2" => b.bit_width(e.n32("bitWidth2").unwrap_or(1)),
            _ => b.bit_width(e.n32("bitWidth").unwrap_or(1)),
        };
    }
    given!(b, e, "name" => name(e.s("name").unwrap()), "description" => description(e.s("description")),
        "access" => access(e.sr("access").and_then(conv::access)),
        "modifiedWriteValues" => modified_write_values(e.sr("modifiedWriteValues").and_then(conv::mwv)),
        "writeConstraint" => write_constraint(conv::wc(e)),
        "readAction" => read_action(e.sr("readAction").and_then(conv::ract)),
        "@derivedFrom" => derived_from(e.s("@derivedFrom")));
    groups!(b, e, "enumeratedValues" => enumerated_values(kids(e, "enumeratedValues", conv::build_evs)));
    b
}
fn set_register(mut b: RegisterInfoBuilder, e: &El, base: RegisterProperties) -> RegisterInfoBuilder {
    given!(b, e, "name" => name(e.s("name").unwrap()), "description" => description(e.s("description")),
        "displayName" => display_name(e.s("displayName")),
        "alternateGroup" => alternate_group(e.s("alternateGroup")),
        "alternateRegister" => alternate_register(e.s("alternateRegister")),
        "addressOffset" => address_offset(e.n32("addressOffset").unwrap()),
        "dataType" => datatype(e.sr("dataType").and_then(conv::dtype)),
        "modifiedWriteValues" => modified_write_values(e.sr("modifiedWriteValues").and_then(conv::mwv)),
        "writeConstraint" => write_constraint(conv::wc(e)),
        "readAction" => read_action(e.sr("readAction").and_then(conv::ract)),
        "@derivedFrom" => derived_from(e.s("@derivedFrom")));
    if e.b("viaProps") == Some(false) && !e.f.contains_key("protection") {
        given!(b, e, "size" => size(e.n32("size")), "access" => access(e.sr("access").and_then(conv::access)),
            "resetValue" => reset_value(e.n("resetValue")), "resetMask" => reset_mask(e.n("resetMask")));
    } else if PROP_NAMES.iter().any(|n| e.f.contains_key(n)) {
        b = b.properties(over(base, e));
    }
    groups!(b, e, "fields" => fields(Some(kids(e, "fields", conv::build_field))));
    b
}
fn set_cluster(mut b: ClusterInfoBuilder, e: &El, base: RegisterProperties) -> ClusterInfoBuilder {
    given!(b, e, "name" => name(e.s("name").unwrap()), "description" => description(e.s("description")),
        "alternateCluster" => alternate_cluster(e.s("alternateCluster")),
        "headerStructName" => header_struct_name(e.s("headerStructName")),
        "addressOffset" => address_offset(e.n32("addressOffset").unwrap()),
        "@derivedFrom" => derived_from(e.s("@derivedFrom")));
    if PROP_NAMES.iter().any(|n| e.f.contains_key(n)) {
        b = b.default_register_properties(over(base, e));
    }
    groups!(b, e, "children" => children(kids(e, "children", conv::build_rc)));
    b
}
fn set_peripheral(mut b: PeripheralInfoBuilder, e: &El, base: RegisterProperties) -> PeripheralInfoBuilder {
    given!(b, e, "name" => name(e.s("name").unwrap()), "description" => description(e.s("description")),
        "displayName" => display_name(e.s("displayName")), "version" => version(e.s("version")),
        "alternatePeripheral" => alternate_peripheral(e.s("alternatePeripheral")),
        "groupName" => group_name(e.s("groupName")), "prependToName" => prepend_to_name(e.s("prependToName")),
        "appendToName" => append_to_name(e.s("appendToName")),
        "headerStructName" => header_struct_name(e.s("headerStructName")),
        "baseAddress" => base_address(e.n("baseAddress").unwrap()),
        "@derivedFrom" => derived_from(e.s("@derivedFrom")));
    if PROP_NAMES.iter().any(|n| e.f.contains_key(n)) {
        b = b.default_register_properties(over(base, e));
    }
    groups!(b, e, "addressBlock" => address_block(Some(kids(e, "addressBlock", conv::build_ab))),
        "interrupt" => interrupt(Some(kids(e, "interrupt", conv::build_int))),
        "registers" => registers(Some(kids(e, "registers", conv::build_rc))));
    b
}
fn set_device(mut b: DeviceBuilder, e: &El, base: RegisterProperties) -> DeviceBuilder {
    given!(b, e, "name" => name(e.s("name").unwrap()), "description" => description(e.s("description").unwrap()),
        "version" => version(e.s("version").unwrap()), "vendor" => vendor(e.s("vendor")),
        "vendorID" => vendor_id(e.s("vendorID")), "series" => series(e.s("series")),
        "licenseText" => license_text(e.s("licenseText")),
        "headerSystemFilename" => header_system_filename(e.s("headerSystemFilename")),
        "headerDefinitionsPrefix" => header_definitions_prefix(e.s("headerDefinitionsPrefix")),
        "addressUnitBits" => address_unit_bits(e.n32("addressUnitBits").unwrap()),
        "width" => width(e.n32("width").unwrap()), "@xs" => xmlns_xs(e.s("@xs").unwrap()),
        "@loc" => no_namespace_schema_location(e.s("@loc").unwrap()),
        "@schemaVersion" => schema_version(e.s("@schemaVersion").unwrap()));
    if PROP_NAMES.iter().any(|n| e.f.contains_key(n)) {
        b = b.default_register_properties(over(base, e));
    }
    groups!(b, e, "peripherals" => peripherals(kids(e, "peripherals", conv::build_peripheral)),
        "cpu" => cpu(kids(e, "cpu", conv::build_cpu).into_iter().next()));
    b
}
fn set_cpu(mut b: CpuBuilder, e: &El) -> CpuBuilder {
    given!(b, e, "name" => name(e.s("name").unwrap()), "revision" => revision(e.s("revision").unwrap()),
        "endian" => endian(e.sr("endian").and_then(conv::endian_).unwrap()),
        "mpuPresent" => mpu_present(e.b("mpuPresent").unwrap()), "fpuPresent" => fpu_present(e.b("fpuPresent").unwrap()),
        "fpuDP" => fpu_double_precision(e.b("fpuDP")), "dspPresent" => dsp_present(e.b("dspPresent")),
        "icachePresent" => icache_present(e.b("icachePresent")), "dcachePresent" => dcache_present(e.b("dcachePresent")),
        "itcmPresent" => itcm_present(e.b("itcmPresent")), "dtcmPresent" => dtcm_present(e.b("dtcmPresent")),
        "vtorPresent" => vtor_present(e.b("vtorPresent")),
        "nvicPrioBits" => nvic_priority_bits(e.n32("nvicPrioBits").unwrap()),
        "vendorSystickConfig" => has_vendor_systick(e.b("vendorSystickConfig").unwrap()),
        "deviceNumInterrupts" => device_num_interrupts(e.n32("deviceNumInterrupts")),
        "sauNumRegions" => sau_num_regions(e.n32("sauNumRegions")));
    b
}
fn set_ab(mut b: AddressBlockBuilder, e: &El) -> AddressBlockBuilder {
    given!(b, e, "offset" => offset(e.n32("offset").unwrap()), "size" => size(e.n32("size").unwrap()),
        "usage" => usage(e.sr("usage").and_then(conv::abusage).unwrap()),
        "protection" => protection(e.sr("protection").and_then(conv::prot)));
    b
}
fn set_int(mut b: InterruptBuilder, e: &El) -> InterruptBuilder {
    given!(b, e, "name" => name(e.s("name").unwrap()), "description" => description(e.s("description")),
        "value" => value(e.n32("value").unwrap()));
    b
}
fn set_dim(mut b: DimElementBuilder, e: &El) -> DimElementBuilder {
    given!(b, e, "dim" => dim(e.n32("dim").unwrap()), "dimIncrement" => dim_increment(e.n32("dimIncrement").unwrap()),
        "dimIndex" => dim_index(e.l("dimIndex")), "dimName" => dim_name(e.s("dimName")));
    groups!(b, e, "dimArrayIndex" => dim_array_index(kids(e, "dimArrayIndex", conv::build_dai).into_iter().next()));
    b
}

/// Applies an edit in place.
fn modify(t: T, e: &El, l: ValidateLevel) -> Result<(), SvdError> {
    let n = RegisterProperties::default();
    match t {
        T::Dev(x) => x.modify_from(set_device(Device::builder(), e, n), l),
        T::Cpu(x) => x.modify_from(set_cpu(Cpu::builder(), e), l),
        T::Per(x) => x.modify_from(set_peripheral(PeripheralInfo::builder(), e, n), l),
        T::Ab(x) => x.modify_from(set_ab(AddressBlock::builder(), e), l),
        T::Int(x) => x.modify_from(set_int(Interrupt::builder(), e), l),
        T::Clu(x) => x.modify_from(set_cluster(ClusterInfo::builder(), e, n), l),
        T::Reg(x) => x.modify_from(set_register(RegisterInfo::builder(), e, n), l),
        T::Fld(x) => x.modify_from(set_field(FieldInfo::builder(), e), l),
        T::Evs(x) => x.modify_from(set_evs(EnumeratedValues::builder(), e), l),
        T::Ev(x) => x.modify_from(set_ev(EnumeratedValue::builder(), e), l),
        T::Dai(_) => Ok(()),
    }
}
/// Takes an element apart into a builder, gives it some values and builds it again.
fn rebuild(t: T, e: &El, l: ValidateLevel) -> Result<(), SvdError> {
    fn put<X, B: From<X>>(x: &mut X, set: impl FnOnce(B) -> B, build: impl FnOnce(B) -> Result<X, SvdError>) -> Result<(), SvdError>
    where
        X: Clone,
    {
        *x = build(set(B::from(x.clone())))?;
        Ok(())
    }
    match t {
        T::Dev(x) => {
            let p = x.default_register_properties;
            put(x, |b: DeviceBuilder| set_device(b, e, p), |b| b.build(l))
        }
        T::Cpu(x) => put(x, |b: CpuBuilder| set_cpu(b, e), |b| b.build(l)),
        T::Per(x) => {
            let p = x.default_register_properties;
            put(&mut **x, |b: PeripheralInfoBuilder| set_peripheral(b, e, p), |b| b.build(l))
        }
        T::Ab(x) => put(x, |b: AddressBlockBuilder| set_ab(b, e), |b| b.build(l)),
        T::Int(x) => put(x, |b: InterruptBuilder| set_int(b, e), |b| b.build(l)),
        T::Clu(x) => {
            let p = x.default_register_properties;
            put(&mut **x, |b: ClusterInfoBuilder| set_cluster(b, e, p), |b| b.build(l))
        }
        T::Reg(x) => {
            let p = x.properties;
            put(&mut **x, |b: RegisterInfoBuilder| set_register(b, e, p), |b| b.build(l))
        }
        T::Fld(x) => put(&mut **x, |b: FieldInfoBuilder| set_field(b, e), |b| b.build(l)),
        T::Evs(x) => put(x, |b: EnumeratedValuesBuilder| set_evs(b, e), |b| b.build(l)),
        T::Ev(x) => put(x, |b: EnumeratedValueBuilder| set_ev(b, e), |b| b.build(l)),
        T::Dai(_) => Ok(()),
    }
}
/// Builds an element from nothing, some values given twice, and puts it in place.
fn fresh(t: T, e: &El, e2: &El, l: ValidateLevel) -> Result<(), SvdError> {
    let n = RegisterProperties::default();
    let p = props_of(e);
    match t {
        T::Dev(x) => *x = set_device(set_device(Device::builder(), e, n), e2, p).build(l)?,
        T::Cpu(x) => *x = set_cpu(set_cpu(Cpu::builder(), e), e2).build(l)?,
        T::Per(x) => **x = set_peripheral(set_peripheral(PeripheralInfo::builder(), e, n), e2, p).build(l)?,
        T::Ab(x) => *x = set_ab(set_ab(AddressBlock::builder(), e), e2).build(l)?,
        T::Int(x) => *x = set_int(set_int(Interrupt::builder(), e), e2).build(l)?,
        T::Clu(x) => **x = set_cluster(set_cluster(ClusterInfo::builder(), e, n), e2, p).build(l)?,
        T::Reg(x) => **x = set_register(set_register(RegisterInfo::builder(), e, n), e2, p).build(l)?,
        T::Fld(x) => **x = set_field(set_field(FieldInfo::builder(), e), e2).build(l)?,
        T::Evs(x) => *x = set_evs(set_evs(EnumeratedValues::builder(), e), e2).build(l)?,
        T::Ev(x) => *x = set_ev(set_ev(EnumeratedValue::builder(), e), e2).build(l)?,
        T::Dai(_) => {}
    }
    Ok(())
}
fn dim_of<'a>(t: &'a mut T) -> Option<&'a mut DimElement> {
    fn d<I>(x: &mut MaybeArray<I>) -> Option<&mut DimElement> {
        match x {
            MaybeArray::Array(_, d) => Some(d),
            _ => None,
        }
    }
    match t {
        T::Per(x) => d(x),
        T::Clu(x) => d(x),
        T::Reg(x) => d(x),
        T::Fld(x) => d(x),
        _ => None,
    }
}
/// Takes the dimensions of an array apart into a builder, gives it some values and builds them again.
fn redim(d: &mut DimElement, e: &El, l: ValidateLevel) -> Result<(), SvdError> {
    *d = set_dim(DimElementBuilder::from(d.clone()), e).build(l)?;
    Ok(())
}
fn wrap(t: T, d: Option<DimElement>) {
    match t {
        T::Per(x) => *x = (**x).clone().maybe_array(d),
        T::Clu(x) => *x = (**x).clone().maybe_array(d),
        T::Reg(x) => *x = (**x).clone().maybe_array(d),
        T::Fld(x) => *x = (**x).clone().maybe_array(d),
        _ => {}
    }
}

// ---------------------------------------------------------------- the reference

/// Texts that stay when emptied.
fn kept_empty(k: K, n: &str) -> bool {
    items(k).iter().any(|i| matches!(i, It::F(m, t, req) if *m == n && (*req || *t == Ty::Attr)))
        || k == K::Device && matches!(n, "version" | "description")
}
/// Kinds in which building keeps an empty optional text, which counts as absent.
fn loose(k: K) -> bool {
    matches!(k, K::Device | K::Register | K::Interrupt)
}
fn bits(e: &mut El, x: &El) {
    let old = e.bits();
    let seq = x.l("bitSeq").unwrap_or_else(|| vec!["range".into()]);
    let (mut o, mut w, mut t) = match old {
        Some((o, w, t)) => (Some(o), Some(w), t),
        None => (None, None, Bt::OffWidth),
    };
    let mut any = false;
    for s in seq {
        match (s.as_str(), x.bits()) {
            ("range", Some((a, b, c))) => {
                (o, w, t) = (Some(a), Some(b), c);
                any = true;
            }
            ("range", None) => {}
            ("offset", _) => {
                o = Some(x.n("bitOffset").unwrap_or(0));
                any = true;
            }
            ("offset2", _) => {
                o = Some(x.n("bitOffset2").unwrap_or(0));
                any = true;
            }
            ("width2", _) => {
                w = Some(x.n("bitWidth2").unwrap_or(1));
                any = true;
            }
            _ => {
                w = Some(x.n("bitWidth").unwrap_or(1));
                any = true;
            }
        }
    }
    if let (true, Some(o), Some(w)) = (any, o, w) {
        e.f.insert("bits", V::R(o, w, t));
    }
}
/// The element after values were given to it. In place, making it derived clears what it
/// contains; on a builder it is a value like any other.
fn overlay(e: &El, x: &El, in_place: bool) -> El {
    let mut e = e.clone();
    let k = e.k;
    let derive = in_place && x.f.contains_key("@derivedFrom");
    for (n, v) in &x.f {
        if matches!(*n, "bits" | "bitSeq" | "bitOffset" | "bitWidth" | "bitOffset2" | "bitWidth2" | "viaProps") {
            continue;
        }
        if matches!(v, V::S(s) if s.is_empty()) && !kept_empty(k, n) && !(in_place && k == K::Interrupt) {
            if !(loose(k) && !in_place) {
                e.f.remove(n);
                continue;
            }
        }
        if matches!(v, V::L(l) if l.is_empty()) {
            e.f.remove(n);
            continue;
        }
        e.f.insert(n, v.clone());
    }
    if k == K::Field {
        bits(&mut e, x);
    }
    for (g, v) in &x.g {
        if in_place && v.is_empty() && matches!(*g, "registers" | "fields") {
            e.g.remove(g);
        } else if matches!(*g, "cpu" | "dimArrayIndex") && v.is_empty() {
            // nothing given (None)
            if !in_place {
                e.g.remove(g);
            }
        } else {
            e.g.insert(g, v.clone());
        }
    }
    if derive {
        for n in cleared(k) {
            e.f.remove(n);
            e.g.remove(n);
        }
    }
    norm(&e)
}
fn cleared(k: K) -> &'static [&'static str] {
    match k {
        K::Peripheral => &["registers", "addressBlock", "size", "access", "protection", "resetValue", "resetMask"],
        K::Cluster => &["children", "size", "access", "protection", "resetValue", "resetMask"],
        K::Register => &["fields", "size", "access", "protection", "resetValue", "resetMask", "dataType", "modifiedWriteValues", "writeConstraint"],
        K::Field => &["modifiedWriteValues", "writeConstraint", "enumeratedValues"],
        K::Evs => &["name", "usage", "values"],
        _ => &[],
    }
}
/// Lists that are always there are absent when empty.
pub fn norm(e: &El) -> El {
    let mut e = e.clone();
    e.walk_mut(&mut |x| {
        x.g.retain(|g, v| !v.is_empty() || matches!(*g, "registers" | "fields" | "addressBlock"));
    });
    e
}
fn same(a: &El, b: &El, loose: bool) -> Option<String> {
    sys::quiet(|| {
        if loose {
            crate::model::diff(&a.canon(), &b.canon())
        } else {
            crate::model::diff(&norm(a), &norm(b))
        }
    })
}
/// What a rejected edit may leave: every property it names old or new, all else old.
fn after_rejection(old: &El, new: &El, x: &El, got: &El) -> Option<String> {
    let mut named: HashSet<&str> = x.f.keys().copied().chain(x.g.keys().copied()).collect();
    if x.f.contains_key("@derivedFrom") {
        named.extend(cleared(old.k));
    }
    let (old, new, got) = (norm(old), norm(new), norm(got));
    let keys: HashSet<&str> = [&old, &new, &got].iter().flat_map(|e| e.f.keys().chain(e.g.keys())).copied().collect();
    for n in keys {
        if n == "bits" {
            let (Some(o), Some(w), Some(g)) = (old.bits(), new.bits(), got.bits()) else { continue };
            if (g.0 != o.0 && g.0 != w.0) || (g.1 != o.1 && g.1 != w.1) {
                return Some(format!("bits {g:?}, before {o:?}, given {w:?}"));
            }
            continue;
        }
        let eq = |a: &El, b: &El| a.f.get(n) == b.f.get(n) && a.g.get(n) == b.g.get(n);
        // a named property may also be passed over, e.g. below one that clears it
        let blank = x.f.contains_key("@derivedFrom") && !got.f.contains_key(n) && !got.g.contains_key(n);
        if !eq(&got, &old) && !(named.contains(n) && (eq(&got, &new) || blank)) {
            return Some(format!("{n} {:?} {:?}, before {:?} {:?}", got.f.get(n), got.g.get(n), old.f.get(n), old.g.get(n)));
        }
    }
    None
}

// ---------------------------------------------------------------- scenarios

const FOUL: &[&str] = &["not valid", "9x", "a-b", "x.y", "é", "x[%s]", "%s", "a%sb%s", "a,b"];
const FEW: &[&str] = &["A", "B", "CR", "SR"];

/// Some values for an element of a kind.
fn gen_edit(r: &mut Rng, k: K) -> El {
    let g = gen_some(r, false);
    gen_edit_with(r, k, g)
}
fn gen_edit_with(r: &mut Rng, k: K, mut g: Gen) -> El {
    g.level = 2;
    g.refs = 0;
    g.regs = g.regs.min(2);
    g.peripherals = 1;
    let whole = gen_whole(r, k, g);
    let keep = *r.pick(&[5u64, 20, 20, 60, 100]);
    let mut e = El::new(k);
    for (n, v) in whole.f {
        if r.pct(keep) {
            e.f.insert(n, v);
        }
    }
    for (n, v) in whole.g {
        if r.pct(keep / 2 + 5) {
            e.g.insert(n, if r.pct(15) { vec![] } else { v });
        }
    }
    // emptied texts
    for it in items(k) {
        if let It::F(n, Ty::Text, _) = it {
            if r.pct(6) && !DIM_KEYS.contains(n) && *n != "name" {
                e.set_s(n, "");
            }
        }
    }
    if r.pct(15) {
        let n = if r.pct(50) { *r.pick(FOUL) } else { *r.pick(FEW) };
        if k != K::AddressBlock && k != K::Dai {
            e.set_s("name", n);
        }
    }
    if matches!(k, K::Device | K::Peripheral | K::Cluster | K::Register) && r.pct(20) {
        for n in ["size", "resetValue", "resetMask"] {
            if r.pct(50) {
                let v = *r.pick(&[0, 1, 7, 8, 16, 32, 64, 255, 256, 0xffff, 0x1_0000, u32::MAX as u64]);
                e.set_n(n, v);
            }
        }
    }
    if k.derivable() && r.pct(15) {
        let t = *r.pick(&["A", "B.CR", "P.Q.R", "not valid", "x..y", "Some"]);
        e.set_s("@derivedFrom", t);
        e.f.remove("readAction");
    }
    if k == K::Field {
        if r.pct(50) {
            let mut s = vec![];
            let p: &[&str] = if r.pct(20) { &["offset"] } else if r.pct(20) { &["width"] } else { &["range", "offset", "width", "offset2", "width2"] };
            for _ in 0..r.range(1, 5) {
                s.push(r.pick(p).to_string());
            }
            if s.iter().any(|x| x == "range") {
                e.f.insert("bits", V::R(r.below(40), r.range(1, 40), *r.pick(&[Bt::Range, Bt::OffWidth, Bt::MsbLsb])));
            } else {
                e.f.remove("bits");
            }
            e.f.insert("bitSeq", V::L(s));
            e.set_n("bitOffset", r.below(70));
            e.set_n("bitWidth", *r.pick(&[0u64, 1, 2, 3, 8, 16, 32, 63, 64, 65]));
            e.set_n("bitOffset2", r.below(70));
            e.set_n("bitWidth2", r.range(1, 40));
        }
        if r.pct(10) {
            e.f.insert("writeConstraint", V::W(Wc::Range(r.below(300), r.below(300))));
        }
    }
    if k == K::Ev && r.pct(30) {
        e.f.insert("isDefault", V::B(r.pct(70)));
    }
    if k == K::Register && r.pct(50) {
        e.f.insert("viaProps", V::B(false));
    }
    e
}
/// A whole element, without dimensions.
fn gen_whole(r: &mut Rng, k: K, g: Gen) -> El {
    let mut used = HashSet::new();
    let depth = r.below(2);
    let mut gg = G { r, c: g };
    let mut e = match k {
        K::Device => gg.device(),
        K::Cpu => gg.cpu(),
        K::Peripheral => gg.peripheral(&mut used),
        K::AddressBlock => gg.ab(),
        K::Interrupt => gg.interrupt(),
        K::Cluster => gg.cluster(&mut used, depth),
        K::Register => gg.register(&mut used),
        K::Field => gg.field(&mut used),
        K::Evs => gg.evs(255),
        K::Ev => gg.ev(255, &mut used),
        K::Dai => El::new(K::Dai),
    };
    for n in DIM_KEYS {
        e.f.remove(n);
    }
    e.g.remove("dimArrayIndex");
    e.f.remove("@derivedFrom");
    e
}
fn gen_dims(r: &mut Rng, all: bool) -> El {
    let mut g = gen_some(r, false);
    g.arrays = 100;
    let mut used = HashSet::new();
    let mut e = G { r, c: g }.field(&mut used);
    e.f.retain(|n, _| DIM_KEYS.contains(n));
    e.g.retain(|n, _| *n == "dimArrayIndex");
    if !e.is_array() {
        e.set_n("dim", 2).set_n("dimIncrement", 4);
    }
    if !all {
        let keep = *r.pick(&[25, 50, 100]);
        e.f.retain(|_, _| r.pct(keep));
        e.g.retain(|_, _| r.pct(keep));
        if r.pct(15) {
            e.set_s("dimName", "");
        }
        if r.pct(15) {
            e.f.insert("dimIndex", V::L(vec![]));
        }
    }
    // indexes that are numbers, but in no order or more than once
    if let (true, Some(n)) = (r.pct(15), e.n("dim")) {
        let from = r.below(9);
        let mut v: Vec<String> = (0..n).map(|i| (from + i).to_string()).collect();
        r.shuffle(&mut v);
        if v.len() > 1 && r.pct(30) {
            v[0] = v[1].clone();
        }
        e.f.insert("dimIndex", V::L(v));
    }
    if let Some(d) = e.g.get_mut("dimArrayIndex").and_then(|v| v.first_mut()) {
        for v in d.g.get_mut("values").into_iter().flatten() {
            if r.pct(15) {
                v.set_s("name", *r.pick(FOUL));
            }
        }
    }
    e
}
const EDITED: [K; 10] =
    [K::Device, K::Cpu, K::Peripheral, K::AddressBlock, K::Interrupt, K::Cluster, K::Register, K::Field, K::Evs, K::Ev];
pub fn gen_step(r: &mut Rng) -> Value {
    let mut k = *r.pick(&EDITED);
    if r.pct(40) {
        k = *r.pick(&[K::Field, K::Register, K::Cluster, K::Peripheral, K::Field]);
    }
    let level = r.below(3);
    let (n, by) = (r.below(1 << 16), r.below(1 << 30));
    let mut v = match r.below(20) {
        0..=10 => json!({"do": "modify", "edit": gen_edit(r, k).to_json()}),
        11..=13 => json!({"do": "rebuild", "edit": gen_edit(r, k).to_json()}),
        14..=15 => {
            if k == K::Device {
                k = K::Register;
            }
            let mut g = gen_some(r, false);
            g.level = 2;
            g.refs = 0;
            json!({"do": "fresh", "edit": gen_whole(r, k, g).to_json(), "edit2": gen_edit(r, k).to_json()})
        }
        16..=17 => {
            let how = *r.pick(&["dim", "dim", "redim"]);
            json!({"do": how, "edit": gen_dims(r, false).to_json()})
        }
        18 => {
            if r.pct(50) {
                json!({"do": "wrap", "edit": gen_dims(r, true).to_json()})
            } else {
                json!({"do": "unwrap"})
            }
        }
        _ => json!({"do": "props", "edit": gen_edit(r, K::Register).to_json()}),
    };
    v["k"] = json!(k.tag());
    v["n"] = json!(n);
    v["by"] = json!(by);
    v["level"] = json!(level);
    v
}

pub static C06: Prop = Prop {
    id: "C06",
    gen: gen_c06,
    run: run_c06,
    chunk: 150,
    rule: "a run takes a description through a history of edits to any of its elements (in place, through a builder made from the element, built anew, dimensions, register defaults; at any level; accepted or rejected; reached by position, by name or by traversal) and compares the whole description with the reference after every step; non-trivial: at least one edit was accepted and changed something or was rejected",
    measure: "distinct (kind of step, kind of element, level, accepted or not, set of properties named)",
    real: "svd-rs builders, modify_from, build, lookups and mutable traversals",
    stub: "hash keys, clock",
    assumptions: &[
        "an edit that makes a register or field derived does not give a read action with it",
        "whether an edit is accepted is judged by the reference of the rules, which C10 checks against the code",
    ],
};
pub fn gen_c06(r: &mut Rng, t: &Tier) -> Value {
    let mut g = gen_some(r, false);
    g.depth = r.below(3);
    g.enums = *r.pick(&[30, 80]);
    let n = *r.pick(&[1u64, 3, 6, if t.thorough { 20 } else { 10 }]);
    let mut steps: Vec<Value> = (0..n).map(|_| gen_step(r)).collect();
    if r.pct(25) {
        let at = r.usize(steps.len());
        steps.insert(at, gen_pass(r));
    }
    json!({"doc": gen::device(r, &g).to_json(), "steps": steps})
}
/// A step that takes the description through another part of the system.
pub fn gen_pass(r: &mut Rng) -> Value {
    json!({"do": *r.pick(&["save", "export", "expand", "defaults"]),
        "write": gen_faults(r, 15, 8), "image": Image::gen(r).to_json(), "read": gen_faults(r, 5, 8)})
}
fn run_c06(sc: &Value, c: &mut Ctx) -> Res {
    history(sc, c, None, None)
}

/// What is looked at after every step.
/// Judges a rejection of what an element should have become.
type Why = fn(&SvdError, &El, Lv, &mut Ctx) -> Res;
type Look = fn(&Device, &El, &mut Ctx) -> Res;
pub fn history(sc: &Value, c: &mut Ctx, look: Option<Look>, why: Option<Why>) -> Res {
    let d = doc(sc, "doc")?;
    let Ok(mut dev) = sys::quiet(|| conv::build_device(&d, OFF)) else { return Ok(()) };
    let mut m = el(&dev);
    if let Some(f) = look {
        f(&dev, &m, c)?;
    }
    for s in arr(sc, "steps") {
        if !pass(&mut dev, &m, &s, c) {
            edit(&mut dev, &mut m, &s, c, why)?;
        } else {
            m = el(&dev);
        }
        if let Some(f) = look {
            f(&dev, &m, c)?;
        }
    }
    Ok(())
}
/// Nothing written tells of a field of no bits, which levels that judge refuse.
fn writable(m: &El) -> bool {
    !matches!(m.bits(), Some((_, 0, _))) && m.g.values().flatten().all(writable)
}
/// Written to the disk, which may fail or stop at any point, and read back after a restart.
fn stored(t: String, s: &Value, c: &mut Ctx) -> Option<String> {
    let d = Disk::new();
    d.plan(&s["write"]);
    let r = d.save("f", t.as_bytes());
    d.crash(&Image::from_json(&if r.is_ok() { json!({}) } else { s["image"].clone() }));
    d.plan(&s["read"]);
    let got = d.read_all("f");
    d.plan(&json!([]));
    let got = got.or_else(|_| d.read_all("f"));
    disk_faults(&d, c);
    String::from_utf8(got.ok()?).ok()
}
/// The description goes through the rest of the system; what comes out is what is edited next.
fn pass(dev: &mut Device, m: &El, s: &Value, c: &mut Ctx) -> bool {
    let next = match text(s, "do") {
        "save" | "export" if !writable(m) => return true,
        "save" => svd_encoder::encode(dev)
            .ok()
            .and_then(|t| stored(t, s, c))
            .and_then(|t| svd_parser::parse_with_config(&t, &svd_parser::Config::default().validate_level(OFF)).ok()),
        "export" => serde_json::to_string(dev).ok().and_then(|t| stored(t, s, c)).and_then(|t| serde_json::from_str(&t).ok()),
        "expand" => {
            let d = &*dev;
            let small = sys::quiet(|| crate::refexp::expand(&conv::el_device(d), 2000).is_ok());
            small.then(|| svd_parser::expand(d).ok()).flatten()
        }
        "defaults" => {
            svd_parser::expand_properties(dev);
            None
        }
        _ => return false,
    };
    c.probe(match (text(s, "do"), next.is_some()) {
        ("defaults", _) => "defaults applied between edits",
        ("expand", true) => "expanded between edits",
        ("expand", _) => "expansion refused between edits",
        (_, true) => "saved and loaded between edits",
        _ => "not loadable between edits",
    });
    if let Some(d) = next {
        *dev = d;
    }
    true
}
fn edit(dev: &mut Device, m: &mut El, s: &Value, c: &mut Ctx, why: Option<Why>) -> Res {
    let how = text(s, "do").to_string();
    let Some(k) = K::from_tag(text(s, "k")) else { return Ok(()) };
    let lv = Lv::from(num(s, "level"));
    let l = lv.real();
    let x = s.get("edit").and_then(El::from_json).unwrap_or(El::new(k));
    let x2 = s.get("edit2").and_then(El::from_json).unwrap_or(El::new(k));
    let fits = |e: &El| match how.as_str() {
        "dim" | "redim" | "unwrap" => e.is_array(),
        "wrap" => e.k.dimable(),
        "props" => matches!(e.k, K::Device | K::Peripheral | K::Cluster | K::Register),
        _ => e.k == k,
    };
    let cand: Vec<Addr> = sys::quiet(|| gen::addrs(m).into_iter().filter(|a| fits(gen::at(m, a))).collect());
    if cand.is_empty() || (how != "dim" && how != "redim" && how != "wrap" && how != "unwrap" && how != "props" && x.k != k) {
        c.hit("nothing to edit");
        return Ok(());
    }
    let a = &cand[num(s, "n") as usize % cand.len()];
    let old = gen::at(m, a).clone();
    // what should come of it
    let (new, ok, lax) = sys::quiet(|| match how.as_str() {
        "modify" => {
            let n = overlay(&old, &x, true);
            let ok = refval::one(&n, lv);
            (n, ok, false)
        }
        "rebuild" => {
            let n = overlay(&old, &x, false);
            let ok = refval::one(&n, lv);
            (n, ok, loose(old.k))
        }
        "fresh" => {
            let mut n = overlay(&overlay(&El::new(k), &x, false), &x2, false);
            let missing = items(k).iter().any(|i| matches!(i, It::F(f, _, true) if !n.f.contains_key(f)))
                || k == K::Cluster && !x.g.contains_key("children") && !x2.g.contains_key("children");
            let ok = !missing && refval::one(&n, lv);
            for (f, v) in &old.f {
                if DIM_KEYS.contains(f) {
                    n.f.insert(f, v.clone());
                }
            }
            if let Some(v) = old.g.get("dimArrayIndex") {
                n.g.insert("dimArrayIndex", v.clone());
            }
            (n, ok, true)
        }
        "dim" | "redim" => {
            let mut n = overlay(&old, &x, true);
            if how == "redim" && x.g.get("dimArrayIndex").is_some_and(|v| v.is_empty()) {
                n.g.remove("dimArrayIndex");
            }
            let ok = n.grp("dimArrayIndex").iter().flat_map(|d| d.grp("values")).all(|v| refval::one(v, lv));
            (n, ok, false)
        }
        "wrap" | "unwrap" => {
            let mut n = old.clone();
            for f in DIM_KEYS {
                n.f.remove(f);
            }
            n.g.remove("dimArrayIndex");
            let mut ok = true;
            if how == "wrap" {
                n = overlay(&n, &x, false);
                ok = x.f.contains_key("dim") && x.f.contains_key("dimIncrement");
                ok &= n.grp("dimArrayIndex").iter().flat_map(|d| d.grp("values")).all(|v| refval::one(v, lv));
            }
            (n, ok, false)
        }
        _ => {
            let mut n = old.clone();
            for f in PROP_NAMES {
                if let Some(v) = x.f.get(f) {
                    n.f.insert(f, v.clone());
                }
            }
            let ok = lv == Lv::Off || refval::props(&n, lv);
            (n, ok, false)
        }
    });
    let Some(mut t) = reach(dev, m, a, num(s, "by")) else {
        return viol("not found", format!("{} {a:?}", old.name()));
    };
    let r = match how.as_str() {
        "modify" => modify(t, &x, l),
        "rebuild" => rebuild(t, &x, l),
        "fresh" => fresh(t, &x, &x2, l),
        "dim" => match dim_of(&mut t) {
            Some(d) => d.modify_from(set_dim(DimElement::builder(), &x), l),
            None => return viol("not an array", old.name()),
        },
        "redim" => match dim_of(&mut t) {
            Some(d) => redim(d, &x, l),
            None => return viol("not an array", old.name()),
        },
        "wrap" => set_dim(DimElement::builder(), &x).build(l).map(|d| wrap(t, Some(d))),
        "unwrap" => {
            wrap(t, None);
            Ok(())
        }
        _ => {
            let p = match &mut t {
                T::Dev(x) => &mut x.default_register_properties,
                T::Per(x) => &mut x.default_register_properties,
                T::Clu(x) => &mut x.default_register_properties,
                T::Reg(x) => &mut x.properties,
                _ => return Ok(()),
            };
            p.modify_from(props_of(&x), l)
        }
    };
    let now = el(dev);
    let named = x.f.keys().chain(x.g.keys()).fold(0, |h, n| h ^ mix(hash_bytes(n.as_bytes())));
    c.state(mix(named) ^ hash_bytes(format!("{how} {:?} {lv:?} {}", old.k, r.is_ok()).as_bytes()));
    c.ev(&format!("{how} {} {}", old.k.tag(), r.is_ok()));
    match r {
        Ok(()) => {
            if !ok {
                return viol("edit accepted against the rules", format!("{how} {} {:?} at {lv:?}", old.k.tag(), x.to_json()));
            }
            c.hit("accepted");
            let mut want = m.clone();
            *gen::at_mut(&mut want, a) = new;
            // given by offset and width together, the notation is either
            let seq = x.l("bitSeq").unwrap_or_default();
            let both = ["offset", "width"].iter().all(|p| seq.iter().any(|s| s.starts_with(p)));
            if old.k == K::Field && x.bits().is_none() && (both || how == "fresh") {
                let (w, g) = (gen::at_mut(&mut want, a), if gen::has(&now, a) { gen::at(&now, a).bits() } else { None });
                if let (Some((o, n, _)), Some((_, _, t))) = (w.bits(), g) {
                    w.f.insert("bits", V::R(o, n, t));
                }
            }
            if let Some(d) = same(&want, &now, lax) {
                return viol(format!("{how} of a {} leaves something else", old.k.tag()), cut(&d));
            }
            c.nontrivial |= now != *m;
        }
        Err(e) => {
            if ok {
                return viol("edit rejected", format!("{how} {} at {lv:?}: {}", old.k.tag(), cut(&format!("{e:#}"))));
            }
            c.fault("rejected edit");
            c.nontrivial = true;
            if let Some(f) = why {
                f(&e, &new, lv, c)?;
            }
            // a value built anew or rebuilt takes its place only if accepted
            let got = if gen::has(&now, a) { gen::at(&now, a).clone() } else { El::new(K::Device) };
            if got.k != old.k {
                return viol("rejected edit moved elements", old.name());
            }
            let bad = if how == "modify" || how == "dim" || how == "props" {
                after_rejection(&old, &new, &x, &got)
            } else {
                same(&old, &got, false)
            };
            if let Some(d) = bad {
                return viol(format!("rejected {how} of a {} changes what it does not name", old.k.tag()), cut(&d));
            }
            let mut rest = now.clone();
            *gen::at_mut(&mut rest, a) = old;
            if let Some(d) = same(m, &rest, false) {
                return viol("rejected edit changes another element", cut(&d));
            }
        }
    }
    *m = now;
    Ok(())
}

/// A step of an edit history without judging it: what came of it.
pub fn blind(dev: &mut Device, m: &El, s: &Value) -> Option<Result<(), SvdError>> {
    let (t, x, x2) = sys::quiet(|| {
        let how = text(s, "do");
        let k = K::from_tag(text(s, "k"))?;
        let x = s.get("edit").and_then(El::from_json).unwrap_or(El::new(k));
        let x2 = s.get("edit2").and_then(El::from_json).unwrap_or(El::new(k));
        let any = matches!(how, "dim" | "redim" | "wrap" | "unwrap" | "props");
        let fits = |e: &El| match how {
            "dim" | "redim" | "unwrap" => e.is_array(),
            "wrap" => e.k.dimable(),
            "props" => matches!(e.k, K::Device | K::Peripheral | K::Cluster | K::Register),
            _ => e.k == k && x.k == k,
        };
        let cand: Vec<Addr> = gen::addrs(m).into_iter().filter(|a| fits(gen::at(m, a))).collect();
        if cand.is_empty() || (!any && x.k != k) {
            return None;
        }
        Some((cand[num(s, "n") as usize % cand.len()].clone(), x, x2))
    })?;
    let l = Lv::from(num(s, "level")).real();
    let mut t = reach(dev, m, &t, num(s, "by"))?;
    Some(match text(s, "do") {
        "modify" => modify(t, &x, l),
        "rebuild" => rebuild(t, &x, l),
        "fresh" => fresh(t, &x, &x2, l),
        "dim" => dim_of(&mut t)?.modify_from(set_dim(DimElement::builder(), &x), l),
        "redim" => redim(dim_of(&mut t)?, &x, l),
        "wrap" => set_dim(DimElement::builder(), &x).build(l).map(|d| wrap(t, Some(d))),
        "unwrap" => {
            wrap(t, None);
            Ok(())
        }
        _ => {
            let p = match &mut t {
                T::Dev(x) => &mut x.default_register_properties,
                T::Per(x) => &mut x.default_register_properties,
                T::Clu(x) => &mut x.default_register_properties,
                T::Reg(x) => &mut x.properties,
                _ => return None,
            };
            p.modify_from(props_of(&x), l)
        }
    })
}

// ---------------------------------------------------------------- C17

pub static C17: Prop = Prop {
    id: "C17",
    gen: gen_c17,
    run: run_c17,
    chunk: 150,
    rule: "a run takes a description through a history of edits, renames that make siblings share a name, and rejected edits, and after every step makes every traversal and every lookup by name or usage there is and compares them with the reference; non-trivial: a lookup had several elements of one name, or a traversal descended into clusters",
    measure: "distinct (shape of the block: kinds and depths in document order, equal names)",
    real: "svd-rs iterators and lookups, builders and modify_from for the edits",
    stub: "hash keys, clock",
    assumptions: &[],
};
fn gen_c17(r: &mut Rng, t: &Tier) -> Value {
    let mut v = gen_c06(r, t);
    let mut g = gen_some(r, false);
    g.depth = r.range(1, 3);
    g.regs = r.range(2, 6);
    g.enums = 50;
    v["doc"] = gen::device(r, &g).to_json();
    let n = r.below(6);
    for _ in 0..n {
        let k = *r.pick(&[K::Peripheral, K::Register, K::Register, K::Cluster, K::Field, K::Ev, K::Interrupt, K::Evs]);
        let mut e = El::new(k);
        if k == K::Evs {
            let u = *r.pick(USAGE);
            e.set_s("usage", u);
        } else {
            let n = *r.pick(FEW);
            e.set_s("name", n);
        }
        let s = json!({"do": "modify", "edit": e.to_json(), "k": k.tag(), "n": r.below(1 << 16), "by": r.below(1 << 30), "level": 0});
        if let Some(a) = v["steps"].as_array_mut() {
            let at = r.usize(a.len() + 1);
            a.insert(at, s);
        }
    }
    v
}
fn run_c17(sc: &Value, c: &mut Ctx) -> Res {
    history(sc, c, Some(views), None)
}
/// Every lookup and traversal against the tree.
#[allow(deprecated)] // both names of a traversal are there to be used
fn views(d: &Device, m: &El, c: &mut Ctx) -> Res {
    fn names<'a>(m: &'a El, g: &str, k: K) -> Vec<&'a str> {
        m.grp(g).iter().filter(|e| e.k == k).map(|e| e.name()).collect()
    }
    fn check<X>(what: &str, of: &str, m: &El, g: &str, k: K, find: impl Fn(&str) -> Option<X>, conv: impl Fn(&X) -> El, c: &mut Ctx) -> Res {
        let all = names(m, g, k);
        let set: HashSet<&str> = all.iter().copied().collect();
        if set.len() < all.len() {
            c.nontrivial = true;
            c.probe("lookups with several of one name");
        }
        // names that are nearly those of an element
        let mut near: Vec<String> = vec!["Nobody".into(), String::new()];
        if let Some(n) = all.get(all.len() / 2) {
            let (u, l) = (n.to_uppercase(), n.to_lowercase());
            near.push(if u == **n { l } else { u });
            near.push(format!("{n} "));
            near.push(format!("{of}.{n}"));
            near.push(n.replace("[%s]", "0").replace("%s", "0"));
            near.extend(n.char_indices().next_back().map(|x| n[..x.0].to_string()));
        }
        for n in set.into_iter().chain(near.iter().map(|s| s.as_str())) {
            let want = first_named(m, g, k, n).map(|i| norm(&m.grp(g)[i]));
            let got = find(n).map(|x| sys::quiet(|| norm(&conv(&x))));
            if want != got {
                return viol(format!("lookup of a {what}"), format!("{n} in {of}: {:?}", got.map(|e| e.name().to_string())));
            }
        }
        Ok(())
    }
    fn list(what: &str, of: &str, want: Vec<El>, got: Vec<El>) -> Res {
        let (a, b): (Vec<El>, Vec<El>) = (want.iter().map(norm).collect(), got.iter().map(norm).collect());
        if a != b {
            let n = |v: &[El]| v.iter().map(|e| e.name().to_string()).collect::<Vec<_>>().join(",");
            return viol(format!("traversal of {what}"), cut(&format!("{of}: [{}] for [{}]", n(&b), n(&a))));
        }
        Ok(())
    }
    fn kind(m: &El, g: &str, k: K) -> Vec<El> {
        m.grp(g).iter().filter(|e| e.k == k).cloned().collect()
    }
    fn deep(m: &El) -> Vec<El> {
        below(m).iter().map(|a| gen::at(m, a).clone()).collect()
    }
    fn fields(r: &RegisterInfo, m: &El, c: &mut Ctx) -> Res {
        check("field", m.name(), m, "fields", K::Field, |n| r.get_field(n).cloned(), conv::el_field, c)?;
        let y = RefCell::new(r.clone());
        check("field to change", m.name(), m, "fields", K::Field, |n| y.borrow_mut().get_mut_field(n).cloned(), conv::el_field, c)?;
        list("fields to change", m.name(), kind(m, "fields", K::Field), y.borrow_mut().fields_mut().map(|f| conv::el_field(f)).collect())?;
        list("fields", m.name(), kind(m, "fields", K::Field), r.fields().map(conv::el_field).collect())?;
        for (f, fm) in r.fields().zip(m.grp("fields")) {
            says(f, fm)?;
            let v = fm.grp("enumeratedValues");
            for u in [Usage::Read, Usage::Write, Usage::ReadWrite] {
                let us = |e: &El| e.sr("@derivedFrom").is_none().then(|| e.sr("usage").and_then(conv::usage).unwrap_or_default());
                // more than a read and a write list is not a description in which usage tells them apart
                if v.len() > 2 {
                    continue;
                }
                let want = v.iter().find(|e| us(e) == Some(u)).map(norm);
                let got = f.get_enumerated_values(u).map(|e| norm(&conv::el_evs(e)));
                if want != got {
                    return viol("lookup of enumerated values", format!("{u:?} in {}", fm.name()));
                }
                if want != f.clone().get_mut_enumerated_values(u).map(|e| norm(&conv::el_evs(e))) {
                    return viol("lookup of enumerated values to change", format!("{u:?} in {}", fm.name()));
                }
            }
            for (e, em) in f.enumerated_values.iter().zip(v) {
                for (e, em) in e.values.iter().zip(em.grp("values")) {
                    says(e, em)?;
                }
                check("enumerated value", fm.name(), em, "values", K::Ev, |n| e.get_value(n).cloned(), conv::el_ev, c)?;
                let y = RefCell::new(e.clone());
                check("enumerated value to change", fm.name(), em, "values", K::Ev, |n| y.borrow_mut().get_mut_value(n).cloned(), conv::el_ev, c)?;
                let want = em.grp("values").iter().find(|x| x.b("isDefault") == Some(true)).cloned();
                if e.default_value().map(conv::el_ev) != want {
                    return viol("default value", fm.name());
                }
            }
        }
        Ok(())
    }
    fn cluster(x: &Cluster, m: &El, c: &mut Ctx) -> Res {
        check("register", m.name(), m, "children", K::Register, |n| x.get_register(n).cloned(), conv::el_register, c)?;
        check("cluster", m.name(), m, "children", K::Cluster, |n| x.get_cluster(n).cloned(), conv::el_cluster, c)?;
        list("registers", m.name(), kind(m, "children", K::Register), x.registers().map(conv::el_register).collect())?;
        list("clusters", m.name(), kind(m, "children", K::Cluster), x.clusters().map(conv::el_cluster).collect())?;
        list("all registers", m.name(), deep(m), x.all_registers().map(conv::el_register).collect())?;
        let y = RefCell::new(x.clone());
        check("register to change", m.name(), m, "children", K::Register, |n| y.borrow_mut().get_mut_register(n).cloned(), conv::el_register, c)?;
        check("cluster to change", m.name(), m, "children", K::Cluster, |n| y.borrow_mut().get_mut_cluster(n).cloned(), conv::el_cluster, c)?;
        let mut y = y.into_inner();
        list("registers to change", m.name(), kind(m, "children", K::Register), y.registers_mut().map(|r| conv::el_register(r)).collect())?;
        list("clusters to change", m.name(), kind(m, "children", K::Cluster), y.clusters_mut().map(|r| conv::el_cluster(r)).collect())?;
        list("all registers to change", m.name(), deep(m), y.all_registers_mut().map(|r| conv::el_register(r)).collect())?;
        list("all registers by the old name", m.name(), deep(m), x.reg_iter().map(conv::el_register).collect())?;
        list("all registers to change by the old name", m.name(), deep(m), y.reg_iter_mut().map(|r| conv::el_register(r)).collect())?;
        blocks(&x.children, m.grp("children"), c)
    }
    fn blocks(v: &[RegisterCluster], m: &[El], c: &mut Ctx) -> Res {
        for (x, xm) in v.iter().zip(m) {
            let own = (x.name().as_str(), x.description().as_deref(), x.derived_from().as_deref(), Some(x.address_offset() as u64));
            if own != (xm.name(), xm.sr("description"), xm.sr("@derivedFrom"), xm.n("addressOffset")) {
                return viol("what an entry of a block says of itself", cut(&format!("{own:?} for {}", xm.name())));
            }
            match x {
                RegisterCluster::Register(r) => says(r, xm)?,
                RegisterCluster::Cluster(y) => says(y, xm)?,
            }
            match x {
                RegisterCluster::Register(r) => fields(r, xm, c)?,
                RegisterCluster::Cluster(y) => cluster(y, xm, c)?,
            }
        }
        Ok(())
    }
    /// The common traits, through the element, a reference to it and one that allows changes.
    fn says<X: Name + Description + Clone>(x: &X, m: &El) -> Res {
        fn of<X: Name + Description>(x: X) -> (String, Option<String>) {
            (x.name().to_string(), x.description().map(str::to_string))
        }
        let want = (m.name().to_string(), m.s("description"));
        let own = (x.name().to_string(), x.description().map(str::to_string));
        // a copy of something large for each call would take most of the time
        let last = if matches!(m.k, K::Interrupt | K::Ev | K::Field) { of(&mut x.clone()) } else { want.clone() };
        for (by, got) in [("by itself", own), ("by reference", of(x)), ("by exclusive reference", last)] {
            if got != want {
                return viol(format!("name and description {by}"), cut(&format!("{} {got:?} for {want:?}", m.k.tag())));
            }
        }
        Ok(())
    }
    says(d, m)?;
    check("peripheral", "device", m, "peripherals", K::Peripheral, |n| d.get_peripheral(n).cloned(), conv::el_peripheral, c)?;
    let y = RefCell::new(d.clone());
    check("peripheral to change", "device", m, "peripherals", K::Peripheral, |n| y.borrow_mut().get_mut_peripheral(n).cloned(), conv::el_peripheral, c)?;
    for (p, pm) in d.peripherals.iter().zip(m.grp("peripherals")) {
        check("register", pm.name(), pm, "registers", K::Register, |n| p.get_register(n).cloned(), conv::el_register, c)?;
        check("cluster", pm.name(), pm, "registers", K::Cluster, |n| p.get_cluster(n).cloned(), conv::el_cluster, c)?;
        says(p, pm)?;
        for (i, im) in p.interrupt.iter().zip(pm.grp("interrupt")) {
            says(i, im)?;
        }
        check("interrupt", pm.name(), pm, "interrupt", K::Interrupt, |n| p.get_interrupt(n).cloned(), conv::el_int, c)?;
        list("registers", pm.name(), kind(pm, "registers", K::Register), p.registers().map(conv::el_register).collect())?;
        list("clusters", pm.name(), kind(pm, "registers", K::Cluster), p.clusters().map(conv::el_cluster).collect())?;
        list("all registers", pm.name(), deep(pm), p.all_registers().map(conv::el_register).collect())?;
        let y = RefCell::new(p.clone());
        check("register to change", pm.name(), pm, "registers", K::Register, |n| y.borrow_mut().get_mut_register(n).cloned(), conv::el_register, c)?;
        check("cluster to change", pm.name(), pm, "registers", K::Cluster, |n| y.borrow_mut().get_mut_cluster(n).cloned(), conv::el_cluster, c)?;
        check("interrupt to change", pm.name(), pm, "interrupt", K::Interrupt, |n| y.borrow_mut().get_mut_interrupt(n).cloned(), conv::el_int, c)?;
        let mut y = y.into_inner();
        list("registers to change", pm.name(), kind(pm, "registers", K::Register), y.registers_mut().map(|r| conv::el_register(r)).collect())?;
        list("clusters to change", pm.name(), kind(pm, "registers", K::Cluster), y.clusters_mut().map(|r| conv::el_cluster(r)).collect())?;
        list("all registers to change", pm.name(), deep(pm), y.all_registers_mut().map(|r| conv::el_register(r)).collect())?;
        list("all registers by the old name", pm.name(), deep(pm), p.reg_iter().map(conv::el_register).collect())?;
        list("all registers to change by the old name", pm.name(), deep(pm), y.reg_iter_mut().map(|r| conv::el_register(r)).collect())?;
        if below(pm).iter().any(|a| a.len() > 1) {
            c.nontrivial = true;
            c.probe("traversals into clusters");
        }
        blocks(p.registers.as_deref().unwrap_or(&[]), pm.grp("registers"), c)?;
        let mut h = 0;
        for a in below(pm) {
            h = mix(h ^ a.len() as u64);
        }
        for e in pm.grp("registers") {
            h = mix(h ^ e.k as u64 ^ (first_named(pm, "registers", e.k, e.name()).unwrap_or(0) as u64) << 8);
        }
        c.state(h);
    }
    Ok(())
}
