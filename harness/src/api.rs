//! Calls of the public API of netcdf3 described by JSON values, and views of its objects as JSON values.
use netcdf3::error::parse_header_error::InvalidBytes;
use netcdf3::error::{InvalidDataSet, ReadError, WriteError};
use netcdf3::{Attribute, DataSet, DataType, DataVector, Dimension, DimensionType, Variable};
use serde_json::{json, Value};
use std::rc::Rc;
use crate::util::*;

pub const TYPES: [&str; 6] = ["i8", "u8", "i16", "i32", "f32", "f64"];
pub fn tsize(t: &str) -> usize { match t { "i8" | "u8" => 1, "i16" => 2, "i32" | "f32" => 4, _ => 8 } }
pub fn tname(t: &DataType) -> &'static str {
    match t { DataType::I8 => "i8", DataType::U8 => "u8", DataType::I16 => "i16", DataType::I32 => "i32", DataType::F32 => "f32", DataType::F64 => "f64" }
}
pub fn dtype(t: &str) -> DataType {
    match t { "i8" => DataType::I8, "u8" => DataType::U8, "i16" => DataType::I16, "i32" => DataType::I32, "f32" => DataType::F32, _ => DataType::F64 }
}

// Element values are logged as their big-endian bytes.
pub fn i8s(b: &[u8]) -> Vec<i8> { b.iter().map(|x| *x as i8).collect() }
pub fn i16s(b: &[u8]) -> Vec<i16> { b.chunks_exact(2).map(|c| i16::from_be_bytes([c[0], c[1]])).collect() }
pub fn i32s(b: &[u8]) -> Vec<i32> { b.chunks_exact(4).map(|c| i32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect() }
pub fn f32s(b: &[u8]) -> Vec<f32> { b.chunks_exact(4).map(|c| f32::from_bits(u32::from_be_bytes([c[0], c[1], c[2], c[3]]))).collect() }
pub fn f64s(b: &[u8]) -> Vec<f64> { b.chunks_exact(8).map(|c| { let mut a = [0u8; 8]; a.copy_from_slice(c); f64::from_bits(u64::from_be_bytes(a)) }).collect() }
pub fn b_i8(d: &[i8]) -> Vec<u8> { d.iter().map(|x| *x as u8).collect() }
pub fn b_i16(d: &[i16]) -> Vec<u8> { d.iter().flat_map(|x| x.to_be_bytes()).collect() }
pub fn b_i32(d: &[i32]) -> Vec<u8> { d.iter().flat_map(|x| x.to_be_bytes()).collect() }
pub fn b_f32(d: &[f32]) -> Vec<u8> { d.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect() }
pub fn b_f64(d: &[f64]) -> Vec<u8> { d.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect() }
pub fn b_dv(d: &DataVector) -> Vec<u8> {
    match d {
        DataVector::I8(d) => b_i8(d), DataVector::U8(d) => d.clone(), DataVector::I16(d) => b_i16(d),
        DataVector::I32(d) => b_i32(d), DataVector::F32(d) => b_f32(d), DataVector::F64(d) => b_f64(d),
    }
}

pub fn attr_view(a: &Attribute) -> Value {
    let t = tname(&a.data_type());
    let d: Vec<u8> = match a.data_type() {
        DataType::I8 => a.get_i8().map(b_i8), DataType::U8 => a.get_u8().map(|d| d.to_vec()), DataType::I16 => a.get_i16().map(b_i16),
        DataType::I32 => a.get_i32().map(b_i32), DataType::F32 => a.get_f32().map(b_f32), DataType::F64 => a.get_f64().map(b_f64),
    }.unwrap_or_default();
    json!({"n": name(a.name()), "t": t, "d": bytes(&d)})
}
pub fn dim_view(d: &Dimension) -> Value { json!({"n": name(&d.name()), "u": d.is_unlimited(), "s": limbs(d.size() as u64)}) }
pub fn var_out(v: &Variable) -> Value {
    json!({"n": name(v.name()), "t": tname(&v.data_type()),
           "dn": v.get_dims().iter().map(|d| name(&d.name())).collect::<Vec<_>>(),
           "a": v.get_attrs().iter().map(|a| attr_view(a)).collect::<Vec<_>>()})
}
/// The whole definition, as the getters tell it. A dimension of a variable is the position (from 1)
/// of that very dimension in the data set, 0 if the data set does not hold it.
pub fn view(ds: &DataSet) -> Value {
    let dims = ds.get_dims();
    json!({
        "dims": dims.iter().map(|d| dim_view(d)).collect::<Vec<_>>(),
        "attrs": ds.get_global_attrs().iter().map(|a| attr_view(a)).collect::<Vec<_>>(),
        "vars": ds.get_vars().iter().map(|v| json!({
            "n": name(v.name()), "t": tname(&v.data_type()),
            "d": v.get_dims().iter().map(|d| dims.iter().position(|e| Rc::ptr_eq(d, e)).map(|i| i + 1).unwrap_or(0)).collect::<Vec<_>>(),
            "a": v.get_attrs().iter().map(|a| attr_view(a)).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
    })
}

fn err(e: &str, n: Vec<Value>, x: Vec<Value>) -> Value { json!({"k": "err", "e": e, "n": n, "x": x}) }
fn names(v: &[String]) -> Vec<Value> { v.iter().map(|s| name(s)).collect() }
fn cat(a: Vec<Value>, b: Vec<Value>) -> Vec<Value> { a.into_iter().chain(b).collect() }
fn rcnames(v: &[Rc<Dimension>]) -> Vec<Value> { v.iter().map(|d| name(&d.name())).collect() }
pub fn ds_err(e: &InvalidDataSet) -> Value {
    use InvalidDataSet::*;
    let u = |v: &Vec<usize>| -> Value { json!(v.iter().map(|x| limbs(*x as u64)).collect::<Vec<_>>()) };
    match e {
        DimensionAlreadyExists(n) => err("DimensionAlreadyExists", vec![name(n)], vec![]),
        DimensionNotDefined(n) => err("DimensionNotDefined", vec![name(n)], vec![]),
        DimensionsNotDefined { var_name, undef_dim_names } => err("DimensionsNotDefined", cat(vec![name(var_name)], names(undef_dim_names)), vec![]),
        DimensionsUsedMultipleTimes { var_name, get_dim_names } => err("DimensionsUsedMultipleTimes", cat(vec![name(var_name)], names(get_dim_names)), vec![]),
        UnlimitedDimensionAlreadyExists(n) => err("UnlimitedDimensionAlreadyExists", vec![name(n)], vec![]),
        DimensionYetUsed { var_names, dim_name } => err("DimensionYetUsed", cat(vec![name(dim_name)], names(var_names)), vec![]),
        DimensionNameNotValid(n) => err("DimensionNameNotValid", vec![name(n)], vec![]),
        DimensionIdsNotFound { defined, searched, not_found } => err("DimensionIdsNotFound", vec![], vec![u(defined), u(searched), u(not_found)]),
        FixedDimensionWithZeroSize(n) => err("FixedDimensionWithZeroSize", vec![name(n)], vec![]),
        MaximumFixedDimensionSizeExceeded { dim_name, get } => err("MaximumFixedDimensionSizeExceeded", vec![name(dim_name)], vec![limbs(*get as u64)]),
        DimensionsNotFound { defined, searched, not_found } => err("DimensionsNotFound", cat(cat(rcnames(defined), rcnames(searched)), rcnames(not_found)), vec![]),
        VariableAttributeAlreadyExists { var_name, attr_name } => err("VariableAttributeAlreadyExists", vec![name(var_name), name(attr_name)], vec![]),
        VariableAttributeNotDefined { var_name, attr_name } => err("VariableAttributeNotDefined", vec![name(var_name), name(attr_name)], vec![]),
        VariableAttributeNameNotValid { var_name, attr_name } => err("VariableAttributeNameNotValid", vec![name(var_name), name(attr_name)], vec![]),
        VariableNotDefined(n) => err("VariableNotDefined", vec![name(n)], vec![]),
        VariableNameNotValid(n) => err("VariableNameNotValid", vec![name(n)], vec![]),
        VariableAlreadyExists(n) => err("VariableAlreadyExists", vec![name(n)], vec![]),
        VariableMismatchDataType { var_name, .. } => err("VariableMismatchDataType", vec![name(var_name)], vec![]),
        VariableMismatchDataLength { var_name, req, get } => err("VariableMismatchDataLength", vec![name(var_name)], vec![limbs(*req as u64), limbs(*get as u64)]),
        UnlimitedDimensionMustBeDefinedFirst { var_name, unlim_dim_name, get_dim_names } => err("UnlimitedDimensionMustBeDefinedFirst", cat(vec![name(var_name), name(unlim_dim_name)], names(get_dim_names)), vec![]),
        MaximumDimensionsPerVariableExceeded { var_name, num_dims } => err("MaximumDimensionsPerVariableExceeded", vec![name(var_name)], vec![limbs(*num_dims as u64)]),
        GlobalAttributeAlreadyExists(n) => err("GlobalAttributeAlreadyExists", vec![name(n)], vec![]),
        GlobalAttributeNotDefined(n) => err("GlobalAttributeNotDefined", vec![name(n)], vec![]),
        GlobalAttributeNameNotValid(n) => err("GlobalAttributeNameNotValid", vec![name(n)], vec![]),
    }
}
fn errt(e: &str, n: Vec<Value>, x: Vec<Value>, t: Vec<&str>, inc: bool) -> Value { json!({"k": "err", "e": e, "n": n, "x": x, "t": t, "inc": inc}) }
pub fn read_err(e: &ReadError) -> Value {
    use ReadError::*;
    let inc = e.header_is_incomplete();
    match e {
        ParseHeader(p) => {
            let (n, x) = match &p.invalid_bytes {
                InvalidBytes::Bytes(b) => (vec![bytes(&b[..b.len().min(24)])], vec![limbs(b.len() as u64)]),
                InvalidBytes::Incomplete(_) => (vec![], vec![]),
            };
            errt("ParseHeader", n, x, vec![&format!("{:?}", p.kind)], inc)
        }
        DataSet(d) => { let d = ds_err(d); json!({"k": "err", "e": "DataSet", "n": d["n"], "x": d["x"], "t": [d["e"]], "inc": inc}) }
        VariableNotDefined(n) => errt("VariableNotDefined", vec![name(n)], vec![], vec![], inc),
        VariableMismatchDataType { var_name, req, get } => errt("VariableMismatchDataType", vec![name(var_name)], vec![], vec![tname(req), tname(get)], inc),
        IOErrorKind(k) => errt("IOErrorKind", vec![], vec![], vec![&format!("{:?}", k)], inc),
        ComputationNumberOfRecords => errt("ComputationNumberOfRecords", vec![], vec![], vec![], inc),
        RecordIndexExceeded { index, num_records } => errt("RecordIndexExceeded", vec![], vec![limbs(*index as u64), limbs(*num_records as u64)], vec![], inc),
        Unexpected => errt("Unexpected", vec![], vec![], vec![], inc),
    }
}
pub fn write_err(e: &WriteError) -> Value {
    use WriteError::*;
    match e {
        IOErrorKind(k) => errt("IOErrorKind", vec![], vec![], vec![&format!("{:?}", k)], false),
        VariableNotDefined(n) => errt("VariableNotDefined", vec![name(n)], vec![], vec![], false),
        VariableMismatchDataType { var_name, req, get } => errt("VariableMismatchDataType", vec![name(var_name)], vec![], vec![tname(req), tname(get)], false),
        VariableMismatchDataLength { var_name, req, get } => errt("VariableMismatchDataLength", vec![name(var_name)], vec![limbs(*req as u64), limbs(*get as u64)], vec![], false),
        ClassicVersionNotPossible => errt("ClassicVersionNotPossible", vec![], vec![], vec![], false),
        HeaderAlreadyDefined => errt("HeaderAlreadyDefined", vec![], vec![], vec![], false),
        HeaderNotDefined => errt("HeaderNotDefined", vec![], vec![], vec![], false),
        RecordIndexExceeded { index, num_records } => errt("RecordIndexExceeded", vec![], vec![limbs(*index as u64), limbs(*num_records as u64)], vec![], false),
        RecordMismatchDataLength { var_name, req, get } => errt("RecordMismatchDataLength", vec![name(var_name)], vec![limbs(*req as u64), limbs(*get as u64)], vec![], false),
        Unexpected => errt("Unexpected", vec![], vec![], vec![], false),
    }
}

/// Executes a definition call; returns its result and what it returned.
pub fn def_op(ds: &mut DataSet, op: &Value) -> (Value, Value) {
    let s = |k: &str| sname(&op[k]);
    let via = op["via"].as_str().unwrap_or("");
    let t = op["t"].as_str().unwrap_or("");
    let r: Result<Result<Value, InvalidDataSet>, ()> = guard(|| -> Result<Result<Value, InvalidDataSet>, ()> {
        let none = json!([]);
        Ok(match op["op"].as_str().unwrap() {
            "add_fixed_dim" => ds.add_fixed_dim(s("name"), unlimbs(&op["size"]) as usize).map(|_| none),
            "set_unlimited_dim" => ds.set_unlimited_dim(&s("name"), unlimbs(&op["size"]) as usize).map(|_| none),
            "rename_dim" => ds.rename_dim(&s("name"), &s("new")).map(|_| none),
            "remove_dim" => ds.remove_dim(&s("name")).map(|d| json!([dim_view(&d)])),
            "add_var" => {
                let dims: Vec<String> = op["dims"].as_array().unwrap().iter().map(sname).collect();
                let n = s("name");
                match (via, t) {
                    ("generic", _) => ds.add_var(&n, &dims, dtype(t)),
                    (_, "i8") => ds.add_var_i8(&n, &dims),
                    (_, "u8") => ds.add_var_u8(&n, &dims),
                    (_, "i16") => ds.add_var_i16(&n, &dims),
                    (_, "i32") => ds.add_var_i32(&n, &dims),
                    (_, "f32") => ds.add_var_f32(&n, &dims),
                    _ => ds.add_var_f64(&n, &dims),
                }.map(|_| none)
            }
            "rename_var" => ds.rename_var(&s("name"), &s("new")).map(|_| none),
            "remove_var" => ds.remove_var(&s("name")).map(|v| json!([var_out(&v)])),
            "add_gattr" => {
                let (n, d) = (s("name"), unbytes(&op["d"]));
                match (via, t) {
                    ("string", _) => ds.add_global_attr_string(&n, String::from_utf8(d).unwrap()),
                    (_, "i8") => ds.add_global_attr_i8(&n, i8s(&d)),
                    (_, "u8") => ds.add_global_attr_u8(&n, d),
                    (_, "i16") => ds.add_global_attr_i16(&n, i16s(&d)),
                    (_, "i32") => ds.add_global_attr_i32(&n, i32s(&d)),
                    (_, "f32") => ds.add_global_attr_f32(&n, f32s(&d)),
                    _ => ds.add_global_attr_f64(&n, f64s(&d)),
                }.map(|_| none)
            }
            "rename_gattr" => ds.rename_global_attr(&s("name"), &s("new")).map(|_| none),
            "remove_gattr" => ds.remove_global_attr(&s("name")).map(|a| json!([attr_view(&a)])),
            "add_vattr" => {
                let (v, n, d) = (s("var"), s("name"), unbytes(&op["d"]));
                match via {
                    "mut" | "mutstring" => {
                        let var: &mut Variable = match ds.get_var_mut(&v) { None => return Err(()), Some(x) => x };
                        match (via, t) {
                            ("mutstring", _) => var.add_attr_string(&n, String::from_utf8(d).unwrap()),
                            (_, "i8") => var.add_attr_i8(&n, i8s(&d)),
                            (_, "u8") => var.add_attr_u8(&n, d),
                            (_, "i16") => var.add_attr_i16(&n, i16s(&d)),
                            (_, "i32") => var.add_attr_i32(&n, i32s(&d)),
                            (_, "f32") => var.add_attr_f32(&n, f32s(&d)),
                            _ => var.add_attr_f64(&n, f64s(&d)),
                        }
                    }
                    "string" => ds.add_var_attr_string(&v, &n, String::from_utf8(d).unwrap()),
                    _ => match t {
                        "i8" => ds.add_var_attr_i8(&v, &n, i8s(&d)),
                        "u8" => ds.add_var_attr_u8(&v, &n, d),
                        "i16" => ds.add_var_attr_i16(&v, &n, i16s(&d)),
                        "i32" => ds.add_var_attr_i32(&v, &n, i32s(&d)),
                        "f32" => ds.add_var_attr_f32(&v, &n, f32s(&d)),
                        _ => ds.add_var_attr_f64(&v, &n, f64s(&d)),
                    },
                }.map(|_| none)
            }
            "rename_vattr" => ds.rename_var_attr(&s("var"), &s("name"), &s("new")).map(|_| none),
            "remove_vattr" => match via {
                "mut" => match ds.get_var_mut(&s("var")) { None => return Err(()), Some(x) => x.remove_attr(&s("name")) },
                _ => ds.remove_var_attr(&s("var"), &s("name")),
            }.map(|a| json!([attr_view(&a)])),
            o => panic!("unknown op {}", o),
        })
    }).unwrap_or_else(|_| { Ok(Err(InvalidDataSet::VariableNotDefined("\u{0}panic".to_string()))) });
    match r {
        Err(()) => (json!({"k": "none"}), json!([])),
        Ok(Err(InvalidDataSet::VariableNotDefined(ref p))) if p == "\u{0}panic" => (json!({"k": "panic"}), json!([])),
        Ok(Err(e)) => (ds_err(&e), json!([])),
        Ok(Ok(ret)) => (json!({"k": "ok"}), ret),
    }
}

fn typed6(o: [Option<Vec<u8>>; 6]) -> Value { json!(o.iter().map(|x| opt(x.as_ref().map(|b| bytes(b)))).collect::<Vec<_>>()) }
fn dty(d: DimensionType) -> bool { d == DimensionType::UnlimitedSize }
fn attr_out(a: &Attribute) -> Value {
    json!({"n": name(a.name()), "t": tname(&a.data_type()), "len": a.len(),
        "ty": typed6([a.get_i8().map(b_i8), a.get_u8().map(|x| x.to_vec()), a.get_i16().map(b_i16), a.get_i32().map(b_i32), a.get_f32().map(b_f32), a.get_f64().map(b_f64)]),
        "str": opt(a.get_as_string().map(|s| name(&s)))})
}
/// Every lookup, for a dimension name, a variable name and an attribute name.
pub fn probe(ds: &mut DataSet, dn: &str, vn: &str, an: &str, ids: &[usize]) -> Value {
    let mut_found = ds.get_var_mut(vn).map(|v| var_out(v));
    let ds: &DataSet = ds;
    let dims = ds.get_dims();
    let dimout = |d: &Dimension| json!({"n": name(&d.name()), "u": d.is_unlimited(), "f": d.is_fixed(), "ty": dty(d.dim_type()), "s": limbs(d.size() as u64)});
    let var = ds.get_var(vn).map(|v| json!({
        "n": name(v.name()), "t": tname(&v.data_type()), "use_dim": v.use_dim(dn), "num_dims": v.num_dims(),
        "dim_names": names(&v.dim_names()), "d": v.get_dims().iter().map(|d| dims.iter().position(|e| Rc::ptr_eq(d, e)).map(|i| i + 1).unwrap_or(0)).collect::<Vec<_>>(),
        "num_attrs": v.num_attrs(), "has_attr": v.has_attr(an), "attr_names": names(&v.get_attr_names()),
        "attrs": v.get_attrs().iter().map(|a| attr_view(a)).collect::<Vec<_>>(),
        "attr": opt(v.get_attr(an).map(attr_out)),
        "ty": typed6([v.get_attr_i8(an).map(b_i8), v.get_attr_u8(an).map(|x| x.to_vec()), v.get_attr_i16(an).map(b_i16), v.get_attr_i32(an).map(b_i32), v.get_attr_f32(an).map(b_f32), v.get_attr_f64(an).map(b_f64)]),
        "str": opt(v.get_attr_as_string(an).map(|s| name(&s))), "rec": v.is_record_var(),
    }));
    json!({
        "num_dims": ds.num_dims(), "has_dim": ds.has_dim(dn), "get_dim": opt(ds.get_dim(dn).map(|d| dimout(&d))),
        "dim_names": names(&ds.dim_names()), "has_unlim": ds.has_unlimited_dim(),
        "get_unlim": opt(ds.get_unlimited_dim().map(|d| dimout(&d))),
        "unlim_pos": opt(ds.get_unlimited_dim().map(|d| json!(dims.iter().position(|e| Rc::ptr_eq(&d, e)).map(|i| i + 1).unwrap_or(0)))),
        "get_dim_pos": opt(ds.get_dim(dn).map(|d| json!(dims.iter().position(|e| Rc::ptr_eq(&d, e)).map(|i| i + 1).unwrap_or(0)))),
        "dim_size": opt(ds.dim_size(dn).map(|s| limbs(s as u64))), "dim_type": opt(ds.dim_type(dn).map(|t| json!(dty(t)))),
        "dims_of_ids": match ds.get_dims_from_dim_ids(ids) {
            Ok(v) => json!({"k": "ok", "v": v.iter().map(|d| json!(dims.iter().position(|e| Rc::ptr_eq(d, e)).map(|i| i + 1).unwrap_or(0))).collect::<Vec<_>>()}),
            Err(e) => ds_err(&e) },
        "num_vars": ds.num_vars(), "has_var": ds.has_var(vn), "is_record_var": opt(ds.is_record_var(vn).map(|b| json!(b))),
        "var_data_type": opt(ds.var_data_type(vn).map(|t| json!(tname(&t)))), "get_var": opt(var), "get_var_mut": opt(mut_found),
        "var_names": names(&ds.get_var_names()),
        "get_var_attr": opt(ds.get_var_attr(vn, an).map(attr_out)), "var_attr_len": opt(ds.get_var_attr_len(vn, an).map(|x| json!(x))),
        "var_attr_type": opt(ds.get_var_attr_data_type(vn, an).map(|t| json!(tname(&t)))),
        "var_attrs": opt(ds.get_var_attrs(vn).map(|v| json!(v.iter().map(|a| attr_view(a)).collect::<Vec<_>>()))),
        "has_var_attr": opt(ds.has_var_attr(vn, an).map(|b| json!(b))), "num_var_attrs": opt(ds.num_var_attrs(vn).map(|b| json!(b))),
        "var_attr_ty": typed6([ds.get_var_attr_i8(vn, an).map(b_i8), ds.get_var_attr_u8(vn, an).map(|x| x.to_vec()), ds.get_var_attr_i16(vn, an).map(b_i16), ds.get_var_attr_i32(vn, an).map(b_i32), ds.get_var_attr_f32(vn, an).map(b_f32), ds.get_var_attr_f64(vn, an).map(b_f64)]),
        "var_attr_str": opt(ds.get_var_attr_as_string(vn, an).map(|s| name(&s))),
        "num_gattrs": ds.num_global_attrs(), "has_gattr": ds.has_global_attr(an), "get_gattr": opt(ds.get_global_attr(an).map(attr_out)),
        "gattr_len": opt(ds.get_global_attr_len(an).map(|x| json!(x))), "gattr_type": opt(ds.get_global_attr_data_type(an).map(|t| json!(tname(&t)))),
        "gattr_names": names(&ds.get_global_attr_names()),
        "gattr_ty": typed6([ds.get_global_attr_i8(an).map(b_i8), ds.get_global_attr_u8(an).map(|x| x.to_vec()), ds.get_global_attr_i16(an).map(b_i16), ds.get_global_attr_i32(an).map(b_i32), ds.get_global_attr_f32(an).map(b_f32), ds.get_global_attr_f64(an).map(b_f64)]),
        "gattr_str": opt(ds.get_global_attr_as_string(an).map(|s| name(&s))),
    })
}

fn g<F: FnOnce() -> usize>(f: F) -> Value { match guard(f) { Ok(x) => json!({"k": "some", "v": limbs(x as u64)}), Err(()) => json!({"k": "panic"}) } }
fn go<F: FnOnce() -> Option<usize>>(f: F) -> Value {
    match guard(f) { Ok(Some(x)) => json!({"k": "some", "v": limbs(x as u64)}), Ok(None) => json!({"k": "none"}), Err(()) => json!({"k": "panic"}) }
}
/// Every size of the data set.
pub fn sizes(ds: &DataSet) -> Value {
    json!({
        "vars": ds.get_vars().iter().map(|v| json!({
            "chunk_len": g(|| v.chunk_len()), "chunk_size": g(|| v.chunk_size()), "num_chunks": g(|| v.num_chunks()), "len": g(|| v.len()),
            "var_len": go(|| ds.var_len(v.name())), "rec": v.is_record_var(),
            "is_rec": opt(ds.is_record_var(v.name()).map(|b| json!(b))),
        })).collect::<Vec<_>>(),
        "record_size": go(|| ds.record_size()), "num_records": go(|| ds.num_records()),
        "dim_sizes": ds.get_dims().iter().map(|d| opt(ds.dim_size(&d.name()).map(|x| limbs(x as u64)))).collect::<Vec<_>>(),
    })
}
