use std::collections::HashMap;
use std::io::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

use half::f16;
use ndarray::{ArrayD, ArrayViewMutD, Axis, IxDyn, Slice};
use serde_json::{json, Value};
use zarr::chunk::*;
use zarr::ndarray::{BoundingBox, ZarrNdarrayReader, ZarrNdarrayWriter};
use zarr::storage::{get_chunk_key, ListableStore, ReadableStore, WriteableStore};
use zarr::store::filesystem::FilesystemHierarchy;
use zarr::{
    ArrayMetadata, ChunkCoord, EntryPointMetadata, GridCoord, Hierarchy, HierarchyLister,
    HierarchyReader, HierarchyWriter, ReflectedType,
};

use crate::elem::*;
use crate::mem::{Fault, Inner, MemStore};

pub type Res = Result<Value, Error>;

#[derive(Clone)]
pub enum H {
    Fs(FilesystemHierarchy, std::path::PathBuf),
    Mem(MemStore),
}

macro_rules! with_h {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            H::Fs($x, _) => $e,
            H::Mem($x) => $e,
        }
    };
}

/// Monomorphise over the element types that have built-in chunk IO.
macro_rules! with_t {
    ($t:expr, $T:ident => $e:expr, $raw:expr) => {
        match $t {
            "bool" => { type $T = bool; $e }
            "u8" => { type $T = u8; $e }
            "u16" => { type $T = u16; $e }
            "u32" => { type $T = u32; $e }
            "u64" => { type $T = u64; $e }
            "i8" => { type $T = i8; $e }
            "i16" => { type $T = i16; $e }
            "i32" => { type $T = i32; $e }
            "i64" => { type $T = i64; $e }
            "f16" => { type $T = f16; $e }
            "f32" => { type $T = f32; $e }
            "f64" => { type $T = f64; $e }
            _ => $raw,
        }
    };
}
macro_rules! with_raw {
    ($t:expr, $T:ident => $e:expr) => {
        match $t {
            "r8" => { type $T = [u8; 1]; $e }
            "r16" => { type $T = [u8; 2]; $e }
            "r24" => { type $T = [u8; 3]; $e }
            "r32" => { type $T = [u8; 4]; $e }
            t => panic!("harness: type {}", t),
        }
    };
}

fn s<'a>(op: &'a Value, k: &str) -> &'a str {
    op[k].as_str().unwrap_or_else(|| panic!("harness: {} in {}", k, op))
}
fn u64s(v: &Value) -> Vec<u64> {
    v.as_array()
        .unwrap_or_else(|| panic!("harness: list {}", v))
        .iter()
        .map(|x| match x {
            Value::String(s) => s.parse().expect("harness: u64"),
            x => x.as_u64().expect("harness: u64"),
        })
        .collect()
}
fn coords(v: &Value) -> GridCoord {
    u64s(v).into_iter().collect()
}
/// Numbers as strings: they may exceed what other tools read.
fn strs<I: IntoIterator<Item = u64>>(i: I) -> Value {
    i.into_iter().map(|x| x.to_string()).collect::<Vec<_>>().into()
}

fn data_of<T: Elem>(v: &Value) -> Vec<T> {
    v.as_array()
        .expect("harness: data")
        .iter()
        .map(|x| T::unhex(x.as_str().expect("harness: hex")))
        .collect()
}

fn hexes<T: Elem>(d: &[T], op: &Value) -> Value {
    if op["concat"].as_bool().unwrap_or(false) {
        return d.iter().map(|x| x.hex()).collect::<String>().into();
    }
    if let Some(w) = op["windows"].as_array() {
        // only the elements at the given indices
        return w
            .iter()
            .map(|i| d[i.as_u64().unwrap() as usize].hex())
            .collect::<Vec<_>>()
            .into();
    }
    d.iter().map(|x| x.hex()).collect::<Vec<_>>().into()
}

/// Data given as a list of hex strings or as an arithmetic progression of the
/// element's bits.
fn gen_data<T: Elem>(op: &Value) -> Vec<T> {
    if let Some(g) = op.get("gen") {
        let n = g["n"].as_u64().unwrap();
        let start: u64 = g["start"].as_u64().unwrap();
        let step: u64 = g["step"].as_u64().unwrap();
        let w = std::mem::size_of::<T>();
        return (0..n)
            .map(|i| {
                let i = if g["mix"] == true { (i % 46337) * (i % 46337) % 65521 / 7 } else { i };
                let v = start.wrapping_add(step.wrapping_mul(i)).to_be_bytes();
                T::unhex(&hexs(&v[8 - w.min(8)..]))
            })
            .collect();
    }
    data_of(&op["data"])
}

#[derive(Default)]
pub struct Exec {
    pub hs: HashMap<u64, H>,
    pub metas: HashMap<u64, ArrayMetadata>,
    bufs: HashMap<String, Box<dyn std::any::Any + Send>>,
    /// how metadata was defined, for the other process
    defs: HashMap<u64, Value>,
    other: Option<Other>,
    /// locks this participant holds in its own right
    pub locks: HashMap<u64, std::fs::File>,
}

/// Another process executing operations marked "proc".
struct Other {
    to: std::process::ChildStdin,
    from: std::io::BufReader<std::process::ChildStdout>,
    child: std::process::Child,
    known: HashMap<u64, Value>,
}

impl Other {
    fn start() -> Other {
        use std::process::{Command, Stdio};
        let mut child = Command::new(std::env::current_exe().expect("harness: exe"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("harness: spawn");
        Other {
            to: child.stdin.take().unwrap(),
            from: std::io::BufReader::new(child.stdout.take().unwrap()),
            child,
            known: HashMap::new(),
        }
    }
    fn ask(&mut self, op: &Value) -> Value {
        use std::io::{BufRead, Write};
        write!(self.to, "{}\n\n", op).expect("harness: other process");
        self.to.flush().expect("harness: other process");
        let mut line = String::new();
        self.from.read_line(&mut line).expect("harness: other process");
        serde_json::from_str(&line).unwrap_or(json!({"t": "panic", "v": "the process died"}))
    }
}

impl Drop for Other {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Data types without their serialised form.
fn type_str(d: &zarr::DataType) -> String {
    use zarr::{DataType::*, Endian, FloatSize, IntSize};
    let order = |e: &Endian| match e {
        Endian::Big => ">",
        Endian::Little => "<",
    };
    let int = |s: &IntSize| match s {
        IntSize::B1 => 1,
        IntSize::B2 => 2,
        IntSize::B4 => 4,
        IntSize::B8 => 8,
    };
    match d {
        Bool => "bool".into(),
        // without byte order
        Int { size: IntSize::B1, .. } => "i1".into(),
        UInt { size: IntSize::B1, .. } => "u1".into(),
        Int { size, endian } => format!("{}i{}", order(endian), int(size)),
        UInt { size, endian } => format!("{}u{}", order(endian), int(size)),
        Float { size, endian } => format!(
            "{}f{}",
            order(endian),
            match size {
                FloatSize::B2 => 2,
                FloatSize::B4 => 4,
                FloatSize::B8 => 8,
            }
        ),
        Raw { size } => format!("r{}", size),
    }
}

fn core_type(s: &str) -> zarr::DataType {
    use zarr::{DataType, Endian, FloatSize, IntSize};
    let all_i = [IntSize::B1, IntSize::B2, IntSize::B4, IntSize::B8];
    let mut all = vec![DataType::Bool];
    for endian in [Endian::Little, Endian::Big].iter().cloned() {
        for size in all_i.iter().cloned() {
            all.push(DataType::Int { size, endian });
            all.push(DataType::UInt { size, endian });
        }
        for size in [FloatSize::B2, FloatSize::B4, FloatSize::B8].iter().cloned() {
            all.push(DataType::Float { size, endian });
        }
    }
    if let Some(d) = all.into_iter().find(|d| type_str(d) == s) {
        return d;
    }
    DataType::Raw { size: s[1..].parse().expect("harness: type") }
}

fn mk_type(v: &Value) -> zarr::ExtensibleDataType {
    match v {
        Value::String(s) => core_type(s).into(),
        _ => zarr::ExtensibleDataType::Extended {
            extension: s(v, "extension").into(),
            type_string: s(v, "type").into(),
            fallback: v["fallback"].as_str().map(core_type),
        },
    }
}

fn type_view(d: &zarr::ExtensibleDataType) -> (String, Vec<String>) {
    match d {
        zarr::ExtensibleDataType::Core(d) => (type_str(d), vec![]),
        zarr::ExtensibleDataType::Extended { extension, type_string, fallback } => (
            "".into(),
            Some(extension.clone())
                .into_iter()
                .chain(Some(type_string.clone()))
                .chain(fallback.as_ref().map(type_str))
                .collect(),
        ),
    }
}

#[cfg_attr(not(feature = "full"), allow(unused_variables))]
fn mk_codec(name: &str, conf: &Value) -> zarr::compression::CompressionType {
    use zarr::compression::*;
    match name {
        "raw" => CompressionType::new::<raw::RawCompression>(),
        #[cfg(any(feature = "full", feature = "pure"))]
        "gzip" => match conf["level"].as_i64() {
            Some(l) => gzip::GzipCompression { level: l as i32 }.into(),
            None => CompressionType::new::<gzip::GzipCompression>(),
        },
        #[cfg(any(feature = "full", feature = "pure", feature = "some"))]
        "bzip2" => CompressionType::new::<bzip::Bzip2Compression>(),
        #[cfg(any(feature = "full", feature = "pure", feature = "some"))]
        "lz4" => CompressionType::new::<lz::Lz4Compression>(),
        #[cfg(any(feature = "full", feature = "pure"))]
        "xz" => CompressionType::new::<xz::XzCompression>(),
        _ => panic!("harness: codec {}", name),
    }
}

fn err_res(e: &Error) -> Value {
    json!({"t": "err", "v": format!("{:?}", e.kind()), "m": e.to_string()})
}

/// Floating point numbers by their bits, whatever JSON says of their text:
/// {"$f64": "3ff0000000000000"}.
pub fn floats(v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().map(floats).collect(),
        Value::Object(o) => match o.get("$f64").and_then(|x| x.as_str()) {
            Some(x) if o.len() == 1 => {
                let b = u64::from_str_radix(x, 16).expect("harness: bits");
                Value::Number(serde_json::Number::from_f64(f64::from_bits(b)).expect("harness: finite"))
            }
            _ => Value::Object(o.iter().map(|(k, x)| (k.clone(), floats(x))).collect()),
        },
        _ => v.clone(),
    }
}

impl Exec {
    /// A participant with the same handles and metadata.
    pub fn share(&self) -> Exec {
        Exec { hs: self.hs.clone(), metas: self.metas.clone(), ..Exec::default() }
    }

    pub fn run(&mut self, op: &Value) -> Value {
        match op["op"].as_str() {
            Some("explore") => return crate::conc::explore(self, op),
            Some("crash") => return crate::conc::crash(self, op),
            Some("faults") => return crate::conc::faults(self, op),
            _ => (),
        }
        if op["op"] == "defmeta" {
            self.defs.insert(op["m"].as_u64().expect("harness: m"), op.clone());
        }
        if op["proc"] == 1 {
            let mut other = self.other.take().unwrap_or_else(Other::start);
            if let Some(id) = op["m"].as_u64() {
                if other.known.get(&id) != self.defs.get(&id) {
                    let d = self.defs[&id].clone();
                    other.ask(&d);
                    other.known.insert(id, d);
                }
            }
            let mut op = op.clone();
            op.as_object_mut().unwrap().remove("proc");
            let r = other.ask(&op);
            self.other = Some(other);
            return r;
        }
        let r = catch_unwind(AssertUnwindSafe(|| self.exec(op)));
        match r {
            Ok(Ok(v)) => json!({"t": "ok", "v": v}),
            Ok(Err(e)) => err_res(&e),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if m.starts_with("harness") {
                    eprintln!("{}", m);
                    std::process::exit(3);
                }
                json!({"t": "panic", "v": m})
            }
        }
    }

    fn h(&self, op: &Value) -> H {
        let id = op["h"].as_u64().unwrap_or(0);
        self.hs
            .get(&id)
            // because the operation that was to provide it failed
            .unwrap_or_else(|| panic!("no hierarchy {}", op))
            .clone()
    }
    fn m(&self, op: &Value) -> ArrayMetadata {
        let id = op["m"].as_u64().unwrap_or_else(|| panic!("harness: m in {}", op));
        self.metas
            .get(&id)
            // because the operation that was to provide it failed
            .unwrap_or_else(|| panic!("no metadata {}", op))
            .clone()
    }

    fn exec(&mut self, op: &Value) -> Res {
        let name = s(op, "op");
        match name {
            // --- set-up -----------------------------------------------------
            "open" | "open_or_create" => {
                let dir = s(op, "dir");
                let f = if name == "open" {
                    FilesystemHierarchy::open(dir)?
                } else {
                    FilesystemHierarchy::open_or_create(dir)?
                };
                let v = f.get_version()?.to_string();
                let ep = serde_json::to_value(f.get_entry_point_metadata())?;
                self.hs
                    .insert(op["h"].as_u64().unwrap_or(0), H::Fs(f, dir.into()));
                return Ok(json!({"version": v, "entry": ep}));
            }
            "mem" => {
                let entry: EntryPointMetadata = match op.get("entry") {
                    Some(e) => serde_json::from_value(e.clone()).expect("harness: entry"),
                    None => EntryPointMetadata::default(),
                };
                let m = MemStore {
                    inner: Arc::new(Mutex::new(Inner::default())),
                    entry,
                    piece: op["piece"].as_u64().unwrap_or(0) as usize,
                    slash: op["slash"].as_bool().unwrap_or(false),
                    eager: op["eager"].as_bool().unwrap_or(false),
                };
                self.hs.insert(op["h"].as_u64().unwrap_or(0), H::Mem(m));
                return Ok(json!(""));
            }
            "drop" => {
                self.hs.remove(&op["h"].as_u64().unwrap_or(0));
                return Ok(json!(""));
            }
            "defmeta" => {
                // "doc": by deserialisation; "new": by the constructor
                let id = op["m"].as_u64().expect("harness: m");
                self.metas.remove(&id);
                let meta = if let Some(n) = op.get("new") {
                    let dt = mk_type(&n["data_type"]);
                    let c = mk_codec(n["codec"].as_str().expect("harness: codec"), &n["conf"]);
                    ArrayMetadata::new(
                        coords(&n["shape"]),
                        u64s(&n["chunk_shape"])
                            .into_iter()
                            .map(|x| x as u32)
                            .collect::<ChunkCoord>(),
                        dt,
                        c,
                    )
                } else {
                    serde_json::from_value(floats(&op["doc"]))?
                };
                self.metas.insert(id, meta);
                return Ok(json!(""));
            }
            "fault" => {
                if let H::Mem(m) = self.h(op) {
                    m.inner.lock().unwrap().fault = Fault {
                        kind: s(op, "kind").into(),
                        after: op["after"].as_u64().unwrap_or(0) as usize,
                        fired: false,
                        armed: true,
                    };
                }
                return Ok(json!(""));
            }
            "unfault" => {
                let mut fired = false;
                if let H::Mem(m) = self.h(op) {
                    let mut i = m.inner.lock().unwrap();
                    fired = i.fault.fired;
                    i.fault = Fault::default();
                }
                return Ok(json!(fired));
            }
            "version" if !self.hs.contains_key(&op["h"].as_u64().unwrap_or(0)) => {
                return Ok(json!("no handle"))
            }
            "dump" => return dump(&self.h(op)),
            "tree" => {
                // everything below a directory
                let base = std::path::PathBuf::from(s(op, "dir"));
                let mut out = vec![];
                if base.exists() {
                    tree(&base, &base, &mut out);
                }
                return Ok(json!({"dir": base.is_dir(), "all": out}));
            }
            "place" => {
                // a file put there by other software; without text, a directory
                let mut p = std::ffi::OsString::from(s(op, "file"));
                if op["notutf8"] == true {
                    use std::os::unix::ffi::OsStringExt;
                    p.push(std::ffi::OsString::from_vec(vec![0xff, b'x', 0xc3]));
                }
                let p = std::path::Path::new(&p);
                match op["text"].as_str() {
                    None => std::fs::create_dir_all(p).expect("harness: mkdir"),
                    Some(t) => {
                        std::fs::create_dir_all(p.parent().unwrap()).expect("harness: mkdir");
                        std::fs::write(p, t).expect("harness: write");
                    }
                }
                return Ok(json!(""));
            }
            "link" => {
                // a symbolic link made by someone else
                let (p, to) = (std::path::Path::new(s(op, "file")), std::path::Path::new(s(op, "to")));
                if to.exists() && p.symlink_metadata().is_err() {
                    std::fs::create_dir_all(p.parent().unwrap()).expect("harness: mkdir");
                    std::os::unix::fs::symlink(to, p).expect("harness: link");
                }
                return Ok(json!(""));
            }
            "place_hex" => {
                let p = std::path::Path::new(s(op, "file"));
                std::fs::create_dir_all(p.parent().unwrap()).expect("harness: mkdir");
                std::fs::write(p, unhexs(s(op, "hex"))).expect("harness: write");
                return Ok(json!(""));
            }
            "env" => {
                // a hierarchy deep in directories that look like its own
                return crate::paths::env(s(op, "top"), op["depth"].as_u64().unwrap()).map(|b| b.into());
            }
            "digest" => {
                return crate::paths::digest(s(op, "top"), s(op, "base"));
            }
            "unenv" => {
                std::fs::remove_dir_all(s(op, "top")).expect("harness: unenv");
                return Ok(json!(""));
            }
            "unplace" => {
                std::fs::remove_file(s(op, "file")).expect("harness: remove");
                return Ok(json!(""));
            }
            "put_raw" => {
                // a value placed by other software
                let bytes = match op.get("text") {
                    Some(t) => t.as_str().unwrap().as_bytes().to_vec(),
                    None => unhexs(s(op, "hex")),
                };
                match self.h(op) {
                    H::Mem(m) => {
                        m.inner
                            .lock()
                            .unwrap()
                            .map
                            .insert(s(op, "key").trim_start_matches('/').into(), bytes);
                    }
                    H::Fs(_, b) => {
                        let p = b.join(s(op, "key").trim_start_matches('/'));
                        std::fs::create_dir_all(p.parent().unwrap()).expect("harness: mkdir");
                        std::fs::write(p, bytes).expect("harness: write");
                    }
                }
                return Ok(json!(""));
            }
            "put_chunk" | "chunk_value" => {
                // the value of a chunk, from and to other software
                let k = get_chunk_key(s(op, "path"), &self.m(op), &u64s(&op["pos"]));
                let sub = if name == "put_chunk" { "put_raw" } else { "value" };
                return self.exec(&json!({"op": sub, "h": op["h"], "key": k, "hex": op["hex"]}));
            }
            "value" => {
                let k = s(op, "key").trim_start_matches('/');
                let v = match self.h(op) {
                    H::Mem(m) => m.inner.lock().unwrap().map.get(k).cloned(),
                    H::Fs(_, b) => std::fs::read(b.join(k)).ok(),
                };
                return Ok(json!({"some": v.is_some(), "hex": hexs(&v.unwrap_or_default())}));
            }
            "decode" => {
                return Ok(match crate::codecs::decode(s(op, "codec"), &unhexs(s(op, "hex"))) {
                    Ok(b) => json!({"ok": true, "hex": hexs(&b)}),
                    Err(e) => json!({"ok": false, "hex": "", "m": e}),
                })
            }
            "encode" => {
                let b = crate::codecs::encode(
                    s(op, "codec"),
                    op["level"].as_u64().unwrap_or(6) as u32,
                    op["var"].as_u64().unwrap_or(0),
                    &unhexs(s(op, "hex")),
                );
                return Ok(hexs(&b).into());
            }
            _ => (),
        }
        if let Some(r) = self.pure_op(name, op) {
            return r;
        }
        if let Some(r) = crate::conc::others(self, name, op) {
            return r;
        }
        let h = self.h(op);
        with_h!(&h, x => self.hier_op(x, name, op))
    }

    /// Operations that involve no store.
    fn pure_op(&mut self, name: &str, op: &Value) -> Option<Res> {
        Some(match name {
            "grid" => {
                let m = self.m(op);
                Ok(json!({
                    "extent": strs(m.get_grid_extent().to_vec()),
                    "num_chunks": m.get_num_chunks().to_string(),
                    "ndim": m.get_ndim(),
                    "num_elements": m.get_num_elements().to_string(),
                    "chunk_num_elements": m.get_chunk_num_elements().to_string(),
                    "shape": strs(m.get_shape().to_vec()),
                    "chunk_shape": strs(m.get_chunk_shape().iter().map(|&x| x as u64)),
                }))
            }
            "extent" => {
                let m = self.m(op);
                Ok(json!({"extent": strs(m.get_grid_extent().to_vec())}))
            }
            "in_bounds" => Ok(self.m(op).in_bounds(&coords(&op["pos"])).into()),
            "chunk_bounds" => {
                let b = self.m(op).get_chunk_bounds(&u64s(&op["pos"]));
                Ok(bbox_val(&b))
            }
            "bounds" => Ok(bbox_val(&self.m(op).get_bounds())),
            "coords" => {
                let m = self.m(op);
                let limit = op["limit"].as_u64().unwrap_or(10_000) as usize;
                Ok(drain_iter(m.coord_iter(), limit))
            }
            "bounded_coords" => {
                let m = self.m(op);
                let limit = op["limit"].as_u64().unwrap_or(10_000) as usize;
                let b = BoundingBox::new(coords(&op["off"]), coords(&op["shape"]));
                Ok(drain_iter(m.bounded_coord_iter(&b), limit))
            }
            "bbox" => {
                let mut a = BoundingBox::new(coords(&op["aoff"]), coords(&op["ashape"]));
                let b = BoundingBox::new(coords(&op["boff"]), coords(&op["bshape"]));
                match s(op, "f") {
                    "intersect" => a.intersect(&b),
                    "union" => a.union(&b),
                    _ => a = a - &coords(&op["boff"]),
                }
                let mut v = bbox_val(&a);
                v["empty"] = a.is_empty().into();
                v["end"] = strs(a.end().collect::<Vec<_>>());
                Ok(v)
            }
            "chunk_key" => {
                let m = self.m(op);
                Ok(get_chunk_key(s(op, "path"), &m, &u64s(&op["pos"])).into())
            }
            "meta_value" => Ok(serde_json::to_value(&self.m(op)).expect("harness: value")),
            "view" => {
                let m = self.m(op);
                let (dt, ext) = type_view(m.get_data_type());
                Ok(json!({
                    "shape": strs(m.get_shape().to_vec()),
                    "chunk": strs(m.get_chunk_shape().iter().map(|&x| x as u64)),
                    "ndim": m.get_ndim(),
                    "layout": match m.get_chunk_memory_layout() {
                        zarr::Order::RowMajor => "C",
                        zarr::Order::ColumnMajor => "F",
                    },
                    "fill": m.get_fill_value().cloned().unwrap_or(Value::Null),
                    "dt": dt,
                    "ext": ext,
                    "codec": m.get_compressor().to_string(),
                    "ser": serde_json::to_value(&m).expect("harness: value"),
                }))
            }
            "meta_eq" => {
                let a = self.m(op);
                let b = self.metas.get(&op["m2"].as_u64().expect("harness: m2")).expect("no metadata");
                Ok((a == *b).into())
            }
            "dtype" => {
                // parse a data type, and report how it is understood
                let r: Result<zarr::ExtensibleDataType, _> =
                    serde_json::from_value(op["doc"].clone());
                match r {
                    Err(e) => Err(e.into()),
                    Ok(d) => {
                        let eff = d.effective_type();
                        Ok(match eff {
                            Err(_) => json!({"eff": "none", "size": 0, "big": false,
                                "ser": serde_json::to_value(&d).unwrap()}),
                            Ok(e) => json!({
                                "eff": format!("{:?}", e).split(' ').next().unwrap().to_string(),
                                "size": e.size_of(),
                                "dt": type_str(&e),
                                "big": e.endian() == zarr::Endian::Big,
                                "ser": serde_json::to_value(&d).unwrap(),
                            }),
                        })
                    }
                }
            }
            "codec" => {
                let r: Result<zarr::compression::CompressionType, _> =
                    serde_json::from_value(op["doc"].clone());
                r.map_err(|e| e.into()).map(|c| {
                    json!({"ser": serde_json::to_value(&c).unwrap(), "name": c.to_string()})
                })
            }
            "codec_name" => {
                let r: Result<zarr::compression::CompressionType, _> = s(op, "name").parse();
                r.map(|c| json!({"ser": serde_json::to_value(&c).unwrap(), "name": c.to_string()}))
            }
            "fill" => {
                let m = self.m(op);
                with_t!(s(op, "T"), T => m.get_effective_fill_value::<T>().map(|v| v.hex().into()),
                    with_raw!(s(op, "T"), T => m.get_effective_fill_value::<T>().map(|v| v.hex().into())))
            }
            "buf_new" => {
                let key = format!("{}:{}", op["b"], s(op, "T"));
                with_t!(s(op, "T"), T => {
                    let c: VecDataChunk<T> = VecDataChunk::new(coords(&op["pos"]), data_of(&op["data"]));
                    self.bufs.insert(key, Box::new(c));
                    Ok(json!(""))
                }, panic!("harness: raw buffer"))
            }
            // the buffer made equal to another chunk
            "buf_like" => {
                let key = format!("{}:{}", op["b"], s(op, "T"));
                with_t!(s(op, "T"), T => {
                    let c = self.bufs.get_mut(&key)
                        .and_then(|b| b.downcast_mut::<VecDataChunk<T>>())
                        .expect("harness: no buffer");
                    let data: Vec<T> = data_of(&op["data"]);
                    if op["slice"].as_bool().unwrap_or(false) {
                        c.reinitialize_with(&SliceDataChunk::<T, _>::new(coords(&op["pos"]), &data[..]));
                    } else {
                        c.reinitialize_with(&VecDataChunk::new(coords(&op["pos"]), data));
                    }
                    Ok(chunk_val(c, op, true))
                }, panic!("harness: raw buffer"))
            }
            // the buffer sized for another chunk
            "buf_size" => {
                let key = format!("{}:{}", op["b"], s(op, "T"));
                with_t!(s(op, "T"), T => {
                    let c = self.bufs.get_mut(&key)
                        .and_then(|b| b.downcast_mut::<VecDataChunk<T>>())
                        .expect("harness: no buffer");
                    c.reinitialize(&coords(&op["pos"]), op["n"].as_u64().unwrap() as u32);
                    Ok(chunk_val(c, op, true))
                }, panic!("harness: raw buffer"))
            }
            "buf_drop" => {
                self.bufs.remove(&format!("{}:{}", op["b"], s(op, "T")));
                Ok(json!(""))
            }
            "buf_get" => {
                let key = format!("{}:{}", op["b"], s(op, "T"));
                with_t!(s(op, "T"), T => {
                    let c = self.bufs.get(&key).and_then(|b| b.downcast_ref::<VecDataChunk<T>>());
                    Ok(match c {
                        None => json!({"some": false, "pos": [], "n": 0, "data": []}),
                        Some(c) => chunk_val(c, op, true),
                    })
                }, panic!("harness: raw buffer"))
            }
            _ => return None,
        })
    }

    fn hier_op<X>(&mut self, x: &X, name: &str, op: &Value) -> Res
    where
        X: HierarchyWriter + HierarchyLister + ReadableStore + WriteableStore + ListableStore,
        X: ZarrNdarrayReader + ZarrNdarrayWriter,
    {
        Ok(match name {
            "create_group" => {
                x.create_group(s(op, "path"))?;
                json!("")
            }
            "create_array" => {
                x.create_array(s(op, "path"), &self.m(op))?;
                json!("")
            }
            "set_attributes" => {
                let a = floats(&op["attrs"]).as_object().expect("harness: attrs").clone();
                x.set_attributes(s(op, "path"), a)?;
                json!("")
            }
            "set_attribute" => {
                x.set_attribute(s(op, "path"), s(op, "key").into(), floats(&op["val"]))?;
                json!("")
            }
            "list_attributes" => Value::Object(x.list_attributes(s(op, "path"))?),
            "exists" => HierarchyReader::exists(x, s(op, "path"))?.into(),
            "array_exists" => x.array_exists(s(op, "path"))?.into(),
            "get_meta" => {
                if let Some(id) = op["into"].as_u64() {
                    self.metas.remove(&id);
                }
                let m = x.get_array_metadata(s(op, "path"))?;
                let v = serde_json::to_value(&m)?;
                if let Some(id) = op["into"].as_u64() {
                    self.metas.insert(id, m);
                }
                v
            }
            "list_nodes" => json!(x.list_nodes(s(op, "path"))?),
            "list" => json!(x.list()?),
            "list_prefix" => json!(x.list_prefix(s(op, "prefix"))?),
            "list_dir" => {
                let (k, p) = x.list_dir(s(op, "prefix"))?;
                json!({"keys": k, "prefixes": p})
            }
            "version" => x.get_version()?.to_string().into(),
            "remove" => {
                x.remove(s(op, "path"))?;
                json!("")
            }
            "remove_all" => {
                x.remove_all()?;
                json!("")
            }
            "delete_chunk" => x
                .delete_chunk(s(op, "path"), &self.m(op), &u64s(&op["pos"]))?
                .into(),
            "uri" => x
                .get_chunk_uri(s(op, "path"), &self.m(op), &u64s(&op["pos"]))?
                .into(),
            "keys" => json!({
                "array": x.array_metadata_key(s(op, "path")).to_str().unwrap(),
                "group": x.group_metadata_key(s(op, "path")).to_str().unwrap(),
                "data": x.data_path_key(s(op, "path")).to_str().unwrap(),
            }),
            "store_exists" => ReadableStore::exists(x, s(op, "key"))?.into(),
            "store_get" => match x.get(s(op, "key"))? {
                None => json!({"some": false, "hex": ""}),
                Some(mut r) => {
                    let mut b = vec![];
                    std::io::Read::read_to_end(&mut r, &mut b)?;
                    json!({"some": true, "hex": hexs(&b)})
                }
            },
            "store_set" => {
                let b = unhexs(s(op, "hex"));
                x.set(s(op, "key"), |mut w| {
                    std::io::Write::write_all(&mut w, &b)?;
                    std::io::Write::flush(&mut w)
                })?;
                json!("")
            }
            "store_erase" => x.erase(s(op, "key"))?.into(),
            "store_erase_prefix" => x.erase_prefix(s(op, "key"))?.into(),
            "store_uri" => x.uri(s(op, "key"))?.into(),
            "read_chunk" => {
                let m = self.m(op);
                with_t!(s(op, "T"), T => {
                    match x.read_chunk::<T>(s(op, "path"), &m, coords(&op["pos"]))? {
                        Some(c) => chunk_val(&c, op, true),
                        None => json!({"some": false, "pos": [], "n": 0, "data": []}),
                    }
                }, with_raw!(s(op, "T"), T => {
                    let mut c = RawChunk::<T> { pos: GridCoord::new(), data: vec![] };
                    match x.read_chunk_into::<T, _>(s(op, "path"), &m, coords(&op["pos"]), &mut c)? {
                        Some(()) => chunk_val(&c, op, true),
                        None => json!({"some": false, "pos": [], "n": 0, "data": []}),
                    }
                }))
            }
            "read_chunk_into" => {
                // into the buffer "b", which must exist
                let m = self.m(op);
                let key = format!("{}:{}", op["b"], s(op, "T"));
                with_t!(s(op, "T"), T => {
                    let c = self.bufs.get_mut(&key)
                        .and_then(|b| b.downcast_mut::<VecDataChunk<T>>())
                        .expect("harness: no buffer");
                    let r = x.read_chunk_into::<T, _>(s(op, "path"), &m, coords(&op["pos"]), c)?;
                    chunk_val(c, op, r.is_some())
                }, panic!("harness: raw buffer"))
            }
            "write_chunk" => {
                let m = self.m(op);
                with_t!(s(op, "T"), T => {
                    let d: Vec<T> = gen_data(op);
                    // both ways in which the library lets callers hold data
                    if op["slice"].as_bool().unwrap_or(false) {
                        let c = SliceDataChunk::new(coords(&op["pos"]), &d[..]);
                        x.write_chunk::<T, _>(s(op, "path"), &m, &c)?
                    } else {
                        let c = VecDataChunk::new(coords(&op["pos"]), d);
                        x.write_chunk::<T, _>(s(op, "path"), &m, &c)?
                    }
                }, with_raw!(s(op, "T"), T => {
                    let c = RawChunk::<T> { pos: coords(&op["pos"]), data: gen_data(op) };
                    x.write_chunk::<T, _>(s(op, "path"), &m, &c)?
                }));
                json!("")
            }
            "write_region" => {
                let m = self.m(op);
                with_t!(s(op, "T"), T => {
                    let d: Vec<T> = gen_data(op);
                    let shape: Vec<usize> = u64s(&op["shape"]).iter().map(|&x| x as usize).collect();
                    let arr = ArrayD::from_shape_vec(IxDyn(&shape), d).expect("harness: shape");
                    let off = coords(&op["off"]);
                    let path = s(op, "path");
                    if op["lay"].is_null() {
                        x.write_ndarray(path, &m, off, &arr)?
                    } else {
                        let mut b = ArrayD::from_elem(IxDyn(&big(op, &shape)), T::default());
                        arrange(b.view_mut(), op).assign(&arr);
                        if op["owned"].as_bool().unwrap_or(false) {
                            // an array that owns its memory, in that order
                            let q = perm(op);
                            let b = b.permuted_axes(IxDyn(&inverse(&q)));
                            x.write_ndarray(path, &m, off, &b)?
                        } else {
                            x.write_ndarray(path, &m, off, arrange(b.view_mut(), op).view())?
                        }
                    }
                }, panic!("harness: raw region"));
                json!("")
            }
            "read_region" => {
                let m = self.m(op);
                let b = BoundingBox::new(coords(&op["off"]), coords(&op["shape"]));
                let shape: Vec<usize> = u64s(&op["shape"]).iter().map(|&x| x as usize).collect();
                let path = s(op, "path");
                with_t!(s(op, "T"), T => {
                    match op["into"].as_str() {
                        None => {
                            let a = x.read_ndarray::<T>(path, &m, &b)?;
                            if a.shape() != &shape[..] {
                                return Ok(json!({"shape": a.shape(), "data": []}));
                            }
                            let d: Vec<T> = a.iter().cloned().collect();
                            json!({"shape": shape, "data": hexes(&d, op)})
                        }
                        Some(init) => {
                            let i = T::unhex(init);
                            // optionally of another shape than the box, which
                            // must be refused
                            let ashape: Vec<usize> = match op.get("ashape") {
                                Some(a) => u64s(a).iter().map(|&x| x as usize).collect(),
                                None => shape.clone(),
                            };
                            let mut a = if op["lay"].is_null() {
                                ArrayD::from_elem(IxDyn(&ashape), i)
                            } else {
                                ArrayD::from_elem(IxDyn(&big(op, &ashape)), i)
                            };
                            let mut v = if op["lay"].is_null() {
                                a.view_mut()
                            } else {
                                arrange(a.view_mut(), op)
                            };
                            match op.get("b") {
                                None => x.read_ndarray_into::<T>(path, &m, &b, v.view_mut())?,
                                Some(id) => {
                                    let key = format!("{}:{}", id, s(op, "T"));
                                    let mut buf = self.bufs.remove(&key)
                                        .map(|b| *b.downcast::<VecDataChunk<T>>().ok().unwrap());
                                    let r = x.read_ndarray_into_with_buffer::<T>(
                                        path, &m, &b, v.view_mut(), &mut buf);
                                    if let Some(c) = buf {
                                        self.bufs.insert(key, Box::new(c));
                                    }
                                    r?
                                }
                            }
                            let d: Vec<T> = v.iter().cloned().collect();
                            json!({"shape": ashape, "data": hexes(&d, op)})
                        }
                    }
                }, panic!("harness: raw region"))
            }
            "view_chunk" => {
                let m = self.m(op);
                with_t!(s(op, "T"), T => {
                    match x.read_chunk::<T>(s(op, "path"), &m, coords(&op["pos"]))? {
                        None => json!({"some": false, "off": [], "shape": [], "data": []}),
                        Some(c) => {
                            let b = bbox_val(&c.get_bounds(&m));
                            let d: Vec<T> = c.as_ndarray(&m).iter().cloned().collect();
                            let sh = c.as_ndarray(&m).shape().to_vec();
                            let a = c.into_ndarray(&m);
                            let d2: Vec<T> = a.iter().cloned().collect();
                            let same = a.shape() == &sh[..]
                                && hexes(&d, op) == hexes(&d2, op);
                            json!({"some": true, "off": nums(&b["off"]), "shape": nums(&b["shape"]),
                                   "nd": sh, "same": same, "data": hexes(&d, op)})
                        }
                    }
                }, panic!("harness: raw view"))
            }
            _ => panic!("harness: op {}", name),
        })
    }
}

/// "lay": the axes in the order they have in memory, slowest first, and the
/// step along every axis.
fn perm(op: &Value) -> Vec<usize> {
    u64s(&op["lay"]).iter().map(|&x| x as usize).collect()
}

fn inverse(q: &[usize]) -> Vec<usize> {
    let mut inv = vec![0; q.len()];
    for (k, &a) in q.iter().enumerate() {
        inv[a] = k;
    }
    inv
}

/// The shape of the memory an array of the shape is laid out in.
fn big(op: &Value, shape: &[usize]) -> Vec<usize> {
    perm(op)
        .iter()
        .map(|&a| shape[a] * op["steps"][a].as_i64().expect("harness: step").unsigned_abs() as usize)
        .collect()
}

fn arrange<'a, T>(v: ArrayViewMutD<'a, T>, op: &Value) -> ArrayViewMutD<'a, T> {
    let mut v = v.permuted_axes(IxDyn(&inverse(&perm(op))));
    for a in 0..v.ndim() {
        let step = op["steps"][a].as_i64().expect("harness: step") as isize;
        v.slice_axis_inplace(Axis(a), Slice::new(0, None, step));
    }
    v
}

fn chunk_val<T: Elem, B: DataChunk<T>>(c: &B, op: &Value, some: bool) -> Value {
    json!({
        "some": some,
        "pos": c.get_grid_position(),
        "n": c.get_num_elements(),
        "data": hexes(c.get_data(), op),
    })
}

fn nums(v: &Value) -> Vec<u64> {
    u64s(v)
}

fn bbox_val(b: &BoundingBox) -> Value {
    // The offset is not public; recover it from the ends and the shape.
    let shape: Vec<u64> = b.shape_ndarray_shape().iter().map(|&x| x as u64).collect();
    let off: Vec<u64> = b.end().zip(shape.iter()).map(|(e, s)| e - s).collect();
    json!({"off": strs(off), "shape": strs(shape)})
}

/// All items with the exact-size reports seen before each and at the end.
fn drain_iter<I: Iterator<Item = Vec<u64>> + ExactSizeIterator>(mut i: I, limit: usize) -> Value {
    let mut items = vec![];
    let mut lens = vec![];
    let mut hints_ok = true;
    loop {
        lens.push(i.len());
        let (a, b) = i.size_hint();
        hints_ok &= Some(a) == b;
        match i.next() {
            Some(c) if items.len() < limit => items.push(c),
            _ => break,
        }
    }
    // Exhausted iterators stay so.
    let again = i.next().is_some();
    let after = i.len();
    json!({"items": items, "lens": lens, "hints": hints_ok, "again": again, "after": after})
}

fn tree(base: &std::path::Path, d: &std::path::Path, out: &mut Vec<Value>) {
    let mut names: Vec<_> = std::fs::read_dir(d)
        .expect("harness: tree")
        .map(|e| e.expect("harness: tree").path())
        .collect();
    names.sort();
    for p in names {
        let k = p.strip_prefix(base).unwrap().to_str().unwrap().to_owned();
        if p.is_dir() {
            out.push(json!([k, "dir"]));
            tree(base, &p, out);
        } else {
            out.push(json!([k, hexs(&std::fs::read(&p).expect("harness: tree"))]));
        }
    }
}

fn dump(h: &H) -> Res {
    let mut out = vec![];
    match h {
        H::Mem(m) => {
            for (k, v) in m.inner.lock().unwrap().map.iter() {
                out.push(json!([k, hexs(v)]));
            }
        }
        H::Fs(_, base) => {
            let mut todo = vec![base.clone()];
            while let Some(d) = todo.pop() {
                for e in std::fs::read_dir(&d).expect("harness: dump") {
                    let p = e.expect("harness: dump").path();
                    if p.symlink_metadata().expect("harness: dump").file_type().is_symlink() {
                        continue;
                    }
                    if p.is_dir() {
                        todo.push(p);
                    } else {
                        let b = std::fs::read(&p).expect("harness: dump");
                        let k = match p.strip_prefix(base).unwrap().to_str() {
                            Some(k) => k.to_owned(),
                            None => continue,
                        };
                        out.push(json!([k, hexs(&b)]));
                    }
                }
            }
            out.sort_by_key(|v| v[0].as_str().unwrap().to_owned());
        }
    }
    Ok(out.into())
}

#[allow(unused)]
fn assert_traits<T: ReflectedType>() {}
