//! Directories around a hierarchy, for observing what calls touch.
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::fs;
use std::hash::{Hash, Hasher};
use std::path::Path;

const GROUP: &str = r#"{"extensions":[],"attributes":{"k":1}}"#;
const ARRAY: &str = r#"{"shape":[4],"data_type":"u1","chunk_grid":{"type":"regular","chunk_shape":[2],"separator":"/"},"chunk_memory_layout":"C","fill_value":null,"extensions":[],"attributes":{"k":1}}"#;
const ENTRY: &str = r#"{"zarr_format":"https://purl.org/zarr/spec/protocol/core/3.0","metadata_encoding":"https://purl.org/zarr/spec/protocol/core/3.0","metadata_key_suffix":".json","extensions":[]}"#;

fn decoys(d: &Path) -> std::io::Result<()> {
    fs::create_dir_all(d.join("a"))?;
    fs::create_dir_all(d.join("b"))?;
    fs::write(d.join("a.group.json"), GROUP)?;
    fs::write(d.join("b.array.json"), ARRAY)?;
    fs::write(d.join("c0"), [1, 2])?;
    fs::write(d.join("a/c0"), [3, 4])?;
    fs::write(d.join("b/c0"), [5, 6])
}

pub fn env(top: &str, depth: u64) -> Result<String, std::io::Error> {
    let mut d = Path::new(top).to_path_buf();
    for i in 0..depth {
        fs::create_dir_all(&d)?;
        decoys(&d)?;
        d = d.join(format!("l{}", i));
    }
    for sub in &["", "meta", "meta/root", "data", "data/root"] {
        decoys(&d.join(sub))?;
    }
    fs::write(d.join("zarr.json"), ENTRY)?;
    Ok(d.to_str().unwrap().to_owned())
}

fn walk(d: &Path, skip: &Path, h: &mut DefaultHasher, files: &mut Vec<String>, root: &Path) {
    let mut names: Vec<_> = fs::read_dir(d)
        .expect("harness: walk")
        .map(|e| e.expect("harness: walk").path())
        .collect();
    names.sort();
    for p in names {
        if p == skip {
            continue;
        }
        p.hash(h);
        if p.is_dir() {
            walk(&p, skip, h, files, root);
        } else {
            fs::read(&p).expect("harness: walk").hash(h);
            files.push(p.strip_prefix(root).unwrap().to_str().unwrap().to_owned());
        }
    }
}

pub fn digest(top: &str, base: &str) -> Result<Value, std::io::Error> {
    let (top, base) = (Path::new(top), Path::new(base));
    let (mut o, mut i) = (DefaultHasher::new(), DefaultHasher::new());
    let mut files = vec![];
    walk(top, base, &mut o, &mut vec![], top);
    if base.exists() {
        walk(base, Path::new(""), &mut i, &mut files, base);
    }
    Ok(json!({"outside": format!("{:x}", o.finish()), "inside": format!("{:x}", i.finish()),
              "files": files}))
}
