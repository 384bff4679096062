//! A key/value store in memory implementing zarr's storage interface, with
//! selectable (conforming) behaviours and injectable faults.
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::sync::{Arc, Mutex};
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};
use zarr::{EntryPointMetadata, Hierarchy};

#[derive(Default, Clone, Debug)]
pub struct Fault {
    /// "set", "write", "flush", "commit", "get", "read", "erase", "erase_prefix", "exists", "list"
    pub kind: String,
    /// for write/read: bytes let through; otherwise calls let through
    pub after: usize,
    pub fired: bool,
    pub armed: bool,
}

#[derive(Default, Debug)]
pub struct Inner {
    pub map: BTreeMap<String, Vec<u8>>,
    pub fault: Fault,
    pub sets: Vec<String>,
}

impl Inner {
    fn hit(&mut self, kind: &str) -> Result<()> {
        if self.fault.armed && self.fault.kind == kind {
            if self.fault.after == 0 {
                self.fault.fired = true;
                self.fault.armed = false;
                return Err(Error::new(ErrorKind::Other, "injected"));
            }
            self.fault.after -= 1;
        }
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub struct MemStore {
    pub inner: Arc<Mutex<Inner>>,
    pub entry: EntryPointMetadata,
    /// Bytes accepted/returned per write/read call, 0 for no limit.
    pub piece: usize,
    /// Whether prefixes are any string, and are listed with a trailing slash.
    pub slash: bool,
    /// Whether a value is emptied when its writing begins (as a file would be)
    /// or replaced when its writing succeeds.
    pub eager: bool,
}

fn norm(key: &str) -> String {
    key.trim_start_matches('/').to_owned()
}

#[derive(Debug)]
pub struct MemReader {
    data: Vec<u8>,
    pos: usize,
    piece: usize,
    inner: Arc<Mutex<Inner>>,
}

impl Read for MemReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut n = buf.len().min(self.data.len() - self.pos);
        if self.piece > 0 {
            n = n.min(self.piece);
        }
        {
            let mut i = self.inner.lock().unwrap();
            if i.fault.armed && i.fault.kind == "read" {
                if i.fault.after < n || (n > 0 && i.fault.after == 0) {
                    if i.fault.after == 0 {
                        i.fault.fired = true;
                        i.fault.armed = false;
                        return Err(Error::new(ErrorKind::Other, "injected"));
                    }
                    n = i.fault.after;
                }
                i.fault.after -= n;
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Debug)]
pub struct MemWriter {
    /// written but not flushed (a flush must happen for data to be stored)
    pending: Vec<u8>,
    key: String,
    piece: usize,
    staged: Arc<Mutex<Vec<u8>>>,
    inner: Arc<Mutex<Inner>>,
    buffered: bool,
    failed: bool,
}

impl MemWriter {
    fn push(&mut self, buf: &[u8]) -> Result<usize> {
        let mut n = buf.len();
        if self.piece > 0 {
            n = n.min(self.piece);
        }
        let mut i = self.inner.lock().unwrap();
        if self.failed {
            return Err(Error::new(ErrorKind::Other, "injected, persistent"));
        }
        if i.fault.armed && i.fault.kind == "write" && n > 0 {
            if i.fault.after == 0 {
                i.fault.fired = true;
                i.fault.armed = false;
                self.failed = true;
                return Err(Error::new(ErrorKind::Other, "injected"));
            }
            n = n.min(i.fault.after);
            i.fault.after -= n;
        }
        self.staged.lock().unwrap().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn drain(&mut self) -> Result<()> {
        while !self.pending.is_empty() {
            let p = std::mem::take(&mut self.pending);
            match self.push(&p) {
                Ok(n) => self.pending = p[n..].to_vec(),
                Err(e) => {
                    self.pending = p;
                    return Err(e);
                }
            }
        }
        Ok(())
    }
}

impl Write for MemWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if !self.buffered {
            return self.push(buf);
        }
        let mut n = buf.len();
        if self.piece > 0 {
            n = n.min(self.piece);
        }
        if self.pending.len() >= 64 {
            self.drain()?;
        }
        self.pending.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.drain()?;
        self.inner.lock().unwrap().hit("flush")
    }
}

impl Drop for MemWriter {
    fn drop(&mut self) {
        // like BufWriter: write what is left, ignoring errors
        let _ = self.drain();
        let _ = &self.key;
    }
}

impl Hierarchy for MemStore {
    fn get_entry_point_metadata(&self) -> &EntryPointMetadata {
        &self.entry
    }
}

impl ReadableStore for MemStore {
    type GetReader = MemReader;
    fn exists(&self, key: &str) -> Result<bool> {
        let mut i = self.inner.lock().unwrap();
        i.hit("exists")?;
        Ok(i.map.contains_key(&norm(key)))
    }
    fn get(&self, key: &str) -> Result<Option<MemReader>> {
        let mut i = self.inner.lock().unwrap();
        i.hit("get")?;
        Ok(i.map.get(&norm(key)).map(|d| MemReader {
            data: d.clone(),
            pos: 0,
            piece: self.piece,
            inner: self.inner.clone(),
        }))
    }
    fn uri(&self, key: &str) -> Result<String> {
        Ok(format!("mem:{}", norm(key)))
    }
}

impl ListableStore for MemStore {
    fn list_dir(&self, prefix: &str) -> Result<(Vec<String>, Vec<String>)> {
        let mut i = self.inner.lock().unwrap();
        i.hit("list")?;
        let mut prefix = prefix.to_owned();
        if !self.slash && !prefix.is_empty() && !prefix.ends_with('/') {
            // like a store of directories: prefixes name these
            prefix.push('/');
        }
        let p = norm(&prefix);
        let mut keys = vec![];
        let mut prefixes: Vec<String> = vec![];
        let lead = &prefix[..prefix.len() - p.len()];
        for k in i.map.keys() {
            if let Some(rest) = k.strip_prefix(p.as_str()) {
                match rest.find('/') {
                    None => keys.push(format!("{}{}", lead, k)),
                    Some(at) => {
                        let at = if self.slash { at + 1 } else { at };
                        let d = format!("{}{}{}", lead, p, &rest[..at]);
                        if !prefixes.contains(&d) {
                            prefixes.push(d);
                        }
                    }
                }
            }
        }
        Ok((keys, prefixes))
    }
}

impl WriteableStore for MemStore {
    type SetWriter = MemWriter;
    fn set<F: FnOnce(MemWriter) -> Result<()>>(&self, key: &str, value: F) -> Result<()> {
        let key = norm(key);
        {
            let mut i = self.inner.lock().unwrap();
            i.hit("set")?;
            i.sets.push(key.clone());
            if self.eager {
                i.map.insert(key.clone(), vec![]);
            }
        }
        let staged = Arc::new(Mutex::new(vec![]));
        let w = MemWriter {
            pending: vec![],
            key: key.clone(),
            piece: self.piece,
            staged: staged.clone(),
            inner: self.inner.clone(),
            buffered: true,
            failed: false,
        };
        let res = value(w);
        let data = std::mem::take(&mut *staged.lock().unwrap());
        let mut i = self.inner.lock().unwrap();
        if self.eager {
            i.map.insert(key.clone(), data);
        } else if res.is_ok() {
            i.hit("commit")?;
            i.map.insert(key, data);
        }
        res
    }
    fn erase(&self, key: &str) -> Result<bool> {
        let mut i = self.inner.lock().unwrap();
        i.hit("erase")?;
        i.map.remove(&norm(key));
        Ok(true)
    }
    fn erase_prefix(&self, prefix: &str) -> Result<bool> {
        let mut i = self.inner.lock().unwrap();
        i.hit("erase_prefix")?;
        // A prefix names a directory of keys.
        let p = norm(prefix);
        let p = p.trim_end_matches('/');
        let d = format!("{}/", p);
        let ks: Vec<String> = i
            .map
            .keys()
            .filter(|k| k.starts_with(&d))
            .cloned()
            .collect();
        for k in ks {
            i.map.remove(&k);
        }
        Ok(true)
    }
}
