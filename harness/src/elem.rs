//! Elements as bit patterns: hex strings, most significant byte first.
use half::f16;
use std::io::{Read, Result, Write};
use zarr::chunk::*;
use zarr::{ArrayMetadata, GridCoord, ReflectedType};

pub trait Elem: ReflectedType {
    fn hex(&self) -> String;
    fn unhex(s: &str) -> Self;
}

pub fn hexs(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

pub fn unhexs(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| (c as char).to_digit(16).expect("hex") as u8;
    b.chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

macro_rules! elem_int {
    ($($t:ty),*) => {$(
        impl Elem for $t {
            fn hex(&self) -> String { hexs(&self.to_be_bytes()) }
            fn unhex(s: &str) -> Self {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                b.copy_from_slice(&unhexs(s));
                <$t>::from_be_bytes(b)
            }
        }
    )*};
}
elem_int!(u8, u16, u32, u64, i8, i16, i32, i64);

impl Elem for bool {
    fn hex(&self) -> String {
        if *self { "01" } else { "00" }.into()
    }
    fn unhex(s: &str) -> Self {
        s != "00"
    }
}
impl Elem for f16 {
    fn hex(&self) -> String {
        hexs(&self.to_bits().to_be_bytes())
    }
    fn unhex(s: &str) -> Self {
        f16::from_bits(u16::unhex(s))
    }
}
impl Elem for f32 {
    fn hex(&self) -> String {
        hexs(&self.to_bits().to_be_bytes())
    }
    fn unhex(s: &str) -> Self {
        f32::from_bits(u32::unhex(s))
    }
}
impl Elem for f64 {
    fn hex(&self) -> String {
        hexs(&self.to_bits().to_be_bytes())
    }
    fn unhex(s: &str) -> Self {
        f64::from_bits(u64::unhex(s))
    }
}
macro_rules! elem_raw {
    ($($n:expr),*) => {$(
        impl Elem for [u8; $n] {
            fn hex(&self) -> String { hexs(&self[..]) }
            fn unhex(s: &str) -> Self {
                let mut b = [0u8; $n];
                b.copy_from_slice(&unhexs(s));
                b
            }
        }
    )*};
}
elem_raw!(1, 2, 3, 4);

/// A caller-defined chunk type, as the library's trait documentation invites
/// for custom types: used for raw elements, which have no built-in IO.
#[derive(Debug, Clone)]
pub struct RawChunk<T> {
    pub pos: GridCoord,
    pub data: Vec<T>,
}

impl<T: Elem> DataChunk<T> for RawChunk<T> {
    fn get_grid_position(&self) -> &[u64] {
        &self.pos
    }
    fn get_data(&self) -> &[T] {
        &self.data
    }
    fn get_num_elements(&self) -> u32 {
        self.data.len() as u32
    }
}
impl<T: Elem> ReinitDataChunk<T> for RawChunk<T> {
    fn reinitialize(&mut self, grid_position: &GridCoord, num_el: u32) {
        self.pos = grid_position.clone();
        self.data.resize_with(num_el as usize, Default::default);
    }
    fn reinitialize_with<B: DataChunk<T>>(&mut self, other: &B) {
        self.pos = other.get_grid_position().into();
        self.data = other.get_data().to_vec();
    }
}
impl<T: Elem> ReadableDataChunk for RawChunk<T> {
    fn read_data<R: Read>(&mut self, mut source: R, _m: &ArrayMetadata) -> Result<()> {
        let w = std::mem::size_of::<T>();
        let mut b = vec![0u8; w];
        for d in self.data.iter_mut() {
            source.read_exact(&mut b)?;
            *d = T::unhex(&hexs(&b));
        }
        Ok(())
    }
}
impl<T: Elem> WriteableDataChunk for RawChunk<T> {
    fn write_data<W: Write>(&self, mut target: W, _m: &ArrayMetadata) -> Result<()> {
        for d in &self.data {
            target.write_all(&unhexs(&d.hex()))?;
        }
        Ok(())
    }
}
