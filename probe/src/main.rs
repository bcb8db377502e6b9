//! Reports what async-tiff does with a list of files under one set of optional features.
//! Input: <dir>/list with lines "<file> <ifd> <x> <y>". Output: one line per file, then the codes.
#[path = "../../harness/src/canon.rs"]
mod canon;

use async_tiff::decoder::DecoderRegistry;
use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::TiffMetadataReader;
use async_tiff::reader::AsyncFileReader;
use bytes::Bytes;
use futures::executor::block_on;
use std::ops::Range;
use std::sync::Arc;

#[derive(Debug, Clone)]
struct Mem(Bytes);
#[async_trait::async_trait]
impl AsyncFileReader for Mem {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        let n = self.0.len() as u64;
        Ok(self.0.slice(r.start.min(n) as usize..r.end.min(n) as usize))
    }
}

fn one(reader: Arc<dyn AsyncFileReader>, ifd: usize, x: usize, y: usize) -> Result<(u64, String), String> {
    block_on(async {
        let cache = ReadaheadMetadataCache::new(reader.clone());
        let mut r = TiffMetadataReader::try_open(&cache).await.map_err(|e| e.to_string())?;
        let t = r.read(&cache).await.map_err(|e| e.to_string())?;
        let meta = canon::hash_bytes(t.ifds().iter().map(canon::canon_raw).collect::<Vec<_>>().join("\n").as_bytes());
        let tile = t.ifds()[ifd].fetch_tile(x, y, &reader).await.map_err(|e| e.to_string())?;
        let px = match tile.decode(&DecoderRegistry::default()) {
            Ok(a) => {
                let b: &[u8] = a.data().as_ref();
                #[allow(unused_mut)]
                let mut s = format!("ok {} {:?} {:?}", canon::hash_bytes(b), a.shape(), a.data_type()).replace(' ', "_");
                // the batched way
                let many = t.ifds()[ifd].fetch_tiles(&[(0, 0), (x, y)], &reader).await.map_err(|e| e.to_string())?;
                let again = many.into_iter().nth(1).ok_or("one tile of two")?.decode(&DecoderRegistry::default()).map_err(|e| e.to_string())?;
                if AsRef::<[u8]>::as_ref(again.data()) != b { s = "fetch_tiles_gives_other_pixels".into(); }
                #[cfg(feature = "ndarray")]
                {
                    let want = a.shape();
                    let got = nd(a)?;
                    if got != want { s = format!("ndarray_of_shape_{got:?}_not_{want:?}").replace(' ', "_"); }
                }
                s
            }
            Err(e) => format!("err {e}").replace([' ', '\n'], "_"),
        };
        Ok((meta, px))
    })
}
#[cfg(feature = "ndarray")]
fn nd(a: async_tiff::Array) -> Result<[usize; 3], String> {
    use async_tiff::ndarray::NdArray::*;
    let a: async_tiff::ndarray::NdArray = a.try_into().map_err(|e| format!("{e:?}"))?;
    let s: &[usize] = match &a {
        Bool(v) => v.shape(), Uint8(v) => v.shape(), Uint16(v) => v.shape(), Uint32(v) => v.shape(), Uint64(v) => v.shape(),
        Int8(v) => v.shape(), Int16(v) => v.shape(), Int32(v) => v.shape(), Int64(v) => v.shape(), Float32(v) => v.shape(), Float64(v) => v.shape(),
        #[allow(unreachable_patterns)]
        _ => return Err("another ndarray".into()),
    };
    s.try_into().map_err(|_| "not three-dimensional".to_string())
}

fn main() {
    let dir = std::env::args().nth(1).expect("directory");
    for l in std::fs::read_to_string(format!("{dir}/list")).expect("list").lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| f[i].parse::<usize>().expect("number");
        let data = std::fs::read(format!("{dir}/{}", f[0])).expect("file");
        #[allow(unused_mut)]
        let mut readers: Vec<(&str, Arc<dyn AsyncFileReader>)> = vec![("memory", Arc::new(Mem(data.clone().into())))];
        #[cfg(feature = "tokio")]
        readers.push(("tokio", Arc::new(async_tiff::reader::TokioReader::new(std::io::Cursor::new(data.clone())))));
        #[cfg(feature = "object_store")]
        {
            use object_store::{ObjectStore, ObjectStoreExt};
            let s: Arc<dyn ObjectStore> = Arc::new(object_store::memory::InMemory::new());
            let p = object_store::path::Path::from("x.tif");
            block_on(s.put(&p, data.clone().into())).expect("put");
            readers.push(("object_store", Arc::new(async_tiff::reader::ObjectReader::new(s, p))));
        }
        for (name, r) in readers {
            match one(r, n(1), n(2), n(3)) {
                Ok((m, p)) => println!("file {} {name} {m} {p}", f[0]),
                Err(e) => println!("file {} {name} failed {}", f[0], e.replace([' ', '\n'], "_")),
            }
        }
    }
    let reg = DecoderRegistry::default();
    let mut k: Vec<u16> = reg.as_ref().keys().map(|c| c.to_u16()).collect();
    k.sort();
    println!("codes {}", k.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
    println!("done");
}
