//! Blocks: round trips, layout, write-path agreement.
use crate::io::*;
use crate::proto::*;
use crate::rt::*;
use crate::spec;
use brec::prelude::*;
use std::io::Cursor;

pub fn written<T: WriteTo>(b: &T) -> Vec<u8> {
    let mut v = Vec::new();
    chk!(b.write_all(&mut v).is_ok(), "block cannot be written");
    v
}

/// One block type through its own read paths, followed by a trailing byte that must stay unread.
pub fn own_paths<'a, T, R>(b: &T, mk: impl Fn(R) -> T)
where
    T: WriteTo + ReadBlockFrom + TryReadFrom + TryReadFromBuffered + StaticSize + Same,
    R: ReadBlockFromSlice + 'static,
{
    let mut v = written(b);
    let n = v.len();
    chk!(n as u64 == T::ssize(), "written length differs from the announced size");
    v.push(any());

    let mut s = Src::new(v.clone(), vec![]);
    match <T as ReadBlockFrom>::read(&mut s, false) {
        Ok(r) => chk!(r.same(b) & (s.pos == n), "stream read gives another block"),
        Err(_) => chk!(false, "stream read refuses a written block"),
    }
    let mut s = Src::new(v[4..].to_vec(), vec![]);
    match <T as ReadBlockFrom>::read(&mut s, true) {
        Ok(r) => chk!(r.same(b) & (s.pos == n - 4), "stream read after the signature gives another block"),
        Err(_) => chk!(false, "stream read after the signature refuses a written block"),
    }
    let mut c = Cursor::new(v.clone());
    match <T as TryReadFrom>::try_read(&mut c) {
        Ok(ReadStatus::Success(r)) => {
            chk!(r.same(b) & (c.position() == n as u64), "seekable read gives another block")
        }
        _ => chk!(false, "seekable read refuses a written block"),
    }
    let mut s = Buf::new(v.clone());
    match <T as TryReadFromBuffered>::try_read(&mut s) {
        Ok(ReadStatus::Success(r)) => chk!(r.same(b) & (s.pos == n), "buffered read gives another block"),
        _ => chk!(false, "buffered read refuses a written block"),
    }
    let leak: &'static [u8] = Vec::leak(v);
    match R::read_from_slice(leak, false) {
        Ok(r) => chk!(mk(r).same(b), "slice read gives another block"),
        Err(_) => chk!(false, "slice read refuses a written block"),
    }
    cover(1);
}
pub fn h_block_rt() {
    match pick(7) {
        0 => own_paths::<Tiny, TinyReferred<'static>>(&any(), |r| r.into()),
        1 => own_paths::<Uns, UnsReferred<'static>>(&any(), |r| r.into()),
        2 => own_paths::<Sig, SigReferred<'static>>(&any(), |r| r.into()),
        3 => own_paths::<Flt, FltReferred<'static>>(&any(), |r| r.into()),
        4 => own_paths::<Blob, BlobReferred<'static>>(&any(), |r| r.into()),
        5 => own_paths::<Link, LinkReferred<'static>>(&any(), |r| r.into()),
        _ => own_paths::<Bare, BareReferred<'static>>(&any(), |r| r.into()),
    }
}

/// Slice view with the signature already skipped.
pub fn h_block_skip_sig() {
    fn go<T: WriteTo + Same, R: ReadBlockFromSlice + 'static>(b: &T, mk: impl Fn(R) -> T) {
        let v: &'static [u8] = Vec::leak(written(b)[4..].to_vec());
        match R::read_from_slice(v, true) {
            Ok(r) => chk!(mk(r).same(b), "slice read after the signature gives another block"),
            Err(_) => chk!(false, "slice read after the signature refuses a written block"),
        }
        cover(1);
    }
    match pick(7) {
        0 => go::<Tiny, TinyReferred<'static>>(&any(), |r| r.into()),
        1 => go::<Uns, UnsReferred<'static>>(&any(), |r| r.into()),
        2 => go::<Sig, SigReferred<'static>>(&any(), |r| r.into()),
        3 => go::<Flt, FltReferred<'static>>(&any(), |r| r.into()),
        4 => go::<Blob, BlobReferred<'static>>(&any(), |r| r.into()),
        5 => go::<Link, LinkReferred<'static>>(&any(), |r| r.into()),
        _ => go::<Bare, BareReferred<'static>>(&any(), |r| r.into()),
    }
}

/// Any block through the generated sum type, in all of its read paths.
pub fn h_block_enum_rt() {
    enum_paths(&any_block());
    cover(1);
}
pub fn enum_paths(b: &Block) {
    let mut v = written(b);
    let n = v.len();
    chk!(n as u64 == b.size(), "written length differs from the announced size");
    v.push(any());
    let mut s = Src::new(v.clone(), vec![]);
    match <Block as ReadFrom>::read(&mut s) {
        Ok(r) => chk!(r.same(b) & (s.pos == n), "stream read gives another block"),
        Err(_) => chk!(false, "stream read refuses a written block"),
    }
    let mut s = Src::new(v.clone(), vec![]);
    match <Block as ReadBlockFrom>::read(&mut s, false) {
        Ok(r) => chk!(r.same(b) & (s.pos == n), "block stream read gives another block"),
        Err(_) => chk!(false, "block stream read refuses a written block"),
    }
    let mut c = Cursor::new(v.clone());
    match <Block as TryReadFrom>::try_read(&mut c) {
        Ok(ReadStatus::Success(r)) => {
            chk!(r.same(b) & (c.position() == n as u64), "seekable read gives another block")
        }
        _ => chk!(false, "seekable read refuses a written block"),
    }
    let mut s = Buf::new(v.clone());
    match <Block as TryReadFromBuffered>::try_read(&mut s) {
        Ok(ReadStatus::Success(r)) => chk!(r.same(b) & (s.pos == n), "buffered read gives another block"),
        _ => chk!(false, "buffered read refuses a written block"),
    }
    let leak: &'static [u8] = Vec::leak(v);
    match <BlockReferred as ReadBlockFromSlice>::read_from_slice(leak, false) {
        Ok(r) => {
            chk!(r.size() == n as u64, "slice view announces another size");
            let r: Block = r.into();
            chk!(r.same(b), "slice read gives another block")
        }
        Err(_) => chk!(false, "slice read refuses a written block"),
    }
}

/// Every write path emits exactly the specified bytes.
pub fn h_block_layout() {
    let b = any_block();
    let want = spec::block_bytes(&b);
    write_paths(&b, &want);
    cover(1);
}
pub fn write_paths(b: &Block, want: &[u8]) {
    chk!(b.size() == want.len() as u64, "announced size differs from the specified layout");
    chk!(same_bytes(&written(b), want), "write_all differs from the specified layout");
    let mut v = Vec::new();
    let n = b.write(&mut v);
    chk!(matches!(n, Ok(n) if n == want.len()), "write returns another length");
    chk!(same_bytes(&v, want), "write differs from the specified layout");
    let mut v = Vec::new();
    let n = b.write_vectored(&mut v);
    chk!(matches!(n, Ok(n) if n == want.len()), "write_vectored returns another length");
    chk!(same_bytes(&v, want), "write_vectored differs from the specified layout");
    let mut v = Vec::new();
    chk!(b.write_vectored_all(&mut v).is_ok(), "write_vectored_all fails");
    chk!(same_bytes(&v, want), "write_vectored_all differs from the specified layout");
    let mut v = Vec::new();
    match b.slices() {
        Ok(s) => {
            for x in s.get() {
                v.extend_from_slice(&x);
            }
        }
        Err(_) => chk!(false, "slices fails"),
    }
    chk!(same_bytes(&v, want), "slices differ from the specified layout");
}
