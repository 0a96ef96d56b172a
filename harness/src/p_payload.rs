//! Payloads: layout, round trips, headers of every width.
use crate::io::*;
use crate::proto::*;
use crate::rt::*;
use crate::spec;
use brec::prelude::*;
use std::io::Cursor;

fn body_len(want: &[u8], p: &Payload) -> usize {
    want.len() - (6 + p.sig().size() + crc_len(p))
}
fn crc_len(p: &Payload) -> usize {
    if matches!(p, Payload::Wide(_)) { 8 } else { 4 }
}

/// Every write path emits the specified bytes.
pub fn h_payload_layout() {
    let p = payload_of(pick(PAYLOADS));
    let want = spec::payload_bytes(&p);
    write_paths(p, &want);
    cover(1);
}
pub fn write_paths(mut p: Payload, want: &[u8]) {
    let body = body_len(want, &p);
    chk!(matches!(PayloadSize::size(&p), Ok(n) if n == body as u64), "announced payload size is wrong");
    chk!(
        matches!(PayloadHeader::ssize(&p), Ok(n) if n == want.len() - body),
        "announced payload header size is wrong"
    );
    match PayloadHeader::new(&p) {
        Ok(h) => {
            chk!(h.payload_len() == body, "payload header carries another length");
            chk!(h.size() == want.len() - body, "payload header has another size");
            chk!(same_bytes(&h.as_vec(), &want[..want.len() - body]), "payload header differs from the specified layout");
        }
        Err(_) => chk!(false, "no header for a payload"),
    }
    let mut v = Vec::new();
    chk!(WriteMutTo::write_all(&mut p, &mut v).is_ok(), "write_all fails");
    chk!(same_bytes(&v, want), "write_all differs from the specified layout");
    let mut v = Vec::new();
    let n = WriteMutTo::write(&mut p, &mut v);
    chk!(matches!(n, Ok(n) if n == want.len()), "write returns another length");
    chk!(same_bytes(&v, want), "write differs from the specified layout");
    let mut v = Vec::new();
    let n = WriteVectoredMutTo::write_vectored(&mut p, &mut v);
    chk!(matches!(n, Ok(n) if n == want.len()), "write_vectored returns another length");
    chk!(same_bytes(&v, want), "write_vectored differs from the specified layout");
    let mut v = Vec::new();
    chk!(WriteVectoredMutTo::write_vectored_all(&mut p, &mut v).is_ok(), "write_vectored_all fails");
    chk!(same_bytes(&v, want), "write_vectored_all differs from the specified layout");
}

/// Written payloads come back equal through every read path, leaving what follows unread.
pub fn h_payload_rt() {
    let mut p = payload_of(pick(PAYLOADS));
    let mut v = Vec::new();
    chk!(WriteMutTo::write_all(&mut p, &mut v).is_ok(), "payload cannot be written");
    read_paths(p, v);
    cover(1);
}
pub fn read_paths(p: Payload, mut v: Vec<u8>) {
    let n = v.len();
    v.push(any());

    let mut s = Src::new(v.clone(), vec![]);
    let head = match <PayloadHeader as ReadFrom>::read(&mut s) {
        Ok(h) => {
            chk!((h.sig == p.sig()) & (s.pos == h.size()), "stream read gives another payload header");
            match <Payload as ExtractPayloadFrom<Payload>>::read(&mut s, &h) {
                Ok(r) => chk!(r.same(&p) & (s.pos == n), "stream read gives another payload"),
                Err(_) => chk!(false, "stream read refuses a written payload"),
            }
            h.size()
        }
        Err(_) => {
            chk!(false, "stream read refuses a written payload header");
            0
        }
    };
    let mut c = Cursor::new(v.clone());
    match <PayloadHeader as TryReadFrom>::try_read(&mut c) {
        Ok(ReadStatus::Success(h)) => {
            chk!(c.position() == head as u64, "seekable payload header read stops elsewhere");
            match <Payload as TryExtractPayloadFrom<Payload>>::try_read(&mut c, &h) {
                Ok(ReadStatus::Success(r)) => {
                    chk!(r.same(&p) & (c.position() == n as u64), "seekable read gives another payload")
                }
                _ => chk!(false, "seekable read refuses a written payload"),
            }
        }
        _ => chk!(false, "seekable read refuses a written payload header"),
    }
    let mut s = Buf::new(v.clone());
    match <PayloadHeader as TryReadFromBuffered>::try_read(&mut s) {
        Ok(ReadStatus::Success(h)) => {
            chk!(s.pos == 0, "buffered payload header read is documented to leave the source alone");
            s.pos = head;
            match <Payload as TryExtractPayloadFromBuffered<Payload>>::try_read(&mut s, &h) {
                Ok(ReadStatus::Success(r)) => chk!(r.same(&p) & (s.pos == n), "buffered read gives another payload"),
                _ => chk!(false, "buffered read refuses a written payload"),
            }
        }
        _ => chk!(false, "buffered read refuses a written payload header"),
    }
}

fn byte_block(k: usize) -> ByteBlock {
    match k {
        0 => ByteBlock::Len4(any()),
        1 => ByteBlock::Len8(any()),
        2 => ByteBlock::Len16(any()),
        3 => ByteBlock::Len32(any()),
        4 => ByteBlock::Len64(any()),
        _ => ByteBlock::Len128(any()),
    }
}
/// Headers with every signature and checksum width survive writing and reading.
pub fn h_payload_header_rt() {
    let sig = byte_block(pick(6));
    let crc = byte_block(pick(6));
    let (s, c) = (sig.as_slice().to_vec(), crc.as_slice().to_vec());
    let len: u32 = any();
    let h = PayloadHeader { sig, crc, len };
    let mut want = vec![s.len() as u8];
    want.extend_from_slice(&s);
    want.push(c.len() as u8);
    want.extend_from_slice(&c);
    want.extend_from_slice(&len.to_le_bytes());
    let mut v = h.as_vec();
    chk!(same_bytes(&v, &want), "payload header differs from the specified layout");
    chk!(h.size() == v.len(), "payload header announces another size");
    let n = v.len();
    v.push(any());
    let same = |r: &PayloadHeader| same_bytes(r.sig.as_slice(), &s) & same_bytes(r.crc.as_slice(), &c) & (r.len == len);
    let mut src = Src::new(v.clone(), vec![]);
    match <PayloadHeader as ReadFrom>::read(&mut src) {
        Ok(r) => chk!(same(&r) & (src.pos == n), "stream read gives another payload header"),
        Err(_) => chk!(false, "stream read refuses a payload header"),
    }
    let mut src = Cursor::new(v.clone());
    match <PayloadHeader as TryReadFrom>::try_read(&mut src) {
        Ok(ReadStatus::Success(r)) => {
            chk!(same(&r) & (src.position() == n as u64), "seekable read gives another payload header")
        }
        _ => chk!(false, "seekable read refuses a payload header"),
    }
    let mut src = Buf::new(v);
    match <PayloadHeader as TryReadFromBuffered>::try_read(&mut src) {
        Ok(ReadStatus::Success(r)) => chk!(same(&r), "buffered read gives another payload header"),
        _ => chk!(false, "buffered read refuses a payload header"),
    }
    cover(1);
}
