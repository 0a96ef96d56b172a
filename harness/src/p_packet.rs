//! Packets: layout, round trips through every reader of whole packets, partial writers.
use crate::io::*;
use crate::proto::*;
use crate::rt::*;
use crate::spec;
use brec::prelude::*;
use std::io::Cursor;

/// A packet: `kind` chooses the number of blocks (0..=3); the first may be of any type.
pub fn any_packet(blocks: usize, payload: usize) -> Packet {
    let mut b = Vec::new();
    for i in 0..blocks {
        b.push(if i == 0 { any_block() } else { small_block() });
    }
    let p = if payload < PAYLOADS { Some(payload_of(payload)) } else { None };
    Packet::new(b, p)
}

pub fn h_packet_layout() {
    let blocks = pick(3);
    let payload = pick(PAYLOADS + 1);
    let mut p = any_packet(blocks, payload);
    let want = spec::packet_bytes(&p);
    match PacketHeader::new(&p.blocks, p.payload.as_ref()) {
        Ok(h) => {
            chk!(h.size as usize == want.len() - spec::HEADER, "packet header announces another size");
            chk!(h.payload == p.payload.is_some(), "packet header announces another payload flag");
        }
        Err(_) => chk!(false, "no header for a packet"),
    }
    let v = write_packet(&mut p);
    chk!(same_bytes(&v, &want), "write_all differs from the specified layout");
    let mut v = Vec::new();
    let n = p.write(&mut v);
    chk!(matches!(n, Ok(n) if n == want.len()), "write returns another length");
    chk!(same_bytes(&v, &want), "write differs from the specified layout");
    let mut v = Vec::new();
    let n = p.write_vectored(&mut v);
    chk!(matches!(n, Ok(n) if n == want.len()), "write_vectored returns another length");
    chk!(same_bytes(&v, &want), "write_vectored differs from the specified layout");
    let mut v = Vec::new();
    chk!(p.write_vectored_all(&mut v).is_ok(), "write_vectored_all fails");
    chk!(same_bytes(&v, &want), "write_vectored_all differs from the specified layout");
    cover(1);
}

/// All readers of whole packets, on `v` = packet of `n` bytes and something after it.
pub fn read_back(v: &[u8], n: usize, p: &Packet) {
    let mut s = Src::new(v.to_vec(), vec![]);
    match <Packet as ReadFrom>::read(&mut s) {
        Ok(r) => chk!(r.same(p) & (s.pos == n), "stream read gives another packet"),
        Err(_) => chk!(false, "stream read refuses a written packet"),
    }
    let mut c = Cursor::new(v.to_vec());
    match <Packet as TryReadFrom>::try_read(&mut c) {
        Ok(ReadStatus::Success(r)) => {
            chk!(r.same(p) & (c.position() == n as u64), "seekable read gives another packet")
        }
        _ => chk!(false, "seekable read refuses a written packet"),
    }
    let mut s = Buf::new(v.to_vec());
    match <Packet as TryReadFromBuffered>::try_read(&mut s) {
        Ok(ReadStatus::Success(r)) => chk!(r.same(p) & (s.pos == n), "buffered read gives another packet"),
        _ => chk!(false, "buffered read refuses a written packet"),
    }
    let rules = Rules::default();
    let mut c = Cursor::new(v.to_vec());
    match Packet::filtered(&mut c, &rules) {
        Ok(LookInStatus::Accepted(size, r)) => {
            chk!(size == n - spec::HEADER, "filtered read announces another size");
            chk!(r.same(p) & (c.position() == n as u64), "filtered read gives another packet")
        }
        _ => chk!(false, "filtered read refuses a written packet"),
    }
}
/// Packets with any first block, up to two blocks, every payload.
pub fn h_packet_rt() {
    let blocks = pick(3);
    let payload = pick(PAYLOADS + 1);
    let mut p = any_packet(blocks, payload);
    let mut v = write_packet(&mut p);
    let n = v.len();
    v.extend_from_slice(&any::<[u8; 2]>());
    read_back(&v, n, &p);
    cover(1);
}
/// Packets with three blocks.
pub fn h_packet_rt3() {
    let payload = pick(3);
    let mut p = any_packet(3, [0, 3, PAYLOADS][payload]);
    let mut v = write_packet(&mut p);
    let n = v.len();
    v.extend_from_slice(&any::<[u8; 2]>());
    read_back(&v, n, &p);
    cover(1);
}
/// The stream reader gives back a packet whatever it carries.
pub fn h_packet_rt_stream() {
    let blocks = pick(3);
    let payload = pick(PAYLOADS + 1);
    let mut p = any_packet(blocks, payload);
    let v = write_packet(&mut p);
    let mut s = Src::new(v, vec![]);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut s);
    match r.read() {
        Ok(NextPacket::Found(q)) => chk!(q.same(&p), "stream reader gives another packet"),
        _ => chk!(false, "stream reader refuses a written packet"),
    }
    chk!(matches!(r.read(), Ok(NextPacket::NoData)), "stream reader does not end");
    cover(1);
}
/// Two packets one after the other in one source, read one by one.
pub fn h_packet_rt_seq() {
    let mut a = any_packet(pick(2), [0, 4, PAYLOADS][pick(3)]);
    let mut b = any_packet(pick(2), [2, PAYLOADS][pick(2)]);
    let mut v = write_packet(&mut a);
    let n = v.len();
    v.extend_from_slice(&write_packet(&mut b));
    read_back(&v, n, &a);
    let mut s = Src::new(v.clone(), vec![]);
    let _ = <Packet as ReadFrom>::read(&mut s);
    match <Packet as ReadFrom>::read(&mut s) {
        Ok(r) => chk!(r.same(&b) & (s.pos == v.len()), "second stream read gives another packet"),
        Err(_) => chk!(false, "second stream read refuses a written packet"),
    }
    cover(1);
}
