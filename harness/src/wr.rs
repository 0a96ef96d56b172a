//! The bytes brec itself writes: what "a written structure" is in every property except the two
//! about layout, which compare them with `spec`.
use crate::proto::*;
use brec::prelude::*;

pub fn block_bytes(b: &Block) -> Vec<u8> {
    let mut v = Vec::new();
    chk!(b.write_all(&mut v).is_ok(), "a block cannot be written");
    v
}
pub fn payload_bytes(p: &Payload) -> Vec<u8> {
    let mut v = Vec::new();
    chk!(WriteMutTo::write_all(&mut clone_payload(p), &mut v).is_ok(), "a payload cannot be written");
    v
}
pub fn packet_bytes(p: &Packet) -> Vec<u8> {
    let mut v = Vec::new();
    chk!(clone_packet(p).write_all(&mut v).is_ok(), "a packet cannot be written");
    v
}
pub fn header_bytes(size: u64, blocks_len: u64, payload: bool) -> Vec<u8> {
    let mut h = PacketHeader { size, blocks_len, payload, crc: 0 };
    h.crc = u32::from_le_bytes(h.crc());
    let mut v = Vec::new();
    chk!(h.write_all(&mut v).is_ok(), "a packet header cannot be written");
    v
}
