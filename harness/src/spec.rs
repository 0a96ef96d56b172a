//! The wire format as README's protocol specification states it, written independently of brec.
use crate::proto::*;

/// CRC-32 (IEEE) through the crate brec itself uses; the harness never asks brec for a checksum.
pub fn crc(parts: &[u8]) -> [u8; 4] {
    let mut h = brec::crc32fast::Hasher::new();
    h.update(parts);
    h.finalize().to_le_bytes()
}
fn block(sig: [u8; 4], fields: Vec<u8>, with_crc: bool) -> Vec<u8> {
    let c = if with_crc { crc(&fields) } else { [0; 4] };
    let mut v = sig.to_vec();
    v.extend_from_slice(&fields);
    v.extend_from_slice(&c);
    v
}
macro_rules! cat {
    ($($e:expr),*) => {{ let mut v: Vec<u8> = Vec::new(); $( v.extend_from_slice(&$e); )* v }};
}
pub fn kind(k: Kind) -> [u8; 1] {
    [u8::from(&k)]
}
pub fn fields(b: &Block) -> Vec<u8> {
    match b {
        Block::Tiny(b) => cat![[b.v]],
        Block::Uns(b) => cat![
            [b.a],
            b.b.to_le_bytes(),
            b.c.to_le_bytes(),
            b.d.to_le_bytes(),
            b.e.to_le_bytes()
        ],
        Block::Sig(b) => cat![
            b.a.to_le_bytes(),
            b.b.to_le_bytes(),
            b.c.to_le_bytes(),
            b.d.to_le_bytes(),
            b.e.to_le_bytes()
        ],
        Block::Flt(b) => cat![
            b.a.to_bits().to_le_bytes(),
            [b.b as u8],
            b.c.to_bits().to_le_bytes(),
            [b.d as u8]
        ],
        Block::Blob(b) => cat![b.head, b.n.to_le_bytes(), b.mid, b.mid2, [b.w as u8], b.last],
        Block::Link(b) => cat![[b.v], kind(b.k), b.b, kind(b.l), b.z.to_le_bytes()],
        Block::Bare(b) => cat![b.v.to_le_bytes(), b.b],
        Block::Long(b) => cat![b.head, b.n.to_le_bytes(), b.tail],
    }
}
/// The signature is opaque to the specification: the one the type announces.
pub fn sig(b: &Block) -> [u8; 4] {
    use brec::SignatureU32;
    *match b {
        Block::Tiny(_) => TinyReferred::sig(),
        Block::Uns(_) => UnsReferred::sig(),
        Block::Sig(_) => SigReferred::sig(),
        Block::Flt(_) => FltReferred::sig(),
        Block::Blob(_) => BlobReferred::sig(),
        Block::Link(_) => LinkReferred::sig(),
        Block::Bare(_) => BareReferred::sig(),
        Block::Long(_) => LongReferred::sig(),
    }
}
pub fn block_bytes(b: &Block) -> Vec<u8> {
    block(sig(b), fields(b), !matches!(b, Block::Bare(_)))
}
pub fn payload_bytes(p: &Payload) -> Vec<u8> {
    let (sig, body): (Vec<u8>, Vec<u8>) = match p {
        Payload::Bytes(v) => (crc(b"Vec<u8>").to_vec(), v.clone()),
        Payload::String(v) => (crc(b"String").to_vec(), v.as_bytes().to_vec()),
        Payload::Wide(v) => (WIDE_SIG.to_vec(), v.v.to_le_bytes().to_vec()),
        Payload::Rec(v) => (
            own_sig::<Rec>(),
            cat![v.id.to_le_bytes(), (v.data.len() as u64).to_le_bytes(), v.data],
        ),
        Payload::Loose(v) => (
            own_sig::<Loose>(),
            match v {
                Loose::A(x) => cat![0u32.to_le_bytes(), x.to_le_bytes()],
                Loose::B => cat![1u32.to_le_bytes()],
            },
        ),
    };
    let crc: Vec<u8> = match p {
        Payload::Wide(v) => wide_crc(v.v).to_vec(),
        Payload::Loose(_) => vec![0; 4],
        _ => crc(&body).to_vec(),
    };
    cat![
        [sig.len() as u8],
        sig,
        [crc.len() as u8],
        crc,
        (body.len() as u32).to_le_bytes(),
        body
    ]
}
fn own_sig<T: brec::StaticPayloadSignature>() -> Vec<u8> {
    T::ssig().as_slice().to_vec()
}
pub const PACKET_SIG: [u8; 8] = [236, 37, 94, 136, 236, 37, 94, 136];
pub const HEADER: usize = 29;
pub fn header_bytes(size: u64, blocks_len: u64, payload: bool) -> Vec<u8> {
    let c = cat![size.to_le_bytes(), blocks_len.to_le_bytes(), [payload as u8]];
    cat![PACKET_SIG, c, crc(&c)]
}
pub fn packet_bytes(p: &Packet) -> Vec<u8> {
    let mut blocks: Vec<u8> = Vec::new();
    for b in &p.blocks {
        blocks.extend_from_slice(&block_bytes(b));
    }
    let payload = p.payload.as_ref().map(payload_bytes).unwrap_or_default();
    cat![
        header_bytes((blocks.len() + payload.len()) as u64, blocks.len() as u64, p.payload.is_some()),
        blocks,
        payload
    ]
}
pub const SLOT_SIG: [u8; 8] = [166, 177, 188, 199, 199, 188, 177, 166];
pub fn slot_bytes(lengths: &[u64]) -> Vec<u8> {
    let mut c: Vec<u8> = (lengths.len() as u64).to_le_bytes().to_vec();
    for l in lengths {
        c.extend_from_slice(&l.to_le_bytes());
    }
    cat![SLOT_SIG, c, crc(&c)]
}
