//! The protocol the harnesses use: one block per field kind the macro supports (blobs first, last,
//! adjacent and between scalars; linked enums; a block without checksum; the smallest block), the
//! two built-in payloads, a hand-written payload with wide signature and checksum, a bincode one
//! and one without checksum.
use crate::rt::*;
use brec::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Zero,
    Three,
    Max,
}
impl TryFrom<u8> for Kind {
    type Error = String;
    fn try_from(v: u8) -> Result<Self, String> {
        match v {
            0 => Ok(Kind::Zero),
            3 => Ok(Kind::Three),
            255 => Ok(Kind::Max),
            _ => Err(String::new()),
        }
    }
}
impl From<&Kind> for u8 {
    fn from(k: &Kind) -> u8 {
        match k {
            Kind::Zero => 0,
            Kind::Three => 3,
            Kind::Max => 255,
        }
    }
}
impl Any for Kind {
    fn any() -> Self {
        match below(3) {
            0 => Kind::Zero,
            1 => Kind::Three,
            _ => Kind::Max,
        }
    }
}

#[block]
#[derive(Clone, Debug, PartialEq)]
pub struct Tiny {
    pub v: u8,
}
#[block]
#[derive(Clone, Debug, PartialEq)]
pub struct Uns {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: u128,
}
#[block]
#[derive(Clone, Debug, PartialEq)]
pub struct Sig {
    pub a: i8,
    pub b: i16,
    pub c: i32,
    pub d: i64,
    pub e: i128,
}
#[block]
#[derive(Clone, Debug)]
pub struct Flt {
    pub a: f32,
    pub b: bool,
    pub c: f64,
    pub d: bool,
}
#[block]
#[derive(Clone, Debug, PartialEq)]
pub struct Blob {
    pub head: [u8; 2],
    pub n: u16,
    pub mid: [u8; 3],
    pub mid2: [u8; 1],
    pub w: bool,
    pub last: [u8; 4],
}
#[block]
#[derive(Clone, Debug, PartialEq)]
pub struct Link {
    pub v: u8,
    pub k: Kind,
    pub b: [u8; 1],
    pub l: Kind,
    pub z: i16,
}
#[block(no_crc)]
#[derive(Clone, Debug, PartialEq)]
pub struct Bare {
    pub v: u16,
    pub b: [u8; 2],
}

/// Longer than a byte can count.
#[block]
#[derive(Clone, Debug, PartialEq)]
pub struct Long {
    pub head: [u8; 300],
    pub n: u16,
    pub tail: [u8; 7],
}

/// Hand-written payload: 8-byte signature, 8-byte checksum, encoded on demand.
#[payload(no_default_sig, no_auto_crc)]
#[derive(Clone, Debug, PartialEq)]
pub struct Wide {
    pub v: u32,
}
pub const WIDE_SIG: [u8; 8] = *b"WIDE\x01\x02\x03\x04";
impl PayloadSignature for Wide {
    fn sig(&self) -> ByteBlock {
        ByteBlock::Len8(WIDE_SIG)
    }
}
impl StaticPayloadSignature for Wide {
    fn ssig() -> ByteBlock {
        ByteBlock::Len8(WIDE_SIG)
    }
}
pub fn wide_crc(v: u32) -> [u8; 8] {
    let b = v.to_le_bytes();
    [b[0], b[1], b[2], b[3], !b[0], !b[1], !b[2], !b[3]]
}
impl PayloadCrc for Wide {
    fn crc(&self) -> std::io::Result<ByteBlock> {
        Ok(ByteBlock::Len8(wide_crc(self.v)))
    }
    fn crc_size() -> usize {
        8
    }
}
impl PayloadSize for Wide {
    fn size(&self) -> std::io::Result<u64> {
        Ok(4)
    }
}
impl PayloadEncode for Wide {
    fn encode(&self) -> std::io::Result<Vec<u8>> {
        Ok(self.v.to_le_bytes().to_vec())
    }
}
impl PayloadEncodeReferred for Wide {
    fn encode(&self) -> std::io::Result<Option<&[u8]>> {
        Ok(None)
    }
}
impl PayloadDecode<Wide> for Wide {
    fn decode(buf: &[u8]) -> std::io::Result<Wide> {
        let Ok(b) = <[u8; 4]>::try_from(buf) else {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidData));
        };
        Ok(Wide { v: u32::from_le_bytes(b) })
    }
}

#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
pub struct Rec {
    pub id: u32,
    pub data: Vec<u8>,
}

#[payload(bincode, no_crc)]
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
pub enum Loose {
    A(u16),
    B,
}

brec::generate!();

macro_rules! any_struct {
    ($t:ident { $($f:ident),* }) => {
        impl Any for $t { fn any() -> Self { $t { $($f: any()),* } } }
    };
}
any_struct!(Tiny { v });
any_struct!(Uns { a, b, c, d, e });
any_struct!(Sig { a, b, c, d, e });
any_struct!(Flt { a, b, c, d });
any_struct!(Blob { head, n, mid, mid2, w, last });
any_struct!(Link { v, k, b, l, z });
any_struct!(Bare { v, b });
any_struct!(Long { head, n, tail });

/// Field-wise equality without short circuits; floats by bit pattern.
pub trait Same {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! same_struct {
    ($t:ident { $($f:ident),* }) => {
        impl Same for $t { fn same(&self, o: &Self) -> bool { true $(& (self.$f == o.$f))* } }
    };
}
same_struct!(Tiny { v });
same_struct!(Uns { a, b, c, d, e });
same_struct!(Sig { a, b, c, d, e });
same_struct!(Blob { head, n, mid, mid2, w, last });
same_struct!(Link { v, b, z, k, l });
same_struct!(Bare { v, b });
same_struct!(Long { head, n, tail });
impl Same for Flt {
    fn same(&self, o: &Self) -> bool {
        (self.a.to_bits() == o.a.to_bits())
            & (self.b == o.b)
            & (self.c.to_bits() == o.c.to_bits())
            & (self.d == o.d)
    }
}
impl Same for Block {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Block::Tiny(a), Block::Tiny(b)) => a.same(b),
            (Block::Uns(a), Block::Uns(b)) => a.same(b),
            (Block::Sig(a), Block::Sig(b)) => a.same(b),
            (Block::Flt(a), Block::Flt(b)) => a.same(b),
            (Block::Blob(a), Block::Blob(b)) => a.same(b),
            (Block::Link(a), Block::Link(b)) => a.same(b),
            (Block::Bare(a), Block::Bare(b)) => a.same(b),
            (Block::Long(a), Block::Long(b)) => a.same(b),
            _ => false,
        }
    }
}
impl Same for Payload {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Payload::Bytes(a), Payload::Bytes(b)) => same_bytes(a, b),
            (Payload::String(a), Payload::String(b)) => same_bytes(a.as_bytes(), b.as_bytes()),
            (Payload::Wide(a), Payload::Wide(b)) => a.v == b.v,
            (Payload::Rec(a), Payload::Rec(b)) => (a.id == b.id) & same_bytes(&a.data, &b.data),
            (Payload::Loose(a), Payload::Loose(b)) => match (a, b) {
                (Loose::A(x), Loose::A(y)) => x == y,
                (Loose::B, Loose::B) => true,
                _ => false,
            },
            _ => false,
        }
    }
}
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}
impl Same for Packet {
    fn same(&self, o: &Self) -> bool {
        if self.blocks.len() != o.blocks.len() || self.payload.is_some() != o.payload.is_some() {
            return false;
        }
        let mut ok = true;
        for (a, b) in self.blocks.iter().zip(o.blocks.iter()) {
            ok &= a.same(b);
        }
        if let (Some(a), Some(b)) = (&self.payload, &o.payload) {
            ok &= a.same(b);
        }
        ok
    }
}

pub fn clone_payload(p: &Payload) -> Payload {
    match p {
        Payload::Bytes(v) => Payload::Bytes(v.clone()),
        Payload::String(v) => Payload::String(v.clone()),
        Payload::Wide(v) => Payload::Wide(v.clone()),
        Payload::Rec(v) => Payload::Rec(v.clone()),
        Payload::Loose(v) => Payload::Loose(v.clone()),
    }
}
pub fn clone_block(b: &Block) -> Block {
    match b {
        Block::Tiny(a) => Block::Tiny(a.clone()),
        Block::Uns(a) => Block::Uns(a.clone()),
        Block::Sig(a) => Block::Sig(a.clone()),
        Block::Flt(a) => Block::Flt(a.clone()),
        Block::Blob(a) => Block::Blob(a.clone()),
        Block::Link(a) => Block::Link(a.clone()),
        Block::Bare(a) => Block::Bare(a.clone()),
        Block::Long(a) => Block::Long(a.clone()),
    }
}
pub fn clone_packet(p: &Packet) -> Packet {
    Packet::new(p.blocks.iter().map(clone_block).collect(), p.payload.as_ref().map(clone_payload))
}

/// Any block of any declared type.
pub fn any_block() -> Block {
    match pick(7) {
        0 => Block::Tiny(any()),
        1 => Block::Uns(any()),
        2 => Block::Sig(any()),
        3 => Block::Flt(any()),
        4 => Block::Blob(any()),
        5 => Block::Link(any()),
        _ => Block::Bare(any()),
    }
}
/// A block of one of three types (smallest, with blobs, without checksum).
pub fn small_block() -> Block {
    match pick(3) {
        0 => Block::Tiny(any()),
        1 => Block::Blob(any()),
        _ => Block::Bare(any()),
    }
}
/// ASCII text of length `n`, or (n == 9) one two-byte and one three-byte character.
pub fn any_text(n: usize) -> String {
    if n == 9 {
        return "\u{e9}\u{20ac}".to_string();
    }
    let mut v = any_vec(n);
    for c in v.iter_mut() {
        *c &= 0x7f;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub const PAYLOADS: usize = 10;
/// A payload of every declared type and several lengths.
pub fn payload_of(k: usize) -> Payload {
    match k {
        0 => Payload::Bytes(any_vec(3)),
        1 => Payload::Wide(Wide { v: any() }),
        2 => Payload::String(any_text(2)),
        3 => Payload::Rec(Rec { id: any(), data: any_vec(2) }),
        4 => Payload::Loose(Loose::A(any())),
        5 => Payload::Bytes(any_vec(0)),
        6 => Payload::String(any_text(0)),
        7 => Payload::Loose(Loose::B),
        8 => Payload::String(any_text(9)),
        _ => Payload::Rec(Rec { id: any(), data: any_vec(0) }),
    }
}
pub fn write_packet(p: &mut Packet) -> Vec<u8> {
    let mut v = Vec::new();
    chk!(p.write_all(&mut v).is_ok(), "packet cannot be written");
    v
}
