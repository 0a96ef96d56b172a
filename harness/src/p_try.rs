//! The contract of the try-readers, total behaviour on any bytes, detection of damage.
use crate::io::*;
use crate::proto::*;
use crate::rt::*;
use crate::{spec, wr};
use brec::prelude::*;
use std::io::Cursor;

/// What a reader made of the bytes.
pub enum Out<T> {
    Done(T),
    More(u64),
    Bad,
}
pub fn seek_read<T: TryReadFrom>(c: &mut Cursor<Vec<u8>>) -> Out<T> {
    match <T as TryReadFrom>::try_read(c) {
        Ok(ReadStatus::Success(v)) => Out::Done(v),
        Ok(ReadStatus::NotEnoughData(n)) => Out::More(n),
        Err(_) => Out::Bad,
    }
}
pub fn buf_read<T: TryReadFromBuffered>(c: &mut Buf) -> Out<T> {
    match <T as TryReadFromBuffered>::try_read(c) {
        Ok(ReadStatus::Success(v)) => Out::Done(v),
        Ok(ReadStatus::NotEnoughData(n)) => Out::More(n),
        Err(_) => Out::Bad,
    }
}

/// `whole` is a valid encoding at offset `pre`; only its first `k` bytes have arrived.
fn part_seek<T: TryReadFrom>(whole: &[u8], same: impl Fn(&T) -> bool) {
    let n = whole.len();
    let pre = [0usize, 3][pick(2)];
    let k = pick(n);
    let mut v = vec![0x11u8; pre];
    v.extend_from_slice(&whole[..k]);
    let mut c = Cursor::new(v);
    c.set_position(pre as u64);
    match seek_read::<T>(&mut c) {
        Out::More(m) => {
            chk!(c.position() == pre as u64, "position moved although data is missing");
            chk!(m > 0, "asks for nothing although data is missing");
            chk!(m <= (n - k) as u64, "asks for more than is missing");
            cover(1);
        }
        Out::Done(_) => chk!(false, "success on a part"),
        Out::Bad => chk!(false, "error on a part of a valid structure"),
    }
    // the rest arrives
    c.get_mut().extend_from_slice(&whole[k..]);
    match seek_read::<T>(&mut c) {
        Out::Done(r) => {
            chk!(same(&r), "another value after the rest has arrived");
            chk!(c.position() == (pre + n) as u64, "position is not right after the structure");
        }
        _ => chk!(false, "no value after the rest has arrived"),
    }
}
fn part_buf<T: TryReadFromBuffered>(whole: &[u8], same: impl Fn(&T) -> bool, consumes: bool) {
    let n = whole.len();
    let k = pick(n);
    let mut c = Buf::new(whole[..k].to_vec());
    match buf_read::<T>(&mut c) {
        Out::More(m) => {
            chk!(c.pos == 0, "data consumed although data is missing");
            chk!(m > 0, "asks for nothing although data is missing");
            chk!(m <= (n - k) as u64, "asks for more than is missing");
            cover(1);
        }
        Out::Done(_) => chk!(false, "success on a part"),
        Out::Bad => {
            chk!(k >= 4, "error on less than a signature of a valid structure");
            chk!(false, "error on a part of a valid structure, its signature in view")
        }
    }
    c.data.extend_from_slice(&whole[k..]);
    match buf_read::<T>(&mut c) {
        Out::Done(r) => {
            chk!(same(&r), "another value after the rest has arrived");
            chk!(c.pos == if consumes { n } else { 0 }, "not exactly the structure is consumed");
        }
        _ => chk!(false, "no value after the rest has arrived"),
    }
}
pub fn h_part_block_seek() {
    let b = any_block();
    part_seek::<Block>(&wr::block_bytes(&b), |r| r.same(&b));
}
pub fn h_part_block_buf() {
    let b = any_block();
    part_buf::<Block>(&wr::block_bytes(&b), |r| r.same(&b), true);
}
/// The block types themselves (not through the sum type).
pub fn h_part_own_seek() {
    match pick(3) {
        0 => {
            let b: Blob = any();
            part_seek::<Blob>(&wr::block_bytes(&Block::Blob(b.clone())), |r| r.same(&b));
        }
        1 => {
            let b: Link = any();
            part_seek::<Link>(&wr::block_bytes(&Block::Link(b.clone())), |r| r.same(&b));
        }
        _ => {
            let b: Bare = any();
            part_seek::<Bare>(&wr::block_bytes(&Block::Bare(b.clone())), |r| r.same(&b));
        }
    }
}
pub fn h_part_own_buf() {
    match pick(3) {
        0 => {
            let b: Blob = any();
            part_buf::<Blob>(&wr::block_bytes(&Block::Blob(b.clone())), |r| r.same(&b), true);
        }
        1 => {
            let b: Link = any();
            part_buf::<Link>(&wr::block_bytes(&Block::Link(b.clone())), |r| r.same(&b), true);
        }
        _ => {
            let b: Bare = any();
            part_buf::<Bare>(&wr::block_bytes(&Block::Bare(b.clone())), |r| r.same(&b), true);
        }
    }
}
fn packets(k: usize) -> Packet {
    match k {
        0 => Packet::new(vec![], None),
        1 => Packet::new(vec![Block::Tiny(any())], None),
        2 => Packet::new(vec![], Some(Payload::Bytes(any_vec(2)))),
        3 => Packet::new(vec![Block::Link(any()), Block::Tiny(any())], Some(Payload::Wide(Wide { v: any() }))),
        _ => Packet::new(vec![Block::Blob(any())], Some(Payload::Rec(Rec { id: any(), data: any_vec(1) }))),
    }
}
pub fn h_part_packet_seek() {
    let p = packets(pick(5));
    part_seek::<Packet>(&wr::packet_bytes(&p), |r| r.same(&p));
}
pub fn h_part_packet_buf() {
    let p = packets(pick(5));
    part_buf::<Packet>(&wr::packet_bytes(&p), |r| r.same(&p), true);
}
pub fn h_part_header_seek() {
    let (size, blocks, flag): (u64, u64, bool) = (any(), any(), any());
    let same = |h: &PacketHeader| (h.size == size) & (h.blocks_len == blocks) & (h.payload == flag);
    part_seek::<PacketHeader>(&wr::header_bytes(size, blocks, flag), same);
}
pub fn h_part_header_buf() {
    let (size, blocks, flag): (u64, u64, bool) = (any(), any(), any());
    let same = |h: &PacketHeader| (h.size == size) & (h.blocks_len == blocks) & (h.payload == flag);
    part_buf::<PacketHeader>(&wr::header_bytes(size, blocks, flag), same, true);
}
/// Payload headers and the payloads after them.
pub fn h_part_payload_header() {
    let p = payload_of(pick(3));
    let whole = wr::payload_bytes(&p);
    let h = whole.len() - PayloadSize::size(&p).unwrap_or(0) as usize;
    let sig = p.sig();
    if pick(2) == 0 {
        part_seek::<PayloadHeader>(&whole[..h], |r| r.sig == sig);
    } else {
        part_buf::<PayloadHeader>(&whole[..h], |r| r.sig == sig, false);
    }
}
pub fn h_part_payload_body() {
    let p = payload_of(pick(5));
    let whole = wr::payload_bytes(&p);
    let n = PayloadSize::size(&p).unwrap_or(0) as usize;
    let h = whole.len() - n;
    let mut s = Src::new(whole[..h].to_vec(), vec![]);
    let Ok(head) = <PayloadHeader as ReadFrom>::read(&mut s) else {
        chk!(false, "no payload header");
        return;
    };
    let body = &whole[h..];
    let k = pick(n);
    let mut c = Cursor::new(body[..k].to_vec());
    match <Payload as TryExtractPayloadFrom<Payload>>::try_read(&mut c, &head) {
        Ok(ReadStatus::NotEnoughData(m)) => {
            chk!(c.position() == 0, "position moved although data is missing");
            chk!((m > 0) & (m <= (n - k) as u64), "asks for another amount than is missing");
        }
        _ => chk!(false, "no report of missing data"),
    }
    c.get_mut().extend_from_slice(&body[k..]);
    match <Payload as TryExtractPayloadFrom<Payload>>::try_read(&mut c, &head) {
        Ok(ReadStatus::Success(r)) => chk!(r.same(&p) & (c.position() == n as u64), "another payload"),
        _ => chk!(false, "no payload after the rest has arrived"),
    }
    cover(1);
}
/// A block only partly in view of the buffer is read through to its end when the rest is behind.
pub fn h_window_block() {
    let b = any_block();
    let whole = wr::block_bytes(&b);
    let n = whole.len();
    let w = 4 + pick(n - 3);
    let mut v = whole;
    let tail: u8 = any();
    v.push(tail);
    let mut s = Buf::windowed(v, w);
    match buf_read::<Block>(&mut s) {
        Out::Done(r) => {
            chk!(r.same(&b), "another block through a small window");
            chk!(s.pos == n, "not exactly the block is consumed");
            cover(1);
        }
        _ => chk!(false, "no block through a small window"),
    }
}

// ------------------------------------------------------------------ any bytes

/// Bytes of any value behind a signature of a declared block (or any signature).
fn block_like() -> (Vec<u8>, bool) {
    let kind = pick(8);
    let mut v = match kind {
        0 => wr::block_bytes(&Block::Tiny(Tiny { v: 0 })),
        1 => wr::block_bytes(&Block::Uns(Uns { a: 0, b: 0, c: 0, d: 0, e: 0 })),
        2 => wr::block_bytes(&Block::Sig(Sig { a: 0, b: 0, c: 0, d: 0, e: 0 })),
        3 => wr::block_bytes(&Block::Flt(Flt { a: 0.0, b: false, c: 0.0, d: false })),
        4 => wr::block_bytes(&Block::Blob(Blob { head: [0; 2], n: 0, mid: [0; 3], mid2: [0; 1], w: false, last: [0; 4] })),
        5 => wr::block_bytes(&Block::Link(Link { v: 0, k: Kind::Zero, b: [0; 1], l: Kind::Zero, z: 0 })),
        6 => wr::block_bytes(&Block::Bare(Bare { v: 0, b: [0; 2] })),
        _ => any_vec(12),
    };
    let n = v.len();
    let fresh = any_vec(n - 4);
    v[4..].copy_from_slice(&fresh);
    (v, kind < 7)
}
/// The position moves by exactly the block on success and not at all otherwise; the stream, slice,
/// seekable and buffered readers agree.
pub fn h_any_block() {
    let (mut v, whole) = block_like();
    let cut = [0, 1, 4][pick(3)];
    v.truncate(v.len() - cut);
    let n = v.len();
    let mut c = Cursor::new(v.clone());
    let a = seek_read::<Block>(&mut c);
    let pa = c.position() as usize;
    let mut s = Buf::new(v.clone());
    let b = buf_read::<Block>(&mut s);
    let mut src = Src::new(v.clone(), vec![]);
    let r = <Block as ReadFrom>::read(&mut src);
    let leak: &'static [u8] = Vec::leak(v);
    let sl = <BlockReferred as ReadBlockFromSlice>::read_from_slice(leak, false);
    match (a, b) {
        (Out::Done(x), Out::Done(y)) => {
            chk!(pa == x.size() as usize, "seekable read moves by another length");
            chk!(s.pos == x.size() as usize, "buffered read moves by another length");
            chk!((pa <= n) && x.same(&y), "seekable and buffered read disagree");
            match (r, sl) {
                (Ok(r), Ok(sl)) => {
                    chk!(src.pos == pa, "stream read moves by another length");
                    let sl: Block = sl.into();
                    chk!(x.same(&r) & x.same(&sl), "readers give different blocks");
                }
                _ => chk!(false, "some readers refuse what others accept"),
            }
            cover(1);
        }
        (Out::Done(_), _) | (_, Out::Done(_)) => chk!(false, "seekable and buffered read disagree"),
        (_, _) => {
            chk!(pa == 0, "position moved although nothing has been read");
            // (a block only partly in view: see h_part_own_buf)
            chk!(s.pos == 0 || cut > 0 || !whole, "data consumed although nothing has been read");
            chk!(r.is_err() && sl.is_err(), "some readers accept what others refuse");
            cover(2);
        }
    }
}
/// Slices of any content and any length, read as one kind of block, with and without its signature:
/// a result in all cases, and the same as the stream reader's.
pub fn h_any_slice() {
    fn go<T, R>(b: &T, mk: impl Fn(R) -> T)
    where
        T: WriteTo + ReadBlockFrom + Same,
        R: ReadBlockFromSlice + 'static,
    {
        let skip = pick(2) == 1;
        let whole = crate::p_block::written(b);
        let mut v = if skip { any_vec(whole.len() - 4) } else { whole };
        if !skip {
            let fresh = any_vec(v.len() - 4);
            v[4..].copy_from_slice(&fresh);
        }
        let n = v.len();
        let k = pick(n + 2);
        v.resize(k, 0);
        let mut s = Src::new(v.clone(), vec![]);
        let a = <T as ReadBlockFrom>::read(&mut s, skip);
        let leak: &'static [u8] = Vec::leak(v);
        match (a, R::read_from_slice(leak, skip)) {
            (Ok(a), Ok(r)) => {
                chk!((k >= n) && (s.pos == n) && mk(r).same(&a), "slice and stream give different blocks");
                cover(1);
            }
            (Err(_), Err(_)) => cover(2),
            _ => chk!(false, "slice and stream disagree about a block"),
        }
    }
    match pick(7) {
        0 => go::<Tiny, TinyReferred<'static>>(&any(), |r| r.into()),
        1 => go::<Uns, UnsReferred<'static>>(&any(), |r| r.into()),
        2 => go::<Sig, SigReferred<'static>>(&any(), |r| r.into()),
        3 => go::<Flt, FltReferred<'static>>(&any(), |r| r.into()),
        4 => go::<Blob, BlobReferred<'static>>(&any(), |r| r.into()),
        5 => go::<Link, LinkReferred<'static>>(&any(), |r| r.into()),
        _ => go::<Bare, BareReferred<'static>>(&any(), |r| r.into()),
    }
}
/// Payload headers of any bytes.
pub fn h_any_payload_header() {
    let mut v = any_vec(6 + 4 + 4 + 2);
    match pick(3) {
        0 => v[0] = 4,
        1 => {
            v[0] = 4;
            v[5] = 4;
        }
        _ => {}
    }
    let k = [0, 1, 5, 6, 10, 13, 14, 16][pick(8)];
    v.truncate(k);
    let mut c = Cursor::new(v.clone());
    let a = seek_read::<PayloadHeader>(&mut c);
    let mut s = Buf::new(v.clone());
    let b = buf_read::<PayloadHeader>(&mut s);
    let mut src = Src::new(v, vec![]);
    let r = <PayloadHeader as ReadFrom>::read(&mut src);
    chk!(s.pos == 0, "buffered payload header read moves");
    match (a, b) {
        (Out::Done(x), Out::Done(y)) => {
            chk!(c.position() as usize == x.size(), "moves by another length");
            chk!((x.len == y.len) & (x.size() == y.size()), "seekable and buffered read disagree");
            match r {
                Ok(r) => chk!((r.len == x.len) & (src.pos == x.size()), "stream read disagrees"),
                Err(_) => chk!(false, "stream read refuses what others accept"),
            }
            cover(1);
        }
        (Out::Done(_), _) | (_, Out::Done(_)) => chk!(false, "seekable and buffered read disagree"),
        (_, _) => {
            chk!(c.position() == 0, "position moved although nothing has been read");
            chk!(r.is_err(), "stream read accepts what others refuse");
            cover(2);
        }
    }
}
/// Payload bodies of any bytes behind any header that announces a declared payload.
pub fn h_any_payload_body() {
    let p = payload_of([0, 1, 2, 3, 4][pick(5)]);
    let k = [0usize, 1, 4, 8, 13][pick(5)];
    assume(k <= 4 || !matches!(p, Payload::String(_)));
    let mode = pick(4);
    let len = match mode {
        0 => k as u32,
        1 => 0,
        2 => k as u32 + 1,
        _ => {
            // any length, for the raw payload
            assume(k == 4 && matches!(p, Payload::Bytes(_)));
            any()
        }
    };
    let crc = match if mode == 3 { 0 } else { pick(3) } {
        0 => ByteBlock::Len4(any()),
        1 => ByteBlock::Len8(any()),
        _ => ByteBlock::Len16(any()),
    };
    let head = PayloadHeader { sig: p.sig(), crc, len };
    let body = any_vec(k);
    let mut c = Cursor::new(body.clone());
    let a = <Payload as TryExtractPayloadFrom<Payload>>::try_read(&mut c, &head);
    let mut s = Buf::new(body.clone());
    let b = <Payload as TryExtractPayloadFromBuffered<Payload>>::try_read(&mut s, &head);
    let mut src = Src::new(body, vec![]);
    let r = <Payload as ExtractPayloadFrom<Payload>>::read(&mut src, &head);
    match (a, b) {
        (Ok(ReadStatus::Success(x)), Ok(ReadStatus::Success(y))) => {
            chk!(x.same(&y), "seekable and buffered read disagree");
            chk!((c.position() == len as u64) & (s.pos as u64 == len as u64), "moves by another length");
            match r {
                Ok(r) => chk!(r.same(&x) & (src.pos as u64 == len as u64), "stream read disagrees"),
                Err(_) => chk!(false, "stream read refuses what others accept"),
            }
            cover(1);
        }
        (Ok(ReadStatus::Success(_)), _) | (_, Ok(ReadStatus::Success(_))) => {
            chk!(false, "seekable and buffered read disagree")
        }
        _ => {
            // the buffered reader of a payload is told its data to be there: no claim on its position
            chk!(c.position() == 0, "position moved although nothing has been read");
            chk!(r.is_err(), "stream read accepts what others refuse");
            cover(2);
        }
    }
}

/// A packet header with a valid checksum and any sizes, then a body: every reader ends, without
/// panic and without touching more than there is; on anything but success the source stays.
pub fn h_any_packet() {
    let flag = pick(2) == 1;
    let kind = pick(5);
    let reader = pick(5);
    let size: u64 = any();
    let blocks_len: u64 = any();
    let mut v = wr::header_bytes(size, blocks_len, flag);
    body_of(&mut v, kind);
    let n = v.len();
    match reader {
        0 => {
            let mut c = Cursor::new(v);
            match seek_read::<Packet>(&mut c) {
                Out::Done(_) => chk!(c.position() <= n as u64, "reads beyond the source"),
                _ => chk!(c.position() == 0, "position moved although nothing has been read"),
            }
        }
        1 => {
            let mut s = Buf::new(v);
            match buf_read::<Packet>(&mut s) {
                Out::Done(_) => {}
                _ => chk!(s.pos == 0, "data consumed although nothing has been read"),
            }
        }
        2 => {
            let mut src = Src::new(v, vec![]);
            let r = <Packet as ReadFrom>::read(&mut src);
            log(r.is_ok() as u64);
        }
        3 => {
            let rules = Rules::default();
            let mut c = Cursor::new(v);
            match Packet::filtered(&mut c, &rules) {
                Ok(LookInStatus::Denied(_)) => chk!(false, "denied without rules"),
                _ => {}
            }
        }
        _ => {
            let mut src = Src::new(v, vec![]);
            let mut rd: PacketBufReader<_> = PacketBufReader::new(&mut src);
            let mut end = false;
            for _ in 0..n + 4 {
                if let Ok(NextPacket::NoData) = rd.read() {
                    end = true;
                    break;
                }
            }
            chk!(end, "the stream reader does not come to the end of the source");
        }
    }
    cover(1);
}
fn body(v: &mut Vec<u8>) {
    let kind = pick(5);
    body_of(v, kind)
}
fn body_of(v: &mut Vec<u8>, kind: usize) {
    match kind {
        0 => {}
        1 => v.extend_from_slice(&any_vec(10)),
        2 => {
            v.extend_from_slice(&wr::block_bytes(&Block::Tiny(any())));
            v.extend_from_slice(&any_vec(6));
        }
        3 => v.extend_from_slice(&wr::payload_bytes(&Payload::Bytes(any_vec(1)))),
        _ => {
            v.extend_from_slice(&wr::block_bytes(&Block::Tiny(any())));
            v.extend_from_slice(&wr::block_bytes(&Block::Bare(any())));
            v.extend_from_slice(&wr::payload_bytes(&Payload::Bytes(any_vec(1))));
        }
    }
}
/// Headers that fit their body: all readers give the same answer.
pub fn h_agree_packet() {
    let flag = pick(2) == 1;
    let mut b = Vec::new();
    body(&mut b);
    let k = b.len();
    let blocks_len = pick(k + 2) as u64;
    let mut v = wr::header_bytes(k as u64, blocks_len, flag);
    v.extend_from_slice(&b);
    let n = v.len();
    let mut src = Src::new(v.clone(), vec![]);
    let r = <Packet as ReadFrom>::read(&mut src).ok();
    let mut c = Cursor::new(v.clone());
    let a = match seek_read::<Packet>(&mut c) {
        Out::Done(p) => Some(p),
        _ => None,
    };
    let mut s = Buf::new(v.clone());
    let u = match buf_read::<Packet>(&mut s) {
        Out::Done(p) => Some(p),
        _ => None,
    };
    let rules = Rules::default();
    let mut c = Cursor::new(v.clone());
    let f = match Packet::filtered(&mut c, &rules) {
        Ok(LookInStatus::Accepted(_, p)) => Some(p),
        _ => None,
    };
    let mut src = Src::new(v, vec![]);
    let mut rd: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let t = match rd.read() {
        Ok(NextPacket::Found(p)) => Some(p),
        _ => None,
    };
    match r {
        Some(r) => {
            for o in [a, u, f, t] {
                match o {
                    Some(o) => chk!(o.same(&r), "readers give different packets"),
                    None => chk!(false, "one reader refuses what another one accepts"),
                }
            }
            cover(1);
        }
        None => {
            chk!(a.is_none() && u.is_none() && f.is_none() && t.is_none(), "one reader accepts what another one refuses");
            cover(2);
        }
    }
    log(n as u64);
}

// ------------------------------------------------------------------ damage

/// Any burst of up to four bytes at a picked position of `from..to`.
fn burst(v: &mut [u8], from: usize, to: usize) {
    let w = (to - from).min(4);
    let at = from + pick(to - from - w + 1);
    let mask = any_vec(w);
    let mut set = false;
    for i in 0..w {
        set |= mask[i] != 0;
        v[at + i] ^= mask[i];
    }
    assume(set);
}
fn same_or_none<T: Same>(r: Option<T>, b: &T) {
    match r {
        Some(r) => {
            chk!(r.same(b), "damaged data is accepted with other content");
            cover(2);
        }
        None => cover(1),
    }
}
fn damaged_block<T, R>(b: &T, whole: Vec<u8>, mk: impl Fn(R) -> T)
where
    T: ReadBlockFrom + TryReadFrom + TryReadFromBuffered + Same,
    R: ReadBlockFromSlice + 'static,
{
    let mut v = whole;
    let n = v.len();
    burst(&mut v, 0, n);
    let mut s = Src::new(v.clone(), vec![]);
    same_or_none(<T as ReadBlockFrom>::read(&mut s, false).ok(), b);
    let mut c = Cursor::new(v.clone());
    same_or_none(match seek_read::<T>(&mut c) { Out::Done(x) => Some(x), _ => None }, b);
    let mut s = Buf::new(v.clone());
    same_or_none(match buf_read::<T>(&mut s) { Out::Done(x) => Some(x), _ => None }, b);
    let leak: &'static [u8] = Vec::leak(v);
    same_or_none(R::read_from_slice(leak, false).ok().map(mk), b);
}
pub fn h_damage_block() {
    match pick(6) {
        0 => {
            let b: Tiny = any();
            damaged_block::<Tiny, TinyReferred<'static>>(&b, wr::block_bytes(&Block::Tiny(b.clone())), |r| r.into())
        }
        1 => {
            let b: Uns = any();
            damaged_block::<Uns, UnsReferred<'static>>(&b, wr::block_bytes(&Block::Uns(b.clone())), |r| r.into())
        }
        2 => {
            let b: Sig = any();
            damaged_block::<Sig, SigReferred<'static>>(&b, wr::block_bytes(&Block::Sig(b.clone())), |r| r.into())
        }
        3 => {
            let b: Flt = any();
            damaged_block::<Flt, FltReferred<'static>>(&b, wr::block_bytes(&Block::Flt(b.clone())), |r| r.into())
        }
        4 => {
            let b: Blob = any();
            damaged_block::<Blob, BlobReferred<'static>>(&b, wr::block_bytes(&Block::Blob(b.clone())), |r| r.into())
        }
        _ => {
            let b: Link = any();
            damaged_block::<Link, LinkReferred<'static>>(&b, wr::block_bytes(&Block::Link(b.clone())), |r| r.into())
        }
    }
}
/// Damage in the header, the blocks, or the payload's checksum and body.
pub fn h_damage_packet() {
    let p = match pick(4) {
        0 => Packet::new(vec![Block::Tiny(any())], None),
        1 => Packet::new(vec![], Some(Payload::Bytes(any_vec(3)))),
        2 => Packet::new(vec![Block::Tiny(any()), Block::Blob(any())], Some(Payload::String(any_text(4)))),
        _ => Packet::new(vec![], Some(Payload::Rec(Rec { id: any(), data: any_vec(5) }))),
    };
    let mut v = wr::packet_bytes(&p);
    let blocks: usize = p.blocks.iter().map(|b| wr::block_bytes(b).len()).sum();
    let body = p.payload.as_ref().map(|b| PayloadSize::size(b).unwrap_or(0)).unwrap_or(0) as usize;
    let n = v.len();
    match pick(4) {
        0 => burst(&mut v, 0, spec::HEADER),
        1 => {
            assume(blocks > 0);
            // per block: its fields and checksum
            let mut at = spec::HEADER;
            let which = pick(p.blocks.len());
            for b in &p.blocks[..which] {
                at += wr::block_bytes(b).len();
            }
            let end = at + wr::block_bytes(&p.blocks[which]).len();
            burst(&mut v, at + 4, end);
        }
        2 => {
            assume(p.payload.is_some());
            let h = spec::HEADER + blocks;
            match pick(3) {
                0 => burst(&mut v, h + 6, h + 10), // checksum of the payload
                1 => burst(&mut v, h, h + 1),      // length of its signature
                _ => burst(&mut v, h + 5, h + 6),  // length of its checksum
            }
        }
        _ => {
            assume(body > 0);
            // the length prefixes an encoder puts into a payload are outside the claim: brec takes
            // the checksum of what has been decoded (documented)
            match &p.payload {
                Some(Payload::Rec(_)) if pick(2) == 0 => burst(&mut v, n - body, n - body + 4),
                Some(Payload::Rec(r)) => burst(&mut v, n - r.data.len(), n),
                _ => burst(&mut v, n - body, n),
            }
        }
    }
    let mut s = Src::new(v.clone(), vec![]);
    same_or_none(<Packet as ReadFrom>::read(&mut s).ok(), &p);
    let mut c = Cursor::new(v.clone());
    same_or_none(match seek_read::<Packet>(&mut c) { Out::Done(x) => Some(x), _ => None }, &p);
    let mut s = Buf::new(v.clone());
    same_or_none(match buf_read::<Packet>(&mut s) { Out::Done(x) => Some(x), _ => None }, &p);
    let rules = Rules::default();
    let mut c = Cursor::new(v.clone());
    same_or_none(match Packet::filtered(&mut c, &rules) { Ok(LookInStatus::Accepted(_, x)) => Some(x), _ => None }, &p);
    let mut src = Src::new(v, vec![]);
    let mut rd: PacketBufReader<_> = PacketBufReader::new(&mut src);
    same_or_none(match rd.read() { Ok(NextPacket::Found(x)) => Some(x), _ => None }, &p);
}
