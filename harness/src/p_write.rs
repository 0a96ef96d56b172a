//! Writers that take only a part, fail, or take nothing; the limit of blocks; BufferedReader.
use crate::io::*;
use crate::proto::*;
use crate::rt::*;
use crate::spec;
use brec::prelude::*;
use std::io::{BufRead, Cursor, Read};

fn subject() -> Packet {
    match pick(3) {
        0 => Packet::new(vec![Block::Tiny(any())], None),
        1 => Packet::new(vec![Block::Blob(any())], Some(Payload::Bytes(any_vec(2)))),
        _ => Packet::new(vec![Block::Tiny(any()), Block::Bare(any())], Some(Payload::Wide(Wide { v: any() }))),
    }
}
fn sink(n: usize) -> Sink {
    let vectored = pick(2) == 1;
    let cuts = match pick(3) {
        0 => vec![1; n + 1],
        1 => {
            let a = pick(n) + 1;
            vec![a]
        }
        _ => {
            let c = [2, 3, 5, 7][pick(4)];
            vec![c; n + 1]
        }
    };
    Sink::new(cuts, vectored)
}
/// Whatever portions the writer takes, the whole encoding arrives.
pub fn h_write_parts() {
    let mut p = subject();
    let want = spec::packet_bytes(&p);
    let mut s = sink(want.len());
    let r = if pick(2) == 0 { p.write_all(&mut s) } else { p.write_vectored_all(&mut s) };
    chk!(r.is_ok(), "writing fails although the writer takes everything in parts");
    chk!(same_bytes(&s.data, &want), "another encoding arrives at a writer that takes parts");
    cover(1);
}
pub fn h_write_parts_block() {
    let b = any_block();
    let want = spec::block_bytes(&b);
    let mut s = sink(want.len());
    let r = if pick(2) == 0 { b.write_all(&mut s) } else { b.write_vectored_all(&mut s) };
    chk!(r.is_ok(), "writing fails although the writer takes everything in parts");
    chk!(same_bytes(&s.data, &want), "another encoding arrives at a writer that takes parts");
    cover(1);
}
pub fn h_write_parts_payload() {
    let mut b = payload_of(pick(5));
    let want = spec::payload_bytes(&b);
    let mut s = sink(want.len());
    let r = if pick(2) == 0 {
        WriteMutTo::write_all(&mut b, &mut s)
    } else {
        WriteVectoredMutTo::write_vectored_all(&mut b, &mut s)
    };
    chk!(r.is_ok(), "writing fails although the writer takes everything in parts");
    chk!(same_bytes(&s.data, &want), "another encoding arrives at a writer that takes parts");
    cover(1);
}
/// A writer that takes nothing or fails ends the writing with an error; what arrived is a prefix.
pub fn h_write_fails() {
    let mut p = subject();
    let want = spec::packet_bytes(&p);
    let n = want.len();
    let mut s = Sink::new(vec![[1, 4, 9][pick(3)]; n + 1], pick(2) == 1);
    let calls = n.div_ceil(s.cuts[0]);
    let at = pick(calls);
    if pick(2) == 0 {
        s.zero_at = Some(at);
    } else {
        s.fail_at = Some(at);
    }
    let r = if pick(2) == 0 { p.write_all(&mut s) } else { p.write_vectored_all(&mut s) };
    chk!(r.is_err(), "a failing writer is not reported");
    chk!(s.data.len() < n, "everything arrived at a writer that fails");
    chk!(same_bytes(&s.data, &want[..s.data.len()]), "what arrived is no prefix");
    cover(1);
}
/// `write` and `write_vectored` return how much arrived; what arrived is a prefix.
pub fn h_write_once() {
    let mut p = subject();
    let want = spec::packet_bytes(&p);
    let mut s = Sink::new(vec![], pick(2) == 1);
    let call = pick(4);
    s.cuts = vec![0; call];
    s.cuts.push([1, 3, 8, 20, 40][pick(5)]);
    let r = if pick(2) == 0 { p.write(&mut s) } else { p.write_vectored(&mut s) };
    match r {
        Ok(n) => chk!(n == s.data.len(), "another number of bytes is reported than arrived"),
        Err(_) => chk!(false, "writing a part fails"),
    }
    chk!(s.data.len() <= want.len() && same_bytes(&s.data, &want[..s.data.len()]), "what arrived is no prefix");
    cover(1);
}

/// Up to 255 blocks are read back by every reader, more are refused by every reader.
pub fn h_limit() {
    let n = [254, 255, 256, 257][pick(4)];
    let payload = pick(2) == 1;
    let mut blocks = Vec::with_capacity(n);
    for i in 0..n {
        blocks.push(Block::Tiny(Tiny { v: if i == 0 || i + 1 == n { any() } else { i as u8 } }));
    }
    let p = Packet::new(blocks, if payload { Some(Payload::Bytes(any_vec(1))) } else { None });
    let v = spec::packet_bytes(&p);
    let len = v.len();
    let fits = n <= 255;
    let mut s = Src::new(v.clone(), vec![]);
    let r = <Packet as ReadFrom>::read(&mut s).ok();
    let mut c = Cursor::new(v.clone());
    let a = match <Packet as TryReadFrom>::try_read(&mut c) {
        Ok(ReadStatus::Success(p)) => Some(p),
        _ => None,
    };
    chk!(c.position() as usize == if fits { len } else { 0 }, "position after reading");
    let mut s = Buf::new(v.clone());
    let b = match <Packet as TryReadFromBuffered>::try_read(&mut s) {
        Ok(ReadStatus::Success(p)) => Some(p),
        _ => None,
    };
    chk!(s.pos == if fits { len } else { 0 }, "consumption after reading");
    let rules = Rules::default();
    let mut c = Cursor::new(v.clone());
    let f = match Packet::filtered(&mut c, &rules) {
        Ok(LookInStatus::Accepted(_, p)) => Some(p),
        _ => None,
    };
    let mut v2 = v;
    let q = Packet::new(vec![Block::Tiny(any())], None);
    v2.extend_from_slice(&spec::packet_bytes(&q));
    let mut src = Src::new(v2, vec![]);
    let mut rd: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let seen = crate::p_stream::drain(&mut rd, 64);
    let mut found = seen.found;
    match found.pop() {
        Some(l) => chk!(l.same(&q), "the packet after it is another one"),
        None => chk!(false, "the packet after it is lost"),
    }
    chk!(found.len() == fits as usize, "the stream reader and the limit of blocks");
    for x in [r, a, b, f, found.pop()] {
        match x {
            Some(x) => chk!(fits && x.same(&p), "a packet over the limit of blocks is accepted"),
            None => chk!(!fits, "a packet within the limit of blocks is refused"),
        }
    }
    if fits {
        cover(1)
    } else {
        cover(2)
    }
}

/// Any sequence of operations on a BufferedReader shows the bytes of the source, each once, in order.
pub fn h_buffered_reader() {
    let data = any_vec(12);
    let window = [1, 3, 5, 12][pick(4)];
    let mut src = Buf::windowed(data.clone(), window);
    let mut r = brec::BufferedReader::new(&mut src);
    let mut at = 0usize;
    for _ in 0..3 {
        match pick(4) {
            0 => {
                let mut b = [0u8; 8];
                let k = [0, 2, 7][pick(3)];
                match r.read(&mut b[..k]) {
                    Ok(n) => {
                        chk!(n <= k, "more read than asked for");
                        chk!(k == 0 || n > 0 || at == data.len(), "nothing read although there is data");
                        chk!(same_bytes(&b[..n], &data[at..at + n]), "other bytes read");
                        at += n;
                    }
                    Err(_) => chk!(false, "read fails"),
                }
            }
            1 => chk!(r.refill().is_ok(), "refill fails"),
            _ => {
                let k = [1, 4][pick(2)];
                let n = match r.fill_buf() {
                    Ok(b) => {
                        chk!(!b.is_empty() || at == data.len(), "nothing shown although there is data");
                        chk!(at + b.len() <= data.len(), "more shown than there is");
                        chk!(same_bytes(b, &data[at..at + b.len()]), "other bytes shown");
                        b.len().min(k)
                    }
                    Err(_) => {
                        chk!(false, "fill_buf fails");
                        0
                    }
                };
                r.consume(n);
                at += n;
            }
        }
        chk!(r.consumed() == at, "another number of consumed bytes is reported");
        match r.fill_buf() {
            Ok(b) => {
                let l = b.len();
                chk!(at + l <= data.len() && same_bytes(b, &data[at..at + l]), "other bytes shown");
                chk!(matches!(r.len(), Ok(n) if n == l), "another length is reported");
                chk!(matches!(r.is_empty(), Ok(e) if e == (l == 0)), "emptiness is misreported");
            }
            Err(_) => chk!(false, "fill_buf fails"),
        }
    }
    // the rest
    let mut rest = Vec::new();
    let mut guard = 0;
    loop {
        guard += 1;
        chk!(guard < 40, "no end");
        let mut b = [0u8; 4];
        match r.read(&mut b) {
            Ok(0) => break,
            Ok(n) => rest.extend_from_slice(&b[..n]),
            Err(_) => {
                chk!(false, "read fails");
                break;
            }
        }
    }
    chk!(same_bytes(&rest, &data[at..]), "the rest differs");
    cover(1);
}
