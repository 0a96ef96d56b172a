//! Lengths no byte or half word can count, sources of single bytes, writers with two borders,
//! faults that come twice, longer histories of rules, damage and reloads.
use crate::io::*;
use crate::p_packet::read_back;
use crate::p_store::{layout, open, stored, yields, Shared, CAP};
use crate::p_stream::*;
use crate::proto::*;
use crate::rt::*;
use crate::{spec, wr};
use brec::prelude::*;
use brec::RuleFnDef;
use std::io::{BufRead, Cursor, Read};

// ------------------------------------------------------------------------------ long structures

fn long_block() -> Block {
    Block::Long(any())
}
/// A block longer than 255 bytes: every reader, every writer.
pub fn h_long_block() {
    let b = long_block();
    let want = spec::block_bytes(&b);
    let n = want.len();
    crate::p_block::write_paths(&b, &want);
    crate::p_block::enum_paths(&b);
    if let Block::Long(l) = &b {
        crate::p_block::own_paths::<Long, LongReferred<'static>>(l, |r| r.into());
    }
    let p = Packet::new(vec![Block::Tiny(any()), b, Block::Bare(any())], None);
    let mut v = wr::packet_bytes(&p);
    let m = v.len();
    chk!(m == spec::HEADER + n + 9 + 12, "a packet with a long block has another length");
    v.push(any());
    read_back(&v, m, &p);
    stream_back(v[..m].to_vec(), vec![200; 10], &p);
    cover(1);
}
fn stream_back(v: Vec<u8>, cuts: Vec<usize>, p: &Packet) {
    let mut s = Src::new(v, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut s);
    let seen = drain(&mut r, 4000);
    chk!(seen.errors == 0 && seen.found.len() == 1, "the stream reader does not find a packet");
    chk!(seen.found[0].same(p), "the stream reader finds another packet");
}
const LENGTHS: [usize; 7] = [255, 256, 257, 4096, 65535, 65536, 65537];
/// A body of `n` bytes, symbolic at its ends and around the borders of a byte and of a half word.
fn long_body(n: usize) -> Vec<u8> {
    let mut v = vec![0x41u8; n];
    for i in [0, 1, 254, 255, 256, 65534, 65535, n - 1] {
        if i < n {
            v[i] = any::<u8>() & 0x7f;
        }
    }
    v
}
fn long_payload() -> Payload {
    let k = pick(3);
    // (bincode goes byte by byte)
    let n = LENGTHS[pick(if k == 2 { 4 } else { LENGTHS.len() })];
    let v = long_body(n);
    match k {
        0 => Payload::Bytes(v),
        1 => Payload::String(unsafe { String::from_utf8_unchecked(v) }),
        _ => Payload::Rec(Rec { id: any(), data: v }),
    }
}
/// Long payloads: layout, every reader of payloads.
pub fn h_long_payload() {
    let p = long_payload();
    let want = spec::payload_bytes(&p);
    crate::p_payload::write_paths(clone_payload(&p), &want);
    crate::p_payload::read_paths(clone_payload(&p), wr::payload_bytes(&p));
    cover(1);
}
/// Long payloads in packets: layout, every reader of packets.
pub fn h_long_packet() {
    let mut p = Packet::new(vec![Block::Tiny(any())], Some(long_payload()));
    let want = spec::packet_bytes(&p);
    let mut v = write_packet(&mut p);
    chk!(same_bytes(&v, &want), "write_all differs from the specified layout");
    let mut w = Vec::new();
    chk!(p.write_vectored_all(&mut w).is_ok(), "write_vectored_all fails");
    chk!(same_bytes(&w, &want), "write_vectored_all differs from the specified layout");
    let n = v.len();
    stream_back(v.clone(), [vec![], vec![1000; 80]][pick(2)].clone(), &p);
    v.push(any());
    read_back(&v, n, &p);
    cover(1);
}
/// Long payloads written in parts.
pub fn h_long_parts() {
    let mut p = Packet::new(vec![Block::Tiny(any())], Some(long_payload()));
    let want = spec::packet_bytes(&p);
    let c = [100, 256, 8192, 65536][pick(4)];
    let mut s = Sink::new(vec![c; want.len() / c + 4], pick(2) == 1);
    let r = if pick(2) == 0 { p.write_all(&mut s) } else { p.write_vectored_all(&mut s) };
    chk!(r.is_ok(), "writing fails although the writer takes everything in parts");
    chk!(same_bytes(&s.data, &want), "another encoding arrives at a writer that takes parts");
    cover(1);
}
/// Long packets in storage.
pub fn h_long_store() {
    let p = vec![
        Packet::new(vec![Block::Tiny(any())], None),
        Packet::new(vec![long_block()], Some(long_payload())),
        Packet::new(vec![], Some(Payload::Bytes(any_vec(1)))),
    ];
    let mut d = stored(&p);
    chk!(same_bytes(&d.data, &layout(&p)), "the storage differs from the specified layout");
    let mut r = open(&mut d);
    match pick(6) {
        0 => yields(r.iter(), &p),
        3 => {
            let k = pick(3);
            match r.seek(k) {
                Ok(it) => yields(it, &p[k..]),
                Err(_) => chk!(false, "a stored packet cannot be sought"),
            }
        }
        4 => yields(r.filtered(), &p),
        5 => yields(r.range_filtered(0, 3), &p),
        1 => {
            for (i, w) in p.iter().enumerate() {
                match r.nth(i) {
                    Ok(Some(g)) => chk!(g.same(w), "another packet at an index"),
                    _ => chk!(false, "no packet at an index"),
                }
            }
        }
        _ => yields(r.range(1, 2), &p[1..]),
    }
    cover(1);
}
/// A payload that announces any size: the header carries it or is refused.
pub fn h_payload_any_size() {
    struct Announced(u64);
    impl PayloadHooks for Announced {}
    impl PayloadSize for Announced {
        fn size(&self) -> std::io::Result<u64> {
            Ok(self.0)
        }
    }
    impl PayloadEncode for Announced {
        fn encode(&self) -> std::io::Result<Vec<u8>> {
            Ok(vec![])
        }
    }
    impl PayloadEncodeReferred for Announced {
        fn encode(&self) -> std::io::Result<Option<&[u8]>> {
            Ok(None)
        }
    }
    impl PayloadCrc for Announced {
        fn crc(&self) -> std::io::Result<ByteBlock> {
            Ok(ByteBlock::Len4([1, 2, 3, 4]))
        }
    }
    impl PayloadSignature for Announced {
        fn sig(&self) -> ByteBlock {
            ByteBlock::Len4([5, 6, 7, 8])
        }
    }
    let n: u64 = any();
    match PayloadHeader::new(&Announced(n)) {
        Ok(h) => {
            chk!(h.payload_len() as u64 == n, "a payload header carries another size than the payload has");
            cover(1);
        }
        Err(_) => {
            chk!(n > u32::MAX as u64, "a payload that fits is refused");
            cover(2);
        }
    }
}

// ------------------------------------------------------------------------ portions on both sides

/// Sources that hand out one, two or seven bytes per call.
fn portions(n: usize) -> Vec<usize> {
    vec![[1, 2, 7][pick(3)]; n + 1]
}
pub fn h_slow_block() {
    let b = any_block();
    let mut v = wr::block_bytes(&b);
    let n = v.len();
    v.push(any());
    let cuts = portions(n);
    let mut s = Src::new(v.clone(), cuts.clone());
    match <Block as ReadFrom>::read(&mut s) {
        Ok(r) => chk!(r.same(&b) & (s.pos == n), "stream read gives another block"),
        Err(_) => chk!(false, "stream read refuses a written block"),
    }
    let mut s = Src::new(v.clone(), cuts.clone());
    match <Block as ReadBlockFrom>::read(&mut s, false) {
        Ok(r) => chk!(r.same(&b) & (s.pos == n), "block stream read gives another block"),
        Err(_) => chk!(false, "block stream read refuses a written block"),
    }
    let mut d = Disk::new(v.clone());
    d.short = cuts[0];
    match <Block as TryReadFrom>::try_read(&mut d) {
        Ok(ReadStatus::Success(r)) => chk!(r.same(&b) & (d.pos == n as u64), "seekable read gives another block"),
        _ => chk!(false, "seekable read refuses a written block"),
    }
    // through the block's own type
    macro_rules! own {
        ($t:ident, $b:ident) => {{
            let mut s = Src::new(v.clone(), cuts.clone());
            match <$t as ReadBlockFrom>::read(&mut s, false) {
                Ok(r) => chk!(r.same($b) & (s.pos == n), "own stream read gives another block"),
                Err(_) => chk!(false, "own stream read refuses a written block"),
            }
            let mut s = Src::new(v[4..].to_vec(), cuts);
            match <$t as ReadBlockFrom>::read(&mut s, true) {
                Ok(r) => chk!(r.same($b) & (s.pos == n - 4), "own stream read after the signature gives another block"),
                Err(_) => chk!(false, "own stream read after the signature refuses a written block"),
            }
        }};
    }
    match &b {
        Block::Tiny(b) => own!(Tiny, b),
        Block::Uns(b) => own!(Uns, b),
        Block::Sig(b) => own!(Sig, b),
        Block::Flt(b) => own!(Flt, b),
        Block::Blob(b) => own!(Blob, b),
        Block::Link(b) => own!(Link, b),
        Block::Bare(b) => own!(Bare, b),
        Block::Long(b) => own!(Long, b),
    }
    cover(1);
}
pub fn h_slow_payload() {
    let p = payload_of(pick(PAYLOADS));
    let mut v = wr::payload_bytes(&p);
    let n = v.len();
    v.push(any());
    let cuts = portions(n);
    let mut s = Src::new(v.clone(), cuts.clone());
    match <PayloadHeader as ReadFrom>::read(&mut s) {
        Ok(h) => match <Payload as ExtractPayloadFrom<Payload>>::read(&mut s, &h) {
            Ok(r) => chk!(r.same(&p) & (s.pos == n), "stream read gives another payload"),
            Err(_) => chk!(false, "stream read refuses a written payload"),
        },
        Err(_) => chk!(false, "stream read refuses a written payload header"),
    }
    let mut d = Disk::new(v);
    d.short = cuts[0];
    match <PayloadHeader as TryReadFrom>::try_read(&mut d) {
        Ok(ReadStatus::Success(h)) => match <Payload as TryExtractPayloadFrom<Payload>>::try_read(&mut d, &h) {
            Ok(ReadStatus::Success(r)) => chk!(r.same(&p) & (d.pos == n as u64), "seekable read gives another payload"),
            _ => chk!(false, "seekable read refuses a written payload"),
        },
        _ => chk!(false, "seekable read refuses a written payload header"),
    }
    cover(1);
}
pub fn h_slow_packet() {
    let p = crate::p_packet::any_packet(pick(3), [0, 1, 3, PAYLOADS][pick(4)]);
    let mut v = wr::packet_bytes(&p);
    let n = v.len();
    v.push(any());
    let cuts = portions(n);
    let mut s = Src::new(v.clone(), cuts.clone());
    match <Packet as ReadFrom>::read(&mut s) {
        Ok(r) => chk!(r.same(&p) & (s.pos == n), "stream read gives another packet"),
        Err(_) => chk!(false, "stream read refuses a written packet"),
    }
    let mut d = Disk::new(v.clone());
    d.short = cuts[0];
    match <Packet as TryReadFrom>::try_read(&mut d) {
        Ok(ReadStatus::Success(r)) => chk!(r.same(&p) & (d.pos == n as u64), "seekable read gives another packet"),
        _ => chk!(false, "seekable read refuses a written packet"),
    }
    let mut d = Disk::new(v.clone());
    d.short = cuts[0];
    match Packet::filtered(&mut d, &Rules::default()) {
        Ok(LookInStatus::Accepted(_, r)) => chk!(r.same(&p) & (d.pos == n as u64), "filtered read gives another packet"),
        _ => chk!(false, "filtered read refuses a written packet"),
    }
    // another structure before it: nothing depends on the start of the source
    let mut w = any_vec(5);
    w.extend_from_slice(&v);
    let mut c = Cursor::new(w);
    c.set_position(5);
    match <Packet as TryReadFrom>::try_read(&mut c) {
        Ok(ReadStatus::Success(r)) => chk!(r.same(&p) & (c.position() == n as u64 + 5), "seekable read inside a source gives another packet"),
        _ => chk!(false, "seekable read inside a source refuses a written packet"),
    }
    c.set_position(5);
    match Packet::filtered(&mut c, &Rules::default()) {
        Ok(LookInStatus::Accepted(_, r)) => {
            chk!(r.same(&p) & (c.position() == n as u64 + 5), "filtered read inside a source gives another packet")
        }
        _ => chk!(false, "filtered read inside a source refuses a written packet"),
    }
    stream_back(v[..n].to_vec(), cuts, &p);
    cover(1);
}
/// Writers with two borders anywhere.
pub fn h_write_two_cuts() {
    let mut p = match pick(2) {
        0 => Packet::new(vec![Block::Tiny(any()), Block::Bare(any())], Some(Payload::Bytes(any_vec(2)))),
        _ => Packet::new(vec![], Some(Payload::Wide(Wide { v: any() }))),
    };
    let want = spec::packet_bytes(&p);
    let n = want.len();
    let vectored = pick(2) == 1;
    let a = pick(n) + 1;
    let b = pick(n) + 1;
    assume(a + b <= n + 1);
    let mut s = Sink::new(vec![a, b], vectored);
    let r = if pick(2) == 0 { p.write_all(&mut s) } else { p.write_vectored_all(&mut s) };
    chk!(r.is_ok(), "writing fails although the writer takes everything in parts");
    chk!(same_bytes(&s.data, &want), "another encoding arrives at a writer that takes parts");
    cover(1);
}
/// A single write of a block or a payload.
pub fn h_write_once_parts() {
    let vectored = pick(2) == 1;
    let way = pick(2);
    let take = [1, 3, 4, 5, 8, 9, 12, 13, 17, 30][pick(10)];
    let mut s = Sink::new(vec![0; pick(3)], vectored);
    s.cuts.push(take);
    let (want, r) = if pick(2) == 0 {
        let b = any_block();
        (spec::block_bytes(&b), if way == 0 { b.write(&mut s) } else { b.write_vectored(&mut s) })
    } else {
        let mut p = payload_of(pick(5));
        (
            spec::payload_bytes(&p),
            if way == 0 { WriteMutTo::write(&mut p, &mut s) } else { WriteVectoredMutTo::write_vectored(&mut p, &mut s) },
        )
    };
    match r {
        Ok(n) => chk!(n == s.data.len(), "another number of bytes is reported than arrived"),
        Err(_) => chk!(false, "writing a part fails"),
    }
    chk!(s.data.len() <= want.len() && same_bytes(&s.data, &want[..s.data.len()]), "what arrived is no prefix");
    cover(1);
}
/// A block or payload written to a writer that fails or takes nothing.
pub fn h_write_fails_parts() {
    let n = [1, 4][pick(2)];
    let mut s = Sink::new(vec![n; 100], pick(2) == 1);
    let zero = pick(2) == 0;
    let way = pick(2);
    let block = pick(2) == 0;
    let (b, mut p) = if block { (Some(any_block()), None) } else { (None, Some(payload_of(pick(5)))) };
    let want = match (&b, &p) {
        (Some(b), _) => spec::block_bytes(b),
        (_, Some(p)) => spec::payload_bytes(p),
        _ => vec![],
    };
    let at = pick(want.len().div_ceil(n));
    if zero {
        s.zero_at = Some(at);
    } else {
        s.fail_at = Some(at);
    }
    let r = match (&b, &mut p) {
        (Some(b), _) => if way == 0 { b.write_all(&mut s) } else { b.write_vectored_all(&mut s) },
        (_, Some(p)) => {
            if way == 0 { WriteMutTo::write_all(p, &mut s) } else { WriteVectoredMutTo::write_vectored_all(p, &mut s) }
        }
        _ => Ok(()),
    };
    chk!(r.is_err(), "a failing writer is not reported");
    chk!(s.data.len() < want.len(), "everything arrived at a writer that fails");
    chk!(same_bytes(&s.data, &want[..s.data.len()]), "what arrived is no prefix");
    cover(1);
}

// -------------------------------------------------------------------------------- stream reader

/// Fails on the calls in `at`, then goes on.
struct Faults {
    src: Src,
    at: Vec<usize>,
    calls: usize,
    kind: std::io::ErrorKind,
}
impl Read for Faults {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let i = self.calls;
        self.calls += 1;
        if self.at.contains(&i) {
            return Err(std::io::Error::from(self.kind));
        }
        self.src.read(buf)
    }
}
/// Two failing reads at any calls.
pub fn h_stream_flaky2() {
    let s = stream(&[[0, 3][pick(2)], 1], &[1, 2, 0]);
    let n = s.data.len();
    let c = [5, 13, 40][pick(3)];
    let calls = n / c + 2;
    let a = pick(calls + 1);
    let b = pick(calls + 2);
    assume(a < b);
    ignored().clear();
    let kind = [std::io::ErrorKind::WouldBlock, std::io::ErrorKind::Interrupted][pick(2)];
    let mut src = Faults { src: Src::new(s.data, vec![c; n]), at: vec![a, b], calls: 0, kind };
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    chk!(r.add_rule(Rule::Ignored(RuleFnDef::Static(collect))).is_ok(), "rule refused");
    let seen = drain(&mut r, limit(n));
    chk!(seen.errors <= 2, "a failing read is reported more than once");
    chk!(same_packets(&seen.found, &s.packets), "packets are lost after failing reads");
    chk!(same_bytes(ignored(), &s.litter), "unrelated data is lost after failing reads");
    cover(1);
}
/// A failing read near the capacity of the internal buffer, in a packet larger than it.
pub fn h_stream_flaky_large() {
    let at = [8192 - 60, 8192 - 29, 8192 - 8, 8192 - 3, 8192, 100][pick(6)];
    let mut data = vec![0x5au8; at];
    data[0] = any();
    let litter = data.clone();
    let mut body = vec![3u8; [2, 8200, 17000][pick(3)]];
    body[0] = any();
    let p = vec![Packet::new(vec![Block::Tiny(any())], Some(Payload::Bytes(body))), shape(1)];
    let starts = vec![at, at + wr::packet_bytes(&p[0]).len()];
    for p in &p {
        data.extend_from_slice(&wr::packet_bytes(p));
    }
    let n = data.len();
    let _ = starts;
    ignored().clear();
    let fail = pick(5);
    let c = [0, 5000][pick(2)];
    let mut src = Faults {
        src: Src::new(data, vec![c; 10]),
        at: vec![fail],
        calls: 0,
        kind: std::io::ErrorKind::WouldBlock,
    };
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    chk!(r.add_rule(Rule::Ignored(RuleFnDef::Static(collect))).is_ok(), "rule refused");
    let seen = drain(&mut r, limit(n));
    chk!(seen.errors <= 1, "a failing read is reported more than once");
    chk!(same_packets(&seen.found, &p), "packets are lost after a failing read");
    chk!(same_bytes(ignored(), &litter), "unrelated data is lost after a failing read");
    cover(1);
}
/// Packets of every kind in one stream.
pub fn h_stream_kinds() {
    let p = match pick(2) {
        0 => vec![Packet::new(vec![any_block(), small_block()], None), shape(2)],
        _ => vec![Packet::new(vec![Block::Tiny(any())], Some(payload_of(pick(PAYLOADS)))), shape(2)],
    };
    let mut data = Vec::new();
    let mut starts = Vec::new();
    for p in &p {
        starts.push(data.len());
        data.extend_from_slice(&wr::packet_bytes(p));
    }
    assume_no_sig(&data, &starts);
    let n = data.len();
    let cuts = [vec![], vec![1; n], vec![9; n]][pick(3)].clone();
    let mut src = Src::new(data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let seen = drain(&mut r, limit(n));
    chk!(seen.errors == 0 && seen.skipped == 0, "error on a stream of intact packets");
    chk!(same_packets(&seen.found, &p), "other packets found");
    cover(1);
}
/// The source grows after its end was reported: reading goes on.
pub fn h_stream_grows() {
    let s = stream(&[[0, 1, 3][pick(3)], 0], &[1, 2, 1]);
    let n = s.data.len();
    let cut = pick(n);
    struct Grow {
        src: Src,
        cut: usize,
        open: bool,
    }
    impl Read for Grow {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            if self.open {
                return self.src.read(buf);
            }
            let left = self.cut - self.src.pos;
            if left == 0 {
                self.open = true;
                return Ok(0);
            }
            let k = left.min(buf.len());
            self.src.read(&mut buf[..k])
        }
    }
    ignored().clear();
    let mut src = Grow { src: Src::new(s.data, vec![[0, 1, 20][pick(3)]; 2 * n]), cut, open: false };
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    chk!(r.add_rule(Rule::Ignored(RuleFnDef::Static(collect))).is_ok(), "rule refused");
    let mut found = Vec::new();
    let mut ends = 0;
    let mut calls = 0;
    while ends < 3 {
        calls += 1;
        chk!(calls < 4 * n + 64, "stream reader makes no progress");
        match r.read() {
            Ok(NextPacket::Found(p)) => found.push(p),
            Ok(NextPacket::NoData) => ends += 1,
            Ok(NextPacket::Skipped) => chk!(false, "packet skipped without a rule"),
            Ok(_) => {}
            Err(_) => chk!(false, "error on a stream of intact packets"),
        }
    }
    log(found.len() as u64);
    chk!(found.len() <= 2, "more packets than written");
    // what follows the pause is complete; what was cut by it may be taken up or given up
    let mut whole = Vec::new();
    for (i, p) in s.packets.iter().enumerate() {
        let end = s.starts[i] + wr::packet_bytes(p).len();
        if end <= cut || s.starts[i] >= cut {
            whole.push(i);
        }
    }
    for i in whole {
        let mut here = false;
        for f in &found {
            here |= f.same(&s.packets[i]);
        }
        chk!(here, "a packet is lost because the source paused");
    }
    cover(1);
}
/// Two packets damaged, next to each other or not; the first or the last one damaged.
pub fn h_stream_damage_two() {
    let mut s = stream(&[0, 1, 4, 2], &[0, 0, 0, 0, 0]);
    let which = [[0, 1], [1, 2], [0, 2], [2, 3], [3, 3], [0, 0]][pick(6)];
    let len = s.data.len();
    for (j, k) in which.into_iter().enumerate() {
        if j == 1 && which[0] == which[1] {
            continue;
        }
        let end = s.starts.get(k + 1).copied().unwrap_or(len);
        let n = end - s.starts[k];
        // in the signature, size, flag, checksum of the header; then behind it
        let all = [0, 7, 8, 9, 16, 24, 25, 28, 29, n - 1];
        let at = all[pick(all.len())].min(n - 1);
        let m: u8 = any();
        assume(m != 0);
        s.data[s.starts[k] + at] ^= m;
    }
    assume_no_sig(&s.data, &s.starts);
    let n = s.data.len();
    let cuts = [vec![], vec![1; n], vec![30; n]][pick(3)].clone();
    let mut src = Src::new(s.data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let seen = drain(&mut r, limit(n));
    // (a size damaged in its low byte may reach over packets behind it: the header's checksum decides)
    let mut k = 0;
    for (i, p) in s.packets.iter().enumerate() {
        let damaged = which.contains(&i);
        let here = k < seen.found.len() && seen.found[k].same(p);
        if here {
            k += 1;
        }
        chk!(here || damaged, "an intact packet next to damaged ones is lost");
    }
    chk!(k == seen.found.len(), "a packet nobody wrote is found");
    cover(1);
}
fn limit(n: usize) -> usize {
    3 * n + 16
}
pub fn collect(b: &[u8]) {
    ignored().extend_from_slice(b);
}
fn same_packets(found: &[Packet], want: &[Packet]) -> bool {
    if found.len() != want.len() {
        return false;
    }
    let mut ok = true;
    for (a, b) in found.iter().zip(want.iter()) {
        ok &= a.same(b);
    }
    ok
}

/// Litter, a packet with a damaged header, an intact packet: whatever does not belong to a packet found
/// is delivered once, in order.
pub fn h_litter_damaged() {
    let mut s = stream(&[[0, 2][pick(2)], 1], &[[0, 1, 3, 40][pick(4)], [0, 2][pick(2)], pick(2)]);
    let n = s.data.len();
    let at = s.starts[0];
    let i = [0, 7, 8, 15, 16, 23, 25, 28][pick(8)];
    let m: u8 = any();
    assume(m != 0);
    s.data[at + i] ^= m;
    assume_no_sig(&s.data, &s.starts);
    let cuts = match pick(5) {
        0 => vec![],
        1 => vec![1; n],
        2 => vec![2],
        3 => vec![at + 1 + pick(30)],
        _ => vec![at + 5, 4, 25],
    };
    let found = wr::packet_bytes(&s.packets[1]).len();
    let mut want = s.data[..s.starts[1]].to_vec();
    want.extend_from_slice(&s.data[s.starts[1] + found..]);
    ignored().clear();
    let mut src = Src::new(s.data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    chk!(r.add_rule(Rule::Ignored(RuleFnDef::Static(collect))).is_ok(), "rule refused");
    let seen = drain(&mut r, limit(n));
    chk!(seen.found.len() == 1 && seen.found[0].same(&s.packets[1]), "the packet behind a damaged header is lost");
    chk!(same_bytes(ignored(), &want), "what belongs to no packet is not delivered exactly");
    cover(1);
}
/// A packet torn off within its header, directly followed by intact ones.
pub fn h_stream_torn() {
    let s = stream(&[[0, 1, 2, 4][pick(4)], [0, 3, 1][pick(3)], 2], &[pick(2), 0, 0, 0]);
    let keep = 1 + pick(spec::HEADER - 1);
    let (a, b) = (s.starts[0], s.starts[1]);
    let mut data = s.data[..a + keep].to_vec();
    data.extend_from_slice(&s.data[b..]);
    let n = data.len();
    assume_no_sig(&data, &[a, a + keep, a + keep + s.starts[2] - b]);
    let cuts = match pick(4) {
        0 => vec![],
        1 => vec![1; n],
        2 => vec![a + keep],
        _ => vec![a + keep + 5],
    };
    let mut src = Src::new(data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let seen = drain(&mut r, limit(n));
    chk!(same_packets(&seen.found, &s.packets[1..]), "a packet behind a torn header is lost");
    cover(1);
}

// ----------------------------------------------------------------------- long ones with try-readers

/// A long block and its packet, cut at any of some positions.
pub fn h_long_try() {
    let b = long_block();
    if pick(2) == 0 {
        let whole = wr::block_bytes(&b);
        let n = whole.len();
        let k = [0, 3, 4, 100, 255, 256, 257, n - 5, n - 1][pick(9)];
        let mut c = Cursor::new(whole[..k].to_vec());
        part(crate::p_try::seek_read::<Block>(&mut c), n - k);
        chk!(c.position() == 0, "position moved although data is missing");
        c.get_mut().extend_from_slice(&whole[k..]);
        c.get_mut().push(any());
        match crate::p_try::seek_read::<Block>(&mut c) {
            crate::p_try::Out::Done(r) => {
                chk!(r.same(&b) && c.position() == n as u64, "another long block, or another length of it")
            }
            _ => chk!(false, "no long block"),
        }
        let mut v = whole;
        v.push(any());
        let mut s = Buf::windowed(v, [usize::MAX, n, n + 1, n - 1, 255, 4][pick(6)]);
        match crate::p_try::buf_read::<Block>(&mut s) {
            crate::p_try::Out::Done(r) => chk!(r.same(&b) && s.pos == n, "another long block, or another length of it"),
            _ => chk!(false, "no long block"),
        }
    } else {
        let p = Packet::new(vec![b], Some(Payload::Bytes(any_vec(1))));
        let whole = wr::packet_bytes(&p);
        let n = whole.len();
        let k = [0, 8, 28, 29, 33, 284, 285, 346, n - 1][pick(9)];
        let mut c = Cursor::new(whole[..k].to_vec());
        part(crate::p_try::seek_read::<Packet>(&mut c), n - k);
        chk!(c.position() == 0, "position moved although data is missing");
        let mut s = Buf::new(whole[..k].to_vec());
        part(crate::p_try::buf_read::<Packet>(&mut s), n - k);
        chk!(s.pos == 0, "data consumed although data is missing");
        s.data.extend_from_slice(&whole[k..]);
        match crate::p_try::buf_read::<Packet>(&mut s) {
            crate::p_try::Out::Done(r) => chk!(r.same(&p) && s.pos == n, "another packet, or another length of it"),
            _ => chk!(false, "no packet with a long block"),
        }
    }
    cover(1);
}
fn part<T>(o: crate::p_try::Out<T>, missing: usize) {
    match o {
        crate::p_try::Out::More(m) => chk!((m > 0) & (m <= missing as u64), "asks for another amount than is missing"),
        crate::p_try::Out::Done(_) => chk!(false, "success on a part"),
        crate::p_try::Out::Bad => chk!(false, "error on a part of a valid structure"),
    }
}
/// A damaged long block, exactly in view, is refused by every reader and nothing is consumed.
pub fn h_long_damage() {
    let b = long_block();
    let mut v = wr::block_bytes(&b);
    let n = v.len();
    let m: u8 = any();
    assume(m != 0);
    v[[4, 100, 255, 256, n - 5, n - 4, n - 1][pick(7)]] ^= m;
    if pick(2) == 1 {
        v.push(any());
    }
    let mut c = Cursor::new(v.clone());
    chk!(matches!(crate::p_try::seek_read::<Block>(&mut c), crate::p_try::Out::Bad), "damage is accepted");
    chk!(c.position() == 0, "position moved although nothing has been read");
    let mut s = Buf::new(v);
    chk!(matches!(crate::p_try::buf_read::<Block>(&mut s), crate::p_try::Out::Bad), "damage is accepted");
    chk!(s.pos == 0, "data consumed although nothing has been read");
    cover(1);
}

// --------------------------------------------------------------------------------------- rules

/// Verdicts per packet, one bit each.
static mut TURN: [usize; 3] = [0; 3];
static mut MASK: [usize; 3] = [7; 3];
fn turn(k: usize) -> bool {
    unsafe {
        let v = MASK[k] >> TURN[k] & 1 == 1;
        TURN[k] += 1;
        v
    }
}
fn set_turns(m: [usize; 3]) {
    unsafe {
        TURN = [0; 3];
        MASK = m;
    }
}
/// Three packets with litter, each rule with a verdict of its own for each packet it is asked about.
pub fn h_rules_seq() {
    let set = [pick(2) == 1, pick(2) == 1, pick(2) == 1];
    let mask = [if set[0] { pick(8) } else { 7 }, if set[1] { pick(8) } else { 7 }, if set[2] { pick(8) } else { 7 }];
    let s = stream(&[3, 0, 1], &[1, 2, 0, 1]);
    set_turns(mask);
    ignored().clear();
    let n = s.data.len();
    let cuts = [vec![], vec![11; n]][pick(2)].clone();
    let mut src = Src::new(s.data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    if set[0] {
        let _ = r.add_rule(Rule::FilterByBlocks(RuleFnDef::Static(|_| turn(0))));
    }
    if set[1] {
        let _ = r.add_rule(Rule::FilterByPayload(RuleFnDef::Static(|_| turn(1))));
    }
    if set[2] {
        let _ = r.add_rule(Rule::Filter(RuleFnDef::Static(|_| turn(2))));
    }
    let _ = r.add_rule(Rule::Ignored(RuleFnDef::Static(collect)));
    let seen = drain(&mut r, limit(n));
    let mut asked = [0; 3];
    let mut want = Vec::new();
    for p in &s.packets {
        let mut ok = true;
        for k in 0..3 {
            if ok && set[k] && (k != 1 || p.payload.is_some()) {
                ok = mask[k] >> asked[k] & 1 == 1;
                asked[k] += 1;
            }
        }
        if ok {
            want.push(clone_packet(p));
        }
    }
    chk!(seen.errors == 0, "error on a stream of intact packets");
    chk!(seen.skipped == 3 - want.len(), "another number of packets is skipped");
    chk!(same_packets(&seen.found, &want), "other packets pass the rules");
    chk!(same_bytes(ignored(), &s.litter), "unrelated data is not delivered exactly");
    chk!(unsafe { TURN == asked }, "a rule is asked another number of times");
    cover(1);
}
/// Rules that come, go and come back between packets.
pub fn h_rules_change() {
    let s = stream(&[3, 3, 3], &[0, 0, 0, 0]);
    let n = s.data.len();
    let which = pick(3);
    let id = || match which {
        0 => RuleDefId::FilterByBlocks,
        1 => RuleDefId::FilterByPayload,
        _ => RuleDefId::Filter,
    };
    let refuse = || match which {
        0 => Rule::FilterByBlocks(RuleFnDef::Static(|_| false)),
        1 => Rule::FilterByPayload(RuleFnDef::Dynamic(Box::new(|_| false))),
        _ => Rule::Filter(RuleFnDef::Static(|_| false)),
    };
    let plan = pick(8);
    let mut src = Src::new(s.data, [vec![], vec![20; n]][pick(2)].clone());
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let mut on = false;
    for (i, p) in s.packets.iter().enumerate() {
        let want_on = plan >> i & 1 == 1;
        if want_on && !on {
            chk!(r.add_rule(refuse()).is_ok(), "a rule is refused");
        }
        if want_on {
            chk!(r.add_rule(refuse()).is_err(), "a second rule of a kind is taken");
        }
        if !want_on {
            r.remove_rule(id());
        }
        on = want_on;
        let mut left = 40;
        loop {
            left -= 1;
            chk!(left > 0, "stream reader makes no progress");
            match r.read() {
                Ok(NextPacket::Found(g)) => {
                    chk!(!on, "a packet passes although a rule refuses it");
                    chk!(g.same(p), "another packet passes the rules");
                    break;
                }
                Ok(NextPacket::Skipped) => {
                    chk!(on, "a packet is skipped although no rule refuses it");
                    break;
                }
                Ok(NextPacket::NoData) | Err(_) => {
                    chk!(false, "a packet is lost");
                    break;
                }
                _ => {}
            }
        }
    }
    cover(1);
}

// ------------------------------------------------------------------------------ BufferedReader

/// Shows at most `window` bytes; the read or look number `fail` fails once.
struct FlakyBuf {
    b: Buf,
    calls: usize,
    fail: usize,
    kind: std::io::ErrorKind,
}
impl FlakyBuf {
    fn tick(&mut self) -> std::io::Result<()> {
        self.calls += 1;
        if self.calls == self.fail + 1 {
            return Err(std::io::Error::from(self.kind));
        }
        Ok(())
    }
}
impl Read for FlakyBuf {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.tick()?;
        self.b.read(buf)
    }
}
impl BufRead for FlakyBuf {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.tick()?;
        self.b.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.b.consume(n)
    }
}
/// Operations of which one fails because the source does.
pub fn h_buffered_flaky() {
    let data = any_vec(10);
    let window = [2, 5, 10][pick(3)];
    let kind = [std::io::ErrorKind::WouldBlock, std::io::ErrorKind::Interrupted][pick(2)];
    let mut src = FlakyBuf { b: Buf::windowed(data.clone(), window), calls: 0, fail: pick(5), kind };
    let mut r = brec::BufferedReader::new(&mut src);
    let mut at = 0usize;
    let mut failed = 0;
    for _ in 0..3 {
        match pick(3) {
            0 => {
                let mut b = [0u8; 8];
                let k = [3, 7][pick(2)];
                match r.read(&mut b[..k]) {
                    Ok(n) => {
                        chk!(same_bytes(&b[..n], &data[at..at + n]), "other bytes read");
                        at += n;
                    }
                    Err(_) => failed += 1,
                }
            }
            1 => {
                if r.refill().is_err() {
                    failed += 1;
                }
            }
            _ => match r.fill_buf() {
                Ok(b) => {
                    let l = b.len();
                    chk!(at + l <= data.len() && same_bytes(b, &data[at..at + l]), "other bytes shown");
                    let n = l.min(4);
                    r.consume(n);
                    at += n;
                }
                Err(_) => failed += 1,
            },
        }
        chk!(r.consumed() == at, "another number of consumed bytes is reported");
    }
    let mut guard = 0;
    loop {
        guard += 1;
        chk!(guard < 40, "no end");
        let mut b = [0u8; 4];
        match r.read(&mut b) {
            Ok(0) => break,
            Ok(n) => {
                chk!(at + n <= data.len() && same_bytes(&b[..n], &data[at..at + n]), "other bytes read");
                at += n;
            }
            Err(_) => failed += 1,
        }
    }
    chk!(failed <= 1, "one failure is reported more than once");
    chk!(at == data.len(), "bytes are lost after a failure");
    cover(1);
}
/// The use it is made for: structures read one after another through small windows.
pub fn h_buffered_packets() {
    let p = [shape([0, 1, 3][pick(3)]), shape(0)];
    let mut data = wr::packet_bytes(&p[0]);
    data.extend_from_slice(&wr::packet_bytes(&p[1]));
    let n = data.len();
    let window = [1, 8, 29, 31, 64][pick(5)];
    let mut src = Buf::windowed(data, window);
    let mut r = brec::BufferedReader::new(&mut src);
    let mut got = 0;
    for _ in 0..n + 4 {
        match <Packet as TryReadFromBuffered>::try_read(&mut r) {
            Ok(ReadStatus::Success(q)) => {
                chk!(got < 2 && q.same(&p[got]), "another packet is read");
                got += 1;
                if got == 2 {
                    break;
                }
            }
            Ok(ReadStatus::NotEnoughData(_)) => chk!(r.refill().is_ok(), "refill fails"),
            Err(_) => chk!(false, "a packet behind small windows is refused"),
        }
    }
    chk!(got == 2, "a packet behind small windows is not found");
    chk!(r.consumed() == n, "another number of consumed bytes is reported");
    cover(1);
}

// -------------------------------------------------------------------------------------- storage

/// The reader is told to reload when any part of an insert has reached the file.
pub fn h_store_reload_torn() {
    let n = pick(5);
    let p: Vec<Packet> = (0..n + 2).map(|i| shape([0, 1, 2][i % 3])).collect();
    let mut d = stored(&p[..n]);
    let before = d.data.clone();
    let total = {
        d.written = 0;
        match Writer::new(&mut d) {
            Ok(mut w) => chk!(w.insert(clone_packet(&p[n])).is_ok(), "a packet cannot be inserted"),
            Err(_) => chk!(false, "a storage cannot be reopened"),
        }
        d.written
    };
    let after = std::mem::take(&mut d.data);
    let mut part = Disk::new(before.clone());
    part.budget = Some(pick(total));
    if let Ok(mut w) = Writer::new(&mut part) {
        let _ = w.insert(clone_packet(&p[n]));
    }
    let file = Shared::new(before);
    let Ok(mut r) = Reader::new(file.clone()) else {
        chk!(false, "a storage cannot be opened for reading");
        return;
    };
    file.set(part.data);
    match r.reload() {
        Ok(k) => {
            chk!(k <= 1, "reload reports packets nobody inserted");
            chk!(r.count() == n + k, "wrong number of packets after a reload in the middle of an insert");
            cover(1);
        }
        Err(_) => {
            chk!(r.count() == n || r.count() == n + 1, "wrong number of packets after a failed reload");
            cover(2);
        }
    }
    file.set(after);
    chk!(r.reload().is_ok(), "reload fails after a reload in the middle of an insert");
    chk!(r.count() == n + 1, "wrong number of packets after reload");
    yields(r.iter(), &p[..n + 1]);
    match r.nth(n) {
        Ok(Some(g)) => chk!(g.same(&p[n]), "another packet at an index after reload"),
        _ => chk!(false, "no packet at an index after reload"),
    }
}
/// Two of the writes fail, or seeking or reading does while a writer works.
pub fn h_store_fail_two() {
    let n = pick(4);
    let p: Vec<Packet> = (0..n + 5).map(|i| shape([0, 1, 2][i % 3])).collect();
    let mut d = stored(&p[..n]);
    let mut now: Vec<Packet> = p[..n].iter().map(clone_packet).collect();
    d.writes = 0;
    let keep = [0, 1, 30, 1000][pick(4)];
    if pick(2) == 0 {
        let a = pick(6);
        let b = a + 1 + pick(3);
        d.fails = vec![a, b];
        d.fail_keep = keep;
    }
    let seeks = if d.fails.is_empty() { pick(8) + 1 } else { 0 };
    {
        let Ok(mut w) = Writer::new(&mut d) else {
            chk!(false, "a storage cannot be reopened");
            return;
        };
        if seeks > 0 {
            w_fail_seek(seeks);
        }
        let mut failed = 0;
        for q in &p[n..n + 5] {
            match w.insert(clone_packet(q)) {
                Ok(()) => now.push(clone_packet(q)),
                Err(_) => {
                    failed += 1;
                    cover(1);
                }
            }
        }
        w_fail_seek(0);
        chk!(failed <= 2, "an insert fails although its writes do not");
    }
    d.fails.clear();
    let mut r = open(&mut d);
    chk!(r.count() == now.len(), "wrong number of packets");
    yields(r.iter(), &now);
    drop(r);
    match Writer::new(&mut d) {
        Ok(mut w) => chk!(w.insert(clone_packet(&p[0])).is_ok(), "a packet cannot be inserted"),
        Err(_) => chk!(false, "a storage cannot be reopened"),
    }
    now.push(clone_packet(&p[0]));
    let mut r = open(&mut d);
    chk!(r.count() == now.len(), "wrong number of packets");
    for (i, w) in now.iter().enumerate() {
        match r.nth(i) {
            Ok(Some(g)) => chk!(g.same(w), "another packet at an index"),
            _ => chk!(false, "no packet at an index"),
        }
    }
}
fn w_fail_seek(n: usize) {
    unsafe { FAIL_SEEK = n }
}
/// A read or a seek of the file fails once while a reader works; the reader stays usable.
pub fn h_store_read_fails() {
    let n = 4;
    let p: Vec<Packet> = (0..n).map(|i| shape([0, 1, 2][i % 3])).collect();
    let mut d = stored(&p);
    let mut r = open(&mut d);
    let k = pick(12);
    if pick(2) == 0 {
        unsafe { FAIL_SEEK = k + 1 }
    } else {
        unsafe { FAIL_READ = k + 1 }
    }
    let mut at = 0;
    match pick(4) {
        0 => {
            for x in r.iter().take(2 * n) {
                match x {
                    Ok(g) => {
                        chk!(at < n && g.same(&p[at]), "another packet is read from storage");
                        at += 1;
                    }
                    Err(_) => break,
                }
            }
        }
        1 => match r.nth(2) {
            Ok(Some(g)) => chk!(g.same(&p[2]), "another packet at an index"),
            Ok(None) => chk!(false, "a stored packet is not found by its index"),
            Err(_) => cover(1),
        },
        2 => {
            let _ = r.reload();
        }
        _ => {
            for x in r.range(1, 2) {
                match x {
                    Ok(g) => {
                        chk!(at < 2 && g.same(&p[at + 1]), "another packet is read from storage");
                        at += 1;
                    }
                    Err(_) => break,
                }
            }
        }
    }
    unsafe {
        FAIL_SEEK = 0;
        FAIL_READ = 0;
    }
    if pick(2) == 0 {
        chk!(matches!(r.reload(), Ok(0)), "reload after a failed read");
    }
    chk!(r.count() == n, "wrong number of packets after a failed read");
    yields(r.iter(), &p);
    for (i, w) in p.iter().enumerate() {
        match r.nth(i) {
            Ok(Some(g)) => chk!(g.same(w), "another packet at an index after a failed read"),
            _ => chk!(false, "no packet at an index after a failed read"),
        }
    }
    let _ = CAP;
}
/// The file is behind a buffer that is emptied by `flush`: what was inserted is there once the
/// insert has returned.
pub fn h_store_buffered() {
    let first = pick(5);
    let n = 5;
    let p: Vec<Packet> = (0..n).map(|i| shape((i + first) % 5)).collect();
    let mut d = Disk::new(Vec::new());
    d.lazy = true;
    let mut i = 0;
    while i < n {
        let Ok(mut w) = Writer::new(&mut d) else {
            chk!(false, "a storage cannot be reopened");
            return;
        };
        let k = (1 + pick(3)).min(n - i);
        for q in &p[i..i + k] {
            chk!(w.insert(clone_packet(q)).is_ok(), "a packet cannot be inserted");
        }
        drop(w);
        i += k;
        chk!(same_bytes(&d.data, &layout(&p[..i])), "an insert returns before its packet is in the file");
        d.pending.clear();
        d.pos = 0;
    }
    cover(1);
}
/// A long packet is not inserted because a write fails or the power goes; a shorter one takes its
/// place, so that bytes nothing refers to are left behind it.
pub fn h_store_leftover() {
    let n = pick(7);
    let p: Vec<Packet> = (0..n).map(|i| shape([0, 2][i % 2])).collect();
    let long = Packet::new(vec![], Some(Payload::Bytes(any_vec(40))));
    let mut d = stored(&p);
    let data = d.data.clone();
    let total = {
        d.written = 0;
        match Writer::new(&mut d) {
            Ok(mut w) => chk!(w.insert(clone_packet(&long)).is_ok(), "a packet cannot be inserted"),
            Err(_) => chk!(false, "a storage cannot be reopened"),
        }
        d.written
    };
    let slot_size = 16 + 8 * CAP + 4;
    let mut d = Disk::new(data);
    let mut now: Vec<Packet> = p.iter().map(clone_packet).collect();
    if pick(2) == 0 {
        // everything but the last write reaches the medium
        d.budget = Some(total - slot_size);
        match Writer::new(&mut d) {
            Ok(mut w) => {
                let _ = w.insert(clone_packet(&long));
            }
            Err(_) => chk!(false, "a storage cannot be reopened"),
        }
        d.budget = None;
        d.pos = 0;
    } else {
        // or a seek fails
        let Ok(mut w) = Writer::new(&mut d) else {
            chk!(false, "a storage cannot be reopened");
            return;
        };
        w_fail_seek(1 + pick(4));
        if w.insert(clone_packet(&long)).is_ok() {
            now.push(clone_packet(&long));
        }
        w_fail_seek(0);
        if pick(2) == 0 {
            let q = shape(2);
            chk!(w.insert(clone_packet(&q)).is_ok(), "a packet cannot be inserted");
            now.push(q);
        }
    }
    let more = pick(4);
    for i in 0..more {
        let q = shape([2, 0, 2][i]);
        match Writer::new(&mut d) {
            Ok(mut w) => chk!(w.insert(clone_packet(&q)).is_ok(), "a packet cannot be inserted"),
            Err(_) => chk!(false, "a storage cannot be reopened over bytes nothing refers to"),
        }
        now.push(q);
        d.pos = 0;
        match Reader::new(&mut d) {
            Ok(mut r) => {
                chk!(r.count() == now.len(), "wrong number of packets");
                yields(r.iter(), &now);
            }
            Err(_) => chk!(false, "a storage cannot be read because of bytes nothing refers to"),
        }
    }
    cover(1);
}
