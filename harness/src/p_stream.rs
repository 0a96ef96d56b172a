//! The stream reader: packets in any chunking and litter, damage, rules, faults of the source.
use crate::io::*;
use crate::proto::*;
use crate::rt::*;
use crate::{spec, wr};
use brec::prelude::*;
use brec::RuleFnDef;

pub static mut IGNORED: Vec<u8> = Vec::new();
pub fn ignored() -> &'static mut Vec<u8> {
    unsafe { &mut *std::ptr::addr_of_mut!(IGNORED) }
}
fn collect(b: &[u8]) {
    ignored().extend_from_slice(b);
}

/// The stream has the packet signature at `starts` and nowhere else.
pub fn assume_no_sig(v: &[u8], starts: &[usize]) {
    let sig = u64::from_le_bytes(spec::PACKET_SIG);
    let mut i = 0;
    while i + 8 <= v.len() {
        if !starts.contains(&i) {
            let mut w = [0u8; 8];
            w.copy_from_slice(&v[i..i + 8]);
            assume(u64::from_le_bytes(w) != sig);
        }
        i += 1;
    }
}

pub struct Seen {
    pub found: Vec<Packet>,
    pub errors: usize,
    pub skipped: usize,
    pub calls: usize,
}
/// Reads until the source is exhausted; more than `limit` calls is a violation.
pub fn drain<R: std::io::Read>(r: &mut PacketBufReader<'_, R>, limit: usize) -> Seen {
    let mut s = Seen { found: Vec::new(), errors: 0, skipped: 0, calls: 0 };
    loop {
        s.calls += 1;
        if s.calls > limit {
            chk!(false, "stream reader makes no progress");
            return s;
        }
        match r.read() {
            Ok(NextPacket::Found(p)) => s.found.push(p),
            Ok(NextPacket::Skipped) => s.skipped += 1,
            Ok(NextPacket::NoData) => break,
            Ok(_) => {}
            Err(_) => s.errors += 1,
        }
    }
    // an exhausted source stays exhausted
    for _ in 0..2 {
        match r.read() {
            Ok(NextPacket::NoData) => {}
            Ok(_) => chk!(false, "something is read behind the end of the source"),
            Err(_) => s.errors += 1,
        }
    }
    s
}
/// More calls than any reading of `n` bytes in chunks can take.
fn limit(n: usize) -> usize {
    3 * n + 16
}

/// Small packets of different shape: a block, a payload, nothing, a block without checksum and text.
pub fn shape(k: usize) -> Packet {
    match k {
        0 => Packet::new(vec![Block::Tiny(any())], None),
        1 => Packet::new(vec![], Some(Payload::Bytes(any_vec(2)))),
        2 => Packet::new(vec![], None),
        3 => Packet::new(vec![Block::Tiny(any()), Block::Blob(any())], Some(Payload::String(any_text(1)))),
        _ => Packet::new(vec![Block::Bare(any())], Some(Payload::Wide(Wide { v: any() }))),
    }
}
pub struct Stream {
    pub data: Vec<u8>,
    pub starts: Vec<usize>,
    pub packets: Vec<Packet>,
    pub litter: Vec<u8>,
}
/// litter, packet, litter, packet, .., litter
pub fn stream(shapes: &[usize], litter: &[usize]) -> Stream {
    let mut s = Stream { data: Vec::new(), starts: Vec::new(), packets: Vec::new(), litter: Vec::new() };
    for i in 0..litter.len() {
        let l = any_vec(litter[i]);
        s.data.extend_from_slice(&l);
        s.litter.extend_from_slice(&l);
        if i < shapes.len() {
            let p = shape(shapes[i]);
            s.starts.push(s.data.len());
            s.data.extend_from_slice(&wr::packet_bytes(&p));
            s.packets.push(p);
        }
    }
    assume_no_sig(&s.data, &s.starts);
    s
}
fn same_packets(found: &[Packet], want: &[Packet]) -> bool {
    if found.len() != want.len() {
        return false;
    }
    let mut ok = true;
    for (a, b) in found.iter().zip(want.iter()) {
        ok &= a.same(b);
    }
    ok
}
/// Chunk sizes: a first chunk of any length, a second one of any length, then `rest` at a time.
fn two_cuts(n: usize, rest: usize) -> Vec<usize> {
    let a = pick(n) + 1;
    let b = pick(n + 1 - a) + 1;
    let mut c = vec![a, b];
    if rest > 0 {
        c.resize(n, rest);
    }
    c
}
fn one_cut(n: usize, rest: usize) -> Vec<usize> {
    let mut c = vec![pick(n) + 1];
    if rest > 0 {
        c.resize(n, rest);
    }
    c
}

/// Everything unrelated is delivered once, in order; nothing of a packet is.
fn run_litter(s: Stream, cuts: Vec<usize>) {
    ignored().clear();
    let n = s.data.len();
    let mut src = Src::new(s.data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    chk!(r.add_rule(Rule::Ignored(RuleFnDef::Static(collect))).is_ok(), "rule refused");
    let seen = drain(&mut r, limit(n));
    chk!(same_bytes(ignored(), &s.litter), "unrelated data is not delivered exactly");
    log(seen.calls as u64);
    cover(1);
}
fn run(s: Stream, cuts: Vec<usize>) {
    let n = s.data.len();
    let mut src = Src::new(s.data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let seen = drain(&mut r, limit(n));
    chk!(seen.errors == 0, "error on a stream of intact packets");
    chk!(seen.skipped == 0, "packet skipped without a rule");
    chk!(seen.found.len() == s.packets.len(), "another number of packets found");
    chk!(same_packets(&seen.found, &s.packets), "other packets found");
    log(seen.calls as u64);
    log(seen.found.len() as u64);
    cover(1);
}

/// Any litter of up to three bytes around two packets, any cut, then whole, byte-wise or in sevens.
pub fn h_stream_litter() {
    litter(run)
}
pub fn h_litter_litter() {
    litter(run_litter)
}
fn litter(run: fn(Stream, Vec<usize>)) {
    let s = stream(&[[0, 1, 3, 2][pick(4)], 1], &[pick(4), pick(4), pick(3)]);
    let n = s.data.len();
    let cuts = match pick(3) {
        0 => vec![],
        1 => vec![1; n],
        _ => one_cut(n, 0),
    };
    run(s, cuts);
}
/// Two packets, any two cuts.
pub fn h_stream_cuts() {
    cuts(run)
}
pub fn h_litter_cuts() {
    cuts(run_litter)
}
fn cuts(run: fn(Stream, Vec<usize>)) {
    let s = match pick(4) {
        0 => stream(&[0, 1], &[0, 0, 0]),
        1 => stream(&[2, 0], &[3, 0, 2]),
        2 => stream(&[4, 2], &[0, 5, 0]),
        _ => stream(&[1, 2], &[1, 1, 9]),
    };
    let n = s.data.len();
    let rest = [0, 1, 7][pick(3)];
    run(s, two_cuts(n, rest));
}
/// Litter longer than a packet header, any cut.
pub fn h_stream_long_litter() {
    long_litter(run)
}
pub fn h_litter_long_litter() {
    long_litter(run_litter)
}
fn long_litter(run: fn(Stream, Vec<usize>)) {
    let a = [28, 29, 30, 37, 60][pick(5)];
    let s = match pick(3) {
        0 => stream(&[0], &[a, 0]),
        1 => stream(&[0], &[0, a]),
        _ => stream(&[2, 1], &[1, a, 31]),
    };
    let n = s.data.len();
    let rest = [0, 1, 30][pick(3)];
    run(s, one_cut(n, rest));
}
/// Four packets in one chunk, or in equal chunks of any size.
pub fn h_stream_many() {
    many(run)
}
pub fn h_litter_many() {
    many(run_litter)
}
fn many(run: fn(Stream, Vec<usize>)) {
    let l = [0, 2][pick(2)];
    let s = stream(&[3, 0, 4, 1], &[l, 0, l, 0, l]);
    let n = s.data.len();
    let c = pick(64);
    run(s, vec![c; n]);
}
/// Around the capacity of the internal buffer: the packet starts, or its parts continue, at every
/// position near the boundary.
pub fn h_stream_boundary() {
    boundary(run)
}
pub fn h_litter_boundary() {
    boundary(run_litter)
}
fn boundary(run: fn(Stream, Vec<usize>)) {
    let at = 8192 - 80 + pick(90);
    let mut data = vec![0x5au8; at];
    let v: [u8; 2] = any();
    data[at - 1] = v[0];
    data[0] = v[1];
    let mut s = Stream { litter: data.clone(), data, starts: vec![at], packets: vec![] };
    for k in [0, 1] {
        let p = shape(k);
        s.data.extend_from_slice(&wr::packet_bytes(&p));
        s.packets.push(p);
    }
    let tail = any_vec(1);
    s.data.extend_from_slice(&tail);
    s.litter.extend_from_slice(&tail);
    run(s, vec![]);
}
/// A packet larger than the internal buffer.
pub fn h_stream_large() {
    large(run)
}
pub fn h_litter_large() {
    large(run_litter)
}
fn large(run: fn(Stream, Vec<usize>)) {
    let mut body = vec![7u8; [8100, 8192, 9000, 16500][pick(4)]];
    let n = body.len();
    body[0] = any();
    body[n - 1] = any();
    let p = Packet::new(vec![Block::Tiny(any())], Some(Payload::Bytes(body)));
    let mut s = Stream { data: any_vec(pick(2)), starts: vec![], packets: vec![], litter: vec![] };
    s.litter = s.data.clone();
    s.data.extend_from_slice(&wr::packet_bytes(&p));
    s.packets.push(p);
    let q = shape(0);
    s.data.extend_from_slice(&wr::packet_bytes(&q));
    s.packets.push(q);
    run(s, vec![]);
}
/// Litter that ends like half a signature: the packet after it is still found.
pub fn h_stream_overlap() {
    let mut data = any_vec(pick(3));
    data.extend_from_slice(&spec::PACKET_SIG[..4]);
    let lit = data.len();
    let p = shape([0, 2][pick(2)]);
    data.extend_from_slice(&wr::packet_bytes(&p));
    assume_no_sig(&data, &[lit, lit - 4]);
    let n = data.len();
    let cuts = match pick(3) {
        0 => vec![1; n],
        k => one_cut(n, k - 1),
    };
    let mut src = Src::new(data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let seen = drain(&mut r, limit(n));
    chk!(seen.found.len() == 1, "packet after half a signature is not found");
    chk!(seen.found[0].same(&p), "another packet found");
    cover(1);
}

/// One damaged packet between two intact ones: `mask` over one or two bytes at any position.
fn damage(shape_mid: usize, width: usize) {
    let mut s = stream(&[0, shape_mid, 2], &[0, 0, 0, 0]);
    let (a, b) = (s.starts[1], s.starts[2]);
    let at = a + pick(b - a + 1 - width);
    let mask = any_vec(width);
    let mut any_set = false;
    for i in 0..width {
        s.data[at + i] ^= mask[i];
        any_set |= mask[i] != 0;
    }
    assume(any_set);
    assume_no_sig(&s.data, &s.starts);
    let n = s.data.len();
    let cuts = match pick(3) {
        0 => vec![],
        1 => vec![1; n],
        _ => vec![at + 1],
    };
    let mut src = Src::new(s.data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let seen = drain(&mut r, limit(n));
    let m = seen.found.len();
    chk!(m >= 2, "an intact packet next to a damaged one is lost");
    chk!(m <= 3, "more packets than written");
    chk!(seen.found[0].same(&s.packets[0]), "the packet before the damage is another one");
    chk!(seen.found[m - 1].same(&s.packets[2]), "the packet after the damage is another one");
    // a damaged byte may still stand for the same content (a flag that is neither 0 nor 1)
    chk!(m == 2 || seen.found[1].same(&s.packets[1]), "a damaged packet is accepted with other content");
    cover(1);
}
pub fn h_stream_damage_block() {
    damage(0, 1 + pick(2));
}
pub fn h_stream_damage_payload() {
    damage(1, 1);
}
pub fn h_stream_damage_mixed() {
    damage(3, 1);
}

/// A packet header with a valid checksum and any content, then bytes of any value: no panic, an end.
pub fn h_stream_forged() {
    let size: u64 = any();
    let blocks_len: u64 = any();
    let flag = pick(2) == 1;
    let mut data = wr::header_bytes(size, blocks_len, flag);
    match pick(4) {
        0 => data.extend_from_slice(&any_vec(0)),
        1 => data.extend_from_slice(&any_vec(11)),
        2 => {
            data.extend_from_slice(&wr::block_bytes(&Block::Tiny(any())));
            data.extend_from_slice(&any_vec(9));
        }
        _ => {
            data.extend_from_slice(&wr::payload_bytes(&Payload::Bytes(any_vec(1))));
            data.extend_from_slice(&any_vec(3));
        }
    }
    let n = data.len();
    let cuts = match pick(3) {
        0 => vec![],
        1 => vec![n - 1],
        _ => vec![1; n],
    };
    let mut src = Src::new(data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let seen = drain(&mut r, limit(n));
    log(seen.calls as u64);
    log(seen.found.len() as u64);
    log(seen.errors as u64);
    cover(1);
}
/// Any bytes.
pub fn h_stream_any() {
    let n = [1, 8, 29, 31, 33][pick(5)];
    let data = any_vec(n);
    let cuts = match pick(3) {
        0 => vec![],
        1 => vec![n / 2],
        _ => vec![1; n],
    };
    let mut src = Src::new(data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let seen = drain(&mut r, limit(n));
    log(seen.found.len() as u64);
    cover(1);
}
/// The stream stops anywhere inside a packet: what came before is delivered, then the end is reported.
pub fn h_stream_stops() {
    let mut s = stream(&[0, [1, 3][pick(2)]], &[1, 0]);
    let (a, n) = (s.starts[1], s.data.len());
    let cut = a + pick(n - a);
    s.data.truncate(cut);
    let cuts = match pick(2) {
        0 => vec![],
        _ => vec![1; cut],
    };
    let mut src = Src::new(s.data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let seen = drain(&mut r, limit(n));
    chk!(seen.errors == 0, "error on a stream that stops inside a packet");
    chk!((seen.found.len() == 1) && seen.found[0].same(&s.packets[0]), "packets before the stop are lost");
    cover(1);
}

/// Fails once on its `at`-th call, then goes on.
pub struct Flaky {
    pub src: Src,
    pub at: usize,
    pub kind: std::io::ErrorKind,
    pub done: bool,
}
impl std::io::Read for Flaky {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if !self.done && self.src.call == self.at {
            self.done = true;
            return Err(std::io::Error::from(self.kind));
        }
        self.src.read(buf)
    }
}
/// One failing read at any call: nothing is lost if reading goes on.
pub fn h_stream_flaky() {
    let s = stream(&[0, 1, 3], &[1, 0, 2, 0]);
    let n = s.data.len();
    let cuts = match pick(3) {
        0 => vec![1; n],
        1 => vec![13; n],
        _ => vec![30; n],
    };
    ignored().clear();
    let calls = match cuts[0] {
        1 => n,
        c => n / c + 1,
    };
    let at = pick(calls + 1);
    let kind = [std::io::ErrorKind::WouldBlock, std::io::ErrorKind::TimedOut, std::io::ErrorKind::Interrupted][pick(3)];
    let mut src = Flaky { src: Src::new(s.data, cuts), at, kind, done: false };
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    chk!(r.add_rule(Rule::Ignored(RuleFnDef::Static(collect))).is_ok(), "rule refused");
    let seen = drain(&mut r, limit(n));
    chk!(seen.errors <= 1, "one failing read is reported more than once");
    chk!(same_packets(&seen.found, &s.packets), "packets are lost after a failing read");
    chk!(same_bytes(ignored(), &s.litter), "unrelated data is lost after a failing read");
    cover(1);
}

// ------------------------------------------------------------------------------------- rules

/// What the rules decide and what they were shown, per packet.
pub struct Shown {
    pub keep: [bool; 3],
    pub blocks: Vec<Vec<Block>>,
    pub bodies: Vec<Vec<u8>>,
    pub packets: Vec<Packet>,
}
pub static mut SHOWN: Option<Shown> = None;
pub fn shown() -> &'static mut Shown {
    unsafe { (*std::ptr::addr_of_mut!(SHOWN)).as_mut().unwrap() }
}
pub fn reset_shown(keep: [bool; 3]) {
    unsafe {
        *std::ptr::addr_of_mut!(SHOWN) =
            Some(Shown { keep, blocks: vec![], bodies: vec![], packets: vec![] })
    }
}
fn view(b: &BlockReferred<'_>) -> Block {
    match b {
        BlockReferred::Tiny(b) => Block::Tiny(Tiny { v: b.v }),
        BlockReferred::Blob(b) => Block::Blob(Blob {
            head: *b.head,
            n: b.n,
            mid: *b.mid,
            mid2: *b.mid2,
            w: b.w,
            last: *b.last,
        }),
        BlockReferred::Bare(b) => Block::Bare(Bare { v: b.v, b: *b.b }),
        _ => {
            chk!(false, "rule is shown a block of another kind");
            Block::Tiny(Tiny { v: 0 })
        }
    }
}
pub fn by_blocks(b: &[BlockReferred<'_>]) -> bool {
    let s = shown();
    s.blocks.push(b.iter().map(view).collect());
    s.keep[0]
}
pub fn by_payload(b: &[u8]) -> bool {
    let s = shown();
    s.bodies.push(b.to_vec());
    s.keep[1]
}
pub fn by_packet(p: &Packet) -> bool {
    let s = shown();
    s.packets.push(clone_packet(p));
    s.keep[2]
}
pub fn body_of(p: &Packet) -> Option<Vec<u8>> {
    match p.payload.as_ref()? {
        Payload::Bytes(v) => Some(v.clone()),
        Payload::String(v) => Some(v.as_bytes().to_vec()),
        Payload::Wide(v) => Some(v.v.to_le_bytes().to_vec()),
        _ => None,
    }
}
/// What must have been shown for packet `p` under rules `set` with verdicts `keep`; -> accepted
pub fn expect_shown(p: &Packet, set: [bool; 3], keep: [bool; 3]) -> bool {
    let s = shown();
    let mut alive = true;
    if set[0] {
        chk!(s.blocks.len() == 1, "the rule on blocks is not asked exactly once");
        chk!(s.blocks[0].len() == p.blocks.len(), "the rule on blocks is shown another number of blocks");
        for (a, b) in s.blocks[0].iter().zip(p.blocks.iter()) {
            chk!(a.same(b), "the rule on blocks is shown another block");
        }
        alive &= keep[0];
    }
    if alive && set[1] && p.payload.is_some() {
        chk!(s.bodies.len() == 1, "the rule on the payload is not asked exactly once");
        chk!(same_bytes(&s.bodies[0], &body_of(p).unwrap()), "the rule on the payload is shown other bytes");
        alive &= keep[1];
    } else {
        chk!(s.bodies.is_empty(), "the rule on the payload is asked needlessly");
    }
    if alive && set[2] {
        chk!(s.packets.len() == 1, "the rule on the packet is not asked exactly once");
        chk!(s.packets[0].same(p), "the rule on the packet is shown another packet");
        alive &= keep[2];
    } else {
        chk!(s.packets.is_empty(), "the rule on the packet is asked needlessly");
    }
    alive
}
fn bits(v: usize) -> [bool; 3] {
    [v & 1 > 0, v & 2 > 0, v & 4 > 0]
}
/// All subsets of rules, all verdicts: a packet is found iff every applicable rule accepts it, and
/// the packet after it is not affected.
pub fn h_rules_stream() {
    let set = bits(pick(8));
    let keep = bits(pick(8));
    let dynamic = pick(2) == 1;
    let s = stream(&[[0, 1, 3, 4][pick(4)], 0], &[0, 0, 0]);
    reset_shown(keep);
    let cuts = match pick(2) {
        0 => vec![],
        _ => vec![s.starts[1] - 1],
    };
    let mut src = Src::new(s.data, cuts);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let mut ok = true;
    if set[2] {
        ok &= r.add_rule(Rule::Filter(if dynamic { RuleFnDef::Dynamic(Box::new(by_packet)) } else { RuleFnDef::Static(by_packet) })).is_ok();
    }
    if set[0] {
        ok &= r.add_rule(Rule::FilterByBlocks(if dynamic { RuleFnDef::Dynamic(Box::new(|b| by_blocks(b))) } else { RuleFnDef::Static(|b| by_blocks(b)) })).is_ok();
        chk!(r.add_rule(Rule::FilterByBlocks(RuleFnDef::Static(|b| by_blocks(b)))).is_err(), "a second rule of a kind is taken");
    }
    if set[1] {
        ok &= r.add_rule(Rule::FilterByPayload(if dynamic { RuleFnDef::Dynamic(Box::new(by_payload)) } else { RuleFnDef::Static(by_payload) })).is_ok();
        chk!(r.add_rule(Rule::FilterByPayload(RuleFnDef::Static(by_payload))).is_err(), "a second rule of a kind is taken");
    }
    if set[2] {
        chk!(r.add_rule(Rule::Filter(RuleFnDef::Static(by_packet))).is_err(), "a second rule of a kind is taken");
    }
    chk!(ok, "a rule is refused");
    let mut verdict = None;
    for _ in 0..6 {
        match r.read() {
            Ok(NextPacket::Found(p)) => {
                verdict = Some(Some(p));
                break;
            }
            Ok(NextPacket::Skipped) => {
                verdict = Some(None);
                break;
            }
            Ok(NextPacket::NotEnoughData(_)) | Ok(NextPacket::NotFound) => {}
            _ => break,
        }
    }
    let want = expect_shown(&s.packets[0], set, keep);
    match verdict {
        Some(Some(p)) => {
            chk!(want, "a packet passes although a rule refuses it");
            chk!(p.same(&s.packets[0]), "another packet passes the rules");
            cover(1);
        }
        Some(None) => {
            chk!(!want, "a packet is skipped although every rule accepts it");
            cover(2);
        }
        None => chk!(false, "neither found nor skipped"),
    }
    // the next one, with the rules removed
    r.remove_rule(RuleDefId::FilterByBlocks);
    r.remove_rule(RuleDefId::FilterByPayload);
    r.remove_rule(RuleDefId::Filter);
    let seen = drain(&mut r, 100);
    chk!((seen.found.len() == 1) && (seen.skipped == 0) && (seen.errors == 0), "the packet after a filtered one is lost");
    chk!(seen.found[0].same(&s.packets[1]), "the packet after a filtered one is another one");
}
/// The same for a single packet looked into.
pub fn h_rules_packet() {
    let set = bits(pick(8));
    let keep = bits(pick(8));
    let p = shape([0, 1, 3, 4][pick(4)]);
    let mut data = wr::packet_bytes(&p);
    let n = data.len();
    data.extend_from_slice(&any_vec(1));
    reset_shown(keep);
    let mut rules = Rules::default();
    if set[1] {
        chk!(rules.add_rule(Rule::FilterByPayload(RuleFnDef::Static(by_payload))).is_ok(), "a rule is refused");
    }
    if set[2] {
        chk!(rules.add_rule(Rule::Filter(RuleFnDef::Static(by_packet))).is_ok(), "a rule is refused");
    }
    if set[0] {
        chk!(rules.add_rule(Rule::FilterByBlocks(RuleFnDef::Static(|b| by_blocks(b)))).is_ok(), "a rule is refused");
    }
    let mut c = std::io::Cursor::new(data);
    let r = Packet::filtered(&mut c, &rules);
    let want = expect_shown(&p, set, keep);
    match r {
        Ok(LookInStatus::Accepted(size, q)) => {
            chk!(want, "a packet is accepted although a rule refuses it");
            chk!(q.same(&p) & (size == n - spec::HEADER), "another packet is accepted");
            chk!(c.position() == n as u64, "an accepted packet is not consumed");
            cover(1);
        }
        Ok(LookInStatus::Denied(size)) => {
            chk!(!want, "a packet is denied although every rule accepts it");
            chk!(size == n - spec::HEADER, "a denied packet has another size");
            chk!(c.position() == n as u64, "a denied packet is not consumed");
            cover(2);
        }
        _ => chk!(false, "neither accepted nor denied"),
    }
}
/// Removing one kind of rule leaves the others.
pub fn h_rules_remove() {
    let gone = pick(4);
    let s = stream(&[3], &[2, 0]);
    reset_shown([true; 3]);
    ignored().clear();
    let mut src = Src::new(s.data, vec![]);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let _ = r.add_rule(Rule::FilterByBlocks(RuleFnDef::Static(|b| by_blocks(b))));
    let _ = r.add_rule(Rule::FilterByPayload(RuleFnDef::Static(by_payload)));
    let _ = r.add_rule(Rule::Filter(RuleFnDef::Static(by_packet)));
    let _ = r.add_rule(Rule::Ignored(RuleFnDef::Static(collect)));
    chk!(r.add_rule(Rule::Ignored(RuleFnDef::Static(collect))).is_err(), "a second rule of a kind is taken");
    r.remove_rule(match gone {
        0 => RuleDefId::FilterByBlocks,
        1 => RuleDefId::FilterByPayload,
        2 => RuleDefId::Filter,
        _ => RuleDefId::Ignored,
    });
    let seen = drain(&mut r, 100);
    chk!(same_packets(&seen.found, &s.packets), "accepted packet not found");
    let sh = shown();
    chk!(sh.blocks.len() == (gone != 0) as usize, "rule on blocks");
    chk!(sh.bodies.len() == (gone != 1) as usize, "rule on payload");
    chk!(sh.packets.len() == (gone != 2) as usize, "rule on packet");
    chk!(ignored().len() == if gone != 3 { 2 } else { 0 }, "rule on unrelated data");
    cover(1);
}
