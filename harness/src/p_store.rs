//! The storage: access across slots, reopening, filters, reload, layout, crashes, failing writes,
//! damaged metadata. Slots hold three packets here (`--cfg brec_verif`).
use crate::io::*;
use crate::p_stream::{drain, shape};
use crate::proto::*;
use crate::rt::*;
use crate::{spec, wr};
use brec::prelude::*;
use brec::RuleFnDef;
use std::cell::RefCell;
use std::io::{Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

pub const CAP: usize = if cfg!(brec_verif) { 3 } else { 500 };
const SLOT: usize = 16 + 8 * CAP + 4;

/// `n` packets of varying shape.
fn packets(n: usize, first: usize) -> Vec<Packet> {
    (0..n).map(|i| shape((i + first) % 5)).collect()
}
/// The file the documentation describes: a slot of metadata, its packets, the next slot, ..
pub fn layout(p: &[Packet]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < p.len() {
        let n = (p.len() - i).min(CAP);
        let bodies: Vec<Vec<u8>> = p[i..i + n].iter().map(spec::packet_bytes).collect();
        let mut lens: Vec<u64> = bodies.iter().map(|b| b.len() as u64).collect();
        lens.resize(CAP, 0);
        v.extend_from_slice(&spec::slot_bytes(&lens));
        for b in &bodies {
            v.extend_from_slice(b);
        }
        i += n;
    }
    v
}
fn insert_all<S: Read + Write + Seek>(w: &mut Writer<S>, p: &[Packet]) {
    for p in p {
        chk!(w.insert(clone_packet(p)).is_ok(), "a packet cannot be inserted");
    }
}
pub fn stored(p: &[Packet]) -> Disk {
    let mut d = Disk::new(Vec::new());
    match Writer::new(&mut d) {
        Ok(mut w) => insert_all(&mut w, p),
        Err(_) => chk!(false, "an empty storage cannot be opened"),
    }
    d.pos = 0;
    d
}
pub fn open(d: &mut Disk) -> Reader<&mut Disk> {
    match Reader::new(d) {
        Ok(r) => r,
        Err(_) => {
            chk!(false, "a storage cannot be opened for reading");
            panic!()
        }
    }
}
/// Exactly `want`, then the end (and it stays the end).
pub fn yields<E, I: Iterator<Item = std::result::Result<Packet, E>>>(mut it: I, want: &[Packet]) {
    for w in want {
        match it.next() {
            Some(Ok(p)) => chk!(p.same(w), "another packet is read from storage"),
            Some(Err(_)) => chk!(false, "a stored packet cannot be read"),
            None => chk!(false, "a stored packet is missing"),
        }
    }
    chk!(it.next().is_none(), "more packets are read than stored");
    chk!(it.next().is_none(), "reading goes on after the end");
}
fn all_access(r: &mut Reader<&mut Disk>, p: &[Packet]) {
    chk!(r.count() == p.len(), "wrong number of packets");
    yields(r.iter(), p);
    for (i, w) in p.iter().enumerate() {
        match r.nth(i) {
            Ok(Some(g)) => chk!(g.same(w), "another packet at an index"),
            _ => chk!(false, "no packet at an index"),
        }
    }
}

/// One operation of a reader against the packets it has to see.
fn operation(r: &mut Reader<&mut Disk>, p: &[Packet], op: usize) {
    let n = p.len();
    match op {
        0 => {
            yields(r.iter(), p);
            chk!(r.count() == n, "wrong number of packets");
        }
        1 => {
            let i = pick(n + CAP + 2);
            match r.nth(i) {
                Ok(Some(g)) => chk!((i < n) && g.same(&p[i]), "another packet at an index"),
                Ok(None) => chk!(i >= n, "a stored packet is not found by its index"),
                Err(_) => chk!(false, "access by index fails"),
            }
        }
        2 => {
            let from = pick(n + 2);
            let len = pick(n + 2);
            let a = from.min(n);
            let b = (from + len).min(n);
            yields(r.range(from, len), &p[a..b]);
        }
        3 => {
            let i = pick(n + CAP + 1);
            match r.seek(i) {
                Ok(it) => {
                    chk!(i < n, "a position behind the last packet is accepted");
                    yields(it, &p[i.min(n)..]);
                }
                Err(_) => chk!(i >= n, "a stored packet cannot be sought"),
            }
        }
        4 => yields(r.filtered(), p),
        5 => {
            let from = pick(n + 2);
            let len = pick(n + 2);
            let a = from.min(n);
            let b = (from + len).min(n);
            yields(r.range_filtered(from, len), &p[a..b]);
        }
        _ => {
            // an iterator given up on the way
            let mut it = r.iter();
            for w in p.iter().take(2) {
                match it.next() {
                    Some(Ok(g)) => chk!(g.same(w), "another packet is read from storage"),
                    _ => chk!(false, "a stored packet cannot be read"),
                }
            }
        }
    }
}

pub fn h_store_rt() {
    let n = pick(8);
    let first = pick(5);
    let p = packets(n, first);
    let mut d = stored(&p);
    let mut r = open(&mut d);
    operation(&mut r, &p, pick(6));
    cover(1);
}
/// What one access leaves behind must not matter to the next.
pub fn h_store_ops() {
    let n = [1, 3, 5][pick(3)];
    let p = packets(n, pick(2) * 3);
    let mut d = stored(&p);
    let mut r = open(&mut d);
    operation(&mut r, &p, pick(7));
    operation(&mut r, &p, pick(6));
    cover(1);
}
/// Sources that return short reads.
pub fn h_store_short() {
    let n = pick(6);
    let p = packets(n, pick(5));
    let mut d = stored(&p);
    d.short = [1, 7][pick(2)];
    let mut r = open(&mut d);
    all_access(&mut r, &p);
    cover(1);
}

pub fn h_store_layout() {
    let n = pick(8);
    let p = packets(n, pick(5));
    let d = stored(&p);
    chk!(same_bytes(&d.data, &layout(&p)), "the storage differs from the specified layout");
    cover(1);
}
/// Packets of every block and payload kind in storage.
pub fn h_store_kinds() {
    let p = match pick(2) {
        0 => vec![Packet::new(vec![any_block(), small_block()], None), shape(2)],
        _ => vec![Packet::new(vec![], Some(payload_of(pick(PAYLOADS)))), shape(2)],
    };
    let mut d = stored(&p);
    chk!(same_bytes(&d.data, &layout(&p)), "the storage differs from the specified layout");
    let mut r = open(&mut d);
    all_access(&mut r, &p);
    cover(1);
}

/// Closing and opening again anywhere in a history does not matter.
pub fn h_store_reopen() {
    let n = pick(8);
    let a = pick(n + 1);
    let b = a + pick(n - a + 1);
    let p = packets(n, pick(5));
    let mut d = Disk::new(Vec::new());
    d.short = [0, 5][pick(2)];
    for part in [&p[..a], &p[a..b], &p[b..]] {
        match Writer::new(&mut d) {
            Ok(mut w) => insert_all(&mut w, part),
            Err(_) => chk!(false, "a storage cannot be reopened"),
        }
        d.pos = pick(2) as u64;
    }
    d.short = 0;
    chk!(same_bytes(&d.data, &layout(&p)), "the storage differs after reopening");
    let mut r = open(&mut d);
    all_access(&mut r, &p);
    cover(1);
}

fn odd(v: u8) -> bool {
    v & 1 == 1
}
fn blocks_verdict(b: &[BlockReferred]) -> bool {
    match b.first() {
        Some(BlockReferred::Tiny(t)) => odd(t.v),
        _ => true,
    }
}
fn payload_verdict(b: &[u8]) -> bool {
    match b.first() {
        Some(b) => odd(*b),
        None => true,
    }
}
fn packet_verdict(p: &Packet) -> bool {
    match (p.blocks.first(), &p.payload) {
        (Some(Block::Tiny(t)), _) => t.v & 2 == 2,
        (_, Some(Payload::Bytes(b))) => b[1] & 1 == 1,
        _ => true,
    }
}
fn wanted(p: &Packet, set: usize) -> bool {
    if set & 1 != 0 {
        if let Some(Block::Tiny(t)) = p.blocks.first() {
            if !odd(t.v) {
                return false;
            }
        }
    }
    if set & 2 != 0 {
        match &p.payload {
            Some(Payload::Bytes(b)) if !odd(b[0]) => return false,
            Some(Payload::String(b)) if !odd(b.as_bytes()[0]) => return false,
            _ => {}
        }
    }
    set & 4 == 0 || packet_verdict(p)
}
/// Filtered reading gives exactly the packets the rules accept, in order; a range gives the first
/// `len` of them from `from` on.
pub fn h_store_filtered() {
    let set = pick(8);
    let n = [2, 5][pick(2)];
    let p: Vec<Packet> = (0..n).map(|i| shape([0, 1, 0, 3, 1][(i + pick_once(i)) % 5])).collect();
    let mut d = stored(&p);
    let mut r = open(&mut d);
    let mut ok = true;
    if set & 1 != 0 {
        ok &= r.add_rule(Rule::FilterByBlocks(RuleFnDef::Static(|b| blocks_verdict(b)))).is_ok();
    }
    if set & 2 != 0 {
        ok &= r.add_rule(Rule::FilterByPayload(RuleFnDef::Static(payload_verdict))).is_ok();
    }
    if set & 4 != 0 {
        ok &= r.add_rule(Rule::Filter(RuleFnDef::Static(packet_verdict))).is_ok();
    }
    chk!(ok, "a rule is refused");
    let op = pick(3);
    let from = if op == 1 { pick(n + 1) } else { 0 };
    let len = if op == 1 { pick(n + 1) } else { n };
    let mut want = Vec::new();
    for w in &p[from..] {
        if want.len() < len && wanted(w, set) {
            want.push(clone_packet(w));
        }
    }
    if !want.is_empty() {
        cover(1);
    }
    if want.len() < n {
        cover(2);
    }
    match op {
        0 => yields(r.filtered(), &want),
        1 => yields(r.range_filtered(from, len), &want),
        _ => {
            // rules do not touch the other ways to read, and can be taken away
            all_access(&mut r, &p);
            yields(r.range(0, n), &p);
            r.remove_rule(RuleDefId::FilterByBlocks);
            r.remove_rule(RuleDefId::FilterByPayload);
            r.remove_rule(RuleDefId::Filter);
            yields(r.filtered(), &p);
            yields(r.range_filtered(0, n), &p);
        }
    }
}
fn pick_once(i: usize) -> usize {
    if i == 0 {
        pick(2)
    } else {
        0
    }
}

/// One file, several handles with a position of their own.
#[derive(Clone)]
pub struct Shared {
    data: Rc<RefCell<Disk>>,
    pos: u64,
}
impl Shared {
    pub fn new(data: Vec<u8>) -> Self {
        Shared { data: Rc::new(RefCell::new(Disk::new(data))), pos: 0 }
    }
    pub fn set(&self, data: Vec<u8>) {
        self.data.borrow_mut().data = data;
    }
}
impl Read for Shared {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut d = self.data.borrow_mut();
        d.pos = self.pos;
        let n = d.read(buf)?;
        self.pos = d.pos;
        Ok(n)
    }
}
impl Write for Shared {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut d = self.data.borrow_mut();
        d.pos = self.pos;
        let n = d.write(buf)?;
        self.pos = d.pos;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for Shared {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let mut d = self.data.borrow_mut();
        d.pos = self.pos;
        self.pos = d.seek(p)?;
        Ok(self.pos)
    }
}
/// A reader that reloads sees exactly what a writer has inserted since.
pub fn h_store_reload() {
    let first = pick(2) * 2;
    let rounds = [pick(5), pick(5), pick(4), pick(3)];
    let total: usize = rounds.iter().sum();
    let p = packets(total, first);
    let file = Shared::new(Vec::new());
    let Ok(mut w) = Writer::new(file.clone()) else {
        chk!(false, "an empty storage cannot be opened");
        return;
    };
    let mut n = rounds[0];
    insert_all(&mut w, &p[..n]);
    let Ok(mut r) = Reader::new(file.clone()) else {
        chk!(false, "a storage cannot be opened for reading");
        return;
    };
    chk!(r.count() == n, "wrong number of packets");
    for k in &rounds[1..] {
        insert_all(&mut w, &p[n..n + k]);
        chk!(r.count() == n, "a reader counts what it has not loaded");
        match r.reload() {
            Ok(m) => chk!(m == *k, "reload reports another number of new packets"),
            Err(_) => chk!(false, "reload fails"),
        }
        n += k;
        chk!(r.count() == n, "wrong number of packets after reload");
    }
    yields(r.iter(), &p);
    for (i, w) in p.iter().enumerate() {
        match r.nth(i) {
            Ok(Some(g)) => chk!(g.same(w), "another packet at an index after reload"),
            _ => chk!(false, "no packet at an index after reload"),
        }
    }
    chk!(matches!(r.nth(n), Ok(None)), "a packet behind the last one");
    cover(1);
}

/// Everything a plain stream reader finds in the file.
fn recovered(d: &Disk, want: &[Packet], also: Option<&Packet>) {
    let n = d.data.len();
    let mut src = Src::new(d.data.clone(), vec![]);
    let mut r: PacketBufReader<_> = PacketBufReader::new(&mut src);
    let seen = drain(&mut r, 3 * n + 16);
    let all = seen.found.len();
    chk!(all == want.len() || (also.is_some() && all == want.len() + 1), "recovery finds another number of packets");
    let mut ok = true;
    for (a, b) in seen.found.iter().zip(want.iter()) {
        ok &= a.same(b);
    }
    if let (Some(a), Some(b)) = (seen.found.get(want.len()), also) {
        ok &= a.same(b);
    }
    chk!(ok, "recovery finds another packet");
}
fn no_sig(v: &[u8], p: &[Packet]) {
    // content does not imitate the start of a packet
    let mut starts = Vec::new();
    let mut at = 0;
    for (i, p) in p.iter().enumerate() {
        if i % CAP == 0 {
            at += SLOT;
        }
        starts.push(at);
        at += wr::packet_bytes(p).len();
    }
    crate::p_stream::assume_no_sig(v, &starts);
}

/// The power goes after any byte of an insert.
pub fn h_store_crash() {
    let n = pick(5);
    let p = packets(n + 2, pick(2) * 3);
    let mut d = stored(&p[..n]);
    let full = layout(&p[..n + 1]);
    no_sig(&full, &p[..n + 1]);
    let slot_at = layout(&p[..n - n % CAP]).len();
    // how much an insert writes
    let total = {
        let mut t = Disk::new(d.data.clone());
        match Writer::new(&mut t) {
            Ok(mut w) => insert_all(&mut w, &p[n..n + 1]),
            Err(_) => chk!(false, "a storage cannot be reopened"),
        }
        chk!(same_bytes(&t.data, &full), "the storage differs from the specified layout");
        t.written
    };
    let budget = pick(total + 1);
    d.budget = Some(budget);
    {
        let Ok(mut w) = Writer::new(&mut d) else {
            chk!(false, "a storage cannot be reopened");
            return;
        };
        chk!(w.insert(clone_packet(&p[n])).is_ok(), "a packet cannot be inserted");
    }
    d.budget = None;
    d.pos = 0;
    // packets of before are never gone
    recovered(&d, &p[..n], Some(&p[n]));
    // the metadata of the last slot is on the medium only in part
    let torn = d.data.len() >= slot_at + SLOT && {
        let now = &d.data[slot_at..slot_at + SLOT];
        let empty = spec::slot_bytes(&[0; CAP]);
        let old = if n % CAP == 0 { empty } else { layout(&p[..n])[slot_at..slot_at + SLOT].to_vec() };
        !same_bytes(now, &old) && !same_bytes(now, &full[slot_at..slot_at + SLOT])
    };
    match Reader::new(&mut d) {
        Ok(mut r) => {
            let have = r.count();
            chk!(have == n || have == n + 1, "an interrupted insert changes the number of packets");
            all_access(&mut r, &p[..have.min(n + 1)]);
            drop(r);
            // and storing goes on
            match Writer::new(&mut d) {
                Ok(mut w) => insert_all(&mut w, &p[n + 1..]),
                Err(_) => chk!(false, "a storage cannot be used after an interrupted insert"),
            }
            let mut now: Vec<Packet> = p[..have].iter().map(clone_packet).collect();
            now.push(clone_packet(&p[n + 1]));
            let mut r = open(&mut d);
            all_access(&mut r, &now);
            cover(1);
        }
        Err(_) => {
            chk!(torn, "an interrupted insert makes the storage unreadable");
            chk!(Writer::new(&mut d).is_err(), "a writer goes on over a damaged slot");
            cover(2);
        }
    }
}
/// A storage cut anywhere: no panic, no wrong packet, an end.
pub fn h_store_trunc() {
    let n = [1, 3, 4][pick(3)];
    let p = packets(n, pick(2) * 3);
    let mut d = stored(&p);
    let full = d.data.len();
    let cut = pick(full);
    d.data.truncate(cut);
    let mut whole = 0;
    while whole < n && layout(&p[..whole + 1]).len() <= cut {
        whole += 1;
    }
    match Reader::new(&mut d) {
        Ok(mut r) => {
            let mut got = 0;
            let mut ended = false;
            let mut broken = false;
            let mut it = r.iter();
            for _ in 0..cut + 4 {
                match it.next() {
                    Some(Ok(g)) => {
                        chk!(!broken && got < whole && g.same(&p[got]), "a packet which is not complete is read");
                        got += 1;
                    }
                    Some(Err(_)) => broken = true,
                    None => {
                        ended = true;
                        break;
                    }
                }
            }
            drop(it);
            chk!(ended, "reading of a truncated storage does not end");
            chk!(got == whole, "a complete packet of a truncated storage is lost");
            for i in 0..n + 1 {
                match r.nth(i) {
                    Ok(Some(g)) => chk!((i < whole) && g.same(&p[i.min(n - 1)]), "a packet which is not complete is read"),
                    _ => chk!(i >= whole, "a complete packet of a truncated storage is lost"),
                }
            }
            cover(1);
        }
        Err(_) => chk!(false, "a truncated storage cannot be opened"),
    }
}
/// A write fails, having written nothing, a part or all of its bytes; storing goes on.
pub fn h_store_fail() {
    let n = pick(4);
    let p = packets(n + 4, pick(2) * 3);
    let mut d = stored(&p[..n]);
    d.writes = 0;
    d.fail_at = Some(pick(7));
    d.fail_keep = [0, 1, 30, 1000][pick(4)];
    let mut now: Vec<Packet> = p[..n].iter().map(clone_packet).collect();
    {
        let Ok(mut w) = Writer::new(&mut d) else {
            chk!(false, "a storage cannot be reopened");
            return;
        };
        let mut failed = 0;
        for q in &p[n..n + 3] {
            match w.insert(clone_packet(q)) {
                Ok(()) => now.push(clone_packet(q)),
                Err(_) => {
                    failed += 1;
                    cover(1);
                }
            }
        }
        chk!(failed <= 1, "an insert fails although its writes do not");
        chk!(w.insert(clone_packet(&p[n + 3])).is_ok(), "an insert fails although its writes do not");
        now.push(clone_packet(&p[n + 3]));
    }
    d.fail_at = None;
    let mut r = open(&mut d);
    all_access(&mut r, &now);
    drop(r);
    // a writer opened later goes on from there
    {
        let Ok(mut w) = Writer::new(&mut d) else {
            chk!(false, "a storage cannot be reopened");
            return;
        };
        chk!(w.insert(clone_packet(&p[0])).is_ok(), "a packet cannot be inserted");
    }
    now.push(clone_packet(&p[0]));
    let mut r = open(&mut d);
    all_access(&mut r, &now);
}

/// Up to four neighbouring bytes of a slot's metadata are damaged.
pub fn h_store_damage_slot() {
    let n = [1, 2, 4][pick(3)];
    let p = packets(n, 0);
    let mut d = stored(&p);
    let base = if n > CAP { pick(2) * layout(&p[..CAP]).len() } else { 0 };
    let at = pick(SLOT);
    let wide = (SLOT - at).min(4);
    let mask: [u8; 4] = any();
    assume(mask[0] != 0);
    for i in 0..wide {
        d.data[base + at + i] ^= mask[i];
    }
    match Reader::new(&mut d) {
        Ok(_) => chk!(false, "a damaged slot is accepted"),
        Err(_) => cover(1),
    }
    chk!(Writer::new(&mut d).is_err(), "a writer accepts a damaged slot");
}
/// One slot's metadata is replaced with anything: every packet can still be recovered.
pub fn h_store_recover() {
    let n = 1 + pick(5);
    let p = packets(n, pick(5));
    let mut d = stored(&p);
    let base = if n > CAP { pick(2) * layout(&p[..CAP]).len() } else { 0 };
    let from = [0, 8, 16][pick(3)];
    let any = any_vec(SLOT - from);
    d.data[base + from..base + SLOT].copy_from_slice(&any);
    no_sig(&d.data, &p);
    recovered(&d, &p, None);
    cover(1);
}
/// A file that is a storage only by its signatures and checksums: any lengths.
pub fn h_store_any() {
    // the number of entries, one of them any number, the others alike
    let tail = pick(3);
    let op = pick(5);
    let cap = [0, 1, 3][if tail == 1 { pick(3) } else { pick(2) }];
    let rest = [0, 29, u64::MAX - 20][if cap > 1 { pick(3) } else { 0 }];
    let mut lens = vec![rest; cap];
    if cap > 0 {
        let k = if cap > 1 { pick(2) * (cap - 1) } else { 0 };
        lens[k] = any();
    }
    let mut data = spec::slot_bytes(&lens);
    match tail {
        0 => {}
        1 => data.extend_from_slice(&spec::packet_bytes(&shape(2))),
        _ => data.extend_from_slice(&spec::slot_bytes(&[any()])),
    }
    let n = data.len();
    let mut d = Disk::new(data);
    if op == 4 {
        if let Ok(mut w) = Writer::new(&mut d) {
            let _ = w.insert(shape(2));
        }
        cover(2);
        return;
    }
    let Ok(mut r) = Reader::new(&mut d) else { return };
    cover(1);
    let mut left = 4 * n + 16;
    match op {
        0 => {
            let mut it = r.iter();
            while it.next().is_some() {
                left -= 1;
                if left == 0 {
                    chk!(false, "reading of a storage does not end");
                }
            }
        }
        1 => {
            let _ = r.nth([0, 1, 3][pick(3)]);
            let _ = r.count();
        }
        2 => {
            if let Ok(mut it) = r.seek([0, 1, 3][pick(3)]) {
                while it.next().is_some() {
                    left -= 1;
                    if left == 0 {
                        chk!(false, "reading of a storage does not end");
                    }
                }
            }
        }
        _ => {
            let _ = r.reload();
        }
    }
}
/// A file of any bytes.
pub fn h_store_any_bytes() {
    let sig = pick(2) == 1;
    let n = [0, 1, 8, 16, 20, 28, 36][pick(7)];
    let mut data = if sig { spec::SLOT_SIG.to_vec() } else { vec![] };
    data.extend_from_slice(&any_vec(n));
    let mut d = Disk::new(data);
    let w = Writer::new(&mut d).is_ok();
    d.pos = 0;
    match Reader::new(&mut d) {
        Ok(mut r) => {
            chk!(w, "a storage can be read but not written");
            let _ = r.count();
            let _ = r.nth(0);
            cover(1);
        }
        Err(_) => {
            chk!(!w, "a storage can be written but not read");
            cover(2);
        }
    }
}
/// Damage to one packet does not reach the others.
pub fn h_store_damage_packet() {
    let n = 4;
    let p = packets(n, pick(2) * 3);
    let mut d = stored(&p);
    let k = pick(n);
    let at = layout(&p[..k]).len() + if k % CAP == 0 { SLOT } else { 0 };
    let len = wr::packet_bytes(&p[k]).len();
    let i = pick(len);
    let m: u8 = any();
    assume(m != 0);
    d.data[at + i] ^= m;
    let mut r = open(&mut d);
    chk!(r.count() == n, "wrong number of packets");
    for (j, w) in p.iter().enumerate() {
        if j == k && i > spec::HEADER {
            // (what becomes of the damaged one: C06)
            continue;
        }
        match r.nth(j) {
            Ok(Some(g)) => chk!(g.same(w) | (j == k), "another packet at an index"),
            _ => chk!(j == k, "damage to another packet makes a packet unreadable"),
        }
    }
    cover(1);
}
/// The same for ranges: an item for each index, an error for the damaged packet at most.
pub fn h_store_damage_range() {
    let n = 4;
    let p = packets(n, pick(2) * 3);
    let mut d = stored(&p);
    let k = pick(n);
    let at = layout(&p[..k]).len() + if k % CAP == 0 { SLOT } else { 0 };
    let len = wr::packet_bytes(&p[k]).len();
    let i = [0, 8, 16, 24, 28, 29, 33, len - 1][pick(8)].min(len - 1);
    let m: u8 = any();
    assume(m != 0);
    d.data[at + i] ^= m;
    let mut r = open(&mut d);
    // a range over it: an item for each index, an error for the damaged packet at most
    let from = pick(3);
    let len = 2 + pick(2);
    let mut at = from;
    let filtered = pick(2) == 1;
    let mut it: Box<dyn Iterator<Item = std::result::Result<Packet, brec::Error>>> =
        if filtered { Box::new(r.range_filtered(from, len)) } else { Box::new(r.range(from, len)) };
    let mut skipped = false;
    let mut accepted = 0;
    while let Some(g) = it.next() {
        // (a filtered range is asked for a number of packets, errors are not among them)
        let end = if filtered { n } else { (from + len).min(n) };
        chk!((at < end) & (accepted < len), "a range yields more than it was asked for");
        match g {
            Ok(g) => {
                accepted += 1;
                chk!(g.same(&p[at]) | (at == k && i > spec::HEADER), "a range over damage yields another packet")
            }
            Err(_) => {
                chk!(at == k, "damage to another packet breaks a range");
                skipped = true;
            }
        }
        at += 1;
    }
    chk!((at == n) | (accepted == len) | (!filtered & (at == from + len)), "a range over damage ends early");
    log(skipped as u64);
    cover(1);
}
