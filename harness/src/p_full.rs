//! The storage with slots as shipped (500 packets; built without `--cfg brec_verif`): what happens
//! around the borders of a slot, of a byte and of a page. The packets already there are concrete,
//! the ones added by brec have symbolic content.
use crate::io::*;
use crate::p_store::{layout, open, yields, Shared};
use crate::proto::*;
use crate::rt::*;
use brec::prelude::*;

const BASE: [usize; 10] = [0, 1, 255, 256, 498, 499, 500, 998, 999, 1000];

fn old(n: usize) -> Vec<Packet> {
    (0..n).map(|i| Packet::new(vec![Block::Tiny(Tiny { v: (i % 251) as u8 })], None)).collect()
}
fn added(n: usize) -> Vec<Packet> {
    (0..n)
        .map(|i| {
            if i == 1 {
                Packet::new(vec![], Some(Payload::Bytes(any_vec(2))))
            } else {
                Packet::new(vec![Block::Tiny(any())], None)
            }
        })
        .collect()
}
fn insert(d: &mut Disk, p: &[Packet]) {
    match Writer::new(d) {
        Ok(mut w) => {
            for p in p {
                chk!(w.insert(clone_packet(p)).is_ok(), "a packet cannot be inserted");
            }
        }
        Err(_) => chk!(false, "a storage cannot be opened for writing"),
    }
}
fn at(n: usize) -> usize {
    let all = [0, 127, 128, 254, 255, 256, 257, 497, 498, 499, 500, 501, 511, 512, 997, 998, 999, 1000, 1001, 1002];
    let i = all[pick(all.len())];
    assume(i < n + 2);
    i
}
/// Inserts by one or several writers around the border of a slot, then one access.
pub fn h_full_history() {
    let mut p = old(BASE[pick(BASE.len())]);
    let mut d = Disk::new(layout(&p));
    let new = added(1 + pick(3));
    if pick(2) == 0 {
        insert(&mut d, &new);
    } else {
        for q in new.chunks(1) {
            insert(&mut d, q);
        }
    }
    p.extend(new);
    chk!(same_bytes(&d.data, &layout(&p)), "the file differs from the documented layout");
    d.pos = 0;
    let mut r = open(&mut d);
    chk!(r.count() == p.len(), "wrong number of packets");
    match pick(4) {
        0 => {
            let i = at(p.len());
            match r.nth(i) {
                Ok(Some(q)) => chk!(i < p.len() && q.same(&p[i]), "another packet is read by index"),
                Ok(None) => chk!(i >= p.len(), "a stored packet is missing"),
                Err(_) => chk!(false, "a packet cannot be read by index"),
            }
        }
        1 => {
            let i = at(p.len());
            match r.seek(i) {
                Ok(it) => {
                    chk!(i < p.len(), "seeking behind the last packet");
                    yields(it, &p[i.min(p.len())..]);
                }
                Err(_) => chk!(i >= p.len(), "a stored packet cannot be sought"),
            }
        }
        2 => {
            let i = at(p.len());
            let n = [1, 3, 300][pick(3)];
            yields(r.range(i, n), &p[i.min(p.len())..(i + n).min(p.len())]);
        }
        _ => yields(r.iter(), &p),
    }
    cover(1);
}
/// A reader open while a writer goes over the border of a slot.
pub fn h_full_reload() {
    let mut p = old(BASE[pick(BASE.len())]);
    let file = Shared::new(layout(&p));
    let new = added(1 + pick(3));
    let Ok(mut r) = Reader::new(file.clone()) else {
        chk!(false, "a storage cannot be opened for reading");
        return;
    };
    let before = p.len();
    match Writer::new(file.clone()) {
        Ok(mut w) => {
            for p in &new {
                chk!(w.insert(clone_packet(p)).is_ok(), "a packet cannot be inserted");
            }
        }
        Err(_) => chk!(false, "a storage cannot be opened for writing"),
    }
    chk!(r.count() == before, "a reader sees packets before it is reloaded");
    p.extend(new);
    match r.reload() {
        Ok(n) => chk!(n == p.len() - before, "reload reports another number of packets"),
        Err(_) => chk!(false, "reload fails"),
    }
    chk!(r.count() == p.len(), "wrong number of packets after a reload");
    let i = at(p.len());
    match r.nth(i) {
        Ok(Some(q)) => chk!(i < p.len() && q.same(&p[i]), "another packet is read after a reload"),
        Ok(None) => chk!(i >= p.len(), "a packet is missing after a reload"),
        Err(_) => chk!(false, "a packet cannot be read after a reload"),
    }
    cover(1);
}
