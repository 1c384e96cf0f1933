//! The packet identifier allocator, against the set of identifiers in use.
use crate::sym::*;
use crate::{ck, cover};
use ruq::verif::PktIds;

struct Set {
    used: Vec<u16>,
    max: u16,
}
impl Set {
    fn has(&self, id: u16) -> bool {
        let mut r = false;
        let mut i = 0;
        while i < self.used.len() {
            r |= self.used[i] == id;
            i += 1;
        }
        r
    }
}
fn take(p: &mut PktIds, s: &mut Set) {
    match p.next_id() {
        Some(id) => {
            // legal, and not in use
            ck!(id >= 1 && id <= s.max);
            ck!(!s.has(id));
            s.used.push(id);
            cover!();
        }
        None => {
            // only when every identifier is in use
            ck!(s.used.len() == s.max as usize);
            cover!();
        }
    }
}
/// a history of k operations from the start: allocate, or return an identifier that is in use
fn history(max: u16, k: u32) {
    let mut p = PktIds::with_max(max);
    let mut s = Set { used: vec![], max };
    let mut i = 0;
    while i < k {
        let n = s.used.len() as u32;
        let c = choice(n + 1);
        if c == 0 {
            take(&mut p, &mut s);
        } else {
            let id = s.used.remove(c as usize - 1);
            p.return_id(id);
        }
        i += 1;
    }
    // everything that is not in use can be had
    let free = max as usize - s.used.len();
    if max <= 8 {
        let mut i = 0;
        while i < free {
            let n = s.used.len();
            take(&mut p, &mut s);
            ck!(s.used.len() == n + 1);
            i += 1;
        }
        ck!(p.next_id().is_none());
        cover!();
    }
}
pub fn h_ids_history() {
    let max = pick(&[1u16, 2, 3, 4, 5, 65535]);
    history(max, 9)
}
pub fn h_ids_history_deep() {
    let max = pick(&[1u16, 2, 3, 4, 5, 6, 7, 65535]);
    history(max, 12)
}
/// returned identifiers are arbitrary 16 bit values, in use or not: what is not in use is ignored
fn arbitrary(max: u16, start: u32, k: u32) {
    let mut p = PktIds::with_max(max);
    let mut s = Set { used: vec![], max };
    let mut i = 0;
    while i < start {
        take(&mut p, &mut s);
        i += 1;
    }
    let mut i = 0;
    while i < k {
        if choice(2) == 0 {
            take(&mut p, &mut s);
        } else {
            let id = u16s();
            assume(id >= 1 && id <= max);
            p.return_id(id);
            let mut j = 0;
            while j < s.used.len() {
                if s.used[j] == id {
                    s.used.remove(j);
                    cover!();
                    break;
                }
                j += 1;
            }
        }
        i += 1;
    }
    if max <= 8 {
        while s.used.len() < max as usize {
            let n = s.used.len();
            take(&mut p, &mut s);
            ck!(s.used.len() == n + 1);
        }
        ck!(p.next_id().is_none());
        cover!();
    }
}
pub fn h_ids_arbitrary() {
    let max = pick(&[1u16, 3, 5, 65535]);
    let start = if max == 65535 { 5 } else { max as u32 };
    arbitrary(max, start, 4)
}
pub fn h_ids_arbitrary_deep() {
    let max = pick(&[2u16, 4, 6, 65535]);
    let start = if max == 65535 { 7 } else { max as u32 };
    arbitrary(max, start, 5)
}
/// the whole range: 65535 identifiers, each once, then none; one or two come back and are had again
pub fn h_ids_full() {
    step_limit(200_000_000);
    let mut p = PktIds::new();
    let mut seen = vec![false; 65536];
    let mut i = 0u32;
    while i < 65535 {
        match p.next_id() {
            Some(id) => {
                if id == 0 || seen[id as usize] {
                    ck!(false);
                }
                seen[id as usize] = true;
            }
            None => ck!(false),
        }
        i += 1;
    }
    ck!(p.next_id().is_none());
    ck!(p.next_id().is_none());
    let a = u16s();
    assume(a != 0);
    p.return_id(a);
    let two = choice(2) == 1;
    let b = u16s();
    assume(b != 0);
    if two {
        p.return_id(b);
    }
    let x = p.next_id();
    if two && a != b {
        let y = p.next_id();
        ck!((x == Some(a) && y == Some(b)) || (x == Some(b) && y == Some(a)));
        cover!();
    } else {
        ck!(x == Some(a));
        cover!();
    }
    ck!(p.next_id().is_none());
}
fn all_free(p: &mut PktIds, s: &mut Set) {
    while s.used.len() < s.max as usize {
        let n = s.used.len();
        take(p, s);
        ck!(s.used.len() == n + 1);
    }
    ck!(p.next_id().is_none());
    cover!();
}
/// all identifiers in use; up to n of them come back in any order
fn permuted(n: u16) {
    let mut p = PktIds::with_max(n);
    let mut s = Set { used: vec![], max: n };
    all_free(&mut p, &mut s);
    loop {
        let k = s.used.len() as u32;
        let c = choice(k + 1);
        if c == k {
            break;
        }
        let id = s.used.remove(c as usize);
        p.return_id(id);
    }
    all_free(&mut p, &mut s);
}
pub fn h_ids_permuted() {
    permuted(7)
}
pub fn h_ids_permuted_deep() {
    permuted(8)
}
/// many identifiers, coming back in regular patterns (some twice), which leaves many gaps
pub fn h_ids_patterns() {
    step_limit(200_000_000);
    let n = pick(&[16u16, 61]);
    let mut p = PktIds::with_max(n);
    let mut s = Set { used: vec![], max: n };
    all_free(&mut p, &mut s);
    let stride = range(1, 7) as u16;
    let part = pick(&[1u16, 2, 3]);
    let order = choice(4);
    let twice = choice(2) == 1;
    let mut r = 0;
    while r < stride {
        // the last part stays in use
        if r % part == part - 1 && part > 1 {
            r += 1;
            continue;
        }
        let mut ids = vec![];
        let mut id = 1 + r;
        while id <= n {
            ids.push(id);
            id += stride;
        }
        let mut i = 0;
        while i < ids.len() {
            let j = match order {
                0 => i,
                1 => ids.len() - 1 - i,
                2 => {
                    if i % 2 == 0 {
                        i / 2
                    } else {
                        ids.len() - 1 - i / 2
                    }
                }
                _ => (i * 5 + 2) % ids.len(),
            };
            let id = ids[j];
            p.return_id(id);
            if twice {
                p.return_id(id);
            }
            s.used.retain(|x| *x != id);
            i += 1;
        }
        r += 1;
    }
    all_free(&mut p, &mut s);
}
/// a window of identifiers in use that moves for a long time
pub fn h_ids_churn() {
    step_limit(400_000_000);
    let n = pick(&[3u16, 8, 40]);
    let w = pick(&[1usize, 2, 3, 7, 39]);
    if w > n as usize {
        return;
    }
    let which = choice(5);
    let mut p = PktIds::with_max(n);
    let mut s = Set { used: vec![], max: n };
    let mut x = 1usize;
    let mut i = 0;
    while i < 600 {
        while s.used.len() < w {
            take(&mut p, &mut s);
        }
        x = (x * 1103515245 + 12345) & 0x7fffffff;
        let k = s.used.len();
        let j = match which {
            0 => 0,
            1 => k - 1,
            2 => k / 2,
            3 => i % k,
            _ => (x >> 8) % k,
        };
        let id = s.used.remove(j);
        p.return_id(id);
        i += 1;
    }
    all_free(&mut p, &mut s);
}
