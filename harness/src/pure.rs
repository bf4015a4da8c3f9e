//! Complete enumeration of bounded inputs of library functions.

use crate::{
    explore::{threads, unwatch, watch_note, Found, Mix, Note, Stats},
    spec::Tags,
};
use std::{
    collections::HashSet,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering::*},
        Mutex,
    },
};

#[derive(Default)]
pub struct Tally {
    seen: HashSet<u128>,
    pub steps: u64,
    pub refused: u64,
    pub open: u64,
}

impl Tally {
    /// A stored artefact (bytes) met on the way.
    pub fn state(&mut self, b: &[u8]) {
        self.seen.insert(Mix::of(b));
    }
    /// A result compared with its expected value.
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) -> Result<(), String> {
        self.steps += 1;
        if got != want {
            let cut = |s: String| if s.len() > 600 { format!("{}…", s.chars().take(600).collect::<String>()) } else { s };
            return Err(format!("{what}: {} instead of {}", cut(format!("{got:?}")), cut(format!("{want:?}"))));
        }
        Ok(())
    }
    pub fn check(&mut self, what: &str, ok: bool) -> Result<(), String> {
        self.steps += 1;
        if ok {
            Ok(())
        } else {
            Err(what.to_string())
        }
    }
}

pub fn enumerate<T: Sync + std::fmt::Debug>(
    name: &'static str,
    tags: Tags,
    mask: Tags,
    items: &[T],
    f: impl Fn(&T, &mut Tally) -> Result<(), String> + Sync,
) -> (Stats, Vec<Found>) {
    if tags & mask == 0 {
        return Default::default();
    }
    let next = AtomicUsize::new(0);
    let all: Mutex<(Tally, Vec<Found>)> = Default::default();
    std::thread::scope(|s| {
        for _ in 0..threads().min(items.len()) {
            s.spawn(|| {
                let mut t = Tally::default();
                let mut found = vec![];
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= items.len() || found.len() > 10 {
                        break;
                    }
                    let note = Note { tags, name, index: i };
                    watch_note(&note);
                    let r = catch_unwind(AssertUnwindSafe(|| crate::vm::quiet(|| f(&items[i], &mut t))));
                    unwatch();
                    let e = match r {
                        Ok(Ok(())) => continue,
                        Ok(Err(e)) => e,
                        Err(p) => format!(
                            "panic: {}",
                            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
                        ),
                    };
                    found.push((i, e));
                }
                let mut g = all.lock().unwrap();
                g.0.seen.extend(t.seen);
                g.0.steps += t.steps;
                g.0.refused += t.refused;
                g.0.open += t.open;
                for (i, e) in found {
                    g.1.push(Found {
                        message: e.clone(),
                        replay: format!("enumeration={name} index={i}\n{e}\ncase: {:?}", items[i]),
                        locator: format!("{name}/{i}"),
                    });
                }
            });
        }
    });
    let (t, mut found) = all.into_inner().unwrap();
    found.sort_by_key(|f| f.locator.rsplit('/').next().and_then(|x| x.parse::<usize>().ok()));
    let mut stats = Stats {
        states: t.seen.len() as u64,
        transitions: t.steps,
        must_fail: t.refused,
        must_succeed: t.steps - t.refused - t.open,
        open: t.open,
        traces: items.len() as u64,
        depth: 1,
        closed: found.is_empty(),
        ..Default::default()
    };
    for i in [items.len() - 1, items.len() / 2] {
        let d = format!("{:?}", items[i]);
        stats.samples.push(format!("{name}: {}", d.chars().take(300).collect::<String>()));
    }
    (stats, found)
}

/// A copy of bytes at an address that is 8-byte aligned plus `off`.
pub struct Aligned {
    store: Vec<u64>,
    off: usize,
    len: usize,
}

impl Aligned {
    pub fn new(b: &[u8]) -> Aligned {
        Self::at(b, 0)
    }
    pub fn at(b: &[u8], off: usize) -> Aligned {
        let mut a = Aligned { store: vec![0; (b.len() + off) / 8 + 2], off, len: b.len() };
        a.bytes_mut().copy_from_slice(b);
        a
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.store.as_ptr() as *const u8).add(self.off), self.len) }
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut((self.store.as_mut_ptr() as *mut u8).add(self.off), self.len) }
    }
}
